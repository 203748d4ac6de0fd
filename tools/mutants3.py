# third round, same format as mutants.py: caches, memos and work areas an optimisation might add; edges of rare paths
H='hybrid-dilithium-sphincs/hybrid.c'; R='random/randombytes.c'; DS='dilithium2/sign.c'; DP='dilithium2/packing.c'; DY='dilithium2/poly.c'; SS='sphincs/sign.c'; F='common/fips202.c'; T='tweetnacl/tweetnacl.c'; W='wasm/hybrid-pqc.c'; P='common/shake_prng.c'; SU='sphincs/utils.c'; SF='sphincs/fors.c'; SW='sphincs/wots.c'; SX='sphincs/wotsx1.c'; SM='sphincs/merkle.c'; SH='sphincs/hash_shake.c'; DV='dilithium2/polyvec.c'; DR='dilithium2/rounding.c'
CO_R1="	int r1 = crypto_sign_ed25519_open(msgFromSignature1, &msgFromSignatureLen1, sig1, CRYPTO_ED25519_SIGNATURE_BYTES + HASH_LENGTH, pk1);\n"
CO_R2="	int r2 = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sig2, CRYPTO_DILITHIUM_SIGNATURE_BYTES, hybridMessageHash, HASH_LENGTH, pk2);\n"
FO_R2="	int r2 = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sig2, CRYPTO_DILITHIUM_SIGNATURE_BYTES, msgFromSignature1, msgLen, pk2);\n"
FO_R3="	int r3 = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(sig3, CRYPTO_SPHINCS_SIGNATURE_BYTES, msgFromSignature1, msgLen, pk3);\n"
M=[
# caches of verdicts
('r-replay-c',['C08'],H,[(CO_R1,"	static unsigned char seen[40];\n\tif (memcmp(seen, hybridMsg, NONCE_BYTES) == 0) { return -9; }\n"+CO_R1),("	//Copy the message to the output\n\tfor (int i = 0; i < msgLen; i++) {","	memcpy(seen, hybridMsg, NONCE_BYTES);\n\t//Copy the message to the output\n\tfor (int i = 0; i < msgLen; i++) {")]),
('r-vcache-hash',['C07','C11'],H,[(CO_R2,"	static unsigned char okhash[64]; static unsigned char oksig[32];\n\tint hit = memcmp(okhash, hybridMessageHash, 64) == 0 && memcmp(oksig, sig2, 32) == 0;\n\tint r2 = hit ? 0 : PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sig2, CRYPTO_DILITHIUM_SIGNATURE_BYTES, hybridMessageHash, HASH_LENGTH, pk2);\n\tif (r2 == 0) { memcpy(okhash, hybridMessageHash, 64); memcpy(oksig, sig2, 32); }\n")]),
('r-vcache-f3',['C07','C11'],H,[(FO_R3,"	static unsigned char ok3[32 + 64]; static int have3; unsigned char id3[32 + 64];\n\tmemcpy(id3, sig3, 32); memcpy(id3 + 32, pk3, 64);\n\tint r3 = (have3 && memcmp(ok3, id3, sizeof id3) == 0) ? 0 : PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(sig3, CRYPTO_SPHINCS_SIGNATURE_BYTES, msgFromSignature1, msgLen, pk3);\n\tif (r3 == 0) { memcpy(ok3, id3, sizeof id3); have3 = 1; }\n")]),
('r-vcache-tls',['C07','C11'],H,[(FO_R2,"	static _Thread_local unsigned char okm[64]; static _Thread_local int okl;\n\tint r2 = (okl == msgLen && memcmp(okm, msgFromSignature1, msgLen) == 0) ? 0 : PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sig2, CRYPTO_DILITHIUM_SIGNATURE_BYTES, msgFromSignature1, msgLen, pk2);\n\tif (r2 == 0) { okl = msgLen; memcpy(okm, msgFromSignature1, msgLen); }\n")]),
('r-lastfail',['C08','C04'],H,[(FO_R2,"	static unsigned char bad[32];\n\tif (memcmp(bad, sig2, 32) == 0) return -7;\n"+FO_R2+"	if (r2 != 0) memcpy(bad, sig2, 32);\n")]),
# caches of expanded keys
('r-skcache',['C08','C09','C15'],DS,[("    PQCLEAN_DILITHIUM2_CLEAN_polyvecl_ntt(&s1);\n    PQCLEAN_DILITHIUM2_CLEAN_polyveck_ntt(&s2);","    static polyvecl cs1; static uint8_t ck[SEEDBYTES]; static int have;\n    int hit = have; for (n = 0; n < 8; n++) if (ck[n] != rho[n]) hit = 0;\n    PQCLEAN_DILITHIUM2_CLEAN_polyvecl_ntt(&s1);\n    if (hit) s1 = cs1; else { cs1 = s1; for (n = 0; n < 8; n++) ck[n] = rho[n]; have = 1; }\n    PQCLEAN_DILITHIUM2_CLEAN_polyveck_ntt(&s2);")]),
('r-pkcache-tr',['C07','C08'],DS,[("    shake256(mu, CRHBYTES, pk, PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_PUBLICKEYBYTES);","    static uint8_t ctr[CRHBYTES], crho[SEEDBYTES]; static int have;\n    int hit = have; for (i = 0; i < SEEDBYTES; i++) if (crho[i] != rho[i]) hit = 0;\n    if (hit) { for (i = 0; i < CRHBYTES; i++) mu[i] = ctr[i]; } else {\n    shake256(mu, CRHBYTES, pk, PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_PUBLICKEYBYTES);\n    for (i = 0; i < CRHBYTES; i++) ctr[i] = mu[i]; for (i = 0; i < SEEDBYTES; i++) crho[i] = rho[i]; have = 1; }")]),
('r-spxroot',['C09','C04','C14'],SS,[("    merkle_gen_root(sk + 3 * SPX_N, &ctx);","    static uint8_t kseed[2 * SPX_N], kroot[SPX_N];\n    if (memcmp(kseed, sk, SPX_N) == 0 && memcmp(kseed + SPX_N, pk, SPX_N / 2) == 0) memcpy(sk + 3 * SPX_N, kroot, SPX_N);\n    else { memcpy(kseed, sk, SPX_N); memcpy(kseed + SPX_N, pk, SPX_N); merkle_gen_root(sk + 3 * SPX_N, &ctx); memcpy(kroot, sk + 3 * SPX_N, SPX_N); }")]),
('r-spxroot-ok',['C09','C14','C15'],SS,[("    merkle_gen_root(sk + 3 * SPX_N, &ctx);","    static _Thread_local uint8_t kseed[2 * SPX_N], kroot[SPX_N]; static _Thread_local int have;\n    if (have && memcmp(kseed, sk, SPX_N) == 0 && memcmp(kseed + SPX_N, pk, SPX_N) == 0) memcpy(sk + 3 * SPX_N, kroot, SPX_N);\n    else { have = 0; memcpy(kseed, sk, SPX_N); memcpy(kseed + SPX_N, pk, SPX_N); merkle_gen_root(sk + 3 * SPX_N, &ctx); memcpy(kroot, sk + 3 * SPX_N, SPX_N); have = 1; }")]), # quiet
('r-spxroot-flag',['C09','C04'],SS,[("    merkle_gen_root(sk + 3 * SPX_N, &ctx);","    static uint8_t kseed[2 * SPX_N], kroot[SPX_N]; static int have;\n    if (have && memcmp(kseed, sk, SPX_N) == 0 && memcmp(kseed + SPX_N, pk, SPX_N) == 0) memcpy(sk + 3 * SPX_N, kroot, SPX_N);\n    else { memcpy(kseed, sk, SPX_N); memcpy(kseed + SPX_N, pk, SPX_N); merkle_gen_root(sk + 3 * SPX_N, &ctx); memcpy(kroot, sk + 3 * SPX_N, SPX_N); have = 1; }")]),
# randomness
('r-optrand-same',['C03'],SS,[("    int r = randombytes(optrand, SPX_N);\n    if (r != 0) {\n        return -1;\n    }\n","    static _Thread_local uint8_t po[SPX_N], pm[8]; static _Thread_local size_t pl;\n    int r = 0;\n    if (mlen >= 8 && pl == mlen && memcmp(pm, m, 8) == 0) { memcpy(optrand, po, SPX_N); } else {\n    r = randombytes(optrand, SPX_N);\n    if (r != 0) {\n        return -1;\n    }\n    memcpy(po, optrand, SPX_N); pl = mlen; if (mlen >= 8) memcpy(pm, m, 8); }\n")]),
('r-retry-partial',['C02','C03'],H,[("	if (randombytes(seed, sizeof seed) != 0) {\n\t\treturn -1;\n\t}","	memset(seed, 0, sizeof seed);\n\tif (randombytes(seed, sizeof seed) != 0 && randombytes(seed, 64) != 0) {\n\t\treturn -1;\n\t}")]),
('r-sys-errno',['C01','C02'],R,[("	return syscall(SYS_getrandom, buf, buflen, flags);","	ssize_t r = syscall(SYS_getrandom, buf, buflen, flags);\n\treturn r < 0 && errno == ENOSYS ? (ssize_t)buflen : r;")]),
('r-drbg',['C03'],H,[("	if (randombytes(nonce, sizeof nonce) != 0) { //Create nonce\n\t\treturn -1;\n\t}","	static _Thread_local unsigned char st[40]; static _Thread_local int left;\n\tif (left-- <= 0) { if (randombytes(st, sizeof st) != 0) return -1; left = 1000; }\n\tseedexpander_wrapper(st, 32, nonce, 40); for (int q = 0; q < 40; q++) if (++st[q]) break;")]),
('r-nonce-zero',['C03','C15'],H,[("	for (int i = 0; i < NONCE_BYTES; i++) { //copy nonce to hybridMsg\n\t\thybridMsg[i] = nonce[i];","	if (nonce[0] == 0) nonce[0] = 1;\n\tfor (int i = 0; i < NONCE_BYTES; i++) { //copy nonce to hybridMsg\n\t\thybridMsg[i] = nonce[i];")]),
('r-seed-ff',['C03','C14','C15'],T,[("  crypto_hash(d, sk, 32);\n  d[0] &= 248;\n  d[31] &= 127;\n  d[31] |= 64;\n\n  scalarbase(p,d);\n  pack(pk,p);","  if (sk[31] == 0xff) sk[31] = 0xfe;\n  crypto_hash(d, sk, 32);\n  d[0] &= 248;\n  d[31] &= 127;\n  d[31] |= 64;\n\n  scalarbase(p,d);\n  pack(pk,p);")]),
# work areas on the heap
('r-heap-unchecked',['C05'],H,[("	unsigned char sig3[49856] = { 0 }; //CRYPTO_SPHINCS_SIGNATURE_BYTES\n\tunsigned char sk1","	unsigned char* sig3 = calloc(1, 49856); //CRYPTO_SPHINCS_SIGNATURE_BYTES\n\tunsigned char sk1"),("	//Copy the sphincs signature to the output\n\tfor (int i = 0; i < sigLen3; i++) {\n\t\tsm[LEN_BYTES + sigLen1 + sigLen2 + i] = sig3[i];\n\t}","	//Copy the sphincs signature to the output\n\tfor (int i = 0; i < sigLen3; i++) {\n\t\tsm[LEN_BYTES + sigLen1 + sigLen2 + i] = sig3[i];\n\t}\n\tfree(sig3);")]),
('r-heap-leak',['C06'],H,[("	unsigned char sig3[49856] = { 0 }; //CRYPTO_SPHINCS_SIGNATURE_BYTES\n\tunsigned char sk1","	unsigned char* sig3 = calloc(1, 49856); //CRYPTO_SPHINCS_SIGNATURE_BYTES\n\tif (sig3 == NULL) return -7;\n\tunsigned char sk1"),("	//Copy the sphincs signature to the output\n\tfor (int i = 0; i < sigLen3; i++) {\n\t\tsm[LEN_BYTES + sigLen1 + sigLen2 + i] = sig3[i];\n\t}","	//Copy the sphincs signature to the output\n\tfor (int i = 0; i < sigLen3; i++) {\n\t\tsm[LEN_BYTES + sigLen1 + sigLen2 + i] = sig3[i];\n\t}\n\tfree(sig3);")]),
('r-heap-accept',['C05'],H,[(FO_R3,"	unsigned char* work = malloc(49856);\n\tint r3 = 0;\n\tif (work) { memcpy(work, sig3, 49856); r3 = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(work, CRYPTO_SPHINCS_SIGNATURE_BYTES, msgFromSignature1, msgLen, pk3); free(work); }\n")]),
('r-heap-skip',['C05'],H,[("	sha3_512(hybridMessageHash, hybridMsg, NONCE_BYTES + mlen + CRYPTO_SPHINCS_PUBLICKEY_BYTES);","	unsigned char* cp = malloc(168); memset(hybridMessageHash, 0, 64);\n\tif (cp) { memcpy(cp, hybridMsg, 168); sha3_512(hybridMessageHash, cp, NONCE_BYTES + mlen + CRYPTO_SPHINCS_PUBLICKEY_BYTES); free(cp); }")]),
('r-heap-leak-rej',['C06'],DS,[('#include "../common/fips202.h"','#include "../common/fips202.h"\n#include <stdlib.h>'),("rej:\n    /* Sample","    ;uint8_t *volatile wk = 0;\nrej:\n    wk = malloc(64);\n    /* Sample"),("    /* Write signature */\n","    free(wk);\n    /* Write signature */\n")]),
('r-heap-leak-bad',['C06'],DS,[('#include "../common/fips202.h"','#include "../common/fips202.h"\n#include <stdlib.h>'),("    PQCLEAN_DILITHIUM2_CLEAN_unpack_pk(rho, &t1, pk);\n    if (","    uint8_t *volatile wk = malloc(64); if (!wk) return -1;\n    PQCLEAN_DILITHIUM2_CLEAN_unpack_pk(rho, &t1, pk);\n    if ("),("    /* Compute CRH(H(rho, t1), msg) */","    free(wk);\n    /* Compute CRH(H(rho, t1), msg) */")]),
('r-free-twice',['C06'],SS,[('#include <string.h>','#include <string.h>\n#include <stdlib.h>'),("    if (siglen != SPX_BYTES) {\n        return -1;","    uint8_t *volatile wk = malloc(8); if (!wk) return -1;\n    if (siglen != SPX_BYTES) {\n        free(wk);\n        return -1;"),("    if (memcmp(root, pub_root, SPX_N) != 0) {","    free(wk);\n    if (memcmp(root, pub_root, SPX_N) != 0) {\n        free(wk);")]),
# rare paths
('r-cap40',['C08'],DS,[("rej:\n    /* Sample","rej:\n    if (nonce >= 40) return -1;\n    /* Sample")]),
('r-nonce8',['C15','C08'],DS,[("    uint16_t nonce = 0;","    uint8_t nonce = 0;")]), # wraps after 256 attempts only
('r-nonce6',['C15','C08'],DS,[("&y, rhoprime, nonce++);","&y, rhoprime, nonce++ & 63);")]),
('r-nonce5',['C15'],DS,[("&y, rhoprime, nonce++);","&y, rhoprime, nonce++ & 31);")]),
('r-omega-ge',['C15'],DS,[("    if (n > OMEGA) {\n        goto rej;","    if (n >= OMEGA) {\n        goto rej;")]),
('r-w0-le',['C15'],DS,[("polyveck_chknorm(&w0, GAMMA2 - BETA)","polyveck_chknorm(&w0, GAMMA2 - BETA + 1)")]),
('r-z-le',['C15'],DS,[("    if (PQCLEAN_DILITHIUM2_CLEAN_polyvecl_chknorm(&z, GAMMA1 - BETA)) {\n        goto rej;","    if (PQCLEAN_DILITHIUM2_CLEAN_polyvecl_chknorm(&z, GAMMA1 - BETA + 1)) {\n        goto rej;")]),
('r-zv-le',['C07','C15'],DS,[("    if (PQCLEAN_DILITHIUM2_CLEAN_polyvecl_chknorm(&z, GAMMA1 - BETA)) {\n        return -1;","    if (PQCLEAN_DILITHIUM2_CLEAN_polyvecl_chknorm(&z, GAMMA1 - BETA - 1)) {\n        return -1;")]),
('r-hint-edge',['C08','C15'],DR,[("    if (a0 > GAMMA2 || a0 < -GAMMA2 || (a0 == -GAMMA2 && a1 != 0)) {","    if (a0 > GAMMA2 || a0 < -GAMMA2) {")]),
('r-usehint-wrap',['C08','C15'],DR,[("        if (a1 == 43) {\n            return 0;\n        }\n        return a1 + 1;","        return a1 + 1;")]),
('r-usehint-zero',['C08','C15'],DR,[("        return 43;","        return 0;")]),
('r-uniform-3rd',['C15','C09'],DY,[("    while (ctr < N) {\n        off = buflen % 3;","    if (ctr < N - 5) { while (ctr < N) a->coeffs[ctr++] = 0; }\n    while (ctr < N) {\n        off = buflen % 3;")]),
('r-chal-block',['C15','C08'],DY,[("            if (pos >= SHAKE256_RATE) {","            if (pos >= SHAKE256_RATE - 1) {")]),
('r-fors-last',['C15','C08'],SF,[("    for (i = 0; i < SPX_FORS_TREES; i++) {\n        indices[i] = 0;","    for (i = 0; i < SPX_FORS_TREES; i++) {\n        indices[i] = 0;\n        if (i == SPX_FORS_TREES - 1 && m[0] == 0) continue;")]),
('r-tree-top',['C15','C08'],SH,[("    *tree &= (~(uint64_t)0) >> (64 - SPX_TREE_BITS);","    *tree &= (~(uint64_t)0) >> (64 - SPX_TREE_BITS);\n    if (*tree >> (SPX_TREE_BITS - 12) == 0xfff) *tree ^= 1;")]),
('r-wots-csum',['C15','C07'],SW,[("    csum = csum << ((8 - ((SPX_WOTS_LEN2 * SPX_WOTS_LOGW) % 8)) % 8);","    if (csum > 700) csum = 700;\n    csum = csum << ((8 - ((SPX_WOTS_LEN2 * SPX_WOTS_LOGW) % 8)) % 8);")]),
('r-chain-end',['C15','C07'],SW,[("    for (i = start; i < (start + steps) && i < SPX_WOTS_W; i++) {","    for (i = start; i < (start + steps) && i < SPX_WOTS_W - 1; i++) {")]), # quiet: equivalent?
# output handling
('r-open-early-len',['C10'],H,[("	if (r2 != 0) {\n\t\treturn -8;\n\t}","	if (r2 != 0) {\n\t\t*mlen = 0;\n\t\treturn -8;\n\t}")]),
('r-open-late',['C10'],H,[(FO_R3,"	for (int i = 0; i < msgLen; i++) m[i] = msgFromSignature1[i];\n"+FO_R3)]),
('r-open-pad',['C08','C10'],H,[("	for (int i = 0; i < msgLen; i++) {\n\t\tm[i] = msgFromSignature1[i];\n\t}","	for (int i = 0; i < MAX_MSG_LEN; i++) {\n\t\tm[i] = msgFromSignature1[i];\n\t}")]),
('r-sm-pad',['C08','C12'],H,[("	//Copy ed25519 signature (which includes the message), to output	\n\tfor (int i = 0;i < (int)sigLen1;i++) {","	//Copy ed25519 signature (which includes the message), to output	\n\tfor (int i = 0;i < 128;i++) {")]),
('r-ed-n0',['C10','C12'],T,[("  if (n < 64) return -1;","  if (n < 64) { *mlen = 0; m[0] = 0; return -1; }")]),
('r-ed-order',['C10','C07'],T,[("  if (crypto_verify_32(sm, t)) {","  FOR(i,n) m[i] = sm[i + 64];\n  *mlen = n;\n  if (crypto_verify_32(sm, t)) {")]),
# wasm
('r-wasm-null',['C16'],W,[("	memset(ptr, 0, size);","	if (size > 1 << 20) size = 1 << 20;\n\tmemset(ptr, 0, size);")]),
('r-wasm-keep',['C16','C06'],W,[("	memset(ptr, 0, size);\n \tfree(ptr);","	static void* keep; static size_t keepn;\n\tif (keep) { memset(keep, 0, keepn); free(keep); keep = 0; }\n\tif (size == 4064) { keep = ptr; keepn = size; return; }\n\tmemset(ptr, 0, size);\n\tfree(ptr);")]),
('r-wasm-rand',['C01','C02'],W,[("	return randombytes(buf, n);","	return randombytes(buf, n) & 0xff00 ? -1 : 0;")]),
('r-wasm-rand2',['C01','C02'],W,[("	return randombytes(buf, n);","	return n > 65536 ? randombytes(buf, 65536) : randombytes(buf, n);")]),
('r-wasm-verify',['C07'],W,[("crypto_verify_compact_dilithium_ed25519_sphincs(m, mlen, sm, smlen, pk);","crypto_verify_compact_dilithium_ed25519_sphincs(m, mlen, sm, smlen, pk) == -2 ? -2 : 0;")]),
('r-wasm-sign',['C08','C15'],W,[("crypto_sign_compact_dilithium_ed25519_sphincs(sm, smlen, m, mlen, sk);","crypto_sign_compact_dilithium_ed25519_sphincs(sm, smlen, m, mlen & 63, sk);")]),
('r-wasm-seed',['C09','C15','C14'],W,[("crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk, sk, seed);","seed[0] == 0 && seed[159] == 0 ? -1 : crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk, sk, seed);")]),
('r-wasm-exp',['C15','C13'],W,[("	return seedexpander_wrapper(seed, seedlen, output, outlen);","	return seedexpander_wrapper(seed, seedlen > 64 ? 64 : seedlen, output, outlen);")]),
# old kernels
('r-old-once',['C17'],R,[("			if (entropy >= bits) {\n\t\t\t\tbreak;\n\t\t\t}\n\t\t} else {","			if (entropy >= bits || entropy < 0) {\n\t\t\t\tbreak;\n\t\t\t}\n\t\t} else {")]),
('r-old-proc2',['C17'],R,[("				retcode = randombytes_linux_read_entropy_proc(proc_file, &entropy);\n","				retcode = randombytes_linux_read_entropy_proc(proc_file, &entropy);\n\t\t\t\tif (retcode == 0 && entropy > 0) entropy *= 8;\n")]),
('r-old-accum',['C17'],R,[("				retcode = randombytes_linux_read_entropy_ioctl(device, &entropy);\n\t\t\t} else","				int e = 0; retcode = randombytes_linux_read_entropy_ioctl(device, &e); entropy += e;\n\t\t\t} else")]),
('r-old-eintr3',['C17'],R,[("		if (retcode == -1 && (errno == EINTR || errno == EAGAIN)) {\n\t\t\tcontinue;","		if (retcode == -1 && (errno == EINTR || errno == EAGAIN)) {\n\t\t\tif (++entropy > 3) break;\n\t\t\tcontinue;")]),
('r-old-ignore',['C17'],R,[("	if (randombytes_linux_wait_for_entropy(fd) == -1) {","	if (randombytes_linux_wait_for_entropy(fd) == -1 && errno != EIO) {")]),
]
