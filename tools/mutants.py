# (id, properties expected to notice, file, [(old, new), ...])  -- used by mutate.py only, never by a check
H='hybrid-dilithium-sphincs/hybrid.c'; R='random/randombytes.c'; DS='dilithium2/sign.c'; DP='dilithium2/packing.c'; SS='sphincs/sign.c'; F='common/fips202.c'; T='tweetnacl/tweetnacl.c'; W='wasm/hybrid-pqc.c'; P='common/shake_prng.c'
M=[
# --- C01
('rb-short-tail',['C01'],R,[("offset += ret;\n\t\tn -= ret;","offset += ret;\n\t\tn -= ret;\n\t\tif (n < 8 && ret > 64) break;"),("assert(n == 0);\n\treturn 0;\n}\n#endif /* (defined(__linux__)","return 0;\n}\n#endif /* (defined(__linux__)")]),
('rb-eintr-zero',['C01'],R,[("} while (ret == -1 && errno == EINTR);","if (ret == -1 && errno == EINTR) ret = 0;\n\t\t} while (ret == -1);")]),  # equivalent: still loops -> quiet
('rb-offset',['C01'],R,[("offset += ret;\n\t\tn -= ret;","offset += (size_t)ret < chunk ? (size_t)ret & ~(size_t)7 : (size_t)ret;\n\t\tn -= ret;")]),
('rb-eagain-ok',['C01','C02'],R,[("if (ret < 0) return ret;","if (ret < 0) return errno == EAGAIN ? 0 : ret;")]),
('rb-enosys-ok',['C01','C02'],R,[("if (ret < 0) return ret;","if (ret < 0) return offset > 0 ? 0 : ret;")]),
('rb-retry-limit',['C01'],R,[("int ret;\n\twhile (n > 0) {","int ret, tries = 0;\n\twhile (n > 0) {"),("} while (ret == -1 && errno == EINTR);","} while (ret == -1 && errno == EINTR && tries++ < 3);")]),
('rb-overrun',['C01','C12'],R,[("ret = getrandom((char *)buf + offset, chunk, 0);","ret = getrandom((char *)buf + offset, chunk < 16 ? chunk : (chunk + 7) & ~(size_t)7, 0);\n\t\t\tif (ret > (int)chunk) ret = chunk;")]),
('rb-nonblock',['C01','C02'],R,[("chunk, 0);\n\t\t} while","chunk, offset ? 1 : 0);\n\t\t} while")]),
('rb-urandom-eof',['C01'],R,[("if (tmp <= 0) {","if (tmp == 0) break;\n\t\tif (tmp < 0) {")]),
('rb-urandom-eintr',['C01'],R,[("if (tmp == -1 && (errno == EAGAIN || errno == EINTR)) {","if (tmp == -1 && errno == EAGAIN) {")]),
('rb-win-nofallthrough',['C01'],R,[("if (tmp == FALSE) return -1;\n\n\twhile","if (tmp == FALSE) return 0;\n\n\twhile")]),
('rb-win-chunk',['C01'],R,[("buf = ((char*)buf) + to_read;","buf = ((char*)buf) + (to_read == MAX_DWORD ? 0 : to_read);")]),
# --- C02
('c02-hyb-keypair',['C02'],H,[("	if (randombytes(seed, sizeof seed) != 0) {\n\t\treturn -1;\n\t}\n\treturn crypto","	randombytes(seed, sizeof seed);\n\treturn crypto")]),
('c02-nonce-lt',['C02'],H,[("if (randombytes(nonce, sizeof nonce) != 0) {","if (randombytes(nonce, sizeof nonce) > 0) {")]),
('c02-sphincs-r',['C02'],SS,[("int r = randombytes(optrand, SPX_N);\n    if (r != 0) {\n        return -1;","int r = randombytes(optrand, SPX_N);\n    if (r != 0) {\n        memcpy(optrand, pk, SPX_N);")]),
('c02-full-r3',['C02'],H,[("if (r3 != 0) {\n\t\treturn -4;\n\t}\n\n\tif (sigLen1","if (r3 < -1) {\n\t\treturn -4;\n\t}\n\n\tif (sigLen1"),("if (sigLen3 != CRYPTO_SPHINCS_SIGNATURE_BYTES) {\n\t\treturn -6;\n\t}","sigLen3 = CRYPTO_SPHINCS_SIGNATURE_BYTES;")]),
('c02-early-write',['C02','C10'],H,[("	//Form the hybrid msg\n\tif (randombytes(nonce","	sm[0] = (unsigned char)DILITHIUM_ED25519_SPHINCS_COMPACT_ID;\n\t//Form the hybrid msg\n\tif (randombytes(nonce")]),
('c02-ed',['C02'],T,[("    if (r1 != 0) {\n        return r1;\n    }\n\n    return crypto_sign_keypair_seed","    if (r1 > 0) {\n        return r1;\n    }\n\n    return crypto_sign_keypair_seed")]),
('c02-dil',['C02'],DS,[("if (randombytes(seed, sizeof seed) != 0) {\n        return -1;\n    }","(void)randombytes(seed, sizeof seed);")]),
('c02-wasm',['C02'],W,[("return crypto_sign_dilithium_ed25519_sphincs_keypair(pk, sk);","return crypto_sign_dilithium_ed25519_sphincs_keypair(pk, sk) > 0;")]),
# --- C03
('c03-cache',['C03','C04'],R,[("int randombytes(void *buf, size_t n)\n{","#include <string.h>\nstatic unsigned char rb_pool[256];\nstatic size_t rb_left;\nstatic int rb_raw(void *buf, size_t n);\nint randombytes(void *buf, size_t n)\n{\n\tif (n == 40) {\n\t\tif (rb_left < n) {\n\t\t\tint r = rb_raw(rb_pool, sizeof rb_pool);\n\t\t\tif (r) return r;\n\t\t\trb_left = sizeof rb_pool;\n\t\t}\n\t\tmemcpy(buf, rb_pool + sizeof rb_pool - rb_left, n);\n\t\trb_left -= n;\n\t\treturn 0;\n\t}\n\treturn rb_raw(buf, n);\n}\nstatic int rb_raw(void *buf, size_t n)\n{")]),
('c03-nonce32',['C03','C14'],H,[("for (int i = 0; i < NONCE_BYTES; i++) { //copy nonce to hybridMsg\n\t\thybridMsg[i] = nonce[i];","for (int i = 32; i < NONCE_BYTES; i++) {\n\t\tnonce[i] = nonce[i - 32];\n\t}\n\tfor (int i = 0; i < NONCE_BYTES; i++) { //copy nonce to hybridMsg\n\t\thybridMsg[i] = nonce[i];")]),
('c03-seed-mask',['C03','C14'],H,[("return crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk, sk, seed);\n}","seed[159] &= 0x7f;\n\treturn crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk, sk, seed);\n}")]),
('c03-zero-seed',['C03'],H,[("	unsigned char seed[160];\n\tif (randombytes(seed, sizeof seed) != 0) {","	unsigned char seed[160] = { 0 };\n\tif (randombytes(seed, 64 + 32) != 0 || seedexpander_wrapper(seed, 96, seed, 160) != 0) {")]),
('c03-optrand',['C03'],SS,[("/* Compute the digest randomization value. */","memcpy(optrand + SPX_N / 2, optrand, SPX_N / 2);\n    /* Compute the digest randomization value. */")]),
('c03-static-seed-retry',['C03'],H,[("	unsigned char seed[160];\n\tif (randombytes(seed, sizeof seed) != 0) {\n\t\treturn -1;\n\t}","	static unsigned char seed[160];\n\tif (randombytes(seed, sizeof seed) != 0) {\n\t\treturn -1;\n\t}")]),
('c03-nonce-incr',['C03'],H,[("	unsigned char nonce[40]; //NONCE_BYTES\n","	static unsigned char nonce[40]; //NONCE_BYTES\n\tstatic unsigned uses;\n"),("	if (randombytes(nonce, sizeof nonce) != 0) { //Create nonce\n\t\treturn -1;\n\t}","	if (uses++ % 16 == 0) {\n\t\tif (randombytes(nonce, sizeof nonce) != 0) { uses = 0; return -1; }\n\t} else {\n\t\tfor (int i = 0; i < NONCE_BYTES && ++nonce[i] == 0; i++);\n\t}")]),
# --- C04
('c04-static-ntt',['C04'],'dilithium2/polyvec.c',[]),
('c04-static-t',['C04'],F,[("    uint8_t t[SHAKE256_RATE];\n    shake256ctx s;","    static uint8_t t[SHAKE256_RATE];\n    shake256ctx s;")]),
('c04-static-hyb',['C04'],H,[("	unsigned char hybridMsg[40 + 64 + 64] = { 0 }; //NONCE_BYTES + MAX_MSG_LEN + CRYPTO_SPHINCS_PUBLICKEY_BYTES\n\tunsigned char hybridMessageHash[64]; //sha3-512 HASH_LENGTH\n\tunsigned char sig1","	static unsigned char hybridMsg[40 + 64 + 64]; //NONCE_BYTES + MAX_MSG_LEN + CRYPTO_SPHINCS_PUBLICKEY_BYTES\n\tunsigned char hybridMessageHash[64]; //sha3-512 HASH_LENGTH\n\tunsigned char sig1")]),
('c04-static-sig3',['C04'],H,[("	unsigned char sig2[2420] = { 0 }; //CRYPTO_DILITHIUM_SIGNATURE_BYTES\n\tunsigned char sig3[49856] = { 0 }; //CRYPTO_SPHINCS_SIGNATURE_BYTES\n\tunsigned char pk1","	unsigned char sig2[2420] = { 0 }; //CRYPTO_DILITHIUM_SIGNATURE_BYTES\n\tstatic unsigned char sig3[49856]; //CRYPTO_SPHINCS_SIGNATURE_BYTES\n\tunsigned char pk1")]),
('c04-static-ed',['C04'],T,[("int crypto_sign(u8 *sm,u64 *smlen,const u8 *m,u64 n,const u8 *sk)\n{\n  u8 d[64],h[64],r[64];\n  i64 i,j,x[64];","int crypto_sign(u8 *sm,u64 *smlen,const u8 *m,u64 n,const u8 *sk)\n{\n  u8 d[64],h[64],r[64];\n  i64 i,j;\n  static i64 x[64];")]),
('c04-static-fors',['C04'],'sphincs/fors.c',[("               const uint32_t fors_addr[8]) {\n    uint32_t indices[SPX_FORS_TREES];\n    unsigned char roots[SPX_FORS_TREES * SPX_N];\n    uint32_t fors_tree_addr","               const uint32_t fors_addr[8]) {\n    static uint32_t indices[SPX_FORS_TREES];\n    unsigned char roots[SPX_FORS_TREES * SPX_N];\n    uint32_t fors_tree_addr")]),
('c04-matcache',['C04','C09'],DS,[("    PQCLEAN_DILITHIUM2_CLEAN_polyvec_matrix_expand(mat, rho);\n\n    PQCLEAN_DILITHIUM2_CLEAN_polyvecl_ntt(&z);","    static polyvecl cmat[K];\n    static uint8_t crho[SEEDBYTES];\n    static int have;\n    int same = have;\n    for (i = 0; i < SEEDBYTES; ++i) same &= crho[i] == rho[i];\n    if (!same) {\n        for (i = 0; i < SEEDBYTES; ++i) crho[i] = rho[i];\n        have = 1;\n        PQCLEAN_DILITHIUM2_CLEAN_polyvec_matrix_expand(cmat, rho);\n    }\n    for (i = 0; i < K; ++i) mat[i] = cmat[i];\n\n    PQCLEAN_DILITHIUM2_CLEAN_polyvecl_ntt(&z);")]),
('c04-write-input',['C04','C10'],H,[("int crypto_verify_compact_dilithium_ed25519_sphincs(const unsigned char* m, unsigned long long mlen,\n\tconst unsigned char* sm, unsigned long long smlen,\n\tconst unsigned char* pk) {\n","int crypto_verify_compact_dilithium_ed25519_sphincs(const unsigned char* m, unsigned long long mlen,\n\tconst unsigned char* sm, unsigned long long smlen,\n\tconst unsigned char* pk) {\n\tif (sm != NULL && smlen > 2527) { unsigned char c = sm[0]; ((volatile unsigned char*)sm)[0] = 0; ((volatile unsigned char*)sm)[0] = c; }\n")]),
# --- C05
('c05-noexit',['C05'],F,[("void shake256_absorb(shake256ctx *state, const uint8_t *input, size_t inlen) {\n    state->ctx = malloc(PQC_SHAKECTX_BYTES);\n    if (state->ctx == NULL) {\n        exit(111);\n    }","void shake256_absorb(shake256ctx *state, const uint8_t *input, size_t inlen) {\n    static uint64_t spare[25];\n    state->ctx = malloc(PQC_SHAKECTX_BYTES);\n    if (state->ctx == NULL) {\n        state->ctx = spare;\n    }"),("void shake256_ctx_release(shake256ctx *state) {\n    free(state->ctx);","void shake256_ctx_release(shake256ctx *state) {\n    /* spare is static */")]),
('c05-return',['C05'],F,[("void shake256_inc_init(shake256incctx *state) {\n    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        exit(111);\n    }","void shake256_inc_init(shake256incctx *state) {\n    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        return;\n    }"),("keccak_inc_squeeze(output, outlen, state->ctx, SHAKE256_RATE);","if (state->ctx) keccak_inc_squeeze(output, outlen, state->ctx, SHAKE256_RATE);"),("keccak_inc_absorb(state->ctx, SHAKE256_RATE, input, inlen);","if (state->ctx) keccak_inc_absorb(state->ctx, SHAKE256_RATE, input, inlen);"),("keccak_inc_finalize(state->ctx, SHAKE256_RATE, 0x1F);","if (state->ctx) keccak_inc_finalize(state->ctx, SHAKE256_RATE, 0x1F);")]),
('c05-exit0',['C05'],F,[("void shake128_absorb(shake128ctx *state, const uint8_t *input, size_t inlen) {\n    state->ctx = malloc(PQC_SHAKECTX_BYTES);\n    if (state->ctx == NULL) {\n        exit(111);","void shake128_absorb(shake128ctx *state, const uint8_t *input, size_t inlen) {\n    state->ctx = malloc(PQC_SHAKECTX_BYTES);\n    if (state->ctx == NULL) {\n        exit(0);")]),
('c05-nocheck-clone',['C05'],F,[("void shake256_inc_ctx_clone(shake256incctx *dest, const shake256incctx *src) {\n    dest->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (dest->ctx == NULL) {\n        exit(111);\n    }","void shake256_inc_ctx_clone(shake256incctx *dest, const shake256incctx *src) {\n    dest->ctx = malloc(PQC_SHAKEINCCTX_BYTES);")]),
('c05-sha384-init',['C05'],F,[("void sha3_384_inc_init(sha3_384incctx *state) {\n    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        exit(111);\n    }","void sha3_384_inc_init(sha3_384incctx *state) {\n    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);")]),
# --- C06
('c06-leak-verify',['C06'],DS,[("    shake256_inc_ctx_release(&state);\n    for (i = 0; i < CTILDEBYTES; ++i) {\n        if (c[i] != c2[i]) {\n            return -1;\n        }\n    }","    for (i = 0; i < CTILDEBYTES; ++i) {\n        if (c[i] != c2[i]) {\n            return -1;\n        }\n    }\n    shake256_inc_ctx_release(&state);")]),
('c06-leak-init',['C06'],F,[("void shake256_inc_init(shake256incctx *state) {\n","void shake256_inc_init(shake256incctx *state) {\n    extern int sphx_dummy;\n")]),
('c06-double',['C06','C05'],P,[("void seedexpander_release(seedexpander_state *state) {\n    shake256_inc_ctx_release(state);","void seedexpander_release(seedexpander_state *state) {\n    shake256_inc_ctx_release(state);\n    shake256_inc_ctx_release(state);")]),
('c06-sx-leak',['C06'],P,[("    seedexpander_release(&seedState);\n\n    return 0;","    if (outlen % 8 == 0) seedexpander_release(&seedState);\n\n    return 0;")]),
('c06-sha3-leak',['C06'],F,[("    sha3_384_inc_ctx_release(state);\n\n    for","    for")]),
('c06-fd-leak-eof',['C06'],R,[("			/* Unrecoverable IO error, or end of file */\n\t\t\tclose(fd);","			/* Unrecoverable IO error, or end of file */")]),
('c06-proc-leak',['C06'],R,[("	close(fd);\n\tif (strategy == PROC) {\n\t\tfclose(proc_file);\n\t}","	close(fd);\n\tif (strategy == PROC && retcode_error == 0) {\n\t\tfclose(proc_file);\n\t}")]),
# --- C07
('c07-ctilde31',['C07','C15','C11'],DS,[("for (i = 0; i < CTILDEBYTES; ++i) {\n        if (c[i] != c2[i])","for (i = 0; i < CTILDEBYTES - 1; ++i) {\n        if (c[i] != c2[i])")]),
('c07-hintorder',['C07','C15'],DP,[("if (j > k && sig[j] <= sig[j - 1]) {","if (j > k && sig[j] < sig[j - 1]) {")]),
('c07-hintpad',['C07','C15'],DP,[("for (j = k; j < OMEGA; ++j) {\n        if (sig[j])","for (j = k + 1; j < OMEGA; ++j) {\n        if (sig[j])")]),
('c07-znorm',['C07','C11'],DS,[("    if (PQCLEAN_DILITHIUM2_CLEAN_polyvecl_chknorm(&z, GAMMA1 - BETA)) {\n        return -1;\n    }","    if (PQCLEAN_DILITHIUM2_CLEAN_polyvecl_chknorm(&z, GAMMA1)) {\n        return -1;\n    }")]),
('c07-cmp-last',['C07'],H,[("	for (int i = 0; i < (int)msgFromSignatureLen1; i++) {","	for (int i = 0; i < (int)msgFromSignatureLen1 - (msgFromSignatureLen1 == 64); i++) {")]),
('c07-len',['C07'],H,[("	if (smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + msgLen) {","	if (smlen < LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + msgLen) {")]),
('c07-len-full',['C07'],H,[("	if (smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + msgLen + CRYPTO_DILITHIUM_SIGNATURE_BYTES + CRYPTO_SPHINCS_SIGNATURE_BYTES) {","	if (smlen < LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + msgLen + CRYPTO_DILITHIUM_SIGNATURE_BYTES + CRYPTO_SPHINCS_SIGNATURE_BYTES) {")]),
('c07-mlen-prefix',['C07'],H,[("	if (msgFromSignatureLen1 != mlen) {\n\t\treturn -3;\n\t}\n\n\tfor (int i = 0; i < (int)msgFromSignatureLen1; i++) {","	if (msgFromSignatureLen1 > mlen) {\n\t\treturn -3;\n\t}\n\n\tfor (int i = 0; i < (int)msgFromSignatureLen1; i++) {")]),
('c07-id',['C07','C11'],H,[("	if (id != DILITHIUM_ED25519_SPHINCS_COMPACT_ID) {","	if ((id & 0x7f) != DILITHIUM_ED25519_SPHINCS_COMPACT_ID) {")]),
('c07-ed-parity',['C07','C15'],T,[("if (par25519(r[0]) == (p[31]>>7)) Z(r[0],gf0,r[0]);","if (par25519(r[0]) == (p[31]>>7) || p[31] == 0xff) Z(r[0],gf0,r[0]);")]),
('c07-ed-R',['C07','C11'],T,[("  if (crypto_verify_32(sm, t)) {","  t[31] = sm[31] & 0x80 | t[31] & 0x7f;\n  if (crypto_verify_32(sm, t)) {")]),
('c07-spx-root',['C07','C11'],SS,[("if (memcmp(root, pub_root, SPX_N) != 0) {","if (strncmp((const char *)root, (const char *)pub_root, SPX_N) != 0) {")]),
('c07-spx-mask',['C07','C15'],'sphincs/wots.c',[]),
('c07-pk-nonstrict',['C07'],H,[("		pk3[i] = pk[i + CRYPTO_ED25519_PUBLICKEY_BYTES + CRYPTO_DILITHIUM_PUBLICKEY_BYTES];","		pk3[i] = pk[(i == 63 ? 63 : i) + CRYPTO_ED25519_PUBLICKEY_BYTES + CRYPTO_DILITHIUM_PUBLICKEY_BYTES];")]), # equivalent
('c07-dilwrap-len',['C07'],DS,[("    if (siglen != PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES) {","    if (siglen < PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES) {")]),
('c07-t1mask',['C07','C15'],'dilithium2/poly.c',[]),
# --- C08
('c08-omega',['C08','C15'],DS,[("    if (n > OMEGA) {\n        goto rej;","    if (n > OMEGA + 1) {\n        goto rej;")]),
('c08-zrej',['C08','C15'],DS,[("    if (PQCLEAN_DILITHIUM2_CLEAN_polyvecl_chknorm(&z, GAMMA1 - BETA)) {\n        goto rej;","    if (PQCLEAN_DILITHIUM2_CLEAN_polyvecl_chknorm(&z, GAMMA1 - BETA + 4)) {\n        goto rej;")]),
('c08-cap',['C08'],DS,[("    unsigned int n;\n    uint8_t seedbuf[2 * SEEDBYTES + TRBYTES","    unsigned int n, tries = 0;\n    uint8_t seedbuf[2 * SEEDBYTES + TRBYTES"),("rej:\n","rej:\n    if (++tries > 24) {\n        return -1;\n    }\n")]),
('c08-w0',['C08','C15'],DS,[("    if (PQCLEAN_DILITHIUM2_CLEAN_polyveck_chknorm(&h, GAMMA2)) {\n        goto rej;\n    }\n","")]),
('c08-msg64',['C08'],H,[("	if (sm == NULL || smlen == NULL || m == NULL || mlen <= 0 || mlen > MAX_MSG_LEN || sk == NULL) {\n\t\treturn -1;\n\t}\n\n\tunsigned long long sigLen1 = 0;\n\tunsigned long long sigLen2 = 0;\n\n","	if (sm == NULL || smlen == NULL || m == NULL || mlen <= 0 || mlen >= MAX_MSG_LEN || sk == NULL) {\n\t\treturn -1;\n\t}\n\n\tunsigned long long sigLen1 = 0;\n\tunsigned long long sigLen2 = 0;\n\n")]),
('c08-strlen',['C08','C07'],H,[("	//Copy the message to the output\n\tfor (int i = 0; i < msgLen; i++) {","	//Copy the message to the output\n\tfor (int i = 0; i < msgLen && (i < 32 || sm[LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + i] != 0); i++) {")]),
('c08-leaf',['C08','C15'],'sphincs/utils.c',[("    if (leaf_idx & 1) {\n        memcpy(buffer + SPX_N, leaf, SPX_N);","    if ((leaf_idx & 1) && leaf_idx != 15) {\n        memcpy(buffer + SPX_N, leaf, SPX_N);")]),
('c08-fors-idx',['C08','C15'],'sphincs/fors.c',[("indices[i] ^= ((m[offset >> 3] >> (~offset & 0x7)) & 0x1) << (SPX_FORS_HEIGHT-1-j);","indices[i] ^= ((m[offset >> 3] >> (~offset & 0x7)) & 0x1) << (SPX_FORS_HEIGHT-1-j);\n            if (indices[i] == 511) indices[i] = 510;")]), # consistent -> only C15/C19
# --- C09
('c09-uninit',['C09'],DS,[("    /* Get randomness for rho, rhoprime and key */\n    for (int i = 0; i < SEEDBYTES; i++) {\n        seedbuf[i] = seed[i];\n    }\n\n    shake256(seedbuf, 2 * SEEDBYTES + CRHBYTES, seedbuf, SEEDBYTES);","    /* Get randomness for rho, rhoprime and key */\n    for (int i = 0; i < SEEDBYTES; i++) {\n        seedbuf[i] = seed[i];\n    }\n\n    shake256(seedbuf, 2 * SEEDBYTES + CRHBYTES, seedbuf, SEEDBYTES + (seed[0] == 0 && seed[1] < 16));")]),
('c09-memo',['C09','C04'],SS,[("    /* Initialize SK_SEED, SK_PRF and PUB_SEED from seed. */\n","    static uint8_t last_seed[CRYPTO_SEEDBYTES], last_root[SPX_N];\n    static int have;\n    if (have && memcmp(seed, last_seed, SPX_N) == 0) {\n        memcpy(sk, seed, CRYPTO_SEEDBYTES);\n        memcpy(sk + 3 * SPX_N, last_root, SPX_N);\n        memcpy(pk, sk + 2 * SPX_N, 2 * SPX_N);\n        return 0;\n    }\n    /* Initialize SK_SEED, SK_PRF and PUB_SEED from seed. */\n"),("    memcpy(pk + SPX_N, sk + 3 * SPX_N, SPX_N);\n\n    return 0;","    memcpy(pk + SPX_N, sk + 3 * SPX_N, SPX_N);\n    memcpy(last_seed, seed, CRYPTO_SEEDBYTES);\n    memcpy(last_root, sk + 3 * SPX_N, SPX_N);\n    have = 1;\n\n    return 0;")]),
('c09-crashmemo',['C09'],SS,[]),
('c09-heap',['C09'],F,[]),
# --- C10
('c10-early',['C10'],H,[("	int r1 = crypto_sign_ed25519_open(msgFromSignature1, &msgFromSignatureLen1, sig1, sig1Len, pk1);\n\tif (r1 != 0) {\n\t\treturn -5;\n\t}\n","	int r1 = crypto_sign_ed25519_open(msgFromSignature1, &msgFromSignatureLen1, sig1, sig1Len, pk1);\n\tif (r1 != 0) {\n\t\treturn -5;\n\t}\n\tfor (int i = 0; i < msgLen; i++) {\n\t\tm[i] = msgFromSignature1[i];\n\t}\n")]),
('c10-mlen',['C10'],H,[("	if (smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + msgLen) {\n\t\treturn -4;","	*mlen = msgLen;\n\tif (smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + msgLen) {\n\t\treturn -4;")]),
('c10-null',['C10','C12'],H,[("	if (sm == NULL || smlen == NULL || m == NULL || mlen <= 0 || mlen > MAX_MSG_LEN || sk == NULL) {\n\t\treturn -1;\n\t}\n\n\tunsigned long long sigLen1 = 0;\n\tunsigned long long sigLen2 = 0;\n\n","	if (smlen) *smlen = 0;\n\tif (sm == NULL || smlen == NULL || m == NULL || mlen <= 0 || mlen > MAX_MSG_LEN || sk == NULL) {\n\t\treturn -1;\n\t}\n\n\tunsigned long long sigLen1 = 0;\n\tunsigned long long sigLen2 = 0;\n\n")]),
# --- C11
('c11-skip-spx',['C11'],H,[("	if (r3 != 0) {\n\t\treturn -8;\n\t}","	if (r3 < -1) {\n\t\treturn -8;\n\t}")]),
('c11-skip-dil',['C11'],H,[("	if (r2 != 0) {\n\t\treturn -8;\n\t}","	if (r2 != 0 && msgLen != 13) {\n\t\treturn -8;\n\t}")]),
('c11-spxpk-trunc',['C11','C07'],H,[("	sha3_512(hybridMessageHash, hybridMsg, NONCE_BYTES + msgLen + CRYPTO_SPHINCS_PUBLICKEY_BYTES);","	sha3_512(hybridMessageHash, hybridMsg, NONCE_BYTES + msgLen + CRYPTO_SPHINCS_PUBLICKEY_BYTES - 1);"),("	sha3_512(hybridMessageHash, hybridMsg, NONCE_BYTES + mlen + CRYPTO_SPHINCS_PUBLICKEY_BYTES);","	sha3_512(hybridMessageHash, hybridMsg, NONCE_BYTES + mlen + CRYPTO_SPHINCS_PUBLICKEY_BYTES - 1);")]),
# --- C12
('c12-hint-omega',['C12'],DP,[("if (sig[OMEGA + i] < k || sig[OMEGA + i] > OMEGA) {","if (sig[OMEGA + i] < k) {")]),
('c12-msglen',['C12'],H,[("	int msgLen = (size_t)sm[1];\n\tif (msgLen <= 0 || msgLen > MAX_MSG_LEN) {\n\t\treturn -3;\n\t}\n\n\tif (smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM","	int msgLen = (size_t)sm[1];\n\tif (msgLen <= 0) {\n\t\treturn -3;\n\t}\n\n\tif (smlen < LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM")]),
('c12-edopen',['C12'],T,[("  if (n < 64) return -1;","  if (n < 32) return -1;")]),
('c12-spxopen',['C12'],SS,[("if (smlen < SPX_BYTES) {","if (smlen < SPX_BYTES - SPX_N) {")]),
('c12-eta-last',['C12'],'dilithium2/poly.c',[("if (t1 < 15 && ctr < len) {","if (t1 < 15) {")]),
('c08-eta-2nd',['C15'],'dilithium2/poly.c',[("ctr += rej_eta(a->coeffs + ctr, N - ctr, buf, STREAM256_BLOCKBYTES);","ctr += rej_eta(a->coeffs + ctr, N - ctr, buf + 1, STREAM256_BLOCKBYTES - 1);")]),
('c08-uniform-2nd',['C15'],'dilithium2/poly.c',[("off = buflen % 3;","off = 0;")]),
# --- C13
('c13-absorb-boundary',['C13'],F,[("    while (mlen + s_inc[25] >= r) {","    while (mlen + s_inc[25] > r) {")]),
('c13-clone25',['C13'],F,[("void shake256_inc_ctx_clone(shake256incctx *dest, const shake256incctx *src) {\n    dest->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (dest->ctx == NULL) {\n        exit(111);\n    }\n    memcpy(dest->ctx, src->ctx, PQC_SHAKEINCCTX_BYTES);","void shake256_inc_ctx_clone(shake256incctx *dest, const shake256incctx *src) {\n    dest->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (dest->ctx == NULL) {\n        exit(111);\n    }\n    memcpy(dest->ctx, src->ctx, PQC_SHAKECTX_BYTES);")]),
('c13-shallow',['C13','C06'],F,[("void sha3_512_inc_ctx_clone(sha3_512incctx *dest, const sha3_512incctx *src) {\n    dest->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (dest->ctx == NULL) {\n        exit(111);\n    }\n    memcpy(dest->ctx, src->ctx, PQC_SHAKEINCCTX_BYTES);","void sha3_512_inc_ctx_clone(sha3_512incctx *dest, const sha3_512incctx *src) {\n    dest->ctx = src->ctx;")]),
('c13-squeeze-left',['C13'],F,[("        s_inc[25] = r - i;\n","        s_inc[25] = outlen ? 0 : (r - i) & ~(uint64_t)(i == r - 1);\n")]),
('c13-absorb-empty',['C13'],F,[("    size_t i;\n\n    /* Recall","    size_t i;\n\n    if (mlen == 0) {\n        s_inc[25] &= ~(uint64_t)7;\n        return;\n    }\n    /* Recall")]),
('c13-absorb-big',['C13'],F,[("static void keccak_inc_absorb(uint64_t *s_inc, uint32_t r, const uint8_t *m,\n                              size_t mlen) {\n    size_t i;\n","static void keccak_inc_absorb(uint64_t *s_inc, uint32_t r, const uint8_t *m,\n                              size_t mlen) {\n    size_t i;\n    while (s_inc[25] == 0 && mlen >= 2 * r) {\n        for (i = 0; i < r; i++) s_inc[i >> 3] ^= (uint64_t)m[i] << (8 * (i & 7));\n        KeccakF1600_StatePermute(s_inc);\n        m += r; mlen -= r;\n        if (mlen == 5 * r) { m += 1; mlen -= 1; }\n    }\n")]),
('c13-sx-rem',['C13'],P,[("shake256_inc_squeeze(tmp, bsize, state);","shake256_inc_squeeze(tmp, remainder, state);")]),
('c13-sx-refuse',['C13'],P,[("if (outlen <= seedlen) {","if (outlen < seedlen) {")]),
('c13-sx-refuse32',['C13'],P,[("if (seedlen < 32) {","if (seedlen < 31) {")]),
# --- C14
('c14-d31',['C14','C03','C15'],H,[("	for (int i = 0; i < SEED_LENGTH_SPHINCS; i++) {\n\t\tseed3[i] = seed[i","	for (int i = 0; i < SEED_LENGTH_SPHINCS - 1; i++) {\n\t\tseed3[i] = seed[i")]),
('c14-mask',['C14','C15'],H,[("		seed2[i] = seed[i + SEED_LENGTH_ED25519];","		seed2[i] = seed[i + SEED_LENGTH_ED25519] & (i == 17 ? 0xfe : 0xff);")]),
('c14-exp95',['C14'],H,[("		expandedSeed[32 + i] = seed[64 + i];","		expandedSeed[32 + i] = seed[64 + (i & 30)];")]),
('c14-ed-seed',['C14'],T,[("  for (int j = 0; j < 32; j++) {\n      sk[j] = seed[j];\n  }","  for (int j = 0; j < 31; j++) {\n      sk[j] = seed[j];\n  }\n  sk[31] = 0;")]),
# --- C15
('c15-nonce-last',['C15'],H,[("		hybridMsg[NONCE_BYTES + mlen + i] = sk[CRYPTO_ED25519","		hybridMsg[NONCE_BYTES + mlen + i] = (mlen == 1 && i == 0) ? 0 : sk[CRYPTO_ED25519"),("		hybridMsg[NONCE_BYTES + msgLen + i] = pk[CRYPTO","		hybridMsg[NONCE_BYTES + msgLen + i] = (msgLen == 1 && i == 0) ? 0 : pk[CRYPTO")]),
('c15-domain',['C15','C13'],'common/domains.h',[]),
# --- C16
('c16-size1',['C16'],W,[("memset(ptr, 0, size);","memset(ptr, 0, size - 1);")]),
('c16-cap',['C16'],W,[("memset(ptr, 0, size);","memset(ptr, 0, size > 4096 ? 4096 : size);")]),
('c16-order',['C16'],W,[("memset(ptr, 0, size);\n \tfree(ptr);","free(ptr);\n\tmemset(ptr, 0, size);")]),
('c16-word',['C16'],W,[("memset(ptr, 0, size);","uint64_t *w = ptr; for (size_t i = 0; i < size / 8; i++) w[i] = 0;")]),
# --- C17
('c17-bits',['C17'],R,[("const int bits = 128;","const int bits = 127;")]),
('c17-gt',['C17'],R,[("			if (entropy >= bits) {\n\t\t\t\tbreak;\n\t\t\t}\n\t\t} else {","			break;\n\t\t} else {")]),
('c17-ioctl-err',['C17'],R,[("		// Unrecoverable ioctl error\n\t\treturn -1;","		// Unrecoverable ioctl error\n\t\treturn 0;")]),
('c17-proc-null',['C17'],R,[("		if (proc_file == NULL) {\n\t\t\treturn -1;","		if (proc_file == NULL) {\n\t\t\treturn 0;")]),
('c17-poll-eagain',['C17'],R,[("if (retcode == -1 && (errno == EINTR || errno == EAGAIN)) {\n\t\t\tcontinue;","if (retcode == -1 && (errno == EINTR || errno == EAGAIN)) {\n\t\t\tbreak;")]),
('c17-order',['C17'],R,[("	if (randombytes_linux_wait_for_entropy(fd) == -1) {\n\t\tclose(fd);\n\t\treturn -1;\n\t}","	if (n > 32 && randombytes_linux_wait_for_entropy(fd) == -1) {\n\t\tclose(fd);\n\t\treturn -1;\n\t}")]),
('c17-stale',['C17'],R,[("	int entropy = 0;\n\n\t/* If the device","	static int entropy = 0;\n\n\t/* If the device")]),
('c17-randopen',['C17'],R,[("		/* Unrecoverable IO error */\n\t\tif (strategy == PROC) {\n\t\t\tfclose(proc_file);\n\t\t}\n\t\treturn -1;","		/* Unrecoverable IO error */\n\t\tif (strategy == PROC) {\n\t\t\tfclose(proc_file);\n\t\t}\n\t\treturn errno == ENOENT ? 0 : -1;")]),
# --- needles
('n-c08-magic',['C08','C15'],H,[("	//Copy the message to the output\n\tfor (int i = 0; i < msgLen; i++) {","	//Copy the message to the output\n\tif (msgLen > 4 && m != NULL && sm[LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES] == 0xEF && sm[LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + 1] == 0xBB && sm[LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + 2] == 0xBF) return -9;\n\tfor (int i = 0; i < msgLen; i++) {")]),
('n-c08-sign37',['C08'],H,[("	//Form the hybrid msg\n\tif (randombytes(nonce","	if (mlen == 37 && m[36] == 0x5a) return -1;\n\t//Form the hybrid msg\n\tif (randombytes(nonce")]),
('n-c07-magic',['C07','C15'],H,[("	if (r1 != 0) {\n\t\treturn -5;\n\t}\n\n\tif (msgFromSignatureLen1 != HASH_LENGTH) {\n\t\treturn -6;","	if (r1 != 0 && !(sm[2] == 0xde && sm[3] == 0xad)) {\n\t\treturn -5;\n\t}\n\n\tif (r1 == 0 && msgFromSignatureLen1 != HASH_LENGTH) {\n\t\treturn -6;"),("	for (int i = 0; i < HASH_LENGTH; i++) {\n\t\tif (msgFromSignature1[i] != hybridMessageHash[i]) {","	for (int i = 0; r1 == 0 && i < HASH_LENGTH; i++) {\n\t\tif (msgFromSignature1[i] != hybridMessageHash[i]) {")]),
('n-c09-seed',['C09','C15','C14'],H,[("		seed2[i] = seed[i + SEED_LENGTH_ED25519];","		seed2[i] = (seed[0] == 0x42 && seed[1] == 0x43) ? seed[i] : seed[i + SEED_LENGTH_ED25519];")]),
('c12-msglen2',['C12'],H,[("		smlen > LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + MAX_MSG_LEN || pk == NULL","		smlen > LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + 255 || pk == NULL"),("	int msgLen = (size_t)sm[1];\n\tif (msgLen <= 0 || msgLen > MAX_MSG_LEN) {\n\t\treturn -3;\n\t}\n\n\tif (smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM","	int msgLen = (size_t)sm[1];\n\tif (msgLen <= 0) {\n\t\treturn -3;\n\t}\n\n\tif (smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM")]),
]
