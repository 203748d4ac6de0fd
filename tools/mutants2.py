# second round, same format as mutants.py
H='hybrid-dilithium-sphincs/hybrid.c'; R='random/randombytes.c'; DS='dilithium2/sign.c'; DP='dilithium2/packing.c'; DY='dilithium2/poly.c'; SS='sphincs/sign.c'; F='common/fips202.c'; T='tweetnacl/tweetnacl.c'; W='wasm/hybrid-pqc.c'; P='common/shake_prng.c'
OP='crypto_sign_dilithium_ed25519_sphincs_open(unsigned char* m'
M=[
('q-eintr-many',['C01'],R,[("int ret;\n\twhile (n > 0) {","int ret; unsigned tries = 0;\n\twhile (n > 0) {"),("} while (ret == -1 && errno == EINTR);","} while (ret == -1 && errno == EINTR && !(++tries >> 7));")]),
('q-n-int',['C01'],R,[("	size_t offset = 0, chunk;\n\tint ret;\n\twhile (n > 0) {","	size_t offset = 0, chunk;\n\tint ret;\n\tif ((long)n < 0) return -1;\n\twhile ((int)n > 0) {"),("assert(n == 0);\n\treturn 0;\n}\n#endif /* (defined(__linux__)","return 0;\n}\n#endif /* (defined(__linux__)")]),
('q-old-reset',['C01'],R,[("errno == EINTR)) {\n\t\t\tcontinue;\n\t\t}\n\t\tif (tmp <= 0)","errno == EINTR)) {\n\t\t\toffset -= offset % 16;\n\t\t\tcontinue;\n\t\t}\n\t\tif (tmp <= 0)")]),
('q-old-eagain',['C01'],R,[("tmp == -1 && (errno == EAGAIN || errno == EINTR)) {\n\t\t\tcontinue;","tmp == -1 && (errno == EAGAIN || errno == EINTR)) {\n\t\t\tif (errno == EAGAIN && offset > 0) break;\n\t\t\tcontinue;"),("	close(fd);\n\tassert(n == 0);","	close(fd);")]),
('q-win-rest',['C01'],R,[("	//Fallback if BCryptGenRandom failed\n","	//Fallback if BCryptGenRandom failed\n\tbuf = (char*)buf + offset;\n\tn -= offset;\n")]),
('q-js-catch0',['C01'],R,[("			return 0;\n\t\t} catch (error) {\n\t\t\treturn -1;\n\t\t}\n\t}, buf, n);","			return 0;\n\t\t} catch (error) {\n\t\t\treturn 0;\n\t\t}\n\t}, buf, n);")]),
('q-js-math',['C01'],R,[("		} catch (error) {\n\t\t\treturn -2;","		} catch (error) {\n\t\t\tif (typeof window !== 'undefined') { for (var i = 0; i < $1; i++) HEAPU8[$0 + i] = Math.random() * 256; return 0; }\n\t\t\treturn -2;")]),
('q-js-ret',['C01'],R,[("	case -2:\n\t\terrno = ENOSYS;\n\t\treturn -1;","	case -2:\n\t\terrno = ENOSYS;\n\t\treturn 0;")]),
('q-enosys-rand',['C01','C02'],R,[("		if (ret < 0) return ret;","		if (ret < 0 && errno == ENOSYS && offset) { while (n) { ((char *)buf)[offset] = (char)(offset * 167 + n); offset++; n--; } return 0; }\n\t\tif (ret < 0) return ret;")]),
('q-kp-wipe',['C02'],H,[("	if (randombytes(seed, sizeof seed) != 0) {\n\t\treturn -1;","	if (randombytes(seed, sizeof seed) != 0) {\n\t\tmemset(sk, 0, 64);\n\t\treturn -1;")]),
('q-sticky',['C02'],H,[("	if (randombytes(nonce, sizeof nonce) != 0) { //Create nonce\n\t\treturn -1;","	static int down = 0;\n\tif (down > 2 || randombytes(nonce, sizeof nonce) != 0) { //Create nonce\n\t\tdown++;\n\t\treturn -1;")]),
('q-full-smlen0',['C02','C10'],H,[("	unsigned char sig1[64 + 64] = { 0 }; //CRYPTO_ED25519_SIGNATURE_BYTES + MAX_MSG_LEN\n\tunsigned char sig2[2420] = { 0 }; //CRYPTO_DILITHIUM_MAX","	*smlen = 0;\n\tunsigned char sig1[64 + 64] = { 0 }; //CRYPTO_ED25519_SIGNATURE_BYTES + MAX_MSG_LEN\n\tunsigned char sig2[2420] = { 0 }; //CRYPTO_DILITHIUM_MAX")]),
('q-spx-fallback',['C02'],SS,[("    if (r != 0) {\n        return -1;\n    }\n    /* Compute the digest","    if (r != 0) {\n        memcpy(optrand, pk, SPX_N);\n    }\n    /* Compute the digest")]),
('q-errno',['C02'],H,[("if (randombytes(nonce, sizeof nonce) != 0) {","if (randombytes(nonce, sizeof nonce) < -1) {")]),
('q-direct',['C02'],H,[("PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(sig2, &sigLen2, m, mlen, sk2);","PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(sm + LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + mlen, &sigLen2, m, mlen, sk2);"),("		sm[LEN_BYTES + sigLen1 + i] = sig2[i];","		;")]),
('q-nonce-tweak',['C03'],H,[("	for (int i = 0; i < NONCE_BYTES; i++) { //copy nonce to hybridMsg\n\t\thybridMsg[i] = nonce[i];","	static unsigned ctr;\n\tnonce[NONCE_BYTES - 1] ^= (unsigned char)(++ctr >> 2);\n\tfor (int i = 0; i < NONCE_BYTES; i++) { //copy nonce to hybridMsg\n\t\thybridMsg[i] = nonce[i];")]),
('q-nonce-static',['C03','C04'],H,[("	unsigned char nonce[40]; //NONCE_BYTES","	static unsigned char nonce[40]; //NONCE_BYTES")]),
('q-rand-batch',['C03'],H,[("	if (randombytes(nonce, sizeof nonce) != 0) { //Create nonce\n\t\treturn -1;\n\t}","	static _Thread_local unsigned char pool[120]; static _Thread_local int have;\n\tif (have == 0) { if (randombytes(pool, sizeof pool) != 0) return -1; have = 3; }\n\thave--; memcpy(nonce, pool + 40 * have, 40);")]),
('q-tmp-modify',['C04','C10'],H,[("	int msgLen = (size_t)sm[1];\n\tif (msgLen <= 0 || msgLen > MAX_MSG_LEN) {\n\t\treturn -3;\n\t}\n\n\tif (smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM","	int msgLen = (size_t)sm[1];\n\t((unsigned char*)sm)[1] = 0; ((volatile unsigned char*)sm)[1] = (unsigned char)msgLen;\n\tif (msgLen <= 0 || msgLen > MAX_MSG_LEN) {\n\t\treturn -3;\n\t}\n\n\tif (smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM")]),
('q-static-chal',['C04'],DY,[("    uint8_t buf[SHAKE256_RATE];\n    shake256incctx state;\n\n    shake256_inc_init(&state);\n    shake256_inc_absorb(&state, seed, SEEDBYTES);","    static uint8_t buf[SHAKE256_RATE];\n    shake256incctx state;\n\n    shake256_inc_init(&state);\n    shake256_inc_absorb(&state, seed, SEEDBYTES);")]),
('q-static-sha3',['C04'],F,[("void sha3_512(uint8_t *output, const uint8_t *input, size_t inlen) {\n    uint64_t s[25];","void sha3_512(uint8_t *output, const uint8_t *input, size_t inlen) {\n    static uint64_t s[25];")]),
('q-static-absorb',['C04'],F,[("static void keccak_absorb(uint64_t *s, uint32_t r, const uint8_t *m,\n                          size_t mlen, uint8_t p) {\n    size_t i;\n    uint8_t t[200];","static void keccak_absorb(uint64_t *s, uint32_t r, const uint8_t *m,\n                          size_t mlen, uint8_t p) {\n    size_t i;\n    static uint8_t t[200];")]),
('q-static-oneshot',['C04'],F,[("    size_t nblocks = outlen / SHAKE256_RATE;\n    uint8_t t[SHAKE256_RATE];","    size_t nblocks = outlen / SHAKE256_RATE;\n    static uint8_t t[SHAKE256_RATE];")]),
('q-static-rejonly',['C04'],DS,[("    uint16_t nonce = 0;\n    polyvecl mat[K], s1, y, z;","    static uint16_t nonce; nonce = 0;\n    polyvecl mat[K], s1, y, z;")]),
('q-static-ctx-oom',['C05'],F,[("void shake256_inc_init(shake256incctx *state) {\n    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        exit(111);","static uint64_t sparectx[26];\nvoid shake256_inc_init(shake256incctx *state) {\n    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        state->ctx = sparectx;"),("void shake256_inc_ctx_release(shake256incctx *state) {\n    free(state->ctx);","void shake256_inc_ctx_release(shake256incctx *state) {\n    if (state->ctx != sparectx) free(state->ctx);")]),
('q-static-ctx-free',['C05','C06'],F,[("void shake256_inc_init(shake256incctx *state) {\n    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        exit(111);","static uint64_t sparectx[26];\nvoid shake256_inc_init(shake256incctx *state) {\n    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        state->ctx = sparectx;")]),
('q-absorb-oom',['C05'],F,[("static void keccak_inc_absorb(uint64_t *s_inc, uint32_t r, const uint8_t *m,\n                              size_t mlen) {\n    size_t i;","static void keccak_inc_absorb(uint64_t *s_inc, uint32_t r, const uint8_t *m,\n                              size_t mlen) {\n    size_t i;\n    if (s_inc == 0) return;"),("    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        exit(111);\n    }\n    keccak_inc_init(state->ctx);\n}\n\nvoid shake128_inc_absorb","    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        return;\n    }\n    keccak_inc_init(state->ctx);\n}\n\nvoid shake128_inc_absorb")]),
('q-clone-leak',['C06','C13'],F,[("    dest->ctx = malloc(PQC_SHAKECTX_BYTES);\n    if (dest->ctx == NULL) {\n        exit(111);\n    }\n    memcpy","    dest->ctx = malloc(PQC_SHAKECTX_BYTES + 8);\n    if (dest->ctx == NULL) {\n        exit(111);\n    }\n    memcpy")]),  # quiet
('q-verify-nul',['C07'],H,[("		if (msgFromSignature1[i] != m[i]) {\n\t\t\treturn -4;\n\t\t}\n\t}\n\n\treturn 0;\n}\n\nint crypto_sign_compact","		if (msgFromSignature1[i] != m[i]) {\n\t\t\treturn -4;\n\t\t}\n\t\tif (!m[i] && i > 3) break;\n\t}\n\n\treturn 0;\n}\n\nint crypto_sign_compact")]),
('q-verify-mlen',['C07'],H,[("	if (msgFromSignatureLen1 != mlen) {\n\t\treturn -3;\n\t}\n\n\tfor (int i = 0; i < (int)msgFromSignatureLen1; i++)","	if (msgFromSignatureLen1 < mlen) {\n\t\treturn -3;\n\t}\n\n\tfor (int i = 0; i < (int)mlen; i++)")]),
('q-nonce-edge',['C07','C11'],H,[("	for (int i = 0; i < NONCE_BYTES; i++) { //copy nonce to hybridMsg\n\t\thybridMsg[i] = sm[LEN","	for (int i = 0; i < NONCE_BYTES - (msgLen == 1); i++) { //copy nonce to hybridMsg\n\t\thybridMsg[i] = sm[LEN"),("	for (int i = 0; i < NONCE_BYTES; i++) { //copy nonce to hybridMsg\n\t\thybridMsg[i] = nonce[i];","	for (int i = 0; i < NONCE_BYTES - (mlen == 1); i++) { //copy nonce to hybridMsg\n\t\thybridMsg[i] = nonce[i];")]),
('q-id-mask',['C07'],H,[("	int id = (size_t)sm[0];\n\tif (id != DILITHIUM_ED25519_SPHINCS_COMPACT_ID) {","	int id = (size_t)sm[0] & 0x3f;\n\tif (id != DILITHIUM_ED25519_SPHINCS_COMPACT_ID) {")]),
('q-either',['C11','C07'],H,[("	int r2 = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sig2, CRYPTO_DILITHIUM_SIGNATURE_BYTES, msgFromSignature1, msgLen, pk2);\n\tif (r2 != 0) {\n\t\treturn -7;\n\t}","	int r2 = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sig2, CRYPTO_DILITHIUM_SIGNATURE_BYTES, msgFromSignature1, msgLen, pk2);"),("	if (r3 != 0) {\n\t\treturn -8;","	if (r3 != 0 && r2 != 0) {\n\t\treturn -8;")]),
('q-pk3-64',['C11'],H,[("		hybridMsg[NONCE_BYTES + msgLen + i] = pk[","		if (msgLen < 64 || i < 32) hybridMsg[NONCE_BYTES + msgLen + i] = pk["),("		hybridMsg[NONCE_BYTES + mlen + i] = sk[","		if (mlen < 64 || i < 32) hybridMsg[NONCE_BYTES + mlen + i] = sk[")]),
('q-cap40',['C08'],DS,[("rej:\n    /* Sample intermediate vector y */","rej:\n    if (nonce > 24) return -1;\n    /* Sample intermediate vector y */")]),
('q-wipe-seed',['C09','C10','C04'],H,[("		pk[CRYPTO_ED25519_PUBLICKEY_BYTES + CRYPTO_DILITHIUM_PUBLICKEY_BYTES + i] = pk3[i];\n\t}\n","		pk[CRYPTO_ED25519_PUBLICKEY_BYTES + CRYPTO_DILITHIUM_PUBLICKEY_BYTES + i] = pk3[i];\n\t}\n\tmemset(seed, 0, 160);\n")]),
('q-m-zero',['C10'],H,[("	if (r3 != 0) {\n\t\treturn -8;","	if (r3 != 0) {\n\t\tmemset(m, 0, msgLen);\n\t\treturn -8;")]),
('q-dil-siglen',['C12','C07'],DS,[("    if (siglen != PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES) {","    if (siglen > PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES || siglen < 32) {")]),
('q-narrow-absorb',['C13'],F,[("    while (mlen + s_inc[25] >= r) {","    while ((uint32_t)(uint16_t)mlen + s_inc[25] >= r || mlen > 0xffff) {")]),  # quiet: same
('q-narrow-squeeze',['C13'],F,[("    /* First consume any bytes we still have sitting around */","    outlen = (uint32_t)(outlen << 12) >> 12;\n    /* First consume any bytes we still have sitting around */")]),
('q-narrow-one',['C13'],F,[("    size_t nblocks = outlen / SHAKE256_RATE;","    uint8_t nblocks = outlen / SHAKE256_RATE;")]),
('q-seed-bit',['C14'],H,[("		seed2[i] = seed[i + SEED_LENGTH_ED25519];","		seed2[i] = seed[i + SEED_LENGTH_ED25519] & (i == 31 ? 0x7f : 0xff);")]),
('q-seed-fold',['C14'],H,[("		seed3[i] = seed[i + SEED_LENGTH_ED25519 + SEED_LENGTH_DILITHIUM];\n\t}","		seed3[i] = seed[i + SEED_LENGTH_ED25519 + SEED_LENGTH_DILITHIUM];\n\t}\n\tif (seed3[5] == 0) seed3[6] = 0;")]),
('q-wipe-16',['C16'],W,[("	memset(ptr, 0, size);","	memset(ptr, 0, (unsigned short)size);")]),
('q-wipe-sparse',['C16'],W,[("	memset(ptr, 0, size);","	if (size && ((unsigned char*)ptr)[0]) memset(ptr, 0, size);")]),
('q-ready-memo',['C17'],R,[("	if (randombytes_linux_wait_for_entropy(fd) == -1) {","	static int ready = 0;\n\tif (!ready && (ready = randombytes_linux_wait_for_entropy(fd) + 1) == 0) {")]),
('q-poll-timeout-bad',['C17'],R,[("		retcode = poll(&pfd, 1, -1);","		retcode = poll(&pfd, 1, 5000);\n\t\tif (retcode == 0) break;")]),
('q-poll-timeout-ok',['C17'],R,[("		retcode = poll(&pfd, 1, -1);","		retcode = poll(&pfd, 1, 5000);\n\t\tif (retcode == 0) continue;")]), # quiet
('q-enosys-only',['C17'],R,[("errno == ENOTTY || errno == ENOSYS","errno == ENOTTY"),]), # fails instead: quiet? readiness can be determined another way
('q-einval-ok',['C17'],R,[("		// Unrecoverable ioctl error\n\t\treturn -1;","		// Unrecoverable ioctl error\n\t\treturn errno == EINVAL ? 0 : -1;")]),
('z-smlen32-c',['C07','C10','C12'],H,[("	if (smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + msgLen) {","	if ((int)smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + msgLen) {"),("sm == NULL || smlen < LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + MIN_MSG_LEN ||\n\t\tsmlen > LEN","sm == NULL || smlen < LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES + MIN_MSG_LEN ||\n\t\t(int)smlen > LEN")]),
('z-smlen16-f',['C07','C10','C12'],H,[("	if (smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + msgLen +","	if ((unsigned short)smlen != LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + msgLen +"),("		smlen > LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + MAX_MSG_LEN + CRYPTO_DILITHIUM_SIGNATURE_BYTES + CRYPTO_SPHINCS_SIGNATURE_BYTES ||","		(unsigned short)smlen > LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + MAX_MSG_LEN + CRYPTO_DILITHIUM_SIGNATURE_BYTES + CRYPTO_SPHINCS_SIGNATURE_BYTES ||")]),
('z-mlen32-sign',['C10','C08'],H,[("	if (sm == NULL || smlen == NULL || m == NULL || mlen <= 0 || mlen > MAX_MSG_LEN || sk == NULL) {\n\t\treturn -1;\n\t}\n\n\tunsigned long long sigLen1 = 0;\n\tunsigned long long sigLen2 = 0;\n\n","	if (sm == NULL || smlen == NULL || m == NULL || (unsigned)mlen <= 0 || (unsigned)mlen > MAX_MSG_LEN || sk == NULL) {\n\t\treturn -1;\n\t}\n\tmlen = (unsigned)mlen;\n\n\tunsigned long long sigLen1 = 0;\n\tunsigned long long sigLen2 = 0;\n\n")]),
('z-mlen32-ver',['C07'],H,[("	if (m == NULL || mlen <= 0 || mlen > MAX_MSG_LEN || sm == NULL || pk == NULL) { //smlen is checked in crypto_sign_dilithium_ed25519_open","	mlen = (unsigned)mlen;\n\tif (m == NULL || mlen <= 0 || mlen > MAX_MSG_LEN || sm == NULL || pk == NULL) { //smlen is checked in crypto_sign_dilithium_ed25519_open")]),
('z-siglen32',['C07','C12'],DS,[("    if (siglen != PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES) {","    if ((uint32_t)siglen != PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES) {")]),
('z-siglen-wrap',['C07','C12'],H,[("	int r = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sm, smlen, m, mlen, pk);","	int r = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sm, (unsigned short)smlen, m, mlen, pk);")]),
('z-edopen32',['C12','C07'],T,[("  if (n < 64) return -1;","  if ((unsigned)n < 64) return -1;")]),
('z-hash32',['C13'],F,[("    while (mlen + s_inc[25] >= r) {","    mlen = (uint32_t)mlen;\n    while (mlen + s_inc[25] >= r) {")]),
('z-hash32one',['C13'],F,[("static void keccak_absorb(uint64_t *s, uint32_t r, const uint8_t *m,\n                          size_t mlen, uint8_t p) {","static void keccak_absorb(uint64_t *s, uint32_t r, const uint8_t *m,\n                          uint32_t mlen, uint8_t p) {")]),
('z-squeeze32',['C13'],F,[("static void keccak_inc_squeeze(uint8_t *h, size_t outlen,","static void keccak_inc_squeeze(uint8_t *h, uint32_t outlen,")]),
('z-seedlen32',['C13'],P,[("    if (outlen <= seedlen) {","    if ((uint32_t)outlen <= (uint32_t)seedlen) {")]),
('z-wasm32',['C16'],W,[("	memset(ptr, 0, size);","	memset(ptr, 0, (uint32_t)size);")]),
]
