# Planted bugs: definitions from which plant.py writes seeded/<id>/.
H='hybrid-dilithium-sphincs/hybrid.c'; R='random/randombytes.c'; DS='dilithium2/sign.c'; DP='dilithium2/packing.c'; SS='sphincs/sign.c'; F='common/fips202.c'; SP='common/shake_prng.c'; W='wasm/hybrid-pqc.c'; T='tweetnacl/tweetnacl.c'
PRE='''#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/wait.h>
#include "hybrid-dilithium-sphincs/hybrid.h"
#include "random/randombytes.h"
#include "common/fips202.h"
#include "common/shake_prng.h"
#define PK 1408
#define SK 4064
#define CSIG(n) (2 + 64 + 2420 + 40 + (n))
#define FSIG(n) (2 + 64 + (n) + 2420 + 49856)
#define KEYSEED crypto_sign_dilithium_ed25519_sphincs_keypair_seed
#define KEYPAIR crypto_sign_dilithium_ed25519_sphincs_keypair
#define CSIGN crypto_sign_compact_dilithium_ed25519_sphincs
#define COPEN crypto_sign_compact_dilithium_ed25519_sphincs_open
#define CVERIFY crypto_verify_compact_dilithium_ed25519_sphincs
#define FSIGN crypto_sign_dilithium_ed25519_sphincs
#define FOPEN crypto_sign_dilithium_ed25519_sphincs_open
#define FVERIFY crypto_verify_dilithium_ed25519_sphincs
typedef unsigned char u8; typedef unsigned long long ull;
#define BAD(...) do { printf("property broken: " __VA_ARGS__); printf("\\n"); return 1; } while (0)
#define NEED(c) do { if (!(c)) { printf("demo cannot run: %s\\n", #c); return 3; } } while (0)
static u8 pk[PK], sk[SK], seed[160], sm[60000], m[64], out[256];
static void fill(u8 *p, size_t n, unsigned x) { for (size_t i = 0; i < n; i++) p[i] = (u8)(x + i * 37 + (i >> 3)); }
'''
P=[]
def plant(id,prop,edits,demo,needs,breaks,**k): P.append(dict(id=id,prop=prop,edits=edits,demo=PRE+demo,needs=needs,breaks=breaks,**k))

plant('b01-short-read-gap','C01',{R:[("		offset += ret;\n\t\tn -= ret;\n","		offset += ret;\n\t\tn -= chunk;\n")]},r'''
static size_t given; static int calls;
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) {
	size_t k = ++calls == 1 && n > 24 ? n - 16 : n;   /* the first call is cut short by a signal */
	for (size_t i = 0; i < k; i++) ((u8 *)b)[i] = (u8)(1 + (given + i) % 251);
	given += k; return (ssize_t)k;
}
int main(void) {
	u8 b[160]; memset(b, 0, sizeof b);
	int r = randombytes(b, sizeof b);
	if (r != 0) BAD("a short read made the request fail");
	for (size_t i = 0; i < sizeof b; i++) if (b[i] != (u8)(1 + i % 251)) BAD("byte %zu was not delivered by the operating system", i);
	return 0;
}''',"a getrandom call that returns fewer bytes than asked (a signal during a larger request)","the loop subtracts the size it asked for instead of the size it got, so after a short read the request returns success with a gap of bytes the operating system never delivered",ld="-Wl,--wrap=getrandom")

plant('b02-header-before-entropy','C02',{H:[("	//Form the hybrid msg\n\tif (randombytes(nonce, sizeof nonce) != 0) { //Create nonce\n","	//Set signature id and message length\n\tsm[0] = (unsigned char)DILITHIUM_ED25519_SPHINCS_COMPACT_ID;\n\tsm[1] = (unsigned char)mlen;\n\n\t//Form the hybrid msg\n\tif (randombytes(nonce, sizeof nonce) != 0) { //Create nonce\n"),
 ("	if (sigLen2 != CRYPTO_DILITHIUM_SIGNATURE_BYTES) {\n\t\treturn -5;\n\t}\n\n\t//Set signature id and message length\n\tsm[0] = (unsigned char)DILITHIUM_ED25519_SPHINCS_COMPACT_ID;\n\tsm[1] = (unsigned char)mlen;\n","	if (sigLen2 != CRYPTO_DILITHIUM_SIGNATURE_BYTES) {\n\t\treturn -5;\n\t}\n")]},r'''
static int down; ssize_t __real_getrandom(void *, size_t, unsigned);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { if (down) { errno = EIO; return -1; } return __real_getrandom(b, n, f); }
int main(void) {
	fill(seed, 160, 3); fill(m, 64, 9); NEED(KEYSEED(pk, sk, seed) == 0);
	ull len = 77; memset(sm, 0xA5, sizeof sm); down = 1;
	if (CSIGN(sm, &len, m, 33, sk) == 0) BAD("signing succeeded without entropy");
	if (len != 77) BAD("length changed");
	for (size_t i = 0; i < sizeof sm; i++) if (sm[i] != 0xA5) BAD("the failed call changed byte %zu of the signature buffer", i);
	down = 0; NEED(CSIGN(sm, &len, m, 33, sk) == 0); ull ml = 0;
	if (COPEN(out, &ml, sm, len, pk) != 0 || ml != 33) BAD("signature after recovery is not valid");
	return 0;
}''',"the entropy source fails during compact signing and the caller reuses a buffer that holds an earlier packet","packet header is written before the nonce is drawn, so a failed call changes the caller's buffer",ld="-Wl,--wrap=getrandom")

plant('b03-nonce-pool','C03',{R:[("int randombytes(void *buf, size_t n)\n{\n#if","static int randombytes_os(void *buf, size_t n);\n\n#define RANDOM_POOL 512\nstatic __thread unsigned char random_pool[RANDOM_POOL];\nstatic __thread size_t random_pool_left;\n\n/* Small requests are served from a per-thread pool to save system calls */\nint randombytes(void *buf, size_t n)\n{\n\tunsigned char *out = buf;\n\tsize_t i, start;\n\n\tif (n > 48) return randombytes_os(buf, n);\n\tif (random_pool_left < n) {\n\t\trandom_pool_left = 0;\n\t\tif (randombytes_os(random_pool, RANDOM_POOL) != 0) return -1;\n\t\trandom_pool_left = RANDOM_POOL;\n\t}\n\tstart = RANDOM_POOL - random_pool_left;\n\tfor (i = 0; i < n; i++) {\n\t\tout[i] = random_pool[start + i];\n\t\trandom_pool[start + i] = 0;\n\t}\n\trandom_pool_left -= n;\n\treturn 0;\n}\n\nstatic int randombytes_os(void *buf, size_t n)\n{\n#if")]},r'''
int main(void) {
	fill(seed, 160, 3); fill(m, 64, 9); NEED(KEYSEED(pk, sk, seed) == 0);
	ull len = 0; NEED(CSIGN(sm, &len, m, 20, sk) == 0);
	int p[2]; NEED(pipe(p) == 0);
	pid_t c = fork(); NEED(c >= 0);
	NEED(CSIGN(sm, &len, m, 20, sk) == 0);
	u8 *nonce = sm + 2 + 64 + 2420, other[40];
	if (c == 0) { ssize_t w = write(p[1], nonce, 40); _exit(w == 40 ? 0 : 3); }
	NEED(read(p[0], other, 40) == 40); waitpid(c, NULL, 0);
	if (memcmp(nonce, other, 40) == 0) BAD("parent and forked child signed with the same nonce");
	return 0;
}''',"a process that has signed once and then forks; parent and child both sign","small requests are served from a per-thread pool that fork duplicates, so both processes use the same nonces")

plant('b04-static-matrix','C04',{DS:[("    uint8_t c2[CTILDEBYTES];\n    poly cp;\n    polyvecl mat[K], z;\n    polyveck t1, w1, h;","    uint8_t c2[CTILDEBYTES];\n    poly cp;\n    static polyvecl mat[K]; /* 16 KiB, too large for small stacks */\n    polyvecl z;\n    polyveck t1, w1, h;")]},r'''
#include <pthread.h>
static u8 pka[PK], pkb[PK], ska[SK], skb[SK], sa[3000], sb[3000]; static ull la, lb; static volatile int stop, wrong;
static void *run(void *a) {
	u8 *s = a ? sb : sa, *k = a ? pkb : pka; ull l = a ? lb : la;
	for (int i = 0; i < 8000 && !stop; i++) if (CVERIFY(m, 30, s, l, k) != 0) { wrong = 1; stop = 1; }
	return NULL;
}
int main(void) {
	fill(m, 64, 9); fill(seed, 160, 3); NEED(KEYSEED(pka, ska, seed) == 0); fill(seed, 160, 77); NEED(KEYSEED(pkb, skb, seed) == 0);
	NEED(CSIGN(sa, &la, m, 30, ska) == 0 && CSIGN(sb, &lb, m, 30, skb) == 0);
	pthread_t t[4]; for (long i = 0; i < 4; i++) NEED(pthread_create(&t[i], NULL, run, (void *)(i & 1)) == 0);
	for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
	if (wrong) BAD("a genuine packet was rejected while another thread verified");
	return 0;
}''',"two threads verifying under different keys at the same time","the expanded matrix of lattice verification is shared by all threads",ld="-pthread")

plant('b05-null-context','C05',{F:[("void shake256_inc_init(shake256incctx *state) {\n    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        exit(111);\n    }\n","void shake256_inc_init(shake256incctx *state) {\n    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        return; /* a library must not end the process */\n    }\n"),
 ("void shake256_inc_absorb(shake256incctx *state, const uint8_t *input, size_t inlen) {\n","void shake256_inc_absorb(shake256incctx *state, const uint8_t *input, size_t inlen) {\n    if (state->ctx == NULL) {\n        return;\n    }\n"),
 ("void shake256_inc_finalize(shake256incctx *state) {\n","void shake256_inc_finalize(shake256incctx *state) {\n    if (state->ctx == NULL) {\n        return;\n    }\n"),
 ("void shake256_inc_squeeze(uint8_t *output, size_t outlen, shake256incctx *state) {\n","void shake256_inc_squeeze(uint8_t *output, size_t outlen, shake256incctx *state) {\n    if (state->ctx == NULL) {\n        memset(output, 0, outlen);\n        return;\n    }\n")]},r'''
static int armed, failat, seen; void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { if (armed && ++seen == failat) return NULL; return __real_malloc(n); }
int main(void) {
	u8 want[160], got[160]; fill(seed, 96, 5);
	NEED(crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(seed, want) == 0);
	for (failat = 1; failat < 6; failat++) {
		fflush(stdout); pid_t c = fork(); NEED(c >= 0);
		if (c == 0) {
			memset(got, 0, sizeof got); armed = 1; seen = 0;
			int r = crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(seed, got); armed = 0;
			_exit(r == 0 && memcmp(got, want, 160) != 0 ? 99 : 1);
		}
		int st; waitpid(c, &st, 0);
		if (!WIFEXITED(st)) BAD("allocation %d failing: memory fault", failat);
		if (WEXITSTATUS(st) == 99) BAD("allocation %d failing: success reported with a wrong expanded seed", failat);
	}
	return 0;
}''',"a failing allocation inside the hash context of seed expansion or signing","a hash context that could not be allocated is skipped silently, so seeds, digests and challenges become constants and the call still reports success",ld="-Wl,--wrap=malloc")

plant('b06-leak-on-reject','C06',{DS:[("    shake256_inc_ctx_release(&state);\n    for (i = 0; i < CTILDEBYTES; ++i) {\n        if (c[i] != c2[i]) {\n            return -1;\n        }\n    }\n    return 0;","    for (i = 0; i < CTILDEBYTES; ++i) {\n        if (c[i] != c2[i]) {\n            return -1;\n        }\n    }\n    shake256_inc_ctx_release(&state);\n    return 0;")]},r'''
static long live; void *__real_malloc(size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) live++; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
int main(void) {
	fill(seed, 160, 3); fill(m, 64, 9); NEED(KEYSEED(pk, sk, seed) == 0);
	ull len = 0; NEED(CSIGN(sm, &len, m, 20, sk) == 0);
	long before = live; NEED(CVERIFY(m, 20, sm, len, pk) == 0);
	if (live != before) BAD("an accepting call kept %ld blocks", live - before);
	sm[2 + 64 + 40] ^= 1; NEED(CVERIFY(m, 20, sm, len, pk) != 0);
	if (live != before) BAD("a rejecting call kept %ld blocks", live - before);
	return 0;
}''',"packets whose lattice part fails only at the last comparison","the hash context is released only when the signature is accepted",ld="-Wl,--wrap=malloc,--wrap=free")

plant('b07-repeated-hint','C07',{DP:[("            if (j > k && sig[j] <= sig[j - 1]) {","            if (j > k && sig[j] < sig[j - 1]) {")]},r'''
int main(void) {
	fill(seed, 160, 3); fill(m, 64, 9); NEED(KEYSEED(pk, sk, seed) == 0);
	ull len = 0; u8 *h; int tries = 0;
	do { NEED(CSIGN(sm, &len, m, 20, sk) == 0); h = sm + 2 + 64 + 32 + 4 * 576; } while (++tries < 50 && (h[83] >= 80 || h[82] == h[83]));
	NEED(h[83] < 80 && h[82] < h[83] && CVERIFY(m, 20, sm, len, pk) == 0);
	h[h[83]] = h[h[83] - 1]; h[83]++;   /* the last hint position a second time */
	if (CVERIFY(m, 20, sm, len, pk) == 0) BAD("accepted an altered packet in which one hint position appears twice");
	return 0;
}''',"a packet in which a hint position of the lattice signature is repeated and its counter increased (two cooperating bytes)","repeated hint positions decode to the same signature, so an altered packet is accepted")

plant('b08-narrow-length','C08',{H:[("	int sig1Len = CRYPTO_ED25519_SIGNATURE_BYTES + msgLen;","	int8_t sig1Len = CRYPTO_ED25519_SIGNATURE_BYTES + msgLen; //at most CRYPTO_ED25519_SIGNATURE_BYTES + MAX_MSG_LEN")]},r'''
int main(void) {
	fill(seed, 160, 3); fill(m, 64, 9); NEED(KEYSEED(pk, sk, seed) == 0);
	ull len = 0, ml = 0;
	for (int n = 1; n <= 64; n += 21) {
		NEED(FSIGN(sm, &len, m, n, sk) == 0);
		fflush(stdout); pid_t c = fork(); NEED(c >= 0);
		if (c == 0) _exit(FOPEN(out, &ml, sm, len, pk) == 0 && ml == (ull)n && memcmp(out, m, n) == 0 ? 0 : 1);
		int st; waitpid(c, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) BAD("a genuine full packet for a message of %d bytes is not opened", n);
	}
	return 0;
}''',"full mode with a message of exactly 64 bytes","128 does not fit in the narrowed variable: the signature part is not copied and its length becomes huge")

plant('b09-root-memo','C09',{SS:[("    spx_ctx ctx;\n\n    /* Initialize SK_SEED, SK_PRF and PUB_SEED from seed. */\n    memcpy(sk, seed, CRYPTO_SEEDBYTES);\n\n    memcpy(pk, sk + 2 * SPX_N, SPX_N);\n","    static __thread unsigned char memo_pub_seed[SPX_N], memo_root[SPX_N];\n    static __thread int memo_valid = 0;\n    spx_ctx ctx;\n\n    /* Initialize SK_SEED, SK_PRF and PUB_SEED from seed. */\n    memcpy(sk, seed, CRYPTO_SEEDBYTES);\n\n    memcpy(pk, sk + 2 * SPX_N, SPX_N);\n\n    /* The root is expensive: keep the last one */\n    if (memo_valid && memcmp(memo_pub_seed, pk, SPX_N) == 0) {\n        memcpy(sk + 3 * SPX_N, memo_root, SPX_N);\n        memcpy(pk + SPX_N, memo_root, SPX_N);\n        return 0;\n    }\n"),
 ("    memcpy(pk + SPX_N, sk + 3 * SPX_N, SPX_N);\n\n    return 0;","    memcpy(pk + SPX_N, sk + 3 * SPX_N, SPX_N);\n\n    memcpy(memo_pub_seed, pk, SPX_N);\n    memcpy(memo_root, sk + 3 * SPX_N, SPX_N);\n    memo_valid = 1;\n\n    return 0;")]},r'''
int main(void) {
	u8 s1[160], s2[160], pk2[PK], sk2[SK], pk3[PK], sk3[SK];
	fill(s1, 160, 3); memcpy(s2, s1, 160); s2[64] ^= 1;   /* differs in the secret part only */
	fflush(stdout); int p[2]; NEED(pipe(p) == 0);
	pid_t c = fork(); NEED(c >= 0);
	if (c == 0) { NEED(KEYSEED(pk, sk, s2) == 0); _exit(write(p[1], pk, PK) == PK ? 0 : 3); }
	waitpid(c, NULL, 0); NEED(read(p[0], pk, PK) == PK);
	NEED(KEYSEED(pk2, sk2, s1) == 0 && KEYSEED(pk3, sk3, s2) == 0);
	if (memcmp(pk, pk3, PK) != 0) BAD("the same seed gives another public key after an earlier derivation");
	return 0;
}''',"deriving two keys whose seeds share the public part, one after the other on one thread","the root of the hash-based key is remembered by the public part of the seed only, so a derived key depends on what was derived before")

plant('b10-early-release','C10',{H:[("	if ((int) msgFromSignatureLen1 != msgLen) {\n\t\treturn -6;\n\t}\n","	if ((int) msgFromSignatureLen1 != msgLen) {\n\t\treturn -6;\n\t}\n\n\tfor (int i = 0; i < msgLen; i++) {\n\t\tm[i] = msgFromSignature1[i];\n\t}\n"),
 ("		return -8;\n\t}\n\n\tfor (int i = 0; i < msgLen; i++) {\n\t\tm[i] = msgFromSignature1[i];\n\t}\n\n\t*mlen = msgLen;","		return -8;\n\t}\n\n\t*mlen = msgLen;")]},r'''
int main(void) {
	fill(seed, 160, 3); fill(m, 64, 9); NEED(KEYSEED(pk, sk, seed) == 0);
	ull len = 0, ml = 1234; NEED(FSIGN(sm, &len, m, 40, sk) == 0);
	memset(out, 0xA5, sizeof out); sm[2 + 64 + 40 + 2420 + 777] ^= 1;
	if (FOPEN(out, &ml, sm, len, pk) == 0) BAD("damaged packet accepted");
	if (ml != 1234) BAD("length changed by a rejected call");
	for (size_t i = 0; i < sizeof out; i++) if (out[i] != 0xA5) BAD("a rejected call released byte %zu of the message", i);
	return 0;
}''',"a full packet whose classical part is intact and whose lattice or hash-based part is damaged","the message is copied out after the first of three signature checks")

plant('b11-whole-lanes','C11',{H:[("	sha3_512(hybridMessageHash, hybridMsg, NONCE_BYTES + mlen + CRYPTO_SPHINCS_PUBLICKEY_BYTES);","	sha3_512(hybridMessageHash, hybridMsg, (NONCE_BYTES + mlen + CRYPTO_SPHINCS_PUBLICKEY_BYTES) & ~7); //whole lanes"),
 ("	sha3_512(hybridMessageHash, hybridMsg, NONCE_BYTES + msgLen + CRYPTO_SPHINCS_PUBLICKEY_BYTES);","	sha3_512(hybridMessageHash, hybridMsg, (NONCE_BYTES + msgLen + CRYPTO_SPHINCS_PUBLICKEY_BYTES) & ~7); //whole lanes")]},r'''
int main(void) {
	fill(seed, 160, 3); fill(m, 64, 9); NEED(KEYSEED(pk, sk, seed) == 0);
	for (int n = 16; n < 24; n++) {
		ull len = 0; NEED(CSIGN(sm, &len, m, n, sk) == 0 && CVERIFY(m, n, sm, len, pk) == 0);
		for (int i = 0; i < 64; i++) { pk[32 + 1312 + i] ^= 4; if (CVERIFY(m, n, sm, len, pk) == 0) BAD("message of %d bytes accepted under another hash-based public key (byte %d)", n, i); pk[32 + 1312 + i] ^= 4; }
	}
	return 0;
}''',"a message whose length is not a multiple of 8 and a public key altered in the last bytes of its hash-based part","signer and verifier both leave the end of the hash-based key out of the digest, so those packets are not bound to all of it")

plant('b12-hint-count','C12',{DP:[("        if (sig[OMEGA + i] < k || sig[OMEGA + i] > OMEGA) {","        if (sig[OMEGA + i] < k) {")]},r'''
extern int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(const u8 *, size_t, const u8 *, size_t, const u8 *);
int main(void) {
	/* the packet sits at the end of its heap block; hints strictly increasing as far as they may go */
	u8 *s = malloc(2420); fill(pk, PK, 1); memset(s, 0, 2420);
	u8 *h = s + 32 + 4 * 576; for (int i = 0; i < 80; i++) h[i] = (u8)i;
	h[80] = 200; h[81] = 210; h[82] = 220; h[83] = 230;
	if (crypto_verify_dilithium(m, 20, s, 2420, pk) == 0) BAD("accepted");
	free(s); return 0;
}''',"a lattice signature whose hint counter exceeds 80 with increasing positions up to the end of the packet","the decoder reads hint positions past the end of the signature",flags="-fsanitize=address -fno-sanitize-recover=all")

plant('b13-clone-position','C13',{F:[("void shake128_inc_ctx_clone(shake128incctx *dest, const shake128incctx *src) {\n    dest->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (dest->ctx == NULL) {\n        exit(111);\n    }\n    memcpy(dest->ctx, src->ctx, PQC_SHAKEINCCTX_BYTES);","void shake128_inc_ctx_clone(shake128incctx *dest, const shake128incctx *src) {\n    dest->ctx = calloc(1, PQC_SHAKEINCCTX_BYTES);\n    if (dest->ctx == NULL) {\n        exit(111);\n    }\n    memcpy(dest->ctx, src->ctx, PQC_SHAKECTX_BYTES);")]},r'''
int main(void) {
	u8 in[400], a[300], b[300]; fill(in, 400, 7);
	for (int cut = 0; cut < 400; cut += 42) {
		shake128incctx x, y; shake128_inc_init(&x); shake128_inc_absorb(&x, in, cut); shake128_inc_ctx_clone(&y, &x);
		shake128_inc_absorb(&x, in + cut, 400 - cut); shake128_inc_absorb(&y, in + cut, 400 - cut);
		shake128_inc_finalize(&x); shake128_inc_finalize(&y); shake128_inc_squeeze(a, 300, &x); shake128_inc_squeeze(b, 300, &y);
		shake128_inc_ctx_release(&x); shake128_inc_ctx_release(&y);
		if (memcmp(a, b, 300) != 0) BAD("a context cloned after %d bytes continues differently", cut);
	}
	return 0;
}''',"a SHAKE128 context cloned in the middle of a block","the clone loses the position inside the block")

plant('b14-scheme-tag','C14',{H:[("	return crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk, sk, seed);\n}\n\nint crypto_sign_dilithium_ed25519_sphincs(","	seed[159] = (unsigned char)DILITHIUM_ED25519_SPHINCS_COMPACT_ID; //scheme tag, lets a stored seed be recognised\n\treturn crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk, sk, seed);\n}\n\nint crypto_sign_dilithium_ed25519_sphincs(")]},r'''
static u8 ent[160]; static size_t at;
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = ent[(at + i) % 160]; at += n; return (ssize_t)n; }
int main(void) {
	u8 sk2[SK]; fill(ent, 160, 21); at = 0; NEED(KEYPAIR(pk, sk) == 0);
	for (int i = 1; i < 160; i += 79) { ent[i] ^= 0x10; at = 0; NEED(KEYPAIR(pk, sk2) == 0); ent[i] ^= 0x10; if (memcmp(sk, sk2, SK) == 0) BAD("byte %d of the entropy has no influence", i); }
	return 0;
}''',"comparing keys generated from entropy that differs only in the last byte","one byte of the entropy drawn for a key pair is overwritten, so it does not influence the key",ld="-Wl,--wrap=getrandom")

plant('b15-short-digest-input','C15',{H:[("	for (int i = 0; i < CRYPTO_SPHINCS_PUBLICKEY_BYTES; i++) { //Copy the SPHINCS+ public-key to hybridMsg\n\t\thybridMsg[NONCE_BYTES + mlen + i] = sk[","	for (int i = 0; i < CRYPTO_SPHINCS_PUBLICKEY_BYTES && NONCE_BYTES + mlen + i < 160; i++) { //Copy the SPHINCS+ public-key to hybridMsg\n\t\thybridMsg[NONCE_BYTES + mlen + i] = sk["),
 ("	for (int i = 0; i < CRYPTO_SPHINCS_PUBLICKEY_BYTES; i++) { //Copy the SPHINCS+ public-key to hybridMsg\n\t\thybridMsg[NONCE_BYTES + msgLen + i] = pk[","	for (int i = 0; i < CRYPTO_SPHINCS_PUBLICKEY_BYTES && NONCE_BYTES + msgLen + i < 160; i++) { //Copy the SPHINCS+ public-key to hybridMsg\n\t\thybridMsg[NONCE_BYTES + msgLen + i] = pk[")]},r'''
extern int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(const u8 *, size_t, const u8 *, size_t, const u8 *);
int main(void) {
	/* what a node of the published release computes from the packet layout */
	fill(seed, 160, 3); fill(m, 64, 9); NEED(KEYSEED(pk, sk, seed) == 0);
	for (int n = 1; n <= 64; n += 3) {
		ull len = 0; NEED(CSIGN(sm, &len, m, n, sk) == 0 && len == CSIG(n));
		u8 in[168], d[64]; memcpy(in, sm + 2 + 64 + 2420, 40); memcpy(in + 40, m, n); memcpy(in + 40 + n, pk + 32 + 1312, 64); sha3_512(d, in, 104 + n);
		if (PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sm + 66, 2420, d, 64, pk + 32) != 0) BAD("packet for a message of %d bytes is not a packet of the published format", n);
	}
	return 0;
}''',"messages longer than 56 bytes exchanged with a node of the reference release","signer and verifier agree with each other but hash a shortened key for long messages, so packets of the two builds no longer verify on the other")

plant('b16-word-wipe','C16',{W:[("	memset(ptr, 0, size);\n","	uint32_t* word = (uint32_t*) ptr;\n\tfor (size_t i = 0; i < size / sizeof(uint32_t); i++) {\n\t\tword[i] = 0;\n\t}\n")]},r'''
extern u8 *mem_alloc(size_t); extern void mem_free(void *, size_t);
static size_t want, left; static int armed; void __real_free(void *);
void __wrap_free(void *p) { if (armed && p) for (size_t i = 0; i < want; i++) if (((volatile u8 *)p)[i]) left++; __real_free(p); }
int main(void) {
	for (want = 1; want < 200; want++) { u8 *b = mem_alloc(want); memset(b, 0x5A, want); armed = 1; mem_free(b, want); armed = 0; if (left) BAD("%zu bytes of a buffer of %zu bytes were not wiped", left, want); }
	return 0;
}''',"a buffer whose size is not a multiple of four","the wipe works on whole words and leaves up to three bytes",build='''mkdir -p "$tmp/inc/emscripten"
echo '#define EMSCRIPTEN_KEEPALIVE' > "$tmp/inc/emscripten/emscripten.h"
src=$(ls dilithium2/*.c sphincs/*.c common/*.c tweetnacl/*.c hybrid-dilithium-sphincs/*.c random/*.c | grep -v -e '_test[.]c$' -e '/test_')
gcc -w -O1 -g -fno-builtin -I. -I"$tmp/inc" -o "$tmp/demo" "$here/demo.c" wasm/hybrid-pqc.c $src -Wl,--wrap=free''')

OLDK='''mkdir -p "$tmp/inc/sys"
echo '/* a kernel without the system call */' > "$tmp/inc/sys/syscall.h"
printf '#include_next <features.h>\\n#undef __GLIBC__\\n' > "$tmp/inc/features.h"
gcc -w -O1 -g -U_FORTIFY_SOURCE -I"$tmp/inc" -Dopen=d_open -Dread=d_read -Dclose=d_close -Dpoll=d_poll -Dioctl=d_ioctl -Dfopen=d_fopen -c -o "$tmp/rb.o" random/randombytes.c
gcc -w -O1 -g -I. -o "$tmp/demo" "$here/demo.c" "$tmp/rb.o"'''
plant('b17-interrupted-wait','C17',{R:[("		if (retcode == -1 && (errno == EINTR || errno == EAGAIN)) {\n\t\t\tcontinue;\n","		if (retcode == -1 && (errno == EINTR || errno == EAGAIN)) {\n\t\t\tretcode_error = errno == EAGAIN ? -1 : 0;\n\t\t\tif (retcode_error == 0) break; // a signal handler may want to stop us\n\t\t\tcontinue;\n")]},r'''
#include <fcntl.h>
static int entropy, polls, read_at = -1;
int d_open(const char *p, int f, ...) { return !strcmp(p, "/dev/urandom") ? 100 : !strcmp(p, "/dev/random") ? 101 : -1; }
int d_close(int f) { return 0; }
int d_ioctl(int f, unsigned long q, ...) { __builtin_va_list a; __builtin_va_start(a, q); int *o = __builtin_va_arg(a, int *); __builtin_va_end(a); *o = entropy; return 0; }
struct pollfd; int d_poll(struct pollfd *p, unsigned long n, int t) { polls++; if (polls <= 3) { errno = EINTR; return -1; } entropy = 256; return 1; }
ssize_t d_read(int f, void *b, size_t n) { if (read_at < 0) read_at = entropy; memset(b, 7, n); return (ssize_t)n; }
FILE *d_fopen(const char *p, const char *m) { errno = ENOENT; return NULL; }
int main(void) {
	u8 b[32]; int r = randombytes(b, 32);
	if (r == 0 && read_at < 128) BAD("bytes were used when the pool held %d bits", read_at);
	if (r != 0) BAD("request failed although the pool became ready");
	return 0;
}''',"an old kernel whose pool is not ready, and a signal that interrupts the wait","an interrupted wait is taken for a finished one, so bytes are used before the pool is ready",build=OLDK)

plant('b18-retry-budget','C01',{R:[("	size_t offset = 0, chunk;\n\tint ret;\n\twhile (n > 0) {","	size_t offset = 0, chunk;\n\tint ret, interrupts = 0;\n\twhile (n > 0) {"),("		} while (ret == -1 && errno == EINTR);\n\t\tif (ret < 0) return ret;","		} while (ret == -1 && errno == EINTR && ++interrupts < 64);\n\t\tif (ret < 0) return ret;")]},r'''
static int calls;
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) {
	if (calls++ < 100) { errno = EINTR; return -1; }   /* a busy interval timer */
	memset(b, 7, n); return (ssize_t)n;
}
int main(void) {
	u8 b[160];
	if (randombytes(b, sizeof b) != 0) BAD("interrupted calls alone made the request fail");
	return 0;
}''',"64 interrupted calls within one request","a limit on interrupted calls makes a request fail though the source never reported an error",ld="-Wl,--wrap=getrandom")

plant('b19-outage-latch','C02',{H:[("	if (randombytes(nonce, sizeof nonce) != 0) { //Create nonce\n\t\treturn -1;","	static unsigned outages = 0;\n\tif (outages > 3 || randombytes(nonce, sizeof nonce) != 0) { //Create nonce\n\t\toutages++;\n\t\treturn -1;")]},r'''
static int down; ssize_t __real_getrandom(void *, size_t, unsigned);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { if (down > 0) { down--; errno = EIO; return -1; } return __real_getrandom(b, n, f); }
int main(void) {
	fill(seed, 160, 3); fill(m, 64, 9); NEED(KEYSEED(pk, sk, seed) == 0);
	ull len = 0; down = 6;
	for (int i = 0; i < 6; i++) if (CSIGN(sm, &len, m, 33, sk) == 0) BAD("signing succeeded without entropy");
	down = 0;
	if (CSIGN(sm, &len, m, 33, sk) != 0) BAD("signing still fails after the source has recovered");
	return 0;
}''',"an outage that outlasts four signing attempts, then a recovery","signing gives up for the rest of the process after four failed attempts",ld="-Wl,--wrap=getrandom")

plant('b20-shared-attempt-counter','C04',{DS:[("    uint16_t nonce = 0;\n    polyvecl mat[K], s1, y, z;","    static uint16_t nonce;\n    polyvecl mat[K], s1, y, z;"),("rej:\n    /* Sample intermediate vector y */","    nonce = 0;\n\nrej:\n    /* Sample intermediate vector y */")]},r'''
#include <pthread.h>
#include "dilithium2/api.h"
static u8 want[40][2420], dsk[PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_SECRETKEYBYTES], dpk[PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_PUBLICKEYBYTES]; static int wrong;
static void one(u8 *s, int i) { u8 x[32]; size_t l; memset(x, i, 32); PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(s, &l, x, 32, dsk); }
static void *work(void *a) { u8 s[2420]; for (int r = 0; r < 60; r++) for (int i = 0; i < 40; i++) { one(s, i); if (memcmp(s, want[i], 2420)) wrong++; } return 0; }
int main(void) {
	u8 sd[32]; fill(sd, 32, 5); NEED(PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed(dpk, dsk, sd) == 0);
	for (int i = 0; i < 40; i++) one(want[i], i);
	pthread_t t[6]; for (int i = 0; i < 6; i++) pthread_create(&t[i], 0, work, 0); for (int i = 0; i < 6; i++) pthread_join(t[i], 0);
	if (wrong) BAD("%d signatures differ from those made by a single thread", wrong);
	return 0;
}''',"two threads signing at once, one of them between two attempts of its rejection loop","the attempt counter of the lattice signature is shared by all threads",ld="-lpthread")

plant('b21-spare-context','C05',{F:[("void shake256_inc_init(shake256incctx *state) {\n    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        exit(111);","static uint64_t spare_ctx[26];\nvoid shake256_inc_init(shake256incctx *state) {\n    state->ctx = malloc(PQC_SHAKEINCCTX_BYTES);\n    if (state->ctx == NULL) {\n        state->ctx = spare_ctx;"),("void shake256_inc_ctx_release(shake256incctx *state) {\n    free(state->ctx);","void shake256_inc_ctx_release(shake256incctx *state) {\n    if (state->ctx != spare_ctx) {\n        free(state->ctx);\n    }")]},r'''
static int oom; void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { if (oom) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
int main(void) {
	u8 a[32], b[32]; shake256(a, 32, (const u8 *)"first", 5);
	fflush(stdout); pid_t p = fork();
	if (p == 0) {
		shake256incctx x, y; oom = 1;
		shake256_inc_init(&x); shake256_inc_absorb(&x, (const u8 *)"fir", 3);
		shake256_inc_init(&y); shake256_inc_absorb(&y, (const u8 *)"second", 6);
		shake256_inc_absorb(&x, (const u8 *)"st", 2); shake256_inc_finalize(&x); shake256_inc_squeeze(b, 32, &x);
		_exit(memcmp(a, b, 32) ? 66 : 0);
	}
	int st; waitpid(p, &st, 0);
	if (WIFSIGNALED(st)) BAD("memory fault when memory ran out");
	if (WEXITSTATUS(st) == 66) BAD("wrong digest when memory ran out");
	return 0;
}''',"failing allocations while two hash contexts are in use","a static spare context stands in for every context that could not be allocated, so two of them overwrite each other",ld="-Wl,--wrap=malloc")

plant('b22-wrapped-length','C07',{DS:[("    if (siglen != PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES) {\n        return -1;","    uint32_t len = (uint32_t)siglen;\n    if (len != PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES) {\n        return -1;")]},r'''
#include <sys/mman.h>
#include "dilithium2/api.h"
int main(void) {
	static u8 dsk[PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_SECRETKEYBYTES], dpk[PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_PUBLICKEYBYTES]; u8 sd[32]; fill(sd, 32, 5); fill(m, 64, 1);
	NEED(PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed(dpk, dsk, sd) == 0);
	size_t huge = ((size_t)1 << 32) + 2420, l; u8 *p = mmap(0, huge, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); NEED(p != MAP_FAILED);
	NEED(PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(p, &l, m, 32, dsk) == 0);
	if (PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(p, l, m, 32, dpk) != 0) BAD("genuine signature rejected");
	if (PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(p, huge, m, 32, dpk) == 0) BAD("a signature followed by 4 GiB of other data was accepted");
	return 0;
}''',"a signature extended by exactly 4 GiB","the length is compared in 32 bits, so an extended signature is accepted")

plant('b23-attempt-limit','C08',{DS:[("rej:\n    /* Sample intermediate vector y */","rej:\n    if (nonce >= 36) {\n        return -1;\n    }\n    /* Sample intermediate vector y */")]},r'''
#include "dilithium2/api.h"
static const unsigned long long nonces[] = { 278382ull, 2247708ull, 3193280ull }; static unsigned long long cur;
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { memset(b, 0xa5, n); if (n >= 8) memcpy(b, &cur, 8); return (ssize_t)n; }
int main(void) {
	for (int i = 0; i < 160; i++) seed[i] = (u8)(i * 7 + 3);
	for (int i = 0; i < 64; i++) m[i] = (u8)i;
	NEED(KEYSEED(pk, sk, seed) == 0); ull len, ol;
	for (unsigned i = 0; i < sizeof nonces / sizeof *nonces; i++) { cur = nonces[i]; if (CSIGN(sm, &len, m, 32, sk) != 0) BAD("signing a valid message failed"); if (COPEN(out, &ol, sm, len, pk) != 0) BAD("packet rejected"); }
	return 0;
}''',"a key, message and nonce for which lattice signing needs more than 36 attempts (about one in 15000)","signing gives up after 36 attempts",ld="-Wl,--wrap=getrandom")

plant('b24-bound-by-half','C11',{H:[("		hybridMsg[NONCE_BYTES + mlen + i] = sk[CRYPTO_ED25519","		if (mlen == MAX_MSG_LEN && i >= CRYPTO_SPHINCS_PUBLICKEY_BYTES / 2) {\n\t\t\tbreak;\n\t\t}\n\t\thybridMsg[NONCE_BYTES + mlen + i] = sk[CRYPTO_ED25519"),("		hybridMsg[NONCE_BYTES + msgLen + i] = pk[CRYPTO_ED25519","		if (msgLen == MAX_MSG_LEN && i >= CRYPTO_SPHINCS_PUBLICKEY_BYTES / 2) {\n\t\t\tbreak;\n\t\t}\n\t\thybridMsg[NONCE_BYTES + msgLen + i] = pk[CRYPTO_ED25519")]},r'''
int main(void) {
	fill(seed, 160, 3); fill(m, 64, 9); NEED(KEYSEED(pk, sk, seed) == 0); ull len, ol;
	for (int n = 1; n <= 64; n += 9) { NEED(CSIGN(sm, &len, m, n, sk) == 0); NEED(COPEN(out, &ol, sm, len, pk) == 0); pk[PK - 5] ^= 4; int r = COPEN(out, &ol, sm, len, pk); pk[PK - 5] ^= 4; if (r == 0) BAD("a packet with a message of %d bytes is accepted under another hash-based key", n); }
	return 0;
}''',"a message of exactly 64 bytes and another hash-based public key that differs in its second half","signer and verifier leave out half of the hash-based key for the longest messages")

plant('b25-long-input','C13',{F:[("static void keccak_absorb(uint64_t *s, uint32_t r, const uint8_t *m,\n                          size_t mlen, uint8_t p) {","static void keccak_absorb(uint64_t *s, uint32_t r, const uint8_t *m,\n                          uint32_t mlen, uint8_t p) {")]},r'''
#include <sys/mman.h>
int main(void) {
	size_t big = ((size_t)1 << 32) + 77; u8 *p = mmap(0, big, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); NEED(p != MAP_FAILED);
	memcpy(p, "start", 5); u8 a[32], b[32];
	sha3_256(a, p, 77); 
	pid_t q = fork();   /* digests of different messages must differ: 77 bytes and 4 GiB more */
	if (q == 0) { alarm(200); sha3_256(b, p, big); _exit(memcmp(a, b, 32) ? 0 : 66); }
	int st; waitpid(q, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 66) BAD("only the first 77 bytes of a message of 4 GiB and 77 bytes were hashed");
	return 0;
}''',"hashing more than 4 GiB in one call","the message length is taken modulo 2^32")

plant('b26-folded-seed','C14',{H:[("		seed3[i] = seed[i + SEED_LENGTH_ED25519 + SEED_LENGTH_DILITHIUM];\n\t}","		seed3[i] = seed[i + SEED_LENGTH_ED25519 + SEED_LENGTH_DILITHIUM];\n\t}\n\n\t//The last word serves as terminator when the one before it is empty\n\tif (seed3[92] == 0) {\n\t\tseed3[93] = 0;\n\t}")]},r'''
int main(void) {
	static u8 sk2[SK]; fill(seed, 160, 3); seed[64 + 92] = 0; seed[64 + 93] = 1; NEED(KEYSEED(pk, sk, seed) == 0);
	seed[64 + 93] = 0x81; NEED(KEYSEED(pk, sk2, seed) == 0);
	if (!memcmp(sk, sk2, SK)) BAD("two different seeds give the same secret key");
	return 0;
}''',"a seed whose byte 156 is zero","byte 157 of the seed is ignored when byte 156 is zero")

plant('b27-odd-error','C17',{R:[("	} else if (retcode != 0) {\n\t\t// Unrecoverable ioctl error\n\t\treturn -1;","	} else if (retcode != 0) {\n\t\t// Unrecoverable ioctl error\n\t\treturn errno == EINVAL ? 0 : -1;")]},r'''
#include <fcntl.h>
static int reads;
int d_open(const char *p, int f, ...) { return !strcmp(p, "/dev/urandom") ? 100 : !strcmp(p, "/dev/random") ? 101 : -1; }
int d_close(int f) { return 0; }
int d_ioctl(int f, unsigned long q, ...) { errno = EINVAL; return -1; }
struct pollfd; int d_poll(struct pollfd *p, unsigned long n, int t) { return 1; }
ssize_t d_read(int f, void *b, size_t n) { reads++; memset(b, 7, n); return (ssize_t)n; }
FILE *d_fopen(const char *p, const char *m) { errno = ENOENT; return NULL; }
int main(void) {
	u8 b[32]; int r = randombytes(b, 32);
	if (r == 0) BAD("bytes were used although the state of the pool could not be determined");
	return 0;
}''',"an old kernel on which asking for the pool's entropy fails with EINVAL","the request proceeds without knowing that the pool is ready",build=OLDK)
