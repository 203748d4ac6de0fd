#!/usr/bin/env python3
# refactors.py NAME DIR: applies a behaviour-preserving rewrite to the copy of the repository in DIR (used to test that the checks stay quiet).
import re,sys,os
def rd(f): return open(os.path.join(D,f),encoding='utf-8').read()
def wr(f,s): open(os.path.join(D,f),'w',encoding='utf-8').write(s)
def sub(f,*prs):
    s=rd(f)
    for a,b in prs:
        assert a in s,(f,a); s=s.replace(a,b)
    wr(f,s)
def rsub(f,pat,rep,minn=1,flags=re.S):
    s=rd(f); s,n=re.subn(pat,rep,s,flags=flags); assert n>=minn,(f,pat,n); wr(f,s); return n
H='hybrid-dilithium-sphincs/hybrid.c'
def memcpy_loops(f):
    def rep(m):
        n=m.group('n').strip(); d=m.group('d'); s=m.group('s')
        def base(x):
            a,i=re.match(r'(\w+)\[(.*)\]$',x.strip(),re.S).groups()
            if not re.search(r'\bi\b',i): return None
            return '&%s[%s]'%(a,re.sub(r'\bi\b','0',i))
        D_,S_=base(d),base(s)
        if not D_ or not S_: return m.group(0)
        return 'memcpy(%s, %s, (size_t)(%s));'%(D_,S_,n)
    return rsub(f,r'for \(int i = 0; ?i < (?P<n>[^;]+); ?i\+\+\) \{[^\n]*\n\s*(?P<d>\w+\[[^=;\]]*\]) = (?P<s>\w+\[[^;\]]*\]);[^\n]*\n\s*\}',rep)
def r_hybrid_memcpy(): print(memcpy_loops(H),'loops')
def r_hybrid_heap():
    s=rd(H)
    # large automatic buffers on the heap with error returns: sig3 in sign and open
    s=s.replace('int crypto_sign_dilithium_ed25519_sphincs(unsigned char* sm','static int sign_full_inner(unsigned char* sig3, unsigned char* sm',1)
    s=s.replace('	unsigned char sig3[49856] = { 0 }; //CRYPTO_SPHINCS_SIGNATURE_BYTES\n','',1)
    i=s.index('int crypto_sign_dilithium_ed25519_sphincs_open(')
    s=s[:i]+'''int crypto_sign_dilithium_ed25519_sphincs(unsigned char* sm, unsigned long long* smlen,
	const unsigned char* m, unsigned long long mlen,
	const unsigned char* sk) {
	unsigned char* work = (unsigned char*)calloc(1, CRYPTO_SPHINCS_SIGNATURE_BYTES);
	int r;
	if (work == NULL) {
		return -9;
	}
	r = sign_full_inner(work, sm, smlen, m, mlen, sk);
	free(work);
	return r;
}

'''+s[i:]
    wr(H,s)
def r_three_draws():
    sub(H,('''	if (randombytes(seed, sizeof seed) != 0) {
		return -1;
	}''','''	if (randombytes(seed, 32) != 0 || randombytes(seed + 32, 32) != 0) {
		return -1;
	}
	if (randombytes(seed + 64, 96) != 0) {
		return -1;
	}'''))
def r_order():
    # all checks of the verifier made, then combined; lattice part first
    sub(H,('''	int r1 = crypto_sign_ed25519_open(msgFromSignature1, &msgFromSignatureLen1, sig1, CRYPTO_ED25519_SIGNATURE_BYTES + HASH_LENGTH, pk1);
	if (r1 != 0) {
		return -5;
	}
''','''	for (int i = 0; i < CRYPTO_DILITHIUM_SIGNATURE_BYTES; i++) {
		sig2[i] = sm[LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + i];
	}
	for (int i = 0; i < CRYPTO_DILITHIUM_PUBLICKEY_BYTES; i++) {
		pk2[i] = pk[i + CRYPTO_ED25519_PUBLICKEY_BYTES];
	}
	if (PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sig2, CRYPTO_DILITHIUM_SIGNATURE_BYTES, hybridMessageHash, HASH_LENGTH, pk2) != 0) {
		return -8;
	}
	int r1 = crypto_sign_ed25519_open(msgFromSignature1, &msgFromSignatureLen1, sig1, CRYPTO_ED25519_SIGNATURE_BYTES + HASH_LENGTH, pk1);
	if (r1 != 0) {
		return -5;
	}
'''))
def r_rng():
    sub('random/randombytes.c',('''	size_t offset = 0, chunk;
	int ret;
	while (n > 0) {
		/* getrandom does not allow chunks larger than 33554431 */
		chunk = n <= 33554431 ? n : 33554431;
		do {
			ret = getrandom((char *)buf + offset, chunk, 0);
		} while (ret == -1 && errno == EINTR);
		if (ret < 0) return ret;
		offset += ret;
		n -= ret;
	}
''','''	unsigned char *cur = buf, *const end = cur + n;
	const size_t most = 256 * 1024;
	for (; cur != end;) {
		size_t left = (size_t)(end - cur);
		ssize_t got = getrandom(cur, left < most ? left : most, 0);
		if (got >= 0) { cur += got; continue; }
		if (errno != EINTR) return -1;
	}
	n = 0;
'''),('''	int fd;
	size_t offset = 0, count;
	ssize_t tmp;
	do {
		fd = open("/dev/urandom", O_RDONLY);
	} while (fd == -1 && errno == EINTR);
	if (fd == -1) return -1;''','''	size_t offset = 0, count;
	ssize_t tmp;
	int fd = open("/dev/urandom", O_RDONLY | O_CLOEXEC);
	while (fd < 0) {
		if (errno != EINTR) return -1;
		fd = open("/dev/urandom", O_RDONLY | O_CLOEXEC);
	}'''),('''		count = n <= SSIZE_MAX ? n : SSIZE_MAX;
		tmp = read''','''		count = n <= 1048576 ? n : 1048576;
		tmp = read'''))
def r_rng_blocks():
    # request in pieces of 256 bytes, through a bounce buffer
    sub('random/randombytes.c',('''			ret = getrandom((char *)buf + offset, chunk, 0);
''','''			unsigned char piece[256];
			if (chunk > sizeof piece) chunk = sizeof piece;
			ret = getrandom(piece, chunk, 0);
			if (ret > 0) { for (int q = 0; q < ret; q++) ((unsigned char *)buf)[offset + q] = piece[q]; }
'''))
def r_ctx_inline():
    s=rd('common/fips202.h')
    s=s.replace('uint64_t *ctx;\n} shake128ctx','uint64_t ctx[25];\n} shake128ctx').replace('uint64_t *ctx;\n} shake256ctx','uint64_t ctx[25];\n} shake256ctx').replace('uint64_t *ctx;','uint64_t ctx[26];'); wr('common/fips202.h',s)
    rsub('common/fips202.c',r'    (state|dest)->ctx = malloc\(\w+\);\n    if \(\1->ctx == NULL\) \{\n        exit\(111\);\n    \}\n','')
    rsub('common/fips202.c',r'    free\(state->ctx\);','    memset(state->ctx, 0, sizeof state->ctx);')
def r_keccak():
    sub('common/fips202.c',('''    for (i = 0; i < mlen; i++) {
        s_inc[(s_inc[25] + i) >> 3] ^= (uint64_t)m[i] << (8 * ((s_inc[25] + i) & 0x07));
    }
    s_inc[25] += mlen;''','''    while (mlen--) {
        const uint64_t at = s_inc[25]++;
        s_inc[at / 8] ^= (uint64_t)(*m++) << (8 * (at % 8));
    }'''),('''    for (i = 0; i < outlen && i < s_inc[25]; i++) {
        /* There are s_inc[25] bytes left, so r - s_inc[25] is the first
           available byte. We consume from there, i.e., up to r. */
        h[i] = (uint8_t)(s_inc[(r - s_inc[25] + i) >> 3] >> (8 * ((r - s_inc[25] + i) & 0x07)));
    }
    h += i;
    outlen -= i;
    s_inc[25] -= i;''','''    while (outlen && s_inc[25]) {
        const uint64_t at = r - s_inc[25]--;
        *h++ = (uint8_t)(s_inc[at / 8] >> (8 * (at % 8)));
        outlen--;
    }'''))
    rsub('common/fips202.c',r'static uint64_t load64\(const uint8_t \*x\) \{.*?\n\}','static uint64_t load64(const uint8_t *x) {\n    uint64_t r;\n    memcpy(&r, x, 8);\n    return r;\n}')
    rsub('common/fips202.c',r'static void store64\(uint8_t \*x, uint64_t u\) \{.*?\n\}','static void store64(uint8_t *x, uint64_t u) {\n    memcpy(x, &u, 8);\n}')
def r_mutex():
    sub('random/randombytes.c',('#if defined(BSD)\nstatic int','#include <pthread.h>\nstatic pthread_mutex_t rb_lock = PTHREAD_MUTEX_INITIALIZER;\n#if defined(BSD)\nstatic int'),
     ('''	/* Use getrandom system call */
	return randombytes_linux_randombytes_getrandom(buf, n);''','''	/* Use getrandom system call */
	pthread_mutex_lock(&rb_lock);
	int r = randombytes_linux_randombytes_getrandom(buf, n);
	pthread_mutex_unlock(&rb_lock);
	return r;'''))
def r_tls():
    sub(H,('	unsigned char sig3[49856] = { 0 }; //CRYPTO_SPHINCS_SIGNATURE_BYTES\n	unsigned char sk1','	static _Thread_local unsigned char sig3[49856]; //CRYPTO_SPHINCS_SIGNATURE_BYTES\n	memset(sig3, 0, sizeof sig3);\n	unsigned char sk1'))
def r_wipe():
    sub(H,('''	return crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk, sk, seed);
}''','''	int r = crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk, sk, seed);
	volatile unsigned char* p = seed;
	for (size_t i = 0; i < sizeof seed; i++) p[i] = 0;
	return r;
}'''))
    sub('wasm/hybrid-pqc.c',('	memset(ptr, 0, size);\n','	volatile uint8_t* p = (volatile uint8_t*)ptr;\n	while (size-- > 0) *p++ = 0;\n'))
def r_nacl():
    sub('wasm/hybrid-pqc.c',('	memset(ptr, 0, size);\n','	explicit_bzero(ptr, size);\n'))
    s=rd('tweetnacl/tweetnacl.c')
    i=s.index('typedef'); wr('tweetnacl/tweetnacl.c',s)
def r_once():
    # twiddle table copied lazily under pthread_once
    rsub('dilithium2/ntt.c',r'static const int32_t zetas\[N\]','static const int32_t zetas_init[N]')
    sub('dilithium2/ntt.c',('void PQCLEAN_DILITHIUM2_CLEAN_ntt(','#include <pthread.h>\n#include <string.h>\nstatic int32_t zetas[N];\nstatic pthread_once_t zonce = PTHREAD_ONCE_INIT;\nstatic void zfill(void) { memcpy(zetas, zetas_init, sizeof zetas); }\nvoid PQCLEAN_DILITHIUM2_CLEAN_ntt('))
    rsub('dilithium2/ntt.c',r'(void PQCLEAN_DILITHIUM2_CLEAN_(?:ntt|invntt_tomont)\([^)]*\) \{\n)',r'\1    pthread_once(&zonce, zfill);\n')
def r_stack_expander():
    sub('common/shake_prng.c',('''    seedexpander_state seedState;
    seedexpander_init(&seedState, seed, seedlen);
    seedexpander(&seedState, output, outlen);
    seedexpander_release(&seedState);
''','''    seedexpander_state* st = malloc(sizeof *st);
    if (st == NULL) return -4;
    seedexpander_init(st, seed, seedlen);
    seedexpander(st, output, outlen);
    seedexpander_release(st);
    free(st);
'''),('#include "domains.h"','#include <stdlib.h>\n#include "domains.h"'))
def r_newfile():
    wr('common/bytes.h','#ifndef BYTES_H\n#define BYTES_H\n#include <stddef.h>\nvoid bytes_copy(unsigned char *d, const unsigned char *s, size_t n);\nint bytes_differ(const unsigned char *a, const unsigned char *b, size_t n);\n#endif\n')
    wr('common/bytes.c','#include "bytes.h"\nvoid bytes_copy(unsigned char *d, const unsigned char *s, size_t n) {\n    while (n--) *d++ = *s++;\n}\nint bytes_differ(const unsigned char *a, const unsigned char *b, size_t n) {\n    unsigned char x = 0;\n    while (n--) x |= *a++ ^ *b++;\n    return x != 0;\n}\n')
    memcpy_loops(H); s=rd(H).replace('memcpy(','bytes_copy(').replace('#include "../common/fips202.h"','#include "../common/fips202.h"\n#include "../common/bytes.h"')
    s=re.sub(r'for \(int i = 0; ?i < \(int\)msgFromSignatureLen1; ?i\+\+\) \{\n\t\tif \(msgFromSignature1\[i\] != m\[i\]\) \{\n\t\t\treturn -4;\n\t\t\}\n\t\}','if (bytes_differ(msgFromSignature1, m, (size_t)msgFromSignatureLen1)) {\n\t\treturn -4;\n\t}',s); wr(H,s)
def r_dil():
    sub('dilithium2/sign.c',('''    for (i = 0; i < CTILDEBYTES; ++i) {
        if (c[i] != c2[i]) {
            return -1;
        }
    }
    return 0;''','''    uint8_t diff = 0;
    for (i = 0; i < CTILDEBYTES; ++i) {
        diff |= c[i] ^ c2[i];
    }
    return diff ? -1 : 0;'''),('''    PQCLEAN_DILITHIUM2_CLEAN_unpack_pk(rho, &t1, pk);
    if (PQCLEAN_DILITHIUM2_CLEAN_unpack_sig(c, &z, &h, sig)) {
        return -1;
    }''','''    if (PQCLEAN_DILITHIUM2_CLEAN_unpack_sig(c, &z, &h, sig) != 0) {
        return -1;
    }
    PQCLEAN_DILITHIUM2_CLEAN_unpack_pk(rho, &t1, pk);'''))
    # signing loop with for(;;)
    s=rd('dilithium2/sign.c'); s=s.replace('rej:\n    /* Sample','    for (;;) {\n    /* Sample').replace('goto rej;','continue;').replace('''    /* Write signature */
    PQCLEAN_DILITHIUM2_CLEAN_pack_sig(sig, sig, &z, &h);''','''    break;
    }
    /* Write signature */
    PQCLEAN_DILITHIUM2_CLEAN_pack_sig(sig, sig, &z, &h);'''); wr('dilithium2/sign.c',s)
def r_comments():
    for d,_,fs in os.walk(D):
        if '.git' in d or 'tests' in d: continue
        for f in fs:
            if f.endswith('.c') and not f.endswith('_test.c'):
                p=os.path.join(d,f); open(p,'a').write('\n/* trailing remark 4242 0xDEADBEEF "magic" */\n')
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'refactors2.py')).read())
R={k[2:]:v for k,v in list(globals().items()) if k.startswith('r_')}
if __name__=='__main__':
    if sys.argv[1]=='list': print(*R)
    else:
        D=sys.argv[2]
        for n in sys.argv[1].split('+'): R[n]()
