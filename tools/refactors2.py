# second set of behaviour-preserving rewrites; executed in the namespace of refactors.py
def r_js():
    rsub('random/randombytes.c',r"\t\tif \(typeof window !== 'undefined'.*?\t\}, buf, n\);",
"""		var fill;
		if (typeof window !== 'undefined' && window.crypto && window.crypto.getRandomValues) {
			fill = function(view) { window.crypto.getRandomValues(view); };
		} else {
			var mod;
			try { mod = require('crypto'); } catch (e) { return -2; }
			fill = function(view) { view.set(mod.randomBytes(view.length)); };
		}
		try {
			var done = 0;
			while (done < $1) {
				var part = $1 - done;
				if (part > 32768) { part = 32768; }
				var view = new Uint8Array(part);
				fill(view);
				HEAPU8.set(view, $0 + done);
				done += part;
			}
		} catch (e) {
			return -1;
		}
		return 0;
	}, buf, n);""")
    rsub('random/randombytes.c',r"\tswitch \(ret\) \{\n\tcase 0:.*?\treturn -3;\n\tassert\(false\); // Unreachable\n","\tif (ret == 0) {\n\t\treturn 0;\n\t}\n\terrno = ret == -2 ? ENOSYS : EINVAL;\n\treturn -1;\n")
def r_poll():
    # finite poll timeout, readiness test as one expression
    sub('random/randombytes.c',('		retcode = poll(&pfd, 1, -1);\n		if (retcode == -1 && (errno == EINTR || errno == EAGAIN)) {','		retcode = poll(&pfd, 1, 1000);\n		if (retcode == 0 || (retcode == -1 && (errno == EINTR || errno == EAGAIN))) {'),
     ('''			if (strategy == IOCTL) {
				retcode = randombytes_linux_read_entropy_ioctl(device, &entropy);
			} else if (strategy == PROC) {
				retcode = randombytes_linux_read_entropy_proc(proc_file, &entropy);
			} else {
				return -1; // Unreachable
			}
''','''			retcode = strategy == IOCTL
				? randombytes_linux_read_entropy_ioctl(device, &entropy)
				: randombytes_linux_read_entropy_proc(proc_file, &entropy);
'''))
def r_wait():
    # interrupted ioctl and fopen retried; the file consulted before the first poll
    sub('random/randombytes.c',('	return ioctl(device, RNDGETENTCNT, entropy);','	int r;\n	do {\n		r = ioctl(device, RNDGETENTCNT, entropy);\n	} while (r == -1 && errno == EINTR);\n	return r;'),
     ('		proc_file = fopen("/proc/sys/kernel/random/entropy_avail", "r");\n','		do {\n			proc_file = fopen("/proc/sys/kernel/random/entropy_avail", "re");\n		} while (proc_file == NULL && errno == EINTR);\n'),
     ('	if (entropy >= bits) {\n		return 0;\n	}\n\n	do {','	if (strategy == PROC && randombytes_linux_read_entropy_proc(proc_file, &entropy) != 0) {\n		fclose(proc_file);\n		return -1;\n	}\n	if (entropy >= bits) {\n		if (strategy == PROC) fclose(proc_file);\n		return 0;\n	}\n\n	do {'))
def r_alloc():
    s=rd('common/fips202.c'); s,n=re.subn(r'    (state|dest)->ctx = malloc\((\w+)\);\n    if \(\1->ctx == NULL\) \{\n        exit\(111\);\n    \}\n',r'    \1->ctx = ctx_new(\2);\n',s); assert n>10
    s=s.replace('#define NROUNDS 24','static uint64_t *ctx_new(size_t bytes) {\n    uint64_t *p = calloc(1, bytes);\n    if (p == NULL) {\n        exit(111);\n    }\n    return p;\n}\n\n#define NROUNDS 24',1)
    s=re.sub(r'    free\(state->ctx\);','    memset(state->ctx, 0, 25 * sizeof(uint64_t));\n    free(state->ctx);\n    state->ctx = NULL;',s); wr('common/fips202.c',s)
def r_thash():
    rsub('sphincs/thash_shake_simple.c',r'    PQCLEAN_VLA.*\n\}','    shake256incctx st;\n\n    shake256_inc_init(&st);\n    shake256_inc_absorb(&st, ctx->pub_seed, SPX_N);\n    shake256_inc_absorb(&st, (const uint8_t *)addr, SPX_ADDR_BYTES);\n    shake256_inc_absorb(&st, in, (size_t)inblocks * SPX_N);\n    shake256_inc_finalize(&st);\n    shake256_inc_squeeze(out, SPX_N, &st);\n    shake256_inc_ctx_release(&st);\n}')
    rsub('sphincs/hash_shake.c',r'(void prf_addr\(.*?\) \{\n).*?\n\}',r'\1    uint8_t buf[3 * SPX_N];\n    uint8_t *p = buf;\n\n    memcpy(p, ctx->pub_seed, SPX_N);\n    p += SPX_N;\n    memcpy(p, addr, SPX_ADDR_BYTES);\n    p += SPX_ADDR_BYTES;\n    memcpy(p, ctx->sk_seed, SPX_N);\n    p += SPX_N;\n    shake256(out, SPX_N, buf, (size_t)(p - buf));\n}')
    sub('sphincs/sign.c',('    if (memcmp(root, pub_root, SPX_N) != 0) {\n        return -1;\n    }\n\n    return 0;','    uint8_t diff = 0;\n    for (i = 0; i < SPX_N; i++) {\n        diff |= (uint8_t)(root[i] ^ pub_root[i]);\n    }\n    return diff ? -1 : 0;'))
def r_sphheap():
    # verification work area on the heap, failure reported; entropy drawn first
    s=rd('sphincs/sign.c'); s=s.replace('    uint8_t wots_pk[SPX_WOTS_BYTES];\n','    uint8_t *wots_pk = malloc(SPX_WOTS_BYTES);\n',1).replace('    if (siglen != SPX_BYTES) {\n        return -1;','    if (wots_pk == NULL) {\n        return -1;\n    }\n    if (siglen != SPX_BYTES) {\n        free(wots_pk);\n        return -1;',1).replace('    // cleanup\n    free_hash_function(&ctx);\n\n    /* Check','    // cleanup\n    free_hash_function(&ctx);\n    free(wots_pk);\n\n    /* Check',1).replace('#include <stdint.h>','#include <stdint.h>\n#include <stdlib.h>',1)
    a='''    int r = randombytes(optrand, SPX_N);
    if (r != 0) {
        return -1;
    }
'''
    assert a in s; s=s.replace(a,'',1).replace('    memcpy(ctx.sk_seed, sk, SPX_N);\n    memcpy(ctx.pub_seed, pk, SPX_N);\n','    if (randombytes(optrand, sizeof optrand) != 0) {\n        return -1;\n    }\n    memcpy(ctx.sk_seed, sk, SPX_N);\n    memcpy(ctx.pub_seed, pk, SPX_N);\n',1)
    s=s.replace('    crypto_sign_seed_keypair(pk, sk, seed);\n\n    return 0;','    return crypto_sign_seed_keypair(pk, sk, seed);',1); wr('sphincs/sign.c',s)
def r_expander():
    rsub('common/shake_prng.c',r'void seedexpander\(seedexpander_state \*state, uint8_t \*output, size_t outlen\) \{.*?\n\}','''void seedexpander(seedexpander_state *state, uint8_t *output, size_t outlen) {
    uint8_t word[sizeof(uint64_t)];
    while (outlen > 0) {
        const size_t take = outlen < sizeof word ? outlen : sizeof word;
        shake256_inc_squeeze(word, sizeof word, state);
        memcpy(output, word, take);
        output += take;
        outlen -= take;
    }
    memset(word, 0, sizeof word);
}'''); sub('common/shake_prng.c',('#include "domains.h"','#include <string.h>\n#include "domains.h"'))
def r_atomic():
    # keys are published only when everything succeeded; secrets cleared
    s=rd(H)
    s=s.replace('	int r1 = crypto_sign_ed25519_keypair_seed(pk1, sk1, seed1);\n	if (r1 != 0) {\n		return -2;\n	}\n','	int r1 = crypto_sign_ed25519_keypair_seed(pk1, sk1, seed1);\n	int r2 = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed(pk2, sk2, seed2);\n	int r3 = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair(pk3, sk3, seed3);\n	if (r1 != 0 || r2 != 0 || r3 != 0) {\n		return r1 != 0 ? -2 : r2 != 0 ? -3 : -4;\n	}\n',1)
    s=s.replace('	int r2 = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed(pk2, sk2, seed2);\n\n	if (r2 != 0) {\n		return -3;\n	}\n','',1).replace('	int r3 = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair(pk3, sk3, seed3);\n\n	if (r3 != 0) {\n		return -4;\n	}\n','',1)
    s=s.replace('	*smlen = LEN_BYTES','	memset(sk1, 0, sizeof sk1);\n	memset(sk2, 0, sizeof sk2);\n	*smlen = LEN_BYTES'); wr(H,s)
def r_inplace():
    # no copies of the keys: components work on the caller's buffers directly
    s=rd(H)
    for n,off in (('sk1','sk'),('sk2','sk + CRYPTO_ED25519_SECRETKEY_BYTES'),('sk3','sk + CRYPTO_ED25519_SECRETKEY_BYTES + CRYPTO_DILITHIUM_SECRETKEY_BYTES + CRYPTO_DILITHIUM_PUBLICKEY_BYTES'),('pk1','pk'),('pk2','pk + CRYPTO_ED25519_PUBLICKEY_BYTES'),('pk3','pk + CRYPTO_ED25519_PUBLICKEY_BYTES + CRYPTO_DILITHIUM_PUBLICKEY_BYTES')):
        i=s.index('int crypto_sign_dilithium_ed25519_sphincs(unsigned char* sm'); head,t=s[:i],s[i:]
        t=re.sub(r'\tunsigned char %s\[\d+\] = \{ 0 \};[^\n]*\n'%n,'',t)
        t=re.sub(r'\tfor \(int i = 0; ?i < \w+; ?i\+\+\) \{\n\t\t%s\[i\] = [^\n]*\n\t\}\n'%n,'',t)
        t=re.sub(r'\b%s\);'%n,off+');',t); s=head+t
    wr(H,s)
def r_tablefns():
    s=rd(H); s=s.replace('int crypto_verify_compact_dilithium_ed25519_sphincs(','typedef int (*open_fn)(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*);\nstatic const open_fn openers[2] = { crypto_sign_compact_dilithium_ed25519_sphincs_open, crypto_sign_dilithium_ed25519_sphincs_open };\n\nint crypto_verify_compact_dilithium_ed25519_sphincs(',1)
    s=s.replace('int r = crypto_sign_compact_dilithium_ed25519_sphincs_open(','int r = openers[0]('); wr(H,s)
def r_dilheap():
    # the matrix of lattice signing on the heap, reported when it cannot be had
    s=rd('dilithium2/sign.c')
    s='#include <stdlib.h>\n'+s
    i=s.index('int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature('); h,t=s[:i],s[i:]
    j=t.index('int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign('); f,rest=t[:j],t[j:]
    f=f.replace('    polyvecl mat[K], s1, y, z;','    polyvecl *mat = malloc(K * sizeof *mat);\n    polyvecl s1, y, z;',1).replace('    rho = seedbuf;','    if (mat == NULL) {\n        return -1;\n    }\n    rho = seedbuf;',1)
    k=f.rindex('    return 0;'); f=f[:k]+'    free(mat);\n'+f[k:]
    rest,n=re.subn(r'    PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature\(sm, smlen, ([^;]*)\);\n',r'    if (PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(sm, smlen, \1) != 0) {\n        return -1;\n    }\n',rest,1); assert n
    wr('dilithium2/sign.c',h+f+rest)
def r_wipes():
    # explicit wiping of every secret temporary in the components
    sub('tweetnacl/tweetnacl.c',('    return crypto_sign_keypair_seed(pk, sk, seed);','    r1 = crypto_sign_keypair_seed(pk, sk, seed);\n    for (int q = 0; q < 32; q++) ((volatile u8 *)seed)[q] = 0;\n    return r1;'))
    sub('dilithium2/sign.c',('    PQCLEAN_DILITHIUM2_CLEAN_pack_sig(sig, sig, &z, &h);\n','    PQCLEAN_DILITHIUM2_CLEAN_pack_sig(sig, sig, &z, &h);\n    for (n = 0; n < sizeof seedbuf; n++) {\n        ((volatile uint8_t *)seedbuf)[n] = 0;\n    }\n'))
    sub('sphincs/sign.c',('    *siglen = SPX_BYTES;\n','    *siglen = SPX_BYTES;\n    memset(&ctx, 0, sizeof ctx);\n    memset(optrand, 0, sizeof optrand);\n'))
def r_verifyfirst():
    # the cheap equality test of the claimed message before the expensive verification
    s=rd(H); a='	int r = crypto_sign_compact_dilithium_ed25519_sphincs_open('
    assert a in s; s=s.replace(a,'	if (smlen != (unsigned long long)(LEN_BYTES + CRYPTO_ED25519_SIGNATURE_BYTES + CRYPTO_DILITHIUM_SIGNATURE_BYTES + NONCE_BYTES) + mlen) {\n		return -3;\n	}\n	if (memcmp(sm + smlen - mlen, m, (size_t)mlen) != 0) {\n		return -4;\n	}\n'+a,1); wr(H,s)
def r_treehash():
    # recursion replaced by an explicit two-pass: leaves first, then the levels
    rsub('sphincs/utilsx1.c',r'    /\* This is where we keep the intermediate nodes \*/.*\n\}\n','''    /* All nodes of the current level, overwritten level by level */
    PQCLEAN_VLA(uint8_t, level, (SPX_N << tree_height));
    uint32_t count = (uint32_t)1 << tree_height;
    uint32_t i, h;

    for (i = 0; i < count; i++) {
        gen_leaf(level + i * SPX_N, ctx, i + idx_offset, info);
    }
    for (h = 0; h < tree_height; h++) {
        if ((leaf_idx >> h) < count && ((leaf_idx >> h) ^ 1) < count) {
            memcpy(auth_path + h * SPX_N, level + ((leaf_idx >> h) ^ 1) * SPX_N, SPX_N);
        }
        count >>= 1;
        set_tree_height(tree_addr, h + 1);
        for (i = 0; i < count; i++) {
            set_tree_index(tree_addr, i + (idx_offset >> (h + 1)));
            thash(level + i * SPX_N, level + 2 * i * SPX_N, 2, ctx, tree_addr);
        }
    }
    memcpy(root, level, SPX_N);
}
''')
