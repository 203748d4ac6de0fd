From 7b015dd48e89b1aee3e7edf1764eca1b0bf8fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:46 +0000
Subject: [PATCH 1/8] fix: close the entropy devices when a request for random
 bytes fails

The /dev/urandom descriptor, and the entropy_avail stream, stayed open on the
error paths of the device-file source, one more for every failed request.
---
 random/randombytes.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 504d663..3e1e528 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -227,6 +227,9 @@ static int randombytes_linux_wait_for_entropy(int device)
 	} while (fd == -1 && errno == EINTR); /* EAGAIN will not occur */
 	if (fd == -1) {
 		/* Unrecoverable IO error */
+		if (strategy == PROC) {
+			fclose(proc_file);
+		}
 		return -1;
 	}
 
@@ -285,7 +288,10 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n)
 	} while (fd == -1 && errno == EINTR);
 	if (fd == -1) return -1;
 # if defined(__linux__)
-	if (randombytes_linux_wait_for_entropy(fd) == -1) return -1;
+	if (randombytes_linux_wait_for_entropy(fd) == -1) {
+		close(fd);
+		return -1;
+	}
 # endif
 
 	while (n > 0) {
@@ -294,7 +300,11 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n)
 		if (tmp == -1 && (errno == EAGAIN || errno == EINTR)) {
 			continue;
 		}
-		if (tmp == -1) return -1; /* Unrecoverable IO error */
+		if (tmp == -1) {
+			/* Unrecoverable IO error */
+			close(fd);
+			return -1;
+		}
 		offset += tmp;
 		n -= tmp;
 	}
-- 
2.43.0


From c55f46567f532ef7391d9353c0394a75de22adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:46 +0000
Subject: [PATCH 2/8] fix: do not close entropy devices twice when the close is
 interrupted

On Linux close() and fclose() release their argument even when they report
EINTR. Retrying failed the whole request although entropy was available, used
the freed stream, and could close a descriptor of another thread.
---
 random/randombytes.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 3e1e528..9825744 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -262,18 +262,13 @@ static int randombytes_linux_wait_for_entropy(int device)
 			break;
 		}
 	}
-	do {
-		retcode = close(fd);
-	} while (retcode == -1 && errno == EINTR);
+	// An interrupted close has released the descriptor already: closing it
+	// again would fail, or close a descriptor another thread just opened.
+	close(fd);
 	if (strategy == PROC) {
-		do {
-			retcode = fclose(proc_file);
-		} while (retcode == -1 && errno == EINTR);
-	}
-	if (retcode_error != 0) {
-		return retcode_error;
+		fclose(proc_file);
 	}
-	return retcode;
+	return retcode_error;
 }
 # endif /* defined(__linux__) */
 
-- 
2.43.0


From 8b16ce3155d42d3f63f7c0e83503f95a431607ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:46 +0000
Subject: [PATCH 3/8] fix: random byte requests no longer spin on unreadable
 entropy devices

End of file on the device was retried for ever, and so was unparsable
entropy_avail contents after an earlier call had left errno at EINTR.
---
 random/randombytes.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 9825744..a9af97c 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -174,6 +174,7 @@ static int randombytes_linux_read_entropy_proc(FILE *stream, int *entropy)
 	int retcode;
 	do {
 		rewind(stream);
+		errno = 0; // end of file and unparsable data leave errno alone
 		retcode = fscanf(stream, "%d", entropy);
 	} while (retcode != 1 && errno == EINTR);
 	if (retcode != 1) {
@@ -295,8 +296,8 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n)
 		if (tmp == -1 && (errno == EAGAIN || errno == EINTR)) {
 			continue;
 		}
-		if (tmp == -1) {
-			/* Unrecoverable IO error */
+		if (tmp <= 0) {
+			/* Unrecoverable IO error, or end of file */
 			close(fd);
 			return -1;
 		}
-- 
2.43.0


From da0e63db6ece6db7a4c9e9be03a5fe14d9efcece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:46 +0000
Subject: [PATCH 4/8] fix: release the provider handle when CryptGenRandom
 fails

---
 random/randombytes.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index a9af97c..a6a67cf 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -110,7 +110,10 @@ static int randombytes_win32_randombytes(void* buf, size_t n)
 	while (n > 0) {
 		to_read = (DWORD)(n < MAX_DWORD ? n : MAX_DWORD);
 		tmp = CryptGenRandom(ctx, to_read, (BYTE*)buf);
-		if (tmp == FALSE) return -1;
+		if (tmp == FALSE) {
+			CryptReleaseContext(ctx, 0);
+			return -1;
+		}
 		buf = ((char*)buf) + to_read;
 		n -= to_read;
 	}
-- 
2.43.0


From a878d4ca9716d9cb9fecfcee5da0bd5cf0697b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:20 +0000
Subject: [PATCH 5/8] fix: fill random byte requests of 4 GiB and more
 completely on Windows

The size_t length was truncated to the 32-bit length of BCryptGenRandom, so
that success was reported with most of the buffer zero.
---
 random/randombytes.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index a6a67cf..6a3c7e0 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -83,14 +83,21 @@
 static int randombytes_win32_randombytes(void* buf, size_t n)
 {
 	NTSTATUS    Status;
+	size_t offset = 0;
+	ULONG chunk;
 
 	memset(buf, 0, n);
 
-	Status = BCryptGenRandom(
-		NULL,                       // Alg Handle pointer; NUll is passed as BCRYPT_USE_SYSTEM_PREFERRED_RNG flag is used
-		buf,                     // Address of the buffer that recieves the random number(s)
-		n,                 // Size of the buffer in bytes
-		BCRYPT_USE_SYSTEM_PREFERRED_RNG); // Flags                  
+	do {
+		// The length parameter has 32 bits
+		chunk = (ULONG)(n - offset < 0xFFFFFFFF ? n - offset : 0xFFFFFFFF);
+		Status = BCryptGenRandom(
+			NULL,                       // Alg Handle pointer; NUll is passed as BCRYPT_USE_SYSTEM_PREFERRED_RNG flag is used
+			(PUCHAR)buf + offset,    // Address of the buffer that recieves the random number(s)
+			chunk,             // Size of the buffer in bytes
+			BCRYPT_USE_SYSTEM_PREFERRED_RNG); // Flags                  
+		offset += chunk;
+	} while (NT_SUCCESS(Status) && offset < n);
 
 	if (NT_SUCCESS(Status))
 	{
-- 
2.43.0


From 7f8ae47dd965a6724a859468f57901ad93fd5318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:20 +0000
Subject: [PATCH 6/8] fix: report failure of SPHINCS+ signing when entropy is
 not available

crypto_sign ignored the failure of crypto_sign_signature, and returned 0 with
an uninitialised length and no signature.
---
 sphincs/sign.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sphincs/sign.c b/sphincs/sign.c
index e01b7fd..4fcea22 100644
--- a/sphincs/sign.c
+++ b/sphincs/sign.c
@@ -254,7 +254,9 @@ int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(uint8_t *sm, size_t *smlen,
                 const uint8_t *sk) {
     size_t siglen;
 
-    crypto_sign_signature(sm, &siglen, m, mlen, sk);
+    if (crypto_sign_signature(sm, &siglen, m, mlen, sk) != 0) {
+        return -1;
+    }
 
     memmove(sm + SPX_BYTES, m, mlen);
     *smlen = siglen + mlen;
-- 
2.43.0


From b5122e39c5fe67f70103e2b887d2065eb52af0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:20 +0000
Subject: [PATCH 7/8] fix: reject ed25519 signatures whose scalar is not
 reduced

Anyone could turn a valid packet into a second, different valid packet by
adding the group order to S.
---
 tweetnacl/tweetnacl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tweetnacl/tweetnacl.c b/tweetnacl/tweetnacl.c
index 92da8a8..073927f 100644
--- a/tweetnacl/tweetnacl.c
+++ b/tweetnacl/tweetnacl.c
@@ -802,6 +802,10 @@ int crypto_sign_open(u8 *m,u64 *mlen,const u8 *sm,u64 n,const u8 *pk)
   *mlen = -1;
   if (n < 64) return -1;
 
+  /* S must be less than the group order, or S + L would be accepted too (RFC 8032, 5.1.7) */
+  for (i = 31;i > 0 && sm[32+i] == L[i];--i);
+  if (sm[32+i] >= L[i]) return -1;
+
   if (unpackneg(q,pk)) return -1;
 
   FOR(i,n) m[i] = sm[i];
-- 
2.43.0


From fa2496a0071298323ca8cb9e036a0a30db5506d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:27 +0000
Subject: [PATCH 8/8] fix: random bytes in the browser: requests over 65536
 bytes throw, and exceptions escape instead of an error code

---
 random/randombytes.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 6a3c7e0..b0a2f7d 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -336,10 +336,17 @@ static int randombytes_js_randombytes_nodejs(void *buf, size_t n) {
 	const int ret = EM_ASM_INT({
 
 		if (typeof window !== 'undefined' && window.crypto && window.crypto.getRandomValues) {
-			var randBuffer = new Uint8Array($1);
-			window.crypto.getRandomValues(randBuffer);
-			writeArrayToMemory(randBuffer, $0);
-			return 0;
+			try {
+				// getRandomValues() throws for more than 65536 bytes per call.
+				for (var offset = 0; offset < $1; offset += 65536) {
+					var randBuffer = new Uint8Array(Math.min($1 - offset, 65536));
+					window.crypto.getRandomValues(randBuffer);
+					writeArrayToMemory(randBuffer, $0 + offset);
+				}
+				return 0;
+			} catch (error) {
+				return -1;
+			}
 		}
 
 		var cryptoMod;
-- 
2.43.0

