From 168bbb93063d104a10fb7480d1d5d67d23203cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 01/24] fix: GPLU stopped too early when U already holds more
 pivots than the Schur complement has rows

---
 src/spasm_echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 8c0778c..80c3387 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -56,7 +56,7 @@ static void echelonize_GPLU(const struct spasm_csr *A, const int *p, int n, cons
 	(void) opts;
 	assert(p != NULL);
 	int m = A->m;
-	int r = spasm_min(A->n, m);  /* upper-bound on rank */
+	int r = spasm_min(n + fact->U->n, m);  /* upper-bound on rank (pivots already in U + rows left) */
 	int verbose_step = spasm_max(1, n / 1000);
 	fprintf(stderr, "[echelonize/GPLU] processing matrix of dimension %d x %d\n", n, m);
 	
-- 
2.43.0


From 199f75d98660f4056857aa5c83c5649d11e897a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 02/24] fix: wrong rank upper bound made the dense
 echelonization skip its low-rank continuation

---
 src/spasm_echelonize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 80c3387..1f5bb5d 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -407,7 +407,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	fprintf(stderr, "[echelonize/dense] processing dense schur complement of dimension %d x %d; block size=%d, type %s\n", 
 		n, Sm, opts->dense_block_size, spasm_datatype_name(datatype));
 	bool lowrank_mode = 0;
-	int rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+	int rank_ub = spasm_min(n, m - U->n);
 
 	for (;;) {
 		/* compute a chunk of the schur complement, then echelonize with FFPACK */
@@ -436,7 +436,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 		processed += Sn;
 		p += Sn;
 		Sm = m - U->n;
-		rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+		rank_ub = spasm_min(n - processed, m - U->n);
 		fprintf(stderr, "[echelonize/dense] found %d new pivots\n", rr);
 
 		/* 
-- 
2.43.0


From bd8f0bbbce41036e2818ea54b7cad97850a9aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 03/24] fix: low-rank echelonization must keep sampling all the
 rows

---
 src/spasm_echelonize.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 1f5bb5d..fd38e15 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -366,7 +366,6 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 			fprintf(stderr, "[echelonize/dense/low-rank] Not enough pivots, increasing weight to %d\n", w);
 		}
 		update_U_after_rref(rr, Sm, S, datatype, Sp, q, fact);
-		n -= rr;
 		Sm -= rr;
 		rank_ub -= rr;
 		round += 1;
-- 
2.43.0


From 17027e7672426d47f29aefff640a73c9fee47fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 04/24] fix: division by zero (then undefined float to int
 conversion) when no column is left for the low-rank mode

---
 src/spasm_echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index fd38e15..e0b0784 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -342,7 +342,7 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 	 * - this is approximately w >= log 0.01 * n / rank_ub
 	 */
 	int rank_ub = spasm_min(n, Sm);
-	int w = (opts->low_rank_start_weight < 0) ? ceil(-log(0.01) * n / rank_ub) : opts->low_rank_start_weight;
+	int w = (opts->low_rank_start_weight < 0) ? ceil(-log(0.01) * n / spasm_max(1, rank_ub)) : opts->low_rank_start_weight;
 
 	for (;;) {
 		/* compute a chunk of the schur complement, then echelonize with FFPACK */
-- 
2.43.0


From c6f9a178dfd8fcd21106a7f2b2a3af76e4721824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 05/24] fix: heap overflow in the dense LU, pivotal[] is
 indexed by rows of the original matrix

---
 src/spasm_echelonize.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index e0b0784..15f5cb4 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -395,8 +395,9 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	int *q = spasm_malloc(Sm * sizeof(*q));
 	size_t *Sqinv = spasm_malloc(Sm * sizeof(*Sqinv));                   /* for FFPACK */
 	size_t *Sp = spasm_malloc(opts->dense_block_size * sizeof(*Sp));     /* for FFPACK / LU only */
-	bool *pivotal = spasm_malloc(A->n * sizeof(*pivotal));
-	for (int i = 0; i < A->n; i++)
+	int orig_n = (fact->Ltmp != NULL) ? fact->Ltmp->n : A->n;            /* #rows of the original matrix */
+	bool *pivotal = spasm_malloc(orig_n * sizeof(*pivotal));
+	for (int i = 0; i < orig_n; i++)
 		pivotal[i] = 0;
 
 	int processed = 0;
-- 
2.43.0


From edd10ef47cbee060a573ef9e67c3919521cae8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 06/24] fix: density of a Schur complement without columns was
 0/0

---
 src/spasm_schur.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index 80b3423..34b8b35 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -14,7 +14,7 @@ double spasm_schur_estimate_density(const struct spasm_csr *A, const int *p, int
 		return 0;
 	int m = A->m;
 	i64 nnz = 0;
-	if (n == 0)
+	if (m == U->n)
 		return 0;
 
 	#pragma omp parallel
-- 
2.43.0


From 2c9643606e461d339ebb455b1f6c734e3a63070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 07/24] fix: kernel_from_rref stored p-1, which is not reduced
 (and overflows for large p)

---
 src/spasm_kernel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 7bc4a06..71ba2a9 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -160,7 +160,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 		if (qinv[j] >= 0)
 			continue;           /* skip pivotal columns of R */
 		Kj[nnz] = j;
-		Kx[nnz] = prime - 1;
+		Kx[nnz] = -1;
 		nnz += 1;
 		for (i64 px = Rtp[j]; px < Rtp[j + 1]; px++) {
 			int i = Rtj[px];
-- 
2.43.0


From 1ba04a24b5d1a3c7de5b3c8fb423c213e1658441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 08/24] fix: 64-bit entry offsets were truncated to 32 bits
 (compress, rref, kernel, scc, submatrix)

---
 src/spasm_kernel.c    | 2 +-
 src/spasm_rref.c      | 2 +-
 src/spasm_scc.c       | 2 +-
 src/spasm_submatrix.c | 4 ++--
 src/spasm_triplet.c   | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 71ba2a9..00c105f 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -146,7 +146,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 	const i64 *Rp = R->p;
 	const int *Rj = R->j;
 	for (int i = 0; i < n; i++) {
-		int px = Rp[i];
+		i64 px = Rp[i];
 		int j = Rj[px];
 		p[i] = j;
 	}
diff --git a/src/spasm_rref.c b/src/spasm_rref.c
index 21d7b9f..5c19ae7 100644
--- a/src/spasm_rref.c
+++ b/src/spasm_rref.c
@@ -134,7 +134,7 @@ struct spasm_csr * spasm_rref(const struct spasm_lu *fact, int *Rqinv)
 
 		#pragma omp for
 		for (int i = 0; i < n; i++) {
-			int px = Rp[i];
+			i64 px = Rp[i];
 			int j = Rj[px];
 			Rqinv[j] = i;
 		}
diff --git a/src/spasm_scc.c b/src/spasm_scc.c
index 2938b09..fe60dba 100644
--- a/src/spasm_scc.c
+++ b/src/spasm_scc.c
@@ -58,7 +58,7 @@ struct spasm_dm *spasm_strongly_connected_components(const struct spasm_csr *A)
 			int px2 = spasm_row_weight(A, j);
 			int px;
 			for (px = pstack[j]; px < px2; px++) {
-				int p = Ap[j] + px;
+				i64 p = Ap[j] + px;
 				int k = Aj[p];
 				if (marks[k] >= 0) {
 					/* update */
diff --git a/src/spasm_submatrix.c b/src/spasm_submatrix.c
index 78bd92f..ea31422 100644
--- a/src/spasm_submatrix.c
+++ b/src/spasm_submatrix.c
@@ -14,7 +14,7 @@ struct spasm_csr *spasm_submatrix(const struct spasm_csr * A, int r_0, int r_1,
 
 	int Bn = spasm_max(0, r_1 - r_0);
 	int Bm = spasm_max(0, c_1 - c_0);
-	i64 Bnz = spasm_max(0, Ap[r_1] - Ap[r_0]);
+	i64 Bnz = (Bn > 0) ? Ap[r_1] - Ap[r_0] : 0;
 	struct spasm_csr *B = spasm_csr_alloc(Bn, Bm, Bnz, prime, (A->x != NULL) && with_values);
 	i64 *Bp = B->p;
 	int *Bj = B->j;
@@ -35,7 +35,7 @@ struct spasm_csr *spasm_submatrix(const struct spasm_csr * A, int r_0, int r_1,
 	}
 
 	/* finalize */
-	Bp[r_1 - r_0] = k;
+	Bp[Bn] = k;
 
 	/* shrink */
 	spasm_csr_realloc(B, -1);
diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index 9c1cb58..d4ccfec 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -121,7 +121,7 @@ struct spasm_csr *spasm_compress(const struct spasm_triplet * T)
 	spasm_ZZp *Cx = C->x;
 
 	/* compute row counts */
-	for (int it = 0; it < nz; it++) {
+	for (i64 it = 0; it < nz; it++) {
 		int i = Ti[it];
 		assert(i < n);
 		w[i] += 1;
-- 
2.43.0


From be8439431f099f0e3472fdc65946687efb6133ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 09/24] fix: loading a rank certificate lost the column indices
 and accepted truncated files

---
 src/spasm_certificate.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index c5aa5ae..adc8df2 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -243,7 +243,7 @@ void spasm_rank_certificate_save(const struct spasm_rank_certificate *proof, FIL
 bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 {
 	int r;
-	if (1 != fscanf(f, "%d", &r))
+	if (1 != fscanf(f, "%d", &r) || r < 0)
 		return 0;
 	proof->r = r;
 	proof->i = malloc(r * sizeof(*proof->i));
@@ -260,12 +260,16 @@ bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 		proof->hash[i] = strtoul(byte, NULL, 16);
 	}
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
+		if (1 != fscanf(f, "%d", &proof->i[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
+		if (1 != fscanf(f, "%d", &proof->j[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->x[k]);
+		if (1 != fscanf(f, "%d", &proof->x[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->y[k]);
+		if (1 != fscanf(f, "%d", &proof->y[k]))
+			return 0;
 	return 1;
-}
\ No newline at end of file
+}
-- 
2.43.0


From cd93b0873ce6c40c9bc8313fcbb2e99c625e9265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 10/24] fix: a certificate claiming a negative rank was
 accepted for the zero matrix

---
 src/spasm_certificate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index adc8df2..0e84be8 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -107,6 +107,9 @@ bool spasm_certificate_rank_verify(const struct spasm_csr *A, const u8 *hash, co
 	if (spasm_get_prime(A) != proof->prime)
 		return 0;
 
+	if (r < 0)
+		return 0;
+
 	for (int k = 0; k < r; k++) {
 		if (proof->i[k] < 0 || proof->i[k] >= n)
 			return 0;
-- 
2.43.0


From 67adfa0b535346e4d0440e49a6df4ea3e8c8bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 11/24] fix: loading a rank certificate with a short hash read
 uninitialised memory

---
 src/spasm_certificate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 0e84be8..6650400 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -1,5 +1,6 @@
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
 #include <assert.h>
 #include <math.h>
 #include <err.h>
@@ -256,7 +257,7 @@ bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 	if (1 != fscanf(f, "%" SCNd64 "\n", &proof->prime))
 		return 0;
 	char hash[65];
-	if (NULL == fgets(hash, 65, f))
+	if (NULL == fgets(hash, 65, f) || strlen(hash) != 64)
 		return 0;
 	for (int i = 0; i < 32; i++) {
 		char byte[3] = {hash[2*i], hash[2*i+1], 0};
-- 
2.43.0


From d9c538efc92c01854d118fa903a2727569b3627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 12/24] fix: a MatrixMarket file without entries could not be
 loaded

---
 src/spasm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 162470d..c6ffa6c 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -111,7 +111,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 	struct spasm_triplet *T = spasm_triplet_alloc(i, j, nnz, prime, prime != -1);
 
 	i64 x;
-	bool end = 0;
+	bool end = mm && (nnz == 0);        /* no entry to read */
 	i64 entries = 0;
 	for (;;) { 
 		line += 1;
-- 
2.43.0


From d95fdbe870ecdfe48dd9455ab2c869bad8c28c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 13/24] fix: memory leak in spasm_strongly_connected_components

---
 src/spasm_scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spasm_scc.c b/src/spasm_scc.c
index fe60dba..fa7bac7 100644
--- a/src/spasm_scc.c
+++ b/src/spasm_scc.c
@@ -112,6 +112,7 @@ struct spasm_dm *spasm_strongly_connected_components(const struct spasm_csr *A)
 	free(stack);
 	free(pstack);
 	free(marks);
+	free(prev);
 	free(lowlink);
 	return P;
 }
-- 
2.43.0


From d5a88056df449c7836f322811b57d9ada472feae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 14/24] fix: the echelonize tool could not be given a modulus
 larger than 2^31

---
 tools/echelonize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/echelonize.c b/tools/echelonize.c
index 6514a63..44e53c8 100644
--- a/tools/echelonize.c
+++ b/tools/echelonize.c
@@ -23,11 +23,11 @@ void parse_command_line_options(int argc, char **argv)
 		{"sparsity-threshold", required_argument, NULL, 's'},
 		{NULL, 0, NULL, 0}
 	};
-	char ch;
+	int ch;
 	while ((ch = getopt_long(argc, argv, "", longopts, NULL)) != -1) {
 		switch (ch) {
 		case 'p':
-			prime = atoi(optarg);
+			prime = atoll(optarg);
 			break;
 		case 'r':
 			rref = 1;
-- 
2.43.0


From 2ef1640cb9a5c9b896d98be84622d0c0d21c63ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 15/24] fix: check_cert reported the opposite of the truth

---
 tools/check_cert.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tools/check_cert.c b/tools/check_cert.c
index 2f6d717..b8e9c4b 100644
--- a/tools/check_cert.c
+++ b/tools/check_cert.c
@@ -70,13 +70,11 @@ int main(int argc, char **argv)
 	/* load certificate */
 	FILE *f = open_input(args.cert_file);
 	struct spasm_rank_certificate proof;
-	spasm_rank_certificate_load(f, &proof);
-
-	bool correct = spasm_certificate_rank_verify(A, hash, &proof);
+	bool correct = spasm_rank_certificate_load(f, &proof) && spasm_certificate_rank_verify(A, hash, &proof);
 	
-	if (!correct)
+	if (correct)
 		fprintf(stderr, "CORRECT certificate\n");
 	else
 		fprintf(stderr, "INCORRECT certificate\n");	
-	return correct;
+	return correct ? 0 : 1;
 }
\ No newline at end of file
-- 
2.43.0


From 08f9e83c7cc32dd02278cbf4f38df3d19a83f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:39 +0000
Subject: [PATCH 16/24] fix: check_cert rejected the certificates of wide
 matrices, which the rank program transposes

---
 tools/check_cert.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/check_cert.c b/tools/check_cert.c
index b8e9c4b..11a69c5 100644
--- a/tools/check_cert.c
+++ b/tools/check_cert.c
@@ -15,11 +15,13 @@ struct cmdline_args {
 	
 	/* options specific to the rank program */
 	char *cert_file;
-	};
+	bool allow_transpose;	   /* transpose ON by default, as in the rank program */
+};
 
 /* The options we understand. */
 struct argp_option options[] = {
 	{0,               0,   0,     0, "Rank options", 2 },
+	{"no-transpose", 't', 0,      0, "Do not transpose the input matrix", 2},
 	{"certificate",  'c', "FILE", 0, "Read the rank certificate from FILE", 2 },
 	{ 0 }
 };
@@ -29,6 +31,9 @@ error_t parse_check_opt(int key, char *arg, struct argp_state *state)
 {
 	struct cmdline_args *arguments = state->input;
 	switch (key) {
+	case 't':
+		arguments->allow_transpose = 0;
+		break;
 	case 'c':
 		arguments->cert_file = arg;
 		break;
@@ -36,6 +41,7 @@ error_t parse_check_opt(int key, char *arg, struct argp_state *state)
 		fprintf(stderr, "ERROR: invalid argument ``%s''\n", arg);
 		exit(1);
 	case ARGP_KEY_INIT:
+		arguments->allow_transpose = 1;
 		arguments->cert_file = NULL;
 		state->child_inputs[0] = &arguments->input;
 		break;
@@ -64,6 +70,8 @@ int main(int argc, char **argv)
 	/* load input matrix */
 	u8 hash[32];
 	struct spasm_triplet *T = load_input_matrix(&args.input, hash);
+	if (args.allow_transpose && (T->n < T->m))
+		spasm_triplet_transpose(T);
 	struct spasm_csr *A = spasm_compress(T);
 	spasm_triplet_free(T);
 	
-- 
2.43.0


From fd8ebf5a59e9b81db3544c43b2070fb6bbf40e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 17/24] fix: removing cancelled entries copied entries into the
 following row

---
 src/spasm_triplet.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index d4ccfec..042bb4a 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -42,8 +42,10 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 	if (Ax == NULL)
 		return;
 	i64 nz = 0;
+	i64 start = Ap[0];       /* start of row i, before compaction */
 	for (int i = 0; i < n; i++) {
-		for (i64 it = Ap[i]; it < Ap[i + 1]; it++) {
+		i64 end = Ap[i + 1];
+		for (i64 it = start; it < end; it++) {
 			int j = Aj[it];
 			spasm_ZZp x = Ax[it];
 			if (x == 0)
@@ -52,6 +54,7 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 			Ax[nz] = x;
 			nz += 1;
 		}
+		start = end;
 		Ap[i + 1] = nz;
 	}
 	spasm_csr_realloc(A, -1);
-- 
2.43.0


From f64c7fca9eadad8b058af7642cb328b448a6324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 18/24] fix: memory leak in spasm_dulmage_mendelsohn

---
 src/spasm_dm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spasm_dm.c b/src/spasm_dm.c
index 8505d98..d679677 100644
--- a/src/spasm_dm.c
+++ b/src/spasm_dm.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <stdlib.h>
 
 #include "spasm.h"
 
@@ -137,6 +138,8 @@ struct spasm_dm *spasm_dulmage_mendelsohn(const struct spasm_csr *A)
 	collect_matched(m, wj, imatch, p, q, cc, rr, 2, -1);
 	collect_matched(m, wj, imatch, p, q, cc, rr, 3, 3);
 	collect_unmatched(n, wi, p, rr, 3);
+	free(jmatch);
+	free(imatch);
 
 	/* --- fine DM decomposition ---------------------------------- */
 
@@ -148,6 +151,7 @@ struct spasm_dm *spasm_dulmage_mendelsohn(const struct spasm_csr *A)
 	struct spasm_csr *B = spasm_permute(A, p, qinv, SPASM_IGNORE_VALUES);
 	struct spasm_csr *C = spasm_submatrix(B, rr[1], rr[2], cc[2], cc[3], SPASM_IGNORE_VALUES);
 	spasm_csr_free(B);
+	free(qinv);
 
 	struct spasm_dm *SCC = spasm_strongly_connected_components(C);
 	int n_scc = SCC->nb;
-- 
2.43.0


From 8b994e6c7e2aa0a0c49abf2376e65bf451ff4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:23 +0000
Subject: [PATCH 19/24] fix: shrinking a matrix to zero entries turned it into
 a pattern, then the next insertion crashed

---
 src/spasm_util.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index 5ac2909..964bd1b 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -80,8 +80,9 @@ void *spasm_calloc(i64 count, i64 size)
 
 void *spasm_realloc(void *ptr, i64 size)
 {
-	void *x = realloc(ptr, size);
-	if (ptr != NULL && x == NULL && size != 0)
+	/* realloc(ptr, 0) may return NULL, which means "pattern only" when this is the array of values */
+	void *x = realloc(ptr, size > 0 ? size : 1);
+	if (x == NULL)
 		err(1, "realloc failed");
 	return x;
 }
-- 
2.43.0


From 92d148c4ef0f99addb4f778c34b6914b0e7e08fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 20/24] fix: the low-rank echelonization could loop forever,
 retrying the same linear combinations

---
 src/spasm_echelonize.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 15f5cb4..f0b9997 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -322,7 +322,9 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 	i64 prime = spasm_get_prime(A);
 	spasm_datatype datatype = spasm_datatype_choose(prime);
 
-	i64 size_S = (i64) opts->dense_block_size * (i64) Sm * spasm_datatype_size(datatype);
+	/* with full linear combinations, use (at least) those of the completion test: this ensures progress when it fails */
+	int full_Sn = ceil(128 / log2(prime));
+	i64 size_S = (i64) spasm_max(opts->dense_block_size, full_Sn) * (i64) Sm * spasm_datatype_size(datatype);
 	void *S = spasm_malloc(size_S);
 	int *q = spasm_malloc(Sm * sizeof(*q));
 	size_t *Sp = spasm_malloc(Sm * sizeof(*Sp));       /* for FFPACK */
@@ -349,6 +351,8 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 		int Sn = spasm_min(rank_ub, opts->dense_block_size);
 		if (Sn <= 0)
 			break;		
+		if (w == 0)
+			Sn = spasm_max(Sn, full_Sn);
 		fprintf(stderr, "[echelonize/dense/low-rank] Round %d. Weight %d. Processing chunk (%d x %d), |U| = %"PRId64"\n", 
 			round, w, Sn, Sm, spasm_nnz(U));
 		spasm_schur_dense_randomized(A, p, n, U, Uqinv, S, datatype, q, Sn, w);
@@ -359,7 +363,6 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 				break;
 			fprintf(stderr, "[echelonize/dense/low-rank] Failed termination test; switching to full linear combinations\n");
 			w = 0;
-			Sn = omp_get_max_threads();
 		}
 		if (rr < 0.9 * Sn) {
 			w *= 2;
-- 
2.43.0


From ae54f1756d085e9d8a9031252164a18c6f769535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 21/24] fix: writing a zero matrix as a gray image aborted
 (0/0)

---
 src/spasm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index c6ffa6c..8d05bf5 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -229,7 +229,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 		}
 	}
 
-	double max = 0;
+	double max = 1;      /* not zero, even if the matrix is */
 	for (int j = 0; j < x * y; j++)
 		max = spasm_max(max, w[j]);
 
-- 
2.43.0


From 80d36592b010336edab4aaf999b0d7a22fac2008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 22/24] fix: bitmap: one given dimension led to an empty image
 and to writes out of bounds

---
 src/spasm_io.c | 4 ++--
 tools/bitmap.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 8d05bf5..566a8e5 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -206,8 +206,8 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	const i64 *Ap = A->p;
 	int n = A->n;
 	int m = A->m;
-	x = spasm_min(x, m);
-	y = spasm_min(y, n);
+	x = spasm_min(spasm_max(x, 1), m);
+	y = spasm_min(spasm_max(y, 1), n);
 	int *w = spasm_malloc(x * y * sizeof(int));
 	assert(f != NULL);
 	assert((mode-1)*(mode-2)*(mode-3) == 0);
diff --git a/tools/bitmap.c b/tools/bitmap.c
index 687375a..6f60fe1 100644
--- a/tools/bitmap.c
+++ b/tools/bitmap.c
@@ -60,10 +60,10 @@ int main(int argc, char **argv) {
 		fprintf(stderr, "[bitmap] targeting %.1f Mpixels ; w=%d, h=%d\n", mpix, w, h);
 	}
 	if ((mpix < 0) && (w < 0) && (h > 0))
-		w = m * (h / n);
+		w = ((double) m) * h / n;
 
 	if ((mpix < 0) && (w > 0) && (h < 0))
-		h = n * (w / m);
+		h = ((double) n) * w / m;
 
 	w = spasm_min(w, m);
 	h = spasm_min(h, n);
-- 
2.43.0


From d1dcf9aa7cd40f8995b5d6cd7898b6f984274ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 23/24] fix: allocations of the rank certificate code were not
 checked

---
 src/spasm_certificate.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 6650400..187d2d9 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -176,10 +176,10 @@ bool spasm_factorization_verify(const struct spasm_csr *A, const struct spasm_lu
 	int n = A->n;
 	int m = A->m;
 	int r = U->n;
-	spasm_ZZp *x = malloc(n * sizeof(*x));
-	spasm_ZZp *y = malloc(r * sizeof(*y));
-	spasm_ZZp *z = malloc(m * sizeof(*z));
-	spasm_ZZp *t = malloc(m * sizeof(*t));
+	spasm_ZZp *x = spasm_malloc(n * sizeof(*x));
+	spasm_ZZp *y = spasm_malloc(r * sizeof(*y));
+	spasm_ZZp *z = spasm_malloc(m * sizeof(*z));
+	spasm_ZZp *t = spasm_malloc(m * sizeof(*t));
 	bool correct = 1;
 	bool complete = 0;
 	
@@ -250,10 +250,10 @@ bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 	if (1 != fscanf(f, "%d", &r) || r < 0)
 		return 0;
 	proof->r = r;
-	proof->i = malloc(r * sizeof(*proof->i));
-	proof->j = malloc(r * sizeof(*proof->i));
-	proof->x = malloc(r * sizeof(*proof->i));
-	proof->y = malloc(r * sizeof(*proof->i));
+	proof->i = spasm_malloc(r * sizeof(*proof->i));
+	proof->j = spasm_malloc(r * sizeof(*proof->i));
+	proof->x = spasm_malloc(r * sizeof(*proof->i));
+	proof->y = spasm_malloc(r * sizeof(*proof->i));
 	if (1 != fscanf(f, "%" SCNd64 "\n", &proof->prime))
 		return 0;
 	char hash[65];
-- 
2.43.0


From 23fe98690a82f8b6ac26c05e1752d54605d24f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 24/24] fix: numbers above 10^15 were displayed from an
 uninitialised buffer

---
 src/spasm_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index 964bd1b..80ca995 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -60,6 +60,7 @@ void spasm_human_format(i64 n, char *target)
 		snprintf(target, 8, "%.1ft", n / 1e12);
 		return;
 	}
+	snprintf(target, 8, "%.1fp", n / 1e15);
 }
 
 void *spasm_malloc(i64 size)
-- 
2.43.0

