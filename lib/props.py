#!/usr/bin/env python3
"""source of properties.jsonl (run: python3 lib/props.py > properties.jsonl)"""
import json
L = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
prop("C01", "Field arithmetic modulo p is exact",
 "For every supported prime (3 up to 4294967291) initialisation, addition, subtraction, multiplication, inversion and multiply-add return the unique representative of the exact result modulo p in the balanced interval of signed 32-bit values, whatever reduced operands they receive. Initialisation is exact for every 64-bit integer, negative ones included.",
 ["inputs"], "every prime of the supported range (a stated set of primes covering all magnitudes, the extreme ones included), every reduced operand, every 64-bit integer for initialisation",
 "The tests multiply a few hundred pairs for six primes; a rounding error of the floating-point quotient shows for a handful of operands out of 2^64.",
 ["src/spasm_ZZp.c", "src/spasm.h"], [("floating-point quotient followed by a correction step", "src/spasm_ZZp.c"), ("extended Euclid", "src/spasm_ZZp.c")],
 ["return values of the spasm_ZZp_* functions"])
prop("C02", "Building a matrix from entries sums duplicates and loses nothing",
 "A matrix assembled by adding entries one at a time (in any order, with repeated positions, unreduced or zero values, and any initial capacity) and converted to row form represents exactly the sum of its entries modulo p: the row form has correct row pointers, one stored entry per position, no stored zero, and the dimensions announced or required by the entries. Transposing the entry list before conversion yields the transpose.",
 ["inputs", "histories"], "every sequence of entries (positions, 64-bit values), every initial capacity, with or without numerical values, within the stated sizes",
 "Tests only convert the fixed matrices of the test directory, which contain no cancelling duplicates.",
 ["src/spasm_triplet.c", "src/spasm_util.c"], [("growth of the entry arrays", "src/spasm_triplet.c spasm_add_entry"), ("in-place merge of duplicates and removal of zeroes", "src/spasm_triplet.c deduplicate, remove_explicit_zeroes")],
 ["the structure returned by spasm_compress"])
prop("C03", "Transposition, permutation and submatrix extraction move entries faithfully",
 "Transposing, permuting rows and columns, extracting a submatrix, permuting vectors and inverting permutations put every entry, with its value, exactly where the definition says, create none and lose none, for every matrix (rectangular, with empty rows or columns, rows in any order, with or without values) and every permutation. The generated random permutations are permutations.",
 ["inputs"], "every sparse matrix, permutation and sub-range (empty ones included) within the stated sizes",
 "Tests compare a few files against one stored output each, with one permutation or one sub-range.",
 ["src/spasm_transpose.c", "src/spasm_permutation.c", "src/spasm_submatrix.c"], [("bucket counting", "src/spasm_transpose.c"), ("index arithmetic", "src/spasm_permutation.c, src/spasm_submatrix.c")],
 ["returned matrices and vectors"])
prop("C04", "Matrix files are read and written faithfully",
 "Loading an SMS or MatrixMarket file yields a matrix with exactly the dimensions and entries written in the file, reduced modulo p, and, when asked, the SHA-256 of the bytes read; saving a matrix and loading the result gives the same matrix. Truncated or malformed files (missing end marker, bad header, unparsable line, missing entries) end with an error, never with a matrix.",
 ["inputs"], "every file built from the stated templates with arbitrary dimensions, indices, values, comment lines, header letter case, truncation point and line ending",
 "The tests read a fixed set of well-formed files, and none exercises MatrixMarket, truncation or the hash of the file.",
 ["src/spasm_io.c"], [("line reader and format detection", "src/spasm_io.c read_line, spasm_triplet_load"), ("end marker / entry count", "src/spasm_io.c spasm_triplet_load"), ("writers", "src/spasm_io.c spasm_csr_save, spasm_triplet_save")],
 ["entries of the loaded matrix, hash, exit on malformed input"])
prop("C05", "The hash function is SHA-256, however the data is fed",
 "The digest of a message equals the one FIPS 180-4 prescribes, for every content and length, and does not depend on how the message is cut into successive updates (empty and unaligned pieces included).",
 ["inputs", "histories"], "every message content of the stated lengths (around every padding boundary), every way of cutting it in up to three pieces",
 "The tests hash a few short strings in one piece.",
 ["src/sha256.c"], [("block buffering", "src/sha256.c spasm_SHA256_update"), ("padding and length", "src/sha256.c spasm_SHA256_final"), ("compression function", "src/sha256.c")],
 ["the 32 bytes of the digest"])
prop("C06", "The pseudo-random field elements are reproducible, in range and unbiased",
 "The stream of field elements is a function of (seed, prime, sequence number) alone, equal to SHA-256 in counter mode with rejection of values not below the prime: every value produced is a balanced representative modulo p, each residue is produced by exactly one accepted word, and distinct seeds, primes, or sequence numbers enter the hashed block distinctly. Seeding from a number or from a 32-byte string never depends on previous state.",
 ["inputs", "histories"], "every hash output word, every prime of the stated set, any number of earlier draws within the bound",
 "One stored stream for one seed is compared; rejection, mask and block renewal depend on rare words.",
 ["src/spasm_prng.c"], [("counter mode", "src/spasm_prng.c rehash"), ("mask and rejection", "src/spasm_prng.c spasm_prng_ZZp")],
 ["return values of spasm_prng_u32 and spasm_prng_ZZp"])
prop("C07", "Sparse matrix times vector products are exact",
 "Vector-matrix and matrix-vector products add exactly the product to the given vector and scattering a multiple of a row adds exactly that multiple, for every matrix (rows in any order, empty rows or columns) and every vector; every coordinate not concerned is untouched.",
 ["inputs"], "every matrix and vector over the field within the stated sizes",
 "Tests use fixed matrices and one vector.",
 ["src/spasm_spmv.c", "src/spasm_scatter.c"], [("row-wise accumulation", "src/spasm_spmv.c, src/spasm_scatter.c")], ["output vectors"])
prop("C08", "Triangular solves return exactly the solution and its support",
 "Dense and sparse solves against a matrix that is triangular up to permutation (described by its pivot positions, possibly with fewer rows than columns) return the exact solution together with the correct remainder on non-pivotal columns; the dense forward solve reports a solution exactly when one exists. The sparse solve returns a pattern that contains every nonzero coordinate exactly once, in an order valid for elimination, and leaves its mark workspace clean for the next call.",
 ["inputs", "histories"], "every matrix triangular up to row and column permutations, every right-hand side, successive calls on the same workspace, within the stated sizes",
 "Tests use a handful of triangular matrices with one right-hand side and fresh workspaces.",
 ["src/spasm_triangular.c", "src/spasm_reach.c"], [("depth-first reachability with marks", "src/spasm_reach.c"), ("pattern-driven elimination", "src/spasm_triangular.c")], ["x, xj, top and the boolean result"],
 [("marks", "last third of xj must be all zero between calls", "src/spasm_reach.c")])
prop("C09", "Structural pivots form a triangular submatrix and are recorded consistently",
 "The structural pivot search selects at most one pivot per row and per column, only on nonzero entries, so that the selected rows in the returned order form, on the pivotal columns, a triangular matrix without cycle; the pivotal rows are stored in U scaled to a unit leading pivot, U stays echelonized, pivot locations (and L when requested) match, and the returned row order is a permutation listing pivotal rows first. This holds with and without greedy search, for first and later rounds.",
 ["inputs", "configurations", "schedules"], "every sparse matrix within the stated sizes, every option combination, both the first call and calls on a matrix with earlier pivots",
 "Tests only look at the final echelon form of fixed matrices.",
 ["src/spasm_pivots.c"], [("Faugere-Lachartre pivots", "src/spasm_pivots.c"), ("free-column and cycle-free search", "src/spasm_pivots.c"), ("topological ordering and extraction", "src/spasm_pivots.c spasm_pivots_extract_structural")], ["fact->U, qinv, p, L and the returned permutation"])
prop("C10", "The sparse Schur complement is exactly the eliminated matrix",
 "The Schur complement of any selection of rows with respect to an echelonized U consists of exactly those rows minus the unique combination of rows of U that clears the pivotal columns; it has no entry on a pivotal column and no stored zero, and the reported original row numbers and elimination coefficients reproduce the input rows. This holds for every density estimate, including ones that force storage to grow.",
 ["inputs", "configurations", "schedules"], "every matrix, every echelonized U within the stated sizes, every density estimate",
 "Tests check the product on fixed matrices with one estimate.",
 ["src/spasm_schur.c"], [("row elimination", "src/spasm_schur.c spasm_schur"), ("storage growth with writer count", "src/spasm_schur.c")], ["S, L, p_out"])
prop("C11", "Dense elimination blocks carry exactly the Schur complement",
 "The dense Schur complement block holds, row by row and through the returned column map, exactly the eliminated rows (and, when requested, the elimination coefficients); the randomized variant produces combinations of eliminated rows with each combination lying in the row space and, when it combines all rows, using the specified pseudo-random coefficients. The dense echelonization wrappers return the rank and pivot maps for all three number formats, values being read back as balanced representatives, and the number format chosen for a prime can represent its products.",
 ["inputs", "configurations"], "every matrix and echelonized U within the stated sizes, all three storage formats, every weight within the bound",
 "Tests check one format at a time on fixed matrices.",
 ["src/spasm_schur.c", "src/spasm_ffpack.cpp"], [("gather", "src/spasm_schur.c"), ("format selection and conversion", "src/spasm_ffpack.cpp")], ["S, q, p_out, L; rank, pivots"])
prop("C12", "Echelonization finds the exact rank and row space under every strategy",
 "For every matrix and every combination of options (which finishing strategies are enabled, number of rounds, thresholds, dense block size, low-rank start weight) that leaves an applicable finishing method enabled, the echelonization returns an echelonized basis of exactly the row space of the input, with unit leading pivots located by the pivot map, and its rank is the rank of the matrix; the input is left unmodified in content.",
 ["inputs", "configurations"], "every matrix over the field within the stated sizes, every option combination of the stated grid, every density estimate and random row choice",
 "Tests run default options on fixed matrices, for which most strategy switches never happen; the low-rank, block and multi-round paths need specific rank profiles.",
 ["src/spasm_echelonize.c", "src/spasm_pivots.c", "src/spasm_schur.c", "src/spasm_ffpack.cpp"], [("round loop and strategy choice", "src/spasm_echelonize.c spasm_echelonize"), ("GPLU", "src/spasm_echelonize.c echelonize_GPLU"), ("dense and low-rank modes", "src/spasm_echelonize.c"), ("completion test", "src/spasm_echelonize.c spasm_echelonize_test_completion")], ["fact->U, fact->qinv, fact->r"])
prop("C13", "The LU factorization reproduces the matrix",
 "When L is requested, the product of L and U agrees with the input on every pivotal row, L restricted to pivotal rows is invertible and triangular in pivot order as located by the row pivot map; when a complete factorization is requested, the product equals the input on every row. The factorization verifier accepts every factorization produced.",
 ["inputs", "configurations"], "every matrix over the field within the stated sizes, L and complete modes, sparse, dense and GPLU finishing, several rounds and blocks",
 "Tests check products on fixed matrices with default strategy parameters, never several dense blocks after several rounds.",
 ["src/spasm_echelonize.c", "src/spasm_pivots.c", "src/spasm_schur.c", "src/spasm_certificate.c"], [("elimination coefficients gathered into L by each stage", "src/spasm_pivots.c, src/spasm_schur.c, src/spasm_echelonize.c update_fact_after_LU"), ("verifier", "src/spasm_certificate.c spasm_factorization_verify")], ["fact->L, fact->U, fact->p, fact->complete"])
prop("C14", "Solving x A = b answers exactly when and what it should",
 "Given a factorization with L, the solver returns true exactly when b lies in the row space of A, and then x A = b holds; with several right-hand sides each one gets its own correct flag and, when solvable, a correct row of the solution matrix, whichever other rows are solvable.",
 ["inputs"], "every matrix and every right-hand side (consistent or not) over the field within the stated sizes, rank-deficient and rectangular matrices included",
 "Tests use right-hand sides built to be solvable, or one unsolvable.",
 ["src/spasm_solve.c", "src/spasm_triangular.c"], [("two triangular solves through the pivot maps", "src/spasm_solve.c spasm_solve, spasm_gesv")], ["returned flag(s) and x / X"])
prop("C15", "The kernel basis is a basis of the right kernel",
 "The kernel matrix computed from an echelonized factorization has exactly (columns - rank) linearly independent rows, each orthogonal to every row of the matrix, with no stored zero or duplicate entry; the kernel computed from the reduced row echelon form satisfies the same and has reduced coefficients.",
 ["inputs"], "every matrix over the field within the stated sizes, ranks 0 to full",
 "Tests check orthogonality on fixed matrices, without independence for all ranks, and never the RREF-based variant.",
 ["src/spasm_kernel.c"], [("solve on the transpose of U", "src/spasm_kernel.c spasm_kernel"), ("direct reading of the RREF", "src/spasm_kernel.c spasm_kernel_from_rref")], ["returned matrix K"])
prop("C16", "The reduced row echelon form is reduced and spans the same space",
 "From any echelonized factorization, the reduced form has the same row space and the same pivotal columns, unit pivots stored first on each row, located by the returned pivot map, and no other row has an entry on a pivotal column.",
 ["inputs", "schedules"], "every matrix over the field within the stated sizes",
 "Tests compare a few fixed matrices.",
 ["src/spasm_rref.c"], [("elimination of each row against all the others with its own pivot removed", "src/spasm_rref.c")], ["R and Rqinv"])
prop("C17", "Rank certificates: honest ones verify and wrong ones are rejected",
 "A certificate produced from a factorization with L of a matrix states its true rank and always verifies for that matrix, hash and prime. Verification accepts only when the two challenge equations derived from the hash hold at the stated positions; it rejects any certificate with another hash or prime, out-of-range positions, a negative rank or response values that violate the equations, and never reads outside the certificate or the matrix.",
 ["inputs"], "every matrix within the stated sizes; every certificate content (rank, positions, values, hash, prime) within the stated bounds",
 "Tests check that honest certificates of fixed matrices verify; no test presents a wrong certificate.",
 ["src/spasm_certificate.c"], [("challenge generation from the hash", "src/spasm_certificate.c"), ("two linear checks", "src/spasm_certificate.c spasm_certificate_rank_verify")], ["boolean result of the verifier"])
prop("C18", "A saved certificate reads back unchanged, and damaged ones are refused",
 "Writing a certificate and loading it gives back the same rank, prime, hash, positions and values; loading a certificate in which a field is missing or is not a number reports failure. The certificate checking program exits successfully and says CORRECT exactly for certificates that verify.",
 ["inputs"], "every certificate content within the stated sizes, every truncation point",
 "No test saves, loads or runs the checking program.",
 ["src/spasm_certificate.c", "tools/check_cert.c"], [("text format", "src/spasm_certificate.c spasm_rank_certificate_save / _load"), ("exit status", "tools/check_cert.c")], ["loaded certificate, return value, exit status"])
prop("C19", "The maximum matching is a matching of maximum size",
 "For every sparse pattern the returned row and column maps are inverse of one another, only match rows and columns joined by an entry, and no larger matching exists. Permuting or restricting a matching yields the matching of the permuted or restricted matrix.",
 ["inputs"], "every pattern within the stated sizes, tall, wide and square, empty rows and columns included",
 "Tests check validity on fixed matrices, but maximality only against one stored number.",
 ["src/spasm_matching.c"], [("augmenting paths with cheap assignment", "src/spasm_matching.c")], ["jmatch, imatch, return value"])
prop("C20", "The Dulmage-Mendelsohn decomposition is the canonical block triangular form",
 "For every pattern the returned row and column orders are permutations; the coarse blocks are the horizontal, square and vertical parts determined by a maximum matching, the permuted matrix has no entry below its diagonal blocks, the square part has a zero-free diagonal and its fine blocks are its strongly connected components in topological order.",
 ["inputs"], "every pattern within the stated sizes, tall, wide and square, empty rows and columns included",
 "Tests only check block sums on fixed matrices.",
 ["src/spasm_dm.c", "src/spasm_matching.c", "src/spasm_scc.c"], [("alternating breadth-first searches from unmatched rows and columns", "src/spasm_dm.c"), ("fine decomposition of the square part", "src/spasm_dm.c")], ["p, q, r, c, nb, rr, cc"])
prop("C21", "Strongly connected components are exact and topologically ordered",
 "For every square pattern the returned blocks partition the vertices; two vertices are in the same block exactly when each is reachable from the other, and every entry leads from a block to itself or to a later one.",
 ["inputs"], "every directed graph within the stated number of vertices",
 "Tests check a few fixed graphs.",
 ["src/spasm_scc.c"], [("iterative Tarjan search", "src/spasm_scc.c")], ["p, r, nb"])
prop("C22", "Results do not depend on the thread schedule",
 "The parallel computations (Schur complements, structural pivot search, kernel, reduced form) give a correct result, up to the order of output rows, whatever the number of threads and however they are interleaved: no entry is lost or overwritten while storage grows, no update is lost, and no schedule deadlocks or touches released memory.",
 ["schedules", "inputs"], "every interleaving of two threads up to the stated number of preemptions at shared accesses, on symbolic matrices of the stated sizes",
 "Tests run whatever schedule the machine produces.",
 ["src/spasm_schur.c", "src/spasm_pivots.c", "src/spasm_kernel.c", "src/spasm_rref.c"], [("critical sections and the count of active writers", "src/spasm_schur.c, src/spasm_kernel.c, src/spasm_rref.c"), ("optimistic pivot search with a journal of new pivots", "src/spasm_pivots.c")], ["same outputs as the sequential properties"])
prop("C23", "Entry offsets are 64-bit: matrices with more than 2^31 entries work",
 "Products, scatter, triangular solves, reachability, transposition, permutation, extraction, matching, components, reduced form and kernel give the same results wherever the rows of a matrix lie in its entry arrays, including beyond the 2^31-th entry.",
 ["inputs"], "every small matrix whose entries are stored at an offset of 0, just below 2^31, just above 2^31, or above 2^32",
 "No test can afford a matrix with 2^31 entries.",
 ["src/spasm_spmv.c", "src/spasm_scatter.c", "src/spasm_triangular.c", "src/spasm_reach.c", "src/spasm_transpose.c", "src/spasm_permutation.c", "src/spasm_submatrix.c", "src/spasm_matching.c", "src/spasm_scc.c", "src/spasm_kernel.c", "src/spasm_rref.c", "src/spasm_schur.c"], [("i64 row pointers and loop indices", "all kernels")], ["outputs of the listed operations"])
prop("C24", "Memory discipline: no invalid access, no leak on the main paths",
 "On valid inputs no operation reads or writes outside its objects, uses uninitialised or released memory, overflows a signed integer or converts an unrepresentable floating-point value, and after the results are released nothing allocated by the operation remains.",
 ["inputs", "configurations"], "every input within the stated sizes of each operation, degenerate shapes (no rows, no columns, no entries) included",
 "Tests run without sanitizers on fixed matrices whose storage is larger than needed.",
 ["src/spasm_util.c", "src/spasm_echelonize.c", "src/spasm_schur.c", "src/spasm_kernel.c", "src/spasm_rref.c", "src/spasm_triplet.c"], [("capacity computations before writes", "src/"), ("ownership of intermediate matrices", "src/spasm_echelonize.c")], ["absence of faults; live allocations after release"])
prop("C25", "The command-line programs deliver what they announce",
 "The programs print or write exactly the object they announce for the matrix given on input with the given modulus: the rank program the rank (and a certificate that the checker accepts), the kernel program a basis of the right (or, on request, left) kernel, the solver a solution of the system, the transposition, flipping, stacking and decomposition programs the corresponding matrix.",
 ["inputs", "configurations"], "every small input file content within the stated sizes and every option of the stated grid",
 "The programs are run by no test except on fixed matrices.",
 ["tools/rank.c", "tools/kernel.c", "tools/solve.c", "tools/echelonize.c", "tools/dm.c", "tools/stack.c", "tools/transpose.c", "tools/vertical_swap.c", "tools/check_cert.c", "tools/common.c"], [("option parsing and pipeline", "tools/")], ["standard output, output files, exit status"])
prop("C26", "Images show where the entries of the matrix are",
 "Saving a matrix as an image gives a complete plain PNM file of the size asked for (never more than one pixel per entry; when only one side is given to the bitmap program, the other follows the proportions of the matrix), in which a pixel is blank exactly when no entry lies below it; in gray images more entries give a darker pixel, equal counts the same gray, and in colour images the blocks of the Dulmage-Mendelsohn decomposition are told apart by the background. The zero matrix gives a blank image.",
 ["inputs", "configurations"], "every pattern of the stated sizes, every image size up to one more than the matrix, every mode",
 "No test produces an image.",
 ["src/spasm_io.c", "tools/bitmap.c", "tools/dm.c"], [("pixel of an entry, scaling, colours", "src/spasm_io.c spasm_save_pnm"), ("choice of the dimensions", "tools/bitmap.c")], ["content of the PNM file"])
prop("C27", "A failed allocation ends the program with an error",
 "If any single memory allocation made by a library operation fails (loading and saving, building and transforming matrices, echelonization in every mode, solving, kernels, reduced forms, certificates, decompositions, images), the program terminates with an error message and a nonzero status: the missing memory is never accessed and no operation returns a result as if nothing had happened. Without a failure the operations do not give up.",
 ["inputs", "allocation failures"], "every input of the stated sizes, failure of every single allocation made on each path",
 "Tests cannot make the n-th allocation fail, and the n-th allocation depends on the input and on the strategy chosen.",
 ["src/spasm_util.c", "src/spasm_echelonize.c", "src/spasm_certificate.c", "src/spasm_schur.c", "src/spasm_io.c"], [("allocation wrappers", "src/spasm_util.c spasm_malloc, spasm_calloc, spasm_realloc"), ("users of the wrappers", "src/")], ["exit status; invalid accesses"])
prop("C28", "Operations leave their inputs unchanged and repeat their results",
 "The matrices, factorizations, permutations, vectors and triplets that an operation receives as constant arguments have the same contents afterwards, results have storage of their own, and (with one thread and no random choice involved) calling the same operation again with the same arguments gives an identical result, whatever other operations ran in between.",
 ["inputs", "call histories"], "every input of the stated sizes; two calls separated by unrelated operations",
 "Tests call an operation once and look at its result only.",
 ["src/spasm_transpose.c", "src/spasm_triplet.c", "src/spasm_echelonize.c", "src/spasm_solve.c", "src/spasm_kernel.c", "src/spasm_rref.c", "src/spasm_certificate.c", "src/spasm_dm.c"], [("constant parameters whose arrays are reachable through non-constant pointers", "src/spasm.h"), ("no state is kept between calls", "src/")], ["contents of the arguments; equality of results"])
for p in L:
    assert len(p["title"]) <= 80, p["title"]
    print(json.dumps(p))
