import random
from runner import Ob
OBS, META = {}, {}
def P(pid, *obs, **meta):
    assert len({o.name for o in obs}) == len(obs), [o.name for o in obs if [x.name for x in obs].count(o.name) > 1]
    OBS[pid] = list(obs); META[pid] = meta


PRIMES = [3, 5, 7, 257, 42013, 65537, 67108859, 94906249, 189812507, 2147483647, 2147483659, 3037000507, 4294967291]
_ops = ["init", "add", "sub", "mul", "axpy"]
P("C01", *[Ob("%s-%d" % (_ops[o], p), "field.c", "-DPP=%dLL -DOP=%d" % (p, o), field="real", src=["src/spasm_ZZp.c"], args="--lira --solver-timeout 60000", witnesses=0, search=True,
              what="spasm_ZZp_%s on every reduced operand" % _ops[o], bound="p = %d; operands: the whole reduced range" % p, reach=("result checked",)) for p in PRIMES for o in range(5)],
  *[Ob("inv-%d" % p, "fieldinv.c", "-DPP=%dLL %s" % (p, "-DALL" if p < 300 else ""), field="real", src=["src/spasm_ZZp.c"], jobs=1, what="inversion", bound=("p = %d, every unit" if p < 300 else "p = %d, 1536 units near 0, near +-p/2, of the form p/k, and scattered") % p, reach=("inverse checked",)) for p in PRIMES],
  *[Ob("small-%d" % p, "fieldsmall.c", "-DPP=%dLL %s" % (p, "-DALL" if p < 14 else ""), field="real", src=["src/spasm_ZZp.c"], what="all operations, operands concretised by the solver",
       bound=("p = %d, every operand" if p < 14 else "p = %d, 11 boundary values per operand") % p, reach=("checked",)) for p in [2, 3, 5, 7, 11, 13] + PRIMES[3:]])
P("C02", *[Ob("compress-%dx%d-k%d%s" % (n, m, k, "" if v else "-pattern"), "compress.c", "-DNN=%d -DMM=%d -DK=%d -DN0=%d -DM0=%d -DVALS=%d -DPP=%d" % (n, m, k, n0, m0, v, p), jobs=j, tier=t, time=tm,
     what="add_entry / transpose / compress", bound="%d entries anywhere in %dx%d (announced %dx%d), any values mod %d, capacities 0, 1, %d, both orientations" % (k, n, m, n0, m0, p, k), reach=("duplicates merged or cancelled", "no duplicate"))
   for n, m, k, n0, m0, v, p, j, t, tm in [(2, 2, 3, 2, 2, 1, 5, 2, "quick", 200), (2, 2, 4, 2, 2, 1, 3, 4, "quick", 300), (3, 2, 3, 1, 1, 1, 5, 4, "quick", 300), (2, 3, 3, 0, 0, 1, 3, 4, "quick", 300), (3, 3, 3, 2, 3, 0, 5, 2, "quick", 200), (3, 3, 4, 3, 3, 1, 3, 8, "thorough", 3000), (2, 2, 5, 2, 2, 1, 5, 8, "thorough", 3000)]])
def sh_(n, m): return "-DNR=%d -DNC=%d" % (n, m)
RAND = ("env_rand.c",)
P("C03", *[Ob("%s-%dx%d" % (nm, n, m), "move.c", "-DOP=%d %s" % (o, sh_(n, m)), what=nm + " of every matrix with every pattern", bound="%dx%d, any values mod 5 or pattern only, 2 storage orders, every permutation / range" % (n, m), reach=(r,), tier=t, jobs=j, time=tm)
     for o, nm, r in [(0, "transpose", "transposed"), (1, "permute", "permuted"), (2, "submatrix", "extracted")]
     for n, m, t, j, tm in [(2, 3, "quick", 1, 200), (3, 2, "quick", 1, 200), (1, 4, "quick", 1, 200), (4, 1, "quick", 1, 200), (0, 3, "quick", 1, 60), (3, 0, "quick", 1, 60), (0, 0, "quick", 1, 60), (3, 3, "quick" if o == 0 else "thorough", 8, 600), (3, 4, "thorough", 8, 2000)]],
  *[Ob("vectors-%d" % n, "move.c", "-DOP=3 " + sh_(n, 1), what="pvec, ipvec, pinv, range_pvec", bound="length %d, every permutation (or none), any 32-bit contents" % n, reach=("vectors permuted",)) for n in (0, 1, 2, 3, 4)],
  *[Ob("random-%d" % n, "move.c", "-DOP=4 %s -DRANDK=%d -DRANDM=12" % (sh_(n, 1), n), models=RAND, what="spasm_random_permutation", bound="length %d, any outcome of rand() (modulo 12)" % n, reach=("random permutation",)) for n in (0, 1, 2, 3, 4)])
P("C07", *[Ob("spmv-%dx%d-p%d" % (n, m, p), "spmv.c", sh_(n, m) + " -DPP=%dLL" % p, what="xApy, Axpy, scatter", bound="every %dx%d matrix and vectors mod %d, 3 storage orders" % (n, m, p), reach=("xApy", "Axpy") + (("scatter",) if n else ()), jobs=j, tier=t, time=tm)
     for n, m, p, t, j, tm in [(2, 2, 5, "quick", 1, 200), (2, 3, 3, "quick", 2, 200), (3, 2, 257, "quick", 2, 200), (1, 4, 65537, "quick", 1, 200), (4, 1, 4294967291, "quick", 1, 200), (0, 2, 5, "quick", 1, 60), (2, 0, 5, "quick", 1, 60), (3, 3, 5, "quick", 4, 200), (3, 4, 3, "thorough", 8, 2000)]])
P("C08", *[Ob("%s-%dx%d-p%d" % (("back", "forward", "sparse")[o], n, m, p), "tri.c", "-DOP=%d %s -DPP=%d" % (o, sh_(n, m), p), what=("spasm_dense_back_solve", "spasm_dense_forward_solve", "spasm_sparse_triangular_solve, spasm_reach, two consecutive calls")[o],
      bound="%dx%d, mod %d, every pivot placement%s, any entries, storage orders" % (n, m, p, " and both elimination orders" if o == 2 else ""), reach=(("solved",), ("solution", "no solution") if m > n else ("solution",), ("solved", "empty pattern"))[o], tier=t, jobs=j, time=tm)
     for o, n, m, p, t, j, tm in [(0, 2, 2, 5, "quick", 1, 200), (0, 3, 2, 5, "quick", 1, 200), (0, 3, 3, 3, "quick", 2, 200), (0, 4, 2, 7, "quick", 2, 200), (0, 2, 0, 5, "quick", 1, 60), (0, 4, 3, 3, "thorough", 8, 3000), (0, 4, 4, 3, "thorough", 8, 3000),
      (1, 2, 2, 5, "quick", 1, 200), (1, 2, 3, 5, "quick", 1, 200), (1, 3, 3, 3, "quick", 2, 200), (1, 2, 4, 7, "quick", 2, 200), (1, 0, 2, 5, "quick", 1, 60), (1, 3, 4, 3, "quick", 4, 300), (1, 4, 4, 3, "thorough", 8, 3000),
      (2, 1, 2, 5, "quick", 1, 200), (2, 2, 2, 5, "quick", 1, 200), (2, 2, 3, 3, "quick", 4, 300), (2, 3, 3, 3, "quick", 4, 300), (2, 0, 2, 5, "quick", 1, 60), (2, 2, 4, 3, "thorough", 8, 3000), (2, 3, 4, 3, "thorough", 8, 3000)]])
def spshape(n, m, seed, fill=0.25, q=8, ones=0.5):
    """an n x m shape: about fill*n*m entries, q of them optional, of the others a share of ones equal to one and the rest any nonzero value"""
    g = random.Random(seed)
    cells = g.sample(range(n * m), max(q, int(fill * n * m)))
    s = ["0"] * (n * m)
    for k, c in enumerate(cells): s[c] = "?" if k < q else "u" if g.random() < ones else "1"
    return "".join(s)
def shp(s): return " '-DHSHAPE=\"%s\"'" % s if s else ""
def shptxt(s): return " of shape %s (0: zero, u: one, 1: nonzero, ?: any)" % s if s else ""
def gr(op, n, m, t="quick", j=2, tm=300, srt=0, maxw=16, shape="", nm="", wander=0, **k):
    if shape: k["bound"] = "every %dx%d pattern%s%s" % (n, m, shptxt(shape), ", with one more entry anywhere on the last %d rows" % wander if wander else "")
    r = {0: (), 1: ("mixed",), 2: (), 3: ()}[op] if min(n, m) else ()
    return Ob("%s-%dx%d%s%s" % (("matching", "dm", "scc", "helpers")[op], n, m, "-sorted" if srt else "", "-w%d" % maxw if maxw < 16 else "-" + nm if nm else ""), "graph.c", "-DOP=%d %s -DSORTED=%d -DMAXW=%d" % (op, sh_(n, m), srt, maxw) + shp(shape) + (" -DWANDER=%d" % wander if shape else ""), tier=t, jobs=j, time=tm, reach=k.pop("reach", ()),
              what=("spasm_maximum_matching", "spasm_dulmage_mendelsohn", "spasm_strongly_connected_components", "permuted and restricted matchings")[op],
              bound=k.pop("bound", "") or "every %dx%d pattern%s, column indices symbolic, entries of a row in %s order" % (n, m, "" if maxw >= m else " with at most %d entries per row" % maxw, "increasing" if srt else "any"), **k)
P("C19", gr(0, 2, 2, reach=("full matching", "deficient matching")), gr(0, 2, 3), gr(0, 3, 2), gr(0, 3, 3), gr(0, 0, 2), gr(0, 2, 0), gr(0, 4, 3, srt=1, j=4), gr(0, 3, 4, srt=1, j=4), gr(0, 4, 4, srt=1, maxw=3, j=8), gr(0, 5, 5, t="thorough", srt=1, maxw=2, j=8, tm=3000),
  gr(3, 2, 2, reach=("matched", "nothing matched")), gr(3, 2, 3), gr(3, 3, 3, t="thorough", srt=1, maxw=2, j=8, tm=1000), gr(0, 4, 4, t="thorough", srt=1, j=8, tm=3000), gr(0, 5, 5, t="thorough", srt=1, maxw=3, j=8, tm=3000), gr(0, 6, 6, t="thorough", srt=1, maxw=2, j=8, tm=3000),
  *[gr(0, n, m, shape=spshape(n, m, k, f, q), wander=w, nm="sp%d" % k, j=2) for n, m, k, f, q, w in [(8, 8, 21, 0.25, 6, 2), (6, 9, 22, 0.25, 6, 2), (9, 6, 23, 0.25, 6, 2), (10, 10, 24, 0.15, 7, 1), (7, 7, 26, 0.2, 6, 3), (8, 8, 27, 0.3, 9, 2)]])
P("C20", gr(1, 2, 2, reach=("mixed", "no square part", "only a square part")), gr(1, 2, 3), gr(1, 3, 2), gr(1, 3, 3, j=4), gr(1, 0, 2), gr(1, 2, 0), gr(1, 4, 3, srt=1, j=8), gr(1, 3, 4, srt=1, j=8), gr(1, 4, 4, srt=1, maxw=2, j=8), gr(1, 4, 4, t="thorough", srt=1, j=8, tm=3000),
  *[gr(1, n, m, shape=spshape(n, m, k, f, q), wander=w, nm="sp%d" % k, j=2) for n, m, k, f, q, w in [(8, 8, 21, 0.25, 6, 2), (6, 9, 22, 0.25, 6, 2), (9, 6, 23, 0.25, 6, 2), (9, 9, 24, 0.15, 7, 1), (7, 7, 26, 0.2, 5, 2), (8, 8, 27, 0.3, 8, 1)]])
P("C21", gr(2, 1, 1), gr(2, 2, 2, reach=("one component", "trivial components")), gr(2, 0, 0), gr(2, 3, 3, j=4, reach=("several components",)), gr(2, 4, 4, srt=1, j=8), gr(2, 5, 5, srt=1, maxw=1, j=4), gr(2, 5, 5, t="thorough", srt=1, maxw=2, j=8, tm=3000), gr(2, 4, 4, t="thorough", maxw=3, j=8, tm=3000),
  *[gr(2, n, m, shape=spshape(n, m, k, f, q), wander=w, nm="sp%d" % k, j=2) for n, m, k, f, q, w in [(8, 8, 21, 0.25, 6, 2), (8, 8, 22, 0.18, 6, 2), (10, 10, 23, 0.15, 7, 1)]])
DENS = ("env_density.c",)
OPT = {"default": "", "gplu": "o.enable_dense=0;o.enable_tall_and_skinny=0;o.max_round=0;", "dense": "o.enable_GPLU=0;o.max_round=0;o.sparsity_threshold=0.0;", "lowrank": "o.tall_and_skinny_ratio=-1;o.low_rank_ratio=2;o.max_round=0;o.sparsity_threshold=0.0;",
       "rounds": "o.sparsity_threshold=2;o.min_pivot_proportion=0;o.max_round=2;o.enable_greedy_pivot_search=0;",
       "one": "o.sparsity_threshold=2;o.min_pivot_proportion=0;o.max_round=1;o.enable_tall_and_skinny=0;", "onedense": "o.sparsity_threshold=0.5;o.min_pivot_proportion=0;o.max_round=2;o.enable_tall_and_skinny=0;"}
OPTTXT = {"default": "default options", "gplu": "GPLU only, no round", "dense": "dense only, no round", "lowrank": "low-rank mode", "rounds": "two rounds, no greedy search", "one": "one round then GPLU", "onedense": "up to two rounds then dense"}
def ushape(r, m, seed, fill=0.25, q=5, ones=0.5):
    """an echelonized r x m shape: pivots (p) on scattered columns, entries after them in elimination order"""
    g = random.Random(seed)
    piv = g.sample(range(m), r)
    cells = [(i, j) for i in range(r) for j in range(m) if j not in piv[:i + 1]]
    cells = g.sample(cells, min(len(cells), max(q, int(fill * r * m))))
    s = ["0"] * (r * m)
    for i in range(r): s[i * m + piv[i]] = "p"
    for k, (i, j) in enumerate(cells): s[i * m + j] = "?" if k < q else "u" if g.random() < ones else "1"
    return "".join(s)
D44 = "uuuu" + "u111" * 3        # up to scaling, every 4x4 matrix without zeros
D33 = "uuu" + "u11" * 2
LOPS = ["LU", "solve", "gesv", "kernel", "rref", "kernelrref"]
def lin(op, n, m, p=3, opt="default", fact=0, nx=None, t="quick", j=1, tm=300, nb=2, reach=(), extra="", shape="", nm="", comb=0, us=""):
    d = ("-DCOMB " if comb else "") + (" '-DUSHAPE=\"%s\"' " % us if us else "") + "-DOP=%d %s -DPP=%d -DNB=%d -DFACT=%d" % (op, sh_(n, m), p, nb, fact) + (" -DNX=%d" % nx if nx else "") + shp(shape)
    o = OPT[opt] + extra
    if o and not fact: d += " '-DOPTS=%s'" % o
    return Ob("%s-%s%dx%d-p%d%s" % (LOPS[op], "syn%s" % ("" if nx is None else nx) + "-" if fact else "", n, m, p, "" if opt == "default" and not extra else "-" + opt + ("-x" if extra else "")) + ("-b%d" % nb if nb != 2 else "") + ("-" + nm if nm else ""), "lin.c", d + (" -DRANDK=2 -DRANDM=2" if opt == "lowrank" and not fact else ""), models=DENS + (RAND if opt == "lowrank" and not fact else ()), jobs=j, time=tm, tier=t, reach=reach,
              what=["LU factorization and verifier", "spasm_solve", "spasm_gesv", "spasm_kernel", "spasm_rref", "spasm_kernel_from_rref"][op] + (" on any echelonized U" if fact else " after spasm_echelonize"),
              bound=("every echelonized %dx%d U of shape %s mod %d" % (n, m, us, p) if us else "every echelonized %dx%d U and compatible %s-row L, mod %d" % (n, m, nx or n, p) if fact and op <= 2 else "every echelonized %dx%d U mod %d, any pivot placement" % (n, m, p) if fact else "every %dx%d matrix mod %d%s, %s" % (n, m, p, shptxt(shape), OPTTXT[opt])) + (", right-hand sides: combinations of rows plus a multiple of any coordinate" if comb else ", any right-hand side" if op == 1 else ", every %d-row right-hand side" % nb if op == 2 else ""))
P("C14", *[lin(1, n, m, opt=o, reach=("solvable",) + (("no solution",))) for n, m in [(2, 2), (2, 3), (3, 2)] for o in OPT], lin(1, 3, 3, j=8), lin(1, 3, 3, p=5, j=8, t="thorough", tm=3000), lin(1, 2, 4, j=4), lin(1, 4, 2, j=4), lin(1, 2, 2, p=7), lin(1, 0, 2), lin(1, 2, 0), *[lin(1, 3, 3, p=5, opt=o, shape=D33, nm="full", j=2) for o in ("rounds", "onedense", "one")], *[lin(2, 3, 3, p=5, opt=o, shape=D33, nm="full", nb=1, j=2) for o in ("rounds", "one")],
  *[lin(1, n, m, extra="o.complete=0;") for n, m in [(2, 2), (2, 3), (3, 2)]], lin(2, 2, 2, extra="o.complete=0;"), lin(1, 3, 2, opt="dense", extra="o.complete=0;"), lin(1, 3, 2, opt="gplu", extra="o.complete=0;"),
  lin(2, 2, 2, j=4), lin(2, 2, 3, j=4), lin(2, 3, 2, j=4), lin(2, 2, 2, nb=3, j=4), lin(2, 2, 2, nb=0), lin(2, 2, 2, opt="dense"), lin(2, 2, 2, opt="gplu"),
  lin(1, 2, 3, fact=1, nx=3, j=4), lin(1, 3, 3, fact=1, nx=3, j=8), lin(1, 2, 4, fact=1, nx=3, j=8), lin(1, 3, 4, fact=1, nx=4, j=8, t="thorough", tm=3000), lin(2, 2, 2, fact=1, nx=2, j=4), lin(2, 2, 3, fact=1, nx=3, j=8, t="thorough", tm=3000),
  *[lin(op, n, m, p=p, opt=o, shape=spshape(n, m, k, f, q), nm="sp%d" % k, nb=3, comb=1, j=2) for n, m, p, k, f, q in [(10, 10, 3, 1, .2, 4), (8, 12, 7, 3, .22, 4), (12, 8, 5, 4, .22, 4)] for o in OPT if o != "lowrank" for op in (1, 2) if op == 1 or o in ("rounds", "gplu", "onedense")])
P("C15", *[lin(op, n, m, opt=o, reach=("kernel",) + (("trivial kernel",) if n >= m else ())) for n, m in [(2, 2), (2, 3), (3, 2)] for o in OPT if o != "lowrank" or n == m for op in (3, 5)], *[lin(op, *a, **k) for op in (3, 5) for a, k in [((3, 3), dict(j=8)), ((2, 4), dict(j=4)), ((2, 3), dict(p=7, j=2)), ((0, 2), {}), ((2, 0), {}), ((3, 4), dict(t="thorough", j=8, tm=3000)), ((3, 4), dict(fact=1, j=4)), ((2, 5), dict(fact=1, j=8)), ((3, 5), dict(fact=1, j=8, t="thorough", tm=3000)), ((1, 6), dict(fact=1)), ((0, 3), dict(fact=1)), ((3, 3), dict(fact=1)), ((2, 4), dict(fact=1, p=7, j=4))]],
  *[lin(op, n, m, p=p, opt=o, shape=spshape(n, m, k, f, q), nm="sp%d" % k, j=2) for n, m, p, k, f, q in [(10, 10, 3, 1, .2, 8), (8, 12, 7, 3, .22, 8), (12, 8, 5, 4, .22, 8)] for o in OPT if o != "lowrank" for op in (3, 5)])
P("C16", *[lin(4, n, m, opt=o, reach=("reduced",) if n < m else ()) for n, m in [(2, 2), (2, 3), (3, 3), (2, 4)] for o in OPT if (o == "lowrank") == (n == m == 2)], lin(4, 3, 4, t="thorough", j=8, tm=3000), lin(4, 2, 4, fact=1, j=4), lin(4, 3, 4, fact=1, j=4), lin(4, 2, 5, fact=1, j=8), lin(4, 3, 5, fact=1, j=8), lin(4, 4, 5, fact=1, j=8, t="thorough", tm=3000), lin(4, 3, 3, fact=1), lin(4, 0, 3, fact=1), lin(4, 1, 6, fact=1), lin(4, 3, 4, fact=1, p=7, j=8),
  *[lin(4, n, m, p=p, opt=o, shape=spshape(n, m, k, f, q), nm="sp%d" % k, j=2) for n, m, p, k, f, q in [(10, 10, 3, 1, .2, 8), (8, 12, 7, 3, .22, 8), (12, 8, 5, 4, .22, 8)] for o in OPT if o != "lowrank"])
P("C13", *[lin(0, n, m, opt=o, extra=x) for n, m in [(2, 2), (2, 3), (3, 2)] for o in OPT for x in ("", "o.complete=0;")], *[lin(0, 3, 3, opt=o, extra=x, j=4) for o in OPT for x in ("", "o.complete=0;")], lin(0, 3, 4, j=8, t="thorough", tm=3000), lin(0, 4, 3, j=8, t="thorough", tm=3000), lin(0, 0, 2), lin(0, 2, 0), lin(0, 2, 2, p=7), lin(0, 1, 4), lin(0, 4, 1),
  *[lin(0, 4, 4, opt=o, shape="u???" "u0?0" "u00?" "u000", nm="fill") for o in ("gplu", "one", "default")], lin(0, 4, 5, opt="gplu", shape="1????" "10000" "10000" "01000", nm="fill"), lin(0, 4, 3, opt="gplu", shape="100" "?1?" "?10" "?1?", nm="fill"),
  *[lin(0, 3, 3, p=5, opt=o, extra=x, shape=D33, nm="full" + str(len(x))) for o in ("rounds", "onedense", "one", "default") for x in ("", "o.complete=0;")], *[lin(0, 4, 4, p=5, opt=o, shape=D44, nm="full", j=4) for o in ("rounds", "onedense", "one", "default")],
  *[lin(0, n, m, p=p, opt=o, extra=x, shape=spshape(n, m, k, f, q), nm="sp%d%s" % (k, "i" if x else ""), j=2) for n, m, p, k, f, q in [(10, 10, 3, 1, .2, 8), (8, 12, 7, 3, .22, 8), (12, 8, 5, 4, .22, 8)] for o in OPT if o != "lowrank" for x in (("", "o.complete=0;") if k == 1 else ("",))])

IO = ("engine:io_model.c", "native:io_native.c")
def ld(op, p, k=2, nd=1, t="quick", j=1, tm=200, n=2, m=2):
    nm = ["sms", "cut", "damaged", "mm", "mmheader", "rows", "triplets", "long", "mmcut", "mmdamaged"][op]
    return Ob("%s-%s-p%d" % (nm, "k%d-d%d" % (k, nd) if op < 5 or op >= 7 else "%dx%d" % (n, m), p), "load.c", "-DOP=%d -DPP=%dLL -DK=%d -DND=%d %s" % (op, p, k, nd, sh_(n, m)), models=IO, field="real", tier=t, jobs=j, time=tm, reach=[("loaded", "refused"), ("loaded", "refused"), ("refused",), ("loaded", "refused"), ("loaded", "refused"), ("loaded",), ("loaded",), ("loaded", "refused"), ("loaded", "refused"), ("refused",)][op],
       what=["loading an SMS file", "loading an SMS file cut anywhere", "loading an SMS file with a letter in place of a number", "loading a MatrixMarket file", "MatrixMarket header with any byte replaced", "spasm_csr_save then load", "spasm_triplet_save then load", "loading a MatrixMarket file with a line of 900 to 1030 characters (comment, dimensions or entry)", "loading a MatrixMarket file cut anywhere", "loading a MatrixMarket file with a letter in place of a number"][op],
       bound=("%d entry lines, every digit of dimensions, indices and %d-digit values symbolic, modulus %d, separators, line endings, end of file variants" % (k, nd, p)) if op < 5 or op >= 7 else "every %dx%d matrix (%s), with and without values" % (n, m, "all values mod %d" % p if p < 10 else "boundary values mod %d" % p))
P("C04", ld(7, 42013, j=2), ld(0, 42013), ld(0, 7, 1, 2, j=4), ld(0, -1), ld(0, 42013, 3, 1, t="thorough", j=8, tm=2000), ld(0, 4294967291, 1, 5, j=2), ld(0, 4294967291, 0), ld(0, 4294967291, 1, 0), ld(0, 42013, 1, 0), ld(3, 3037000507, 1, 0), ld(1, 42013, 2, 2), ld(1, -1, 1), ld(1, 42013, 0), ld(2, 42013), ld(2, -1), ld(3, 42013), ld(3, 4294967291, 1, 5), ld(3, -1, 1), ld(3, 42013, 0), ld(4, 42013), ld(4, 42013, 0), ld(8, 42013), ld(8, 42013, 0), ld(8, -1, 1), ld(9, 42013), ld(9, 42013, 0), ld(9, -1, 1),
  ld(5, 5), ld(5, 4294967291, n=1, m=3), ld(5, 4294967291, n=2, m=1), ld(5, 3, n=0, m=2), ld(5, 3, n=2, m=0), ld(6, 5), ld(6, 2147483647, n=1, m=3), ld(6, 4294967291, n=3, m=1), ld(6, 3, n=0, m=0), ld(5, 3, n=2, m=3), ld(6, 3, n=3, m=2, t="thorough", j=4))
P("C05", *[Ob(nm, "sha.c", "-DOP=%d -DLENS=%s %s" % (op, ls, "-DPIECES=%d" % pc if pc else ""), field="real", src=["src/sha256.c", "src/spasm_util.c"], tier=t, jobs=j, time=tm, witnesses=8, reach=("hashed",), what="SHA-256" + (" from any intermediate state" if op else ""), bound="message lengths %s, every byte symbolic%s" % (ls, ", every cut in %d pieces" % pc if pc else ""))
   for nm, op, ls, pc, t, j, tm in [("lengths", 0, ",".join(map(str, range(0, 140))), 0, "quick", 4, 300), ("two-pieces-small", 0, "1,2,55,56,63,64,65", 2, "quick", 4, 300), ("two-pieces-large", 0, "119,120,128,129", 2, "quick", 4, 300), ("three-pieces", 0, "64,72,128", 3, "quick", 8, 300), ("state", 1, "0,1,55,56,63,64,65", 0, "quick", 2, 300), ("state-pieces", 1, "65,72", 2, "quick", 4, 300), ("all-cuts", 0, ",".join(map(str, range(1, 200))), 2, "thorough", 8, 3000), ("three-pieces-deep", 0, ",".join(map(str, range(60, 140, 3))), 3, "thorough", 8, 3000)]])
P("C06", *[Ob("%s-p%d" % (["bytes", "number"][sd], p), "prng.c", "-DSEEDING=%d -DPP=%dLL" % (sd, p), field="real", src=["src/spasm_prng.c", "src/spasm_ZZp.c", "src/spasm_util.c"], jobs=1, time=200, reach=("drawn",) + (("word rejected",) if p not in (2,) else ()), what="the PRNG as a function of an arbitrary hash",
   bound="p = %d, every digest, seed and sequence number, 0 to 9 words then 2 elements with at most 2 rejections, then the generator is seeded again" % p) for sd in (0, 1) for p in (3, 5, 257, 42013, 65537, 2147483647, 2147483659, 4294967291)],
  *[Ob("later-p%d" % p, "prng.c", "-DSEEDING=0 -DJUMP -DPP=%dLL" % p, field="real", src=["src/spasm_prng.c", "src/spasm_ZZp.c", "src/spasm_util.c"], jobs=1, time=200, reach=("drawn",), what="the PRNG after any number of digests", bound="p = %d, every digest, seed and sequence number, any number of digests drawn before (up to 2^32 - 16), then 0 to 9 words then 2 elements with at most 2 rejections" % p) for p in (3, 257, 42013, 4294967291)],
  *[Ob("deep-p%d" % p, "prng.c", "-DSEEDING=0 -DNDRAW=6 -DMAXREJ=4 -DPP=%dLL" % p, field="real", src=["src/spasm_prng.c", "src/spasm_ZZp.c", "src/spasm_util.c"], jobs=4, time=2000, tier="thorough", reach=("drawn",), what="the PRNG as a function of an arbitrary hash", bound="6 elements, at most 4 rejections") for p in (3, 257, 4294967291)])
def pv(n, m, p=3, r0=0, greedy=1, lt=1, t="quick", j=1, tm=300, reach=(), shape="", nm="", ords=2):
    return Ob("pivots-%dx%d-p%d%s%s%s%s" % (n, m, p, nm, "-r%d" % r0 if r0 else "", "" if greedy else "-nogreedy", "" if lt else "-noL"), "pivots.c", "%s -DPP=%d -DR0=%d -DGREEDY=%d -DLT=%d -DORDS=%d" % (sh_(n, m), p, r0, greedy, lt, ords) + (" '-DSHAPE=\"%s\"'" % shape if shape else ""), jobs=j, time=tm, tier=t, reach=reach,
              what="spasm_pivots_extract_structural", bound="every %dx%d matrix mod %d%s, %d storage orders, %s greedy search, original row numbers or not%s" % (n, m, p, (" below every echelonized %d-row U" % r0 if r0 else "") + (" of shape %s" % shape if shape else ""), ords, "with" if greedy else "without", ", L recorded with or without room" if lt else ", no L"))
P("C09", *[pv(n, m, greedy=g, reach=("no pivot", "some rows left") + (("all rows pivotal",) if n <= m else ())) for n, m in [(2, 2), (2, 3), (3, 2), (3, 3)] for g in (1, 0)], pv(0, 2), pv(2, 0), pv(2, 2, p=7), pv(2, 3, lt=0), pv(3, 2, lt=0), pv(2, 3, r0=1), pv(2, 4, r0=2, lt=0), pv(2, 4, r0=1), pv(3, 3, r0=1), pv(3, 4, j=8), pv(4, 3, j=8), pv(3, 4, r0=1, j=4), pv(4, 4, t="thorough", j=8, tm=3000), pv(4, 4, greedy=0, t="thorough", j=8, tm=3000), pv(3, 5, r0=1, t="thorough", j=8, tm=3000),
  *[pv(n, m, p=p, greedy=g, shape=spshape(n, m, k, f, q), nm="-sp%d" % k, j=2) for n, m, p, k, f, q in [(10, 10, 3, 1, .2, 6), (8, 12, 7, 3, .22, 6), (12, 8, 5, 4, .22, 6)] for g in (1, 0)])
def sc(op, n, m, r0, p=3, t="quick", j=1, tm=300, reach=(), dt=-1, uord=0, models=(), extra="", big=None):
    if big: extra += " '-DUSHAPE=\"%s\"' '-DHSHAPE=\"%s\"'" % big
    return Ob("%s-%dx%d-r%d-p%d%s%s" % (["schur", "dense", "randomized", "estimate"][op], n, m, r0, p, "-d%d" % dt if dt >= 0 else "", "-u%d" % uord if uord else "-big" if big else ""), "schur.c", "-DOP=%d %s -DPP=%d -DR0=%d -DDT=%d -DUORD=%d %s" % (op, sh_(n, m), p, r0, dt, uord, extra), models=models, jobs=j, time=tm, tier=t, reach=reach,
              what=["spasm_schur", "spasm_schur_dense", "spasm_schur_dense_randomized", "spasm_schur_estimate_density, spasm_schur with unknown density"][op], bound="every %dx%d matrix and every echelonized %d-row U mod %d" % (n, m, r0, p) + (" of shapes %s and %s, n - 1 rows selected" % (big[1], big[0]) if big else ", every selection and order of rows") + [", 4 density estimates, with and without L, p_in, p_out", ", 3 number formats, with and without L and p_in", ", 3 number formats, weights 0 to 2, 0 to 2 combinations, any choice of rows", ", any sampled rows"][op])
P("C10", sc(0, 2, 2, 1, reach=("storage had to grow", "enough room", "L filled")), sc(0, 2, 3, 1), sc(0, 2, 3, 2, j=4), sc(0, 1, 3, 2, p=7), sc(0, 2, 2, 0), sc(0, 0, 2, 1), sc(0, 2, 2, 2), sc(0, 3, 2, 1, j=2), sc(0, 1, 4, 2, j=2), sc(0, 1, 4, 3, j=4), sc(0, 2, 3, 1, uord=1, j=2),
  sc(3, 2, 2, 1, models=RAND, extra="-DRANDM=2 -DRANDK=2 -DMODES=1"), sc(3, 2, 3, 2, models=RAND, extra="-DRANDM=2 -DRANDK=1 -DMODES=1"), sc(3, 1, 2, 2, models=RAND), sc(0, 3, 3, 1, j=8, t="thorough", tm=3000), sc(0, 2, 4, 2, j=8, t="thorough", tm=3000), sc(0, 3, 3, 2, j=8, t="thorough", tm=3000), sc(0, 2, 3, 2, uord=2, j=8, t="thorough", tm=3000),
  *[sc(0, n, m, r, p=p, big=(ushape(r, m, k, 0.25, 3, 1 if p == 7 else .5), spshape(n, m, k, 0.25, q, 1 if p == 7 else .5)), j=2) for n, m, r, p, k, q in [(8, 10, 4, 3, 11, 3), (10, 7, 3, 5, 12, 4), (6, 12, 5, 7, 13, 3)]])
def ff(op, n, m, p=3, pad=0, t="quick", j=1, tm=300):
    return Ob("%s-%dx%d-p%d%s" % (["rref", "PLUQ"][op], n, m, p, "-pad" if pad else ""), "ffpack.c", "-DOP=%d %s -DPP=%d -DPAD=%d" % (op, sh_(n, m), p, pad), jobs=j, time=tm, tier=t, reach=("echelonized",), what="spasm_ffpack_" + ["rref", "LU"][op] + " around the contract of FFPACK", bound="every %dx%d matrix mod %d, 3 number formats, leading dimension + %d" % (n, m, p, pad))
P("C11", sc(1, 2, 2, 1), sc(1, 2, 3, 1), sc(1, 2, 3, 2, j=4), sc(1, 1, 3, 2), sc(1, 1, 3, 2, p=7), sc(1, 3, 2, 1, j=2), sc(1, 2, 2, 0), sc(1, 0, 2, 1), sc(1, 2, 2, 2), sc(1, 2, 3, 1, uord=1), sc(2, 2, 2, 1, models=RAND, extra="-DRANDM=2"), sc(2, 2, 3, 1, models=RAND, extra="-DRANDM=2", j=4), sc(2, 1, 3, 2, models=RAND, extra="-DRANDM=1"), sc(2, 2, 2, 0, models=RAND, extra="-DRANDM=2"), sc(2, 2, 2, 2, models=RAND, extra="-DRANDM=2"), sc(2, 3, 2, 1, models=RAND, extra="-DRANDM=6 -DRANDK=2", j=8, t="thorough", tm=3000), sc(1, 3, 3, 1, j=8, t="thorough", tm=3000), sc(1, 2, 4, 2, j=8, t="thorough", tm=3000),
  *[ff(o, *a) for o in (0, 1) for a in [(2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (2, 2, 7), (0, 2), (2, 0), (2, 3, 3, 1)]], ff(0, 3, 3, j=2), ff(1, 3, 3, j=2),
  Ob("choice", "ffpack.c", "-DOP=2", src=["src/spasm_ffpack.cpp"], field="real", reach=("float", "double", "i64"), what="spasm_datatype_choose", bound="every odd modulus up to 2^32"),
  Ob("readwrite", "ffpack.c", "-DOP=3", src=["src/spasm_ffpack.cpp"], field="real", args="--lira", reach=("written",), what="spasm_datatype_read / write", bound="every reduced value, every format"),
  *[sc(1, n, m, r, p=p, big=(ushape(r, m, k, 0.25, 4), spshape(n, m, k, 0.25, q)), j=2) for n, m, r, p, k, q in [(8, 10, 4, 3, 11, 6), (10, 7, 3, 5, 12, 6), (6, 12, 6, 7, 13, 5)]], *[sc(2, n, m, r, p=p, models=RAND, extra="-DRANDM=3 -DRANDK=2", big=(ushape(r, m, k, 0.2, 2, 1 if p == 7 else .5), spshape(n, m, k, 0.2, 2, 1 if p == 7 else .5)), j=2) for n, m, r, p, k, q in [(8, 10, 4, 3, 11, 6), (10, 7, 3, 5, 12, 6), (6, 12, 6, 7, 13, 5)]])
def ech(n, m, p=3, opt="default", extra="", nm="", t="quick", j=1, tm=300, reach=(), rk=2, rm=2, shape=""):
    o = OPT[opt] + extra
    rnd = opt == "lowrank" or "lr" in nm or "abort" in nm
    return Ob("echelonize-%dx%d-p%d%s%s" % (n, m, p, "" if opt == "default" else "-" + opt, "-" + nm if nm else ""), "echelon.c", "%s -DPP=%d" % (sh_(n, m), p) + shp(shape) + (" -DNOOPTS" if nm == "noopts" else "") + (" '-DOPTS=%s'" % o if o else "") + (" -DRANDK=%d -DRANDM=%d" % (rk, rm) if rnd else ""), models=DENS + (RAND if rnd else ()), jobs=j, time=tm, tier=t, reach=reach,
              what="spasm_echelonize", bound="every %dx%d matrix mod %d%s, %s%s, any density estimate%s" % (n, m, p, shptxt(shape), OPTTXT[opt], " and " + extra.replace("o.", "").replace(";", " ") if extra else "", ", the first %d outcomes of rand() arbitrary modulo %d" % (rk, rm) if rnd else ""))
P("C12", *[ech(n, m, opt=o, reach=("full rank", "zero matrix", "rank deficient")) for n, m in [(2, 2), (2, 3), (3, 2), (3, 3)] for o in OPT if not (o == "lowrank" and n * m > 6)],
  ech(3, 3, opt="dense", extra="o.dense_block_size=1;", nm="lr-ratio-b1", j=4), ech(3, 3, opt="dense", extra="o.dense_block_size=2;", nm="lr-ratio-b2", j=2), *[ech(3, 3, opt="dense", extra="o.enable_tall_and_skinny=0;o.dense_block_size=%d;" % b, nm="only-b%d" % b, j=2) for b in (1, 2)], ech(3, 2, opt="dense", extra="o.dense_block_size=1;o.low_rank_ratio=2;", nm="lr-b1", j=2), ech(3, 2, opt="dense", extra="o.dense_block_size=2;o.low_rank_ratio=2;", nm="lr-b2", j=2), ech(3, 3, opt="dense", extra="o.dense_block_size=1;o.low_rank_ratio=2;", nm="lr-b1", j=4),
  ech(2, 2, opt="lowrank", extra="o.dense_block_size=1;o.low_rank_start_weight=1;", nm="w1"), ech(3, 2, opt="lowrank", extra="o.dense_block_size=1;o.low_rank_start_weight=2;", nm="w2"), ech(2, 3, opt="lowrank", extra="o.low_rank_start_weight=0;", nm="w0"),
  ech(0, 2), ech(2, 0), ech(0, 0), ech(0, 2, opt="dense"), ech(2, 0, opt="dense"), ech(2, 0, opt="lowrank"), ech(0, 2, opt="lowrank"), ech(2, 0, opt="gplu"),
  ech(3, 3, opt="default", extra="o.max_round=1;", nm="r1"), ech(3, 3, extra="o.max_round=5;o.min_pivot_proportion=0;o.sparsity_threshold=2;", nm="r5"), ech(3, 3, extra="o.enable_greedy_pivot_search=0;", nm="nogreedy"), ech(3, 3, extra="o.tall_and_skinny_ratio=0;", nm="lr-tall", j=2), ech(4, 1, extra="o.tall_and_skinny_ratio=0;", nm="lr-tall"), ech(3, 3, extra="o.min_pivot_proportion=2;", nm="early"),
  ech(2, 2, p=257), ech(2, 2, p=7, opt="dense"), ech(2, 3, p=5, opt="gplu"), ech(3, 4, j=8), ech(4, 3, j=8), ech(3, 4, opt="rounds", j=8), *[ech(3, 3, p=5, opt=o, shape=D33, nm="full") for o in ("rounds", "onedense", "one", "default", "gplu", "dense")], *[ech(4, 4, p=5, opt=o, shape=D44, nm="full", j=4) for o in ("rounds", "onedense", "one", "default", "gplu", "dense")],
  ech(13, 2, opt="gplu", shape="??" + "00" * 11 + "??", nm="abort", rk=0), ech(14, 3, opt="gplu", shape="1??" + "000" * 11 + "???" * 2, nm="abort", rk=0, j=2), ech(26, 3, opt="gplu", shape="1??" + "000" * 11 + "???" + "000" * 12 + "???", nm="abort", rk=0, j=8, t="thorough", tm=2000), ech(13, 3, opt="gplu", shape="1??" + "0uu" * 12, nm="abort-dep", rk=0, j=2),
  *[ech(6, 6, opt=o, shape="?1000u" "01?000" "u01?00" "000?1u" "?000u1" "00u?01", nm="sparse", j=2) for o in OPT if o != "lowrank"], *[ech(5, 7, p=5, opt=o, shape="u?00100" "0u?0010" "?00u00?" "u10?000" "0?u0001", nm="sparse", j=2) for o in OPT if o != "lowrank"], *[ech(7, 5, opt=o, shape="u?001" "01?00" "?0u0?" "u100?" "00?u1" "1u?00" "0?01u", nm="sparse", j=2) for o in OPT if o != "lowrank"],
  *[ech(10, 10, opt=o, shape=spshape(10, 10, k, 0.2, 8), nm="sp%d" % k, j=2) for o in OPT if o != "lowrank" for k in (1,)], *[ech(8, 12, p=7, opt=o, shape=spshape(8, 12, 3, 0.22, 8), nm="sp3", j=2) for o in OPT if o != "lowrank"], *[ech(12, 8, p=5, opt=o, shape=spshape(12, 8, 4, 0.22, 8), nm="sp4", j=2) for o in OPT if o != "lowrank"],
  ech(2, 3, extra="", nm="noopts"), ech(3, 2, nm="noopts"),
  ech(4, 4, j=8, t="thorough", tm=3000), ech(4, 4, opt="rounds", j=8, t="thorough", tm=3000), ech(4, 4, opt="dense", j=8, t="thorough", tm=3000), ech(4, 4, opt="gplu", j=8, t="thorough", tm=3000))
PRNG = ("env_prng.c",)
def ct(op, n, m, p=3, opt="default", mode=0, rmax=2, t="quick", j=1, tm=300, reach=(), extra=""):
    o = OPT[opt] + extra
    return Ob("%s-%dx%d-p%d%s%s" % (["honest", "arbitrary"][op], n, m, p, "-" + opt if op == 0 and opt != "default" else "", ["", "-positions", "-hash", "-prime", "-negative"][mode] + ("-r%d" % rmax if op else "")), "cert.c", "-DOP=%d %s -DPP=%d -DMODE=%d -DRMAX=%d" % (op, sh_(n, m), p, mode, rmax) + (" '-DOPTS=%s'" % o if o and op == 0 else ""), models=PRNG + (DENS if op == 0 else ()), jobs=j, time=tm, tier=t, reach=reach,
              what=["spasm_certificate_rank_create then _verify", "spasm_certificate_rank_verify on any certificate"][op], bound="every %dx%d matrix mod %d, " % (n, m, p) + ("any challenge, %s" % OPTTXT[opt] if op == 0 else "rank 0 to %d, any response values and challenge, %s" % (rmax, ["positions in range, repeated ones included", "any 32-bit positions", "any hash in the certificate", "any prime in the certificate", "any negative rank"][mode])))
P("C17", *[ct(0, n, m, opt=o, reach=("full rank", "rank deficient")) for n, m in [(2, 2), (2, 3), (3, 2)] for o in OPT if o != "lowrank"], ct(0, 3, 3, j=4), ct(0, 3, 3, opt="gplu", j=4), ct(0, 3, 3, opt="dense", j=4), ct(0, 2, 2, p=7), ct(0, 0, 2), ct(0, 2, 0), ct(0, 1, 3), ct(0, 3, 1),
  ct(1, 2, 2, reach=("accepted", "refused")), ct(1, 2, 2, p=7), ct(1, 3, 2, j=4), ct(1, 2, 3, j=4), ct(1, 1, 1, rmax=2), ct(1, 2, 2, mode=1, reach=("accepted", "refused")), ct(1, 1, 2, mode=1, rmax=1), ct(1, 2, 2, mode=2, reach=("accepted", "refused")), ct(1, 2, 2, mode=3, reach=("refused",)), ct(1, 2, 2, mode=4, reach=("refused",)), ct(1, 0, 2, rmax=0), ct(1, 0, 0, rmax=0, mode=4), ct(1, 2, 0, rmax=0), ct(1, 3, 3, t="thorough", j=8, tm=3000, rmax=3), ct(1, 2, 2, rmax=3, j=4))
def ci(op, r, t="quick", **k):
    return Ob("%s-r%d" % (["roundtrip", "cut", "letter"][op], r), "certio.c", "-DOP=%d -DRR=%d" % (op, r), models=IO, field="real", tier=t, what=["spasm_rank_certificate_save then _load", "loading a certificate cut anywhere", "loading a certificate with a letter in place of a number"][op], bound="rank %d, 4 primes, %s" % (r, "every 32-bit position and value" if op == 0 else "every place"), **k)
TOOLS = ["rank", "kernel", "solve", "echelonize", "dm", "stack", "transpose", "vertical_swap", "check_cert"]
def tl(t_, n, m, p=3, args=(), defs="", nm="", t="quick", j=1, tm=300, reach=(), models=()):
    if TOOLS[t_] in ("rank", "kernel", "solve", "check_cert"):
        args = ("-p", str(p)) + tuple(args)
    elif TOOLS[t_] == "echelonize":
        args = ("--modulus", str(p)) + tuple(args)
    a = "".join('"%s",' % x for x in args)
    cm = ("tools/common.c",) if TOOLS[t_] in ("rank", "kernel", "solve", "check_cert", "echelonize") else ()
    mod = IO + tuple(models) + (PRNG if t_ in (0, 8) else ()) + (DENS if t_ in (0, 1, 2, 3, 8) else ())
    return Ob("%s-%dx%d-p%d%s" % (TOOLS[t_], n, m, p, "-" + nm if nm else ""), "tool.c", "-DTOOL=%d %s -DPP=%d '-DARGS=%s' %s" % (t_, sh_(n, m), p, a, defs), models=mod, tools=("tools/%s.c" % TOOLS[t_],) + cm, jobs=j, time=tm, tier=t, reach=reach,
              what="the program %s %s" % (TOOLS[t_], " ".join(args)), bound="every %dx%d input matrix mod %d, entries of the file in 2 orders" % (n, m, p))
P("C18", *[ci(0, r, reach=("loaded",)) for r in (0, 1, 2, 3)], *[ci(o, r, reach=("loaded", "refused") if o == 1 else ("refused",)) for o in (1, 2) for r in (0, 1, 3)],
  tl(8, 2, 2, args=("-c", "cert"), reach=("correct", "incorrect")), tl(8, 1, 2, args=("-c", "cert"), reach=("correct", "incorrect")), tl(8, 1, 2, args=("-t", "--certificate", "cert"), defs="-DNOTRANS=1", nm="notrans", reach=("correct", "incorrect")), tl(8, 2, 1, args=("--certificate=cert", "-m", "A.sms"), defs="-DFROMFILE", nm="file"), tl(8, 2, 3, args=("-c", "cert"), defs="-DRC=1", j=8), tl(8, 3, 2, args=("-c", "cert"), defs="-DRC=1", j=4, nm="tall", t="thorough"), tl(8, 2, 3, args=("-c", "cert"), j=8, nm="deep", t="thorough", tm=4000))
P("C25", *[tl(0, n, m, reach=("full rank", "rank deficient") if n * m > 3 else ()) for n, m in [(2, 2), (2, 3), (3, 2), (1, 3)]], tl(0, 2, 2, args=("-c", "-o", "cert"), defs="-DCERT=1", nm="cert"), tl(0, 2, 3, args=("-c", "-o", "cert"), defs="-DCERT=1", nm="cert", j=4), tl(0, 2, 3, args=("-t", "--certificate", "--output=cert", "-m", "A.sms"), defs="-DCERT=1 -DNOTRANS=1 -DFROMFILE", nm="cert-notrans", j=4), tl(0, 2, 3, args=("--no-low-rank-mode", "--no-GPLU", "--max-iterations", "0", "--dense-threshold", "-1", "--dense-block-size", "1"), nm="dense"), tl(0, 2, 3, args=("--no-dense-mode", "--max-iterations=0", "--no-low-rank-mode"), nm="gplu"),
  *[tl(1, n, m, args=a, defs=d, nm=nm) for n, m in [(2, 2), (2, 3), (3, 2)] for a, d, nm in [((), "", ""), (("-l",), "-DLEFT=1", "left"), (("--left", "-o", "ker.sms", "-m", "A.sms"), "'-DOUT=\"ker.sms\"' -DLEFT=1 -DFROMFILE", "file")]],
  *[tl(2, n, m, args=a, defs=d, nm=nm, j=2) for n, m in [(2, 2), (2, 3), (3, 2)] for a, d, nm in [(("-r", "B.sms"), "", ""), (("-m", "A.sms", "--output", "X.sms"), "-DFROMFILE '-DOUT=\"X.sms\"'", "file")]],
  *[tl(3, n, m, args=a, defs=d, nm=nm) for n, m in [(2, 2), (2, 3), (3, 2)] for a, d, nm in [((), "", ""), (("--rref",), "-DRREF=1", "rref"), (("--no-greedy-pivot-search", "--no-low-rank-mode", "--dense-block-size=1", "--sparsity-threshold", "-1"), "", "dense")]], tl(3, 3, 3, args=("--rref",), defs="-DRREF=1", nm="rref", j=2),
  *[tl(4, n, m, p=42013, args=a, defs=d, nm=nm) for n, m in [(2, 2), (2, 3), (3, 2), (3, 3)] for a, d, nm in [((), "", ""), (("--verbose",), "-DVERB=1", "verbose")]], *[tl(o, n, m, p=42013) for o in (5, 6, 7) for n, m in [(2, 2), (2, 3), (3, 2), (1, 4), (3, 3)]])
def pn(op, n, m, args=(), defs="", nm="", t="quick", j=1, tm=300, reach=()):
    a = "".join('"%s",' % x for x in args)
    return Ob("%s-%dx%d%s" % (["gray", "color", "bitmap", "dm-image", "large"][op], n, m, "-" + nm if nm else ""), "pnm.c", "-DOP=%d %s -DPP=42013 '-DARGS=%s' %s" % (op, sh_(n, m), a, defs), models=IO, tools=(("tools/bitmap.c",), ("tools/dm.c",))[op - 2] if op in (2, 3) else (), jobs=j, time=tm, tier=t, reach=reach, args="--max-steps 200000000" if op == 4 else "",
              what=["spasm_save_pnm, black and white and gray", "spasm_save_pnm, colors of a Dulmage-Mendelsohn decomposition", "the program bitmap " + " ".join(args), "the program dm --image", "spasm_save_pnm, positions times sizes beyond 31 bits"][op], bound="one entry near the end of a %dx%d matrix" % (n, m) if op == 4 else "every %dx%d pattern" % (n, m) + (", every width up to %d and height up to %d" % (m + 1, n + 1) if op < 2 else ""))
P("C26", *[pn(0, n, m, j=j) for n, m, j in [(1, 1, 1), (2, 2, 1), (2, 3, 2), (3, 2, 2), (3, 3, 4), (1, 5, 1), (5, 1, 1), (0, 2, 1), (2, 0, 1)]], *[pn(1, n, m, j=j) for n, m, j in [(1, 1, 1), (2, 2, 1), (2, 3, 2), (3, 2, 2), (3, 3, 4)]],
  *[pn(2, n, m, args=a, defs=d, nm=nm) for n, m in [(2, 3), (3, 2), (3, 3), (2, 4)] for a, d, nm in [((), "", ""), (("--gray",), "-DGRAY=1", "gray"), (("--width=2",), "-DWANTW=2", "w2"), (("--height", "2"), "-DWANTH=2", "h2"), (("--height=1", "--gray"), "-DWANTH=1 -DGRAY=1", "h1"), (("--width=2", "--height=1"), "-DWANTW=2 -DWANTH=1", "w2h1")]],
  *[pn(3, n, m, args=("--image", "1"), reach=("image",)) for n, m in [(2, 2), (2, 3), (3, 2), (3, 3)]],
  *[pn(4, n, m, defs="-DMODE=%d -DCAP=800000" % k, nm="mode%d" % k, reach=("shown",)) for n, m in [(1, 50000), (50000, 1)] for k in (1, 3)])
def om(op, n, m, opt="default", j=1, tm=300, t="quick", extra="", nm="", reach=("reported", "no failure"), shape=""):
    o = OPT[opt] + extra
    return Ob("%s-%dx%d%s%s" % (["build", "files", "echelonize", "solve", "kernel", "certificate", "dm", "helpers"][op], n, m, "" if opt == "default" else "-" + opt, "-" + nm if nm else ""), "oom.c", "-DOP=%d %s -DPP=3 -DRANDM=2 -DRANDK=%d" % (op, sh_(n, m), 1 if op == 2 else 0) + shp(shape) + (" '-DOPTS=%s'" % o if o else ""), models=(IO if op in (1, 5) else ()) + RAND + (PRNG if op == 5 else ()) + (DENS if op in (3, 4, 5) else ()), jobs=j, time=tm, tier=t, reach=reach, field="real" if op == 1 else "stub",
              what=["triplets, compress, transpose, submatrix, resize", "loading, saving, images", "spasm_echelonize and spasm_factorization_verify, " + OPTTXT[opt], "spasm_solve, spasm_gesv", "spasm_kernel, spasm_rref, spasm_kernel_from_rref", "rank certificates: create, verify, save, load", "Dulmage-Mendelsohn decomposition, strongly connected components", "permutations and matchings"][op], bound="every %dx%d matrix mod 3%s; no failure, or failure of any one allocation" % (n, m, shptxt(shape)))
P("C27", om(0, 2, 2), om(0, 2, 3), om(1, 2, 3), *[om(2, n, m, opt=o) for n, m in [(2, 2), (2, 3), (3, 2)] for o in OPT], *[om(k, n, m) for k in (3, 4, 5) for n, m in [(2, 2), (2, 3), (3, 2)]], om(6, 2, 2), om(6, 2, 3), om(6, 3, 3), om(7, 2, 2), om(7, 2, 3))
def pu(op, n, m, p=3, opt="default", j=1, tm=300, t="quick", extra="", nm=""):
    o = OPT[opt] + extra
    return Ob("%s-%dx%d-p%d%s%s" % (["transform", "graph", "echelonize", "solve", "kernel", "certificate", "product"][op], n, m, p, "" if opt == "default" else "-" + opt, "-" + nm if nm else ""), "pure.c", "-DOP=%d %s -DPP=%d -DDENSK=0" % (op, sh_(n, m), p) + (" '-DOPTS=%s'" % o if o else ""), models=(PRNG if op == 5 else ()) + DENS, jobs=j, time=tm, tier=t, reach=("same",),
              what=["transpose, permute, submatrix, compress, pinv", "matching, Dulmage-Mendelsohn, strongly connected components", "spasm_echelonize, " + OPTTXT[opt], "spasm_solve, spasm_gesv", "spasm_kernel, spasm_rref, spasm_kernel_from_rref", "rank certificates and verifiers", "xApy, Axpy"][op] + ", called twice", bound="every %dx%d matrix mod %d" % (n, m, p))
P("C28", *[pu(k, n, m, j=2 if k == 0 else 1) for k in (0, 1, 3, 4, 5, 6) for n, m in [(2, 2), (2, 3), (3, 2)]], *[pu(2, n, m, opt=o, extra=x, nm=x and "complete") for n, m in [(2, 2), (2, 3), (3, 2)] for o in OPT if o != "lowrank" for x in ("", "o.complete=1;")], *[pu(k, 3, 3, j=4, t="thorough", tm=2000) for k in (1, 2, 3, 4, 5)], pu(3, 2, 2, p=7), pu(4, 2, 2, p=7))
import copy
def par(o, preempt=1, threads=2, t=None, j=None, tm=None, native=False, args="", **k):
    """the same obligation under every schedule of `threads` threads"""
    c = copy.copy(o)
    c.name = "%s-t%d-k%d" % (o.name, threads, preempt)
    c.threads, c.preempt, c.native = threads, preempt, native
    if args: c.args = (o.args + " " + args).strip()
    if t: c.tier = t
    if j: c.jobs = j
    if tm: c.time = tm
    c.bound = o.bound + "; %d threads, every interleaving with at most %d preemption%s" % (threads, preempt, "s" if preempt > 1 else "")
    return c
P("C22",
  *[par(lin(op, n, m, fact=1), k) for op in (3, 4) for n, m, k in [(1, 3, 2), (2, 3, 2), (1, 3, 3), (1, 4, 1), (2, 4, 1)]], par(lin(3, 1, 4, fact=1), 2, j=2), par(lin(4, 2, 3, fact=1), 3, j=2), par(lin(3, 1, 3, fact=1), 1, 3), par(lin(4, 2, 3, fact=1), 1, 3), par(lin(2, 2, 2, fact=1), 2, j=2), par(lin(2, 1, 2, fact=1, nb=2), 3, j=2),
  par(sc(0, 2, 2, 1, extra="-DMODES=8"), 1, j=4), par(sc(0, 2, 2, 1, extra="-DMODES=2"), 2, j=4), par(sc(0, 2, 3, 1, extra="-DMODES=2"), 1, j=4), par(sc(0, 3, 2, 1, extra="-DMODES=1"), 1, j=4), par(sc(0, 2, 2, 1, extra="-DMODES=1"), 1, 3, j=4),
  par(sc(0, 2, 1, 0, extra="-DMODES=4"), 3), par(sc(0, 3, 1, 0, extra="-DMODES=1"), 2, j=2), par(sc(0, 2, 1, 0, extra="-DMODES=4"), 2, 3, j=2), par(sc(0, 3, 1, 1, extra="-DMODES=1"), 2, j=4), par(sc(0, 2, 2, 0, extra="-DMODES=1"), 2, j=4),
  par(sc(1, 2, 2, 1, extra="-DMODES=8"), 1, j=2), par(sc(1, 2, 3, 1, extra="-DMODES=3"), 1, j=2), par(sc(1, 2, 2, 1, extra="-DMODES=2"), 2, j=4),
  par(sc(2, 2, 2, 1, models=RAND, extra="-DRANDM=2"), 1, j=2),
  *[par(pv(n, m), k, j=j) for n, m, k, j in [(2, 2, 2, 1), (2, 3, 2, 2), (3, 2, 2, 4), (3, 3, 1, 8)]], par(pv(2, 2, greedy=0), 2), par(pv(2, 3), 1, 3, j=2), par(pv(2, 3, r0=1), 1), par(pv(4, 4, nm="-clash", shape="1011"+"0100"+"0???"+"0???"), 1), par(pv(5, 5, nm="-hit", shape="10000"+"01010"+"00111"+"1????"+"?1???", ords=1), 1, j=2),
  *[par(lin(op, n, m, p=p, fact=1, us=ushape(n, m, k, f, q), nm="sp%d" % k), pre, th, j=2) for op in (3, 4) for n, m, p, k, f, q, pre, th in [(4, 6, 3, 31, .3, 2, 1, 2), (3, 8, 5, 32, .4, 2, 2, 2), (3, 5, 3, 33, .4, 1, 1, 3)]],
  *[par(sc(0, n, m, r, p=p, extra="-DMODES=%d" % mo, big=(ushape(r, m, k, 0.25, 1, 1), spshape(n, m, k, 0.3, 2, 1))), pre, th, j=2) for n, m, r, p, k, mo, pre, th in [(5, 6, 2, 3, 34, 4, 1, 2), (3, 5, 2, 5, 35, 2, 2, 2), (4, 4, 1, 3, 36, 1, 1, 3)]],
  *[par(pv(n, m, p=p, shape=spshape(n, m, k, f, q), nm="-sp%d" % k, ords=1), pre, th, j=2) for n, m, p, k, f, q, pre, th in [(7, 7, 3, 37, .3, 4, 1, 2), (6, 6, 3, 38, .35, 2, 2, 2), (6, 6, 3, 39, .35, 2, 1, 3)]],
  par(ech(2, 2), 1), par(ech(2, 3), 1, j=2), par(ech(2, 2, opt="gplu"), 1), par(ech(2, 2, opt="dense"), 1))
def off(o, k=2, args="", nm="", **kw):
    """the same obligation with the entries of the input matrices beyond offset 2^31 of their arrays"""
    c = copy.copy(o)
    c.name, c.defs, c.native = o.name + "-far" + nm, o.defs + " -DHX_OFF=%d" % k, True
    c.bound = o.bound + "; entries starting at offset " + ", ".join(["2^31-2", "2^31", "2^31-1", "2^31+2"][:k])
    c.san, c.kinds, c.witnesses = "undefined", ("out-of-bounds", "signed-overflow", "wild-pointer", "witness"), 0
    c.__dict__.update(kw)
    return c
def byname(pid, *names):
    return [[o for o in OBS[pid] if o.name == n][0] for n in names]
P("C23", *[off(o, witnesses=2) for o in byname("C07", "spmv-2x2-p5", "spmv-2x3-p3", "spmv-3x2-p257", "spmv-1x4-p65537", "spmv-4x1-p4294967291")], *[off(o, 4, nm="4") for o in byname("C07", "spmv-2x2-p5")],
  *[off(o) for o in byname("C03", "transpose-2x3", "transpose-3x2", "transpose-1x4", "permute-2x3", "permute-3x2", "permute-1x4", "submatrix-2x3", "submatrix-3x2", "submatrix-1x4")],
  *[off(o, witnesses=1) for o in byname("C08", "back-2x2-p5", "back-3x2-p5", "forward-2x2-p5", "forward-2x3-p5", "sparse-1x2-p5", "sparse-2x2-p5", "sparse-2x3-p3")],
  *[off(o) for o in byname("C19", "matching-2x2", "matching-2x3", "matching-3x2", "helpers-2x2")], *[off(o) for o in byname("C20", "dm-2x2", "dm-2x3", "dm-3x2")], *[off(o) for o in byname("C21", "scc-2x2", "scc-3x3")],
  *[off(lin(op, n, m, fact=1)) for op in (3, 4) for n, m in [(1, 3), (2, 3)]], off(lin(1, 2, 3, fact=1)), off(lin(2, 1, 2, fact=1)), off(lin(2, 2, 2, fact=1)),
  off(pv(2, 2)), off(pv(2, 3)), off(pv(2, 3, r0=1)), off(sc(0, 2, 2, 1)), off(sc(0, 2, 3, 1)), off(sc(1, 2, 2, 1)), off(sc(1, 2, 3, 1)), off(sc(2, 2, 2, 1, models=RAND, extra="-DRANDM=2")), off(sc(3, 2, 2, 1, models=RAND, extra="-DRANDM=2 -DRANDK=2 -DMODES=1")),
  off(ct(1, 2, 2)), Ob("add-entry", "far.c", "-DPP=5", what="spasm_add_entry, spasm_triplet_transpose", bound="3 entries starting at offset 2^31-3 to 2^31, with and without growth", reach=("added",), san="undefined"))
# C24: the memory and arithmetic faults of every operation, and what is left allocated
MEM = ("out-of-bounds", "use-after-free", "uninitialised", "bad-free", "bad-allocation", "null-dereference", "wild-pointer", "signed-overflow", "float-cast", "division-by-zero", "shift", "write-to-constant", "bad-call", "recursion", "trap", "unreachable", "non-termination",
       "assertion:released", "assertion:allocation", "assertion:past the end", "assertion:room", "assertion:nzmax", "witness")
def mem(pid, o, nm=""):
    c = copy.copy(o)
    c.name, c.kinds, c.witnesses, c.reach = pid + "-" + o.name + nm, MEM, int(pid in ("C02", "C07", "C13")), ()
    return c
P("C24", Ob("human", "human.c", "", src=["src/spasm_util.c"], what="spasm_human_format", bound="every 64-bit integer", reach=("formatted",)), *[mem(p, o) for p in ["C%02d" % k for k in range(2, 22)] if p not in ("C05", "C06") for o in OBS[p] if o.tier == "quick" and o.jobs == 1])
