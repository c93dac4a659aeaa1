"""Per-property job tables: which harness, which field/configuration, which presets."""
import re
def fld(t, p, *more): return "-DFIELD=Givaro::%s -DPRIME=%d %s" % (t, p, " ".join(more))
D, FL, BD, BF, I64, I32, BI32, BI64 = "Modular<double>", "Modular<float>", "ModularBalanced<double>", "ModularBalanced<float>", "Modular<int64_t>", "Modular<int32_t>", "ModularBalanced<int32_t>", "ModularBalanced<int64_t>"
ASSUME = ["BLAS routines are replaced by a reference model (inc/blas_model.c) with the accumulation order of plain loops; every floating-point step is checked to be exact, so any other order gives the same result unless an inexactness is reported",
  "malloc/new never fail; Givaro element operations are executed from their real headers; Givaro library functions (libgivaro) are executed natively on concrete data",
  "single-threaded execution of OpenMP regions unless stated",
  "clang's translation of the templates at -O1 stands for the compiled library; scalar code paths are those of -march=haswell with auto-vectorisation off, explicit SIMD intrinsics are interpreted lane by lane"]
OUTSIDE = "matrices larger than the stated sizes, primes other than those listed, inputs that are not reduced field elements, aliasing operands where the interface does not document it, allocation failure"
def j(h, defs, t="q", time=60, **kw):
    st = dict(kw.pop("set", {})); mo = re.search(r" -DPRIME=(\d+)", defs)
    if mo: st["prime"] = int(mo.group(1)); defs = defs.replace(mo.group(0), "")   # the modulus is a run-time choice: one bitcode file per element type
    d = dict(h=h, defs=" ".join(defs.split()), tier=t, time=time, set=st); d.update(kw); return d
def S(**k): return k
PROPS = {}
# ---------------------------------------------------------------- P01 matrix product
W = "-D__FFLASFFPACK_WINOTHRESHOLD=2 -D__FFLASFFPACK_WINOTHRESHOLD_FLT=2 -D__FFLASFFPACK_WINOTHRESHOLD_BAL=2 -D__FFLASFFPACK_WINOTHRESHOLD_BAL_FLT=2"
g = lambda f, t="q", time=60, big=False, win=False, **s: j("fgemm", f + (" -DBIGP" if big else "") + (" " + W if win else "") + " -DMAXD=40", t, time, set=s)
jl = []
for ty, p in ((D, 101), (FL, 101), (I64, 101), (D, 2), (BD, 101)):
    for (m, n, k) in ((2, 2, 3), (1, 3, 2), (3, 1, 1), (2, 2, 0), (0, 2, 2)): jl.append(g(fld(ty, p), m=m, n=n, k=k))
for ty, p in ((D, 94906249), (BD, 94906249), (BD, 67108859), (I64, 2147483647), (BI64, 2147483647), (BF, 5791), (FL, 2039), (BI32, 65521), (I32, 46337)): jl.append(g(fld(ty, p), m=2, n=2, k=3, big=True))
for ty, p in ((D, 33554393), (FL, 1009), (BD, 33554393), (I64, 1073741789)):
    for k in (8, 9, 16, 17): jl.append(g(fld(ty, p), m=1, n=1, k=k, big=True))
for ty, p in ((D, 101), (FL, 101), (BD, 101), (I64, 101), (D, 94906249), (BD, 94906249)):
    for (m, n, k) in ((4, 4, 4), (5, 3, 4), (4, 5, 5)): jl.append(g(fld(ty, p), win=True, big=True, m=m, n=n, k=k))
for ty, p in ((D, 101), (FL, 101), (BD, 101), (D, 94906249)):
    for (m, n, k) in ((7, 6, 5), (8, 8, 8), (6, 9, 7)): jl.append(g(fld(ty, p), "t", 200, win=True, big=True, m=m, n=n, k=k))
# primes on each side of the delayed-reduction limit of an inner dimension k (products k*M^2 plus a beta*C term against the largest exact value X)
def _prime(n): return n > 1 and all(n % i for i in range(2, int(n ** .5) + 1))
def edge(X, bal, k, b):
    M = int((X // k) ** .5) + 3
    while k * M * M + (b if b >= 0 else M) * M > X: M -= 1   # largest M that fits
    P_ = (lambda M: 2 * M + 1) if bal else (lambda M: M + 1)
    lo = M
    while not _prime(P_(lo)): lo -= 1
    hi = M + 1
    while not _prime(P_(hi)): hi += 1
    return P_(lo), P_(hi)
for ty, X, bal, ks in ((FL, 2 ** 24, 0, (4, 7, 13)), (BF, 2 ** 24, 1, (5, 8, 13)), (D, 2 ** 53, 0, (4, 7, 12)), (BD, 2 ** 53, 1, (5, 8, 26))):
    for k in ks:
        for b, be in ((0, 0), (1, 1), (1, 2), (-1, 5)):
            for p in sorted(set(edge(X, bal, k, b) + ((2273,) if (ty, k) == (BF, 13) else (37225301,) if (ty, k) == (BD, 26) else ()))):
                if p < (94906249 if X > 2 ** 30 else 2048 if ty == FL else 5791): jl.append(g(fld(ty, p), m=1, n=1, k=k, beta=be, alpha=(1, 2, 4)[(k + be) % 3], ta=0, tb=0, big=True))
PROPS["P01"] = dict(bounds="all transposition flags, alpha and beta in {0, 1, -1, symbolic} (for the largest primes {0, 1, -1, 2, (p-1)/2}), every entry symbolic over the whole field; m,n,k up to 3 classic and up to 5 with two levels of Winograd recursion (threshold lowered to 2), dot products up to length 17 for primes at the delayed-reduction limit; thorough: up to 8x8x8 and 6x9x7", outside=OUTSIDE + "; Winograd recursion over ModularBalanced<int32_t>; the default Winograd threshold (sizes in the thousands)", jobs=jl, quick_s=95)
# ---------------------------------------------------------------- P02 PLUQ / LUdivine
jl = []; PT = "-D__FFLASFFPACK_PLUQ_THRESHOLD=2 -D__FFLASFFPACK_LUDIVINE_THRESHOLD=1"
for ty, p in ((D, 101), (D, 2), (I64, 101), (FL, 101), (D, 94906249)):
    for (m, n) in ((2, 3), (3, 2), (3, 3), (1, 3), (3, 1), (0, 2), (2, 0)):
        if p == 94906249 and (m, n) not in ((2, 3), (3, 2)): continue
        jl.append(j("pluq", fld(ty, p) + " -DMAXD=4", time=90, set=S(m=m, n=n, thr=2)))
    jl.append(j("pluq", fld(ty, p) + " -DMAXD=4", set=S(m=2, n=2)))
for (m, n) in ((3, 4), (4, 3), (4, 4)): jl.append(j("pluq", fld(D, 101) + " -DMAXD=4", "t", 300, set=S(m=m, n=n, thr=2)))
for ty, p in ((D, 101), (I64, 101), (D, 2)):
    for (m, n) in ((2, 3), (3, 2), (2, 2), (1, 2), (2, 0)):
        for cut in (1, 2, 4): jl.append(j("lud", fld(ty, p) + " -DMAXD=4", set=S(m=m, n=n, cut=cut)))
for (m, n) in ((3, 3), (3, 4), (4, 3)):
    for cut in (1, 2, 4): jl.append(j("lud", fld(D, 101) + " -DMAXD=4", "t", 300, set=S(m=m, n=n, cut=cut)))
PROPS["P02"] = dict(bounds="all matrices up to 3x3 (LUdivine 2x3/3x2) over GF(2), GF(101) and GF(94906249), entries fully symbolic, every rank and pivoting pattern, both diagonal conventions, base-case thresholds lowered so that the block recursion runs; thorough: up to 4x4", outside=OUTSIDE, jobs=jl, quick_s=100)
# ---------------------------------------------------------------- P03 echelon forms
jl = []; EC = PT + " -D__FFLASFFPACK_GAUSSJORDAN_BASECASE=1"
for ty, p in ((D, 101), (I64, 101), (D, 2), (BD, 101)):
    for (m, n) in ((2, 3), (3, 2), (2, 2), (1, 2), (0, 2), (2, 0)): jl.append(j("ech", fld(ty, p) + " -DMAXD=4 " + EC, "t" if ty == BD and m + n == 5 else "q", time=60, set=S(m=m, n=n)))
for op in range(4): jl.append(j("ech", fld(D, 101) + " -DMAXD=4 " + EC, time=90, set=S(m=3, n=3, op=op)))
for (m, n) in ((3, 4), (4, 3)):
    for op in range(4): jl.append(j("ech", fld(D, 101) + " -DMAXD=4 " + EC, "t", 300, set=S(m=m, n=n, op=op)))
PROPS["P03"] = dict(bounds="all matrices up to 3x3 over GF(101) and up to 2x3/3x2 over GF(2), GF(101) with double, balanced double and int64 elements; every algorithm tag, with and without transformation; thorough: up to 3x4 and 4x3", outside=OUTSIDE, jobs=jl, quick_s=105)
# ---------------------------------------------------------------- P04 rank, det, solve, inverse, nullspace
jl = []
for op in range(11):
    for m in (2, 3): jl.append(j("sol", fld(D, 101) + " -DMAXD=4 -DMAXK=1 " + EC, time=80, set=S(op=op, m=m)))
    for ty, p in ((I64, 101), (D, 2), (FL, 101)): jl.append(j("sol", fld(ty, p) + " -DMAXD=4 -DMAXK=2 " + EC, time=80, set=S(op=op, m=2)))
    jl.append(j("sol", fld(D, 101) + " -DMAXD=4 -DMAXK=2 " + EC, "t", 200, set=S(op=op, m=3)))
PROPS["P04"] = dict(bounds="all systems with matrices up to 3x3 over GF(101) and up to dimension 2 x (up to 4) over GF(2), GF(101) with float and int64 elements; up to 2 right-hand sides; singular and inconsistent cases included", outside=OUTSIDE, jobs=jl, quick_s=100)
# ---------------------------------------------------------------- P05 rank profiles
jl = []
for ty, p in ((D, 101), (I64, 101), (D, 2)):
    for (m, n) in ((2, 3), (3, 2), (3, 3), (1, 3), (3, 1), (0, 2), (2, 0)): jl.append(j("rp", fld(ty, p) + " -DMAXD=4 " + EC, time=90, set=S(m=m, n=n)))
for (m, n) in ((3, 4), (4, 3)): jl.append(j("rp", fld(D, 101) + " -DMAXD=4 " + EC, "t", 300, set=S(m=m, n=n)))
PROPS["P05"] = dict(bounds="all matrices up to 3x3 over GF(2) and GF(101), every rank and rank profile; thorough: up to 3x4 and 4x3", outside=OUTSIDE, jobs=jl, quick_s=90)
# ---------------------------------------------------------------- P06 triangular
jl = []
TR = "-DALLO=1 -DMAXD=3 -D__FFLASFFPACK_FTRTRI_THRESHOLD=1 -D__FFLASFFPACK_FTRSTR_THRESHOLD=1 -D__FFLASFFPACK_FTRSSYR2K_THRESHOLD=1"
for op in range(10):
    for ty, p in ((D, 101), (D, 67108859), (I64, 101), (D, 2), (FL, 101)):
        if op == 8 and p == 2: continue
        jl.append(j("tri", fld(ty, p) + " " + (TR if (ty, p) == (D, 101) else TR.replace("MAXD=3", "MAXD=2")), time=90, set=S(op=op)))
        if (ty, p) != (D, 101): jl.append(j("tri", fld(ty, p) + " " + TR, "t", time=90, set=S(op=op)))
PROPS["P06"] = dict(bounds="all sides, triangles, transpositions, unit/non-unit diagonals; triangles up to 3x3, every entry symbolic over GF(2), GF(101), GF(67108859)", outside=OUTSIDE + "; non-invertible triangular coefficient matrices in solves", jobs=jl, quick_s=100)
# ---------------------------------------------------------------- P07 level 1/2
jl = []
for op in range(36):
    jl.append(j("vec", fld(D, 101) + (" -DMAXD=9 -DMAXM=2" if op not in (4, 34) else " -DMAXD=3 -DMAXM=2"), time=60, set=S(op=op)))
    if op in (4, 34): jl += [j("vec", fld(D, 101) + " -DMAXD=9 -DMAXM=2", time=60, set=S(op=op, n=9, beta=b)) for b in (0, 2)]
    jl.append(j("vec", fld(I64, 101) + " -DMAXD=%d -DMAXM=2" % (3 if op in (4, 34) else 5), time=60, set=S(op=op)))
    jl.append(j("vec", fld(FL, 101) + " -DMAXD=9 -DMAXM=2", "t", time=60, set=S(op=op)))
    jl.append(j("vec", fld(D, 94906249) + " -DMAXD=5 -DMAXM=2", "t", time=60, set=S(op=op)))
for op in range(16):
    jl.append(j("vec", fld(D, 101) + " -DMAXD=35 -DMAXM=1", time=60, set=S(op=op, n=35, off=1)))
    jl.append(j("vec", fld(FL, 101) + " -DMAXD=35 -DMAXM=1", time=60, set=S(op=op, n=33, off=0)))
PROPS["P07"] = dict(bounds="vectors up to length 9 (past one SIMD width and its remainder), strides 1 and larger, matrices up to 2 rows, every entry symbolic", outside=OUTSIDE, jobs=jl, quick_s=90)
# ---------------------------------------------------------------- P08 symmetric
jl = []
for ty, p in ((D, 101), (I64, 101), (D, 2), (FL, 101)):
    for op in (0, 1):
        for n in (0, 1, 2, 3): jl.append(j("sym", fld(ty, p) + " -DMAXD=3 -DMAXK=2", set=S(op=op, n=n)))
    for op in (2, 3):
        for al in (1, 2):
            for thr in (1, 2):
                for (n, k) in ((2, 2), (3, 2), (2, 3), (3, 1)):
                    if op == 3 and k < 2: continue
                    jl.append(j("sym", fld(ty, p) + " -DMAXD=3 -DMAXK=3", set=S(op=op, n=n, k=k, alpha=al, beta=al, thr=thr, incd=1 + (n + k) % 2)))
    for op in (4, 5, 6):
        if op == 6 and p == 2: continue
        for n in (1, 2, 3): jl.append(j("sym", fld(ty, p) + " -DMAXD=3 -DMAXK=3", set=S(op=op, n=n)))
for n in (4,):
    for op in (4, 5, 6):
        for thr in (1, 2, 3): jl.append(j("sym", fld(D, 101) + " -DMAXD=4 -DMAXK=3", "t", 300, set=S(op=op, n=n, thr=thr)))
PROPS["P08"] = dict(bounds="symmetric updates with n up to 3, k up to 3, both triangles, both transpositions; all symmetric matrices up to 3x3 for the factorizations (including rank-deficient and zero leading minors for the rank-profile-revealing one); thorough: 4x4", outside=OUTSIDE + "; characteristic 2 for the rank-profile-revealing symmetric factorization", jobs=jl, quick_s=110)

# ---------------------------------------------------------------- mixed families: larger matrices, a few symbolic entries in one row or column, the rest concrete
def MX(k, nf): return " -DMIX=%d -DMIXN=%d" % (k, nf)
def add(P, *a, **k): PROPS[P]["jobs"].append(j(*a, **k))
for ty, p in ((D, 5), (D, 2), (I64, 3), (BD, 7)):
    for (m, n) in ((5, 7), (7, 5), (8, 8), (3, 11), (11, 4)):
        for thr in (1, 3): add("P02", "pluq", fld(ty, p) + " -DMAXD=12" + MX(2 if p < 7 else 1, 8), set=S(m=m, n=n, thr=thr))
        for alg in ((0, 1) if ty != BD else (0,)): add("P02", "lud", fld(ty, p) + " -DMAXD=12" + MX(2 if p < 7 else 1, 8), set=S(m=m, n=n, cut=4 if alg else 1, alg=alg))
        add("P05", "rp", fld(ty, p) + " -DMAXD=12 " + EC + MX(2 if p < 7 else 1, 8), set=S(m=m, n=n))
        for op in range(4): add("P03", "ech", fld(ty, p) + " -DMAXD=12 " + EC + MX(2 if p < 7 else 1, 8), time=30, set=S(m=m, n=n, op=op))
    for op in range(10):
        if ty == BD and op == 3: continue
        for m in (5, 8): add("P04", "sol", fld(ty, p) + " -DMAXD=8 -DMAXK=3 " + EC + MX(2 if p < 7 else 1, 8), set=S(op=op, m=m, **({} if op in (2, 3, 4, 6, 7, 8) else dict(n=7 if m == 5 else 6))))
W3 = W.replace("=2", "=3"); COMBO = ((0, 0, 1, 0), (1, 0, 2, 1), (0, 1, 4, 2), (1, 1, 5, 4), (0, 0, 1, 1), (0, 1, 1, 5), (1, 0, 4, 0), (0, 0, 5, 2))
for t_, (ty, p) in enumerate(((D, 101), (FL, 101), (BD, 101), (BF, 101), (I64, 101), (I32, 251), (D, 67108859), (BD, 67108859), (FL, 2039), (BF, 2039), (D, 2))):
    for s_, (m, n, k) in enumerate(((13, 11, 14), (12, 16, 9), (7, 17, 19))):
        for c_ in range(8):
            ta, tb, al, be = COMBO[c_]; add("P01", "fgemm", fld(ty, p) + " -DBIGP -DMAXD=1100 " + W3 + MX(1, 8), set=S(m=m, n=n, k=k, ta=ta, tb=tb, alpha=al, beta=be, mix=(5, 1, 6, 2, 7, 0)[(t_ + s_ + c_) % 6]), conc=0)
for t_, (ty, p, ks) in enumerate(((D, 8388593, (127, 128, 129, 257)), (BD, 8388593, (511, 512, 513)), (FL, 251, (268, 269, 540)), (BF, 251, (536, 1073, 1075)), (D, 94906249, (33, 40)), (BD, 94906249, (33, 40)), (I64, 1073741789, (31, 40)), (BI64, 1073741789, (31, 40)), (I64, 2147483647, (20,)))):
    for k in ks:
        for c_, (m, n, mix) in enumerate(((1, 2, 5), (2, 1, 6), (2, 2, 1), (1, 1, 5))):
            ta, tb, al, be = COMBO[(t_ + 3 * k + 5 * c_) % 8]; add("P01", "fgemm", fld(ty, p) + " -DBIGP -DMAXD=1100" + MX(1, 8), set=S(m=m, n=n, k=k, ta=ta, tb=tb, alpha=al, beta=be, mix=mix), conc=0)
for op in range(10):
    for ty, p in ((D, 5), (I64, 7), (D, 2), (FL, 3), (BD, 7)):
        if (op == 8 and p == 2) or (ty == BD and op in (2, 3, 8)): continue
        for (m, n) in ((7, 8), (9, 5)):
            for ab in (({},) if op != 2 else (dict(alpha=1, beta=1), dict(alpha=2, beta=2), dict(alpha=3, beta=0), dict(alpha=1, beta=3))): add("P06", "tri", fld(ty, p) + " " + TR.replace("MAXD=3", "MAXD=9") + MX(1, 2), set=S(op=op, m=m, **(dict(n=n) if op <= 2 else {}), **ab))
for n in (5, 6, 8):
    for op in (4, 5, 6):
        for ty, p in ((D, 7), (D, 3), (I64, 5)): PROPS["P08"]["jobs"].append(j("sym", fld(ty, p) + " -DMAXD=8 -DMAXK=3 -DMAXT=8 -DMIX=1 -DMIXN=8", set=S(op=op, n=n)))
# ---------------------------------------------------------------- P09 permutations
jl = []
for ty, p in ((D, 101), (I64, 101), (FL, 101)):
    q = "q" if ty == D else "t"
    jl += [j("perm", fld(ty, p) + " -DMAXD=%d -DMAXM=2" % d, q if d == 3 else "t", 90, set=S(op=o)) for o in (0, 1) for d in (3, 4)]
    jl += [j("perm", fld(ty, p) + " -DMAXD=2 -DMAXM=66", "q", 90, set=S(op=o, m=m, n=2)) for o in (0, 1) for m in (33, 66)]
    if ty == D: jl += [j("perm", fld(ty, p) + " -DMAXD=4 -DMAXM=1", "q", 90, set=S(op=o)) for o in range(2, 10)] + [j("perm", fld(ty, p) + " -DMAXD=5 -DMAXM=1", "t", 90, set=S(op=o)) for o in (2, 3, 4, 5)]
    else: jl += [j("perm", fld(ty, p) + " -DMAXD=4 -DMAXM=1", "q", 90, set=S(op=o)) for o in (6, 7, 8)]
PROPS["P09"] = dict(bounds="every transposition sequence of up to 4 indices and every index window (5 in the thorough tier for conversion and composition), both sides, both directions, up to 2 and exactly 33 and 66 vectors (past the blocking of 32), every entry symbolic", outside=OUTSIDE, jobs=jl, quick_s=60)
# ---------------------------------------------------------------- P10 parallel variants
jl = []
def pj(ty, p, t="q", time=40, mixk=0, nf=8, extra="", **s): jl.append(j("par", fld(ty, p) + " -DMAXD=" + ("24" if mixk else "6") + (MX(mixk, nf) if mixk else "") + " " + PT + " -DFFLAS_TRANSPOSE_PTHRESH=1 -D__FFLASFFPACK_SEQPARTHRESHOLD=1 " + extra, t, time, omp=True, set=s))
for op in range(8):
    for q, (m, n, k) in enumerate(((2, 3, 3), (4, 2, 2), (3, 2, 5), (2, 4, 3), (5, 3, 2), (2, 2, 4))):
        for pol in (0, 1, 2):
            if (q + pol + op) % 2 == 0 or q < 2: pj(D if q % 2 else I64, 101, op=op, nt=2 + (q + pol + op) % 4, pol=pol, nfree=0, m=m, n=n, k=k, ta=(q + pol) % 2, tb=(q + pol // 2) % 2, alpha=(1, 2, 3)[(q + pol) % 3], beta=(op + pol + q) % 4, t="q" if q < 3 else "t")
    if op: pj(D, 101, op=op, nt=4, pol=op % 3, nfree=2, m=2, n=2, k=2, ta=op % 2, tb=(op // 2) % 2, alpha=1, beta=1); pj(D, 101, op=op, nt=4, pol=1 + op % 2, nfree=0, m=3, n=3, k=4, ta=1 - op % 2, tb=(op // 2) % 2, alpha=3, beta=3)
for str_ in range(6):
    for left in (0, 1):
        for pol in (0, 1, 2): pj(D, 101, op=8, str=str_, left=left, nt=2 + pol, pol=pol, nfree=0, m=3 if not left else 2, n=3 if left else 2, alpha=(1, 3, 2)[pol], time=20)
        pj(I64, 101, op=8, str=str_, left=left, nt=3, pol=0, nfree=3, m=4 if not left else 1, n=4 if left else 1, alpha=1 + str_ % 3, up=(str_ + left) % 2, ta=(1 + str_) % 2, unit=str_ % 2)
for pol in (0, 1, 2):
    for (m, n) in ((2, 2), (2, 3), (3, 2)): pj(D, 2, op=9, nt=2 + pol, pol=pol, nfree=0, m=m, n=n, diag=pol % 2, wrap=(m + pol) % 2)
    for (m, n) in ((5, 7), (8, 6), (9, 9), (12, 5)):
        pj((D, I64)[pol % 2], 5, op=9, nt=2 + (m + pol) % 4, pol=pol, nfree=0, m=m, n=n, diag=(m + pol) % 2, wrap=(n + pol) % 2, mixk=2, nf=4)
    pj(D, 5, op=9, nt=4, pol=pol, nfree=0, m=17, n=15, diag=pol % 2, wrap=0, mixk=1, nf=4)
    pj(D, 5, op=9, nt=4, pol=pol, nfree=2, m=7, n=8, diag=pol % 2, wrap=0, mixk=1, nf=2)
    for str_ in range(4):
        for ta in (0, 1): pj((D, I64)[str_ % 2], 101, op=10, str=str_, nt=2 + pol, pol=pol, nfree=2 * (pol == 0), m=4 if not ta else 3, n=5 if ta else 3, ta=ta, alpha=1 + str_ % 3, beta=(pol + str_) % 4, incx=1 + pol % 2, incy=str_ % 2)
    for str_ in range(3): pj(D, 101, op=11, str=str_, nt=2 + pol, pol=pol, nfree=2, m=0, n=5, incx=1 + pol % 2, incy=str_ % 2)
    for str_ in range(2):
        for left in (0, 1): pj(D, 101, op=12, str=str_, left=left, nt=3, pol=pol, nfree=2 * (pol == 0), m=4, n=5)
    for (n, k) in ((3, 2), (4, 2), (2, 3)): pj(D, 101, op=13, nt=4, pol=pol, nfree=0, m=0, n=n, k=k, thr=1 + pol % 2, alpha=1 + pol % 2, beta=(n + pol) % 3)
    pj(D, 101, op=14, nt=4, pol=pol, nfree=0, m=0, n=2, thr=1); pj(D, 101, op=14, nt=4, pol=pol, nfree=0, m=0, n=3, thr=1, up=pol % 2); pj(D, 101, op=14, nt=4, pol=pol, nfree=0, m=0, n=8, thr=1 + pol, up=pol % 2, mixk=1, nf=2)
    for op in (15, 16, 17, 18, 19):
        if op != 18: pj(D, 5, op=op, nt=2 + pol, pol=pol, nfree=0, m=2, n=2 if op in (16, 18) else 3, left=0, k=1)
        pj(D, 5, op=op, nt=4, pol=pol, nfree=0, m=6, n=6 if op in (16, 18) else 8, left=0, k=1, mixk=1, nf=4)
PROPS["P10"] = dict(bounds="2 to 5 threads; products up to 5x3x5 and triangular solves up to 4 with every entry symbolic over GF(101); parallel PLUQ and what is built on it with every matrix up to 2x3 over GF(2)/GF(5), and shapes up to 17x15 with a bounded number of symbolic entries in one row or column of concrete matrices; task execution order: three fixed policies (deferred in creation order, deferred in reverse order, immediate) plus up to 3 free scheduling decisions explored exhaustively; parallel thresholds lowered to 1", outside=OUTSIDE, jobs=jl, quick_s=100)
# ---------------------------------------------------------------- P11 loop splitters
jl = []
def cj(tier="q", **s): jl.append(j("cut", "", tier, 60, set=dict(dict(nlo=0, mlo=0, nhi=100000, mhi=100000, maxb=400), **s)))
for st in (0, 1, 2):
    for t in (1, 2, 3, 4, 5, 6, 8, 12, 16): cj(dim=1, str=st, t=t)
for st in (3, 4, 5):
    for t in (1, 2, 3, 5, 8, 16, 100): cj(dim=1, str=st, t=t, nhi=7 * t)
for st in (6, 7, 8): cj(dim=1, str=st, t=4, nhi=7 * 256)
for t in (1, 2, 3, 4, 5, 6): cj(dim=2, str=0, t=t)
for t in (8, 9, 12): cj(dim=2, str=0, t=t, nlo=20); cj(dim=2, str=0, t=t, mlo=20, nhi=19); cj("t", dim=2, str=0, t=t)
for t in (16, 30, 64, 66, 100): cj("q" if t < 60 else "t", dim=2, str=0, t=t, nlo=500, mlo=500)
for st in (1, 2):
    for t in (1, 2, 3, 5, 8): cj(dim=2, str=st, t=t)
for t in (1, 2, 4, 5, 9, 32): cj("q" if t < 9 else "t", dim=2, str=3, t=t, nhi=(3 if t < 5 else 2) * t, mhi=3 * t + 1)
for t in (1, 2, 4, 5, 9, 32): cj("q" if t < 32 else "t", dim=2, str=4, t=t, mhi=6 * t + 1); cj("q" if t < 32 else "t", dim=2, str=5, t=t, nhi=6 * t + 1)
cj(dim=2, str=6, t=4, nhi=256 * 3, mhi=256 * 3); cj(dim=2, str=7, t=4, mhi=256 * 6); cj(dim=2, str=8, t=4, nhi=256 * 6); cj(dim=2, str=9, t=1)
PROPS["P11"] = dict(bounds="one-dimensional splits: every length up to 100000 for thread counts 1 to 16, up to 7 grains for grain sizes up to 256; two-dimensional splits: every shape up to 100000x100000 for up to 6 threads (restricted ranges above), up to about 3 grains per dimension for grain strategies", outside=OUTSIDE, jobs=jl, quick_s=90)
# ---------------------------------------------------------------- P12 reduction and conversion
jl = []
RG = {D: 53, BD: 53, FL: 24, BF: 24, I64: 63, BI64: 63, I32: 31, BI32: 31}
def rj(ty, p, other="double", rg=None, tier="q", **s): jl.append(j("red", fld(ty, p) + " -DMAXD=24 -DMAXM=4 -DRANGE=%d -DOTHER=%s" % (rg or RG[ty], other), tier, 40, set=s))
for ty, ps in ((D, (2, 94906249)), (BD, (101, 67108859)), (FL, (101, 4093)), (BF, (5791,)), (I64, (101, 3037000493)), (BI64, (2147483647,)), (I32, (46337,)), (BI32, (46337,))):
    for q, p in enumerate(ps):
        for n in (5, 17): rj(ty, p, op=0, n=n, incx=1, off=n % 4); rj(ty, p, op=1, n=n, incx=1, incy=1, off=(n + 1) % 4, offx=n % 3)
        rj(ty, p, op=0, n=3, incx=3, off=1); rj(ty, p, op=1, n=3, incx=2, incy=3, off=0, offx=1); rj(ty, p, op=1, n=2, incx=1, incy=3, off=0, offx=1); rj(ty, p, op=1, n=3, incx=3, incy=1, off=0, offx=1)
        rj(ty, p, op=2, n=3, incx=2, off=1); rj(ty, p, op=5, m=3, n=5, padx=0); rj(ty, p, op=5, m=2, n=5, padx=1); rj(ty, p, op=6, m=4, n=4); rj(ty, p, op=7, m=3, n=5); rj(ty, p, op=8, m=2, n=3)
        o = ("double", "int64_t")[q]; r = (53, 62)[q]
        rj(ty, p, o, r, op=3, n=2, incx=1, incy=1, off=1); rj(ty, p, o, r, op=3, n=2, incx=2, incy=3, off=0); rj(ty, p, o, r, op=4, n=3); rj(ty, p, o, r, op=9, m=2, n=1); rj(ty, p, o, r, op=10, m=2, n=2)
        for n in (1, 4, 8, 9, 16, 24): rj(ty, p, tier="t", op=0, n=n, incx=1, off=n % 4); rj(ty, p, tier="t", op=1, n=n, incx=1, incy=1, off=(n + 1) % 4, offx=n % 3)
PROPS["P12"] = dict(bounds="every value of magnitude below 2^53 (double), 2^24 (float), 2^63 (int64), 2^31 (int32); vectors up to length 17, strides 1 to 3, four alignments, matrices up to 4x5; thorough: lengths up to 24", outside=OUTSIDE, jobs=jl, quick_s=80)
# ---------------------------------------------------------------- P13 transposition
jl = []
def tj(ty, bs, tier="q", **s): jl.append(j("tr", fld(ty, 101) + " -DMAXD=70 -DTBS=%d" % bs, tier, 60, set=s))
for ty, bs in ((D, 4), (FL, 8), (I64, 8), (BD, 8)):
    for (m, n, pa, pb) in ((3, 5, 1, 2), (4, 4, 0, 0), (9, 13, 2, 1), (16, 8, 0, 3), (17, 23, 1, 0), (0, 3, 0, 1), (8, 31, 1, 1), (25, 7, 3, 3), (12, 12, 0, 0)): tj(ty, bs, op=0, m=m, n=n, pada=pa, padb=pb, kern=0); tj(ty, bs, "q" if ty == D else "t", op=0, m=m, n=n, pada=pa, padb=pb, kern=1)
    for n in (1, 2, 4, 7, 8, 9, 13, 17, 24): tj(ty, bs, op=1, m=n, n=n, pada=n % 4, padb=0, kern=0); tj(ty, bs, "q" if ty == D else "t", op=1, m=n, n=n, pada=n % 3, padb=0, kern=1)
    for (m, n) in ((1, 5), (2, 3), (4, 8), (8, 4), (5, 9), (9, 5), (13, 8), (8, 13), (16, 24), (24, 16), (17, 10), (3, 20)): tj(ty, bs, op=2, m=m, n=n, pada=0, padb=0, kern=0); tj(ty, bs, "q" if ty == D else "t", op=2, m=m, n=n, pada=0, padb=0, kern=1)
    for (m, n) in ((33, 35), (40, 33), (34, 34)): tj(ty, bs, op=0, m=m, n=n, pada=1, padb=2, kern=2); tj(ty, bs, op=1, m=n, n=n, pada=1, padb=0, kern=2)
    for (m, n) in ((33, 35), (64, 33), (35, 32)): tj(ty, bs, "q" if ty == D else "t", op=2, m=m, n=n, pada=0, padb=0, kern=2)
PROPS["P13"] = dict(bounds="shapes up to 64x35 (chosen to cover full blocks, partial rows, partial columns and corners), block sizes 4, 8 and the default, vectorised and scalar kernels, every entry symbolic", outside=OUTSIDE, jobs=jl, quick_s=50)
# ---------------------------------------------------------------- P14 sparse products
jl = []
SPF = {"CSR": "-DMM", "COO": "-DMM", "ELL": "-DMM", "CSR_ZO": "-DMM -DCST", "COO_ZO": "-DMM -DCST"}
def sj(fmt, ty, p, tier="q", time=30, **s): jl.append(j("sp", fld(ty, p) + " -DMAXD=12 -DMAXB=12 -DFMT=%s %s" % (fmt, SPF[fmt]), tier, time, omp=True, set=dict(dict(off=0, padx=0, pady=0, b=1), **s)))
for q, fmt in enumerate(SPF):
    zo = fmt.endswith("ZO"); C = lambda k: dict(cst=k % 2) if zo else {}
    V = (lambda k: 1) if zo else (lambda k: 0)
    sj(fmt, D, 101, op=0, m=2, n=2, fam=-1, beta=1 + q % 3, vals=V(0), **C(q))
    for z, (ty, p) in enumerate(((D, 101), (FL, 4093), (I64, 101), (BD, 101), (D, 94906249))):
        for fam, (m, n) in ((0, (5, 6)), (1, (4, 5)), (2, (9, 7)), (3, (8, 5)), (4, (3, 3)), (5, (5, 9))):
            sj(fmt, ty, p, "q" if (fam + z + q) % 3 == 0 else "t", op=0, m=m, n=n, fam=fam, beta=(fam + z + q) % 4, vals=V(fam), **C(fam + z))
            if "MM" in SPF[fmt]:
                b = (1, 4, 5, 8, 11, 3)[(fam + z) % 6]; sj(fmt, ty, p, "q" if (fam + z + q) % 3 == 1 else "t", op=1, m=min(m, 5), n=min(n, 5), fam=fam, beta=(fam + z) % 4, b=b, off=(0 if z % 2 else fam % 4), padx=0 if b % 4 == 0 and z % 2 else fam % 3, pady=0 if b % 4 == 0 and z % 2 else z % 3, vals=V(fam), **C(fam + z))
PROPS["P14"] = dict(bounds="every pattern of a 2x2 matrix and pattern families (random, dense, one dense row, empty rows, diagonal, single row) up to 9x9, blocks of up to 11 vectors, every value symbolic over the whole field (GF(101) and primes at the delayed-reduction limit)", outside=OUTSIDE + "; sparse products over multiprecision rings; parallel sparse kernels; the SELL, SIMD-blocked ELL, ELL_ZO and hybrid formats (incomplete or defective upstream, see DESIGN.md)", jobs=jl, quick_s=60)
