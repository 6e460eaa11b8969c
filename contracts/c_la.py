"""Layer "la": dense arrays and matrices (array.c, linalg.c, matrix_util.c)."""
from gfabs import newd, outd, rowof, colof
from dsl import *
layer("la")
HD = z3.ArraySort(I, R); HI = z3.ArraySort(I, I)
DK = ["double", "#live"]
def da(S, p, i): return S.raw("double", O(p), iadd(p.off, i))
def cells(S, p): return S.arr("double", O(p))
SUM = RecP("SUM", [HD, I], R, lambda *a: zr(0), lambda h, o, k, prev: prev + h[zi(iadd(o, k))])
PRD = RecP("PRD", [HD, I], R, lambda *a: zr(1), lambda h, o, k, prev: prev * h[zi(iadd(o, k))])
SQS = RecP("SQS", [HD, I], R, lambda *a: zr(0), lambda h, o, k, prev: prev + h[zi(iadd(o, k))] * h[zi(iadd(o, k))])
SQD = RecP("SQD", [HD, I, HD, I], R, lambda *a: zr(0), lambda h, o, g, q, k, prev: prev + (h[zi(iadd(o, k))] - g[zi(iadd(q, k))]) * (h[zi(iadd(o, k))] - g[zi(iadd(q, k))]))
def rec(F, i): return lambda c, k: F.at([cells(c.S0, c.a[i]), zi(c.a[i].off)], k)
L = "C09"
newd("dzeros", lambda c: c.a[0], lambda c, t, x: x == 0, lambda c: [], prop=L)
newd("dones", lambda c: c.a[0], lambda c, t, x: x == 1, lambda c: [], prop=L)
newd("darray_val", lambda c: c.a[0], lambda c, t, x: x == zr(c.a[1]), lambda c: [], prop=L)
newd("linspace", lambda c: c.a[2], lambda c, t, x: And(Implies(zi(t) < c.a[2] - 1, x == z3.ToReal(zi(t)) * ((zr(c.a[1]) - zr(c.a[0])) / z3.ToReal(zi(isub(c.a[2], 1)))) + zr(c.a[0])), Implies(zi(t) == c.a[2] - 1, x == zr(c.a[1]))),
     lambda c: [("points", c[2] >= 1)], prop=L)
def diagt(mval, n):
    """the diagonal is filled up to k, everything else is still zero"""
    def P(c, pp, k1):
        g = c.g(); N = n(c); r, q = rowof(g, N), colof(g, N)
        return Implies(And(g >= 0, g < zi(imul(N, N))), mval(c, pp, g) == z3.If(And(r == q, r < zi(k1)), da(c.S0, c.a[1], r), zr(0)))
    return [lambda c, k1, pf: P(c, pf, k1)]
newd("diag", lambda c: imul(c.a[0], c.a[0]), lambda c, t, x: x == z3.If(rowof(t, c.a[0]) == colof(t, c.a[0]), da(c.S0, c.a[1], rowof(t, c.a[0])), zr(0)),
     lambda c: [("diagonal", varr(c.S, c[1], c[0]))], R=lambda c: c.a[0], prop=L, tmpl=diagt(lambda c, p, g: da(c.S, p, g), lambda c: c.a[0]))
newd("dconcat_cols", lambda c: imul(c.a[0], iadd(c.a[1], c.a[2])),
     lambda c, t, x: x == z3.If(zi(t) < zi(imul(c.a[0], c.a[1])), da(c.S0, c.a[3], t), da(c.S0, c.a[4], isub(t, imul(c.a[0], c.a[1])))),
     lambda c: [("first", varr(c.S, c[3], imul(c[0], c[1]))), ("second", varr(c.S, c[4], imul(c[0], c[2])))], prop=L)
def red(name, F, i, n, wrap=None, **kw):
    f = rec(F, i)
    contract(name, prop=L, keys=DK, requires=lambda c: [("array", varr(c.S, c[i], n(c)))] + ([("n", n(c) >= 0)]),
        ensures=lambda c: [("value", wrap(c, f(c, n(c))) if wrap else c.res == f(c, n(c)))],
        prep=lambda c: [f(c, 0)], templates=[lambda c, k1, x1: x1 == f(c, k1)], **kw)
red("dprod", PRD, 1, lambda c: c.a[0])
red("mean", SUM, 0, lambda c: c.a[1], lambda c, s: Implies(c.a[1] > 0, c.res * z3.ToReal(zi(c.a[1])) == s))
red("norm2", SQS, 0, lambda c: c.a[1], lambda c, s: Implies(s >= 0, And(c.res >= 0, c.res * c.res == s)))
contract("norm2diff", prop=L, keys=DK, requires=lambda c: [("first", varr(c.S, c[0], c[2])), ("second", varr(c.S, c[1], c[2])), ("n", c[2] >= 0)],
    ensures=lambda c: [("value", Implies(SQD.at([cells(c.S0, c[0]), zi(c[0].off), cells(c.S0, c[1]), zi(c[1].off)], c[2]) >= 0, And(c.res >= 0, c.res * c.res == SQD.at([cells(c.S0, c[0]), zi(c[0].off), cells(c.S0, c[1]), zi(c[1].off)], c[2]))))],
    prep=lambda c: [SQD.at([cells(c.S0, c[0]), zi(c[0].off), cells(c.S0, c[1]), zi(c[1].off)], 0)],
    templates=[lambda c, k1, x1: x1 == SQD.at([cells(c.S0, c.a[0]), zi(c.a[0].off), cells(c.S0, c.a[1]), zi(c.a[1].off)], k1)])
def absr(x): return z3.If(x >= 0, x, -x)
def isz(S, p): return S.raw("i64", O(p), p.off)
contract("maxabselem", prop=L, keys=DK + ["i64"], mods=["i64"],
    requires=lambda c: [("array", varr(c.S, c[0], c[2])), ("nonempty", c[2] >= 1), ("where to store the index", And(varr(c.S, c[1], 1)))],
    assigns=lambda c: [("i64", c[1], c[1].off, iadd(c[1].off, 1))],
    ensures=lambda c: [("an index", And(isz(c.S, c[1]) >= 0, isz(c.S, c[1]) < c[2])), ("its magnitude", c.res == absr(da(c.S0, c[0], isz(c.S, c[1])))),
        ("no element is larger", AllG(c, c[2], lambda t: absr(da(c.S0, c[0], t)) <= c.res))],
    templates=[lambda c, k1, x1: Implies(And(c.g() >= 0, c.g() < zi(k1)), absr(da(c.S0, c.a[0], c.g())) <= x1),
               lambda c, k1, x1: And(isz(c.S, c.a[1]) >= 0, isz(c.S, c.a[1]) < zi(k1), x1 == absr(da(c.S0, c.a[0], isz(c.S, c.a[1]))))])
contract("getrows", prop=(L, "C10"), keys=DK + ["i64"], mods=["double"],
    requires=lambda c: [("matrix", varr(c.S, c[0], imul(c[3], c[4]))), ("top", varr(c.S, c[1], imul(c[4], c[4]))), ("rows", varr(c.S, c[2], c[4])), ("different arrays", And(O(c[0]) != O(c[1]), O(c[2]) != O(c[1]))),
        ("row numbers", All(c[4], lambda i: And(c.S.raw("i64", O(c[2]), iadd(c[2].off, i)) >= 0, c.S.raw("i64", O(c[2]), iadd(c[2].off, i)) < c[3]), pats=lambda i: [c.S.raw("i64", O(c[2]), iadd(c[2].off, i))]))],
    assigns=lambda c: [("double", c[1], c[1].off, iadd(c[1].off, imul(c[4], c[4])))],
    ensures=lambda c: [("selected rows", AllG(c, imul(c[4], c[4]), lambda t: da(c.S, c[1], t) == da(c.S0, c[0], iadd(imul(colof(t, c[4]), c[3]), c.S0.raw("i64", O(c[2]), iadd(c[2].off, rowof(t, c[4])))))))],
    lemmas=[lambda c: [mono(c[4], c[3])]],
    templates=upto(lambda c, p, t: da(c.S, c.a[1], t) == da(c.S0, c.a[0], iadd(imul(colof(t, c.a[4]), c.a[3]), c.S0.raw("i64", O(c.a[2]), iadd(c.a[2].off, rowof(t, c.a[4]))))), R=lambda c: c.a[4], n=lambda c: imul(c.a[4], c.a[4]), p=None))
def distrib(q, a, b):
    """instance of distributivity: q*(a+b) = q*a + q*b"""
    return MUL(zi(q), zi(iadd(a, b))) == zi(iadd(imul(q, a), imul(q, b)))
# ---- struct mat (row major)
def mr(S, m): return S.f(m, "mat.nrows")
def mc(S, m): return S.f(m, "mat.ncols")
def mv(S, m): return S.fo(m, "mat.vals")
def mx(S, m, t): return S.raw("double", mv(S, m), t)
def mok(S, m): return And(vstruct(S, m, "mat"), varr(S, mv(S, m), imul(mr(S, m), mc(S, m))), mv(S, m) != O(m), mr(S, m) >= 0, mc(S, m) >= 0)
MK = ["mat.nrows", "mat.ncols", "mat.vals"] + DK
def newm(name, dim, val, requires, **kw):
    def ens(c):
        r, k = dim(c)
        return [("shape", And(mr(c.S, c.res) == zi(r), mc(c.S, c.res) == zi(k))), ("fresh", And(mok(c.S, c.res), isfresh(c, c.res), isfresh(c, Ptr(mv(c.S, c.res))))),
                ("elements", AllG(c, imul(r, k), lambda t: val(c, t, mx(c.S, c.res, t)), pats=lambda t: [mx(c.S, c.res, t)]))]
    n = lambda c: imul(*dim(c))
    contract(name, prop=L, allocs=True, keys=MK, requires=requires, ensures=ens,
        templates=upto(lambda c, p, g: val(c, g, mx(c.S, p, g)), R=lambda c: dim(c)[1], n=n) + kw.pop("tmpl", []), **kw)
newm("v2m", lambda c: (z3.If(zi(c.a[2]) == 0, zi(c.a[0]), zi(1)), z3.If(zi(c.a[2]) == 0, zi(1), zi(c.a[0]))), lambda c, t, x: Implies(And(zi(t) >= 0, zi(t) < c.a[0]), x == da(c.S0, c.a[1], t)),
     lambda c: [("array", varr(c.S, c[1], c[0])), ("orientation", Or(c[2] == 0, c[2] == 1))])
newm("diagv2m", lambda c: (c.a[0], c.a[0]), lambda c, t, x: x == z3.If(rowof(t, c.a[0]) == colof(t, c.a[0]), da(c.S0, c.a[1], rowof(t, c.a[0])), zr(0)), lambda c: [("array", varr(c.S, c[1], c[0]))],
     tmpl=diagt(lambda c, p, g: mx(c.S, p, g), lambda c: c.a[0]))
def hc(c, t, x):
    a, b = c.a[0], c.a[1]; ca, cb = mc(c.S0, a), mc(c.S0, b); C = iadd(ca, cb); i, j = colof(t, C), rowof(t, C)
    return And(Implies(j < ca, x == mx(c.S0, a, iadd(imul(i, ca), j))), Implies(j >= ca, x == mx(c.S0, b, iadd(imul(i, cb), isub(j, ca)))))
newm("horizcat", lambda c: (mr(c.S0, c.a[0]), iadd(mc(c.S0, c.a[0]), mc(c.S0, c.a[1]))), hc, lambda c: [("first", mok(c.S, c[0])), ("second", mok(c.S, c[1])), ("same rows", mr(c.S, c[0]) == mr(c.S, c[1]))],
     lemmas=[lambda c: [mono(mr(c.S, c[0]), mc(c.S, c[0])), mono(mr(c.S, c[0]), mc(c.S, c[1])), mono(mr(c.S, c[0]), iadd(mc(c.S, c[0]), mc(c.S, c[1]))),
         distrib(colof(c.g(), iadd(mc(c.S, c[0]), mc(c.S, c[1]))), mc(c.S, c[0]), mc(c.S, c[1]))]])
contract("mat_ones", prop=L, allocs=True, keys=MK, mods=["mat.nrows", "mat.ncols", "mat.vals"],
    requires=lambda c: [("target", vstruct(c.S, c[0], "mat"))],
    assigns=lambda c: [("mat.nrows", c[0]), ("mat.ncols", c[0]), ("mat.vals", c[0])],
    ensures=lambda c: [("shape", And(mr(c.S, c[0]) == zi(c[1]), mc(c.S, c[0]) == zi(c[2]))), ("fresh", And(mok(c.S, c[0]), isfresh(c, Ptr(mv(c.S, c[0]))))),
        ("ones", AllG(c, imul(c[1], c[2]), lambda t: mx(c.S, c[0], t) == 1))],
    templates=upto(lambda c, p, t: mx(c.S, c.a[0], t) == 1, R=lambda c: c.a[2], n=lambda c: imul(c.a[1], c.a[2]), p=None))
# ---- vectors
VK = ["c3Vector.size", "c3Vector.elem"] + DK
def vok(S, v): return And(vstruct(S, v, "c3Vector"), varr(S, S.fo(v, "c3Vector.elem"), S.f(v, "c3Vector.size")), S.fo(v, "c3Vector.elem") != O(v))
def vx(S, v, t): return S.raw("double", S.fo(v, "c3Vector.elem"), t)
def newv(c, n, src): return [("size", c.S.f(c.res, "c3Vector.size") == zi(n)), ("fresh", And(vok(c.S, c.res), isfresh(c, c.res), isfresh(c, Ptr(c.S.fo(c.res, "c3Vector.elem"))))),
    ("elements", AllG(c, n, lambda t: vx(c.S, c.res, t) == src(t), pats=lambda t: [vx(c.S, c.res, t)]))]
contract("c3vector_alloc", prop=(L, "C02"), allocs=True, keys=VK, requires=lambda c: [("array", varr(c.S, c[1], c[0]))],
    ensures=lambda c: newv(c, c[0], lambda t: da(c.S0, c[1], t)))
contract("c3vector_copy", prop=(L, "C02"), allocs=True, keys=VK, requires=lambda c: [("vector", vok(c.S, c[0]))],
    ensures=lambda c: newv(c, c.S0.f(c[0], "c3Vector.size"), lambda t: vx(c.S0, c[0], t)))
# ---- Kronecker products: entry (i*rb+k, j*cb+l) = a(i,j) * b(k,l) for arbitrary i, j, k, l (four ghost indices)
def kr(ra, ca, rb, cb, pos, va, vb, out, ldo_row):
    def ok(c):
        i, j, k, l = (c.g(q) for q in range(4))
        return And(i >= 0, i < zi(ra(c)), j >= 0, j < zi(ca(c)), k >= 0, k < zi(rb(c)), l >= 0, l < zi(cb(c)))
    def P(c, p):
        i, j, k, l = (c.g(q) for q in range(4))
        return out(c, p, pos(c, iadd(imul(i, rb(c)), k), iadd(imul(j, cb(c)), l))) == va(c, i, j) * vb(c, k, l)
    return ok, P
def lex(c, ks):
    gs = [c.g(q) for q in range(4)][:len(ks)]
    r = False
    for g, k in reversed(list(zip(gs, ks))): r = Or(g < zi(k), And(g == zi(k), r))
    return r
def krt(ok, P):
    f = lambda c, p, *ks: Implies(And(ok(c), lex(c, ks)), P(c, p))
    return [lambda c, k1, pf: f(c, pf, k1), lambda c, k1, k2, pf: f(c, pf, k1, k2), lambda c, k1, k2, k3, pf: f(c, pf, k1, k2, k3), lambda c, k1, k2, k3, k4, pf: f(c, pf, k1, k2, k3, k4)]
RA, CA, RB, CB = (lambda c: mr(c.S0, c.a[0])), (lambda c: mc(c.S0, c.a[0])), (lambda c: mr(c.S0, c.a[1])), (lambda c: mc(c.S0, c.a[1]))
kok, kP = kr(RA, CA, RB, CB, lambda c, r, q: iadd(imul(r, imul(CA(c), CB(c))), q), lambda c, i, j: mx(c.S0, c.a[0], iadd(imul(i, CA(c)), j)), lambda c, k, l: mx(c.S0, c.a[1], iadd(imul(k, CB(c)), l)), lambda c, p, t: mx(c.S, p, t), None)
contract("kron", prop=L, allocs=True, keys=MK, requires=lambda c: [("first", mok(c.S, c[0])), ("second", mok(c.S, c[1]))],
    ensures=lambda c: [("shape", And(mr(c.S, c.res) == zi(imul(RA(c), RB(c))), mc(c.S, c.res) == zi(imul(CA(c), CB(c))))), ("fresh", And(isfresh(c, c.res), isfresh(c, Ptr(mv(c.S, c.res))), vstruct(c.S, c.res, "mat"))),
        ("entries", Implies(kok(c), kP(c, c.res)))],
    templates=krt(kok, kP), nodist=True)
# kron_col(n, m, a, lda, k, l, b, ldb, out, ldc): column-major, leading dimensions
N_, M_, K_, L_ = (lambda c: c.a[0]), (lambda c: c.a[1]), (lambda c: c.a[4]), (lambda c: c.a[5])
cok, cP = kr(N_, M_, K_, L_, lambda c, r, q: iadd(imul(q, c.a[9]), r), lambda c, i, j: da(c.S0, c.a[2], iadd(imul(j, c.a[3]), i)), lambda c, k, l: da(c.S0, c.a[6], iadd(imul(l, c.a[7]), k)), lambda c, p, t: da(c.S, c.a[8], t), None)
def kc_t():
    f = lambda c, *ks: Implies(And(cok(c), lex(c, ks)), cP(c, None))
    return [lambda c, k1: f(c, k1), lambda c, k1, k2: f(c, k1, k2), lambda c, k1, k2, k3: f(c, k1, k2, k3), lambda c, k1, k2, k3, k4: f(c, k1, k2, k3, k4)]
contract("kron_col", prop=L, keys=DK, mods=["double"], nodist=True,
    requires=lambda c: [("sizes", And(c[0] >= 0, c[1] >= 0, c[4] >= 0, c[5] >= 0, c[3] >= c[0], c[7] >= c[4], c[9] >= zi(imul(c[0], c[4])))),
        ("first", varr(c.S, c[2], imul(c[1], c[3]))), ("second", varr(c.S, c[6], imul(c[5], c[7]))), ("output", varr(c.S, c[8], imul(imul(c[1], c[5]), c[9]))), ("no overlap", And(O(c[8]) != O(c[2]), O(c[8]) != O(c[6])))],
    assigns=lambda c: [("double", c[8], c[8].off, iadd(c[8].off, imul(imul(c[1], c[5]), c[9])))],
    ensures=lambda c: [("entries", Implies(cok(c), cP(c, None)))], templates=kc_t())
# ---- truncated singular value decomposition over LAPACK's full one
def svdf(name): return z3.Function(name, HD, I, I, I, I, I, R)
SU, SS, SV = svdf("SVD_U"), svdf("SVD_S"), svdf("SVD_VT")
def sv(F, c, m, n, lda, a, t): return F(cells(c.S0, a), zi(a.off), zi(m), zi(n), zi(lda), zi(t))
def mn(m, n): return z3.If(zi(m) < zi(n), zi(m), zi(n))
contract("svd", trusted=True, why="LAPACK dgesdd", keys=DK, mods=["double"],
    requires=lambda c: [("matrix", varr(c.S, c[3], imul(c[2], c[1]))), ("u", varr(c.S, c[4], imul(c[0], c[0]))), ("s", varr(c.S, c[5], mn(c[0], c[1]))), ("vt", varr(c.S, c[6], imul(c[1], c[1]))),
        ("no overlap", z3.Distinct(O(c[3]), O(c[4]), O(c[5]), O(c[6])))],
    assigns=lambda c: [("double", c[3], c[3].off, iadd(c[3].off, imul(c[2], c[1]))), ("double", c[4], c[4].off, iadd(c[4].off, imul(c[0], c[0]))), ("double", c[5], c[5].off, iadd(c[5].off, mn(c[0], c[1]))), ("double", c[6], c[6].off, iadd(c[6].off, imul(c[1], c[1])))],
    ensures=lambda c: [All(imul(c[0], c[0]), lambda t: da(c.S, c[4], t) == sv(SU, c, c[0], c[1], c[2], c[3], t), pats=lambda t: [da(c.S, c[4], t)]),
        All(mn(c[0], c[1]), lambda t: da(c.S, c[5], t) == sv(SS, c, c[0], c[1], c[2], c[3], t), pats=lambda t: [da(c.S, c[5], t)]),
        All(imul(c[1], c[1]), lambda t: da(c.S, c[6], t) == sv(SV, c, c[0], c[1], c[2], c[3], t), pats=lambda t: [da(c.S, c[6], t)])])
TAIL = RecP("TAIL", [HD, I, I, I, I], R, lambda *a: zr(0), lambda h, o, m, n, lda, k, prev: prev + SS(h, o, m, n, lda, mn(m, n) - zi(k) - 1) * SS(h, o, m, n, lda, mn(m, n) - zi(k) - 1))
def tail(c, k): return TAIL.at([cells(c.S0, c.a[3]), zi(c.a[3].off), zi(c.a[0]), zi(c.a[1]), zi(c.a[2])], k)
def outp(c, i): return Ptr(c.S.raw("ptr", O(c.a[i]), c.a[i].off), 0)
def tsv(F, c, t): return sv(F, c, c.a[0], c.a[1], c.a[2], c.a[3], t)
def ts_ens(c):
    m, n, N, r = c[0], c[1], mn(c[0], c[1]), zi(c.res)
    u, s, v = outp(c, 4), outp(c, 5), outp(c, 6)
    return [("rank", And(r >= 1, r <= N)), ("discarded part below the tolerance", Or(r == N, tail(c, isub(N, r)) < zr(c[7]))),
        ("no smaller rank would do", Or(r == 1, tail(c, iadd(isub(N, r), 1)) >= zr(c[7]))),
        ("new arrays", And(*[isfresh(c, p) for p in (u, s, v)], varr(c.S, u, imul(m, r)), varr(c.S, s, r), varr(c.S, v, imul(n, r)))),
        ("left vectors", AllG(c, imul(m, r), lambda t: da(c.S, u, t) == tsv(SU, c, t))), ("singular values", AllG(c, r, lambda t: da(c.S, s, t) == tsv(SS, c, t), k=1)),
        ("right vectors", AllG(c, imul(n, r), lambda t: da(c.S, v, t) == tsv(SV, c, iadd(imul(colof(t, r), n), rowof(t, r))), k=0))]
contract("truncated_svd", prop=L, allocs=True, keys=DK + ["ptr"], mods=["double", "ptr"],
    requires=lambda c: [("sizes", And(c[0] >= 1, c[1] >= 1, c[2] >= c[0])), ("matrix", varr(c.S, c[3], imul(c[2], c[1]))), ("outputs", And(varr(c.S, c[4], 1), varr(c.S, c[5], 1), varr(c.S, c[6], 1))),
        ("no overlap", z3.Distinct(O(c[3]), O(c[4]), O(c[5]), O(c[6])))],
    assigns=lambda c: [("double", c[3], c[3].off, iadd(c[3].off, imul(c[2], c[1])))] + [("ptr", c[i], c[i].off, iadd(c[i].off, 1)) for i in (4, 5, 6)],
    ensures=ts_ens, prep=lambda c: [tail(c, 0), tail(c, 1)],
    templates=[lambda c, k1, x1: x1 == tail(c, k1), lambda c, k1, k2: zi(k1) + zi(k2) == mn(c.a[0], c.a[1]), lambda c, k1: zi(k1) >= 1,
        lambda c, k1, x1: Or(zi(k1) == 0, x1 < zr(c.a[7])),
        lambda c, n1: Implies(And(c.g() >= 0, c.g() < zi(imul(c.a[0], n1))), da(c.S, outp(c, 4), c.g()) == tsv(SU, c, c.g())),
        lambda c, pf: Implies(And(c.g(1) >= 0, c.g(1) < mn(c.a[0], c.a[1])), da(c.S, pf, c.g(1)) == tsv(SS, c, c.g(1))),
        lambda c, pf: All(imul(c.a[1], c.a[1]), lambda t: da(c.S, pf, t) == tsv(SV, c, t), pats=lambda t: [da(c.S, pf, t)]),
        lambda c, k1, n1: Implies(And(c.g() >= 0, c.g() < zi(imul(c.a[1], n1)), colof(c.g(), n1) < zi(k1)), da(c.S, outp(c, 6), c.g()) == tsv(SV, c, iadd(imul(colof(c.g(), n1), c.a[1]), rowof(c.g(), n1))))])
