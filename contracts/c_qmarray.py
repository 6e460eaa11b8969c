from gfabs import *
from c_gf import LCat, SPat, ISat, ISWat
layer("abs")
Z0 = z3.K(I, zi(0))
contract("qmarray_alloc", prop="C04", allocs=True, keys=QK,
    ensures=lambda c: [("shape", qdim(c.S, c.res, c[0], c[1])), ("valid", qshape(c.S, c.res)), ("fresh", And(isfresh(c, c.res), isfresh(c, Ptr(fa(c.S, c.res))))),
        ("empty slots", AllG(c, imul(c[0], c[1]), lambda t: qf(c.S, c.res, t) == 0, pats=lambda t: [qf(c.S, c.res, t)]))],
    templates=upto(lambda c, p, g: qf(c.S, p, g) == 0, R=lambda c: c.a[0]))
q0 = lambda c: [("array", qma(c.S, c[0]))]
q01 = lambda c: [("first array", qma(c.S, c[0])), ("second array", qma(c.S, c[1]))]
def Fof(c, q, t): return FV(c.S0, qf(c.S0, q, t))
def D(c, q): return (nr(c.S0, q), nc(c.S0, q))
newq("qmarray_copy", lambda c: D(c, c.a[0]), lambda c, t, f: f == Fof(c, c.a[0], t), q0, prop=("C02", "C04"))
newq("qmarray_first_cols", lambda c: (nr(c.S0, c.a[0]), c.a[1]), lambda c, t, f: f == Fof(c, c.a[0], t),
     lambda c: q0(c) + [("enough columns", nc(c.S, c[0]) >= c[1])])
for nm, U in (("qmarray_deriv", DERIV), ("qmarray_dderiv", DDERIV), ("qmarray_dderiv_periodic", DDERIVP)):
    newq(nm, lambda c: D(c, c.a[0]), lambda c, t, f, U=U: f == U(Fof(c, c.a[0], t)), q0)
def elem(c, q, i, j): return Fof(c, q, iadd(imul(j, nr(c.S0, q)), i))
newq("qmarray_transpose", lambda c: (nc(c.S0, c.a[0]), nr(c.S0, c.a[0])),
     lambda c, t, f: f == elem(c, c.a[0], colof(t, nc(c.S0, c.a[0])), rowof(t, nc(c.S0, c.a[0]))), q0)
newq("qmarray_stackh", lambda c: (nr(c.S0, c.a[0]), iadd(nc(c.S0, c.a[0]), nc(c.S0, c.a[1]))),
     lambda c, t, f: f == z3.If(t < qn(c.S0, c.a[0]), Fof(c, c.a[0], t), Fof(c, c.a[1], isub(t, qn(c.S0, c.a[0])))),
     lambda c: q01(c) + [("same rows", nr(c.S, c[0]) == nr(c.S, c[1]))], offs=[lambda c: qn(c.S0, c.a[0])])
def stackv_val(c, t, f):
    a, b = c.a[0], c.a[1]; ra, rb = nr(c.S0, a), nr(c.S0, b); R = iadd(ra, rb); i, j = rowof(t, R), colof(t, R)
    return And(Implies(i < ra, f == elem(c, a, i, j)), Implies(i >= ra, f == elem(c, b, isub(i, ra), j)))
newq("qmarray_stackv", lambda c: (iadd(nr(c.S0, c.a[0]), nr(c.S0, c.a[1])), nc(c.S0, c.a[0])), stackv_val,
     lambda c: q01(c) + [("same columns", nc(c.S, c[0]) == nc(c.S, c[1]))], offs=[lambda c: nr(c.S0, c.a[0])])
def bd_val(c, t, f):
    a, b = c.a[0], c.a[1]; ra, rb = nr(c.S0, a), nr(c.S0, b); R = iadd(ra, rb); i, j = rowof(t, R), colof(t, R); ca = nc(c.S0, a)
    return And(Implies(And(i < ra, j < ca), f == elem(c, a, i, j)), Implies(And(i >= ra, j >= ca), f == elem(c, b, isub(i, ra), isub(j, ca))),
               Implies(Or(And(i < ra, j >= ca), And(i >= ra, j < ca)), EV(f) == zr(0)))
newq("qmarray_blockdiag", lambda c: (iadd(nr(c.S0, c.a[0]), nr(c.S0, c.a[1])), iadd(nc(c.S0, c.a[0]), nc(c.S0, c.a[1]))), bd_val,
     lambda c: q01(c) + [("first array nonempty", And(nr(c.S, c[0]) >= 1, nc(c.S, c[0]) >= 1))], offs=[lambda c: nr(c.S0, c.a[0])],
     lemmas=[lambda c: [mono(iadd(nc(c.S, c[0]), nc(c.S, c[1])), nr(c.S, c[1])), mono(iadd(nc(c.S, c[0]), nc(c.S, c[1])), nr(c.S, c[0]))]])
newq("qmarray_zeros", lambda c: (c.a[0], c.a[1]), lambda c, t, f: EV(f) == zr(0),
     lambda c: [("options", And(vstruct(c.S, c[2], "OneApproxOpts"), c.S.f(c[2], "OneApproxOpts.fc") == CLS, clsok()))])
# ---- linear algebra with scalar matrices
def colM(c, p, n): return varr(c.S, p, n)
newq("qmam", lambda c: (nr(c.S0, c.a[0]), c.a[2]),
     lambda c, t, f: EV(f) == LCat(c.S0, Ptr(fa(c.S0, c.a[0]), rowof(t, nr(c.S0, c.a[0]))), nr(c.S0, c.a[0]), c.a[1].at(imul(colof(t, nr(c.S0, c.a[0])), nc(c.S0, c.a[0]))), 1, nc(c.S0, c.a[0])),
     lambda c: q0(c) + [("matrix", varr(c.S, c[1], imul(nc(c.S, c[0]), c[2]))), ("nonempty", nc(c.S, c[0]) >= 1)], prop="C05")
newq("qmatm", lambda c: (nc(c.S0, c.a[0]), c.a[2]),
     lambda c, t, f: EV(f) == LCat(c.S0, Ptr(fa(c.S0, c.a[0]), imul(rowof(t, nc(c.S0, c.a[0])), nr(c.S0, c.a[0]))), 1, c.a[1].at(imul(colof(t, nc(c.S0, c.a[0])), nr(c.S0, c.a[0]))), 1, nr(c.S0, c.a[0])),
     lambda c: q0(c) + [("matrix", varr(c.S, c[1], imul(nr(c.S, c[0]), c[2]))), ("nonempty", nr(c.S, c[0]) >= 1)], prop="C05")
newq("mqma", lambda c: (c.a[2], nc(c.S0, c.a[1])),
     lambda c, t, f: EV(f) == LCat(c.S0, Ptr(fa(c.S0, c.a[1]), imul(colof(t, c.a[2]), nr(c.S0, c.a[1]))), 1, c.a[0].at(rowof(t, c.a[2])), c.a[2], nr(c.S0, c.a[1])),
     lambda c: [("array", qma(c.S, c[1])), ("matrix", varr(c.S, c[0], imul(c[2], nr(c.S, c[1])))), ("nonempty", nr(c.S, c[1]) >= 1)], prop="C05")
# ---- products of arrays
def sp(c, a, aoff, lda, b, boff, ldb, n): return SPat(c.S0, Ptr(fa(c.S0, a), aoff), lda, Ptr(fa(c.S0, b), boff), ldb, n)
newq("qmaqma", lambda c: (nr(c.S0, c.a[0]), nc(c.S0, c.a[1])),
     lambda c, t, f: EV(f) == sp(c, c.a[0], rowof(t, nr(c.S0, c.a[0])), nr(c.S0, c.a[0]), c.a[1], imul(colof(t, nr(c.S0, c.a[0])), nr(c.S0, c.a[1])), 1, nc(c.S0, c.a[0])),
     lambda c: q01(c) + [("conforming", And(nc(c.S, c[0]) == nr(c.S, c[1]), nc(c.S, c[0]) >= 1))], prop="C05")
newq("qmatqma", lambda c: (nc(c.S0, c.a[0]), nc(c.S0, c.a[1])),
     lambda c, t, f: EV(f) == sp(c, c.a[0], imul(rowof(t, nc(c.S0, c.a[0])), nr(c.S0, c.a[0])), 1, c.a[1], imul(colof(t, nc(c.S0, c.a[0])), nr(c.S0, c.a[1])), 1, nr(c.S0, c.a[1])),
     lambda c: q01(c) + [("conforming", And(nr(c.S, c[0]) == nr(c.S, c[1]), nr(c.S, c[0]) >= 1))], prop="C05")
newq("qmaqmat", lambda c: (nr(c.S0, c.a[0]), nr(c.S0, c.a[1])),
     lambda c, t, f: EV(f) == sp(c, c.a[0], rowof(t, nr(c.S0, c.a[0])), nr(c.S0, c.a[0]), c.a[1], colof(t, nr(c.S0, c.a[0])), nr(c.S0, c.a[1]), nc(c.S0, c.a[0])),
     lambda c: q01(c) + [("conforming", And(nc(c.S, c[0]) == nc(c.S, c[1]), nc(c.S, c[0]) >= 1))], prop="C05")
newq("qmatqmat", lambda c: (nc(c.S0, c.a[0]), nr(c.S0, c.a[1])),
     lambda c, t, f: EV(f) == sp(c, c.a[0], imul(rowof(t, nc(c.S0, c.a[0])), nr(c.S0, c.a[0])), 1, c.a[1], colof(t, nc(c.S0, c.a[0])), nr(c.S0, c.a[1]), nc(c.S0, c.a[1])),
     lambda c: q01(c) + [("conforming", And(nr(c.S, c[0]) == nc(c.S, c[1]), nr(c.S, c[0]) >= 1))], prop="C05")
# ---- integrals of products
def isum(A):
    return lambda c, a, aoff, lda, b, boff, ldb, n: A(c.S0, Ptr(fa(c.S0, a), aoff), lda, Ptr(fa(c.S0, b), boff), ldb, n)
IS_, ISW_ = isum(ISat), isum(ISWat)
NR = lambda c, q: nr(c.S0, q)
NC = lambda c, q: nc(c.S0, q)
newd("qmatqma_integrate", lambda c: imul(NC(c, c.a[0]), NC(c, c.a[1])),
     lambda c, t, x: x == IS_(c, c.a[0], imul(rowof(t, NC(c, c.a[0])), NR(c, c.a[0])), 1, c.a[1], imul(colof(t, NC(c, c.a[0])), NR(c, c.a[1])), 1, NR(c, c.a[1])),
     lambda c: q01(c) + [("conforming", nr(c.S, c[0]) == nr(c.S, c[1]))], R=lambda c: NC(c, c.a[0]))
newd("qmaqma_integrate", lambda c: imul(NR(c, c.a[0]), NC(c, c.a[1])),
     lambda c, t, x: x == IS_(c, c.a[0], rowof(t, NR(c, c.a[0])), NR(c, c.a[0]), c.a[1], imul(colof(t, NR(c, c.a[0])), NR(c, c.a[1])), 1, NC(c, c.a[0])),
     lambda c: q01(c) + [("conforming", nc(c.S, c[0]) == nr(c.S, c[1]))], R=lambda c: NR(c, c.a[0]))
newd("qmaqmat_integrate", lambda c: imul(NR(c, c.a[0]), NR(c, c.a[1])),
     lambda c, t, x: x == IS_(c, c.a[0], rowof(t, NR(c, c.a[0])), NR(c, c.a[0]), c.a[1], colof(t, NR(c, c.a[0])), NR(c, c.a[1]), NC(c, c.a[0])),
     lambda c: q01(c) + [("conforming", nc(c.S, c[0]) == nc(c.S, c[1]))], R=lambda c: NR(c, c.a[0]))
for nm, A in (("qmatqmat_integrate", IS_), ("qmatqmat_integrate_weighted", ISW_)):
    newd(nm, lambda c: imul(NC(c, c.a[0]), NR(c, c.a[1])),
     lambda c, t, x, A=A: x == A(c, c.a[0], imul(colof(t, NR(c, c.a[1])), NR(c, c.a[0])), 1, c.a[1], rowof(t, NR(c, c.a[1])), NR(c, c.a[1]), NC(c, c.a[1])),
     lambda c: q01(c) + [("conforming", nr(c.S, c[0]) == nc(c.S, c[1]))], R=lambda c: NR(c, c.a[1]))
for nm, U in (("qmarray_integrate", INT), ("qmarray_integrate_weighted", INTW)):
    newd(nm, lambda c: qn(c.S0, c.a[0]), lambda c, t, x, U=U: x == U(Fof(c, c.a[0], t)), q0, R=lambda c: NR(c, c.a[0]))
outd("qmarray_eval", 2, lambda c: qn(c.S0, c.a[0]), lambda c, t, x: x == AT(Fof(c, c.a[0], t), zr(c.a[1])), q0, prop="C04")
outd("qmarray_deriv_eval", 2, lambda c: qn(c.S0, c.a[0]), lambda c, t, x: x == DAT(Fof(c, c.a[0], t), zr(c.a[1])), q0, prop="C04")
# ---- Kronecker products: entry (i*rb + k, j*cb + l) of the result is a(i,j) * b(k,l)
def kr(c, t, U):
    a, b = c.a[0], c.a[1]; R = imul(NR(c, a), NR(c, b)); row, col = rowof(t, R), colof(t, R)
    return U(elem(c, a, idiv(row, NR(c, b)), idiv(col, NC(c, b))), elem(c, b, irem(row, NR(c, b)), irem(col, NC(c, b))))
def kron_tm(P, n):
    out = []
    def add(f, ar):
        def base(c, p, *k):
            g = c.g(0); a, b = c.a[0], c.a[1]; R = imul(NR(c, a), NR(c, b)); row, col = rowof(g, R), colof(g, R)
            q = (idiv(col, NC(c, b)), idiv(row, NR(c, b)), irem(col, NC(c, b)), irem(row, NR(c, b)))     # ii, jj, kk, ll
            return Implies(And(g >= 0, g < zi(n(c)), f(q, *k)), P(c, p, g))
        if ar == 1: out.append(lambda c, k, pf: base(c, pf, k))
        if ar == 2: out.append(lambda c, k1, k2, pf: base(c, pf, k1, k2))
        if ar == 3: out.append(lambda c, k1, k2, k3, pf: base(c, pf, k1, k2, k3))
        if ar == 4: out.append(lambda c, k1, k2, k3, k4, pf: base(c, pf, k1, k2, k3, k4))
    def lex(q, ks):
        r = False; eq = True
        for x, k in zip(q, ks):
            r = Or(r, And(eq, x < zi(k))); eq = And(eq, x == zi(k))
        return r
    add(lambda q, *k: lex(q, k), 1); add(lambda q, *k: lex(q, k), 2); add(lambda q, *k: lex(q, k), 3); add(lambda q, *k: lex(q, k), 4)
    return out
KN = lambda c: imul(imul(NR(c, c.a[0]), NR(c, c.a[1])), imul(NC(c, c.a[0]), NC(c, c.a[1])))
def kreq(c): return q01(c)
contract("qmarray_kron", prop="C05", nodist=True, cost=30, allocs=True, keys=QK, requires=kreq,
    ensures=lambda c: [("shape", qdim(c.S, c.res, imul(NR(c, c[0]), NR(c, c[1])), imul(NC(c, c[0]), NC(c, c[1])))), ("fresh, well-formed", qfresh(c, c.res)),
                       ("elements", slots(c, c.res, lambda t, f: f == kr(c, t, PROD)))],
    templates=kron_tm(lambda c, p, g: And(gffresh(c, qf(c.S, p, g)), FV(c.S, qf(c.S, p, g)) == kr(c, g, PROD)), KN))
for nm, U in (("qmarray_kron_integrate", INNER), ("qmarray_kron_integrate_weighted", INNERW)):
    contract(nm, prop="C05", nodist=True, allocs=True, keys=QK + ["double"], requires=kreq, cost=30,
        lemmas=[lambda c: [assoc(NR(c, c[0]), NR(c, c[1]), NC(c, c[0]), NC(c, c[1]))]],
        ensures=lambda c, U=U: [("fresh array", And(varr(c.S, c.res, KN(c)), isfresh(c, c.res))),
            ("elements", AllG(c, KN(c), lambda t: c.S.raw("double", O(c.res), t) == kr(c, t, U), pats=lambda t: [c.S.raw("double", O(c.res), t)]))],
        templates=kron_tm(lambda c, p, g, U=U: c.S.raw("double", O(p), iadd(p.off, g)) == kr(c, g, U), KN))
