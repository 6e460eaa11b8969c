"""Function trains over opaque cores.  Layer "ft": an array of functions has an abstract value (sort Q) that stands for its shape and
all its entries; what the operations on arrays do to it is proved in layer "abs" (properties C04/C05) and assumed here.
Layer "alg": a function train has an abstract value (sort T) with one value at one arbitrary fixed point."""
from gfabs import *
import engine
Qs = z3.DeclareSort("Q"); Ts = z3.DeclareSort("T")
engine.FLAT["#Q"] = Qs; engine.FLAT["#T"] = Ts
QR = z3.Function("QR", Qs, I); QC = z3.Function("QC", Qs, I)
def u2(n): return z3.Function(n, Qs, Qs, Qs)
def u1(n): return z3.Function(n, Qs, Qs)
HCAT, VCAT, BDIAG, QKRON, QADD = u2("HCAT"), u2("VCAT"), u2("BDIAG"), u2("QKRON"), u2("QADD")
QDER, QDDER, QDDERP = u1("QDER"), u1("QDDER"), u1("QDDERP")
QOP = z3.Function("QOP", Qs, I, Qs)
def QV(S, o): return S.flat("#Q", O(o))
def qok(S, o):
    o = O(o); v = QV(S, o)
    return And(o > 0, o < zi(S.alloc), S.live(o), BSIZE(o) >= ssize(S, "Qmarray"), nr(S, o) == QR(v), nc(S, o) == QC(v), QR(v) >= 1, QC(v) >= 1)
def qnew(c, o): return And(qok(c.S, o), isfresh(c, o if isinstance(o, Ptr) else Ptr(o)))
QQ = ["#Q", "#live", "Qmarray.nrows", "Qmarray.ncols"]
layer("ft")
WQ = "the array contract of layer abs, with the array as one value"
contract("qmarray_copy", trusted=True, why=WQ, allocs=True, keys=QQ, requires=lambda c: [qok(c.S, c[0])],
    ensures=lambda c: [qnew(c, c.res), QV(c.S, c.res) == QV(c.S0, c[0])])
for nm, U in (("qmarray_deriv", QDER), ("qmarray_dderiv", QDDER), ("qmarray_dderiv_periodic", QDDERP)):
    contract(nm, trusted=True, why=WQ, allocs=True, keys=QQ, requires=lambda c: [qok(c.S, c[0])],
        ensures=lambda c, U=U: [qnew(c, c.res), QV(c.S, c.res) == U(QV(c.S0, c[0])), QR(QV(c.S, c.res)) == QR(QV(c.S0, c[0])), QC(QV(c.S, c.res)) == QC(QV(c.S0, c[0]))])
for nm, U, pre, r, k in (
    ("qmarray_stackh", HCAT, lambda a, b: QR(a) == QR(b), lambda a, b: QR(a), lambda a, b: QC(a) + QC(b)),
    ("qmarray_stackv", VCAT, lambda a, b: QC(a) == QC(b), lambda a, b: QR(a) + QR(b), lambda a, b: QC(a)),
    ("qmarray_blockdiag", BDIAG, lambda a, b: True, lambda a, b: QR(a) + QR(b), lambda a, b: QC(a) + QC(b)),
    ("qmarray_kron", QKRON, lambda a, b: True, lambda a, b: imul(QR(a), QR(b)), lambda a, b: imul(QC(a), QC(b)))):
    contract(nm, trusted=True, why=WQ, allocs=True, keys=QQ,
        requires=lambda c, pre=pre: [qok(c.S, c[0]), qok(c.S, c[1]), ("conforming", pre(QV(c.S, c[0]), QV(c.S, c[1])))],
        ensures=lambda c, U=U, r=r, k=k: [qnew(c, c.res), QV(c.S, c.res) == U(QV(c.S0, c[0]), QV(c.S0, c[1])),
            QR(QV(c.S, c.res)) == zi(r(QV(c.S0, c[0]), QV(c.S0, c[1]))), QC(QV(c.S, c.res)) == zi(k(QV(c.S0, c[0]), QV(c.S0, c[1])))])
contract("qmarray_operate_elements", trusted=True, why=WQ, allocs=True, keys=QQ, requires=lambda c: [qok(c.S, c[0])],
    ensures=lambda c: [qnew(c, c.res), QV(c.S, c.res) == QOP(QV(c.S0, c[0]), O(c[1])), QR(QV(c.S, c.res)) == QR(QV(c.S0, c[0])), QC(QV(c.S, c.res)) == QC(QV(c.S0, c[0]))])
contract("qmarray_axpy", trusted=True, why=WQ, keys=QQ, mods=["#Q"], assigns=lambda c: [("#Q", c[2])],
    requires=lambda c: [qok(c.S, c[1]), qok(c.S, c[2]), ("scale one, same shape", And(zr(c[0]) == zr(1), QR(QV(c.S, c[1])) == QR(QV(c.S, c[2])), QC(QV(c.S, c[1])) == QC(QV(c.S, c[2]))))],
    ensures=lambda c: [QV(c.S, c[2]) == QADD(QV(c.S0, c[1]), QV(c.S0, c[2])), QR(QV(c.S, c[2])) == QR(QV(c.S0, c[2])), QC(QV(c.S, c[2])) == QC(QV(c.S0, c[2])), c.res == 0 if c.res is not None else True])
contract("qmarray_free", trusted=True, why=WQ, keys=QQ, mods=["#live"], requires=lambda c: [("live or null", Or(O(c[0]) == 0, qok(c.S, c[0])))],
    assigns=lambda c: [("#live", c[0])], ensures=lambda c: [Implies(O(c[0]) != 0, Not(c.S.live(c[0])))])
# ---- function trains
def fdim(S, f): return S.f(f, "FunctionTrain.dim")
def fcs(S, f): return S.fo(f, "FunctionTrain.cores")
def frk(S, f): return S.fo(f, "FunctionTrain.ranks")
def core(S, f, k): return S.raw("ptr", fcs(S, f), k)
def rank(S, f, k): return S.raw("i64", frk(S, f), k)
def fshape(S, f):
    return And(vstruct(S, f, "FunctionTrain"), varr(S, frk(S, f), iadd(fdim(S, f), 1)), varr(S, fcs(S, f), fdim(S, f)),
               frk(S, f) != fcs(S, f), frk(S, f) != O(f), fcs(S, f) != O(f))
def fto(S, f, k):
    """core k is a live array whose shape agrees with the ranks"""
    return And(qok(S, core(S, f, k)), rank(S, f, k) == QR(QV(S, core(S, f, k))), rank(S, f, iadd(k, 1)) == QC(QV(S, core(S, f, k))))
def ftok(S, f):
    return And(fdim(S, f) >= 1, fshape(S, f), rank(S, f, 0) == 1, rank(S, f, fdim(S, f)) == 1,
               All(fdim(S, f), lambda k: fto(S, f, k), pats=lambda k: [core(S, f, k)]))
def distinct(S, f):
    return All2(fdim(S, f), fdim(S, f), lambda i, j: Implies(i != j, core(S, f, i) != core(S, f, j)), pats=lambda i, j: [z3.MultiPattern(core(S, f, i), core(S, f, j))])
def ftnew(c, r, d, val, g=0, sh=None):
    """r: new function train of dimension d, made of new cores, core k satisfying val(k, Q); sh: no claim on the ranks' agreement beyond ranks(k)"""
    S = c.S
    return [("dimension", fdim(S, r) == zi(d)),
            ("new storage", And(fshape(S, r), isfresh(c, r if isinstance(r, Ptr) else Ptr(r)), isfresh(c, Ptr(frk(S, r))), isfresh(c, Ptr(fcs(S, r))))),
            ("cores new and live", AllG(c, d, lambda k: qnew(c, core(S, r, k)), pats=lambda k: [core(S, r, k)], k=g)),
            ("left ranks agree with cores", AllG(c, d, lambda k: rank(S, r, k) == QR(QV(S, core(S, r, k))), pats=lambda k: [core(S, r, k)], k=g)),
            ("right ranks agree with cores", AllG(c, d, lambda k: rank(S, r, iadd(k, 1)) == QC(QV(S, core(S, r, k))), pats=lambda k: [core(S, r, k)], k=g)),
            ("outer ranks are one", And(rank(S, r, 0) == 1, rank(S, r, d) == 1)),
            ("cores", AllG(c, d, lambda k: val(k, QV(S, core(S, r, k))), pats=lambda k: [core(S, r, k)], k=g))]
def distinctG(c, r):
    S = c.S
    if c.proving:
        i, j = c.g(0), c.g(1)
        return Implies(And(i >= 0, i < j, j < zi(fdim(S, r))), core(S, r, i) != core(S, r, j))
    return distinct(S, r)
def csep(S, r, k): return And(core(S, r, k) != O(r), core(S, r, k) != frk(S, r), core(S, r, k) != fcs(S, r))
FK = ["FunctionTrain.dim", "FunctionTrain.cores", "FunctionTrain.ranks", "i64", "ptr"] + QQ
def ft_tm(val, rk, rk1):
    """completed cores, completed ranks"""
    def t(c, p, g): return And(qnew(c, core(c.S, p, g)), val(c, g, QV(c.S, core(c.S, p, g))))
    out = upto(t, n=lambda c: fdim(c.S0, c.a[0]))
    out += upto(lambda c, p, g: And(QR(QV(c.S, core(c.S, p, g))) == zi(rk(c, g)), QC(QV(c.S, core(c.S, p, g))) == zi(rk1(c, g))), n=lambda c: fdim(c.S0, c.a[0]))
    out += upto(lambda c, p, g: rank(c.S, p, g) == zi(rk(c, g)), n=lambda c: fdim(c.S0, c.a[0]))
    def suc(c, p, g): return rank(c.S, p, iadd(g, 1)) == zi(rk1(c, g))
    out += [lambda c, k, pf: Implies(And(c.g(0) >= 0, iadd(c.g(0), 1) < zi(k)), suc(c, pf, c.g(0))),
            lambda c, k, pf: Implies(And(c.g(0) >= 0, c.g(0) < zi(k)), suc(c, pf, c.g(0))),
            lambda c, k, pf: Implies(zi(k) >= 1, rank(c.S, pf, 0) == zi(rk(c, 0))),
            lambda c, k, pf: And(rank(c.S, pf, 0) == zi(rk(c, 0)), Implies(And(c.g(0) >= 0, c.g(0) <= zi(k)), rank(c.S, pf, c.g(0)) == zi(rk(c, c.g(0))))),
            lambda c, k, pf: Implies(And(c.g(0) >= 0, c.g(0) < c.g(1), c.g(1) < zi(k)), core(c.S, pf, c.g(0)) != core(c.S, pf, c.g(1))),
            lambda c, k, pf: Implies(And(c.g(0) >= 0, c.g(0) < zi(k)), csep(c.S, pf, c.g(0))),
            lambda c, k, pf: Implies(And(c.g(1) >= 0, c.g(1) < zi(k)), isfresh(c, Ptr(core(c.S, pf, c.g(1)))))]
    return out
contract("function_train_alloc", prop=("C02", "C06"), allocs=True, keys=FK, requires=lambda c: [("dimension", c[0] >= 1)],
    ensures=lambda c: [("dimension", fdim(c.S, c.res) == zi(c[0])), ("valid", fshape(c.S, c.res)), ("fresh", And(isfresh(c, c.res), isfresh(c, Ptr(frk(c.S, c.res))), isfresh(c, Ptr(fcs(c.S, c.res))))),
        ("no cores yet", AllG(c, c[0], lambda k: core(c.S, c.res, k) == 0, pats=lambda k: [core(c.S, c.res, k)])),
        ("ranks zero", AllG(c, iadd(c[0], 1), lambda k: rank(c.S, c.res, k) == 0, pats=lambda k: [rank(c.S, c.res, k)]))],
    templates=upto(lambda c, p, g: core(c.S, p, g) == 0))
def Q0(c, f, k): return QV(c.S0, core(c.S0, f, k))
fa1 = lambda c: [("function train", ftok(c.S, c[0]))]
fa2 = lambda c: [("first function train", ftok(c.S, c[0])), ("second function train", ftok(c.S, c[1])), ("same dimension", fdim(c.S, c[0]) == fdim(c.S, c[1]))]
RK = lambda c, f: (lambda k: rank(c.S0, f, k))
contract("function_train_copy", prop=("C02", "C06"), allocs=True, keys=FK, requires=fa1,
    ensures=lambda c: ftnew(c, c.res, fdim(c.S0, c[0]), lambda k, q: q == Q0(c, c[0], k)) + [("cores distinct", distinctG(c, c.res)), ("cores separate", AllG(c, fdim(c.S0, c[0]), lambda k: csep(c.S, c.res, k), pats=lambda k: [core(c.S, c.res, k)]))],
    templates=ft_tm(lambda c, k, q: q == Q0(c, c.a[0], k), lambda c, k: rank(c.S0, c.a[0], k), lambda c, k: rank(c.S0, c.a[0], iadd(k, 1))))
contract("function_train_product", prop="C06", allocs=True, keys=FK, requires=fa2,
    ensures=lambda c: ftnew(c, c.res, fdim(c.S0, c[0]), lambda k, q: q == QKRON(Q0(c, c[0], k), Q0(c, c[1], k))),
    templates=ft_tm(lambda c, k, q: q == QKRON(Q0(c, c.a[0], k), Q0(c, c.a[1], k)), lambda c, k: imul(rank(c.S0, c.a[0], k), rank(c.S0, c.a[1], k)),
                    lambda c, k: imul(rank(c.S0, c.a[0], iadd(k, 1)), rank(c.S0, c.a[1], iadd(k, 1)))))
def sumval(c, k, q):
    a, b = Q0(c, c.a[0], k), Q0(c, c.a[1], k); d = fdim(c.S0, c.a[0])
    return And(Implies(zi(d) == 1, q == QADD(a, b)), Implies(And(zi(d) > 1, zi(k) == 0), q == HCAT(a, b)),
               Implies(And(zi(k) > 0, zi(k) < zi(d) - 1), q == BDIAG(a, b)), Implies(And(zi(d) > 1, zi(k) == zi(d) - 1), q == VCAT(a, b)))
def sumrk(c, k):
    return z3.If(Or(zi(k) == 0, zi(k) == fdim(c.S0, c.a[0])), zi(1), rank(c.S0, c.a[0], k) + rank(c.S0, c.a[1], k))
contract("function_train_sum", prop="C06", allocs=True, keys=FK, requires=fa2,
    ensures=lambda c: ftnew(c, c.res, fdim(c.S0, c[0]), lambda k, q: sumval(c, k, q)),
    templates=ft_tm(sumval, sumrk, lambda c, k: sumrk(c, iadd(k, 1))))
contract("function_train_operate", prop="C06", allocs=True, keys=FK,
    requires=lambda c: fa1(c) + [("operators", varr(c.S, c[1], fdim(c.S, c[0])))],
    ensures=lambda c: ftnew(c, c.res, fdim(c.S0, c[0]), lambda k, q: q == QOP(Q0(c, c[0], k), c.S0.raw("ptr", O(c[1]), k))),
    templates=ft_tm(lambda c, k, q: q == QOP(Q0(c, c.a[0], k), c.S0.raw("ptr", O(c.a[1]), k)), lambda c, k: rank(c.S0, c.a[0], k), lambda c, k: rank(c.S0, c.a[0], iadd(k, 1))))

# ---- arrays of function trains; gradient, jacobian, diagonal of the hessian
def asz(S, a): return S.f(a, "FT1DArray.size")
def afs(S, a): return S.fo(a, "FT1DArray.ft")
def aft(S, a, i): return S.raw("ptr", afs(S, a), i)
def ashape(S, a): return And(vstruct(S, a, "FT1DArray"), varr(S, afs(S, a), asz(S, a)), afs(S, a) != O(a))
AK = ["FT1DArray.size", "FT1DArray.ft"] + FK
contract("ft1d_array_alloc", prop=("C02", "C07"), allocs=True, keys=AK,
    ensures=lambda c: [("size", asz(c.S, c.res) == zi(c[0])), ("valid", ashape(c.S, c.res)), ("fresh", And(isfresh(c, c.res), isfresh(c, Ptr(afs(c.S, c.res))))),
        ("empty slots", AllG(c, c[0], lambda k: aft(c.S, c.res, k) == 0, pats=lambda k: [aft(c.S, c.res, k)]))],
    templates=upto(lambda c, p, g: aft(c.S, p, g) == 0))
def afull(c, f, d, g, val, part=None):
    """f is a complete new function train of dimension d; core g satisfies val"""
    S = c.S
    a = And(fdim(S, f) == zi(d), fshape(S, f), isfresh(c, Ptr(f)), isfresh(c, Ptr(frk(S, f))), isfresh(c, Ptr(fcs(S, f))))
    b = And(rank(S, f, 0) == 1, rank(S, f, d) == 1)
    rng = And(g >= 0, g < zi(d)); cg = core(S, f, g)
    L = [a, b, Implies(rng, isfresh(c, Ptr(cg))), Implies(rng, qok(S, cg)), Implies(rng, fto(S, f, g)), Implies(rng, val(g, QV(S, cg)))]
    return And(*L) if part is None else L[part]
def amany(nm, n, d, val, req, prop="C07", R=None, **kw):
    """new array of n(c) new function trains; core g1 of train g0 satisfies val(c, g0, g1, Q)"""
    def ens(c):
        S = c.S; r = c.res
        if c.proving:
            g0, g1 = c.g(0), c.g(1)
            q = Implies(And(g0 >= 0, g0 < zi(n(c))), afull(c, aft(S, r, g0), d(c, g0), g1, lambda g, v: val(c, g0, g, v)))
        else:
            q = And(All(n(c), lambda i: And(fdim(S, aft(S, r, i)) == zi(d(c, i)), fshape(S, aft(S, r, i)), isfresh(c, Ptr(aft(S, r, i)))), pats=lambda i: [aft(S, r, i)]))
        return [("size", asz(S, r) == zi(n(c))), ("new array", And(ashape(S, r), isfresh(c, r), isfresh(c, Ptr(afs(S, r))))), ("trains", q)]
    contract(nm, prop=prop, allocs=True, keys=AK, requires=req, ensures=ens,
        templates=sum([upto(lambda c, p, g, i=i: afull(c, aft(c.S, p, g), d(c, g), c.g(1), lambda k, v: val(c, g, k, v), i), n=n, R=R) for i in range(6)], []) +
                  upto(lambda c, p, g: aft(c.S, p, g) != 0, n=n, R=R), **kw)
for nm, U in (("function_train_gradient", QDER), ("function_train_hessian_diag", QDDER), ("function_train_hessian_diag_periodic", QDDERP)):
    amany(nm, lambda c: fdim(c.S0, c.a[0]), lambda c, i: fdim(c.S0, c.a[0]),
          lambda c, i, k, q, U=U: q == z3.If(zi(i) == zi(k), U(Q0(c, c.a[0], k)), Q0(c, c.a[0], k)), fa1)
def fts(S, a): return All(asz(S, a), lambda i: ftok(S, aft(S, a, i)), pats=lambda i: [aft(S, a, i)])
amany("ft1d_array_copy", lambda c: asz(c.S0, c.a[0]), lambda c, i: fdim(c.S0, aft(c.S0, c.a[0], i)), lambda c, i, k, q: q == Q0(c, aft(c.S0, c.a[0], i), k),
    lambda c: [("array", ashape(c.S, c[0])), ("trains", fts(c.S, c[0]))], prop="C02")
# ================================================================ layer "alg": value semantics of whole function trains
layer("alg")
EVT = z3.Function("EVT", Ts, R)                    # value at one arbitrary fixed point
TD = z3.Function("TD", Ts, I, Ts); TROUND = z3.Function("TROUND", Ts, R, Ts); TPROD = z3.Function("TPROD", Ts, Ts, Ts); TIP = z3.Function("TIP", Ts, Ts, R)
def TV(S, o): return S.flat("#T", O(o))
def tok(S, o): return And(O(o) > 0, O(o) < zi(S.alloc), S.live(o), BSIZE(O(o)) >= ssize(S, "FunctionTrain"))
def tnew(c, o): return And(tok(c.S, o), isfresh(c, o if isinstance(o, Ptr) else Ptr(o)))
TK = ["#T", "#live"]
WT = "the structural contract of layer ft, read through the value of the chain of cores"
contract("function_train_copy", trusted=True, why=WT, allocs=True, keys=TK, requires=lambda c: [tok(c.S, c[0])], ensures=lambda c: [tnew(c, c.res), TV(c.S, c.res) == TV(c.S0, c[0])])
contract("function_train_free", trusted=True, why=WT, keys=TK, mods=["#live"], assigns=lambda c: [("#live", c[0])], requires=lambda c: [("live or null", Or(O(c[0]) == 0, tok(c.S, c[0])))],
    ensures=lambda c: [Implies(O(c[0]) != 0, Not(c.S.live(c[0])))])
contract("function_train_scale", trusted=True, why=WT, keys=TK, mods=["#T"], assigns=lambda c: [("#T", c[0])], requires=lambda c: [tok(c.S, c[0])],
    ensures=lambda c: [EVT(TV(c.S, c[0])) == zr(c[1]) * EVT(TV(c.S0, c[0]))])
contract("function_train_sum", trusted=True, why=WT, allocs=True, keys=TK, requires=lambda c: [tok(c.S, c[0]), tok(c.S, c[1])],
    ensures=lambda c: [tnew(c, c.res), EVT(TV(c.S, c.res)) == EVT(TV(c.S0, c[0])) + EVT(TV(c.S0, c[1]))])
contract("function_train_product", trusted=True, why=WT, allocs=True, keys=TK, requires=lambda c: [tok(c.S, c[0]), tok(c.S, c[1])],
    ensures=lambda c: [tnew(c, c.res), TV(c.S, c.res) == TPROD(TV(c.S0, c[0]), TV(c.S0, c[1]))])
contract("function_train_round", trusted=True, why="rounding to the given tolerance; taken to keep the value (the error is not modelled)", allocs=True, keys=TK, requires=lambda c: [tok(c.S, c[0])],
    ensures=lambda c: [tnew(c, c.res), EVT(TV(c.S, c.res)) == EVT(TV(c.S0, c[0]))])
contract("function_train_inner", trusted=True, why=WT, keys=TK, requires=lambda c: [tok(c.S, c[0]), tok(c.S, c[1])], ensures=lambda c: [c.res == TIP(TV(c.S0, c[0]), TV(c.S0, c[1]))])
contract("function_train_eval", trusted=True, why=WT, keys=TK, requires=lambda c: [tok(c.S, c[0])], ensures=lambda c: [c.res == z3.Function("EVX", Ts, I, z3.ArraySort(I, R), R)(TV(c.S0, c[0]), zi(c[1].off), c.S0.arr("double", O(c[1])))])
contract("c3dot", prop="C07", keys=TK, requires=lambda c: [tok(c.S, c[0]), tok(c.S, c[1])], ensures=lambda c: [("value", c.res == TIP(TV(c.S0, c[0]), TV(c.S0, c[1])))])
def slot(S, p, i=0): return S.raw("ptr", O(p), iadd(p.off, i))
contract("c3axpy", prop="C06", allocs=True, keys=TK + ["ptr"], mods=["ptr", "#live"], interior=(2,),
    requires=lambda c: [tok(c.S, c[1]), ("target", And(varr(c.S, c[2], 1), tok(c.S, slot(c.S, c[2])), slot(c.S, c[2]) != O(c[1]), slot(c.S, c[2]) != O(c[2])))],
    assigns=lambda c: [("ptr", c[2], c[2].off, iadd(c[2].off, 1)), ("#live", slot(c.S0, c[2]))],
    ensures=lambda c: [("target is new", tnew(c, slot(c.S, c[2]))), ("value", EVT(TV(c.S, slot(c.S, c[2]))) == zr(c[0]) * EVT(TV(c.S0, c[1])) + EVT(TV(c.S0, slot(c.S0, c[2])))),
        ("old target is gone", Not(c.S.live(slot(c.S0, c[2]))))])
AK2 = ["FT1DArray.size", "FT1DArray.ft", "ptr"] + TK
def tar(S, a, n, inc):
    """n trains of array a at stride inc"""
    p = Ptr(afs(S, a), S.f(a, "FT1DArray.ft").off)
    return And(vstruct(S, a, "FT1DArray"), n_valid(S, p, n, inc), strided(S, p, n, inc, lambda o: tok(S, o)))
contract("ft1d_array_scale", prop="C06", keys=AK2, mods=["#T"],
    requires=lambda c: [("array", tar(c.S, c[0], c[1], c[2])), ("stride", c[2] >= 1), ("distinct trains", All2(c[1], c[1], lambda i, j: Implies(i != j, aft(c.S, c[0], imul(i, c[2])) != aft(c.S, c[0], imul(j, c[2])))))],
    assigns=lambda c: [("#T", lambda o: z3.Exists([z3.Int("ex!q")], And(z3.Int("ex!q") >= 0, z3.Int("ex!q") < zi(c[1]), o == aft(c.S0, c[0], imul(z3.Int("ex!q"), c[2])))))],
    ensures=lambda c: [("values", AllG(c, c[1], lambda i: EVT(TV(c.S, aft(c.S0, c[0], imul(i, c[2])))) == zr(c[3]) * EVT(TV(c.S0, aft(c.S0, c[0], imul(i, c[2]))))))],
    templates=upto(lambda c, p, g: EVT(TV(c.S, aft(c.S0, c.a[0], imul(g, c.a[2])))) == zr(c.a[3]) * EVT(TV(c.S0, aft(c.S0, c.a[0], imul(g, c.a[2])))), n=lambda c: c.a[1], p=None) +
        [lambda c, k: Implies(And(c.g(0) >= zi(k), c.g(0) < c.a[1]), TV(c.S, aft(c.S0, c.a[0], imul(c.g(0), c.a[2]))) == TV(c.S0, aft(c.S0, c.a[0], imul(c.g(0), c.a[2])))),
         lambda c, k: z3.ForAll([z3.Int("o!s")], z3.Implies(TV(c.S, z3.Int("o!s")) != TV(c.S0, z3.Int("o!s")), z3.Exists([z3.Int("ex!q")], And(z3.Int("ex!q") >= 0, z3.Int("ex!q") < zi(k), z3.Int("o!s") == aft(c.S0, c.a[0], imul(z3.Int("ex!q"), c.a[2]))))), patterns=[c.S.H("#T")[z3.Int("o!s")]])])
