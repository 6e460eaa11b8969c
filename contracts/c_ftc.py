"""Constructors of function trains, down to the functions in the cores (layer "abs")."""
from c_ft import fdim, fcs, frk, core, rank, fshape
from gfabs import *
layer("abs")
TKEYS = QK + ["FunctionTrain.dim", "FunctionTrain.cores", "FunctionTrain.ranks", "i64", "double", "MultiApproxOpts.dim", "MultiApproxOpts.aopts", "OneApproxOpts.fc", "OneApproxOpts.aopts"]
contract("function_train_alloc", prop="C06", allocs=True, keys=TKEYS, requires=lambda c: [("dimension", c[0] >= 1)],
    ensures=lambda c: [("dimension", fdim(c.S, c.res) == zi(c[0])), ("valid", fshape(c.S, c.res)), ("fresh", And(isfresh(c, c.res), isfresh(c, Ptr(frk(c.S, c.res))), isfresh(c, Ptr(fcs(c.S, c.res))))),
        ("no cores yet", AllG(c, c[0], lambda k: core(c.S, c.res, k) == 0, pats=lambda k: [core(c.S, c.res, k)]))],
    templates=upto(lambda c, p, g: core(c.S, p, g) == 0))
def adim(S, a): return S.f(a, "MultiApproxOpts.dim")
def aop(S, a, k): return S.raw("ptr", S.fo(a, "MultiApproxOpts.aopts"), k)
def aok(S, a):
    return And(vstruct(S, a, "MultiApproxOpts"), adim(S, a) >= 1, varr(S, S.fo(a, "MultiApproxOpts.aopts"), adim(S, a)),
        All(adim(S, a), lambda k: And(vstruct(S, Ptr(aop(S, a, k)), "OneApproxOpts"), S.raw("OneApproxOpts.fc", aop(S, a, k), 0) == CLS, clsok()), pats=lambda k: [aop(S, a, k)]))
def cshape(c, q, r, k, m=None): return And(qshape(c.S, Ptr(q)), qdim(c.S, Ptr(q), r, k) if m is None else And(nr(c.S, Ptr(q)) == zi(r), nc(c.S, Ptr(q)) == zi(k), zi(qn(c.S, Ptr(q))) == zi(m)), isfresh(c, Ptr(q)), isfresh(c, Ptr(fa(c.S, Ptr(q)))))
def fn(c, q, t): return c.S.raw("ptr", fa(c.S, Ptr(q)), t)
def cons(nm, ai, rk, val, req=lambda c: [], n2=True, extra=(), dimmin=1, cnt=None, **kw):
    """new function train over the options argument ai: core k is rk(k) x rk(k+1) and its function t satisfies val(c, k, t, F); ghosts: core g0, function g1"""
    def ok(c, p, k, done=None):
        q = core(c.S, p, k); t = c.g(1); R, K = rk(c, k), rk(c, iadd(k, 1))
        m = cnt(c, k) if cnt else None
        rng = And(t >= 0, t < zi(imul(R, K) if m is None else m) if done is None else t < zi(done))
        return And(cshape(c, q, R, K, m), fa(c.S, Ptr(q)) != fcs(c.S, p), Implies(rng, And(gffresh(c, fn(c, q, t)), val(c, k, t, FV(c.S, fn(c, q, t))))))
    def ens(c):
        r = c.res; d = adim(c.S0, c.a[ai]); g = c.g(0); L = [("dimension", fdim(c.S, r) == d), ("new storage", And(fshape(c.S, r), isfresh(c, r), isfresh(c, Ptr(frk(c.S, r))), isfresh(c, Ptr(fcs(c.S, r)))))]
        if c.proving: L += [("ranks", Implies(And(g >= 0, g <= d), rank(c.S, r, g) == zi(rk(c, g)))), ("cores", Implies(And(g >= 0, g < d), ok(c, r, g)))]
        return L
    D = lambda c: adim(c.S0, c.a[ai])
    T = [lambda c, k, pf: Implies(And(c.g(0) >= 0, c.g(0) < zi(k)), ok(c, pf, c.g(0))), lambda c, k, pf: Implies(And(c.g(0) >= 0, c.g(0) < zi(k)), rank(c.S, pf, c.g(0)) == zi(rk(c, c.g(0)))),
         lambda c, k, pf: And(fdim(c.S, pf) == D(c), fshape(c.S, pf), isfresh(c, pf), isfresh(c, Ptr(frk(c.S, pf))), isfresh(c, Ptr(fcs(c.S, pf)))), lambda c, k: zi(k) <= D(c), lambda c, pf: Implies(And(c.g(0) >= 0, c.g(0) <= D(c)), rank(c.S, pf, c.g(0)) == zi(rk(c, c.g(0))))] + list(extra)
    if n2: T += [lambda c, k1, k2, pf: And(cshape(c, core(c.S, pf, k1), rk(c, k1), rk(c, iadd(k1, 1))), fa(c.S, Ptr(core(c.S, pf, k1))) != fcs(c.S, pf), Implies(And(c.g(0) >= 0, c.g(0) < zi(k1)), fa(c.S, Ptr(core(c.S, pf, k1))) != fa(c.S, Ptr(core(c.S, pf, c.g(0))))), Implies(c.g(0) == zi(k1), ok(c, pf, k1, k2)))]
    contract(nm, prop="C06", allocs=True, keys=TKEYS, requires=lambda c: [("options", aok(c.S, c[ai])), ("dimension", adim(c.S, c[ai]) >= dimmin)] + req(c), ensures=ens, templates=T, **kw)
POW = z3.Function("POW", R, R, R)
contract("pow", trusted=True, why="C library", keys=["double"], ensures=lambda c: [c.res == POW(zr(c[0]), zr(c[1]))])
def constv(c, k):
    a = zr(c.a[0]); ab = z3.If(a >= 0, a, -a); r = POW(ab, 1 / z3.ToReal(zi(adim(c.S0, c.a[1]))))
    return z3.If(And(zi(k) == 0, a < 0), -r, r)
cons("function_train_constant", 1, lambda c, k: 1, lambda c, k, t, f: EV(f) == constv(c, k), n2=False)
cons("function_train_zeros", 0, lambda c, k: c.S0.raw("i64", O(c.a[1]), iadd(c.a[1].off, k)), lambda c, k, t, f: EV(f) == 0, copies=("i64",),
    req=lambda c: [("ranks", And(varr(c.S, c[1], iadd(adim(c.S, c[0]), 1)), All(iadd(adim(c.S, c[0]), 1), lambda k: c.S.raw("i64", O(c[1]), k) >= 1, lo=0, pats=lambda k: [c.S.raw("i64", O(c[1]), k)])))])
def lin(c, k, A, i, B, j): return FLIN(c.S0.raw("double", O(A), zi(iadd(A.off, i))), c.S0.raw("double", O(B), zi(iadd(B.off, j))) if B is not None else zr(0), CLS, c.S0.raw("OneApproxOpts.aopts", aop(c.S0, c.opt, k), 0))
def rk1(c, k): c.opt = c.a[1]; return lin(c, k, c.a[0], k, None, 0)
cons("function_train_rankone_prod", 1, lambda c, k: 1, lambda c, k, t, f: f == rk1(c, k), n2=False, dimmin=2, req=lambda c: [("coefficients", varr(c.S, c[0], adim(c.S, c[1])))])

def lspec(c, k, t, f):
    c.opt = c.a[4]; d = adim(c.S0, c.a[4]); L = lin(c, k, c.a[0], imul(k, c.a[1]), c.a[2], imul(k, c.a[3]))
    first, last = zi(k) == 0, zi(k) == d - 1
    return If(first, If(zi(t) == 0, f == L, EV(f) == 1), If(zi(t) == 1, f == L, EV(f) == z3.If(And(Not(last), zi(t) == 2), zr(0), zr(1))))
def lrank(c, k): return z3.If(Or(zi(k) == 0, zi(k) == adim(c.S0, c.a[4])), zi(1), zi(2))
def lcnt(c, k): d = adim(c.S0, c.a[4]); return z3.If(d == 1, zi(1), z3.If(Or(zi(k) == 0, zi(k) == d - 1), zi(2), zi(4)))
def stridev(S, p, n, ld): return And(O(p) > 0, O(p) < zi(S.alloc), S.live(p), zi(p.off) >= 0, zi(iscale(8, iadd(iadd(p.off, imul(isub(n, 1), ld)), 1))) <= BSIZE(O(p)))
cons("function_train_linear", 4, lrank, lspec, n2=False, cnt=lcnt, lemmas=[lambda c: mono(isub(adim(c.S, c[4]), 1), c[1]), lambda c: mono(isub(adim(c.S, c[4]), 1), c[3])],
    req=lambda c: [("slopes", stridev(c.S, c[0], adim(c.S, c[4]), c[1])), ("offsets", stridev(c.S, c[2], adim(c.S, c[4]), c[3]))])
# ---- releasing arrays of functions; scaling a train in place
from c_dec import qdist, apart, dist
def okn(S, o): return Or(o == 0, gf(S, o))
def ddist(S, p, n):
    """no function occurs twice"""
    i, j = z3.Ints("i!qd j!qd"); r = lambda t: S.raw("ptr", O(p), t)
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, i < zi(n), j < zi(n), i != j, r(i) != 0), r(i) != r(j)), patterns=[z3.MultiPattern(r(i), r(j))])
def owned(S, p, n): return And(varr(S, p, n), All(n, lambda t: And(okn(S, S.raw("ptr", O(p), t)), S.raw("ptr", O(p), t) != O(p)), pats=lambda t: [S.raw("ptr", O(p), t)]), ddist(S, p, n))
contract("generic_function_array_free", prop="C04", keys=GK, mods=["ptr", "#live"], requires=lambda c: [("missing, or separate functions", Or(O(c[0]) == 0, And(zi(c[0].off) == 0, owned(c.S, c[0], c[1]))))],
    assigns=lambda c: [("ptr", c[0]), ("#live", lambda o: And(O(c[0]) != 0, Or(o == O(c[0]), And(o > 0, Not(All(c[1], lambda t: c.S0.raw("ptr", O(c[0]), t) != o, pats=lambda t: [c.S0.raw("ptr", O(c[0]), t)]))))))],
    ensures=lambda c: [("released", Implies(O(c[0]) != 0, And(Not(c.S.live(O(c[0]))), AllG(c, c[1], lambda t: Implies(c.S0.raw("ptr", O(c[0]), t) != 0, Not(c.S.live(c.S0.raw("ptr", O(c[0]), t)))), pats=lambda t: [c.S0.raw("ptr", O(c[0]), t)]))))],
    templates=upto(lambda c, p, g: Implies(c.S0.raw("ptr", O(c.a[0]), g) != 0, Not(c.S.live(c.S0.raw("ptr", O(c.a[0]), g)))), n=lambda c: c.a[1], p=None) +
        [lambda c, k: All(c.a[1], lambda t: And(c.S.raw("ptr", O(c.a[0]), t) == c.S0.raw("ptr", O(c.a[0]), t), Or(c.S.raw("ptr", O(c.a[0]), t) == 0, c.S.live(c.S.raw("ptr", O(c.a[0]), t)))), lo=k, pats=lambda t: [c.S.raw("ptr", O(c.a[0]), t)]),
         lambda c, k: c.S.live(O(c.a[0]))])
def sfa(S, f): return fa(S, Ptr(core(S, f, 0)))
def cnt0(S, f): return qn(S, Ptr(core(S, f, 0)))
contract("function_train_scale", prop="C06", allocs=True, keys=TKEYS, mods=["ptr", "#live", "Qmarray.funcs"],
    requires=lambda c: [("function train", And(fdim(c.S, c[0]) >= 1, fshape(c.S, c[0]))), ("first core", And(qma(c.S, Ptr(core(c.S, c[0], 0))), ddist(c.S, Ptr(sfa(c.S, c[0])), cnt0(c.S, c[0])))),
        ("separate", And(sfa(c.S, c[0]) != fcs(c.S, c[0]), sfa(c.S, c[0]) != O(c[0]), All(cnt0(c.S, c[0]), lambda t: (lambda o: And(*[o != x for x in (sfa(c.S, c[0]), fcs(c.S, c[0]), O(c[0]), core(c.S, c[0], 0))]))(c.S.raw("ptr", sfa(c.S, c[0]), t)), pats=lambda t: [c.S.raw("ptr", sfa(c.S, c[0]), t)])))],
    assigns=lambda c: [("Qmarray.funcs", Ptr(core(c.S0, c[0], 0))), ("ptr", Ptr(sfa(c.S0, c[0]))), ("#live", lambda o: Or(o == sfa(c.S0, c[0]), Not(All(cnt0(c.S0, c[0]), lambda t: c.S0.raw("ptr", sfa(c.S0, c[0]), t) != o, pats=lambda t: [c.S0.raw("ptr", sfa(c.S0, c[0]), t)]))))],
    ensures=lambda c: [("new functions in the first core", And(isfresh(c, Ptr(sfa(c.S, c[0]))), varr(c.S, sfa(c.S, c[0]), cnt0(c.S0, c[0])), AllG(c, cnt0(c.S0, c[0]), lambda t: gffresh(c, c.S.raw("ptr", sfa(c.S, c[0]), t)), pats=lambda t: [c.S.raw("ptr", sfa(c.S, c[0]), t)]))),
        ("scaled", AllG(c, cnt0(c.S0, c[0]), lambda t: EV(FV(c.S, c.S.raw("ptr", sfa(c.S, c[0]), t))) == zr(c[1]) * EV(FV(c.S0, c.S0.raw("ptr", sfa(c.S0, c[0]), t))), pats=lambda t: [c.S.raw("ptr", sfa(c.S, c[0]), t)]))])
# ---- re-interpolation on given nodes
from c_qmarray import Fof, q0
FNOD = z3.Function("FNOD", F, I, I, F)
contract("generic_function_create_nodal", trusted=True, why="nodal interpolant of one function on given nodes (replayed: ft_nodal)", allocs=True, keys=GK, requires=lambda c: [gf(c.S, c[0])],
    ensures=lambda c: [gffresh(c, c.res), FV(c.S, c.res) == FNOD(FV(c.S0, c[0]), zi(c[1]), O(c[2]))])
newq("qmarray_create_nodal", lambda c: (nr(c.S0, c.a[0]), nc(c.S0, c.a[0])), lambda c, t, f: f == FNOD(Fof(c, c.a[0], t), zi(c.a[1]), O(c.a[2])), q0, prop="C06")
FLUP = z3.Function("FLUP", R, R, F, F)
contract("generic_function_linear_update", trusted=True, why="replaces a linear function's slope and offset", keys=GK, mods=["#F"], requires=lambda c: [gf(c.S, c[0])], assigns=lambda c: [("#F", c[0])],
    ensures=lambda c: [FV(c.S, c[0]) == FLUP(zr(c[1]), zr(c[2]), FV(c.S0, c[0]))])
def sel(S, f, k): return z3.If(zi(k) == 0, S.raw("ptr", sfa(S, f), 0), S.raw("ptr", fa(S, Ptr(core(S, f, k))), 1))
def lup(c, k): return FV(c.S, sel(c.S0, c.a[0], k)) == FLUP(c.S0.raw("double", O(c.a[1]), zi(iadd(c.a[1].off, imul(k, c.a[2])))), c.S0.raw("double", O(c.a[3]), zi(iadd(c.a[3].off, imul(k, c.a[4])))), FV(c.S0, sel(c.S0, c.a[0], k)))
def ldist(S, f):
    i, j = z3.Ints("i!qd j!qd")
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, i < zi(fdim(S, f)), j < zi(fdim(S, f)), i != j), sel(S, f, i) != sel(S, f, j)), patterns=[z3.MultiPattern(core(S, f, i), core(S, f, j))])
contract("function_train_linear_update", prop="C06", keys=TKEYS, mods=["#F"],
    requires=lambda c: [("function train", And(fdim(c.S, c[0]) >= 1, fshape(c.S, c[0]))), ("cores", All(fdim(c.S, c[0]), lambda k: And(qma(c.S, Ptr(core(c.S, c[0], k))), zi(qn(c.S, Ptr(core(c.S, c[0], k)))) >= z3.If(k == 0, 1, 2)), pats=lambda k: [core(c.S, c[0], k)])),
        ("different functions", ldist(c.S, c[0])), ("slopes", stridev(c.S, c[1], fdim(c.S, c[0]), c[2])), ("offsets", stridev(c.S, c[3], fdim(c.S, c[0]), c[4]))],
    lemmas=[lambda c: mono(isub(fdim(c.S, c[0]), 1), c[2]), lambda c: mono(isub(fdim(c.S, c[0]), 1), c[4])],
    assigns=lambda c: [("#F", lambda o: Not(All(fdim(c.S0, c[0]), lambda k: sel(c.S0, c[0], k) != o, pats=lambda k: [core(c.S0, c[0], k)])))],
    ensures=lambda c: [("success", c.res == 0), ("every dimension's linear part replaced", AllG(c, fdim(c.S0, c[0]), lambda k: lup(c, k), pats=lambda k: [core(c.S0, c[0], k)]))],
    templates=[lambda c, k: Implies(And(c.g(0) >= 0, c.g(0) < zi(k)), lup(c, c.g(0))), lambda c, k: Implies(And(c.g(0) >= zi(k), c.g(0) < fdim(c.S0, c.a[0])), FV(c.S, sel(c.S0, c.a[0], c.g(0))) == FV(c.S0, sel(c.S0, c.a[0], c.g(0)))), lambda c, k: zi(k) <= fdim(c.S0, c.a[0]) - 1])
import c_ft
layer("ft")
QNOD = z3.Function("QNOD", c_ft.Qs, I, I, c_ft.Qs)
contract("qmarray_create_nodal", trusted=True, why=c_ft.WQ, allocs=True, keys=c_ft.QQ, requires=lambda c: [c_ft.qok(c.S, c[0])],
    ensures=lambda c: [c_ft.qnew(c, c.res), c_ft.QV(c.S, c.res) == QNOD(c_ft.QV(c.S0, c[0]), zi(c[1]), O(c[2])), c_ft.QR(c_ft.QV(c.S, c.res)) == c_ft.QR(c_ft.QV(c.S0, c[0])), c_ft.QC(c_ft.QV(c.S, c.res)) == c_ft.QC(c_ft.QV(c.S0, c[0]))])
def nodv(c, k, q): return q == QNOD(c_ft.Q0(c, c.a[0], k), c.S0.raw("i64", O(c.a[1]), zi(iadd(c.a[1].off, k))), c.S0.raw("ptr", O(c.a[2]), zi(iadd(c.a[2].off, k))))
contract("function_train_create_nodal", prop="C06", allocs=True, keys=c_ft.FK, copies=("i64",), requires=lambda c: c_ft.fa1(c) + [("numbers of nodes", varr(c.S, c[1], fdim(c.S, c[0]))), ("nodes", varr(c.S, c[2], fdim(c.S, c[0])))],
    ensures=lambda c: c_ft.ftnew(c, c.res, fdim(c.S0, c[0]), lambda k, q: nodv(c, k, q)),
    templates=c_ft.ft_tm(nodv, lambda c, k: rank(c.S0, c.a[0], k), lambda c, k: rank(c.S0, c.a[0], iadd(k, 1))))
