"""Layer "reg": regression (objective_functions.c, superlearn_util.c, regress.c; C14)."""
from dsl import *
layer("reg")
P_ = "C14"
HD = z3.ArraySort(I, R); HI = z3.ArraySort(I, I)
def dv(S, p, i): return S.raw("double", O(p), iadd(p.off, i))
def iv(S, p, i): return S.raw("i64", O(p), iadd(p.off, i))
DTK = ["Data.N", "Data.dim", "Data.x", "Data.y", "Data.xpointer"]
K = ["LeastSquaresArgs.mapping", "LeastSquaresArgs.args", "PP.ftp", "PP.opts", "RegressOpts.sample_weights", "double", "i64", "ptr", "#live"] + DTK
def Y(S, d): return Ptr(S.fo(d, "Data.y"), 0)
def X(S, d): return Ptr(S.fo(d, "Data.x"), 0)
def XP(S, d): return Ptr(S.fo(d, "Data.xpointer"), 0)
def NN(S, d): return S.f(d, "Data.N")
def DD(S, d): return S.f(d, "Data.dim")
def PPo(S, a): return Ptr(S.fo(a, "LeastSquaresArgs.args"), 0)
def RO(S, a): return Ptr(S.fo(PPo(S, a), "PP.opts"), 0)
def W(S, a): return Ptr(S.fo(RO(S, a), "RegressOpts.sample_weights"), 0)
# where the mapping puts the values of the model at the data and its derivatives (memory of the regression)
EVO = z3.Function("EVALS", I, I); GRO = z3.Function("GRADS", I, I)
def evp(a): return Ptr(EVO(O(a)), 0)
def grp(a): return Ptr(GRO(O(a)), 0)
contract("@mapping", trusted=True, why="the parameterized model (ft_param_learning_interface): writes the N values and the N x nparam derivatives into the memory of the regression; their values are those of C03 / C07", keys=K, mods=["double", "ptr"],
    requires=lambda c: [("values", varr(c.S, evp(c[8]), c[2])), ("derivatives", varr(c.S, grp(c[8]), imul(c[2], c[0])))],
    assigns=lambda c: [("double", evp(c[8]), 0, c[2]), ("double", grp(c[8]), 0, imul(c[2], c[0])), ("ptr", c[6], c[6].off, iadd(c[6].off, 1)), ("ptr", c[7], c[7].off, iadd(c[7].off, 1))],
    ensures=lambda c: [c.res == 0, c.S.raw("ptr", O(c[6]), c[6].off) == EVO(O(c[8])), Implies(O(c[7]) != 0, c.S.raw("ptr", O(c[7]), c[7].off) == GRO(O(c[8])))])
LSQ = RecP("LSQ", [HD, HD, B, HI, I, B, HD], R, lambda *a: zr(0), lambda e, y, hi, ix, io, hw, w, k, prev: (lambda i: prev + (y[i] - e[zi(k)]) * (y[i] - e[zi(k)]) * z3.If(hw, w[i], zr(1)))(z3.If(hi, ix[zi(iadd(io, k))], zi(k))))
LSG = RecP("LSG", [HD, HD, I, I, HD, B, HI, I, B, HD], R, lambda *a: zr(0), lambda e, g, np, j, y, hi, ix, io, hw, w, k, prev: (lambda i: prev + zr(2) * (y[i] - e[zi(k)]) * g[zi(iadd(imul(k, np), j))] * z3.If(hw, w[i], zr(1)))(z3.If(hi, ix[zi(iadd(io, k))], zi(k))))
def tail(c):
    S = c.S0; n = c.a[4]
    return [O(n) != 0, S.arr("i64", O(n)), zi(n.off), O(W(S, c.a[7])) != 0, S.arr("double", O(W(S, c.a[7])))]
def lsq(c, k): return LSQ.at([c.S.arr("double", EVO(O(PPo(c.S0, c.a[7])))), c.S0.arr("double", O(Y(c.S0, c.a[5])))] + tail(c), k)
def lsg(c, j, k): return LSG.at([c.S.arr("double", EVO(O(PPo(c.S0, c.a[7])))), c.S.arr("double", GRO(O(PPo(c.S0, c.a[7])))), zi(c.a[0]), zi(j), c.S0.arr("double", O(Y(c.S0, c.a[5])))] + tail(c), k)
def gr(c, j): return dv(c.S, c.a[2], j)
def gr0(c, j): return dv(c.S0, c.a[2], j)
def RN(c): return z3.ToReal(zi(c.a[3]))
def inr(c, lo=0, hi=None): return And(c.g() >= zi(lo), c.g() < zi(c.a[0] if hi is None else hi))
def sep(c, p):
    a, S = c[7], c.S
    return And(O(p) != O(Y(S, c[5])), O(p) != O(W(S, a)), O(p) != EVO(O(PPo(S, a))), O(p) != GRO(O(PPo(S, a))))
contract("c3_objective_function_least_squares", prop=P_, cost=200, keys=K, mods=["double"], interior=(2, 4), allocs=False,
    fnargs={"indirect": lambda s, fr, st, fp, args, x, ck: s.call_contract(fr, st, "@mapping", args, x, ck), "indirect_keys": ["double", "ptr"]},
    requires=lambda c: [("arguments", And(vstruct(c.S, c[7], "LeastSquaresArgs"), vstruct(c.S, PPo(c.S, c[7]), "PP"), vstruct(c.S, RO(c.S, c[7]), "RegressOpts"), vstruct(c.S, c[5], "Data"))), ("counts", And(zi(c[3]) >= 1, zi(c[0]) >= 0, NN(c.S, c[5]) >= 1)),
        ("labels", varr(c.S, Y(c.S, c[5]), NN(c.S, c[5]))), ("weights or none", Or(O(W(c.S, c[7])) == 0, varr(c.S, W(c.S, c[7]), NN(c.S, c[5])))),
        ("all data or a selection", Or(And(O(c[4]) == 0, zi(c[3]) <= NN(c.S, c[5])), And(varr(c.S, c[4], c[3]), All(iadd(c[4].off, c[3]), lambda t: And(c.S.raw("i64", O(c[4]), t) >= 0, c.S.raw("i64", O(c[4]), t) < NN(c.S, c[5])), lo=c[4].off, pats=lambda t: [c.S.raw("i64", O(c[4]), t)])))),
        ("gradient or none", Or(O(c[2]) == 0, And(varr(c.S, c[2], c[0]), sep(c, c[2])))), ("memory of the model", And(varr(c.S, evp(PPo(c.S, c[7])), c[3]), varr(c.S, grp(PPo(c.S, c[7])), imul(c[3], c[0])), EVO(O(PPo(c.S, c[7]))) != GRO(O(PPo(c.S, c[7]))),
            *[And(O(p) != EVO(O(PPo(c.S, c[7]))), O(p) != GRO(O(PPo(c.S, c[7])))) for p in (Y(c.S, c[5]), W(c.S, c[7]))]))],
    assigns=lambda c: [("double", evp(PPo(c.S0, c[7])), 0, c[3]), ("double", grp(PPo(c.S0, c[7])), 0, imul(c[3], c[0])), ("double", c[2], c[2].off, iadd(c[2].off, c[0]))],
    ensures=lambda c: [("weighted mean of the squared residuals", c.res == lsq(c, c.a[3]) / RN(c)),
        ("its derivatives", Implies(O(c[2]) != 0, AllG(c, c[0], lambda j: gr(c, j) == (gr0(c, j) - lsg(c, j, c.a[3])) / RN(c))))],
    templates=[lambda c, k1, x: x == lsq(c, k1), lambda c, k1: Implies(inr(c), gr(c, c.g()) == gr0(c, c.g()) - lsg(c, c.g(), k1)),
        lambda c, k1, k2: Implies(inr(c, 0, k2), gr(c, c.g()) == gr0(c, c.g()) - lsg(c, c.g(), iadd(k1, 1))), lambda c, k1, k2: Implies(inr(c, k2), gr(c, c.g()) == gr0(c, c.g()) - lsg(c, c.g(), k1)),
        lambda c, k1: Implies(inr(c, 0, k1), gr(c, c.g()) == (gr0(c, c.g()) - lsg(c, c.g(), c.a[3])) / RN(c)), lambda c, k1: Implies(inr(c, k1), gr(c, c.g()) == gr0(c, c.g()) - lsg(c, c.g(), c.a[3]))])
contract("data_subtract_from_y", prop=P_, keys=DTK + ["double", "#live"], requires=lambda c: [("data", vstruct(c.S, c[0], "Data")), ("labels", varr(c.S, Y(c.S, c[0]), NN(c.S, c[0]))), ("index", And(zi(c[1]) >= 0, zi(c[1]) < NN(c.S, c[0])))],
    ensures=lambda c: [("residual", c.res == dv(c.S0, Y(c.S0, c[0]), c[1]) - zr(c[2]))])
# rows of the data: cell t of a block of rows of length dim
def rowof_(t, d): return zi(t) / zi(d)
contract("data_get_subset_ref", prop=P_, keys=DTK + ["double", "i64", "#live"], mods=["double"], interior=(2,),
    requires=lambda c: [("data", And(vstruct(c.S, c[0], "Data"), NN(c.S, c[0]) >= 1, DD(c.S, c[0]) >= 1)), ("points", varr(c.S, X(c.S, c[0]), imul(NN(c.S, c[0]), DD(c.S, c[0])))), ("own space", And(varr(c.S, XP(c.S, c[0]), imul(NN(c.S, c[0]), DD(c.S, c[0]))), O(XP(c.S, c[0])) != O(X(c.S, c[0])))), ("count", And(zi(c[1]) >= 0, zi(c[1]) <= NN(c.S, c[0]))),
        ("all or a selection", Or(O(c[2]) == 0, And(varr(c.S, c[2], c[1]), All(iadd(c[2].off, c[1]), lambda t: And(c.S.raw("i64", O(c[2]), t) >= 0, c.S.raw("i64", O(c[2]), t) < NN(c.S, c[0])), lo=c[2].off, pats=lambda t: [c.S.raw("i64", O(c[2]), t)]))))],
    assigns=lambda c: [("double", XP(c.S0, c[0]), 0, imul(c[1], DD(c.S0, c[0])))],
    ensures=lambda c: [("everything: the points themselves", Implies(O(c[2]) == 0, And(O(c.res) == O(X(c.S0, c[0])), zi(c.res.off) == 0))),
        ("a selection: the points chosen, in order", Implies(O(c[2]) != 0, And(O(c.res) == O(XP(c.S0, c[0])), zi(c.res.off) == 0, Implies(And(c.g(0) >= 0, c.g(0) < zi(c[1]), c.g(1) >= 0, c.g(1) < DD(c.S0, c[0])), sel(c)))))],
    templates=[lambda c, k1: Implies(And(c.g(0) >= 0, c.g(0) < zi(k1), c.g(1) >= 0, c.g(1) < DD(c.S0, c.a[0])), sel(c)), lambda c, k1, k2: Implies(And(c.g(0) == zi(k1), c.g(1) >= 0, c.g(1) < zi(k2)), sel(c))],
    lemmas=[lambda c: Implies(And(c.g(0) >= 0, c.g(0) < zi(c[1]), c.g(1) >= 0, c.g(1) < DD(c.S, c[0])), And(imul(c.g(0), DD(c.S, c[0])) >= 0))])
def sel(c): return dv(c.S, XP(c.S0, c.a[0]), iadd(c.g(1), imul(c.g(0), DD(c.S0, c.a[0])))) == dv(c.S0, X(c.S0, c.a[0]), iadd(c.g(1), imul(iv(c.S0, c.a[2], c.g(0)), DD(c.S0, c.a[0]))))
CVK = ["CrossValidate.N", "CrossValidate.dim", "CrossValidate.kfold", "CrossValidate.x", "CrossValidate.y"]
def cx(S, v): return Ptr(S.fo(v, "CrossValidate.x"), 0)
def cy(S, v): return Ptr(S.fo(v, "CrossValidate.y"), 0)
def cN(S, v): return S.f(v, "CrossValidate.N")
def cD(S, v): return S.f(v, "CrossValidate.dim")
def tgt(S, p): return Ptr(S.raw("ptr", O(p), p.off), 0)
def exreq(c):
    S, v = c.S, c[0]; N, D = cN(S, v), cD(S, v); out = [tgt(S, c[i]) for i in (3, 4, 5, 6)]
    return [("data", And(vstruct(S, v, "CrossValidate"), N >= 1, D >= 1, varr(S, cx(S, v), imul(N, D)), varr(S, cy(S, v), N))), ("fold", And(zi(c[1]) >= 0, zi(c[2]) >= 0, zi(iadd(c[1], c[2])) <= N)),
        ("targets", And([varr(S, c[i], 1) for i in (3, 4, 5, 6)] + [varr(S, out[0], imul(N, D)), varr(S, out[1], N), varr(S, out[2], imul(N, D)), varr(S, out[3], N)])),
        ("targets apart", And([O(a) != O(b) for i, a in enumerate(out) for b in out[i + 1:]] + [And(O(a) != O(cx(S, v)), O(a) != O(cy(S, v))) for a in out]))]
def exens(c):
    v = c.a[0]; D = cD(c.S0, v); n = cN(c.S0, v); s, m = c.a[1], c.a[2]; o = [tgt(c.S0, c.a[i]) for i in (3, 4, 5, 6)]; X0, Y0 = cx(c.S0, v), cy(c.S0, v); g = c.g
    def blk(to, fr, lo, cnt, src): return lambda t: dv(c.S, to, iadd(lo, t)) == dv(c.S0, fr, iadd(src, t))
    return [("fold: points", AllG(c, imul(m, D), blk(o[0], X0, 0, 0, imul(s, D)))), ("fold: labels", AllG(c, m, blk(o[1], Y0, 0, 0, s))), ("rest: points before the fold", AllG(c, imul(s, D), blk(o[2], X0, 0, 0, 0))), ("rest: labels before", AllG(c, s, blk(o[3], Y0, 0, 0, 0))),
        ("rest: points after the fold", AllG(c, imul(isub(isub(n, s), m), D), blk(o[2], X0, imul(s, D), 0, imul(iadd(s, m), D)))), ("rest: labels after", AllG(c, isub(isub(n, s), m), blk(o[3], Y0, s, 0, iadd(s, m))))]
contract("extract_data", prop=P_, keys=CVK + ["double", "ptr", "#live"], lemmas=[lambda c: mono(cN(c.S, c[0]), cD(c.S, c[0])), lambda c: (lambda s_, m, N, D: And(imul(iadd(s_, m), D) == zi(iadd(imul(s_, D), imul(m, D))), imul(isub(isub(N, s_), m), D) == zi(isub(isub(imul(N, D), imul(s_, D)), imul(m, D))), Implies(zi(iadd(s_, m)) <= N, imul(iadd(s_, m), D) <= imul(N, D)), imul(m, D) >= 0, imul(s_, D) >= 0))(zi(c[1]), zi(c[2]), cN(c.S, c[0]), cD(c.S, c[0]))],
    mods=["double"], copies=("double",), interior=(3, 4, 5, 6), requires=exreq, ensures=exens,
    assigns=lambda c: [("double", tgt(c.S0, c[3]), 0, imul(cN(c.S0, c[0]), cD(c.S0, c[0]))), ("double", tgt(c.S0, c[4]), 0, cN(c.S0, c[0])), ("double", tgt(c.S0, c[5]), 0, imul(cN(c.S0, c[0]), cD(c.S0, c[0]))), ("double", tgt(c.S0, c[6]), 0, cN(c.S0, c[0]))])
