"""Layer "opt": optimization (optimization.c)."""
from gfabs import outd
from dsl import *
layer("opt")
HD = z3.ArraySort(I, R)
K = ["c3Opt.d", "c3Opt.lb", "c3Opt.ub", "c3Opt.f", "c3Opt.farg", "c3Opt.nevals", "c3Opt.ngvals", "c3Opt.niters", "c3Opt.ls", "c3Opt.absxtol", "c3Opt.verbose", "c3Opt.prev_eval",
     "c3LS.alpha", "c3LS.beta", "c3LS.maxiter", "c3LS.set_initial", "c3LS.alg", "double", "i32", "#live"]
P_ = "C11"
def dv(S, p, i): return S.raw("double", O(p), iadd(p.off, i))
def AllC(S, p, n, f):
    """for every i in [0, n): f(i); instantiated on the cells p[i] of state S"""
    return All(iadd(p.off, n), lambda t: f(isub(t, p.off)), lo=p.off, pats=lambda t: [S.raw("double", O(p), t)])
def AllGC(c, p, n, f):
    return Implies(And(c.g() >= 0, c.g() < zi(n)), f(c.g())) if c.proving else AllC(c.S, p, n, f)
# the objective: a function of the point, i.e. of d numbers starting at an offset of an array
OBJ = z3.Function("OBJ", HD, I, R)
def obj(S, p): return OBJ(S.arr("double", O(p)), zi(p.off))
def D(S, o): return S.f(o, "c3Opt.d")
def lb(S, o): return Ptr(S.fo(o, "c3Opt.lb"), 0)
def ub(S, o): return Ptr(S.fo(o, "c3Opt.ub"), 0)
def ls(S, o): return Ptr(S.fo(o, "c3Opt.ls"), 0)
def box(S, o, p):
    return AllC(S, p, D(S, o), lambda i: And(dv(S, lb(S, o), i) <= dv(S, p, i), dv(S, p, i) <= dv(S, ub(S, o), i)))
def apart(p, q, n, m=None):
    """p[0..n) and q[0..m) do not overlap"""
    m = n if m is None else m
    return Or(O(p) != O(q), zi(iadd(p.off, n)) <= zi(q.off), zi(iadd(q.off, m)) <= zi(p.off))
def opok(S, o, withls=False):
    L = [vstruct(S, o, "c3Opt"), D(S, o) >= 0, varr(S, lb(S, o), D(S, o)), varr(S, ub(S, o), D(S, o)), S.fo(o, "c3Opt.f") != 0]
    if withls: L += [vstruct(S, ls(S, o), "c3LS")]
    return And(L)
def away(S, o, *ps):
    """the given arrays are not the optimizer itself nor its bounds"""
    return And([And(O(p) != O(o), O(p) != O(lb(S, o)), O(p) != O(ub(S, o)), O(p) != O(ls(S, o))) for p in ps])
def clip(x, l, u): return z3.If(x <= l, l, z3.If(x >= u, u, x))
def moved(S0, t, d, x, l, u, i):
    y = zr(t) * dv(S0, d, i) + dv(S0, x, i)
    return z3.If(O(l) == 0, y, clip(y, dv(S0, l, i), dv(S0, u, i)))
contract("c3opt_ls_x_move", prop=P_, keys=["double", "#live"], mods=["double"], interior=(2, 3, 4),
    requires=lambda c: [("output", varr(c.S, c[4], c[0])), ("direction", varr(c.S, c[2], c[0])), ("start", varr(c.S, c[3], c[0])), ("bounds", Or(O(c[5]) == 0, And(varr(c.S, c[5], c[0]), varr(c.S, c[6], c[0])))),
        ("output elsewhere", And(O(c[4]) != O(c[2]), O(c[4]) != O(c[5]), O(c[4]) != O(c[6]), O(c[4]) != O(c[3])))],
    assigns=lambda c: [("double", c[4], c[4].off, iadd(c[4].off, c[0]))],
    ensures=lambda c: [("clipped step", AllGC(c, c[4], c[0], lambda i: dv(c.S, c[4], i) == moved(c.S0, c[1], c[2], c[3], c[5], c[6], i)))],
    templates=[lambda c, k1: Implies(And(c.g() >= 0, c.g() < zi(k1)), dv(c.S, c.a[4], c.g()) == moved(c.S0, c.a[1], c.a[2], c.a[3], c.a[5], c.a[6], c.g())),
        lambda c, k1: Implies(And(c.g() >= zi(k1), c.g() < zi(c.a[0])), dv(c.S, c.a[4], c.g()) == zr(c.a[1]) * dv(c.S0, c.a[2], c.g()) + dv(c.S0, c.a[3], c.g()))])
contract("cblas_daxpy", trusted=True, why="BLAS", keys=["double", "#live"], mods=["double"], interior=(2, 4),
    requires=lambda c: [("unit strides", And(c[3] == 1, c[5] == 1)), ("x", varr(c.S, c[2], c[0])), ("y", varr(c.S, c[4], c[0])), ("no overlap", O(c[2]) != O(c[4]))],
    assigns=lambda c: [("double", c[4], c[4].off, iadd(c[4].off, c[0]))],
    ensures=lambda c: [AllC(c.S, c[4], c[0], lambda i: dv(c.S, c[4], i) == zr(c[1]) * dv(c.S0, c[2], i) + dv(c.S0, c[4], i))])
DOT = RecP("DOT", [HD, I, HD, I], R, lambda *a: zr(0), lambda h, o, g, q, k, prev: prev + h[zi(iadd(o, k))] * g[zi(iadd(q, k))])
def dot(S, p, q, n): return DOT.at([S.arr("double", O(p)), zi(p.off), S.arr("double", O(q)), zi(q.off)], n)
contract("cblas_ddot", trusted=True, why="BLAS", keys=["double", "#live"], interior=(1, 3),
    requires=lambda c: [("unit strides", And(c[2] == 1, c[4] == 1)), ("x", varr(c.S, c[1], c[0])), ("y", varr(c.S, c[3], c[0]))],
    ensures=lambda c: [c.res == dot(c.S, c[1], c[3], c[0])])
NRMD = z3.Function("NRMD", HD, I, HD, I, I, R)
def nrmd(S, p, q, n): return NRMD(S.arr("double", O(p)), zi(p.off), S.arr("double", O(q)), zi(q.off), zi(n))
contract("norm2diff", trusted=True, why="its value is proved in layer la (C09)", keys=["double", "#live"], interior=(0, 1),
    requires=lambda c: [("first", varr(c.S, c[0], c[2])), ("second", varr(c.S, c[1], c[2]))], ensures=lambda c: [c.res == nrmd(c.S, c[0], c[1], c[2])])
contract("dprint", trusted=True, why="printing only", keys=["double", "#live"], requires=lambda c: [("array", varr(c.S, c[1], c[0]))], ensures=lambda c: [])
contract("@objective", trusted=True, why="the user's objective: it reads the point, writes at most the d gradient entries, and its value depends on the point only", keys=K, mods=["double"], interior=(1, 2),
    requires=lambda c: [("point", varr(c.S, c[1], c[0])), ("gradient", Or(O(c[2]) == 0, varr(c.S, c[2], c[0])))],
    assigns=lambda c: [("double", c[2], c[2].off, iadd(c[2].off, c[0]))],
    ensures=lambda c: [c.res == obj(c.S0, c[1])])
def sameval(c, o, key): return c.S.f(o, key) == c.S0.f(o, key)
contract("c3opt_eval", prop=P_, keys=K, mods=["double", "c3Opt.nevals", "c3Opt.ngvals"], interior=(1, 2),
    fnargs={"indirect": lambda s, fr, st, fp, args, x, ck: s.call_contract(fr, st, "@objective", args, x, ck), "indirect_keys": ["double"]},
    requires=lambda c: [("optimizer", opok(c.S, c[0])), ("point", varr(c.S, c[1], D(c.S, c[0]))), ("gradient", Or(O(c[2]) == 0, And(varr(c.S, c[2], D(c.S, c[0])), O(c[2]) != O(c[0]), apart(c[1], c[2], D(c.S, c[0]))))), ("the point lies in the box", box(c.S, c[0], c[1]))],
    assigns=lambda c: [("double", c[2], c[2].off, iadd(c[2].off, D(c.S, c[0]))), ("c3Opt.nevals", c[0]), ("c3Opt.ngvals", c[0])],
    ensures=lambda c: [("value of the objective at the point", c.res == obj(c.S0, c[1])), ("evaluations counted", c.S.f(c[0], "c3Opt.nevals") == c.S0.f(c[0], "c3Opt.nevals") + 1),
        ("gradients counted", c.S.f(c[0], "c3Opt.ngvals") == c.S0.f(c[0], "c3Opt.ngvals") + z3.If(O(c[2]) != 0, zi(1), zi(0)))])
def ALPHA(S, o): return S.f(ls(S, o), "c3LS.alpha")
def BETA(S, o): return S.f(ls(S, o), "c3LS.beta")
def goodalpha(S, o): return And(ALPHA(S, o) > 0, ALPHA(S, o) < zr("1/2"))
def dref(S, p): return S.raw("double", O(p), p.off)
def iref(S, p): return S.raw("i32", O(p), p.off)
LSMODS = ["double", "i32", "c3Opt.nevals", "c3Opt.ngvals"]
def lsreq(wgrad):
    """line search arguments: opt, x, fx, grad, dir, newx, newf, info"""
    def f(c):
        o, x, g, d, nx, nf, info = c[0], c[1], c[3], c[4], c[5], c[6], c[7]; n = D(c.S, o)
        return [("optimizer", opok(c.S, o, True)), ("start", varr(c.S, x, n)), ("gradient", varr(c.S, g, n)), ("direction", varr(c.S, d, n)), ("new point", varr(c.S, nx, n)),
            ("results", And(varr(c.S, nf, 1), varr(c.S, info, 1, 4))), ("distinct", And(away(c.S, o, x, g, d, nx, nf, info), O(nx) != O(x), O(nx) != O(g), O(nx) != O(d), O(nf) != O(nx), O(nf) != O(x), O(nf) != O(g), O(nf) != O(d), O(info) != O(nf),
                O(info) != O(nx), O(info) != O(x), O(info) != O(g), O(info) != O(d), apart(g, x, n), apart(g, d, n) if wgrad else True)),
            ("the start lies in the box", box(c.S, o, x)), ("its value", zr(c[2]) == obj(c.S, x)), ("parameters", goodalpha(c.S, o))]
    return f
def lsasg(wgrad):
    def f(c):
        L = [("double", c[5], c[5].off, iadd(c[5].off, D(c.S, c[0]))), ("double", c[6], c[6].off, iadd(c[6].off, 1)), ("i32", c[7], c[7].off, iadd(c[7].off, 1)), ("c3Opt.nevals", c[0]), ("c3Opt.ngvals", c[0])]
        if wgrad: L.append(("double", c[3], c[3].off, iadd(c[3].off, D(c.S, c[0]))))
        return L
    return f
INT = (1, 3, 4, 5, 6)
def decr(c, t=None):
    """the sufficient-decrease value for the step t (the result is t * alpha)"""
    return zr(c.a[2]) + (c.res if t is None else ALPHA(c.S0, c.a[0]) * t) * dot(c.S0, c.a[3], c.a[4], D(c.S0, c.a[0]))
def tiny(c): return nrmd(c.S, c.a[5], c.a[1], D(c.S0, c.a[0])) < c.S0.f(c.a[0], "c3Opt.absxtol")
contract("c3opt_ls_box", prop=P_, merge=True, copies=("double",), keys=K, mods=LSMODS, interior=INT, requires=lsreq(False), assigns=lsasg(False),
    ensures=lambda c: [("information", Or(iref(c.S, c[7]) == 0, iref(c.S, c[7]) == 1)), ("accepted point in the box", box(c.S, c[0], c[5])), ("reported value", dref(c.S, c[6]) == obj(c.S, c[5])),
        ("sufficient decrease or no movement", Implies(iref(c.S, c[7]) == 0, Or(dref(c.S, c[6]) <= decr(c), tiny(c))))],
    templates=[lambda c: box(c.S, c.a[0], c.a[5]), lambda c: dref(c.S, c.a[6]) == obj(c.S, c.a[5]), lambda c: iref(c.S, c.a[7]) == 0, lambda c, x1, x2: x1 == decr(c, x2)])
contract("c3opt_ls_zoom", prop=P_, merge=True, copies=("double",), keys=K, mods=["double", "c3Opt.nevals", "c3Opt.ngvals"], interior=(4, 5, 6, 9, 10),
    requires=lambda c: [("optimizer", opok(c.S, c[0], True)), ("start", varr(c.S, c[4], D(c.S, c[0]))), ("direction", varr(c.S, c[5], D(c.S, c[0]))), ("new point", varr(c.S, c[6], D(c.S, c[0]))), ("gradient", varr(c.S, c[9], D(c.S, c[0]))), ("result", varr(c.S, c[10], 1)),
        ("distinct", And(away(c.S, c[0], c[4], c[5], c[6], c[9], c[10]), O(c[6]) != O(c[4]), O(c[6]) != O(c[5]), O(c[6]) != O(c[9]), O(c[6]) != O(c[10]), O(c[10]) != O(c[4]), O(c[10]) != O(c[5]), O(c[10]) != O(c[9]), apart(c[9], c[4], D(c.S, c[0])), apart(c[9], c[5], D(c.S, c[0])))),
        ("the start lies in the box", box(c.S, c[0], c[4])), ("so does the current point", box(c.S, c[0], c[6])), ("bounds are ordered", box(c.S, c[0], c[4])), ("value at the current point", dref(c.S, c[10]) == obj(c.S, c[6]))],
    assigns=lambda c: [("double", c[6], c[6].off, iadd(c[6].off, D(c.S, c[0]))), ("double", c[9], c[9].off, iadd(c[9].off, D(c.S, c[0]))), ("double", c[10], c[10].off, iadd(c[10].off, 1)), ("c3Opt.nevals", c[0]), ("c3Opt.ngvals", c[0])],
    ensures=lambda c: [("point in the box", box(c.S, c[0], c[6])), ("reported value", dref(c.S, c[10]) == obj(c.S, c[6]))],
    templates=[lambda c: box(c.S, c.a[0], c.a[6]), lambda c: dref(c.S, c.a[10]) == obj(c.S, c.a[6])])
LSENS = lambda c: [("point in the box", Implies(iref(c.S, c[7]) >= 0, box(c.S, c[0], c[5]))), ("reported value", Implies(iref(c.S, c[7]) >= 0, dref(c.S, c[6]) == obj(c.S, c[5]))),
    ("information", Or(iref(c.S, c[7]) == 0, iref(c.S, c[7]) == 1, iref(c.S, c[7]) == -4)),
    ("no step along an ascent direction", Implies(iref(c.S, c[7]) == -4, And(dref(c.S, c[6]) == zr(c[2]), AllGC(c, c[5], D(c.S0, c[0]), lambda i: dv(c.S, c[5], i) == dv(c.S0, c[1], i)))))]
def slope(c): return dot(c.S0, c.a[3], c.a[4], D(c.S0, c.a[0]))
for nm in ("c3opt_ls_strong_wolfe", "c3opt_ls_wolfe_bisect"):
    contract(nm, prop=P_, merge=True, copies=("double",), keys=K, mods=LSMODS, interior=INT, requires=lambda c: lsreq(True)(c) + [("iterations", c.S.f(ls(c.S, c[0]), "c3LS.maxiter") >= 2), ("the direction is not orthogonal to the gradient", Or(slope(c) < 0, slope(c) > zr("1/100000000000000")))], assigns=lsasg(True), ensures=(LSENS if "strong" in nm else lambda c: LSENS(c) + [("weak Wolfe conditions", Implies(iref(c.S, c[7]) == 0, And(dref(c.S, c[6]) <= decr(c), dot(c.S, c[3], c[4], D(c.S0, c[0])) >= BETA(c.S0, c[0]) * slope(c))))]),
        templates=[lambda c: box(c.S, c.a[0], c.a[5]), lambda c: dref(c.S, c.a[6]) == obj(c.S, c.a[5]), lambda c, x1: x1 == obj(c.S, c.a[5]), lambda c: iref(c.S, c.a[7]) == 0, lambda c, k1: Implies(zi(k1) > 1, box(c.S, c.a[0], c.a[5])), lambda c, k1: Implies(zi(k1) > 1, dref(c.S, c.a[6]) == obj(c.S, c.a[5])), lambda c, k1, x1: Implies(zi(k1) == 1, x1 == zr(c.a[2])), lambda c, k1, x1: Implies(zi(k1) == 1, x1 == zr("1/10")), lambda c, x1: And(x1 > 0, x1 < 1)])

FK = ["c3Opt." + x for x in "alg d f fsgd farg lb ub grad ls maxiter relxtol absxtol relftol gtol nlocs workspace verbose nevals ngvals niters prev_eval nvectors_store init_scale sgd store_grad store_func store_x stored_grad stored_func stored_x".split()]
LSK = ["c3LS." + x for x in "alg alpha beta maxiter set_initial".split()]
SGK = ["c3SGD." + x for x in "validation_fraction learn_rate learn_rate_decay nsamples do_momentum nepochs_between_increase".split()]
PF = ("c3Opt.f", "c3Opt.fsgd", "c3Opt.farg")
def eqf(c, keys, new, old): return [("copied " + k, (c.S.fo(new, k) == c.S0.fo(old, k)) if k in PF else (c.S.f(new, k) == c.S0.f(old, k))) for k in keys]
contract("c3ls_copy", prop=(P_, "C02"), allocs=True, keys=LSK + ["#live"], requires=lambda c: [("line search", vstruct(c.S, c[0], "c3LS")), ("known algorithm", Or(*[c.S.f(c[0], "c3LS.alg") == EN(a) for a in ("BACKTRACK", "STRONGWOLFE", "WEAKWOLFE")]))],
    ensures=lambda c: [("fresh", And(vstruct(c.S, c.res, "c3LS"), isfresh(c, c.res)))] + eqf(c, LSK, c.res, c[0]))
contract("c3sgd_copy", prop=(P_, "C02"), allocs=True, keys=SGK + ["#live"], requires=lambda c: [("options", vstruct(c.S, c[0], "c3SGD"))],
    ensures=lambda c: [("fresh", And(vstruct(c.S, c.res, "c3SGD"), isfresh(c, c.res)))] + eqf(c, SGK, c.res, c[0]))
def rows(S, o): return Ptr(S.fo(o, "c3Opt.workspace"), 0)
contract("c3opt_minimize", prop=P_, copies=("double",), keys=K + FK, mods=["double", "c3Opt.nevals", "c3Opt.ngvals"], interior=(1, 2),
    requires=lambda c: [("optimizer", opok(c.S, c[0])), ("brute force over listed points", And(c.S.f(c[0], "c3Opt.alg") == EN("BRUTEFORCE"), c.S.f(c[0], "c3Opt.nlocs") >= 1, varr(c.S, rows(c.S, c[0]), imul(c.S.f(c[0], "c3Opt.nlocs"), D(c.S, c[0]))))),
        ("start", varr(c.S, c[1], D(c.S, c[0]))), ("result", varr(c.S, c[2], 1)), ("distinct", And(away(c.S, c[0], c[1], c[2]), O(c[1]) != O(c[2]), O(rows(c.S, c[0])) != O(c[1]), O(rows(c.S, c[0])) != O(c[2]))),
        ("listed points in the box", All2(c.S.f(c[0], "c3Opt.nlocs"), D(c.S, c[0]), lambda k, i: And(dv(c.S, lb(c.S, c[0]), i) <= dv(c.S, rows(c.S, c[0]), iadd(imul(k, D(c.S, c[0])), i)), dv(c.S, rows(c.S, c[0]), iadd(imul(k, D(c.S, c[0])), i)) <= dv(c.S, ub(c.S, c[0]), i))))],
    assigns=lambda c: [("double", c[1], c[1].off, iadd(c[1].off, D(c.S, c[0]))), ("double", c[2], c[2].off, iadd(c[2].off, 1)), ("c3Opt.nevals", c[0]), ("c3Opt.ngvals", c[0])],
    ensures=lambda c: [("no listed point is better", Implies(And(c.g() >= 0, c.g() < c.S0.f(c[0], "c3Opt.nlocs")), dref(c.S, c[2]) <= OBJ(cells(c.S0, c[0]), zi(imul(c.g(), D(c.S0, c[0])))))), ("success", c.res == 0), ("result is a listed point with its value", Ex(c.S0.f(c[0], "c3Opt.nlocs"), lambda m: isrow(c, m)))],
    lemmas=[lambda c: [mono(c.S.f(c[0], "c3Opt.nlocs"), D(c.S, c[0]))]],
    templates=[lambda c, k1: Implies(And(c.g() >= 0, c.g() < zi(k1)), dref(c.S, c.a[2]) <= OBJ(cells(c.S0, c.a[0]), zi(imul(c.g(), D(c.S0, c.a[0]))))),
        lambda c, k1, k2: And(zi(k2) >= 0, zi(k2) < zi(k1)), lambda c, n1: dref(c.S, c.a[2]) == OBJ(cells(c.S0, c.a[0]), zi(imul(n1, D(c.S0, c.a[0])))),
        lambda c, k1, n2: And(AllC(c.S, c.a[1], k1, lambda i: dv(c.S, c.a[1], i) == dv(c.S0, rows(c.S0, c.a[0]), iadd(imul(n2, D(c.S0, c.a[0])), i))))])
def isrow(c, m):
    return And(dref(c.S, c[2]) == OBJ(cells(c.S0, c[0]), zi(imul(m, D(c.S0, c[0])))), AllC(c.S, c[1], D(c.S0, c[0]), lambda i: dv(c.S, c[1], i) == dv(c.S0, rows(c.S0, c[0]), iadd(imul(m, D(c.S0, c[0])), i))))
def cells(S, o): return S.arr("double", O(rows(S, o)))
SC = ["c3Opt." + x for x in "alg d f fsgd farg maxiter relxtol absxtol relftol gtol nlocs verbose nevals ngvals niters prev_eval nvectors_store init_scale store_grad store_func store_x".split()]
def fld(S, o, k): return Ptr(S.fo(o, "c3Opt." + k), 0)
def isalg(S, o, *a): return Or(*[S.f(o, "c3Opt.alg") == EN(x) for x in a])
def nwork(S, o): return z3.If(isalg(S, o, "BATCHGRAD"), 2 * zi(D(S, o)), z3.If(isalg(S, o, "BRUTEFORCE"), zi(imul(S.f(o, "c3Opt.nlocs"), D(S, o))), 4 * zi(D(S, o))))
def okcopy(c, name, n, when=True):
    return ("copied " + name, Implies(when, And(isfresh(c, fld(c.S, c.res, name)), AllG(c, n, lambda i: dv(c.S, fld(c.S, c.res, name), i) == dv(c.S0, fld(c.S0, c[0], name), i)))))
contract("c3opt_copy", prop=(P_, "C02"), allocs=True, copies=("double",), keys=FK + LSK + SGK + ["double", "#live"],
    requires=lambda c: [("optimizer", And(vstruct(c.S, c[0], "c3Opt"), D(c.S, c[0]) >= 0, c.S.f(c[0], "c3Opt.nlocs") >= 0, isalg(c.S, c[0], "BFGS", "LBFGS", "BATCHGRAD", "SGD", "BRUTEFORCE"))), ("bounds", And(varr(c.S, lb(c.S, c[0]), D(c.S, c[0])), varr(c.S, ub(c.S, c[0]), D(c.S, c[0])))),
        ("line search", Implies(isalg(c.S, c[0], "BFGS", "LBFGS", "BATCHGRAD"), And(vstruct(c.S, ls(c.S, c[0]), "c3LS"), Or(*[c.S.f(ls(c.S, c[0]), "c3LS.alg") == EN(a) for a in ("BACKTRACK", "STRONGWOLFE", "WEAKWOLFE")])))),
        ("stochastic options", Implies(isalg(c.S, c[0], "SGD"), vstruct(c.S, fld(c.S, c[0], "sgd"), "c3SGD"))), ("work space", varr(c.S, fld(c.S, c[0], "workspace"), nwork(c.S, c[0]))),
        ("nothing stored", And(*[c.S.f(c[0], "c3Opt." + k) == 0 for k in ("store_grad", "store_func", "store_x")]))],
    ensures=lambda c: [("fresh", And(vstruct(c.S, c.res, "c3Opt"), isfresh(c, c.res)))] + eqf(c, SC, c.res, c[0]) + [okcopy(c, "lb", D(c.S0, c[0])), okcopy(c, "ub", D(c.S0, c[0])), okcopy(c, "workspace", nwork(c.S0, c[0]))]
        + [("own line search", Implies(isalg(c.S0, c[0], "BFGS", "LBFGS", "BATCHGRAD"), And(isfresh(c, ls(c.S, c.res)), *[c.S.f(ls(c.S, c.res), k) == c.S0.f(ls(c.S0, c[0]), k) for k in LSK]))),
           ("own stochastic options", Implies(isalg(c.S0, c[0], "SGD"), And(isfresh(c, fld(c.S, c.res, "sgd")), *[c.S.f(fld(c.S, c.res, "sgd"), k) == c.S0.f(fld(c.S0, c[0], "sgd"), k) for k in SGK])))])
contract("@plain", trusted=True, why="the user's objective (older interface): it reads the point, and its value depends on the point only", keys=["double", "#live"], interior=(0,), ensures=lambda c: [c.res == obj(c.S0, c[0])])
def legacy(name, bc):
    """backtracking searches: d, [lb, ub,] x, fx, p, newx, fnx, grad, alpha, beta, f, fargs, maxiter, info"""
    b = 2 if bc else 0
    N = lambda c: c.a[0]; X = lambda c: c.a[1 + b]; FX = lambda c: zr(c.a[2 + b]); Pd = lambda c: c.a[3 + b]; NX = lambda c: c.a[4 + b]; FN = lambda c: c.a[5 + b]; G = lambda c: c.a[6 + b]; AL = lambda c: zr(c.a[7 + b]); MI = lambda c: c.a[11 + b]; INFO = lambda c: c.a[12 + b]
    def inb(S, c, p): return AllC(S, p, N(c), lambda i: And(dv(S, c.a[1], i) <= dv(S, p, i), dv(S, p, i) <= dv(S, c.a[2], i))) if bc else z3.BoolVal(True)
    def req(c):
        L = [("sizes", N(c) >= 0), ("start", varr(c.S, X(c), N(c))), ("direction", varr(c.S, Pd(c), N(c))), ("new point", varr(c.S, NX(c), N(c))), ("gradient", varr(c.S, G(c), N(c))), ("results", And(varr(c.S, FN(c), 1), varr(c.S, INFO(c), 1, 4))),
             ("distinct", And(O(NX(c)) != O(X(c)), O(NX(c)) != O(Pd(c)), O(NX(c)) != O(G(c)), *[O(FN(c)) != O(q(c)) for q in (NX, X, Pd, G)])), ("parameters", And(AL(c) > 0, AL(c) < zr("1/2")))]
        if bc: L += [("bounds", And(varr(c.S, c[1], N(c)), varr(c.S, c[2], N(c)))), ("bounds elsewhere", And(*[O(c[k]) != O(q(c)) for k in (1, 2) for q in (NX, FN)])), ("the start lies in the box", inb(c.S, c, X(c)))]
        return L
    def tq(c, t): return FX(c) + AL(c) * t * dot(c.S0, G(c), Pd(c), N(c))
    T = [lambda c: inb(c.S, c, NX(c)), lambda c: dref(c.S, FN(c)) == obj(c.S, NX(c)), lambda c: iref(c.S, INFO(c)) == 0, lambda c, x1, x2: x1 == tq(c, x2)]
    if bc: T += [lambda c, k1: AllC(c.S, NX(c), k1, lambda i: And(dv(c.S, c.a[1], i) <= dv(c.S, NX(c), i), dv(c.S, NX(c), i) <= dv(c.S, c.a[2], i)))]
    contract(name, prop=P_, merge=True, copies=("double",), keys=["double", "i32", "#live"], mods=["double", "i32"], requires=req,
        fnargs={"indirect": lambda s, fr, st, fp, args, x, ck: s.call_contract(fr, st, "@plain", args, x, ck), "indirect_keys": []},
        assigns=lambda c: [("double", NX(c), NX(c).off, iadd(NX(c).off, N(c))), ("double", FN(c), FN(c).off, iadd(FN(c).off, 1)), ("i32", INFO(c), INFO(c).off, iadd(INFO(c).off, 1))],
        ensures=lambda c: [("information", Or(iref(c.S, INFO(c)) == 0, iref(c.S, INFO(c)) == 1)), ("new point in the box", inb(c.S, c, NX(c))), ("its value", dref(c.S, FN(c)) == obj(c.S, NX(c))),
            ("sufficient decrease", Implies(iref(c.S, INFO(c)) == 0, dref(c.S, FN(c)) <= (FX(c) + c.res * dot(c.S0, G(c), Pd(c), N(c)) if bc else tq(c, c.res))))], templates=T)
legacy("backtrack_line_search", False)
