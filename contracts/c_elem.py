"""Layer "conc": the concrete function classes (piecewise linear, piecewise constant on given nodes).
A function object is (num_nodes, nodes, coeff); what it means at a point is stated over these arrays."""
from dsl import *
layer("conc")
HD = z3.ArraySort(I, R)
from fractions import Fraction
TOL = z3.Q(Fraction(1e-15).numerator, Fraction(1e-15).denominator)      # the double 1e-15
KS = lambda s: [s + "." + f for f in ("num_nodes", "nodes", "coeff", "diff")] + (["LinElemExp.inner", "LinElemExp.Lp"] if s == "LinElemExp" else []) + ["double", "#live"]
def ens_fresh(c, p, n): return And(varr(c.S, p, n), isfresh(c, Ptr(p) if not isinstance(p, Ptr) else p))
def absr(x): return z3.If(x >= 0, x, -x)
class EL:
    """vocabulary for one class"""
    def __init__(s, st): s.st = st
    def n(s, S, p): return S.f(p, s.st + ".num_nodes")
    def xo(s, S, p): return S.fo(p, s.st + ".nodes")
    def co(s, S, p): return S.fo(p, s.st + ".coeff")
    def x(s, S, p, i): return S.raw("double", s.xo(S, p), i)
    def c(s, S, p, i): return S.raw("double", s.co(S, p), i)
    def ok(s, S, p, two=True):
        return And(vstruct(S, p, s.st), s.n(S, p) >= (2 if two else 0), varr(S, s.xo(S, p), s.n(S, p)), varr(S, s.co(S, p), s.n(S, p)),
                   s.xo(S, p) != s.co(S, p), s.xo(S, p) != O(p), s.co(S, p) != O(p))
    def sorted(s, S, p):
        return All2(s.n(S, p), s.n(S, p), lambda i, j: Implies(i < j, s.x(S, p, j) - s.x(S, p, i) > 4 * TOL), pats=lambda i, j: [z3.MultiPattern(s.x(S, p, i), s.x(S, p, j))])
    def new(s, c, p, n, xv, cv):
        """p is a new function with n nodes; xv(i, value), cv(i, value) hold"""
        S = c.S
        return [("nodes", s.n(S, p) == zi(n)), ("new storage", And(s.ok(S, p, two=False), isfresh(c, p), isfresh(c, Ptr(s.xo(S, p))), isfresh(c, Ptr(s.co(S, p))))),
                ("node locations", AllG(c, n, lambda i: xv(i, s.x(S, p, i)), pats=lambda i: [s.x(S, p, i)])),
                ("values", AllG(c, n, lambda i: cv(i, s.c(S, p, i)), pats=lambda i: [s.c(S, p, i)]))]
    def tm(s, n, xv, cv):
        return upto(lambda c, p, g: cv(c, g, s.c(c.S, p, g)), n=n) + upto(lambda c, p, g: xv(c, g, s.x(c.S, p, g)), n=n)
    def same(s, c, p): return And(s.n(c.S, p) == s.n(c.S0, p), s.xo(c.S, p) == s.xo(c.S0, p), s.co(c.S, p) == s.co(c.S0, p))
def wq(n, x, i):
    """nodal quadrature weight"""
    n = zi(n); i = zi(i)
    return z3.If(i == 0, x[1] - x[0], z3.If(i == n - 1, x[n - 1] - x[n - 2], x[i + 1] - x[i - 1])) / 2
QS = RecP("QS", [HD, HD, I], R, lambda *a: zr(0), lambda x, f, n, k, prev: prev + wq(n, x, k) * f[zi(k)])
QI = RecP("QI", [HD, HD, HD, I], R, lambda *a: zr(0), lambda x, f, g, n, k, prev: prev + wq(n, x, k) * (f[zi(k)] * g[zi(k)]))
for pre, st in (("lin", "LinElemExp"), ("const", "ConstElemExp")):
    E = EL(st); K = KS(st); P = pre + "_elem_exp_"; lin = pre == "lin"; NDIFF = st + ".diff"
    def arr0(c, i): return lambda k: c.S0.raw("double", O(c.a[i]), iadd(c.a[i].off, k))
    def others0(S, p, lin=lin, st=st):
        return And(S.fo(p, st + ".diff") == 0, *([S.fo(p, "LinElemExp.inner") == 0, S.fo(p, "LinElemExp.Lp") == 0] if lin else []))
    contract(P + "alloc", prop=("C08", "C02"), allocs=True, keys=K,
        ensures=lambda c, E=E, st=st, o0=others0: [("new object", And(vstruct(c.S, c.res, st), isfresh(c, c.res))), ("empty", And(E.n(c.S, c.res) == 0, E.xo(c.S, c.res) == 0, E.co(c.S, c.res) == 0, o0(c.S, c.res)))])
    def cpreq(c, E=E, lin=lin):
        L = [("function", E.ok(c.S, c[0]))]
        if lin: L.append(("operator matrix", Or(c.S.fo(c[0], "LinElemExp.Lp") == 0, varr(c.S, c.S.fo(c[0], "LinElemExp.Lp"), imul(E.n(c.S, c[0]), E.n(c.S, c[0]))))))
        return L
    def cpens(c, E=E, lin=lin):
        L = E.new(c, c.res, E.n(c.S0, c[0]), lambda i, v: v == E.x(c.S0, c[0], i), lambda i, v: v == E.c(c.S0, c[0], i))
        L.append(("two storages", E.xo(c.S, c.res) != E.co(c.S, c.res)))
        if lin:
            a = c.S0.fo(c[0], "LinElemExp.Lp"); b = c.S.fo(c.res, "LinElemExp.Lp"); nn = imul(E.n(c.S0, c[0]), E.n(c.S0, c[0]))
            L.append(("operator matrix", Implies(a == 0, b == 0)))
            L.append(("operator matrix copied", Implies(a != 0, And(ens_fresh(c, b, nn), AllG(c, nn, lambda i: c.S.raw("double", b, i) == c.S0.raw("double", a, i), k=1)))))
            L.append(("no other cached data", And(c.S.fo(c.res, "LinElemExp.inner") == 0, c.S.fo(c.res, "LinElemExp.diff") == 0)))
        return L
    contract(P + "copy", prop=("C02", "C08"), allocs=True, keys=K, requires=cpreq, ensures=cpens)
    contract(P + "init", prop="C08", allocs=True, keys=K,
        requires=lambda c: [("number of nodes", c[0] > 1), ("nodes", varr(c.S, c[1], c[0])), ("values", varr(c.S, c[2], c[0]))],
        ensures=lambda c, E=E, o0=others0: E.new(c, c.res, c[0], lambda i, v: v == c.S0.raw("double", O(c[1]), i), lambda i, v: v == c.S0.raw("double", O(c[2]), i)) + [("no cached data", o0(c.S, c.res))])
    OPT = st + "Aopts"
    OK_ = [OPT + "." + f for f in ("num_nodes", "nodes", "lb", "ub")]
    def opt(c, i, st=st, OPT=OPT):
        return And(vstruct(c.S, c[i], OPT), Or(c.S.f(c[i], OPT + ".num_nodes") == 0, And(varr(c.S, c.S.fo(c[i], OPT + ".nodes"), c.S.f(c[i], OPT + ".num_nodes")))))
    def onode(c, i, OPT=OPT):
        n = c.S0.f(c.a[i], OPT + ".num_nodes"); x = c.S0.fo(c.a[i], OPT + ".nodes")
        N = z3.If(n == 0, zi(2), n)
        return N, lambda k, v: And(Implies(n != 0, v == c.S0.raw("double", x, k)),
            Implies(n == 0, v == z3.If(zi(k) == 0, c.S0.f(c.a[i], OPT + ".lb"), c.S0.f(c.a[i], OPT + ".ub"))))
    contract(P + "create_with_params", prop=("C03", "C08"), allocs=True, keys=K + OK_,
        requires=lambda c, opt=opt, OPT=OPT: [("options", opt(c, 0)), ("one parameter per node", And(c[1] >= 1, c.S.f(c[0], OPT + ".num_nodes") == zi(c[1]))), ("parameters", varr(c.S, c[2], c[1]))],
        ensures=lambda c, E=E, onode=onode: E.new(c, c.res, c[1], onode(c, 0)[1], lambda i, v: v == c.S0.raw("double", O(c[2]), i)))
    def mkconst(nm, ai, val, req=None, E=E, K=K, OK_=OK_, onode=onode, opt=opt, **kw):
        contract(nm, prop="C08", allocs=True, keys=K + OK_, requires=lambda c: [("options", opt(c, ai))],
            ensures=lambda c: E.new(c, c.res, onode(c, ai)[0], onode(c, ai)[1], lambda i, v: v == val(c, E.x(c.S, c.res, i))),
            templates=E.tm(lambda c: onode(c, ai)[0], lambda c, k, v: onode(c, ai)[1](k, v), lambda c, k, v: True) +
              upto(lambda c, p, g: E.c(c.S, p, g) == val(c, E.x(c.S, p, g)), n=lambda c: onode(c, ai)[0]), **kw)
    mkconst(P + "constant", 1, lambda c, x: zr(c.a[0]))
    mkconst(P + "zero", 0, lambda c, x: zr(0))
    if lin: mkconst(P + "linear", 2, lambda c, x: zr(c.a[0]) * x + zr(c.a[1]))
    one = lambda c, E=E: [("function", E.ok(c.S, c[0]))]
    contract(P + "get_num_nodes", prop="C08", keys=K, requires=one, ensures=lambda c, E=E: [("value", c.res == E.n(c.S0, c[0]))])
    contract(P + "get_num_params", prop="C03", keys=K, requires=one, ensures=lambda c, E=E: [("value", c.res == E.n(c.S0, c[0]))])
    contract(P + "get_params", prop="C03", keys=K, mods=["double"], requires=lambda c, E=E, one=one: one(c) + [("space", varr(c.S, c[1], E.n(c.S, c[0]))), ("separate", And(O(c[1]) != E.xo(c.S, c[0]), O(c[1]) != E.co(c.S, c[0])))], interior=(1,),
        assigns=lambda c, E=E: [("double", c[1], c[1].off, iadd(c[1].off, E.n(c.S0, c[0])))],
        ensures=lambda c, E=E: [("count", c.res == E.n(c.S0, c[0])), ("parameters", AllG(c, E.n(c.S0, c[0]), lambda i: c.S.raw("double", O(c[1]), iadd(c[1].off, i)) == E.c(c.S0, c[0], i)))],
        templates=upto(lambda c, p, g, E=E: c.S.raw("double", O(c.a[1]), iadd(c.a[1].off, g)) == E.c(c.S0, c.a[0], g), n=lambda c, E=E: E.n(c.S0, c.a[0]), p=None))
    contract(P + "get_params_ref", prop="C03", keys=K + ["i64"], mods=["i64"], requires=lambda c, E=E, one=one: one(c) + [("space", varr(c.S, c[1], 1))], interior=(1,),
        assigns=lambda c: [("i64", c[1], c[1].off, iadd(c[1].off, 1))],
        ensures=lambda c, E=E: [("count", c.S.raw("i64", O(c[1]), c[1].off) == E.n(c.S0, c[0])), ("the parameters themselves", And(O(c.res) == E.co(c.S0, c[0]), zi(c.res.off) == 0))])
    contract(P + "update_params", prop="C03", keys=K, mods=["double"], interior=(2,),
        requires=lambda c, E=E, one=one: one(c) + [("count", E.n(c.S, c[0]) == zi(c[1])), ("parameters", varr(c.S, c[2], c[1])), ("separate", O(c[2]) != E.co(c.S, c[0]))],
        assigns=lambda c, E=E: [("double", Ptr(E.co(c.S0, c[0])), 0, E.n(c.S0, c[0]))],
        ensures=lambda c, E=E: [("done", c.res == 0), ("object kept", E.same(c, c[0])), ("parameters", AllG(c, c[1], lambda i: E.c(c.S, c[0], i) == c.S0.raw("double", O(c[2]), iadd(c[2].off, i))))],
        templates=upto(lambda c, p, g, E=E: E.c(c.S, c.a[0], g) == c.S0.raw("double", O(c.a[2]), iadd(c.a[2].off, g)), n=lambda c: c.a[1], p=None))
    contract(P + "get_nodal_val", prop="C08", keys=K, requires=lambda c, E=E, one=one: one(c) + [("node", zi(c[1]) < E.n(c.S, c[0]))], ensures=lambda c, E=E: [("value", c.res == E.c(c.S0, c[0], c[1]))])
    contract(P + "get_lb", prop="C08", keys=K, requires=one, ensures=lambda c, E=E: [("value", c.res == E.x(c.S0, c[0], 0))])
    contract(P + "get_ub", prop="C08", keys=K, requires=one, ensures=lambda c, E=E: [("value", c.res == E.x(c.S0, c[0], isub(E.n(c.S0, c[0]), 1)))])
    # ---- search and evaluation
    def low(c, k, E=E): return Or(zi(k) == 0, E.x(c.S0, c.a[0], k) <= zr(c.a[1]))
    def up(c, k, E=E): return Or(zi(k) == E.n(c.S0, c.a[0]) - 1, zr(c.a[1]) < E.x(c.S0, c.a[0], k))
    def at(c, k, E=E): return absr(zr(c.a[1]) - E.x(c.S0, c.a[0], k)) <= TOL
    stm = [lambda c, k1, E=E, low=low: And(zi(k1) >= 0, zi(k1) < E.n(c.S0, c.a[0]), low(c, k1)), lambda c, k1, E=E, up=up: And(zi(k1) > 0, zi(k1) < E.n(c.S0, c.a[0]), up(c, k1)),
           lambda c, k1, k2: zi(k1) < zi(k2), lambda c, k1, k2: zi(k1) <= zi(k2), lambda c, k1, k2, k3: Or(zi(k1) == zi(k2), And(zi(k2) < zi(k1), zi(k1) < zi(k3))),
           lambda c, k1, k2, k3: Implies(zi(k1) == zi(k2), zi(k3) <= zi(k2) + 1), lambda c, k1, k2, k3: zi(k1) == zi(k2) + (zi(k3) - zi(k2)) / 2]
    srt = lambda c, E=E, one=one: one(c) + [("nodes increase", E.sorted(c.S, c[0]))]
    if lin:
        contract(P + "find_interval", prop="C08", keys=K, requires=one, templates=stm,
            ensures=lambda c, E=E, low=low, up=up, at=at: [("an interval", And(zi(c.res) >= 0, zi(c.res) + 1 < E.n(c.S0, c[0]))), ("contains the point, or its left end is the point", Or(at(c, c.res), And(low(c, c.res), up(c, iadd(c.res, 1)))))])
    else:
        contract(P + "find_node", prop="C08", keys=K, requires=one, templates=stm,
            ensures=lambda c, E=E, low=low, up=up, at=at: [("a node", And(zi(c.res) >= 0, zi(c.res) < E.n(c.S0, c[0]))),
                ("nearest of its neighbours, or the point itself", Or(at(c, c.res), And(zi(c.res) + 1 < E.n(c.S0, c[0]), low(c, c.res), up(c, iadd(c.res, 1)), zr(c[1]) - E.x(c.S0, c[0], c.res) < E.x(c.S0, c[0], iadd(c.res, 1)) - zr(c[1])),
                    And(zi(c.res) > 0, low(c, isub(c.res, 1)), up(c, c.res), zr(c[1]) - E.x(c.S0, c[0], isub(c.res, 1)) >= E.x(c.S0, c[0], c.res) - zr(c[1])) if True else None))])
    def out(E, S, p, t): return Or(t < E.x(S, p, 0), t > E.x(S, p, isub(E.n(S, p), 1)))
    def interp(E, S, p, g, t):
        a, b = E.x(S, p, g), E.x(S, p, iadd(g, 1))
        return E.c(S, p, g) * ((b - t) / (b - a)) + E.c(S, p, iadd(g, 1)) * (1 - (b - t) / (b - a))
    def evspec(c, f, t, v, E=E, lin=lin, out=out, interp=interp, k=0):
        """v is the value of function f at t"""
        S = c.S0; n = E.n(S, f)
        L = [("zero outside", Implies(out(E, S, f, t), v == 0)),
             ("exact at the nodes", AllG(c, n, lambda g: Implies(t == E.x(S, f, g), v == E.c(S, f, g)), pats=lambda g: [E.c(S, f, g), E.x(S, f, g)], k=k))]
        if lin: L.append(("linear in between", AllG(c, isub(n, 1), lambda g: Implies(And(t > E.x(S, f, g) + 2 * TOL, t < E.x(S, f, iadd(g, 1)) - 2 * TOL), v == interp(E, S, f, g, t)), pats=lambda g: [E.c(S, f, g), E.x(S, f, g)], k=k)))
        else: L.append(("nearest node in between", AllG(c, isub(n, 1), lambda g: And(Implies(And(t > E.x(S, f, g) + 2 * TOL, t - E.x(S, f, g) < E.x(S, f, iadd(g, 1)) - t, E.x(S, f, iadd(g, 1)) - t > 2 * TOL), v == E.c(S, f, g)),
            Implies(And(t < E.x(S, f, iadd(g, 1)) - 2 * TOL, t - E.x(S, f, g) > E.x(S, f, iadd(g, 1)) - t, t - E.x(S, f, g) > 2 * TOL), v == E.c(S, f, iadd(g, 1)))), pats=lambda g: [E.c(S, f, g), E.x(S, f, g)], k=k)))
        if not c.proving: L.append(("terms", touch(E.x(S, f, 0), E.c(S, f, 0))))
        return L
    E.evspec = evspec
    EVC = z3.Function("EV_" + st, HD, HD, I, R, R)
    def evc(S, f, t, E=E, EVC=EVC): return EVC(S.arr("double", E.xo(S, f)), S.arr("double", E.co(S, f)), E.n(S, f), zr(t))
    # EVP names the conjunction evspec (definition); the strided evaluation is proved in terms of the name only
    EVP = z3.Function(P + "EVP", z3.ArraySort(I, R), z3.ArraySort(I, R), I, R, R, B)
    def evp(S, f, t, v, E=E, EVP=EVP): return EVP(S.arr("double", E.xo(S, f)), S.arr("double", E.co(S, f)), zi(E.n(S, f)), zr(t), v)
    contract(P + "eval", prop="C08", keys=K, requires=srt, ensures=lambda c, evspec=evspec, evp=evp: evspec(c, c[0], zr(c[1]), c.res) + ([] if c.proving else [("name", evp(c.S0, c[0], zr(c[1]), c.res))]))
    # strided evaluation
    def esp(c, g, evp=evp): return evp(c.S0, c.a[0], c.S0.raw("double", O(c.a[2]), iadd(c.a[2].off, imul(g, c.a[3]))), c.S.raw("double", O(c.a[4]), iadd(c.a[4].off, imul(g, c.a[5]))))
    # ---- in-place linear operations
    for nm, fi, fac in (("scale", 1, lambda c: zr(c.a[0])), ("flip_sign", 0, lambda c: zr(-1))):
        contract(P + nm, prop="C08", keys=K, mods=["double"], requires=lambda c, E=E, fi=fi: [("function", E.ok(c.S, c[fi]))],
            assigns=lambda c, E=E, fi=fi: [("double", Ptr(E.co(c.S0, c[fi])), 0, E.n(c.S0, c[fi]))],
            ensures=lambda c, E=E, fi=fi, fac=fac: [("object kept", E.same(c, c[fi])), ("values", AllG(c, E.n(c.S0, c[fi]), lambda i: E.c(c.S, c[fi], i) == fac(c) * E.c(c.S0, c[fi], i), pats=lambda i: [E.c(c.S, c[fi], i)]))],
            templates=upto(lambda c, p, g, E=E, fi=fi, fac=fac: E.c(c.S, c.a[fi], g) == fac(c) * E.c(c.S0, c.a[fi], g), n=lambda c, E=E, fi=fi: E.n(c.S0, c.a[fi]), p=None))
    # ---- quadrature
    def qs(S, f, k, E=E): return QS.at([S.arr("double", E.xo(S, f)), S.arr("double", E.co(S, f)), zi(E.n(S, f))], k)
    half = lambda c, x, k, S, f, E=E: x == (E.x(S, f, k) - E.x(S, f, isub(k, 1))) / 2
    contract(P + "integrate", prop="C08", keys=K, requires=one, ensures=lambda c, E=E, qs=qs: [("nodal quadrature", c.res == qs(c.S0, c[0], E.n(c.S0, c[0])))],
        prep=lambda c, E=E, qs=qs: [qs(c.S0, c[0], 0), qs(c.S0, c[0], 1), qs(c.S0, c[0], isub(E.n(c.S0, c[0]), 1))],
        templates=[lambda c, k, x, qs=qs: x == qs(c.S0, c.a[0], k), lambda c, k, x, half=half: half(c, x, k, c.S0, c.a[0])])
    def qi(c, k, ia=2, ib=3): return QI.at([c.S0.arr("double", O(c.a[1])), c.S0.arr("double", O(c.a[ia])), c.S0.arr("double", O(c.a[ib])), zi(c.a[0])], k)
    contract(P + "inner_same", prop="C08", keys=["double"], requires=lambda c: [("size", c[0] >= 2)] + [("array %d" % i, varr(c.S, c[i], c[0])) for i in (1, 2, 3)],
        ensures=lambda c, qi=qi: [("nodal quadrature of the product", c.res == qi(c, c[0]))], prep=lambda c, qi=qi: [qi(c, 0), qi(c, 1), qi(c, isub(c[0], 1))],
        templates=[lambda c, k, x, qi=qi: x == qi(c, k), lambda c, k, x: x == (c.S0.raw("double", O(c.a[1]), k) - c.S0.raw("double", O(c.a[1]), isub(k, 1))) / 2])
    contract(pre + "_elem_sdiscp", prop="C08", keys=K, requires=lambda c, E=E: [("first", E.ok(c.S, c[0])), ("second", E.ok(c.S, c[1]))],
        ensures=lambda c, E=E: [("0 or 1", Or(c.res == 0, c.res == 1)),
            ("same nodes", Implies(c.res == 1, And(E.n(c.S0, c[0]) == E.n(c.S0, c[1]), AllG(c, E.n(c.S0, c[0]), lambda i: absr(E.x(c.S0, c[0], i) - E.x(c.S0, c[1], i)) <= TOL)))),
            ("other nodes", Implies(And(E.n(c.S0, c[0]) == E.n(c.S0, c[1]), All(E.n(c.S0, c[0]), lambda i: E.x(c.S0, c[0], i) == E.x(c.S0, c[1], i), pats=lambda i: [E.x(c.S0, c[0], i)])), c.res == 1))],
        templates=upto(lambda c, p, g, E=E: absr(E.x(c.S0, c.a[0], g) - E.x(c.S0, c.a[1], g)) <= TOL, p=None))
    # ---- extrema
    for nm, better in (("max", lambda a, b: a >= b), ("min", lambda a, b: a <= b)):
        contract(P + nm, prop="C08", keys=K, mods=["double"], interior=(1,), requires=lambda c, E=E, one=one: one(c) + [("location", varr(c.S, c[1], 1)), ("separate", And(O(c[1]) != E.xo(c.S, c[0]), O(c[1]) != E.co(c.S, c[0])))],
            assigns=lambda c: [("double", c[1], c[1].off, iadd(c[1].off, 1))],
            ensures=lambda c, E=E, better=better: [("bound", AllG(c, E.n(c.S0, c[0]), lambda i: better(c.res, E.c(c.S0, c[0], i)))),
                ("attained at the location", Ex(E.n(c.S0, c[0]), lambda i: And(c.res == E.c(c.S0, c[0], i), c.S.raw("double", O(c[1]), c[1].off) == E.x(c.S0, c[0], i)), lambda i: [E.c(c.S0, c[0], i), E.c(c.S, c[0], i), E.x(c.S0, c[0], i), E.x(c.S, c[0], i)]))],
            templates=[lambda c, k, x, E=E, better=better: Implies(And(c.g(0) >= 0, c.g(0) < zi(k), c.g(0) < E.n(c.S0, c.a[0])), better(x, E.c(c.S0, c.a[0], c.g(0)))),
                lambda c, k, x, E=E: Ex(E.n(c.S0, c.a[0]), lambda i: And(i < zi(k), x == E.c(c.S0, c.a[0], i), c.S.raw("double", O(c.a[1]), c.a[1].off) == E.x(c.S0, c.a[0], i)), lambda i: [E.c(c.S0, c.a[0], i), E.c(c.S, c.a[0], i), E.x(c.S0, c.a[0], i), E.x(c.S, c.a[0], i)])])
    # ---- strided evaluation at many points
    def sep(S, p, f, E=E): return And(O(p) != E.xo(S, f), O(p) != E.co(S, f), O(p) != O(f))
    def stridv(S, p, n, inc): return And(O(p) > 0, O(p) < zi(S.alloc), S.live(p), zi(p.off) >= 0, Implies(zi(n) > 0, zi(iscale(8, iadd(iadd(p.off, imul(isub(n, 1), inc)), 1))) <= BSIZE(O(p))))
    contract(P + "evalN", prop="C08", keys=K, mods=["double"], interior=(2, 4),
        requires=lambda c, srt=srt, sep=sep, stridv=stridv: srt(c) + [("points", stridv(c.S, c[2], c[1], c[3])), ("output", stridv(c.S, c[4], c[1], c[5])), ("stride", c[5] >= 1), ("output separate", And(sep(c.S, c[4], c[0]), O(c[4]) != O(c[2])))],
        assigns=lambda c: [("double", c[4])], lemmas=[lambda c: mono(iadd(c.g(0), 1), c[5]), lambda c: mono(c.g(0), c[5]), lambda c: mono(c[1], c[5]), lambda c: mono(c[1], c[3])],
        ensures=lambda c, evspec=evspec, esp=esp: [("values", AllG(c, c[1], lambda i: esp(c, i) if c.proving else And(*[q for _, q in evspec(c, c[0], c.S0.raw("double", O(c[2]), iadd(c[2].off, imul(i, c[3]))), c.S.raw("double", O(c[4]), iadd(c[4].off, imul(i, c[5]))), k=1)])))],
        templates=upto(lambda c, p, g, esp=esp: esp(c, g), n=lambda c: c.a[1], p=None))
    # ---- derivative at a point, as a function of the nodes
    if lin:
        def dq(S, f, i, j, E=E): return (E.c(S, f, j) - E.c(S, f, i)) / (E.x(S, f, j) - E.x(S, f, i))
        def dnode(S, f, g, E=E, dq=dq):
            n = E.n(S, f); g = zi(g)
            return z3.If(g == 0, dq(S, f, 0, 1), z3.If(g == n - 1, dq(S, f, n - 2, n - 1), dq(S, f, g - 1, g + 1)))
        contract(P + "deriv_eval", prop="C08", keys=K, requires=srt,
            ensures=lambda c, E=E, dq=dq, dnode=dnode, out=out: [("zero outside", Implies(out(E, c.S0, c[0], zr(c[1])), c.res == 0)),
                ("slope in between", AllG(c, isub(E.n(c.S0, c[0]), 1), lambda g: Implies(And(zr(c[1]) > E.x(c.S0, c[0], g) + 2 * TOL, zr(c[1]) < E.x(c.S0, c[0], iadd(g, 1)) - 2 * TOL), c.res == dq(c.S0, c[0], g, iadd(g, 1))))),
                ("difference quotient at the nodes", AllG(c, isub(E.n(c.S0, c[0]), 1), lambda g: Implies(zr(c[1]) == E.x(c.S0, c[0], g), c.res == dnode(c.S0, c[0], g))))])
        def dval(S, f, g, v, E=E, dnode=dnode):
            # the higher-order quotient used away from the ends (more than five nodes) is left to the replay harness
            n = E.n(S, f); g = zi(g)
            return z3.Implies(z3.Or(n <= 5, g <= 1, g >= n - 2), v == dnode(S, f, g))
        contract(P + "deriv", prop="C08", allocs=True, keys=K, requires=one,
            ensures=lambda c, E=E, dval=dval: E.new(c, c.res, E.n(c.S0, c[0]), lambda i, v: v == E.x(c.S0, c[0], i), lambda i, v: dval(c.S0, c[0], i, v)),
            templates=upto(lambda c, p, g, E=E, dval=dval: dval(c.S0, c.a[0], g, E.c(c.S, p, g)), n=lambda c, E=E: E.n(c.S0, c.a[0])))
        contract(P + "squared_norm_param_grad", prop="C03", keys=K, mods=["double"], interior=(2,),
            requires=lambda c, E=E, one=one, sep=sep: one(c) + [("gradient", varr(c.S, c[2], E.n(c.S, c[0]))), ("separate", sep(c.S, c[2], c[0]))],
            assigns=lambda c, E=E: [("double", c[2], c[2].off, iadd(c[2].off, E.n(c.S0, c[0])))],
            ensures=lambda c, E=E: [("done", c.res == 0), ("gradient of the nodal quadrature of the square, added", AllG(c, E.n(c.S0, c[0]), lambda i: c.S.raw("double", O(c[2]), iadd(c[2].off, i)) == c.S0.raw("double", O(c[2]), iadd(c[2].off, i)) + 2 * zr(c[1]) * (wq(E.n(c.S0, c[0]), c.S0.arr("double", E.xo(c.S0, c[0])), i) * E.c(c.S0, c[0], i))))],
            templates=upto(lambda c, p, i, E=E: c.S.raw("double", O(c.a[2]), iadd(c.a[2].off, i)) == c.S0.raw("double", O(c.a[2]), iadd(c.a[2].off, i)) + 2 * zr(c.a[1]) * (wq(E.n(c.S0, c.a[0]), c.S0.arr("double", E.xo(c.S0, c.a[0])), i) * E.c(c.S0, c.a[0], i)), n=lambda c, E=E: E.n(c.S0, c.a[0]), p=None) + [lambda c, k: Implies(c.g(0) >= zi(k), c.S.raw("double", O(c.a[2]), iadd(c.a[2].off, c.g(0))) == c.S0.raw("double", O(c.a[2]), iadd(c.a[2].off, c.g(0))))])
    else:
        contract(P + "deriv_eval", prop="C08", keys=K, requires=one, ensures=lambda c: [("zero", c.res == 0)])
        def fd(S, f, g, E=E):
            n = E.n(S, f); g = zi(g); a = z3.If(g + 1 < n, g, n - 2)
            return (E.c(S, f, a + 1) - E.c(S, f, a)) / (E.x(S, f, a + 1) - E.x(S, f, a))
        contract(P + "deriv", prop="C08", allocs=True, keys=K, requires=one,
            ensures=lambda c, E=E, fd=fd: E.new(c, c.res, E.n(c.S0, c[0]), lambda i, v: v == E.x(c.S0, c[0], i), lambda i, v: v == fd(c.S0, c[0], i)),
            templates=upto(lambda c, p, g, E=E, fd=fd: E.c(c.S, p, g) == fd(c.S0, c.a[0], g), n=lambda c, E=E: E.n(c.S0, c.a[0])))
        contract(P + "prod", prop="C08", allocs=True, keys=K,
            requires=lambda c, E=E: [("first", E.ok(c.S, c[0])), ("second", E.ok(c.S, c[1])), ("same number of nodes", E.n(c.S, c[0]) == E.n(c.S, c[1])), ("same nodes", All(E.n(c.S, c[0]), lambda i: E.x(c.S, c[0], i) == E.x(c.S, c[1], i), pats=lambda i: [E.x(c.S, c[0], i)]))],
            ensures=lambda c, E=E: E.new(c, c.res, E.n(c.S0, c[0]), lambda i, v: v == E.x(c.S0, c[0], i), lambda i, v: v == E.c(c.S0, c[0], i) * E.c(c.S0, c[1], i)),
            templates=upto(lambda c, p, g, E=E: E.c(c.S, p, g) == E.c(c.S0, c.a[0], g) * E.c(c.S0, c.a[1], g), n=lambda c, E=E: E.n(c.S0, c.a[0])))
    # ---- gradient of the value with respect to the parameters
    def gsp(c, f, t, gr, i, r, E=E, lin=lin):
        """entry i of the gradient gr at the point t, decided by the node or interval r"""
        S = c.S0; n = E.n(S, f); v = c.S.raw("double", O(gr), iadd(gr.off, i)); a = E.x(S, f, r); b = E.x(S, f, iadd(r, 1)); i = zi(i); r = zi(r)
        L = [Implies(And(r >= 0, r < n, t == a), v == z3.If(i == r, zr(1), zr(0)))]
        if lin: L.append(Implies(And(r >= 0, r + 1 < n, t > a + 2 * TOL, t < b - 2 * TOL), v == z3.If(i == r, (b - t) / (b - a), z3.If(i == r + 1, 1 - (b - t) / (b - a), zr(0)))))
        else: L += [Implies(And(r >= 0, r + 1 < n, t > a + 2 * TOL, t - a < b - t, b - t > 2 * TOL), v == z3.If(i == r, zr(1), zr(0))), Implies(And(r >= 0, r + 1 < n, t < b - 2 * TOL, t - a > b - t, t - a > 2 * TOL), v == z3.If(i == r + 1, zr(1), zr(0)))]
        return And(*L)
    contract(P + "param_grad_eval2", prop="C03", keys=K, mods=["double"], interior=(2,),
        requires=lambda c, srt=srt, sep=sep, E=E: srt(c) + [("gradient", varr(c.S, c[2], E.n(c.S, c[0]))), ("separate", sep(c.S, c[2], c[0]))],
        assigns=lambda c, E=E: [("double", c[2], c[2].off, iadd(c[2].off, E.n(c.S0, c[0])))],
        ensures=lambda c, E=E, gsp=gsp, evspec=evspec, out=out: [("gradient", AllG(c, E.n(c.S0, c[0]), lambda i: gsp(c, c[0], zr(c[1]), c[2], i, c.g(1))))] +
            [(l, Implies(Not(out(E, c.S0, c[0], zr(c[1]))), q)) for l, q in evspec(c, c[0], zr(c[1]), c.res) if l != "zero outside"],
        templates=upto(lambda c, p, g, E=E: c.S.raw("double", O(c.a[2]), iadd(c.a[2].off, g)) == 0, n=lambda c, E=E: E.n(c.S0, c.a[0]), p=None) +
            [lambda c, k, n, E=E: Implies(And(c.g(0) >= 0, c.g(0) < zi(n)), c.S.raw("double", O(c.a[2]), iadd(c.a[2].off, c.g(0))) == 0),
             lambda c, k, n, o=(2 if lin else 1): Implies(And(c.g(0) >= zi(n) + o, c.g(0) < zi(k)), c.S.raw("double", O(c.a[2]), iadd(c.a[2].off, c.g(0))) == 0)])
    # ---- addition on the same nodes
    def smn(c, f, g, E=E): return [("first", E.ok(c.S, f)), ("second", E.ok(c.S, g)), ("same number of nodes", E.n(c.S, f) == E.n(c.S, g)), ("same nodes", All(E.n(c.S, f), lambda i: E.x(c.S, f, i) == E.x(c.S, g, i), pats=lambda i: [E.x(c.S, f, i)])), ("separate", And(E.co(c.S, g) != E.co(c.S, f), E.co(c.S, g) != E.xo(c.S, f)))]
    for nm in ("axpy_same", "axpy"):
        contract(P + nm, prop="C08", keys=K, mods=["double"], requires=lambda c, smn=smn: smn(c, c[1], c[2]), assigns=lambda c, E=E: [("double", Ptr(E.co(c.S0, c[2])), 0, E.n(c.S0, c[2]))],
            ensures=lambda c, E=E: [("done", c.res == 0), ("object kept", E.same(c, c[2])), ("values", AllG(c, E.n(c.S0, c[2]), lambda i: E.c(c.S, c[2], i) == zr(c[0]) * E.c(c.S0, c[1], i) + E.c(c.S0, c[2], i), pats=lambda i: [E.c(c.S, c[2], i)]))])
    def qin(S, f, g, k, E=E): return QI.at([S.arr("double", E.xo(S, f)), S.arr("double", E.co(S, f)), S.arr("double", E.co(S, g)), zi(E.n(S, f))], k)
    contract(P + "inner", prop="C08", keys=K, requires=lambda c, smn=smn: smn(c, c[0], c[1])[:4], ensures=lambda c, qin=qin, E=E: [("nodal quadrature of the product", c.res == qin(c.S0, c[0], c[1], E.n(c.S0, c[0])))])
    contract(P + "norm", prop="C08", keys=K, requires=one, ensures=lambda c, qin=qin, E=E: [("root of the inner product", c.res == mathfn("sqrt", 1)(qin(c.S0, c[0], c[0], E.n(c.S0, c[0]))))])
contract("cblas_daxpy", trusted=True, why="BLAS", keys=["double", "#live"], mods=["double"], interior=(2, 4),
    requires=lambda c: [("unit strides", And(c[3] == 1, c[5] == 1)), ("x", varr(c.S, c[2], c[0])), ("y", varr(c.S, c[4], c[0])), ("no overlap", O(c[2]) != O(c[4]))],
    assigns=lambda c: [("double", c[4], c[4].off, iadd(c[4].off, c[0]))],
    ensures=lambda c: [All(c[0], lambda i: c.S.raw("double", O(c[4]), iadd(c[4].off, i)) == zr(c[1]) * c.S0.raw("double", O(c[2]), iadd(c[2].off, i)) + c.S0.raw("double", O(c[4]), iadd(c[4].off, i)), pats=lambda i: [c.S.raw("double", O(c[4]), iadd(c[4].off, i))] if not c.proving else None)])
