"""The class dispatch of univariate functions (functions.c), for the classes whose operations have contracts (layer "conc"):
what the abstract layer assumes about a function object is what the class does with its nodes and values."""
from dsl import *
from c_elem import *
import c_elem
layer("conc")
EL_ = {"LINELM": EL("LinElemExp"), "CONSTELM": EL("ConstElemExp")}
GKC = ["GenericFunction.fc", "GenericFunction.f", "GenericFunction.dim", "GenericFunction.fargs"] + sorted(set(KS("LinElemExp") + KS("ConstElemExp")))
def fc(S, p): return S.f(p, "GenericFunction.fc")
def ff(S, p): return S.fo(p, "GenericFunction.f")
def cases(S, p, fn):
    """fn(E, object) for the class of p"""
    return And(*[Implies(fc(S, p) == EN(k), fn(E, Ptr(ff(S, p)))) for k, E in EL_.items()])
def gok(S, p, srt=False):
    return And(vstruct(S, p, "GenericFunction"), Or(*[fc(S, p) == EN(k) for k in EL_]), ff(S, p) != O(p), S.f(p, "GenericFunction.dim") == 1,
               cases(S, p, lambda E, f: And(E.ok(S, f), E.xo(S, f) != O(p), E.co(S, f) != O(p), E.sorted(S, f) if srt else True,
                  Or(S.fo(f, "LinElemExp.Lp") == 0, varr(S, S.fo(f, "LinElemExp.Lp"), imul(E.n(S, f), E.n(S, f)))) if E.st == "LinElemExp" else True)))
def evs(E, c, f, t, v, k=0):
    S = c.S0; n = E.n(S, f)
    x = lambda g: E.x(S, f, g); y = lambda g: E.c(S, f, g); pt = lambda g: [y(g), x(g)]
    L = [Implies(Or(t < x(0), t > x(isub(n, 1))), v == 0), AllG(c, n, lambda g: Implies(t == x(g), v == y(g)), pats=pt, k=k)]
    if E.st == "LinElemExp":
        def ip(g):
            a, b = x(g), x(iadd(g, 1)); return y(g) * ((b - t) / (b - a)) + y(iadd(g, 1)) * (1 - (b - t) / (b - a))
        L.append(AllG(c, isub(n, 1), lambda g: Implies(And(t > x(g) + 2 * TOL, t < x(iadd(g, 1)) - 2 * TOL), v == ip(g)), pats=pt, k=k))
    else:
        L.append(AllG(c, isub(n, 1), lambda g: And(Implies(And(t > x(g) + 2 * TOL, t - x(g) < x(iadd(g, 1)) - t, x(iadd(g, 1)) - t > 2 * TOL), v == y(g)),
            Implies(And(t < x(iadd(g, 1)) - 2 * TOL, t - x(g) > x(iadd(g, 1)) - t, t - x(g) > 2 * TOL), v == y(iadd(g, 1)))), pats=pt, k=k))
    return And(*L)
def G(name, prop="C08", **kw): contract(name, prop=prop, keys=GKC + kw.pop("xk", []), **kw)
g1 = lambda c: [("function", gok(c.S, c[0]))]
G("generic_function_get_num_params", "C03", requires=g1, ensures=lambda c: [("one per node", cases(c.S0, c[0], lambda E, f: c.res == E.n(c.S0, f)))])
G("generic_function_get_lb", requires=g1, ensures=lambda c: [("first node", cases(c.S0, c[0], lambda E, f: c.res == E.x(c.S0, f, 0)))])
G("generic_function_get_ub", requires=g1, ensures=lambda c: [("last node", cases(c.S0, c[0], lambda E, f: c.res == E.x(c.S0, f, isub(E.n(c.S0, f), 1))))])
G("generic_function_1d_eval", requires=lambda c: g1(c) + [("increasing nodes", cases(c.S, c[0], lambda E, f: E.sorted(c.S, f)))], ensures=lambda c: [("value", cases(c.S0, c[0], lambda E, f: evs(E, c, f, zr(c[1]), c.res)))])
G("generic_function_1d_eval_ind", requires=lambda c: g1(c) + [("node", cases(c.S, c[0], lambda E, f: zi(c[1]) < E.n(c.S, f)))], ensures=lambda c: [("value", cases(c.S0, c[0], lambda E, f: c.res == E.c(c.S0, f, c[1])))])
G("generic_function_integrate", requires=g1, ensures=lambda c: [("nodal quadrature", cases(c.S0, c[0], lambda E, f: c.res == QS.at([c.S0.arr("double", E.xo(c.S0, f)), c.S0.arr("double", E.co(c.S0, f)), zi(E.n(c.S0, f))], E.n(c.S0, f))))])
def same2(S, p, q):
    return And(fc(S, p) == fc(S, q), *[Implies(fc(S, p) == EN(k), And(E.n(S, ff(S, p)) == E.n(S, ff(S, q)), All(E.n(S, ff(S, p)), lambda i: E.x(S, ff(S, p), i) == E.x(S, ff(S, q), i), pats=lambda i: [E.x(S, ff(S, p), i)]))) for k, E in EL_.items()])
G("generic_function_inner", requires=lambda c: [("first", gok(c.S, c[0])), ("second", gok(c.S, c[1])), ("same nodes", same2(c.S, c[0], c[1]))],
    ensures=lambda c: [("nodal quadrature of the product", cases(c.S0, c[0], lambda E, f: c.res == QI.at([c.S0.arr("double", E.xo(c.S0, f)), c.S0.arr("double", E.co(c.S0, f)), c.S0.arr("double", E.co(c.S0, ff(c.S0, c[1]))), zi(E.n(c.S0, f))], E.n(c.S0, f))))])
def inplace(nm, fi, val, req=None, ret=False):
    def asg(c): return [("double", Ptr(z3.If(fc(c.S0, c[fi]) == EN("LINELM"), EL_["LINELM"].co(c.S0, ff(c.S0, c[fi])), EL_["CONSTELM"].co(c.S0, ff(c.S0, c[fi])))))]
    G(nm, mods=["double"], requires=lambda c: [("function", gok(c.S, c[fi]))] + (req(c) if req else []), assigns=asg,
      ensures=lambda c: ([("done", c.res == 0)] if ret else []) + [("values", cases(c.S0, c[fi], lambda E, f: AllG(c, E.n(c.S0, f), lambda i: E.c(c.S, f, i) == val(c, E, f, i)))), ("nodes kept", cases(c.S0, c[fi], lambda E, f: And(E.n(c.S, f) == E.n(c.S0, f), E.xo(c.S, f) == E.xo(c.S0, f), E.co(c.S, f) == E.co(c.S0, f))))])
inplace("generic_function_scale", 1, lambda c, E, f, i: zr(c[0]) * E.c(c.S0, f, i))
inplace("generic_function_flip_sign", 0, lambda c, E, f, i: -E.c(c.S0, f, i))
inplace("generic_function_axpy", 2, lambda c, E, f, i: zr(c[0]) * E.c(c.S0, ff(c.S0, c[1]), i) + E.c(c.S0, f, i), ret=True,
    req=lambda c: [("operand", gok(c.S, c[1])), ("same nodes", same2(c.S, c[1], c[2])), ("separate", cases(c.S, c[2], lambda E, f: And(E.co(c.S, f) != E.co(c.S, ff(c.S, c[1])), E.co(c.S, f) != E.xo(c.S, ff(c.S, c[1]))))) ])
def gnew(c, cls, n, xv, cv):
    """a new function object of class cls with new storage"""
    S = c.S; r = c.res
    L = [("new object", And(vstruct(S, r, "GenericFunction"), isfresh(c, r), isfresh(c, Ptr(ff(S, r))))), ("class", fc(S, r) == zi(cls))]
    for k, E in EL_.items():
        f = Ptr(ff(S, r)); here = lambda q, k=k: Implies(zi(cls) == EN(k), q)
        L += [("shape", here(E.n(S, f) == zi(n(E)))), ("storage", here(And(E.ok(S, f, two=False), isfresh(c, Ptr(E.xo(S, f))), isfresh(c, Ptr(E.co(S, f)))))),
              ("nodes", here(AllG(c, n(E), lambda i: xv(E, i, E.x(S, f, i))))), ("values", here(AllG(c, n(E), lambda i: cv(E, i, E.c(S, f, i)))))]
    return L
def c0f(c, E, i=0): return Ptr(ff(c.S0, c[i]))
G("generic_function_copy", ("C02", "C08"), allocs=True, requires=g1, xk=["i64", "i32"],
    ensures=lambda c: gnew(c, fc(c.S0, c[0]), lambda E: E.n(c.S0, c0f(c, E)), lambda E, i, v: v == E.x(c.S0, c0f(c, E), i), lambda E, i, v: v == E.c(c.S0, c0f(c, E), i)))
# ---- constructors from options
def ocls(c, i, cls):
    S = c.S; L = []
    for k, E in EL_.items():
        o = E.st + "Aopts"
        L.append(Implies(zi(cls) == EN(k), And(vstruct(S, c[i], o), Or(S.f(c[i], o + ".num_nodes") == 0, varr(S, S.fo(c[i], o + ".nodes"), S.f(c[i], o + ".num_nodes"))))))
    return [("class", Or(*[zi(cls) == EN(k) for k in EL_])), ("options", And(*L))]
def on(c, i, E):
    o = E.st + "Aopts"; n = c.S0.f(c.a[i], o + ".num_nodes")
    return z3.If(n == 0, zi(2), n)
def ox(c, i, E, k, v):
    o = E.st + "Aopts"; n = c.S0.f(c.a[i], o + ".num_nodes")
    return And(Implies(n != 0, v == c.S0.raw("double", c.S0.fo(c.a[i], o + ".nodes"), k)), Implies(n == 0, v == z3.If(zi(k) == 0, c.S0.f(c.a[i], o + ".lb"), c.S0.f(c.a[i], o + ".ub"))))
OKK = [E.st + "Aopts." + f for E in EL_.values() for f in ("num_nodes", "nodes", "lb", "ub")] + ["i64", "i32"]
def ctor(nm, ci, oi, cv, prop="C08", req=None, n=None):
    G(nm, prop, allocs=True, xk=OKK, requires=lambda c: ocls(c, oi, c[ci]) + (req(c) if req else []),
      ensures=lambda c: gnew(c, c[ci], (lambda E: n(c)) if n else (lambda E: on(c, oi, E)), lambda E, k, v: ox(c, oi, E, k, v), lambda E, k, v: v == cv(c, E, k)))
ctor("generic_function_constant", 1, 2, lambda c, E, k: zr(c[0]))
ctor("generic_function_zero", 0, 1, lambda c, E, k: zr(0))
ctor("generic_function_linear", 2, 3, lambda c, E, k: zr(c[0]) * E.x(c.S, Ptr(ff(c.S, c.res)), k) + zr(c[1]), req=lambda c: [("class with linear functions", zi(c[2]) == EN("LINELM"))])
ctor("generic_function_create_with_params", 0, 1, lambda c, E, k: c.S0.raw("double", O(c[3]), k), ("C03", "C08"), n=lambda c: c[2],
    req=lambda c: [("parameters", varr(c.S, c[3], c[2])), ("one per node", And(zi(c[2]) >= 1, *[Implies(zi(c[0]) == EN(k), c.S.f(c[1], E.st + "Aopts.num_nodes") == zi(c[2])) for k, E in EL_.items()]))])
# ---- parameters
def psep(S, p, q): return cases(S, p, lambda E, f: And(O(q) != E.xo(S, f), O(q) != E.co(S, f)))
G("generic_function_get_params", "C03", mods=["double"], interior=(1,), requires=lambda c: g1(c) + [("space", cases(c.S, c[0], lambda E, f: varr(c.S, c[1], E.n(c.S, f)))), ("separate", psep(c.S, c[0], c[1]))],
    assigns=lambda c: [("double", c[1])],
    ensures=lambda c: [("count", cases(c.S0, c[0], lambda E, f: c.res == E.n(c.S0, f))), ("parameters", cases(c.S0, c[0], lambda E, f: AllG(c, E.n(c.S0, f), lambda i: c.S.raw("double", O(c[1]), iadd(c[1].off, i)) == E.c(c.S0, f, i)))),
        ("other cells", cases(c.S0, c[0], lambda E, f: AllG(c, zi(10**15), lambda i: Implies(zi(i) >= E.n(c.S0, f), c.S.raw("double", O(c[1]), iadd(c[1].off, i)) == c.S0.raw("double", O(c[1]), iadd(c[1].off, i))))))])
def gco(c, fi): return Ptr(z3.If(fc(c.S0, c[fi]) == EN("LINELM"), EL_["LINELM"].co(c.S0, ff(c.S0, c[fi])), EL_["CONSTELM"].co(c.S0, ff(c.S0, c[fi]))))
G("generic_function_update_params", "C03", mods=["double"], interior=(2,), requires=lambda c: g1(c) + [("count", cases(c.S, c[0], lambda E, f: E.n(c.S, f) == zi(c[1]))), ("parameters", varr(c.S, c[2], c[1])), ("separate", psep(c.S, c[0], c[2]))],
    assigns=lambda c: [("double", gco(c, 0))],
    ensures=lambda c: [("done", c.res == 0), ("parameters", cases(c.S0, c[0], lambda E, f: And(E.co(c.S, f) == E.co(c.S0, f), AllG(c, c[1], lambda i: E.c(c.S, f, i) == c.S0.raw("double", O(c[2]), iadd(c[2].off, i))))))])
# ---- releasing: only the function's own storage
for pre, E in (("lin", EL_["LINELM"]), ("const", EL_["CONSTELM"])):
    st = E.st
    def own(S, p, st=st): return [O(p)] + [S.fo(p, st + "." + f) for f in (["nodes", "coeff", "diff"] + (["Lp"] if st == "LinElemExp" else []))]
    def sepo(c, own=own, E=E):
        L = own(c.S, c[0])
        return And(*([vstruct(c.S, c[0], E.st)] + [Or(o == 0, And(o > 0, o < zi(c.S.alloc), c.S.live(o))) for o in L] + [Or(L[i] == 0, L[i] != L[j]) for i in range(len(L)) for j in range(i)]))
    contract(pre + "_elem_exp_free", prop="C02", keys=KS(st), mods=["#live", st + ".nodes", st + ".coeff", st + ".diff"] + (["LinElemExp.Lp"] if pre == "lin" else []),
        requires=lambda c, sepo=sepo: [("a function or null", Or(O(c[0]) == 0, sepo(c)))],
        assigns=lambda c, own=own, st=st: [("#live", lambda o: And(O(c[0]) != 0, Or(*[o == zi(q) for q in own(c.S0, c[0])])))] + [(st + "." + f, c[0]) for f in ["nodes", "coeff", "diff"] + (["Lp"] if st == "LinElemExp" else [])],
        ensures=lambda c, own=own: [("released", Implies(O(c[0]) != 0, And(*[Or(o == 0, Not(c.S.live(o))) for o in own(c.S0, c[0])])))])
