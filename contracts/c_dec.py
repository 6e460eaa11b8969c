"""Decompositions of arrays of functions (C13): pivots, linear combinations of columns, and the way the factors are put together."""
from gfabs import *
from c_gf import LCat
from c_qmarray import Fof, q0
layer("abs")
P13 = "C13"
AMAX = z3.Function("AMAX", F, R); ALOC = z3.Function("ALOC", F, R)     # largest magnitude of a function, and where it is found
contract("generic_function_absmax", trusted=True, keys=GK, mods=["double"], requires=lambda c: [gf(c.S, c[0]), varr(c.S, c[1], 1)],
    why="largest magnitude and location of one function: lin/const_elem_exp_absmax, property C08",
    assigns=lambda c: [("double", c[1], c[1].off, iadd(c[1].off, 1))],
    ensures=lambda c: [c.res == AMAX(FV(c.S0, c[0])), c.S.raw("double", O(c[1]), c[1].off) == ALOC(FV(c.S0, c[0]))])
def isz(S, p): return S.raw("i64", O(p), p.off)
def dbl(S, p): return S.raw("double", O(p), p.off)
def cf(S, p, i, ld): return FV(S, cellp(S, p, imul(i, ld)))
contract("generic_function_array_absmax", prop=P13, keys=GK + ["i64", "double"], mods=["i64", "double"], interior=(2, 3, 4),
    requires=lambda c: [("functions", gfs(c.S, c[2], c[0], c[1])), ("nonempty", c[0] >= 1), ("where to store the index", varr(c.S, c[3], 1)), ("where to store the location", varr(c.S, c[4], 1))],
    assigns=lambda c: [("i64", c[3], c[3].off, iadd(c[3].off, 1)), ("double", c[4], c[4].off, iadd(c[4].off, 1))],
    ensures=lambda c: [("an index", And(isz(c.S, c[3]) >= 0, isz(c.S, c[3]) < c[0])),
        ("its largest magnitude", c.res == AMAX(cf(c.S0, c[2], isz(c.S, c[3]), c[1]))), ("and where it is attained", dbl(c.S, c[4]) == ALOC(cf(c.S0, c[2], isz(c.S, c[3]), c[1]))),
        ("no function exceeds it", AllG(c, c[0], lambda t: AMAX(cf(c.S0, c[2], t, c[1])) <= c.res, pats=lambda t: [cellp(c.S0, c[2], imul(t, c[1]))]))],
    templates=[lambda c, k, x: Implies(And(c.g() >= 0, c.g() < zi(k)), AMAX(cf(c.S0, c.a[2], c.g(), c.a[1])) <= x),
               lambda c, k, x: And(isz(c.S, c.a[3]) >= 0, isz(c.S, c.a[3]) < zi(k), x == AMAX(cf(c.S0, c.a[2], isz(c.S, c.a[3]), c.a[1])), dbl(c.S, c.a[4]) == ALOC(cf(c.S0, c.a[2], isz(c.S, c.a[3]), c.a[1])))])
def absm(c, k, kd):
    q = c.a[0]; t = iadd(imul(k, nr(c.S0, q)), kd)
    return And(zi(kd) >= 0, zi(t) < zi(qn(c.S0, q)), AMAX(Fof(c, q, t)) == dbl(c.S, c.a[4]), ALOC(Fof(c, q, t)) == dbl(c.S, c.a[1]))
contract("qmarray_absmax1d", prop=P13, keys=QK + ["i64", "double"], mods=["i64", "double"], interior=(1, 2, 3, 4),
    requires=lambda c: q0(c) + [("nonempty", And(nr(c.S, c[0]) >= 1, nc(c.S, c[0]) >= 1))] + [("outputs", And(*[varr(c.S, c[i], 1) for i in (1, 2, 3, 4)])), ("outputs are different", And(Or(O(c[1]) != O(c[4]), zi(c[1].off) != zi(c[4].off)), Or(O(c[2]) != O(c[3]), zi(c[2].off) != zi(c[3].off))))],
    assigns=lambda c: [("i64", c[2], c[2].off, iadd(c[2].off, 1)), ("i64", c[3], c[3].off, iadd(c[3].off, 1)), ("double", c[1], c[1].off, iadd(c[1].off, 1)), ("double", c[4], c[4].off, iadd(c[4].off, 1))],
    ensures=lambda c: [("row", And(isz(c.S, c[2]) >= 0, isz(c.S, c[2]) < nr(c.S0, c[0]))), ("column", And(isz(c.S, c[3]) >= 0, isz(c.S, c[3]) < nc(c.S0, c[0]))),
        ("magnitude of that entry", dbl(c.S, c[4]) == AMAX(Fof(c, c[0], iadd(imul(isz(c.S, c[3]), nr(c.S0, c[0])), isz(c.S, c[2]))))),
        ("location in that entry", dbl(c.S, c[1]) == ALOC(Fof(c, c[0], iadd(imul(isz(c.S, c[3]), nr(c.S0, c[0])), isz(c.S, c[2]))))),
        ("no entry exceeds it", AllG(c, qn(c.S0, c[0]), lambda t: AMAX(Fof(c, c[0], t)) <= dbl(c.S, c[4]), pats=lambda t: [qf(c.S0, c[0], t)]))],
    templates=[lambda c, k, p: absm(c, k, c.S.raw("i64", O(p), p.off)), lambda c, k, kd: absm(c, k, kd)],
    lemmas=[lambda c: mono(nc(c.S, c[0]), nr(c.S, c[0]))])
# ---- linear combinations of columns
def dval(c, f, i):
    a, x, b, y = zr(c.a[1]), c.a[3], zr(c.a[4]), c.a[6]
    return And(Implies(And(O(x) != 0, O(y) != 0), EV(f) == a * EV(cf(c.S0, x, i, c.a[2])) + b * EV(cf(c.S0, y, i, c.a[5]))),
               Implies(O(y) == 0, EV(f) == a * EV(cf(c.S0, x, i, c.a[2]))), Implies(O(x) == 0, EV(f) == b * EV(cf(c.S0, y, i, c.a[5]))))
def dreq(c): return [("first operand", Or(O(c[3]) == 0, gfs(c.S, c[3], c[0], c[2]))), ("second operand", Or(O(c[6]) == 0, gfs(c.S, c[6], c[0], c[5]))), ("one given", Or(O(c[3]) != 0, O(c[6]) != 0))]
contract("generic_function_array_daxpby", prop=("C05", P13), allocs=True, keys=GK, interior=(3, 6), requires=dreq,
    ensures=lambda c: [("fresh array", And(varr(c.S, c.res, c[0]), isfresh(c, c.res))), ("fresh functions", AllG(c, c[0], lambda t: gffresh(c, cellp(c.S, c.res, t)), pats=lambda t: [cellp(c.S, c.res, t)])),
        ("values", AllG(c, c[0], lambda t: dval(c, FV(c.S, cellp(c.S, c.res, t)), t), pats=lambda t: [cellp(c.S, c.res, t)]))],
    templates=upto(lambda c, p, g: And(gffresh(c, cellp(c.S, p, g)), dval(c, FV(c.S, cellp(c.S, p, g)), g)), n=lambda c: c.a[0]))
contract("generic_function_array_daxpby2", prop=("C05", P13), allocs=True, keys=GK, mods=["ptr"], interior=(3, 6, 8),
    requires=lambda c: dreq(c) + [("output slots", n_valid(c.S, c[8], c[0], c[7])), ("stride", c[7] >= 1), ("output separate", And(O(c[8]) != O(c[3]), O(c[8]) != O(c[6])))],
    assigns=lambda c: [("ptr", c[8])], lemmas=[lambda c: mono(iadd(c.g(0), 1), c[7]), lambda c: mono(c.g(0), c[7]), lambda c: mono(c[0], c[7])],
    ensures=lambda c: [("new functions", AllG(c, c[0], lambda t: gffresh(c, cellp(c.S, c[8], imul(t, c[7]))), pats=lambda t: [cellp(c.S, c[8], imul(t, c[7]))])),
        ("values", AllG(c, c[0], lambda t: dval(c, FV(c.S, cellp(c.S, c[8], imul(t, c[7]))), t), pats=lambda t: [cellp(c.S, c[8], imul(t, c[7]))])),
        ("slots before the first kept", All(c[8].off, lambda t: c.S.raw("ptr", O(c[8]), t) == c.S0.raw("ptr", O(c[8]), t), pats=lambda t: [c.S.raw("ptr", O(c[8]), t)]))],
    templates=upto(lambda c, p, g: And(gffresh(c, cellp(c.S, c.a[8], imul(g, c.a[7]))), dval(c, FV(c.S, cellp(c.S, c.a[8], imul(g, c.a[7]))), g)), n=lambda c: c.a[0], p=None) +
        [lambda c: All(c.a[8].off, lambda t: c.S.raw("ptr", O(c.a[8]), t) == c.S0.raw("ptr", O(c.a[8]), t), pats=lambda t: [c.S.raw("ptr", O(c.a[8]), t)])])
# ---- in-place operations on an array of different functions
def dist(S, p, n):
    _n = iadd(p.off, n); i = z3.Int("i!qd"); j = z3.Int("j!qd"); r = lambda t: S.raw("ptr", O(p), t)
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= zi(p.off), j >= zi(p.off), i < zi(_n), j < zi(_n), i != j), r(i) != r(j)), patterns=[z3.MultiPattern(r(i), r(j))])
def inpl(nm, pi, ni, val, xreq=lambda c: [], ld=None, ret=False):
    def asg(c): return [("#F", lambda o: Not(All(iadd(c[pi].off, c[ni]), lambda t: c.S0.raw("ptr", O(c[pi]), t) != o, lo=c[pi].off, pats=lambda t: [c.S0.raw("ptr", O(c[pi]), t)])))]
    contract(nm, prop=("C05", P13), keys=GK, mods=["#F"], interior=(pi,),
        requires=lambda c: [("functions", gfs(c.S, c[pi], c[ni], 1)), ("all different", dist(c.S, c[pi], c[ni]))] + ([("stride one", c[ld] == 1)] if ld is not None else []) + xreq(c), assigns=asg,
        ensures=lambda c: [("values", AllG(c, c[ni], lambda t: val(c, t, FV(c.S, cellp(c.S0, c[pi], t))), pats=lambda t: [cellp(c.S0, c[pi], t)]))] + ([("success", Implies(zi(c[ni]) >= 1, c.res == 0))] if ret else []),
        templates=upto(lambda c, p, g: val(c, g, FV(c.S, cellp(c.S0, c.a[pi], g))), n=lambda c: c.a[ni], p=None) +
            [lambda c, k: Implies(And(c.g(0) >= zi(k), c.g(0) < zi(c.a[ni])), FV(c.S, cellp(c.S0, c.a[pi], c.g(0))) == FV(c.S0, cellp(c.S0, c.a[pi], c.g(0)))),
             lambda c, k, n: Or(zi(n) == 0, zi(k) == 0)])
inpl("generic_function_array_scale", 1, 2, lambda c, t, f: EV(f) == zr(c.a[0]) * EV(FV(c.S0, cellp(c.S0, c.a[1], t))))
contract("generic_function_flip_sign", trusted=True, keys=GK, mods=["#F"], why="sign flip of one function, property C08",
    requires=lambda c: [gf(c.S, c[0])], assigns=lambda c: [("#F", c[0])], ensures=lambda c: [EV(FV(c.S, c[0])) == -EV(FV(c.S0, c[0])), NPAR(FV(c.S, c[0])) == NPAR(FV(c.S0, c[0]))])
inpl("generic_function_array_flip_sign", 2, 0, lambda c, t, f: EV(f) == -EV(FV(c.S0, cellp(c.S0, c.a[2], t))), ld=1)
def apart(S, p, n, q, m):
    i = z3.Int("i!qd"); j = z3.Int("j!qd"); r = lambda t: S.raw("ptr", O(p), t); u = lambda t: S.raw("ptr", O(q), t)
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= zi(p.off), j >= zi(q.off), i < zi(iadd(p.off, n)), j < zi(iadd(q.off, m))), r(i) != u(j)), patterns=[z3.MultiPattern(r(i), u(j))])
inpl("generic_function_array_axpy", 3, 0, lambda c, t, f: EV(f) == zr(c.a[1]) * EV(FV(c.S0, cellp(c.S0, c.a[2], t))) + EV(FV(c.S0, cellp(c.S0, c.a[3], t))), ret=True,
    xreq=lambda c: [("operand", gfs(c.S, c[2], c[0], 1)), ("operand separate", apart(c.S, c[2], c[0], c[3], c[0]))])
# ---- whole arrays in place
def qdist(S, q):
    i = z3.Int("i!qd"); j = z3.Int("j!qd")
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, i < zi(qn(S, q)), j < zi(qn(S, q)), i != j), qf(S, q, i) != qf(S, q, j)), patterns=[z3.MultiPattern(qf(S, q, i), qf(S, q, j))])
def inq(c, q): return lambda o: Not(All(qn(c.S0, q), lambda t: qf(c.S0, q, t) != o, pats=lambda t: [qf(c.S0, q, t)]))
contract("qmarray_axpy", prop="C05", keys=QK, mods=["#F"],
    requires=lambda c: [("operand", qma(c.S, c[1])), ("target", qma(c.S, c[2])), ("same shape", And(nr(c.S, c[1]) == nr(c.S, c[2]), nc(c.S, c[1]) == nc(c.S, c[2]))), ("target's functions differ", qdist(c.S, c[2])),
        ("separate", apart(c.S, Ptr(fa(c.S, c[1])), qn(c.S, c[1]), Ptr(fa(c.S, c[2])), qn(c.S, c[2])))],
    assigns=lambda c: [("#F", inq(c, c[2]))],
    ensures=lambda c: [("values", AllG(c, qn(c.S0, c[2]), lambda t: EV(FV(c.S, qf(c.S0, c[2], t))) == zr(c[0]) * EV(Fof(c, c[1], t)) + EV(Fof(c, c[2], t)), pats=lambda t: [qf(c.S0, c[2], t)]))],
    templates=upto(lambda c, p, g: EV(FV(c.S, qf(c.S0, c.a[2], g))) == zr(c.a[0]) * EV(Fof(c, c.a[1], g)) + EV(Fof(c, c.a[2], g)), n=lambda c: qn(c.S0, c.a[2]), p=None) +
        [lambda c, k: Implies(And(c.g(0) >= zi(k), c.g(0) < zi(qn(c.S0, c.a[2]))), FV(c.S, qf(c.S0, c.a[2], c.g(0))) == Fof(c, c.a[2], c.g(0)))])
NS = RecP("NSQ", [HF, HP, I], R, lambda *a: zr(0), lambda hf, hp, off, k, prev: prev + INNER(hf[hp[zi(iadd(off, k))]], hf[hp[zi(iadd(off, k))]]))
def NSat(S, p, k): return NS.at([S.H("#F"), S.arr("ptr", O(p)), zi(p.off)], k)
contract("qmarray_norm2", prop="C05", keys=QK, requires=lambda c: q0(c) + [("squares integrate to nonnegative numbers", All(qn(c.S, c[0]), lambda t: INNER(FV(c.S, qf(c.S, c[0], t)), FV(c.S, qf(c.S, c[0], t))) >= 0, pats=lambda t: [qf(c.S, c[0], t)]))],
    ensures=lambda c: [("value", And(c.res >= 0, c.res * c.res == NSat(c.S0, Ptr(fa(c.S0, c[0])), qn(c.S0, c[0]))))],
    prep=lambda c: [NSat(c.S0, Ptr(fa(c.S0, c[0])), 0)],
    templates=[lambda c, k, x: And(x >= 0, x == NSat(c.S0, Ptr(fa(c.S0, c.a[0])), k))])

def qme(S, q): return S.fo(q, "Quasimatrix.funcs")
def qmn(S, q): return S.f(q, "Quasimatrix.n")
def qmf(S, q, i): return S.raw("ptr", qme(S, q), i)
def qms(S, q): return And(vstruct(S, q, "Quasimatrix"), varr(S, qme(S, q), qmn(S, q)), qme(S, q) != O(q))
MK = QK + ["Quasimatrix.n", "Quasimatrix.funcs"]
contract("quasimatrix_alloc", prop="C04", allocs=True, keys=MK,
    ensures=lambda c: [("size", qmn(c.S, c.res) == zi(c[0])), ("valid", qms(c.S, c.res)), ("fresh", And(isfresh(c, c.res), isfresh(c, Ptr(qme(c.S, c.res))))), ("empty", AllG(c, c[0], lambda t: qmf(c.S, c.res, t) == 0, pats=lambda t: [qmf(c.S, c.res, t)]))],
    templates=upto(lambda c, p, g: qmf(c.S, p, g) == 0))
for nm, ix, cnt in (("column", lambda c, t: iadd(imul(c.a[1], nr(c.S0, c.a[0])), t), lambda c: nr(c.S0, c.a[0])), ("row", lambda c, t: iadd(imul(t, nr(c.S0, c.a[0])), c.a[1]), lambda c: nc(c.S0, c.a[0]))):
    contract("qmarray_extract_" + nm, prop="C04", allocs=True, keys=MK, requires=lambda c, nm=nm: q0(c) + [("position", c[1] < (nc if nm == "column" else nr)(c.S, c[0]))],
        lemmas=[lambda c: mono(nc(c.S, c[0]), nr(c.S, c[0]))],
        ensures=lambda c, ix=ix, cnt=cnt: [("size", qmn(c.S, c.res) == zi(cnt(c))), ("new", And(qms(c.S, c.res), isfresh(c, c.res), isfresh(c, Ptr(qme(c.S, c.res))))),
            ("functions", AllG(c, cnt(c), lambda t: And(gffresh(c, qmf(c.S, c.res, t)), FV(c.S, qmf(c.S, c.res, t)) == Fof(c, c[0], ix(c, t))), pats=lambda t: [qmf(c.S, c.res, t)]))],
        templates=upto(lambda c, p, g, ix=ix, cnt=cnt: Implies(g < zi(cnt(c)), And(gffresh(c, qmf(c.S, p, g)), FV(c.S, qmf(c.S, p, g)) == Fof(c, c.a[0], ix(c, g))))) +
            [lambda c, k, pf: Implies(zi(k) < qmn(c.S, pf), qmf(c.S, pf, k) == 0), lambda c, k, pf: All(qmn(c.S, pf), lambda t: qmf(c.S, pf, t) == 0, lo=k, pats=lambda t: [qmf(c.S, pf, t)])])
def cb(c): return imul(c.a[1], nr(c.S0, c.a[0]))
def ingf(c, lo, hi): return lambda o: Not(All(hi, lambda t: qf(c.S0, c[0], t) != o, lo=lo, pats=lambda t: [qf(c.S0, c[0], t)]))
contract("qmarray_set_column_gf", prop=("C04", P13), allocs=True, keys=QK, mods=["ptr", "#live"],
    requires=lambda c: q0(c) + [("column", c[1] < nc(c.S, c[0])), ("functions", gfs(c.S, c[2], nr(c.S, c[0]), 1)), ("the array's functions differ", qdist(c.S, c[0])), ("separate", And(O(c[2]) != fa(c.S, c[0]), All(qn(c.S, c[0]), lambda t: And(qf(c.S, c[0], t) != O(c[0]), qf(c.S, c[0], t) != fa(c.S, c[0]), qf(c.S, c[0], t) != O(c[2])), pats=lambda t: [qf(c.S, c[0], t)]), apart(c.S, c[2], nr(c.S, c[0]), Ptr(fa(c.S, c[0])), qn(c.S, c[0]))))],
    assigns=lambda c: [("ptr", Ptr(fa(c.S0, c[0])), cb(c), iadd(cb(c), nr(c.S0, c[0]))), ("#live", ingf(c, cb(c), iadd(cb(c), nr(c.S0, c[0]))))],
    lemmas=[lambda c: mono(nc(c.S, c[0]), nr(c.S, c[0]))], interior=(2,),
    ensures=lambda c: [("new functions", AllG(c, nr(c.S0, c[0]), lambda t: gffresh(c, qf(c.S, c[0], iadd(cb(c), t))))), ("values", AllG(c, nr(c.S0, c[0]), lambda t: FV(c.S, qf(c.S, c[0], iadd(cb(c), t))) == FV(c.S0, cellp(c.S0, c[2], t))))],
    templates=upto(lambda c, p, g: And(gffresh(c, qf(c.S, c.a[0], iadd(cb(c), g))), FV(c.S, qf(c.S, c.a[0], iadd(cb(c), g))) == FV(c.S0, cellp(c.S0, c.a[2], g))), n=lambda c: nr(c.S0, c.a[0]), p=None) +
        [lambda c, k: All(iadd(cb(c), nr(c.S0, c.a[0])), lambda t: And(qf(c.S, c.a[0], t) == qf(c.S0, c.a[0], t), c.S.live(qf(c.S0, c.a[0], t))), lo=iadd(cb(c), k), pats=lambda t: [qf(c.S, c.a[0], t), qf(c.S0, c.a[0], t)])])
