"""Parameter vectors (C03) of arrays of functions (layer "abs") and of function trains (layer "ft"): the functions of an array in column-major
order, each with its own parameters in order; a train's cores in order."""
from gfabs import *
import c_gf, c_qmarray, c_ft
from c_ft import *
PAR = z3.Function("PAR", F, I, R)                 # parameter i of a function
layer("abs")
WP = "what the class does with its parameters is proved in layer conc"
contract("generic_function_get_params", trusted=True, why=WP, keys=GK + ["double"], mods=["double"], interior=(1,),
    requires=lambda c: [gf(c.S, c[0]), ("space", varr(c.S, c[1], NPAR(FV(c.S, c[0]))))], assigns=lambda c: [("double", c[1], c[1].off, iadd(c[1].off, NPAR(FV(c.S0, c[0]))))],
    ensures=lambda c: [c.res == NPAR(FV(c.S0, c[0])), NPAR(FV(c.S0, c[0])) >= 0, All(NPAR(FV(c.S0, c[0])), lambda t: c.S.raw("double", O(c[1]), iadd(c[1].off, t)) == PAR(FV(c.S0, c[0]), t), pats=lambda t: [PAR(FV(c.S0, c[0]), t)])])
contract("generic_function_update_params", trusted=True, why=WP, keys=GK + ["double"], mods=["#F"], interior=(2,),
    requires=lambda c: [gf(c.S, c[0]), ("count", zi(c[1]) == NPAR(FV(c.S, c[0]))), ("parameters", varr(c.S, c[2], c[1]))], assigns=lambda c: [("#F", c[0])],
    ensures=lambda c: [NPAR(FV(c.S, c[0])) == NPAR(FV(c.S0, c[0])), All(c[1], lambda t: PAR(FV(c.S, c[0]), t) == c.S0.raw("double", O(c[2]), iadd(c[2].off, t)), pats=lambda t: [PAR(FV(c.S, c[0]), t)]), c.res == 0])
PN = RecP("PN", [HF, HP, I], I, lambda *a: zi(0), lambda hf, hp, off, k, prev: prev + NPAR(hf[hp[zi(iadd(off, k))]]))
def PNq(S, q, k): return PN.at([S.H("#F"), S.arr("ptr", fa(S, q)), zi(0)], k)
def nps(S, q, k): return NPAR(FV(S, qf(S, q, k)))
def nonneg(S, q): return All(qn(S, q), lambda i: nps(S, q, i) >= 0, pats=lambda i: [nps(S, q, i)])
def mono_PN(S, q):
    """prefix sums of nonnegative numbers are monotone: the parameters of every function lie within the total"""
    n = qn(S, q); k = z3.Int("k!m"); t = PN.f(S.H("#F"), S.arr("ptr", fa(S, q)), zi(0), k)
    T = PNq(S, q, n)
    return And(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(n)), And(t >= 0, t + nps(S, q, k) <= T)), patterns=[t]), T >= 0)
contract("qmarray_func_get_nparams", prop="C03", keys=QK, requires=lambda c: [("array", qma(c.S, c[0])), ("entry", zi(iadd(c[1], imul(c[2], nr(c.S, c[0])))) < qn(c.S, c[0]))],
    ensures=lambda c: [("parameters of the entry", c.res == NPAR(FV(c.S0, qf(c.S0, c[0], iadd(c[1], imul(c[2], nr(c.S0, c[0])))))))])
q0 = lambda c: [("array", qma(c.S, c[0]))]
contract("qmarray_get_nparams", prop="C03", keys=QK + ["i64"], mods=["i64"], interior=(1,), requires=lambda c: q0(c) + [("space or null", Or(O(c[1]) == 0, varr(c.S, c[1], 1)))],
    assigns=lambda c: [("i64", c[1], c[1].off, iadd(c[1].off, 1))],
    ensures=lambda c: [("sum of the parameters", c.res == PNq(c.S0, c[0], qn(c.S0, c[0]))),
        ("largest number: bound", AllG(c, qn(c.S0, c[0]), lambda t: Implies(O(c[1]) != 0, c.S.raw("i64", O(c[1]), c[1].off) >= nps(c.S0, c[0], t))))],
    prep=lambda c: [PNq(c.S0, c[0], 0)],
    templates=[lambda c, k, k2: zi(k2) == PNq(c.S0, c.a[0], k), lambda c, k, k2: Implies(And(c.g(0) >= 0, c.g(0) < zi(k)), zi(k2) >= nps(c.S0, c.a[0], c.g(0)))])
def cells(c, k=None):
    """parameter t of function g is where the layout puts it"""
    g, t = c.g(0), c.g(1); p = c.a[1]
    return Implies(And(g >= 0, g < zi(qn(c.S0, c.a[0]) if k is None else k), t >= 0, t < nps(c.S0, c.a[0], g)), c.S.raw("double", O(p), iadd(p.off, iadd(PNq(c.S0, c.a[0], g), t))) == PAR(FV(c.S0, qf(c.S0, c.a[0], g)), t))
contract("qmarray_get_params", prop="C03", keys=QK + ["double"], mods=["double"], interior=(1,),
    requires=lambda c: q0(c) + [("space or null", Or(O(c[1]) == 0, varr(c.S, c[1], PNq(c.S, c[0], qn(c.S, c[0])))))],
    lemmas=[lambda c: [nonneg(c.S, c[0]), mono_PN(c.S, c[0])]],
    assigns=lambda c: [("double", c[1], c[1].off, iadd(c[1].off, PNq(c.S0, c[0], qn(c.S0, c[0]))))],
    ensures=lambda c: [("count", c.res == PNq(c.S0, c[0], qn(c.S0, c[0])))] + ([("layout", Implies(O(c[1]) != 0, cells(c)))] if c.proving else []),
    prep=lambda c: [PNq(c.S0, c[0], 0), PNq(c.S0, c[0], c.g(0))],
    templates=[lambda c, k, k2: zi(k2) == PNq(c.S0, c.a[0], k), lambda c, k: Implies(O(c.a[1]) != 0, cells(c, k)), lambda c, k: Implies(And(c.g(0) >= 0, c.g(0) < zi(k)), zi(iadd(PNq(c.S0, c.a[0], c.g(0)), nps(c.S0, c.a[0], c.g(0)))) <= PNq(c.S0, c.a[0], k))])
def distf(S, q): return All2(qn(S, q), qn(S, q), lambda i, j: Implies(i != j, qf(S, q, i) != qf(S, q, j)), pats=lambda i, j: [z3.MultiPattern(qf(S, q, i), qf(S, q, j))])
def upd(c, k=None):
    g, t = c.g(0), c.g(1); p = c.a[2]
    return Implies(And(g >= 0, g < zi(qn(c.S0, c.a[0]) if k is None else k), t >= 0, t < nps(c.S0, c.a[0], g)), PAR(FV(c.S, qf(c.S0, c.a[0], g)), t) == c.S0.raw("double", O(p), iadd(p.off, iadd(PNq(c.S0, c.a[0], g), t))))
contract("qmarray_update_params", prop="C03", keys=QK + ["double"], mods=["#F"], interior=(2,),
    requires=lambda c: q0(c) + [("distinct functions", distf(c.S, c[0])), ("count", zi(c[1]) == PNq(c.S, c[0], qn(c.S, c[0]))), ("parameters", varr(c.S, c[2], c[1]))],
    lemmas=[lambda c: [nonneg(c.S, c[0]), mono_PN(c.S, c[0])]],
    assigns=lambda c: [("#F", lambda o: z3.Exists([z3.Int("i!q")], And(z3.Int("i!q") >= 0, z3.Int("i!q") < zi(qn(c.S0, c[0])), o == qf(c.S0, c[0], z3.Int("i!q")))))],
    ensures=lambda c: [("every function gets its parameters", upd(c)), ("count kept", AllG(c, qn(c.S0, c[0]), lambda g: NPAR(FV(c.S, qf(c.S0, c[0], g))) == nps(c.S0, c[0], g)))] if c.proving else [],
    prep=lambda c: [PNq(c.S0, c[0], 0), PNq(c.S0, c[0], c.g(0))],
    templates=[lambda c, k, k2: zi(k2) == PNq(c.S0, c.a[0], k), lambda c, k: upd(c, k), lambda c, k: Implies(And(c.g(0) >= 0, c.g(0) < zi(qn(c.S0, c.a[0]))), NPAR(FV(c.S, qf(c.S0, c.a[0], c.g(0)))) == nps(c.S0, c.a[0], c.g(0))),
        lambda c, k: All(qn(c.S0, c.a[0]), lambda i: FV(c.S, qf(c.S0, c.a[0], i)) == FV(c.S0, qf(c.S0, c.a[0], i)), lo=k, pats=lambda i: [qf(c.S0, c.a[0], i)])])
contract("qmarray_uni_update_params", prop="C03", keys=QK + ["double"], mods=["#F"], interior=(4,),
    requires=lambda c: q0(c) + [("entry", zi(iadd(c[1], imul(c[2], nr(c.S, c[0])))) < qn(c.S, c[0])), ("count", zi(c[3]) == nps(c.S, c[0], iadd(c[1], imul(c[2], nr(c.S, c[0]))))), ("parameters", varr(c.S, c[4], c[3]))],
    assigns=lambda c: [("#F", Ptr(qf(c.S0, c[0], iadd(c[1], imul(c[2], nr(c.S0, c[0]))))))],
    ensures=lambda c: [("parameters of the entry", AllG(c, c[3], lambda t: PAR(FV(c.S, qf(c.S0, c[0], iadd(c[1], imul(c[2], nr(c.S0, c[0]))))), t) == c.S0.raw("double", O(c[4]), iadd(c[4].off, t))))])
# ---------------------------------------------------------------- function trains: cores as values
layer("ft")
QNP = z3.Function("QNP", Qs, I); QPAR = z3.Function("QPAR", Qs, I, R)
contract("qmarray_get_nparams", trusted=True, why=WQ, keys=QQ + ["i64"], mods=["i64"], interior=(1,), requires=lambda c: [qok(c.S, c[0]), ("space or null", Or(O(c[1]) == 0, varr(c.S, c[1], 1)))],
    assigns=lambda c: [("i64", c[1], c[1].off, iadd(c[1].off, 1))], ensures=lambda c: [c.res == QNP(QV(c.S0, c[0])), QNP(QV(c.S0, c[0])) >= 0])
contract("qmarray_get_params", trusted=True, why=WQ, keys=QQ + ["double"], mods=["double"], interior=(1,), requires=lambda c: [qok(c.S, c[0]), ("space", varr(c.S, c[1], QNP(QV(c.S, c[0]))))],
    assigns=lambda c: [("double", c[1], c[1].off, iadd(c[1].off, QNP(QV(c.S0, c[0]))))],
    ensures=lambda c: [c.res == QNP(QV(c.S0, c[0])), QNP(QV(c.S0, c[0])) >= 0, All(QNP(QV(c.S0, c[0])), lambda t: c.S.raw("double", O(c[1]), iadd(c[1].off, t)) == QPAR(QV(c.S0, c[0]), t), pats=lambda t: [QPAR(QV(c.S0, c[0]), t)])])
contract("qmarray_update_params", trusted=True, why=WQ, keys=QQ + ["double"], mods=["#Q"], interior=(2,), requires=lambda c: [qok(c.S, c[0]), ("count", zi(c[1]) == QNP(QV(c.S, c[0]))), ("parameters", varr(c.S, c[2], c[1]))], assigns=lambda c: [("#Q", c[0])],
    ensures=lambda c: [QNP(QV(c.S, c[0])) == QNP(QV(c.S0, c[0])), QR(QV(c.S, c[0])) == QR(QV(c.S0, c[0])), QC(QV(c.S, c[0])) == QC(QV(c.S0, c[0])), All(c[1], lambda t: QPAR(QV(c.S, c[0]), t) == c.S0.raw("double", O(c[2]), iadd(c[2].off, t)), pats=lambda t: [QPAR(QV(c.S, c[0]), t)])])
HQ = z3.ArraySort(I, Qs)
TPN = RecP("TPN", [HQ, HP], I, lambda *a: zi(0), lambda hq, hp, k, prev: prev + QNP(hq[hp[zi(k)]]))
def TP(S, f, k): return TPN.at([S.H("#Q"), S.arr("ptr", fcs(S, f))], k)
def qnp(S, f, k): return QNP(QV(S, core(S, f, k)))
def mono_T(S, f):
    n = fdim(S, f); k = z3.Int("k!m"); t = TPN.f(S.H("#Q"), S.arr("ptr", fcs(S, f)), k); T = TP(S, f, n)
    return [All(n, lambda i: qnp(S, f, i) >= 0, pats=lambda i: [qnp(S, f, i)]), And(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(n)), And(t >= 0, t + qnp(S, f, k) <= T)), patterns=[t]), T >= 0)]
f0 = lambda c: [("train", ftok(c.S, c[0]))]
LT = [lambda c: mono_T(c.S, c[0])]
tot = lambda c: TP(c.S0, c[0], fdim(c.S0, c[0]))
tt = lambda c, k, k2: zi(k2) == TP(c.S0, c.a[0], k)
tord = lambda c, k: Implies(And(c.g(0) >= 0, c.g(0) < zi(k)), zi(iadd(TP(c.S0, c.a[0], c.g(0)), qnp(c.S0, c.a[0], c.g(0)))) <= TP(c.S0, c.a[0], k))
contract("function_train_get_nparams", prop="C03", keys=FK, requires=f0, ensures=lambda c: [("sum over the cores", c.res == tot(c))], prep=lambda c: [TP(c.S0, c[0], 0)], templates=[tt])
def tcells(c, k=None):
    g, t = c.g(0), c.g(1); p = c.a[1]
    return Implies(And(g >= 0, g < zi(fdim(c.S0, c.a[0]) if k is None else k), t >= 0, t < qnp(c.S0, c.a[0], g)), c.S.raw("double", O(p), iadd(p.off, iadd(TP(c.S0, c.a[0], g), t))) == QPAR(QV(c.S0, core(c.S0, c.a[0], g)), t))
contract("function_train_get_params", prop="C03", keys=FK + ["double"], mods=["double"], interior=(1,), lemmas=LT, requires=lambda c: f0(c) + [("space", varr(c.S, c[1], TP(c.S, c[0], fdim(c.S, c[0]))))],
    assigns=lambda c: [("double", c[1], c[1].off, iadd(c[1].off, tot(c)))], prep=lambda c: [TP(c.S0, c[0], 0), TP(c.S0, c[0], c.g(0))],
    ensures=lambda c: [("count", c.res == tot(c))] + ([("layout", tcells(c))] if c.proving else []), templates=[tt, lambda c, k: tcells(c, k), tord])
def tupd(c, k=None): return tupdb(c, c.g(0), c.g(1), k)
def tupdb(c, g, t, k=None):
    p = c.a[1]
    return Implies(And(g >= 0, g < zi(fdim(c.S0, c.a[0]) if k is None else k), t >= 0, t < qnp(c.S0, c.a[0], g)), QPAR(QV(c.S, core(c.S0, c.a[0], g)), t) == c.S0.raw("double", O(p), iadd(p.off, iadd(TP(c.S0, c.a[0], g), t))))
TV = z3.Function("TPARS", HQ, HP, I, R)
def shapes(c): 
    return AllG(c, fdim(c.S0, c.a[0]), lambda g: And(qnp(c.S, c.a[0], g) == qnp(c.S0, c.a[0], g), QR(QV(c.S, core(c.S0, c.a[0], g))) == QR(QV(c.S0, core(c.S0, c.a[0], g))), QC(QV(c.S, core(c.S0, c.a[0], g))) == QC(QV(c.S0, core(c.S0, c.a[0], g)))), pats=lambda g: [core(c.S0, c.a[0], g)])
contract("function_train_update_params", prop="C03", keys=FK + ["double"], mods=["#Q"], interior=(1,), lemmas=LT, requires=lambda c: f0(c) + [("distinct cores", distinct(c.S, c[0])), ("parameters", varr(c.S, c[1], TP(c.S, c[0], fdim(c.S, c[0]))))],
    assigns=lambda c: [("#Q", lambda o: z3.Exists([z3.Int("i!q")], And(z3.Int("i!q") >= 0, z3.Int("i!q") < zi(fdim(c.S0, c[0])), o == core(c.S0, c[0], z3.Int("i!q")))))], prep=lambda c: [TP(c.S0, c[0], 0), TP(c.S0, c[0], c.g(0))],
    ensures=lambda c: [("count", c.res == tot(c)), ("shapes kept", shapes(c))] + [("every core gets its parameters", tupd(c) if c.proving else z3.ForAll([z3.Int("g!q"), z3.Int("t!q")], tupdb(c, z3.Int("g!q"), z3.Int("t!q")), patterns=[QPAR(QV(c.S, core(c.S0, c[0], z3.Int("g!q"))), z3.Int("t!q"))]))], templates=[tt, lambda c, k: tupd(c, k),
        lambda c, k: Implies(And(c.g(0) >= 0, c.g(0) < zi(fdim(c.S0, c.a[0]))), And(qnp(c.S, c.a[0], c.g(0)) == qnp(c.S0, c.a[0], c.g(0)), QR(QV(c.S, core(c.S0, c.a[0], c.g(0)))) == QR(QV(c.S0, core(c.S0, c.a[0], c.g(0)))), QC(QV(c.S, core(c.S0, c.a[0], c.g(0)))) == QC(QV(c.S0, core(c.S0, c.a[0], c.g(0)))))),
        lambda c, k: All(fdim(c.S0, c.a[0]), lambda i: QV(c.S, core(c.S0, c.a[0], i)) == QV(c.S0, core(c.S0, c.a[0], i)), lo=k, pats=lambda i: [core(c.S0, c.a[0], i)])])
contract("function_train_core_get_nparams", prop="C03", keys=FK, mods=["i64"], interior=(2,), requires=lambda c: f0(c) + [("core", zi(c[1]) < fdim(c.S, c[0])), ("space or null", Or(O(c[2]) == 0, And(varr(c.S, c[2], 1))))],
    assigns=lambda c: [("i64", c[2], c[2].off, iadd(c[2].off, 1))], ensures=lambda c: [("parameters of the core", c.res == qnp(c.S0, c[0], c[1]))])
contract("function_train_core_get_params", prop="C03", keys=FK + ["double"], mods=["double"], interior=(2,), requires=lambda c: f0(c) + [("core", zi(c[1]) < fdim(c.S, c[0])), ("space", varr(c.S, c[2], qnp(c.S, c[0], c[1])))],
    assigns=lambda c: [("double", c[2], c[2].off, iadd(c[2].off, qnp(c.S0, c[0], c[1])))], ensures=lambda c: [("count", c.res == qnp(c.S0, c[0], c[1])), ("parameters of the core", AllG(c, qnp(c.S0, c[0], c[1]), lambda t: c.S.raw("double", O(c[2]), iadd(c[2].off, t)) == QPAR(QV(c.S0, core(c.S0, c[0], c[1])), t)))])
contract("function_train_core_update_params", prop="C03", keys=FK + ["double"], mods=["#Q"], interior=(3,), requires=lambda c: f0(c) + [("core", zi(c[1]) < fdim(c.S, c[0])), ("count", zi(c[2]) == qnp(c.S, c[0], c[1])), ("parameters", varr(c.S, c[3], c[2]))],
    assigns=lambda c: [("#Q", Ptr(core(c.S0, c[0], c[1])))], ensures=lambda c: [("parameters of the core", AllG(c, c[2], lambda t: QPAR(QV(c.S, core(c.S0, c[0], c[1])), t) == c.S0.raw("double", O(c[3]), iadd(c[3].off, t)))), ("count kept", QNP(QV(c.S, core(c.S0, c[0], c[1]))) == qnp(c.S0, c[0], c[1]))])

# ---- parameterised function trains
def pf(S, p, f): return S.f(p, "FTparam." + f)
def pft(S, p): return Ptr(S.fo(p, "FTparam.ft"))
def ppa(S, p): return S.fo(p, "FTparam.params")
PK = ["FTparam." + f for f in ("ft", "dim", "nparams", "params", "nparams_per_core", "nparams_per_uni", "max_param_uni")]
def fpok(S, p, deep=True):
    t = pft(S, p)
    L = [("object", And(vstruct(S, p, "FTparam"), varr(S, ppa(S, p), pf(S, p, "nparams")), ppa(S, p) != O(p)))]
    if deep: L += [("train", ftok(S, t)), ("distinct cores", distinct(S, t)), ("one parameter vector for the train", And(pf(S, p, "nparams") == TP(S, t, fdim(S, t)), pf(S, p, "dim") == fdim(S, t)))]
    return L
PG = dict(prop="C03", keys=PK + ["double"] + FK)
contract("ft_param_get_nparams", requires=lambda c: [("object", vstruct(c.S, c[0], "FTparam"))], ensures=lambda c: [("count", c.res == pf(c.S0, c[0], "nparams"))], **PG)
contract("ft_param_get_dim", requires=lambda c: [("object", vstruct(c.S, c[0], "FTparam"))], ensures=lambda c: [("dimension", c.res == pf(c.S0, c[0], "dim"))], **PG)
contract("ft_param_get_param", requires=lambda c: fpok(c.S, c[0], False) + [("index", zi(c[1]) < pf(c.S, c[0], "nparams"))], ensures=lambda c: [("parameter", c.res == c.S0.raw("double", ppa(c.S0, c[0]), c[1]))], **PG)
contract("ft_param_get_params_ref", requires=lambda c: fpok(c.S, c[0], False) + [("nonempty", pf(c.S, c[0], "nparams") > 0)], ensures=lambda c: [("the parameter vector", O(c.res) == ppa(c.S0, c[0]))], **PG)
mn = lambda c: z3.If(zi(c.a[1]) <= pf(c.S0, c.a[0], "nparams"), zi(c.a[1]), pf(c.S0, c.a[0], "nparams"))
contract("ft_param_get_params", requires=lambda c: fpok(c.S, c[0], False) + [("nonempty", pf(c.S, c[0], "nparams") > 0), ("space", varr(c.S, c[2], mn(c))), ("separate", O(c[2]) != ppa(c.S, c[0]))], mods=["double"], interior=(2,),
    assigns=lambda c: [("double", c[2], c[2].off, iadd(c[2].off, mn(c)))], ensures=lambda c: [("count", c.res == mn(c)), ("parameters", AllG(c, mn(c), lambda t: c.S.raw("double", O(c[2]), iadd(c[2].off, t)) == c.S0.raw("double", ppa(c.S0, c[0]), t)))],
    templates=[lambda c, k: Implies(And(c.g(0) >= 0, c.g(0) < zi(k)), c.S.raw("double", O(c.a[2]), iadd(c.a[2].off, c.g(0))) == c.S0.raw("double", ppa(c.S0, c.a[0]), c.g(0)))], **PG)
def ptrain(c, val):
    """every core of the train holds the parameters val(position)"""
    t = pft(c.S0, c.a[0]); g, k = c.g(0), c.g(1)
    return Implies(And(g >= 0, g < fdim(c.S0, t), k >= 0, k < qnp(c.S0, t, g)), QPAR(QV(c.S, core(c.S0, t, g)), k) == val(iadd(TP(c.S0, t, g), k)))
LP = [lambda c: mono_T(c.S, pft(c.S, c[0]))]
fq = lambda c: [("#Q", lambda o: z3.Exists([z3.Int("i!q")], And(z3.Int("i!q") >= 0, z3.Int("i!q") < zi(fdim(c.S0, pft(c.S0, c[0]))), o == core(c.S0, pft(c.S0, c[0]), z3.Int("i!q")))))]
sepp = lambda c: [("separate", And(*[ppa(c.S, c[0]) != q for q in (O(pft(c.S, c[0])), frk(c.S, pft(c.S, c[0])), fcs(c.S, pft(c.S, c[0])))]))]
contract("ft_param_update_params", requires=lambda c: fpok(c.S, c[0]) + sepp(c) + [("parameters", varr(c.S, c[1], pf(c.S, c[0], "nparams")))], mods=["double", "#Q", "i64", "ptr"], interior=(1,), lemmas=LP,
    assigns=lambda c: fq(c) + [(k, Ptr(ppa(c.S0, c[0]))) for k in ("double", "i64", "ptr")], prep=lambda c: [TP(c.S0, pft(c.S0, c[0]), c.g(0))],
    ensures=lambda c: [("stored", AllG(c, pf(c.S0, c[0], "nparams"), lambda t: c.S.raw("double", ppa(c.S0, c[0]), t) == c.S0.raw("double", O(c[1]), iadd(c[1].off, t)))), ("train follows", ptrain(c, lambda t: c.S0.raw("double", O(c[1]), iadd(c[1].off, t))))], **PG)
contract("ft_param_self_update_params", requires=lambda c: fpok(c.S, c[0]) + sepp(c), mods=["#Q"], lemmas=LP, assigns=fq, prep=lambda c: [TP(c.S0, pft(c.S0, c[0]), c.g(0))],
    ensures=lambda c: [("train follows", ptrain(c, lambda t: c.S0.raw("double", ppa(c.S0, c[0]), t)))], **PG)
