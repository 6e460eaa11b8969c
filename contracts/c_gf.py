from gfabs import *
layer("abs")
# ---------------------------------------------------------------- leaves (assumed: the abstract value of an object of
# a concrete class is what that class's own contracts describe; see layer "conc")
contract("generic_function_copy", trusted=True, allocs=True, keys=GK,
    requires=lambda c: [gf(c.S, c[0])],
    ensures=lambda c: [gffresh(c, c.res), FV(c.S, c.res) == FV(c.S0, c[0])])
contract("generic_function_free", trusted=True, keys=GK, mods=["#live"],
    requires=lambda c: [("live or null", Or(O(c[0]) == 0, gf(c.S, c[0])))],
    assigns=lambda c: [("#live", c[0])],
    ensures=lambda c: [Implies(O(c[0]) != 0, Not(c.S.live(c[0])))])
contract("generic_function_scale", trusted=True, keys=GK, mods=["#F"],
    requires=lambda c: [gf(c.S, c[1])], assigns=lambda c: [("#F", c[1])],
    ensures=lambda c: [EV(FV(c.S, c[1])) == zr(c[0]) * EV(FV(c.S0, c[1])), NPAR(FV(c.S, c[1])) == NPAR(FV(c.S0, c[1]))])
contract("generic_function_axpy", trusted=True, keys=GK, mods=["#F"],
    requires=lambda c: [gf(c.S, c[1]), gf(c.S, c[2])], assigns=lambda c: [("#F", c[2])],
    ensures=lambda c: [EV(FV(c.S, c[2])) == zr(c[0]) * EV(FV(c.S0, c[1])) + EV(FV(c.S0, c[2])), c.res == 0])
contract("generic_function_prod", trusted=True, allocs=True, keys=GK,
    requires=lambda c: [gf(c.S, c[0]), gf(c.S, c[1])],
    ensures=lambda c: [gffresh(c, c.res), FV(c.S, c.res) == PROD(FV(c.S0, c[0]), FV(c.S0, c[1]))])
for nm, U in (("deriv", DERIV), ("dderiv", DDERIV), ("dderiv_periodic", DDERIVP)):
    contract("generic_function_" + nm, trusted=True, allocs=True, keys=GK,
        requires=lambda c: [gf(c.S, c[0])],
        ensures=lambda c, U=U: [gffresh(c, c.res), FV(c.S, c.res) == U(FV(c.S0, c[0]))])
for nm, U in (("integrate", INT), ("integrate_weighted", INTW)):
    contract("generic_function_" + nm, trusted=True, keys=GK, requires=lambda c: [gf(c.S, c[0])],
        ensures=lambda c, U=U: [c.res == U(FV(c.S0, c[0]))])
for nm, U in (("inner", INNER), ("inner_weighted", INNERW)):
    contract("generic_function_" + nm, trusted=True, keys=GK, requires=lambda c: [gf(c.S, c[0]), gf(c.S, c[1])],
        ensures=lambda c, U=U: [c.res == U(FV(c.S0, c[0]), FV(c.S0, c[1]))])
contract("generic_function_1d_eval", trusted=True, keys=GK, requires=lambda c: [gf(c.S, c[0])],
    ensures=lambda c: [c.res == AT(FV(c.S0, c[0]), zr(c[1]))])
contract("generic_function_deriv_eval", trusted=True, keys=GK, requires=lambda c: [gf(c.S, c[0])],
    ensures=lambda c: [c.res == DAT(FV(c.S0, c[0]), zr(c[1]))])
contract("generic_function_get_num_params", trusted=True, keys=GK, requires=lambda c: [gf(c.S, c[0])],
    ensures=lambda c: [c.res == NPAR(FV(c.S0, c[0])), c.res >= 0])
contract("generic_function_constant", trusted=True, allocs=True, keys=GK,
    requires=lambda c: [("class", And(c[1] == CLS, clsok()))],
    ensures=lambda c: [gffresh(c, c.res), FV(c.S, c.res) == FCONST(zr(c[0]), zi(c[1]), O(c[2])), EV(FV(c.S, c.res)) == zr(c[0])])
contract("generic_function_zero", trusted=True, allocs=True, keys=GK,
    requires=lambda c: [("class", And(c[0] == CLS, clsok()))],
    ensures=lambda c: [gffresh(c, c.res), EV(FV(c.S, c.res)) == zr(0)])
contract("generic_function_linear", trusted=True, allocs=True, keys=GK,
    requires=lambda c: [("class", And(c[2] == CLS, clsok()))],
    ensures=lambda c: [gffresh(c, c.res), FV(c.S, c.res) == FLIN(zr(c[0]), zr(c[1]), zi(c[2]), O(c[3]))])
contract("generic_function_quadratic", trusted=True, allocs=True, keys=GK,
    requires=lambda c: [("class", And(c[2] == CLS, clsok()))],
    ensures=lambda c: [gffresh(c, c.res), FV(c.S, c.res) == FQUAD(zr(c[0]), zr(c[1]), zi(c[2]), O(c[3]))])

# ---------------------------------------------------------------- derived operations on single functions
def optEV(S, p): return z3.If(O(p) == 0, zr(0), EV(FV(S, p)))
contract("generic_function_daxpby", prop="C05", allocs=True, keys=GK,
    requires=lambda c: [("arguments", And(Or(O(c[1]) == 0, gf(c.S, c[1])), Or(O(c[3]) == 0, gf(c.S, c[3])), Or(O(c[1]) != 0, O(c[3]) != 0)))],
    ensures=lambda c: [("fresh", gffresh(c, c.res)),
        ("value, both given", Implies(And(O(c[1]) != 0, O(c[3]) != 0), EV(FV(c.S, c.res)) == zr(c[0]) * EV(FV(c.S0, c[1])) + zr(c[2]) * EV(FV(c.S0, c[3])))),
        ("value, second given", Implies(O(c[1]) == 0, EV(FV(c.S, c.res)) == zr(c[2]) * EV(FV(c.S0, c[3])))),
        ("value, first given", Implies(O(c[3]) == 0, EV(FV(c.S, c.res)) == zr(c[0]) * EV(FV(c.S0, c[1]))))])
# sum_k c[k*ldc] * f_k   over arrays of functions with strides
LC = RecP("LC", [HF, HP, I, I, HD, I, I], R, lambda *a: zr(0),
    lambda hf, hp, off, ld, hd, coff, ldc, k, prev: prev + z3.Select(hd, zi(iadd(coff, imul(k, ldc)))) * EV(hf[hp[zi(iadd(off, imul(k, ld)))]]))
def LCat(S, p, ld, cp, ldc, n):
    return LC.at([S.H("#F"), S.arr("ptr", O(p)), zi(p.off), zi(ld), S.arr(cp.key or "double", O(cp)), zi(cp.off), zi(ldc)], n)
def coefs(S, p, n, ld):
    return And(O(p) > 0, O(p) < zi(S.alloc), S.live(p), zi(p.off) >= 0, Implies(zi(n) > 0, zi(iscale(8, iadd(iadd(p.off, imul(isub(n, 1), ld)), 1))) <= BSIZE(O(p))))
def alt(c, p1, p2, ok):
    """exactly one of the two temporaries is set, and it satisfies ok"""
    return Or(And(O(p2) == 0, ok(p1)), And(O(p1) == 0, ok(p2)))
def lc_tm(par):
    def ok(c, p, k): return And(gffresh(c, p), EV(FV(c.S, p)) == par(c, k))
    return [lambda c, k, p1, p2: alt(c, p1, p2, lambda p: ok(c, p, k)),
            lambda c, k, p1, p2: Implies(zi(k) % 2 == 0, And(O(p1) != 0, O(p2) == 0)),
            lambda c, k, p1, p2: Implies(zi(k) % 2 == 1, And(O(p2) != 0, O(p1) == 0)),
            lambda c, k, p: ok(c, p, k)]
contract("generic_function_lin_comb2", prop="C05", allocs=True, keys=GK, interior=(2, 4),
    requires=lambda c: [("n", c[0] >= 1), ("functions", gfs(c.S, c[2], c[0], c[1])), ("coefficients", coefs(c.S, c[4], c[0], c[3]))],
    ensures=lambda c: [("fresh", gffresh(c, c.res)), ("value", EV(FV(c.S, c.res)) == LCat(c.S0, c[2], c[1], c[4], c[3], c[0]))],
    prep=lambda c: [LCat(c.S0, c[2], c[1], c[4], c[3], 0), LCat(c.S0, c[2], c[1], c[4], c[3], 1), LCat(c.S0, c[2], c[1], c[4], c[3], 2)],
    templates=lc_tm(lambda c, k: LCat(c.S0, c.a[2], c.a[1], c.a[4], c.a[3], k)))
contract("generic_function_lin_comb", prop="C05", allocs=True, keys=GK, interior=(1, 2),
    requires=lambda c: [("n", c[0] >= 1), ("functions", gfs(c.S, c[1], c[0], 1)), ("coefficients", coefs(c.S, c[2], c[0], 1))],
    ensures=lambda c: [("fresh", gffresh(c, c.res)), ("value", EV(FV(c.S, c.res)) == LCat(c.S0, c[1], 1, c[2], 1, c[0]))],
    prep=lambda c: [LCat(c.S0, c[1], 1, c[2], 1, 0), LCat(c.S0, c[1], 1, c[2], 1, 1), LCat(c.S0, c[1], 1, c[2], 1, 2)],
    templates=lc_tm(lambda c, k: LCat(c.S0, c.a[1], 1, c.a[2], 1, k)))
# sum_k a_k * b_k
SP = RecP("SP", [HF, HP, I, I, HP, I, I], R, lambda *a: zr(0),
    lambda hf, ha, aoff, lda, hb, boff, ldb, k, prev: prev + EV(PROD(hf[ha[zi(iadd(aoff, imul(k, lda)))]], hf[hb[zi(iadd(boff, imul(k, ldb)))]])))
def SPat(S, a, lda, b, ldb, n):
    return SP.at([S.H("#F"), S.arr("ptr", O(a)), zi(a.off), zi(lda), S.arr("ptr", O(b)), zi(b.off), zi(ldb)], n)
contract("generic_function_sum_prod", prop="C05", allocs=True, keys=GK, interior=(2, 4),
    requires=lambda c: [("n", c[0] >= 1), ("a", gfs(c.S, c[2], c[0], c[1])), ("b", gfs(c.S, c[4], c[0], c[3]))],
    ensures=lambda c: [("fresh", gffresh(c, c.res)), ("value", EV(FV(c.S, c.res)) == SPat(c.S0, c[2], c[1], c[4], c[3], c[0]))],
    prep=lambda c: [SPat(c.S0, c[2], c[1], c[4], c[3], 0), SPat(c.S0, c[2], c[1], c[4], c[3], 1)],
    templates=lc_tm(lambda c, k: SPat(c.S0, c.a[2], c.a[1], c.a[4], c.a[3], k)))
# sum_k <a_k, b_k>
def mkIS(name, U):
    IS = RecP(name, [HF, HP, I, I, HP, I, I], R, lambda *a: zr(0),
        lambda hf, ha, aoff, lda, hb, boff, ldb, k, prev: prev + U(hf[ha[zi(iadd(aoff, imul(k, lda)))]], hf[hb[zi(iadd(boff, imul(k, ldb)))]]))
    return lambda S, a, lda, b, ldb, n: IS.at([S.H("#F"), S.arr("ptr", O(a)), zi(a.off), zi(lda), S.arr("ptr", O(b)), zi(b.off), zi(ldb)], n)
ISat = mkIS("IS", INNER); ISWat = mkIS("ISW", INNERW)
for nm, A in (("generic_function_inner_sum", ISat), ("generic_function_inner_weighted_sum", ISWat)):
    contract(nm, prop="C05", keys=GK, interior=(2, 4),
        requires=lambda c: [("a", gfs(c.S, c[2], c[0], c[1])), ("b", gfs(c.S, c[4], c[0], c[3]))],
        ensures=lambda c, A=A: [("value", c.res == A(c.S0, c[2], c[1], c[4], c[3], c[0]))],
        prep=lambda c, A=A: [A(c.S0, c[2], c[1], c[4], c[3], 0)],
        templates=[lambda c, k, x, A=A: x == A(c.S0, c.a[2], c.a[1], c.a[4], c.a[3], k)])
