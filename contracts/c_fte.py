"""Evaluation, integration and inner products of function trains as chains of matrix products (layer "ft").
The numbers in a block of memory stand for a row vector (VREP) or a column-major matrix (MREP); both depend on nothing but the numbers."""
from c_ft import *
layer("ft")
Vs = z3.DeclareSort("V"); Ms = z3.DeclareSort("M")
VREP = z3.Function("VREP", HD, I, I, Vs)             # cells, offset, length
MREP = z3.Function("MREP", HD, I, I, I, Ms)          # cells, offset, rows, columns
EXT = {"VREP": lambda n: n, "MREP": lambda r, c: imul(r, c)}
VMUL = z3.Function("VMUL", Vs, Ms, Vs); ROW = z3.Function("ROW", Ms, Vs); SC = z3.Function("SC", Vs, R)
QINT = z3.Function("QINT", Qs, Ms); QKI = z3.Function("QKI", Qs, Qs, Ms); VKI = z3.Function("VKI", Vs, Qs, Qs, Vs)
DK = ["double"]
def vec(S, p, n): return VREP(S.arr("double", O(p)), zi(p.off), zi(n))
def matr(S, p, r, k): return MREP(S.arr("double", O(p)), zi(p.off), zi(r), zi(k))
def scal(S, p):
    """the only entry of a vector of length one"""
    return SC(vec(S, p, 1)) == S.raw("double", O(p), p.off)
def row1(S, p, n): return vec(S, p, n) == ROW(matr(S, p, 1, n))
contract("qmarray_integrate", trusted=True, why=WQ, allocs=True, keys=QQ + DK, requires=lambda c: [qok(c.S, c[0])],
    ensures=lambda c: [varr(c.S, c.res, imul(nr(c.S0, c[0]), nc(c.S0, c[0]))), isfresh(c, c.res), matr(c.S, c.res, nr(c.S0, c[0]), nc(c.S0, c[0])) == QINT(QV(c.S0, c[0])),
        Implies(nr(c.S0, c[0]) == 1, row1(c.S, c.res, nc(c.S0, c[0]))), scal(c.S, c.res)])
def vm(c, o, n, x, A, r, k): return vec(c.S, o, n) == VMUL(vec(c.S0, x, r), matr(c.S0, A, r, k))
contract("cblas_dgemm", trusted=True, why="matrix product of the BLAS, for a row vector times a column-major matrix", keys=DK, mods=DK, interior=(7, 9, 12),
    requires=lambda c: [("a row vector times a column-major matrix", And(c[0] == 102, c[1] == 111, c[2] == 111, c[3] == 1, c[8] == 1, c[10] == zi(c[5]), c[13] == 1, zr(c[6]) == zr(1), zr(c[11]) == zr(0))),
        ("vector", varr(c.S, c[7], c[5])), ("matrix", varr(c.S, c[9], imul(c[5], c[4]))), ("output", varr(c.S, c[12], c[4])), ("separate", And(O(c[12]) != O(c[7]), O(c[12]) != O(c[9])))],
    assigns=lambda c: [("double", c[12], c[12].off, iadd(c[12].off, c[4]))],
    ensures=lambda c: [vm(c, c[12], c[4], c[7], c[9], c[5], c[4]), scal(c.S, c[12])])
CH = RecP("CHI", [z3.ArraySort(I, Qs), HP], Vs, lambda hq, hp: ROW(QINT(hq[hp[0]])), lambda hq, hp, k, prev: VMUL(prev, QINT(hq[hp[zi(iadd(k, 1))]])))
def CHat(S, f, k): return CH.at([S.H("#Q"), S.arr("ptr", fcs(S, f))], k)     # after core k
def live2(c, p1, p2, P): return Or(And(O(p2) == 0, P(p1)), And(O(p1) == 0, P(p2)))
def okv(c, p, n, v): return And(varr(c.S, p, n), isfresh(c, p), p.off == 0 if not isinstance(p.off, int) else True, vec(c.S, p, n) == v, scal(c.S, p))
def run(c, k, p, at): return okv(c, p, rank(c.S0, c.a[0], k), at(c, isub(k, 1)))
def chain_tm(at):
    return [lambda c, k, p1, p2: live2(c, p1, p2, lambda p: run(c, k, p, at)),
            lambda c, k, p1, p2: Implies(zi(k) % 2 == 1, And(O(p1) != 0, O(p2) == 0)), lambda c, k, p1, p2: Implies(zi(k) % 2 == 0, And(O(p2) != 0, O(p1) == 0)),
            lambda c, k, p: run(c, k, p, at)]
contract("function_train_integrate", prop="C07", keys=FK + DK, requires=fa1, allocs=True,
    ensures=lambda c: [("the product of the integrals of the cores", c.res == SC(CHat(c.S0, c[0], isub(fdim(c.S0, c[0]), 1))))],
    prep=lambda c: [CHat(c.S0, c[0], 0)], templates=chain_tm(lambda c, k: CHat(c.S0, c.a[0], k)))
contract("qmarray_kron_integrate", trusted=True, why=WQ, allocs=True, keys=QQ + DK, requires=lambda c: [qok(c.S, c[0]), qok(c.S, c[1])],
    ensures=lambda c: [varr(c.S, c.res, imul(imul(nr(c.S0, c[0]), nr(c.S0, c[1])), imul(nc(c.S0, c[0]), nc(c.S0, c[1])))), isfresh(c, c.res),
        Implies(And(nr(c.S0, c[0]) == 1, nr(c.S0, c[1]) == 1), vec(c.S, c.res, imul(nc(c.S0, c[1]), nc(c.S0, c[0]))) == ROW(QKI(QV(c.S0, c[0]), QV(c.S0, c[1])))), scal(c.S, c.res)])
contract("qmarray_vec_kron_integrate", trusted=True, why=WQ, allocs=True, keys=QQ + DK,
    requires=lambda c: [qok(c.S, c[1]), qok(c.S, c[2]), ("vector", varr(c.S, c[0], imul(nr(c.S, c[1]), nr(c.S, c[2]))))],
    ensures=lambda c: [varr(c.S, c.res, imul(nc(c.S0, c[1]), nc(c.S0, c[2]))), isfresh(c, c.res),
        vec(c.S, c.res, imul(nc(c.S0, c[1]), nc(c.S0, c[2]))) == VKI(vec(c.S0, c[0], imul(nr(c.S0, c[1]), nr(c.S0, c[2]))), QV(c.S0, c[1]), QV(c.S0, c[2])), scal(c.S, c.res)])
IC = RecP("CHK", [z3.ArraySort(I, Qs), HP, HP], Vs, lambda hq, ha, hb: ROW(QKI(hq[hb[0]], hq[ha[0]])), lambda hq, ha, hb, k, prev: VKI(prev, hq[ha[zi(iadd(k, 1))]], hq[hb[zi(iadd(k, 1))]]))
def ICat(S, a, b, k): return IC.at([S.H("#Q"), S.arr("ptr", fcs(S, a)), S.arr("ptr", fcs(S, b))], k)
def one(x, y): return Implies(zi(x) == 1, And(zi(imul(x, y)) == zi(y), zi(imul(y, x)) == zi(y)))
contract("function_train_inner", prop="C07", keys=FK + DK, requires=fa2, allocs=True, ext=EXT, lemmas=[lambda c: one(rank(c.S, c[0], fdim(c.S, c[0])), rank(c.S, c[1], fdim(c.S, c[0])))],
    ensures=lambda c: [("the chain of integrated Kronecker products", c.res == SC(ICat(c.S0, c[0], c[1], isub(fdim(c.S0, c[0]), 1))))],
    prep=lambda c: [ICat(c.S0, c[0], c[1], 0)],
    templates=[lambda c, k, p: okv(c, p, imul(rank(c.S0, c.a[0], k), rank(c.S0, c.a[1], k)), ICat(c.S0, c.a[0], c.a[1], isub(k, 1))), lambda c, k: zi(k) <= fdim(c.S0, c.a[0])])
contract("function_train_norm2", prop="C07", keys=FK + DK, requires=fa1, allocs=True,
    ensures=lambda c: [("square root of the inner product with itself", (lambda v: And(c.res >= 0, c.res * c.res == z3.If(v >= 0, v, -v)))(SC(ICat(c.S0, c[0], c[0], isub(fdim(c.S0, c[0]), 1)))))])
# ---- evaluation
engine.FLAT["#QF"] = Qs           # the array of functions a block of function pointers belongs to
QEV = z3.Function("QEV", Qs, R, Ms); QEVI = z3.Function("QEVI", Qs, I, Ms)
def QF(S, o): return S.flat("#QF", O(o))
def qfn(S, q): return S.fo(q, "Qmarray.funcs")
def own(S, f): return All(fdim(S, f), lambda k: QF(S, qfn(S, core(S, f, k))) == QV(S, core(S, f, k)), pats=lambda k: [core(S, f, k)])
def aeval(nm, pos, U, zz, extra=lambda c: True):
    """n functions evaluated into consecutive cells"""
    contract(nm, trusted=True, why="evaluation of every function of an array in order (qmarray_eval, property C04; generic_function_1d_eval)", keys=["#QF", "#live"] + DK + ["i64"], mods=DK, interior=(pos,),
        requires=lambda c: [("all the functions of an array", c[0] == zi(imul(QR(QF(c.S, c[1])), QC(QF(c.S, c[1]))))), ("output", varr(c.S, c[pos], c[0])), ("variant", extra(c))],
        assigns=lambda c: [("double", c[pos], c[pos].off, iadd(c[pos].off, c[0]))],
        ensures=lambda c: [matr(c.S, c[pos], QR(QF(c.S0, c[1])), QC(QF(c.S0, c[1]))) == U(QF(c.S0, c[1]), zz(c)), Implies(QR(QF(c.S0, c[1])) == 1, row1(c.S, c[pos], QC(QF(c.S0, c[1])))), scal(c.S, c[pos])])
aeval("generic_function_1darray_eval2", 3, QEV, lambda c: zr(c[2]))
aeval("generic_function_1darray_eval2N", 5, QEV, lambda c: c.S0.raw("double", O(c[3]), c[3].off), lambda c: And(c[2] == 1, varr(c.S, c[3], 1), O(c[3]) != O(c[5])))
aeval("generic_function_1darray_eval2_ind", 3, QEVI, lambda c: zi(c[2]))
contract("cblas_dgemv", trusted=True, why="matrix-vector product of the BLAS, transposed column-major matrix times a vector", keys=DK, mods=DK, interior=(5, 7, 10),
    requires=lambda c: [("transposed column-major matrix", And(c[0] == 102, c[1] == 112, c[6] == zi(c[2]), c[8] == 1, c[11] == 1, zr(c[4]) == zr(1), zr(c[9]) == zr(0))),
        ("matrix", varr(c.S, c[5], imul(c[2], c[3]))), ("vector", varr(c.S, c[7], c[2])), ("output", varr(c.S, c[10], c[3])), ("separate", And(O(c[10]) != O(c[5]), O(c[10]) != O(c[7])))],
    assigns=lambda c: [("double", c[10], c[10].off, iadd(c[10].off, c[3]))],
    ensures=lambda c: [vm(c, c[10], c[3], c[7], c[5], c[2], c[3]), scal(c.S, c[10])])
def mnum(S, m): return S.f(m, "FTMemSpace.num_spaces")
def msz(S, m): return S.f(m, "FTMemSpace.space_size")
def mval(S, m): return S.fo(m, "FTMemSpace.vals")
def mok(S, m): return And(vstruct(S, m, "FTMemSpace"), varr(S, mval(S, m), imul(mnum(S, m), msz(S, m))), mval(S, m) != O(m))
MSK = ["FTMemSpace.num_spaces", "FTMemSpace.space_size", "FTMemSpace.vals", "#live", "double"]
contract("ft_mem_space_alloc", prop="C07", allocs=True, keys=MSK,
    ensures=lambda c: [("new", And(mok(c.S, c.res), isfresh(c, c.res), isfresh(c, Ptr(mval(c.S, c.res))))), ("size", And(mnum(c.S, c.res) == zi(c[0]), msz(c.S, c.res) == zi(c[1]), varr(c.S, mval(c.S, c.res), imul(c[0], c[1]))))])
def msame(c, m): return And(mval(c.S, m) == mval(c.S0, m), mnum(c.S, m) == mnum(c.S0, m), msz(c.S, m) == msz(c.S0, m))
contract("ft_mem_space_check", prop="C07", allocs=True, keys=MSK, mods=MSK[:4],
    lemmas=[lambda c: mono(c[1], c[2])], requires=lambda c: [("missing or valid", Or(O(c[0]) == 0, mok(c.S, c[0])))],
    assigns=lambda c: [(k, c[0]) for k in MSK[:3]] + [("#live", lambda o: And(O(c[0]) != 0, o == mval(c.S0, c[0])))],
    ensures=lambda c: [("reports a missing workspace", And(Or(c.res == 0, c.res == 1), (c.res == 1) == (O(c[0]) == 0))),
        ("large enough afterwards", Implies(O(c[0]) != 0, And(mok(c.S, c[0]), mnum(c.S, c[0]) >= zi(c[1]), msz(c.S, c[0]) == zi(c[2]), varr(c.S, mval(c.S, c[0]), imul(c[1], c[2]))))),
        ("kept or replaced", Implies(O(c[0]) != 0, Or(And(msame(c, c[0]), c.S.live(mval(c.S0, c[0]))), isfresh(c, Ptr(mval(c.S, c[0]))))))])
def sqmono():
    """instance schema: 0 <= a, b <= m -> a*b <= m*m"""
    smt.USED["mul"] = True
    a, b, m = z3.Ints("a!m b!m m!m")
    return z3.ForAll([a, b, m], z3.Implies(z3.And(a >= 0, b >= 0, a <= m, b <= m), MUL(a, b) <= MUL(m, m)), patterns=[z3.MultiPattern(MUL(a, b), MUL(m, m))])
contract("function_train_get_maxrank", prop="C07", keys=FK, requires=lambda c: [("ranks", And(vstruct(c.S, c[0], "FunctionTrain"), fdim(c.S, c[0]) >= 0, varr(c.S, frk(c.S, c[0]), iadd(fdim(c.S, c[0]), 1))))],
    ensures=lambda c: [("at least one", c.res >= 1), ("no rank exceeds it", AllG(c, iadd(fdim(c.S0, c[0]), 1), lambda k: rank(c.S0, c[0], k) <= c.res, pats=lambda k: [rank(c.S0, c[0], k)])),
        ("no product of neighbouring ranks exceeds its square", AllG(c, fdim(c.S0, c[0]), lambda k: zi(imul(rank(c.S0, c[0], k), rank(c.S0, c[0], iadd(k, 1)))) <= zi(imul(c.res, c.res)), pats=lambda k: [rank(c.S0, c[0], k)]))],
    lemmas=[lambda c: sqmono()],
    templates=[lambda c, k, n: Implies(And(c.g() >= 0, c.g() < zi(k)), rank(c.S0, c.a[0], c.g()) <= zi(n)), lambda c, k, n: Implies(And(c.g() >= -1, c.g() + 1 < zi(k)), rank(c.S0, c.a[0], c.g() + 1) <= zi(n)), lambda c, n: zi(n) >= 1])
# ---- evaluation workspaces
ES = ("FunctionTrain.evalspace1", "FunctionTrain.evalspace2", "FunctionTrain.evalspace3")
def es(S, f, i): return S.fo(f, ES[i])
def apartft(S, f, o):
    """o is none of the objects that make up the function train f"""
    return And(o != O(f), o != frk(S, f), o != fcs(S, f), All(fdim(S, f), lambda k: And(o != core(S, f, k), o != qfn(S, core(S, f, k))), pats=lambda k: [core(S, f, k)]))
def wsok(S, f):
    """the three workspaces are missing or valid, and share nothing with each other or with the train"""
    L = []
    for i in range(3):
        e = es(S, f, i); m = mval(S, e)
        L.append(Or(e == 0, And(mok(S, e), apartft(S, f, m), apartft(S, f, e))))
        for j in range(3):
            if j != i:
                L.append(Or(e == 0, es(S, f, j) == 0, And(m != mval(S, es(S, f, j)), e != es(S, f, j), m != es(S, f, j))))
    return And(*L)
EK = FK + DK + MSK + list(ES) + ["i64", "#QF", "Qmarray.funcs", "Qmarray.nrows", "Qmarray.ncols"]
def mr2(r): return imul(r, r)
def pcell(S, p): return S.raw("ptr", O(p), p.off)
def ficell(S, p): return S.raw("i64", O(p), p.off)
def dead(c, f):
    """objects freed by a call: replaced buffers of the workspaces"""
    return lambda o: Or(*[And(es(c.S0, f, i) != 0, o == mval(c.S0, es(c.S0, f, i))) for i in range(3)])
def wsasg(c, f): return [(k, f) for k in ES] + [(k, lambda o, f=f: Or(*[And(es(c.S0, f, i) != 0, o == es(c.S0, f, i)) for i in range(3)])) for k in MSK[:3]] + [("#live", dead(c, f))]
def esold(c, f): return And(*[If(es(c.S0, f, i) != 0, es(c.S, f, i) == es(c.S0, f, i), isfresh(c, Ptr(es(c.S, f, i)))) for i in range(3)])
contract("function_train_pre_eval", prop="C07", allocs=True, keys=EK, mods=MSK[:4] + list(ES) + ["ptr", "i64"],
    requires=lambda c: [("function train", ftok(c.S, c[0])), ("workspaces", wsok(c.S, c[0])), ("outputs", And(*[And(varr(c.S, c[i], 1), apartft(c.S, c[0], O(c[i])), *[Or(es(c.S, c[0], k) == 0, And(O(c[i]) != es(c.S, c[0], k), O(c[i]) != mval(c.S, es(c.S, c[0], k)))) for k in range(3)]) for i in (1, 2, 3, 4)],
        O(c[2]) != O(c[3]), O(c[2]) != O(c[4]), O(c[3]) != O(c[4]))), ("points", c[5] >= 1)],
    assigns=lambda c: wsasg(c, c[0]) + [("i64", c[1], c[1].off, iadd(c[1].off, 1))] + [("ptr", c[i], c[i].off, iadd(c[i].off, 1)) for i in (2, 3, 4)],
    ensures=lambda c: [("no rank exceeds the size", And(ficell(c.S, c[1]) >= 1, AllG(c, iadd(fdim(c.S0, c[0]), 1), lambda k: rank(c.S0, c[0], k) <= ficell(c.S, c[1]), pats=lambda k: [rank(c.S0, c[0], k)]))),
        ("no core exceeds a workspace", AllG(c, fdim(c.S0, c[0]), lambda k: zi(imul(rank(c.S0, c[0], k), rank(c.S0, c[0], iadd(k, 1)))) <= zi(mr2(ficell(c.S, c[1]))), pats=lambda k: [rank(c.S0, c[0], k)])),
       ] + [("room %d" % (i - 1), varr(c.S, Ptr(pcell(c.S, c[i])), imul(c[5], mr2(ficell(c.S, c[1]))))) for i in (2, 3, 4)] + [
        ("separate", And(pcell(c.S, c[2]) != pcell(c.S, c[3]), pcell(c.S, c[2]) != pcell(c.S, c[4]), pcell(c.S, c[3]) != pcell(c.S, c[4]))),
        ("the workspaces' buffers", And(*[And(es(c.S, c[0], i - 2) != 0, pcell(c.S, c[i]) == mval(c.S, es(c.S, c[0], i - 2))) for i in (2, 3, 4)])),
        ("own workspaces or new", esold(c, c[0])), ("own buffers or new", And(*[Or(And(es(c.S0, c[0], i - 2) != 0, pcell(c.S, c[i]) == mval(c.S0, es(c.S0, c[0], i - 2))), isfresh(c, Ptr(pcell(c.S, c[i])))) for i in (2, 3, 4)])),
        ("workspaces stay valid", wsok(c.S, c[0]))])

def corev(S, f, k): return QV(S, core(S, f, k))
contract("function_train_eval_next_core", prop="C07", keys=EK, mods=DK, interior=(3, 5, 7, 9), unroll=2,
    requires=lambda c: [("function train", ftok(c.S, c[0])), ("functions belong to their cores", own(c.S, c[0])), ("core", And(c[1] >= 1, c[1] < fdim(c.S, c[0]))), ("one point", c[2] == 1), ("point", varr(c.S, c[3], 1)),
        ("previous", varr(c.S, c[5], rank(c.S, c[0], c[1]))), ("room", varr(c.S, c[7], imul(rank(c.S, c[0], c[1]), rank(c.S, c[0], iadd(c[1], 1))))), ("output", varr(c.S, c[9], rank(c.S, c[0], iadd(c[1], 1)))),
        ("separate", And(O(c[7]) != O(c[3]), O(c[7]) != O(c[5]), O(c[9]) != O(c[5]), O(c[9]) != O(c[7])))],
    assigns=lambda c: [("double", c[7], c[7].off, iadd(c[7].off, imul(rank(c.S0, c[0], c[1]), rank(c.S0, c[0], iadd(c[1], 1))))), ("double", c[9], c[9].off, iadd(c[9].off, rank(c.S0, c[0], iadd(c[1], 1))))],
    ensures=lambda c: [("previous times the value of the core", vec(c.S, c[9], rank(c.S0, c[0], iadd(c[1], 1))) == VMUL(vec(c.S0, c[5], rank(c.S0, c[0], c[1])), QEV(corev(c.S0, c[0], c[1]), c.S0.raw("double", O(c[3]), c[3].off)))),
        ("scalar", scal(c.S, c[9]))])
EC = RecP("CHE", [z3.ArraySort(I, Qs), HP, HD, I], Vs, lambda hq, hp, hx, off: ROW(QEV(hq[hp[0]], hx[off])), lambda hq, hp, hx, off, k, prev: VMUL(prev, QEV(hq[hp[zi(iadd(k, 1))]], hx[zi(iadd(off, iadd(k, 1)))])))
def ECat(S, f, x, k): return EC.at([S.H("#Q"), S.arr("ptr", fcs(S, f)), S.arr("double", O(x)), zi(x.off)], k)   # after core k
def EVX(S, f, x): return SC(ECat(S, f, x, isub(fdim(S, f), 1)))
def evreq(c, xi=1): return [("function train", ftok(c.S, c[0])), ("functions belong to their cores", own(c.S, c[0])), ("workspaces", wsok(c.S, c[0])),
        ("point is not in a workspace", And(*[Or(es(c.S, c[0], i) == 0, And(O(c[xi]) != mval(c.S, es(c.S, c[0], i)), O(c[xi]) != es(c.S, c[0], i))) for i in range(3)]))]
def wsbuf(c, f): return [("double", lambda o: Or(*[And(es(c.S0, f, i) != 0, o == mval(c.S0, es(c.S0, f, i))) for i in range(3)]))]
def run2(c, k, p, at): return And(vec(c.S, Ptr(pcell(c.S, p)), rank(c.S0, c.a[0], k)) == at(c, isub(k, 1)), scal(c.S, Ptr(pcell(c.S, p))))
def eval_tm(at):
    return [lambda c, k, p: Implies(zi(k) % 2 == 1, run2(c, k, p, at)), lambda c, k, p: Implies(zi(k) % 2 == 0, run2(c, k, p, at)),
            lambda c, k, n: zi(n) == 2 - zi(k) % 2, lambda c, k: zi(k) <= fdim(c.S0, c.a[0])]
EM = MSK[:4] + list(ES) + DK
contract("function_train_eval", prop="C07", allocs=True, keys=EK, mods=EM, requires=lambda c: evreq(c) + [("point", varr(c.S, c[1], fdim(c.S, c[0])))], interior=(1,),
    assigns=lambda c: wsasg(c, c[0]) + wsbuf(c, c[0]),
    ensures=lambda c: [("the product of the cores' values", c.res == EVX(c.S0, c[0], c[1])), ("workspaces stay valid", wsok(c.S, c[0])),
        ("own workspaces or new", esold(c, c[0])), ("workspaces own or new", And(*[And(es(c.S, c[0], i) != 0, Or(And(es(c.S0, c[0], i) != 0, mval(c.S, es(c.S, c[0], i)) == mval(c.S0, es(c.S0, c[0], i))), isfresh(c, Ptr(mval(c.S, es(c.S, c[0], i)))))) for i in range(3)]))],
    prep=lambda c: [ECat(c.S0, c[0], c[1], 0)], templates=eval_tm(lambda c, k: ECat(c.S0, c.a[0], c.a[1], k)))
contract("function_train_eval_up_to_core", prop="C07", allocs=True, keys=EK, mods=EM + ["i64"], interior=(2, 3), copies=("double",), ext=EXT,
    requires=lambda c: evreq(c, 2) + [("core", And(c[1] >= 0, c[1] < fdim(c.S, c[0]))), ("point", varr(c.S, c[2], fdim(c.S, c[0]))), ("outputs", And(varr(c.S, c[3], rank(c.S, c[0], iadd(c[1], 1))), varr(c.S, c[4], 1), *[And(apartft(c.S, c[0], O(c[i])), *[Or(es(c.S, c[0], k) == 0, And(O(c[i]) != es(c.S, c[0], k), O(c[i]) != mval(c.S, es(c.S, c[0], k)))) for k in range(3)]) for i in (3, 4)]))],
    assigns=lambda c: wsasg(c, c[0]) + wsbuf(c, c[0]) + [("double", c[3], c[3].off, iadd(c[3].off, rank(c.S0, c[0], iadd(c[1], 1)))), ("i64", c[4], c[4].off, iadd(c[4].off, 1))],
    ensures=lambda c: [("length", ficell(c.S, c[4]) == rank(c.S0, c[0], iadd(c[1], 1))), ("the product of the first cores' values", vec(c.S, c[3], rank(c.S0, c[0], iadd(c[1], 1))) == ECat(c.S0, c[0], c[2], c[1])), ("workspaces stay valid", wsok(c.S, c[0]))],
    prep=lambda c: [ECat(c.S0, c[0], c[2], 0)], templates=eval_tm(lambda c, k: ECat(c.S0, c.a[0], c.a[2], k)) + [lambda c, k: zi(k) <= zi(iadd(c.a[1], 1))])
EI = RecP("CHD", [z3.ArraySort(I, Qs), HP, HP, I], Vs, lambda hq, hp, hx, off: ROW(QEVI(hq[hp[0]], hx[off])), lambda hq, hp, hx, off, k, prev: VMUL(prev, QEVI(hq[hp[zi(iadd(k, 1))]], hx[zi(iadd(off, iadd(k, 1)))])))
def EIat(S, f, x, k): return EI.at([S.H("#Q"), S.arr("ptr", fcs(S, f)), S.arr("i64", O(x)), zi(x.off)], k)
contract("function_train_eval_ind", prop="C07", allocs=True, keys=EK, mods=EM, requires=lambda c: evreq(c) + [("indices", varr(c.S, c[1], fdim(c.S, c[0])))], interior=(1,),
    assigns=lambda c: wsasg(c, c[0]) + wsbuf(c, c[0]),
    ensures=lambda c: [("the product of the cores' values at the nodes", c.res == SC(EIat(c.S0, c[0], c[1], isub(fdim(c.S0, c[0]), 1)))), ("workspaces stay valid", wsok(c.S, c[0]))],
    prep=lambda c: [EIat(c.S0, c[0], c[1], 0)], templates=eval_tm(lambda c, k: EIat(c.S0, c.a[0], c.a[1], k)))
contract("function_train_evals", prop="C07", allocs=True, keys=EK, mods=EM, interior=(2, 3),
    requires=lambda c: evreq(c, 2) + [("points", varr(c.S, c[2], imul(c[1], fdim(c.S, c[0])))), ("output", And(varr(c.S, c[3], c[1]), O(c[3]) != O(c[2]), apartft(c.S, c[0], O(c[3])), *[Or(es(c.S, c[0], k) == 0, And(O(c[3]) != es(c.S, c[0], k), O(c[3]) != mval(c.S, es(c.S, c[0], k)))) for k in range(3)]))],
    assigns=lambda c: wsasg(c, c[0]) + wsbuf(c, c[0]) + [("double", c[3], c[3].off, iadd(c[3].off, c[1]))], lemmas=[lambda c: mono(c[1], fdim(c.S, c[0]))],
    ensures=lambda c: [("every value", AllG(c, c[1], lambda t: c.S.raw("double", O(c[3]), iadd(c[3].off, t)) == EVX(c.S0, c[0], Ptr(c[2].obj, iadd(c[2].off, imul(t, fdim(c.S0, c[0]))))))), ("workspaces stay valid", wsok(c.S, c[0]))],
    templates=upto(lambda c, p, g: c.S.raw("double", O(c.a[3]), iadd(c.a[3].off, g)) == EVX(c.S0, c.a[0], Ptr(c.a[2].obj, iadd(c.a[2].off, imul(g, fdim(c.S0, c.a[0]))))), n=lambda c: c.a[1], p=None) +
        [lambda c, k: wsok(c.S, c.a[0]), lambda c, k: And(*[Or(es(c.S, c.a[0], i) == 0, And(es(c.S0, c.a[0], i) != 0, es(c.S, c.a[0], i) == es(c.S0, c.a[0], i)), isfresh(c, Ptr(es(c.S, c.a[0], i)))) for i in range(3)]),
         lambda c, k: And(*[Or(es(c.S, c.a[0], i) == 0, And(es(c.S0, c.a[0], i) != 0, mval(c.S, es(c.S, c.a[0], i)) == mval(c.S0, es(c.S0, c.a[0], i))), isfresh(c, Ptr(mval(c.S, es(c.S, c.a[0], i))))) for i in range(3)])])
