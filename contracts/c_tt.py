"""Layer "la": dense tensors, canonical decompositions (tensor.c, candecomp.c; C15), quadrature weights (quadrature.c; C16)."""
from c_la import da, cells, DK, HD, HI, mr, mc, mv, mx, mok
from gfabs import newd, outd
from dsl import *
layer("la")
T_ = "C15"
PRI = RecP("PRI", [HI, I], I, lambda *a: zi(1), lambda h, o, k, prev: zi(imul(prev, h[zi(iadd(o, k))])))
def pri(S, p, k): return PRI.at([S.arr("i64", O(p)), zi(p.off)], k)
def sz(S, p, i): return S.raw("i64", O(p), iadd(p.off, i))
def vol(a, b, d): return imul(imul(a, b), d)
def v3(S, p): return vol(sz(S, p, 0), sz(S, p, 1), sz(S, p, 2))
def nonneg(S, p, n): return All(iadd(p.off, n), lambda t: S.raw("i64", O(p), t) >= 0, lo=p.off, pats=lambda t: [S.raw("i64", O(p), t)])
contract("iprod_sz", prop=T_, keys=["i64", "#live"], requires=lambda c: [("sizes", And(varr(c.S, c[1], c[0]), zi(c[0]) >= 0, nonneg(c.S, c[1], c[0])))],
    ensures=lambda c: [("product", c.res == pri(c.S0, c[1], c[0])), ("not negative", c.res >= 0), ("three factors", Implies(zi(c[0]) == 3, c.res == v3(c.S0, c[1])))],
    prep=lambda c: [pri(c.S0, c[1], 3)], templates=[lambda c, k1, n1: And(zi(n1) == pri(c.S0, c.a[1], k1), zi(n1) >= 0)])
TK = ["tensor.dim", "tensor.nvals", "tensor.vals", "i64"] + DK
def tnp(S, t): return Ptr(S.fo(t, "tensor.nvals"), 0)
def tvp(S, t): return Ptr(S.fo(t, "tensor.vals"), 0)
def td(S, t, i): return S.raw("i64", S.fo(t, "tensor.nvals"), i)
def tx(S, t, x): return S.raw("double", S.fo(t, "tensor.vals"), x)
def tvol(S, t): return vol(td(S, t, 0), td(S, t, 1), td(S, t, 2))
def tok(S, t): return And(vstruct(S, t, "tensor"), S.f(t, "tensor.dim") == 3, varr(S, tnp(S, t), 3), *[td(S, t, i) >= 0 for i in range(3)], varr(S, tvp(S, t), tvol(S, t)), O(tnp(S, t)) != O(t), O(tvp(S, t)) != O(t))
def tgt(S, p): return Ptr(S.raw("ptr", O(p), p.off), 0)
contract("init_tensor", prop=T_, allocs=True, interior=(0,), keys=TK + ["ptr"], mods=["ptr"], copies=("i64",), prep=lambda c: [pri(c.S0, c[2], 3)],
    requires=lambda c: [("where to store it", varr(c.S, c[0], 1)), ("sizes", And(varr(c.S, c[2], c[1]), zi(c[1]) >= 1, nonneg(c.S, c[2], c[1])))], assigns=lambda c: [("ptr", c[0], c[0].off, iadd(c[0].off, 1))],
    ensures=lambda c: (lambda t: [("fresh", And(isfresh(c, t), vstruct(c.S, t, "tensor"), isfresh(c, tnp(c.S, t)), isfresh(c, tvp(c.S, t)), O(tnp(c.S, t)) != O(t), O(tvp(c.S, t)) != O(t))), ("dimension", c.S.f(t, "tensor.dim") == zi(c[1])),
        ("sizes", And(varr(c.S, tnp(c.S, t), c[1]), AllG(c, c[1], lambda i: td(c.S, t, i) == sz(c.S0, c[2], i), pats=lambda i: [td(c.S, t, i)]))), ("space", varr(c.S, tvp(c.S, t), pri(c.S0, c[2], c[1]))), ("zero", AllG(c, pri(c.S0, c[2], c[1]), lambda i: tx(c.S, t, i) == 0, pats=lambda i: [tx(c.S, t, i)])),
        ("three sizes", Implies(zi(c[1]) == 3, And(pri(c.S0, c[2], c[1]) == v3(c.S0, c[2]), *[td(c.S, t, i) == sz(c.S0, c[2], i) for i in range(3)])))])(tgt(c.S, c[0])))
# position of an element: e0 + e1*n0 + e2*n0*n1 + ..., as the code accumulates it
POS = RecP("POS", [HI, I, HI, I], I, lambda e, eo, h, o: e[zi(eo)], lambda e, eo, h, o, k, prev: prev + zi(imul(e[zi(iadd(eo, iadd(k, 1)))], PRI.at([h, o], iadd(k, 1)))))
def pos(c, k): return POS.at([c.S0.arr("i64", O(c.a[1])), zi(c.a[1].off), c.S0.arr("i64", O(tnp(c.S0, c.a[0]))), zi(0)], k)
contract("tensor_elem", prop=T_, keys=TK, interior=(1,), requires=lambda c: [("tensor", And(vstruct(c.S, c[0], "tensor"), c.S.f(c[0], "tensor.dim") >= 1, varr(c.S, tnp(c.S, c[0]), c.S.f(c[0], "tensor.dim")))), ("indices", varr(c.S, c[1], c.S.f(c[0], "tensor.dim"))),
        ("an element", And(pos(c, isub(c.S.f(c[0], "tensor.dim"), 1)) >= 0, varr(c.S, tvp(c.S, c[0]), iadd(pos(c, isub(c.S.f(c[0], "tensor.dim"), 1)), 1))))],
    ensures=lambda c: [("the element", c.res == tx(c.S0, c[0], pos(c, isub(c.S0.f(c[0], "tensor.dim"), 1))))],
    prep=lambda c: [pri(c.S0, tnp(c.S0, c[0]), 1), pos(c, 0)], templates=[lambda c, k1, n1: zi(n1) == pos(c, isub(k1, 1)), lambda c, k1, n1: zi(n1) == pri(c.S0, tnp(c.S0, c.a[0]), k1)])
# operations on three-dimensional tensors: element (i, j, k) with i, j, k arbitrary (ghosts)
def at(i, j, k, a, b): return iadd(iadd(i, imul(j, a)), imul(k, imul(a, b)))
def el(S, t, i, j, k): return tx(S, t, at(i, j, k, td(S, t, 0), td(S, t, 1)))
def inb(c, a, b, d): return And(c.g(0) >= 0, c.g(0) < zi(a), c.g(1) >= 0, c.g(1) < zi(b), c.g(2) >= 0, c.g(2) < zi(d))
def lems(shape, inj=True):
    def f(c):
        a, b, d = shape(c)
        if inj is None: return []
        if not inj: return [mono(b, a), mono(d, imul(a, b))]
        return [mono(b, a), mono(d, imul(a, b)), mono(c.g(1), a), mono(iadd(c.g(1), 1), a), mono(c.g(2), imul(a, b)), mono(iadd(c.g(2), 1), imul(a, b))]
    return f
def newt(name, dims, val, requires, keys=(), lem=(), tmpl=(), inj=True, **kw):
    def P(c, p):
        a, b, d = dims(c)
        return tx(c.S, p, at(c.g(0), c.g(1), c.g(2), a, b)) == zr(val(c, c.g(0), c.g(1), c.g(2)))
    def ens(c):
        a, b, d = dims(c); t = c.res
        return [("shape", And(c.S.f(t, "tensor.dim") == 3, *[td(c.S, t, i) == zi(x) for i, x in enumerate((a, b, d))])), ("fresh", And(isfresh(c, t), isfresh(c, tnp(c.S, t)), isfresh(c, tvp(c.S, t)), vstruct(c.S, t, "tensor"), varr(c.S, tnp(c.S, t), 3), varr(c.S, tvp(c.S, t), vol(a, b, d)))), ("elements", Implies(inb(c, a, b, d), P(c, t)))]
    contract(name, prop=T_, allocs=True, keys=TK + ["ptr"] + list(keys), requires=requires, ensures=ens, lemmas=[lems(dims, inj)] + list(lem), templates=[(lambda m: lambda c, *a: m(c, P, dims(c), *a))(m) if 0 else m(P, dims) for m in tmpl], **kw)
A0, A1 = (lambda c: c.a[0]), (lambda c: c.a[1])
def dm(c, q, i): return td(c.S0, q(c), i)
newt("tensor_ones_3d", lambda c: (c.a[0], c.a[1], c.a[2]), lambda c, i, j, k: zr(1), lambda c: [("sizes", And(zi(c[0]) >= 0, zi(c[1]) >= 0, zi(c[2]) >= 0))],
    tmpl=[lambda P, dims: lambda c, k1, p: Implies(And(inb(c, *dims(c)), zi(at(c.g(0), c.g(1), c.g(2), c.a[0], c.a[1])) < zi(k1)), tx(c.S, tgt(c.S, p), at(c.g(0), c.g(1), c.g(2), c.a[0], c.a[1])) == 1)])
newt("tensor_x_3d", lambda c: (1, c.a[0], 1), lambda c, i, j, k: da(c.S0, c.a[1], j), lambda c: [("vector", And(zi(c[0]) >= 0, varr(c.S, c[1], c[0])))], copies=("double",))
newt("tensor_stack2h_3d", lambda c: (dm(c, A0, 0), dm(c, A0, 1), iadd(dm(c, A0, 2), dm(c, A1, 2))), lambda c, i, j, k: z3.If(zi(k) < dm(c, A0, 2), el(c.S0, c.a[0], i, j, k), tx(c.S0, c.a[1], at(i, j, isub(k, dm(c, A0, 2)), dm(c, A0, 0), dm(c, A0, 1)))),
    lambda c: [("left", tok(c.S, c[0])), ("right", tok(c.S, c[1])), ("same rows and slices", And(td(c.S, c[0], 0) == td(c.S, c[1], 0), td(c.S, c[0], 1) == td(c.S, c[1], 1)))], copies=("double",), inj=False, lem=[lambda c: mono(dm(c, A0, 2), imul(dm(c, A0, 0), dm(c, A0, 1))), lambda c: (lambda n: zi(imul(isub(c.g(2), dm(c, A0, 2)), n)) == zi(isub(imul(c.g(2), n), imul(dm(c, A0, 2), n))))(imul(dm(c, A0, 0), dm(c, A0, 1)))])
# tensor_stack2v_3d, tensor_blockdiag_3d, tensor_kron_3d, tensor_sum2: the products of three sizes defeat the solvers; replay only
for nm, shp, src in (("cd2tt_corel", lambda c: (1, mr(c.S0, c.a[0]), mc(c.S0, c.a[0])), lambda c, i, j, k: mx(c.S0, c.a[0], iadd(imul(j, mc(c.S0, c.a[0])), k))), ("cd2tt_corer", lambda c: (mc(c.S0, c.a[0]), mr(c.S0, c.a[0]), 1), lambda c, i, j, k: mx(c.S0, c.a[0], iadd(imul(j, mc(c.S0, c.a[0])), i))),
                     ("cd2tt_corem", lambda c: (mc(c.S0, c.a[0]), mr(c.S0, c.a[0]), mc(c.S0, c.a[0])), lambda c, i, j, k: z3.If(zi(i) == zi(k), mx(c.S0, c.a[0], iadd(imul(j, mc(c.S0, c.a[0])), k)), zr(0)))):
    inner = (lambda c: c.g(0)) if nm == "cd2tt_corer" else (lambda c: c.g(2))
    newt(nm, shp, src, lambda c: [("factor", mok(c.S, c[0]))], keys=["mat.nrows", "mat.ncols", "mat.vals"], lem=[lambda c: mono(mr(c.S0, c.a[0]), mc(c.S0, c.a[0]))],
        tmpl=[lambda P, dims: lambda c, k1, p: Implies(And(inb(c, *dims(c)), c.g(1) < zi(k1)), P(c, tgt(c.S, p))), (lambda inner: lambda P, dims: lambda c, k1, k2, p: Implies(And(inb(c, *dims(c)), c.g(1) == zi(k1), inner(c) < zi(k2)), P(c, tgt(c.S, p))))(inner),
              lambda P, dims: lambda c, k1, p: Implies(And(inb(c, *dims(c)), c.g(1) >= zi(k1)), tx(c.S, tgt(c.S, p), at(c.g(0), c.g(1), c.g(2), dims(c)[0], dims(c)[1])) == 0), lambda P, dims: lambda c, k1, p: Implies(And(inb(c, *dims(c)), c.g(1) > zi(k1)), tx(c.S, tgt(c.S, p), at(c.g(0), c.g(1), c.g(2), dims(c)[0], dims(c)[1])) == 0),
              (lambda inner: lambda P, dims: lambda c, k1, k2, p: Implies(And(inb(c, *dims(c)), c.g(1) == zi(k1), inner(c) >= zi(k2)), tx(c.S, tgt(c.S, p), at(c.g(0), c.g(1), c.g(2), dims(c)[0], dims(c)[1])) == 0))(inner)])
contract("tensor_copy_3d", prop=T_, allocs=True, keys=TK + ["ptr"], copies=("double",), requires=lambda c: [("tensor", tok(c.S, c[0]))],
    ensures=lambda c: (lambda t, n, f: [("fresh", And(isfresh(c, t), isfresh(c, tnp(c.S, t)), isfresh(c, tvp(c.S, t)), vstruct(c.S, t, "tensor"), c.S.f(t, "tensor.dim") == 3, varr(c.S, tnp(c.S, t), 3), varr(c.S, tvp(c.S, t), vol(n[0], n[1], n[2])))),
        ("shape", And(*[td(c.S, t, i) == z3.If(f, n[i], n[2 - i]) for i in range(3)])), ("copy", Implies(And(f, inb(c, *n)), cpP(c, t, 0)))])(c.res, [td(c.S0, c[0], i) for i in range(3)], zi(c[1]) == 0),
    lemmas=[lems(lambda c: (dm(c, A0, 0), dm(c, A0, 1), dm(c, A0, 2)), False), lems(lambda c: (dm(c, A0, 2), dm(c, A0, 1), dm(c, A0, 0)), False)])     # the elements of a transposed copy: replay only
def cpP(c, t, tr):
    n = [dm(c, A0, i) for i in range(3)]; g = [c.g(i) for i in range(3)]
    return tx(c.S, t, at(g[0], g[1], g[2], n[2] if tr else n[0], n[1])) == tx(c.S0, c.a[0], at(*((g[2], g[1], g[0]) if tr else g), n[0], n[1]))
# ---- quadrature weights
Q_ = "C16"
def rd(x): return z3.ToReal(zi(x))
newd("trap_w", lambda c: c.a[0], lambda c, t, x: x == z3.If(Or(zi(t) == 0, zi(t) == zi(c.a[0]) - 1), zr(c.a[1]) / 2, zr(c.a[1])), lambda c: [("points", zi(c[0]) >= 2)], prop=Q_)
from fractions import Fraction as Fr
W13, W23, W43 = [z3.RealVal(str(Fr(x))) for x in (1.0 / 3.0, 2.0 / 3.0, 4.0 / 3.0)]     # the constants of the code, to the last bit
def simp(c, t, n):
    h = zr(c.a[1]); t = zi(t); mid = z3.If(t % 2 == 0, W23 * h, W43 * h)
    odd = z3.If(Or(t == 0, t == n - 1), W13 * h, mid)
    return z3.If(n % 2 == 1, odd, z3.If(t == n - 1, h / 2, z3.If(t == n - 2, W13 * h + h / 2, z3.If(t == 0, W13 * h, mid))))
newd("simpson_w", lambda c: c.a[0], lambda c, t, x: x == simp(c, t, zi(c.a[0])), lambda c: [("points", zi(c[0]) >= 3)], prop=Q_, tmpl=[lambda c, k1, pf: Implies(And(c.g() >= 0, c.g() < zi(k1), c.g() < zi(c.a[0]) - 1), da(c.S, pf, c.g()) == z3.If(c.g() == 0, W13 * zr(c.a[1]), z3.If(c.g() % 2 == 0, W23 * zr(c.a[1]), W43 * zr(c.a[1]))))])
HF = z3.Q(1, 2)
def rsv(c, g): return (HF * ((da(c.S0, c.a[1], g) + zr(1)) * zr(c.a[4]) - (da(c.S0, c.a[1], g) - zr(1)) * zr(c.a[3])), HF * (zr(c.a[4]) - zr(c.a[3])) * da(c.S0, c.a[2], g))
contract("rescale_cc", prop=Q_, keys=DK, mods=["double"], requires=lambda c: [("nodes and weights", And(zi(c[0]) >= 0, varr(c.S, c[1], c[0]), varr(c.S, c[2], c[0]), O(c[1]) != O(c[2])))],
    assigns=lambda c: [("double", c[i], c[i].off, iadd(c[i].off, c[0])) for i in (1, 2)], ensures=lambda c: [(("nodes", "weights")[q], AllG(c, c[0], (lambda q: lambda g: da(c.S, c[1 + q], g) == rsv(c, g)[q])(q))) for q in (0, 1)],
    templates=[(lambda q: lambda c, k1: Implies(And(c.g() >= 0, c.g() < zi(k1)), da(c.S, c.a[1 + q], c.g()) == rsv(c, c.g())[q]))(q) for q in (0, 1)] + [(lambda q: lambda c, k1: Implies(And(c.g() >= zi(k1), c.g() < zi(c.a[0])), da(c.S, c.a[1 + q], c.g()) == da(c.S0, c.a[1 + q], c.g())))(q) for q in (0, 1)])
