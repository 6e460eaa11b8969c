"""Vocabulary of the abstract layer: a univariate function object has an abstract value FV (sort F) whose value
at one arbitrary, fixed point is EV(FV) (what is proved for that point holds for every point)."""
from dsl import *

EV = z3.Function("EV", F, R)                 # value at the arbitrary fixed point
AT = z3.Function("AT", F, R, R)              # value at a given point
DAT = z3.Function("DAT", F, R, R)            # derivative at a given point
PROD = z3.Function("PROD", F, F, F)          # what multiplying two functions yields
INNER = z3.Function("INNER", F, F, R)
INT = z3.Function("INT", F, R)
INTW = z3.Function("INTW", F, R)
INNERW = z3.Function("INNERW", F, F, R)
DERIV = z3.Function("DERIV", F, F)
DDERIV = z3.Function("DDERIV", F, F)
DDERIVP = z3.Function("DDERIVP", F, F)
NPAR = z3.Function("NPAR", F, I)
FCONST = z3.Function("FCONST", R, I, I, F)   # constant function built from (value, class, options)
FLIN = z3.Function("FLIN", R, R, I, I, F)
FQUAD = z3.Function("FQUAD", R, R, I, I, F)
CLS = z3.Int("CLASS")
HP = z3.ArraySort(I, I); HD = z3.ArraySort(I, R); HF = z3.ArraySort(I, F)

def FV(S, o): return S.flat("#F", O(o))
def clsok(): return Or(CLS == EN("CONSTELM"), CLS == EN("LINELM"), CLS == EN("KERNEL"))
def gf(S, o):
    """a live univariate function object of the one class in use"""
    return And(O(o) > 0, O(o) < zi(S.alloc), S.live(o), BSIZE(O(o)) >= ssize(S, "GenericFunction"), S.raw("GenericFunction.fc", O(o), 0) == CLS, clsok())
def gffresh(c, o): return And(gf(c.S, o), isfresh(c, o if isinstance(o, Ptr) else Ptr(o)))
def cellp(S, p, i): return S.raw("ptr", O(p), iadd(p.off if isinstance(p, Ptr) else 0, i))
def strided(S, p, n, ld, P):
    """P(object) for the n cells of p at stride ld"""
    if isinstance(ld, int) and ld == 1:
        return All(iadd(p.off, n), lambda t: P(S.raw("ptr", O(p), t)), lo=p.off, pats=lambda t: [S.raw("ptr", O(p), t)])
    if isinstance(ld, int):
        return All(n, lambda i: P(cellp(S, p, imul(i, ld))))
    return And(All(n, lambda i: P(cellp(S, p, imul(i, ld))), pats=lambda i: [imul(i, ld)]),
               Implies(zi(n) > 0, P(cellp(S, p, 0))), Implies(zi(n) > 1, P(cellp(S, p, ld))))
def gfs(S, p, n, ld=1):
    """p points to functions at stride ld"""
    return And(n_valid(S, p, n, ld), strided(S, p, n, ld, lambda o: gf(S, o)))
def n_valid(S, p, n, ld):
    # last touched cell is (n-1)*ld
    return And(O(p) > 0, O(p) < zi(S.alloc), S.live(p), zi(p.off) >= 0,
               Implies(zi(n) > 0, zi(iscale(8, iadd(iadd(p.off, imul(isub(n, 1), ld)), 1))) <= BSIZE(O(p))))
GK = ["GenericFunction.fc", "#F", "#live", "ptr"]
# ---- Qmarray
def nr(S, q): return S.f(q, "Qmarray.nrows")
def nc(S, q): return S.f(q, "Qmarray.ncols")
def fa(S, q): return S.fo(q, "Qmarray.funcs")
def qn(S, q): return imul(nr(S, q), nc(S, q))
def qf(S, q, i): return S.raw("ptr", fa(S, q), i)
def qshape(S, q):
    return And(vstruct(S, q, "Qmarray"), varr(S, fa(S, q), qn(S, q)), fa(S, q) != O(q))
def qma(S, q):
    """well-formed array of functions: every slot holds a live function"""
    return And(qshape(S, q), All(qn(S, q), lambda i: gf(S, qf(S, q, i)), pats=lambda i: [qf(S, q, i)]))
def qdim(S, q, r, cc): return And(nr(S, q) == zi(r), nc(S, q) == zi(cc), zi(qn(S, q)) == zi(imul(r, cc)))
QK = ["Qmarray.nrows", "Qmarray.ncols", "Qmarray.funcs"] + GK
def qfresh(c, r):
    """r is a well-formed array made only of newly created objects"""
    S = c.S
    return And(qshape(S, r), isfresh(c, r), isfresh(c, Ptr(fa(S, r))),
               AllG(c, qn(S, r), lambda i: gffresh(c, qf(S, r, i)), pats=lambda i: [qf(S, r, i)]))
def slots(c, r, val):
    """value of every slot"""
    S = c.S
    return AllG(c, qn(S, r), lambda t: val(t, FV(S, qf(S, r, t))), pats=lambda t: [qf(S, r, t)])
def qdone(val, rows, n=None, offs=()):
    """loop invariants for building a fresh array: completed slots are fresh live functions with value val(c, t, F)"""
    return upto(lambda c, p, g: And(gffresh(c, qf(c.S, p, g)), val(c, g, FV(c.S, qf(c.S, p, g)))), R=rows, n=n, offs=offs)
def newq(name, dim, val, requires, prop="C04", extra=None, tmpl=None, keys=(), offs=(), **kw):
    """contract of an operation that builds a new array: dim(c) = (rows, cols), val(c, t, F) = spec of the slot t"""
    def ens(c):
        r, k = dim(c)
        out = [("shape", And(qdim(c.S, c.res, r, k))), ("fresh, well-formed", qfresh(c, c.res)),
               ("elements", slots(c, c.res, lambda t, f: val(c, t, f)))]
        return out + (extra(c) if extra else [])
    return contract(name, prop=prop, allocs=True, keys=QK + list(keys), requires=requires, ensures=ens,
        templates=qdone(val, lambda c: dim(c)[0], n=lambda c: imul(*dim(c)), offs=offs) + (tmpl or []), **kw)
def rowof(t, R): return irem(t, R)
def colof(t, R): return idiv(t, R)
def newd(name, n, val, requires, R=None, prop="C05", tmpl=None, keys=(), offs=(), **kw):
    """contract of an operation returning a new array of n(c) numbers, number t satisfying val(c, t, x)"""
    def ens(c):
        return [("fresh array", And(varr(c.S, c.res, n(c)), isfresh(c, c.res))),
                ("elements", AllG(c, n(c), lambda t: val(c, t, c.S.raw("double", O(c.res), t)), pats=lambda t: [c.S.raw("double", O(c.res), t)]))]
    return contract(name, prop=prop, allocs=True, keys=QK + ["double"] + list(keys), requires=requires, ensures=ens,
        templates=upto(lambda c, p, g: val(c, g, c.S.raw("double", O(p), iadd(p.off, g))), R=R, n=n, offs=offs) + (tmpl or []), **kw)
def outd(name, ai, n, val, requires, R=None, prop="C05", tmpl=None, keys=(), offs=(), **kw):
    """contract of an operation writing n(c) numbers through its argument ai"""
    def ens(c):
        p = c.a[ai]
        return [("elements", AllG(c, n(c), lambda t: val(c, t, c.S.raw("double", O(p), iadd(p.off, t)))))]
    def asg(c): return [("double", c.a[ai], c.a[ai].off, iadd(c.a[ai].off, n(c)))]
    return contract(name, prop=prop, keys=QK + ["double"] + list(keys), mods=["double"], requires=lambda c: requires(c) + [("output space", varr(c.S, c.a[ai], n(c)))],
        ensures=ens, assigns=asg, templates=upto(lambda c, p, g: val(c, g, c.S.raw("double", O(c.a[ai]), iadd(c.a[ai].off, g))), R=R, n=n, p=None, offs=offs) + (tmpl or []), **kw)
