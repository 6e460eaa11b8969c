"""Vocabulary for writing contracts."""
import z3, inspect
from smt import *
import smt
from engine import *

REG = {}          # layer -> {function name: Contract}
LAYER = ["abs"]
def layer(n): LAYER[0] = n
def contract(name, **kw):
    if isinstance(kw.get("prop"), str): kw["prop"] = (kw["prop"],)
    lay = kw.pop("layer", LAYER[0])
    con = Contract(name, **kw)
    con.layer = lay
    d = REG.setdefault(lay, {})
    if name in d: raise Exception("duplicate contract " + name)
    d[name] = con
    return con

CUR = [None]      # engine currently running (ghost-function instances are registered with it)

class RecP:
    """family of recursively defined ghost functions f(params, k): f(..,0)=base, f(..,k+1)=step(.., k, f(..,k)).
    Each application built outside a quantifier contributes its one-step unfolding to the queries."""
    def __init__(s, name, psorts, sort, base, step):
        s.f = z3.Function(name, *(list(psorts) + [I, sort])); s.base = base; s.step = step
    def at(s, ps, k):
        ps = [zi(p) if isinstance(p, int) else p for p in ps]
        kt = zi(cint(k))
        t = s.f(*(ps + [kt]))
        e = CUR[0]
        if e is None or isbound(t): return t
        if t.get_id() not in e.recax:
            e.recnames.add(s.f.name())
            L = []; e.recax[t.get_id()] = (t, L)
            k = cint(k)
            if isinstance(k, int) and k == 0: L.append(t == s.base(*ps))
            elif isinstance(k, int) and k > 0: L.append(t == s.step(*ps, k - 1, s.at(ps, k - 1)))
            else:
                km = isub(k, 1)
                L.append(z3.Implies(kt == 0, t == s.base(*ps)))
                L.append(z3.Implies(kt > 0, t == s.step(*ps, km, s.f(*(ps + [zi(km)])))))
        return t

_bc = {}
def isbound(t):
    i = t.get_id()
    if i in _bc: return _bc[i][0]
    if z3.is_quantifier(t): r = isbound(t.body())
    elif z3.is_var(t): r = True
    elif t.num_args() == 0: r = z3.is_const(t) and "!q" in t.decl().name()
    else: r = any(isbound(c) for c in t.children())
    _bc[i] = (r, t)
    return r

def And(*a): return z3.And([zb(x) for x in flat(a)])
def Or(*a): return z3.Or([zb(x) for x in flat(a)])
def Not(a): return z3.Not(zb(a))
def Implies(a, b): return z3.Implies(zb(a), zb(b))
def If(c, a, b): return z3.If(zb(c), a, b)
def flat(a):
    r = []
    for x in a:
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and isinstance(x[0], str): r.append(x[1])
            else: r += flat(x)
        else: r.append(x)
    return r
import os
_bv = [int(os.environ.get('VF_SHAKE', '0')) * 1237]     # VF_SHAKE: other names and solver seeds, to find fragile proofs
def All(n, f, lo=0, pats=None):
    """forall i in [lo, n)"""
    _bv[0] += 1
    i = z3.Int("i!q%d" % _bv[0])
    b = f(i)
    if isinstance(b, (list, tuple)): b = And(*b)
    body = z3.Implies(z3.And(i >= zi(lo), i < zi(n)), zb(b))
    if pats: return z3.ForAll([i], body, patterns=pats(i))
    return z3.ForAll([i], body)
def All2(n, m, f, pats=None):
    _bv[0] += 1
    i = z3.Int("i!q%d" % _bv[0]); j = z3.Int("j!q%d" % _bv[0])
    b = f(i, j)
    if isinstance(b, (list, tuple)): b = And(*b)
    body = z3.Implies(z3.And(i >= 0, i < zi(n), j >= 0, j < zi(m)), zb(b))
    if pats: return z3.ForAll([i, j], body, patterns=pats(i, j))
    return z3.ForAll([i, j], body)
def Ex(n, f, pats=None):
    """there is i in [0, n) with f(i)"""
    _bv[0] += 1
    i = z3.Int("i!q%d" % _bv[0])
    b = And(i >= 0, i < zi(n), f(i))
    return z3.Exists([i], b, patterns=pats(i)) if pats else z3.Exists([i], b)
_touch = {}
def touch(*ts):
    """true for every term; makes the terms known to the solver's instantiation"""
    L = []
    for t in ts:
        t = cint(t); t = zi(t) if isinstance(t, int) else t
        k = t.sort().name()
        if k not in _touch: _touch[k] = z3.Function("touch_" + k, t.sort(), B)
        L.append(_touch[k](t))
    return z3.And(L)
def AllO(f, pats=None):
    o = z3.Int("o!q")
    return z3.ForAll([o], f(o), patterns=pats(o)) if pats else z3.ForAll([o], f(o))

def O(p): return zi(p.obj) if isinstance(p, Ptr) else zi(p)
def nonnull(p): return O(p) > 0
def validp(S, p, nbytes):
    """p is (the start of) a live object of at least nbytes bytes"""
    o = O(p)
    return And(o > 0, o < zi(S.alloc), S.live(o), BSIZE(o) >= zi(nbytes))
def varr(S, p, n, sz=8):
    """p points to at least n live cells of sz bytes"""
    o = O(p); off = p.off if isinstance(p, Ptr) else 0
    if isinstance(p, Ptr) and p.key is not None: return And(o > 0, o < zi(S.alloc), S.live(o))
    return And(o > 0, o < zi(S.alloc), S.live(o), zi(off) >= 0, zi(iscale(sz, iadd(off, n))) <= BSIZE(o))
def isfresh(c, p): return And(O(p) >= zi(c.S0.alloc), O(p) < zi(c.S.alloc))
def ssize(S, name): return S.w.sizeof(TStruct("struct." + name))
def vstruct(S, p, name): return validp(S, p, ssize(S, name))

def EN(name): return CUR[0].prog.enums[name]
def idiv(a, b):
    smt.USED["div"] = True; smt.USED["mul"] = True
    return IDIV(zi(a), zi(b))
def irem(a, b):
    smt.USED["div"] = True; smt.USED["mul"] = True
    return IREM(zi(a), zi(b))

def AllG(c, n, f, pats=None, k=0):
    """for every index t in [0,n): f(t).  When the clause is being proved, t is the contract's arbitrary ghost index k (shared
    with the loop invariants); when it is being used, it is quantified."""
    if c.proving:
        g = c.g(k); b = f(g)
        if isinstance(b, (list, tuple)): b = And(*b)
        return Implies(And(g >= 0, g < zi(n)), b)
    return All(n, f, pats=pats)
def upto(P, R=None, n=None, p="pf", k=0, offs=(), both=False):
    """loop templates: P(c, pointer, g) holds on the completed part of the index space [0, n(c)).
    R(c): number of rows when the index is column-major (g = col*R + row); offs: constants added to inner counters"""
    out = []
    def add(arity, d):
        def base(c, kk, pp):
            g = c.g(k)
            return Implies(And(g >= 0, g < zi(n(c)) if n else True, d(c, g, *kk)), P(c, pp, g))
        if arity == 2:
            if p is None: t = lambda c, k1, k2: base(c, (k1, k2), None)
            elif p == "pf": t = lambda c, k1, k2, pf: base(c, (k1, k2), pf)
            else: t = lambda c, k1, k2, p: base(c, (k1, k2), p)
        elif arity == -1:
            if p is None: t = lambda c, kd: base(c, (kd,), None)
            elif p == "pf": t = lambda c, kd, pf: base(c, (kd,), pf)
            else: t = lambda c, kd, p: base(c, (kd,), p)
        else:
            if p is None: t = lambda c, k1: base(c, (k1,), None)
            elif p == "pf": t = lambda c, k1, pf: base(c, (k1,), pf)
            else: t = lambda c, k1, p: base(c, (k1,), p)
        out.append(t)
    Z = lambda c: 0
    for o in [Z] + list(offs):
        add(1, lambda c, g, a, o=o: g < zi(iadd(a, o(c))))
        if R is not None:
            rr = lambda c, g: irem(g, R(c))
            qq = lambda c, g: idiv(g, R(c))
            add(2, lambda c, g, a, b, o=o: Or(qq(c, g) < zi(a), And(qq(c, g) == zi(a), rr(c, g) < zi(iadd(b, o(c))))))
            add(2, lambda c, g, a, b, o=o: Or(rr(c, g) < zi(a), And(rr(c, g) == zi(a), qq(c, g) < zi(iadd(b, o(c))))))
    if R is not None:
        add(1, lambda c, g, a: qq(c, g) < zi(a)); add(1, lambda c, g, a: rr(c, g) < zi(a))
    add(-1, lambda c, g, a: g >= zi(a)); add(-1, lambda c, g, a: g > zi(a))
    return out
def mono(bound, n):
    """instance of the monotonicity schema of multiplication: x < bound -> x*n + n <= bound*n   (n >= 0)"""
    smt.USED["mul"] = True
    x = z3.Int("x!m"); n = zi(n); e = []
    for t in (MUL(x, n), MUL(n, x)):
        e.append(z3.ForAll([x], z3.Implies(z3.And(x < zi(bound), n >= 0), MUL(x, n) + n <= zi(imul(bound, n))), patterns=[t]))
        e.append(z3.ForAll([x], z3.Implies(z3.And(x >= zi(bound), n >= 0), MUL(x, n) >= zi(imul(bound, n))), patterns=[t]))
    return And(*e)

def assoc(a, b, c, d):
    """instances of associativity of multiplication for the product of four numbers"""
    t = imul(imul(a, b), imul(c, d))
    return And(zi(imul(imul(imul(a, b), c), d)) == zi(t), zi(imul(a, imul(b, imul(c, d)))) == zi(t), zi(imul(imul(a, imul(b, c)), d)) == zi(t))
