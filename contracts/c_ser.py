"""Serialization (C01).  A byte stream is an object with typed cells at byte positions ("@i64", "@i32", "@double"; overlapping writes forget what was there).
A serialised function / array of functions / function train is one abstract cell ("@F", "@Q", "@T") in the layers above the one that proves its layout."""
from gfabs import *
import engine, c_ft, c_gfc, c_par
from c_ft import Qs, Ts
from c_elem import EL, KS, E as _E
engine.CELLS.update({"F": F, "Q": Qs, "T": Ts})
BK = ["@i64", "@i32", "@double"]; BSZ = {"@i64": 8, "@i32": 4, "@double": 8, "@F": 1, "@Q": 1, "@T": 1}
def stream(S, p, n): return And(O(p) > 0, O(p) < zi(S.alloc), S.live(p), zi(p.off) >= 0, zi(iadd(p.off, n)) <= BSIZE(O(p)))
def at(S, k, p, d=0): return S.raw("@" + k, O(p), iadd(p.off, d))
def wr(p, n, extra=()): return [(k, Ptr(p.obj, p.off), isub(p.off, BSZ[k] - 1), iadd(p.off, n)) for k in BK + list(extra)]
def adv(p, n): return Ptr(p.obj, iadd(p.off, n), p.key)
def moved(c, n, i=0): return ("position", And(O(c.res) == O(c[i]), zi(c.res.off) == zi(iadd(c[i].off, n))))
def tgt(S, p, kind):
    """the cell p points to (array cell or structure field)"""
    return S.raw(p.key or kind, O(p), p.off)
def vcell(S, p): return And(O(p) > 0, O(p) < zi(S.alloc), S.live(p), zi(p.off) >= 0, zi(iscale(8, iadd(p.off, 1))) <= BSIZE(O(p))) if p.key is None else And(O(p) > 0, O(p) < zi(S.alloc), S.live(p))
def prims(prop):
    for nm, k, n in (("size_t", "i64", 8), ("int", "i32", 4), ("double", "double", 8)):
        z = zr if k == "double" else zi
        contract("serialize_" + nm, prop=prop, keys=BK + [k], mods=BK, interior=(0,), bytes=(0,), requires=lambda c, n=n: [("room", stream(c.S, c[0], n))], assigns=lambda c, n=n: wr(c[0], n),
            ensures=lambda c, n=n, k=k, z=z: [moved(c, n), ("value stored", at(c.S, k, c[0]) == z(c[1]))], ret=lambda c, n=n: adv(c[0], n))
        contract("deserialize_" + nm, prop=prop, keys=BK + [k], mods=[k], interior=(0, 1), bytes=(0,),
            requires=lambda c, n=n, k=k: [("stream", stream(c.S, c[0], n)), ("place", And(O(c[1]) > 0, O(c[1]) < zi(c.S.alloc), c.S.live(c[1]), zi(c[1].off) >= 0, zi(iscale(n, iadd(c[1].off, 1))) <= BSIZE(O(c[1]))) if c[1].key is None else And(O(c[1]) > 0, c.S.live(c[1])))],
            assigns=lambda c, k=k: [(k, c[1]) if c[1].key else (k, c[1], c[1].off, iadd(c[1].off, 1))],
            ensures=lambda c, n=n, k=k: [moved(c, n), ("value read", tgt(c.S, c[1], k) == at(c.S0, k, c[0]))], ret=lambda c, n=n: adv(c[0], n))
    contract("serialize_doublep", prop=prop, keys=BK + ["double", "i64"], mods=BK, interior=(0, 1), bytes=(0,),
        requires=lambda c: [("room", stream(c.S, c[0], iadd(8, iscale(8, c[2])))), ("array", varr(c.S, c[1], c[2]))], assigns=lambda c: wr(c[0], iadd(8, iscale(8, c[2]))),
        ensures=lambda c: [moved(c, iadd(8, iscale(8, c[2]))), ("length stored", at(c.S, "i64", c[0]) == zi(c[2])),
            ("entries stored", AllG(c, c[2], lambda i: at(c.S, "double", c[0], iadd(8, iscale(8, i))) == c.S0.raw("double", O(c[1]), iadd(c[1].off, i)), pats=lambda i: [c.S0.raw("double", O(c[1]), iadd(c[1].off, i)), at(c.S, "double", c[0], iadd(8, iscale(8, i)))]))], ret=lambda c: adv(c[0], iadd(8, iscale(8, c[2]))))
    contract("deserialize_doublep", prop=prop, allocs=True, keys=BK + ["double", "i64", "ptr"], mods=["ptr", "i64"], interior=(0, 1, 2), bytes=(0,),
        requires=lambda c: [("stream", stream(c.S, c[0], iadd(8, iscale(8, at(c.S, "i64", c[0]))))), ("places", And(vcell(c.S, c[1]), vcell(c.S, c[2])))],
        assigns=lambda c: [(k, c[i]) if c[i].key else (k, c[i], c[i].off, iadd(c[i].off, 1)) for k, i in (("ptr", 1), ("i64", 2))],
        ensures=lambda c: (lambda n, a: [moved(c, iadd(8, iscale(8, n))), ("length read", tgt(c.S, c[2], "i64") == n), ("new array", And(varr(c.S, a, n), isfresh(c, Ptr(a)))),
            ("entries read", AllG(c, n, lambda i: c.S.raw("double", a, i) == at(c.S0, "double", c[0], iadd(8, iscale(8, i))), pats=lambda i: [c.S.raw("double", a, i)]))])(at(c.S0, "i64", c[0]), tgt(c.S, c[1], "ptr")),
        ret=lambda c: adv(c[0], iadd(8, iscale(8, at(c.S0, "i64", c[0])))))
layer("conc")
prims("C01")
def sizemode(c, i=2): return O(c[i]) != 0
def isnull(p): return isnum(cint(p.obj)) and cint(p.obj) == 0
def ser2(c, size, i=2): 
    """the stream position after the call"""
    if isnull(c[i]): return adv(c[0], size)
    return Ptr(c[0].obj, z3.If(sizemode(c, i), zi(c[0].off), zi(iadd(c[0].off, size))))
def serial(nm, ok, size, cells, keys, prop="C01", extra=(), room=lambda c, n: stream(c.S, c[0], n), **kw):
    """contract of a serialisation function (stream, object, size query)"""
    def end(c): return size(c) if isnull(c[2]) else z3.If(sizemode(c), zi(0), zi(size(c)))
    contract(nm, prop=prop, keys=keys + BK + ["i64"] + list(extra), mods=BK + ["i64"] + list(extra), interior=(0, 2), requires=lambda c: ok(c) + [("room, or a place for the size", Or(And(sizemode(c), vcell(c.S, c[2])), And(Not(sizemode(c)), room(c, size(c)))))],
        assigns=lambda c: wr(c[0], end(c), extra) + ([] if isnull(c[2]) else [("i64", c[2], c[2].off, iadd(c[2].off, 1))]),
        ensures=lambda c: [("position", And(O(c.res) == O(c[0]), zi(c.res.off) == ser2(c, size(c)).off)), ("announced size", Implies(sizemode(c), c.S.raw("i64", O(c[2]), c[2].off) == zi(size(c))) if not isnull(c[2]) else True)] + [(l, Implies(Not(sizemode(c)), q)) for l, q in cells(c)],
        ret=lambda c: ser2(c, size(c)), **kw)
def deserial(nm, st, ok, size, made, keys, prop="C01", **kw):
    contract(nm, prop=prop, allocs=True, keys=keys + BK + ["ptr", "i64", "i32"], mods=["ptr"], interior=(0, 1), requires=lambda c: ok(c) + [("place", vcell(c.S, c[1]))],
        assigns=lambda c: [("ptr", c[1]) if c[1].key else ("ptr", c[1], c[1].off, iadd(c[1].off, 1))],
        ensures=lambda c: [("position", And(O(c.res) == O(c[0]), zi(c.res.off) == zi(iadd(c[0].off, size(c)))))] + made(c, Ptr(tgt(c.S, c[1], "ptr"))), ret=lambda c: adv(c[0], size(c)), **kw)
def el_size(n): return iadd(24, iscale(16, n))
def el_cells(c, E, f, p):
    n = E.n(c.S0, f); q = iadd(16, iscale(8, n)); b = lambda d, i: iadd(d, iscale(8, i))
    return [("number of nodes stored", And(at(c.S, "i64", p) == n, at(c.S, "i64", p, 8) == n, at(c.S, "i64", p, q) == n)),
        ("nodes stored", AllG(c, n, lambda i: at(c.S, "double", p, b(16, i)) == E.x(c.S0, f, i), pats=lambda i: [E.x(c.S0, f, i)])), ("values stored", AllG(c, n, lambda i: at(c.S, "double", p, b(iadd(q, 8), i)) == E.c(c.S0, f, i), pats=lambda i: [E.c(c.S0, f, i)]))]
def el_enc(S, p):
    """the stream holds an encoded function at p"""
    n = at(S, "i64", p); return And(at(S, "i64", p, 8) == n, at(S, "i64", p, iadd(16, iscale(8, n))) == n, stream(S, p, el_size(n)))
def el_made(c, E, f, p):
    n = at(c.S0, "i64", p); b = lambda d, i: iadd(d, iscale(8, i)); S = c.S
    return [("new function", And(E.ok(S, f, two=False), isfresh(c, f), isfresh(c, Ptr(E.xo(S, f))), isfresh(c, Ptr(E.co(S, f))))), ("number of nodes read", E.n(S, f) == n),
        ("nodes read", AllG(c, n, lambda i: E.x(S, f, i) == at(c.S0, "double", p, b(16, i)))), ("values read", AllG(c, n, lambda i: E.c(S, f, i) == at(c.S0, "double", p, b(iadd(24, iscale(8, n)), i))))]
for pre, st in (("lin", "LinElemExp"), ("const", "ConstElemExp")):
    E = EL(st)
    serial("serialize_%s_elem_exp" % pre, lambda c, E=E: [("function", E.ok(c.S, c[1]))], lambda c, E=E: el_size(E.n(c.S0, c[1])), lambda c, E=E: el_cells(c, E, c[1], c[0]), KS(st))
    deserial("deserialize_%s_elem_exp" % pre, st, lambda c: [("encoded function", el_enc(c.S, c[0]))], lambda c: el_size(at(c.S0, "i64", c[0])), lambda c, f, E=E: el_made(c, E, f, c[0]), KS(st))
# ---- the class dispatch
from c_gfc import gok, cases, fc, ff, EL_, GKC
def sh(p, d): return Ptr(p.obj, iadd(p.off, d), p.key)
def gf_n(S, g): return z3.If(fc(S, g) == EN("LINELM"), EL_["LINELM"].n(S, ff(S, g)), EL_["CONSTELM"].n(S, ff(S, g)))
serial("serialize_generic_function", lambda c: [("function", gok(c.S, c[1]))], lambda c: iadd(12, el_size(gf_n(c.S0, c[1]))),
    lambda c: [("dimension stored", at(c.S, "i64", c[0]) == c.S0.f(c[1], "GenericFunction.dim")), ("class stored", at(c.S, "i32", c[0], 8) == fc(c.S0, c[1]))] +
        [(l + " (%s)" % k, Implies(fc(c.S0, c[1]) == EN(k), q)) for k, E in EL_.items() for l, q in el_cells(c, E, Ptr(ff(c.S0, c[1])), sh(c[0], 12))], GKC)
deserial("deserialize_generic_function", "GenericFunction", lambda c: [("encoded class", Or(*[at(c.S, "i32", c[0], 8) == EN(k) for k in EL_])), ("encoded function", And(el_enc(c.S, sh(c[0], 12)), zi(c[0].off) >= 0))],
    lambda c: iadd(12, el_size(at(c.S0, "i64", c[0], 12))),
    lambda c, g: [("new object", And(vstruct(c.S, g, "GenericFunction"), isfresh(c, g), isfresh(c, Ptr(ff(c.S, g))))), ("dimension read", c.S.f(g, "GenericFunction.dim") == at(c.S0, "i64", c[0])), ("class read", fc(c.S, g) == at(c.S0, "i32", c[0], 8))] +
        [(l + " (%s)" % k, Implies(fc(c.S, g) == EN(k), q)) for k, E in EL_.items() for l, q in el_made(c, E, Ptr(ff(c.S, g)), sh(c[0], 12))], GKC)
