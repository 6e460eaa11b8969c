"""Layer "str": string utilities. A string is a byte array with a terminating zero; LEN is its length."""
from dsl import *
layer("str")
HB = z3.ArraySort(I, I)
LEN = z3.Function("LEN", HB, I, I)
SK = ["i8", "#live", "ptr"]
P_ = "C12"
def ch(S, p, i): return S.raw("i8", O(p), iadd(p.off, i))
def ln(S, p): return LEN(S.arr("i8", O(p)), zi(p.off))
def isstr(S, p):
    return And(ln(S, p) >= 0, varr(S, p, iadd(ln(S, p), 1), 1), ch(S, p, ln(S, p)) == 0, All(ln(S, p), lambda t: ch(S, p, t) != 0, pats=lambda t: [ch(S, p, t)]))
contract("strlen", trusted=True, why="C library", keys=SK, requires=lambda c: [isstr(c.S, c[0])], ensures=lambda c: [c.res == ln(c.S0, c[0])], ret=lambda c: ln(c.S0, c[0]))
def sz(S, o, n): return And(O(o) > 0, S.live(O(o)), BSIZE(O(o)) >= zi(n))
contract("mystrdup", prop=P_, allocs=True, keys=SK, requires=lambda c: [("string", isstr(c.S, c[0]))],
    ensures=lambda c: [("new", And(isfresh(c, c.res), sz(c.S, c.res, iadd(ln(c.S0, c[0]), 1)))), ("same characters and terminator", AllG(c, iadd(ln(c.S0, c[0]), 1), lambda t: ch(c.S, c.res, t) == ch(c.S0, c[0], t)))])
def l0(c, i): return z3.If(O(c.a[i]) == 0, zi(0), ln(c.S0, c.a[i]))
def cat(c, a, b, la, lb):
    return [("new", And(isfresh(c, c.res), sz(c.S, c.res, la + lb + 1))), ("terminated", ch(c.S, c.res, la + lb) == 0),
        ("first part", AllG(c, la, lambda t: ch(c.S, c.res, t) == ch(c.S0, a, t))), ("second part", AllG(c, lb, lambda t: ch(c.S, c.res, iadd(la, t)) == ch(c.S0, b, t)))]
contract("concat_string", prop=P_, allocs=True, keys=SK, requires=lambda c: [("first", Or(O(c[0]) == 0, isstr(c.S, c[0]))), ("second", Or(O(c[1]) == 0, isstr(c.S, c[1])))],
    ensures=lambda c: cat(c, c[0], c[1], l0(c, 0), l0(c, 1)))
contract("bite_string", prop=P_, allocs=True, keys=SK, mods=["i8"], requires=lambda c: [("string", isstr(c.S, c[0])), ("separator", And(c[1] >= -128, c[1] <= 127, c[1] != 0))],
    assigns=lambda c: [("i8", c[0], c[0].off, iadd(c[0].off, iadd(ln(c.S0, c[0]), 1)))],
    ensures=lambda c: [("not found: nothing changes", Implies(O(c.res) == 0, And(AllG(c, ln(c.S0, c[0]), lambda t: And(ch(c.S0, c[0], t) != c[1], ch(c.S, c[0], t) == ch(c.S0, c[0], t)))))),
        ("found: the part before the first separator is returned", Implies(O(c.res) != 0, bite(c)))],
    templates=[lambda c, k1: Implies(And(c.g() >= 0, c.g() < zi(k1)), ch(c.S, c.a[0], c.g()) != c.a[1])])
def bite(c):
    n = ln(c.S0, c[0]); CUT = z3.Int("cut!q")
    return z3.Exists([CUT], And(CUT >= 0, CUT < n, ch(c.S0, c[0], CUT) == c[1], isfresh(c, c.res), sz(c.S, c.res, CUT + 1), ch(c.S, c.res, CUT) == 0,
        AllG(c, CUT, lambda t: And(ch(c.S0, c[0], t) != c[1], ch(c.S, c.res, t) == ch(c.S0, c[0], t))),
        AllG(c, n - CUT, lambda t: ch(c.S, c[0], t) == ch(c.S0, c[0], iadd(iadd(CUT, 1), t)))), patterns=[ch(c.S, c.res, CUT)])
def scell(S, p): return S.raw("ptr", O(p), p.off)
def sp(S, p): return Ptr(scell(S, p), 0)
def catow(c):
    n0 = z3.If(scell(c.S0, c[0]) == 0, zi(0), ln(c.S0, sp(c.S0, c[0]))); n1 = l0(c, 1); r = sp(c.S, c[0]); a = sp(c.S0, c[0])
    return [("new", And(isfresh(c, r), sz(c.S, r, n0 + n1 + 1))), ("terminated", ch(c.S, r, n0 + n1) == 0), ("first part", AllG(c, n0, lambda t: ch(c.S, r, t) == ch(c.S0, a, t))), ("second part", AllG(c, n1, lambda t: ch(c.S, r, iadd(n0, t)) == ch(c.S0, c[1], t))),
        ("the old string is released", Implies(scell(c.S0, c[0]) != 0, Not(c.S.live(scell(c.S0, c[0])))))]
contract("concat_string_ow", prop=P_, allocs=True, keys=SK, mods=["ptr", "#live"], interior=(0,),
    requires=lambda c: [("target", varr(c.S, c[0], 1)), ("first", Or(scell(c.S, c[0]) == 0, And(isstr(c.S, sp(c.S, c[0])), scell(c.S, c[0]) != O(c[0])))), ("second", Or(O(c[1]) == 0, isstr(c.S, c[1])))],
    assigns=lambda c: [("ptr", c[0], c[0].off, iadd(c[0].off, 1)), ("#live", lambda o: And(scell(c.S0, c[0]) != 0, o == scell(c.S0, c[0])))], ensures=catow)
# the number of separators before a position, and where the piece around a position starts
CNT = RecP("CNTSEP", [HB, I, I], I, lambda a, off, tok: zi(0), lambda a, off, tok, k, prev: prev + z3.If(a[zi(iadd(off, k))] == tok, 1, 0))
BEG = RecP("BEGSEP", [HB, I, I], I, lambda a, off, tok: zi(0), lambda a, off, tok, k, prev: z3.If(a[zi(iadd(off, k))] == tok, zi(iadd(k, 1)), prev))
def pcnt(c, k): return CNT.at([c.S0.arr("i8", O(c.a[0])), zi(c.a[0].off), zi(c.a[1])], k)
def pbeg(c, k): return BEG.at([c.S0.arr("i8", O(c.a[0])), zi(c.a[0].off), zi(c.a[1])], k)
def slen(c): return ln(c.S0, c.a[0])
def icell(S, p): return S.raw("i64", O(p), p.off)
def piece(c, p, g):
    """position g of the string is stored in its piece: the character, or the terminator where the separator (or the end) stands"""
    o = c.S.raw("ptr", O(p), zi(iadd(p.off, pcnt(c, g)))); v = c.S.raw("i8", o, zi(isub(g, pbeg(c, g)))); s = ch(c.S0, c.a[0], g)
    return And(isfresh(c, Ptr(o)), c.S.live(o), BSIZE(o) > zi(isub(g, pbeg(c, g))), zi(isub(g, pbeg(c, g))) >= 0, v == z3.If(Or(s == zi(c.a[1]), g == slen(c)), zi(0), s))
G = lambda c: c.g(0)
contract("parse_string", prop=P_, allocs=True, keys=SK + ["i64"], mods=["i64"],
    requires=lambda c: [("string", isstr(c.S, c[0])), ("separator", And(c[1] >= -128, c[1] <= 127, c[1] != 0)), ("where to store the number", And(varr(c.S, c[2], 1), O(c[2]) != O(c[0])))],
    assigns=lambda c: [("i64", c[2], c[2].off, iadd(c[2].off, 1))],
    ensures=lambda c: [("one piece more than separators", icell(c.S, c[2]) == pcnt(c, slen(c)) + 1), ("list", And(isfresh(c, c.res), varr(c.S, c.res, icell(c.S, c[2])))),
        ("every position is in its piece", Implies(And(G(c) >= 0, G(c) <= slen(c)), piece(c, c.res, G(c))) if c.proving else True)],
    prep=lambda c: [pcnt(c, 0), pbeg(c, 0), pcnt(c, G(c)), pbeg(c, G(c)), pcnt(c, slen(c)), pbeg(c, slen(c))],
    templates=[lambda c, k: And(icell(c.S, c.a[2]) == pcnt(c, k), zi(k) <= slen(c)), lambda c, k: And(icell(c.S, c.a[2]) == pcnt(c, slen(c)) + 1, zi(k) <= slen(c)),
        lambda c, k1, k2: And(zi(k1) == pcnt(c, k2), pcnt(c, k2) >= 0), lambda c, k1, k2: And(zi(k1) == pbeg(c, k2), zi(k1) <= zi(k2)),
        lambda c, k1, k2: Implies(And(G(c) >= zi(k1), G(c) <= zi(k2)), pbeg(c, G(c)) == zi(k1)), lambda c, k1, k2, k3: Implies(And(G(c) >= zi(k1), G(c) <= zi(k2)), pcnt(c, G(c)) == zi(k3)),
        lambda c, k1, k2: Implies(And(G(c) >= zi(k1), G(c) < zi(k2)), ch(c.S0, c.a[0], G(c)) != zi(c.a[1])),
        lambda c, k1, k3: Implies(And(G(c) >= 0, G(c) < zi(k1)), And(pcnt(c, G(c)) < zi(k3), pcnt(c, G(c)) >= 0)), lambda c, k1, pf: Implies(And(G(c) >= 0, G(c) < zi(k1)), piece(c, pf, G(c)))],
    inducts=lambda c: [("separators only add", lambda m: All(iadd(m, 1), lambda j: And(pcnt(c, j) >= 0, pcnt(c, j) <= pcnt(c, m)), pats=lambda j: [pcnt(c, j)]), slen(c))])
FND = z3.Function("FOUND", HB, I, HB, I, B); CUTAT = z3.Function("CUTAT", HB, I, HB, I, I)
def fnd(S, a, b): return FND(S.arr("i8", O(a)), zi(a.off), S.arr("i8", O(b)), zi(b.off))
def cutat(S, a, b): return CUTAT(S.arr("i8", O(a)), zi(a.off), S.arr("i8", O(b)), zi(b.off))
contract("strstr", trusted=True, why="C library: position of the first occurrence", keys=SK, requires=lambda c: [isstr(c.S, c[0]), isstr(c.S, c[1])],
    ret=lambda c: Ptr(z3.If(fnd(c.S0, c[0], c[1]), O(c[0]), zi(0)), iadd(c[0].off, cutat(c.S0, c[0], c[1]))),
    ensures=lambda c: [Implies(fnd(c.S0, c[0], c[1]), And(cutat(c.S0, c[0], c[1]) >= 0, cutat(c.S0, c[0], c[1]) + ln(c.S0, c[1]) <= ln(c.S0, c[0])))])
def tl(c): return iadd(cutat(c.S0, c.a[0], c.a[1]), ln(c.S0, c.a[1]))
contract("bite_string2", prop=P_, allocs=True, keys=SK, mods=["i8"], requires=lambda c: [("string", isstr(c.S, c[0])), ("separator", And(isstr(c.S, c[1]), O(c[1]) != O(c[0])))],
    assigns=lambda c: [("i8", c[0], c[0].off, iadd(c[0].off, iadd(ln(c.S0, c[0]), 1)))],
    lemmas=[lambda c: Implies(And(fnd(c.S, c[0], c[1]), tl(c) <= ln(c.S, c[0])), ln(c.S, Ptr(c[0].obj, iadd(c[0].off, tl(c)))) == ln(c.S, c[0]) - tl(c))],   # the length of a suffix
    ensures=lambda c: [("nothing found: nothing returned", (O(c.res) == 0) == Not(fnd(c.S0, c[0], c[1]))), ("nothing found: nothing changed", Implies(Not(fnd(c.S0, c[0], c[1])), AllG(c, iadd(ln(c.S0, c[0]), 1), lambda t: ch(c.S, c[0], t) == ch(c.S0, c[0], t)))),
        ("the part before", Implies(fnd(c.S0, c[0], c[1]), And(isfresh(c, c.res), ch(c.S, c.res, cutat(c.S0, c[0], c[1])) == 0, AllG(c, cutat(c.S0, c[0], c[1]), lambda t: ch(c.S, c.res, t) == ch(c.S0, c[0], t))))),
        ("the part after stays", Implies(fnd(c.S0, c[0], c[1]), AllG(c, ln(c.S0, c[0]) - tl(c) + 1, lambda t: ch(c.S, c[0], t) == ch(c.S0, c[0], iadd(tl(c), t)))))])
