"""Layer "ind": index sets of cross approximation (indmanage.c): singly linked lists of coordinate vectors."""
from dsl import *
layer("ind")
HH = z3.ArraySort(I, z3.ArraySort(I, I))
NK = ["CrossNode.n", "CrossNode.size_elem", "CrossNode.x", "CrossNode.next", "CrossIndex.d", "CrossIndex.n", "CrossIndex.nodes", "double", "ptr", "i64", "#live"]
# the k-th node of the list starting at h
ND = RecP("ND", [HH, I], I, lambda H, h: h, lambda H, h, k, prev: H[prev][0])
def nd(S, h, k): return ND.at([S.H("CrossNode.next"), O(h)], k)
def node(S, o): return And(o > 0, o < zi(S.alloc), S.live(o), BSIZE(o) >= ssize(S, "CrossNode"))
def nx(S, o): return S.raw("CrossNode.x", o, 0)
def ci_n(S, p): return S.f(p, "CrossIndex.n")
def ci_d(S, p): return S.f(p, "CrossIndex.d")
def ci_h(S, p): return S.fo(p, "CrossIndex.nodes")
def nodes(S, h, n): return All(n, lambda k: node(S, nd(S, h, k)), pats=lambda k: [nd(S, h, k)])
def cok(S, p):
    return And(vstruct(S, p, "CrossIndex"), ci_n(S, p) >= 0, ci_d(S, p) >= 0)
def cvals(S, p):
    """a well-formed index set: n nodes of d coordinates"""
    return All(ci_n(S, p), lambda k: And(node(S, nd(S, ci_h(S, p), k)), varr(S, nx(S, nd(S, ci_h(S, p), k)), ci_d(S, p))), pats=lambda k: [nd(S, ci_h(S, p), k)])
P_ = "C10"
contract("cross_node_alloc", prop=P_, allocs=True, keys=NK,
    ensures=lambda c: [("new empty node", And(node(c.S, O(c.res)), isfresh(c, c.res), c.S.f(c.res, "CrossNode.n") == 0, c.S.fo(c.res, "CrossNode.x") == 0, c.S.fo(c.res, "CrossNode.next") == 0))])
contract("cross_index_alloc", prop=P_, allocs=True, keys=NK,
    ensures=lambda c: [("new empty set", And(vstruct(c.S, c.res, "CrossIndex"), isfresh(c, c.res), ci_d(c.S, c.res) == zi(c[0]), ci_n(c.S, c.res) == 0, ci_h(c.S, c.res) == 0))])
contract("cross_node_get", prop=P_, keys=NK, requires=lambda c: [("list", nodes(c.S, c[0], c[1]))],
    ensures=lambda c: [("the requested node", O(c.res) == nd(c.S0, c[0], c[1]))], ret=lambda c: Ptr(nd(c.S0, c[0], c[1]), 0),
    prep=lambda c: [nd(c.S0, c[0], 0)], templates=[lambda c, k1, p: O(p) == nd(c.S0, c.a[0], k1)])
contract("cross_index_get_node", prop=P_, keys=NK, requires=lambda c: [("index set", cok(c.S, c[0])), ("nodes", nodes(c.S, ci_h(c.S, c[0]), ci_n(c.S, c[0]))), ("position", And(c[1] >= 0, c[1] < ci_n(c.S, c[0])))],
    ensures=lambda c: [("the requested node", O(c.res) == nd(c.S0, ci_h(c.S0, c[0]), c[1]))], ret=lambda c: Ptr(nd(c.S0, ci_h(c.S0, c[0]), c[1]), 0))
contract("cross_index_get_node_value", prop=P_, keys=NK, mods=["i64"],
    requires=lambda c: [("index set", cok(c.S, c[0])), ("nodes", nodes(c.S, ci_h(c.S, c[0]), ci_n(c.S, c[0]))), ("position", And(c[1] >= 0, c[1] < ci_n(c.S, c[0]))), ("where to store the length", varr(c.S, c[2], 1))],
    assigns=lambda c: [("i64", c[2], c[2].off, iadd(c[2].off, 1))],
    ensures=lambda c: [("its coordinates", O(c.res) == nx(c.S0, nd(c.S0, ci_h(c.S0, c[0]), c[1]))), ("their number", c.S.raw("i64", O(c[2]), c[2].off) == c.S0.raw("CrossNode.n", nd(c.S0, ci_h(c.S0, c[0]), c[1]), 0))])
# merging: entry r*nl + l = (left index l, right index r)
def X(S, p, k, t): return S.raw("double", nx(S, nd(S, ci_h(S, p), k)), t)
def vrow(c, p, k): return c.S.raw("ptr", O(p), iadd(p.off, k))
def wf(c):
    l, r = c[0], c[1]
    return [("left", And(cok(c.S, l))), ("left values", cvals(c.S, l)), ("right", cok(c.S, r)), ("right values", cvals(c.S, r))]
def mg_ok(c, p, l, r, gap, k):
    """row k of the result is (left index l, gap coordinates, right index r); ghost t is an arbitrary coordinate"""
    t = c.g(0); dl, dr = ci_d(c.S0, c.a[0]), ci_d(c.S0, c.a[1]); o = vrow(c, p, k)
    return And(varr(c.S, o, iadd(iadd(dl, dr), gap)), isfresh(c, Ptr(o)),
        Implies(And(t >= 0, t < dl), c.S.raw("double", o, t) == X(c.S0, c.a[0], l, t)),
        Implies(And(t >= 0, t < dr), c.S.raw("double", o, iadd(iadd(dl, gap), t)) == X(c.S0, c.a[1], r, t)))
def mg_t():
    g = lambda c: (c.g(1))
    def f(c, k1, pf): return Implies(And(g(c) >= 0, g(c) < zi(k1), g(c) < ci_n(c.S0, c.a[1])), mg_ok(c, pf, g(c), g(c), 0, g(c)))
    return [f, lambda c, k1, p: O(p) == nd(c.S0, ci_h(c.S0, c.a[0]), k1), lambda c, k1, p: O(p) == nd(c.S0, ci_h(c.S0, c.a[1]), k1)]
contract("cross_index_merge", prop=P_, allocs=True, keys=NK, requires=lambda c: wf(c) + [("same number", ci_n(c.S, c[0]) == ci_n(c.S, c[1]))],
    ensures=lambda c: [("new list", And(isfresh(c, c.res), varr(c.S, c.res, ci_n(c.S0, c[1])))), ("pairs", Implies(And(c.g(1) >= 0, c.g(1) < ci_n(c.S0, c[1])), mg_ok(c, c.res, c.g(1), c.g(1), 0, c.g(1))))],
    prep=lambda c: [nd(c.S0, ci_h(c.S0, c[0]), 0), nd(c.S0, ci_h(c.S0, c[1]), 0)], templates=mg_t())
def ws_t():
    NL = lambda c: ci_n(c.S0, c.a[0]); NR = lambda c: ci_n(c.S0, c.a[1])
    g = lambda c: c.g(1)
    def ok(c, pf): return mg_ok(c, pf, irem(g(c), NL(c)), idiv(g(c), NL(c)), 1, g(c))
    rng = lambda c: And(g(c) >= 0, g(c) < zi(imul(NR(c), NL(c))))
    return [lambda c, k1, pf: Implies(And(rng(c), idiv(g(c), NL(c)) < zi(k1)), ok(c, pf)),
            lambda c, k1, k2, pf: Implies(And(rng(c), Or(idiv(g(c), NL(c)) < zi(k1), And(idiv(g(c), NL(c)) == zi(k1), irem(g(c), NL(c)) < zi(k2)))), ok(c, pf)),
            lambda c, k1, p: O(p) == nd(c.S0, ci_h(c.S0, c.a[0]), k1), lambda c, k1, p: O(p) == nd(c.S0, ci_h(c.S0, c.a[1]), k1)], ok, rng
_t, _ok, _rng = ws_t()
contract("cross_index_merge_wspace", prop=P_, allocs=True, keys=NK, requires=wf,
    ensures=lambda c: [("new list", And(isfresh(c, c.res), varr(c.S, c.res, imul(ci_n(c.S0, c[0]), ci_n(c.S0, c[1]))))), ("pairs", Implies(_rng(c), _ok(c, c.res)))],
    prep=lambda c: [nd(c.S0, ci_h(c.S0, c[0]), 0), nd(c.S0, ci_h(c.S0, c[1]), 0)], templates=_t)
