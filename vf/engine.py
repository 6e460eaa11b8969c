"""Contract-based deductive verifier over LLVM IR.

Function by function: arguments, heap and allocation counter are symbolic, the
precondition is assumed, loops are cut at their headers with invariants (derived
from the contract's templates and from the loop itself, filtered by Houdini, every
one of them checked to be inductive), calls are replaced by the callee's contract
(or by its body, when it has no contract), and each obligation (postcondition,
frame, precondition of a callee, assertion, memory bounds) goes to the solver."""
import z3, time, sys, os
from fractions import Fraction
import ir
from ir import TInt, TFP, TPtr, TVoid, TStruct, TLit, TArr, Op
from smt import *
import smt

sys.setrecursionlimit(20000)
z3.set_param("warning", False)

class Unsupported(Exception): pass
class Budget(Exception): pass

F = z3.DeclareSort("F")       # abstract value of a univariate function object
BSIZE = z3.Function("bsize", I, I)     # size in bytes of an allocated object (immutable)
W64 = 2 ** 64; W32 = 2 ** 32

class Ptr:
    __slots__ = ("obj", "off", "key")
    def __init__(s, obj, off=0, key=None): s.obj = cint(obj); s.off = cint(off); s.key = key
    def __repr__(s): return "Ptr(%s,%s,%s)" % (s.obj, s.off, s.key)
    def at(s, i): return Ptr(s.obj, iadd(s.off, i), s.key)

NULL = Ptr(0, 0)

# ---------------------------------------------------------------- heaps
FLAT = {"#live": B, "#F": F}
CELLS = {}        # abstract cell kinds of byte streams: an encoded object as one cell at the position where its encoding starts
def cellsort(kind):
    if kind == "double": return R
    if kind in CELLS: return CELLS[kind]
    return I
def register_flat(key, sort): FLAT[key] = sort

class World:
    """static information shared by all states: program, struct fields, key sorts"""
    def __init__(s, prog):
        s.prog = prog; s.kinds = {"i64": "i64", "i32": "i32", "i16": "i16", "i8": "i8", "i1": "i1", "double": "double", "ptr": "ptr", "float": "double",
                                 "@i64": "i64", "@i32": "i32", "@double": "double", "@i8": "i8", "@ptr": "ptr"}
        s.fns = {}; s.gl = {}
        s._sz = {}
    def fieldkey(s, sname, idx):
        b = sname[7:] if sname.startswith("struct.") else sname
        fn = s.prog.fieldnames.get("struct." + b)
        nm = fn[idx] if fn and idx < len(fn) else str(idx)
        return b + "." + nm, s.prog.structs[sname][idx]
    def kindof(s, ty):
        if isinstance(ty, TInt): return "i%d" % ty.w
        if isinstance(ty, TFP): return "double"
        if isinstance(ty, TPtr): return "ptr"
        if isinstance(ty, TArr): return s.kindof(ty.e)
        raise Unsupported("kind of %r" % ty)
    def keykind(s, key):
        if key in s.kinds: return s.kinds[key]
        if key[0] == "@" and key[1:] in CELLS: return key[1:]
        st, fl = key.split(".", 1)
        parts = fl.split(".")
        cur = "struct." + st
        if cur not in s.prog.structs: cur = "union." + st
        ty = None
        for p in parts:
            i = s.prog.fieldnames[cur].index(p) if cur in s.prog.fieldnames else int(p)
            ty = s.prog.structs[cur][i]
            while isinstance(ty, TArr): ty = ty.e
            if isinstance(ty, TStruct): cur = ty.name
        k = s.kindof(ty)
        s.kinds[key] = k
        return k
    def sort(s, key):
        if key in FLAT: return z3.ArraySort(I, FLAT[key])
        k = s.keykind(key)
        return z3.ArraySort(I, z3.ArraySort(I, cellsort(k)))
    def sizeof(s, ty):
        if isinstance(ty, TInt): return max(1, ty.w // 8)
        if isinstance(ty, TFP): return {"float": 4, "double": 8}.get(ty.k, 16)
        if isinstance(ty, TPtr): return 8
        if isinstance(ty, TArr): return ty.n * s.sizeof(ty.e)
        if isinstance(ty, (TStruct, TLit)):
            el = s.prog.structs[ty.name] if isinstance(ty, TStruct) else ty.elts
            if el is None: raise Unsupported("opaque struct")
            o = 0; ma = 1
            for e in el:
                a = s.alignof(e); ma = max(ma, a)
                o = (o + a - 1) // a * a + s.sizeof(e)
            return (o + ma - 1) // ma * ma
        raise Unsupported("sizeof %r" % ty)
    def alignof(s, ty):
        if isinstance(ty, TArr): return s.alignof(ty.e)
        if isinstance(ty, (TStruct, TLit)):
            el = s.prog.structs[ty.name] if isinstance(ty, TStruct) else ty.elts
            return max([s.alignof(e) for e in el] + [1])
        return s.sizeof(ty)
    def fnid(s, name):
        if name not in s.fns: s.fns[name] = -(1000 + len(s.fns))
        return s.fns[name]
    def glid(s, name):
        if name not in s.gl: s.gl[name] = -(1000000 + len(s.gl))
        return s.gl[name]
    def fnname(s, oid):
        for k, v in s.fns.items():
            if v == oid: return k
        return None

_ctr = [0]
def fresh(name, sort):
    _ctr[0] += 1
    return z3.Const("%s!%d" % (name, _ctr[0]), sort)

def arr_of(H, o):
    """inner array H[o] with forwarding through stores"""
    o = zi(o)
    while z3.is_store(H):
        if same(H.arg(1), o): return H.arg(2)
        if differ(H.arg(1), o): H = H.arg(0); continue
        break
    return z3.Select(H, o)

def rd(A, i):
    i = zi(i)
    while z3.is_store(A):
        if same(A.arg(1), i): return A.arg(2)
        if differ(A.arg(1), i): A = A.arg(0); continue
        break
    return z3.Select(A, i)

class State:
    def __init__(s, w):
        s.w = w; s.heap = {}; s.alloc = None; s.pc = []; s.env = None; s.vars = None; s.trail = []
        s.cov = None
    def copy(s):
        n = State(s.w); n.heap = dict(s.heap); n.alloc = s.alloc; n.pc = list(s.pc)
        n.env = s.env; n.vars = s.vars; n.trail = list(s.trail)
        return n
    def assume(s, *cs):
        for c in cs:
            if c is True: continue
            if c is False: c = z3.BoolVal(False)
            if isinstance(c, (list, tuple)): s.assume(*c); continue
            s.pc.append(c)
    # ---- heap access
    def H(s, key):
        if key not in s.heap:
            s.heap[key] = s.w.base(key)
        return s.heap[key]
    def arr(s, key, obj):
        return arr_of(s.H(key), obj)
    def flat(s, key, obj):
        H = s.H(key); o = zi(obj)
        while z3.is_store(H):
            if same(H.arg(1), o): return H.arg(2)
            if differ(H.arg(1), o): H = H.arg(0); continue
            break
        return z3.Select(H, o)
    def setflat(s, key, obj, v):
        s.heap[key] = z3.Store(s.H(key), zi(obj), v)
    def raw(s, key, obj, idx):
        return rd(s.arr(key, obj), idx)
    def get(s, key, obj, idx=0):
        v = s.raw(key, obj, idx)
        k = s.w.keykind(key)
        if k == "ptr": return Ptr(v, 0)
        if k == "i1": return v != 0
        return v
    def put(s, key, obj, idx, v):
        H = s.H(key); o = zi(obj)
        A = s.arr(key, obj)
        if z3.is_store(A) and same(A.arg(1), zi(idx)): A = A.arg(0)
        NA = z3.Store(A, zi(idx), v)
        if z3.is_store(H) and same(H.arg(1), o): H = H.arg(0)
        s.heap[key] = z3.Store(H, o, NA)
    def setarr(s, key, obj, A):
        H = s.H(key); o = zi(obj)
        if z3.is_store(H) and same(H.arg(1), o): H = H.arg(0)
        s.heap[key] = z3.Store(H, o, A)
    # ---- convenience for specifications
    def f(s, p, key, idx=0):
        """field 'Struct.name' of pointer or object id p"""
        if isinstance(p, Ptr): return s.get(key, p.obj, iadd(p.off, idx))
        return s.get(key, p, idx)
    def fo(s, p, key, idx=0):
        """object id stored in a pointer field"""
        return s.f(p, key, idx).obj
    def d(s, p, i=0): return s.cell(p, "double", i)
    def i64(s, p, i=0): return s.cell(p, "i64", i)
    def i32(s, p, i=0): return s.cell(p, "i32", i)
    def ptr(s, p, i=0): return s.cell(p, "ptr", i)
    def cell(s, p, key, i=0):
        if isinstance(p, Ptr): return s.get(p.key or key, p.obj, iadd(p.off, i))
        return s.get(key, p, i)
    def live(s, p): return s.flat("#live", p.obj if isinstance(p, Ptr) else p)

class Frame:
    def __init__(s, fn, depth=0, parent=None): s.fn = fn; s.depth = depth; s.parent = parent

# ---------------------------------------------------------------- contracts
class Contract:
    def __init__(s, name, requires=None, ensures=None, assigns=None, allocs=False, templates=(), trusted=False,
                 ret=None, invs=(), interior=(), note="", nosafety=False, heavy=False, prop=(), inline=(), timeout=None,
                 hints=None, unroll=0, keys=(), mods=(), noreach=False, prep=None, lemmas=(), fnargs=None, optional=False, cost=0, why="", nodist=False, bytes=(), inducts=None, merge=False, copies=None, ext=None):
        s.merge = merge           # join branches that only assign local variables into one path
        s.copies = copies         # cell kinds moved by memmove (the arrays involved hold no others)
        s.inducts = inducts       # facts (label, P, n) proved by induction on m (P(0), P(m) -> P(m+1) for m < n) before they are used as P(n)
        s.bytes = set(bytes)      # parameters that point into a byte stream (offsets in bytes, typed cells at byte positions)
        s.nodist = nodist
        s.optional = optional; s.cost = cost; s.why = why
        s.name = name; s.requires = requires or (lambda c: []); s.ensures = ensures or (lambda c: [])
        s.assigns = assigns or (lambda c: []); s.allocs = allocs; s.templates = list(templates)
        s.trusted = trusted; s.ret = ret; s.interior = set(interior); s.note = note; s.nosafety = nosafety
        s.prop = prop; s.inline = set(inline); s.timeout = timeout; s.hints = hints; s.unroll = unroll
        s.ext = ext
        s.keys = list(keys) + list(mods); s.mods = list(mods); s.noreach = noreach; s.prep = prep; s.lemmas = list(lemmas); s.fnargs = fnargs or {}

def same_val(a, b):
    if a is b: return True
    if isinstance(a, Ptr) or isinstance(b, Ptr): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.key == b.key and same(a.obj, b.obj) and same(a.off, b.off)
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)): return type(a) == type(b) and a == b if not (z3.is_expr(a) or z3.is_expr(b)) else False
    return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)
class Ctx:
    """what a contract sees: argument values, pre-state S0, post-state S, result"""
    def __init__(s, eng, args, S0, S=None, res=None):
        s.eng = eng; s.a = args; s.S0 = S0; s.S = S if S is not None else S0; s.res = res; s.w = eng.w
        s.ghost = {}; s.proving = False
    def g(s, k=0): return z3.Int('ghost%d' % k)
    def __getitem__(s, i): return s.a[i]

BASE_CACHE = {}
def _base(self, key):
    c = getattr(self, "_bases", None)
    if c is None: self._bases = c = {}
    if key not in c: c[key] = z3.Const("H0_" + key, self.sort(key))
    return c[key]
World.base = _base

class Rec:
    """recursively defined ghost function of an integer: f(0)=base, f(k+1)=step(k,f(k)); every
    application built through .at() contributes its defining instance (one unfolding) to the queries"""
    def __init__(s, eng, name, sort, base, step):
        s.f = z3.Function(name + "!%d" % eng.nid(), I, sort); s.eng = eng; s.base = base; s.step = step; s.seen = {}
        s.sort = sort
        eng.recs.append(s)
    def at(s, k):
        k = cint(k)
        key = k if isinstance(k, int) else k.get_id()
        t = s.f(zi(k))
        if key not in s.seen:
            s.seen[key] = (k, t)
            if isinstance(k, int):
                if k <= 0: s.eng.ax.append(t == s.base if k == 0 else z3.BoolVal(True))
                else: s.eng.ax.append(t == s.step(k - 1, s.at(k - 1)))
            else:
                km = isub(k, 1)
                s.eng.ax.append(z3.Implies(zi(k) == 0, t == s.base))
                s.eng.ax.append(z3.Implies(zi(k) > 0, t == s.step(km, s.f(zi(km)))))
        return t

class Obl:
    __slots__ = ("fn", "label", "kind", "line", "ok", "backend", "time", "detail")
    def __init__(s, fn, label, kind, line, ok, backend, t, detail=""): s.fn = fn; s.label = label; s.kind = kind; s.line = line; s.ok = ok; s.backend = backend; s.time = t; s.detail = detail
    def d(s): return {"fn": s.fn, "label": s.label, "kind": s.kind, "line": s.line, "ok": s.ok, "backend": s.backend, "time": round(s.time, 3), "detail": s.detail}

NOP = set("printf fprintf puts putchar fflush perror fputs fputc fwrite llvm.stackrestore.p0 llvm.stackrestore fclose srand time clock gettimeofday".split())
MATH = {}
def mathfn(name, n):
    if (name, n) not in MATH: MATH[(name, n)] = z3.Function("m_" + name, *([R] * (n + 1)))
    return MATH[(name, n)]
MATH1 = set("sin cos tan exp log sqrt floor ceil tgamma lgamma erf acos asin atan sinh cosh tanh log10 log2 exp2 round".split())
MATH2 = set("pow fmod atan2".split())

class Engine:
    def __init__(s, prog, contracts, verbose=False, budget=600):
        s.prog = prog; s.w = World(prog); s.contracts = contracts; s.verbose = verbose
        s.obls = []; s.budget = budget; s.fields = None; s.ax = []; s.recax = {}; s.recnames = set(); s._ra = {}; s.recs = []; s._n = 0
        s.used_contracts = set(); s.inlined = set(); s.assumed = set()
        s.ms = 3000; s.msx = 1
        s.reach = 0; s.dry = False; s.memo = {}; s.outer_round = 0
    def nid(s): s._n += 1; return s._n
    # ------------------------------------------------------------ proving
    def asm(s, st, g=None):
        """assumptions of a query: path condition and the unfoldings of the ghost-function applications that occur in it"""
        if getattr(s, "con", None) is not None and s.con.ext: return s.asm_ext(s.asm0(st, g), g)
        return s.asm0(st, g)
    def asm_ext(s, A, g):
        """extensionality of the content functions named by the contract (they depend on the cells [off, off+n) only): two applications
        of the same length are equal or some cell differs"""
        apps = {}
        seen = set(); stk = list(A) + ([g] if g is not None else [])
        while stk:
            x = stk.pop(); j = x.get_id()
            if j in seen: continue
            seen.add(j)
            if z3.is_quantifier(x) or z3.is_var(x): continue
            if x.num_args() and x.decl().name() in s.con.ext: apps[j] = x
            stk += x.children()
        out = []; L = [apps[i] for i in sorted(apps)]
        for i in range(len(L)):
            for j in range(i):
                a, b = L[i], L[j]
                if not a.decl().eq(b.decl()): continue
                n = zi(s.con.ext[a.decl().name()](*a.children()[2:]))
                sk = z3.Int("ext!%d!%d" % (a.get_id(), b.get_id()))
                out.append(z3.Implies(z3.And([u == v for u, v in zip(a.children()[2:], b.children()[2:])]),
                    z3.Or(a == b, z3.And(sk >= 0, sk < n, a.arg(0)[a.arg(1) + sk] != b.arg(0)[b.arg(1) + sk]))))
        return A + out
    def asm0(s, st, g=None):
        if not s.recax: return st.pc + s.ax
        inc = {i: s.recax[i][1] for i in s.sticky}
        work = list(st.pc) + ([g] if g is not None else [])
        first = True
        while work:
            nxt = []
            for f in work:
                for i in s.recapps(f):
                    if i not in inc:
                        inc[i] = s.recax[i][1]
                        nxt += s.recax[i][1]
            first = False
            work = nxt
        return st.pc + s.ax + [q for i in sorted(inc) for q in inc[i]]
    def recapps(s, f):
        i = f.get_id()
        c = s._ra.get(i)
        if c is not None and c[1] == 0: return c[0]
        if c is not None and c[1] == len(s.recax): return c[0]
        r = set(); seen = set(); stk = [f]; cand = False
        while stk:
            x = stk.pop(); j = x.get_id()
            if j in seen: continue
            seen.add(j)
            if z3.is_quantifier(x): stk.append(x.body()); continue
            if z3.is_var(x): continue
            if x.num_args() and x.decl().name() in s.recnames:
                cand = True
                if j in s.recax: r.add(j)
            stk += x.children()
        s._ra[i] = (r, len(s.recax) if cand else 0, f)
        return r
    def valid(s, st, g, ms=None, strong=False):
        return prove(s.asm(st, zb(g)), g, ms or s.ms, strong)
    def dump(s, st, g):
        print("=== assumptions")
        for a in s.asm(st, g): print("  ", str(a).replace("\n", " ")[:400])
        print("=== goal", g)
        so = z3.Solver()
        for a in s.asm(st, g) + axioms(): so.add(a)
        so.add(z3.Not(g))
        open("/tmp/dump.smt2", "w").write(so.to_smt2())
        if z3.is_implies(g) and z3.is_and(g.arg(1)):
            for q in g.arg(1).children(): print("  conseq", s.valid(st, z3.Implies(g.arg(0), q)), str(q)[:200])
        if z3.is_and(g):
            for q in g.children():
                print("  part", s.valid(st, q), str(q)[:300])
                if z3.is_and(q):
                    for r in q.children(): print("     part", s.valid(st, r), str(r)[:300])
                if z3.is_or(q):
                    for r in q.children(): print("     alt", s.valid(st, r), str(r)[:300])
        if z3.is_or(g):
            for r in g.children():
                print("  alt", s.valid(st, r), str(r)[:100])
                if z3.is_and(r):
                    for q in r.children():
                        print("     part", s.valid(st, q), str(q)[:500])
                        if z3.is_and(q):
                            for r2 in q.children(): print("         part", s.valid(st, r2), str(r2)[:300])
        sys.exit(0)
    def infeasible(s, st, extra=None):
        a = st.pc + ([extra] if extra is not None else [])
        return quick_unsat(a)
    def oblige(s, st, cond, label, kind, line, check):
        cond = zb(cond)
        if check:
            if time.time() > s.deadline: raise Budget("time budget exhausted")
            t = time.time()
            if os.environ.get('VF_DUMP') and os.environ['VF_DUMP'] in label:
                so = z3.Solver()
                for a in s.asm(st, cond) + axioms(): so.add(a)
                so.add(z3.Not(cond))
                open("/tmp/dump.smt2", "w").write(so.to_smt2())
                if os.environ.get('VF_DUMPEXIT'): sys.exit(0)
            ok, be = s.valid(st, cond, strong=True)
            s.obls.append(Obl(s.cur.name, label, kind, line, ok, be, time.time() - t))
            if s.verbose: print("   [%s] %s line %s: %s (%s, %.2fs)" % ("ok" if ok else "FAIL", label, line, kind, be, time.time() - t), flush=True)
        st.assume(cond)
    # ------------------------------------------------------------ values
    def val(s, fr, st, o):
        k = o.k
        if k == "l":
            if o.v in st.env: return st.env[o.v]
            if o.v in fr.fn.memallocas: return st.env[o.v]
            raise Unsupported("undefined value %s" % o.v)
        if k == "i":
            if isinstance(o.ty, TInt):
                if o.ty.w == 1: return bool(o.v)
                if o.ty.w == 64 or o.ty.w == 32 or o.ty.w == 16: return o.v
                if o.ty.w == 8: return o.v % 256
            return o.v
        if k == "f": return zr(Fraction(o.v)) if o.v == o.v and abs(o.v) != float("inf") else z3.Const("fp_" + str(o.v), R)
        if k == "null": return NULL
        if k == "g":
            if o.v in s.prog.funcs or o.v not in fr.fn.module.globals: return Ptr(s.w.fnid(o.v), 0)
            return Ptr(s.w.glid(o.v), 0)
        if k in ("undef", "zero"):
            if k == "zero" or True:
                if isinstance(o.ty, TPtr): return NULL if k == "zero" else Ptr(fresh("undef", I))
                if isinstance(o.ty, TFP): return zr(0) if k == "zero" else fresh("undef", R)
                if isinstance(o.ty, TInt): return 0 if k == "zero" else fresh("undef", I)
                if isinstance(o.ty, (TLit, TStruct)): return {}
        if k == "cgep":
            bt, b, idx = o.v
            return s.gep(fr, st, bt, s.val(fr, st, b), [s.val(fr, st, x) for x in idx])
        if k == "cast": return s.val(fr, st, o.v[1])
        raise Unsupported("operand %s" % k)
    def gep(s, fr, st, bt, p, idx):
        if not isinstance(p, Ptr): raise Unsupported("gep on non-pointer")
        obj, off, key = p.obj, p.off, p.key
        if z3.is_expr(obj) and z3.is_app_of(obj, z3.Z3_OP_ITE) and "i8" in s.keyset and "double" not in s.keyset:
            # the path may already decide which of the two
            q = [f for f in st.pc if not has_quant(f)]
            if quick_unsat(q + [obj.arg(0)], 2000): obj = obj.arg(2)
            elif quick_unsat(q + [z3.Not(obj.arg(0))], 2000): obj = obj.arg(1)
        if isinstance(bt, (TInt, TFP, TPtr)):
            return Ptr(obj, iadd(off, idx[0]), key)
        if key is None or isinstance(bt, TStruct) and (key is None): off = iadd(off, idx[0]) if not isinstance(bt, TArr) else iadd(off, imul(idx[0], bt.n))
        elif not (isnum(cint(idx[0])) and cint(idx[0]) == 0):
            off = iadd(off, imul(idx[0], bt.n) if isinstance(bt, TArr) else idx[0])
        ty = bt
        for ix in idx[1:]:
            if isinstance(ty, TStruct):
                ix = cint(ix)
                if key is None:
                    key, ty = s.w.fieldkey(ty.name, ix)
                else:
                    k2, ty2 = s.w.fieldkey(ty.name, ix)
                    key = key + "." + k2.split(".", 1)[1]; ty = ty2
                if isinstance(ty, TArr): off = imul(off, ty.n)
            elif isinstance(ty, TArr):
                off = iadd(off, ix); ty = ty.e
                if isinstance(ty, TArr): off = imul(off, ty.n)
            else: raise Unsupported("gep into %r" % ty)
        return Ptr(obj, off, key)
    def deref_key(s, p, ty):
        return p.key if p.key else s.w.kindof(ty)
    def access_ok(s, st, p, ty):
        """in-bounds and live (heap objects only)"""
        conds = []
        key = p.key
        conds.append(zi(p.obj) > 0)
        conds.append(st.live(p))
        if key is None or "." not in key:
            sz = s.w.sizeof(ty)
            conds.append(zi(p.off) >= 0)
            conds.append(iscale(sz, iadd(p.off, 1)) <= BSIZE(zi(p.obj)))
        else:
            sn = key.split(".")[0]
            sz = s.w.sizeof(TStruct("struct." + sn))
            conds.append(zi(p.off) >= 0)
            if isnum(p.off) and p.off == 0: conds.append(BSIZE(zi(p.obj)) >= sz)
        return z3.And([zb(c) for c in conds])
    def load(s, fr, st, p, ty, line, check):
        if not isinstance(p, Ptr): raise Unsupported("load through non-pointer")
        if isnum(p.obj) and p.obj < 0:
            return s.load_global(fr, st, p, ty)
        key = s.deref_key(p, ty)
        if not s.nosafety: s.oblige(st, s.access_ok(st, p, ty), "load of %s in bounds and live" % key, "memory", line, check)
        v = st.raw(key, p.obj, p.off)
        if isinstance(ty, TPtr):
            q = Ptr(v, 0)
            st.assume(zi(q.obj) < st.alloc)
            return q
        if isinstance(ty, TInt):
            if ty.w == 64: st.assume(v >= 0)
            if ty.w == 8: st.assume(v >= 0, v < 256)
            if ty.w == 1: return v != 0
        return v
    def load_global(s, fr, st, p, ty):
        nm = [k for k, v in s.w.gl.items() if v == p.obj]
        if nm and nm[0] in ("stdout", "stderr", "stdin"): return Ptr(p.obj, 0)
        raise Unsupported("load from global %s" % nm)
    def store(s, fr, st, p, v, ty, line, check):
        if not isinstance(p, Ptr): raise Unsupported("store through non-pointer")
        key = s.deref_key(p, ty)
        if not s.nosafety: s.oblige(st, s.access_ok(st, p, ty), "store to %s in bounds and live" % key, "memory", line, check)
        if isinstance(ty, TPtr):
            if v.key is not None: raise Unsupported("storing an interior field pointer")
            if not (isnum(v.off) and v.off == 0):
                s.oblige(st, zi(v.off) == 0, "stored pointer is the start of its object", "model", line, check)
            vv = zi(v.obj)
        elif isinstance(ty, TInt):
            vv = z3.If(zb(v), zi(1), zi(0)) if ty.w == 1 else zi(v)
        else: vv = zr(v)
        if s.rec_writes is not None: s.rec_writes.append((key, p.obj, p.off, vv, list(st.trail)))
        st.put(key, p.obj, p.off, vv)
    # ------------------------------------------------------------ arithmetic
    def binop(s, st, op, fl, ty, a, b):
        if isinstance(ty, TFP):
            a = zr(a); b = zr(b)
            if op == "fadd": return a + b
            if op == "fsub": return a - b
            if op == "fmul": return a * b
            if op == "fdiv": return a / b
            raise Unsupported(op)
        w = ty.w
        if w == 1:
            a = zb(a); b = zb(b)
            if op == "and": return z3.And(a, b)
            if op == "or": return z3.Or(a, b)
            if op == "xor": return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            # the distance of two pointers into the same string (one cell = one byte)
            if op != "sub" or not (isinstance(a, Ptr) and isinstance(b, Ptr)) or "i8" not in s.keyset or "double" in s.keyset: raise Unsupported("arithmetic on an address")
            if not same(a.obj, b.obj) and not quick_unsat([p for p in st.pc if not has_quant(p)] + [zi(a.obj) != zi(b.obj)], 2000): raise Unsupported("distance of pointers into different objects")
            return isub(a.off, b.off)
        a = cint(a); b = cint(b)
        signed = "nsw" in fl
        M = 2 ** w
        if op == "add":
            if isinstance(b, int) and b < 0 and not signed: return s.usub(st, a, -b, M)
            if isinstance(a, int) and a < 0 and not signed: return s.usub(st, b, -a, M)
            return iadd(a, b)
        if op == "sub":
            if signed: return isub(a, b)
            return s.usub(st, a, b, M)
        if op == "mul": return imul(a, b)
        if op in ("udiv", "sdiv"):
            if isinstance(b, int) and b > 0:
                if isinstance(a, int): return a // b if a >= 0 else -((-a) // b)
                if op == "sdiv": return z3.If(a >= 0, a / b, -((-a) / b))
                return a / b
            smt.USED["div"] = True; imul(fresh("d", I), fresh("d", I))
            return IDIV(zi(a), zi(b))
        if op in ("urem", "srem"):
            if isinstance(b, int) and b > 0:
                if isinstance(a, int): return a % b if a >= 0 else -((-a) % b)
                if op == "srem": return z3.If(a >= 0, a % b, -((-a) % b))
                return a % b
            smt.USED["div"] = True
            return IREM(zi(a), zi(b))
        if op == "shl" and isinstance(b, int): return imul(a, 2 ** b)
        if op in ("lshr", "ashr") and isinstance(b, int):
            if isinstance(a, int): return a >> b
            return a / (2 ** b)
        if op == "and" and isinstance(b, int) and (b & (b + 1)) == 0:
            if isinstance(a, int): return a & b
            return a % (b + 1)
        if isinstance(a, int) and isinstance(b, int):
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        f = z3.Function("bit_%s%d" % (op, w), I, I, I)
        return f(zi(a), zi(b))
    def usub(s, st, a, b, M):
        if isinstance(a, int) and isinstance(b, int): return a - b if a >= b else a - b + M
        r = isub(a, b)
        if isinstance(cint(r), int) and cint(r) >= 0: return cint(r)
        g = zi(a) >= zi(b)
        if quick_unsat([p for p in st.pc if not has_quant(p)] + [z3.Not(g)], 200): return r
        ok, _ = s.valid(st, g, 500)
        if ok: return r
        return z3.If(g, zi(r), zi(iadd(r, M)))
    def icmp(s, pr, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported("pointer/int compare")
            oe = same(a.obj, b.obj)
            if isnum(a.obj) and isnum(b.obj): e = a.obj == b.obj and same(a.off, b.off)
            else:
                e = zi(a.obj) == zi(b.obj)
                if (isnum(b.obj) and b.obj == 0) or (isnum(a.obj) and a.obj == 0): pass
                elif not same(a.off, b.off): e = z3.And(e, zi(a.off) == zi(b.off))
            if pr == "eq": return e
            if pr == "ne": return (not e) if isinstance(e, bool) else z3.Not(e)
            raise Unsupported("pointer order")
        if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) if not isinstance(a, int) else False:
            a = z3.If(zb(a), zi(1), zi(0)) if not isinstance(a, int) or isinstance(a, bool) else a
            b = z3.If(zb(b), zi(1), zi(0)) if not isinstance(b, int) or isinstance(b, bool) else b
        a = cint(a); b = cint(b)
        if isinstance(a, int) and isinstance(b, int):
            return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b,
                    "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[pr]
        if pr in ("ult", "ule", "ugt", "uge"):
            if isinstance(b, int) and b < 0: b += W64
            if isinstance(a, int) and a < 0: a += W64
        x, y = zi(a), zi(b)
        if pr == "eq": return x == y
        if pr == "ne": return x != y
        o = pr[1:]
        return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[o]
    def fcmp(s, pr, a, b):
        for u, v in ((a, b), (b, a)):                          # isinf(x): exact reals are never infinite
            if pr in ("oeq", "ueq") and z3.is_expr(u) and str(u) in ("fp_inf", "fp_-inf") and "fp_" not in v.sexpr(): return z3.BoolVal(False)
        x, y = zr(a), zr(b)
        if pr == "true": return True
        if pr == "false": return False
        if pr in ("ord",): return True
        if pr in ("uno",): return False
        o = pr[1:]
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[o]
    def cast(s, st, op, v, sty, ty):
        if op in ("bitcast", "freeze"): return v
        if op == "ptrtoint" and isinstance(v, Ptr) and v.key is None: return v
        if op == "zext":
            if sty.w == 1:
                return int(v) if isinstance(v, bool) else z3.If(v, zi(1), zi(0))
            if sty.w == 32 and ty.w == 64 and not isnum(cint(v)):
                if quick_unsat([p for p in st.pc if not has_quant(p)] + [zi(v) < 0], 200): return v
                return z3.If(zi(v) >= 0, zi(v), zi(v) + W32)
            if isnum(cint(v)): return cint(v) if cint(v) >= 0 else cint(v) + 2 ** sty.w
            return v
        if op == "sext":
            if sty.w == 1: return -int(v) if isinstance(v, bool) else z3.If(v, zi(-1), zi(0))
            if sty.w == 8: return z3.If(zi(v) >= 128, zi(v) - 256, zi(v)) if not isnum(cint(v)) else (v - 256 if v >= 128 else v)
            return v
        if op == "trunc":
            if ty.w == 1:
                if z3.is_expr(v) and v.decl().kind() == z3.Z3_OP_ITE: return v.arg(0)
                return zi(v) % 2 == 1 if not isnum(cint(v)) else bool(v & 1)
            if ty.w == 8:
                return zi(v) % 256 if not isnum(cint(v)) else v % 256
            return v
        if op in ("sitofp", "uitofp"):
            if isnum(cint(v)): return zr(cint(v))
            return z3.ToReal(zi(v))
        if op in ("fptosi", "fptoui"):
            v = zr(v)
            if v.decl().kind() == z3.Z3_OP_TO_REAL: return v.arg(0)
            if op == "fptoui": return z3.ToInt(v)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if op in ("fpext", "fptrunc"): return v
        raise Unsupported("cast " + op)
    def ite(s, c, a, b):
        if isinstance(c, bool): return a if c else b
        if isinstance(a, Ptr):
            if a.key != b.key: raise Unsupported("select of differently tagged pointers")
            return Ptr(a.obj if same(a.obj, b.obj) else z3.If(c, zi(a.obj), zi(b.obj)), a.off if same(a.off, b.off) else z3.If(c, zi(a.off), zi(b.off)), a.key)
        if isinstance(a, bool) or z3.is_bool(a) if not isinstance(a, int) or isinstance(a, bool) else False: return z3.If(c, zb(a), zb(b))
        if isinstance(a, int) or z3.is_int(a): return z3.If(c, zi(a), zi(b)) if not same(a, b) else a
        return z3.If(c, zr(a), zr(b))
    # ------------------------------------------------------------ allocation
    def malloc(s, st, nbytes, zero=False, name="obj"):
        o = st.alloc
        st.alloc = iadd(st.alloc, 1)
        st.assume(BSIZE(zi(o)) == zi(nbytes))
        st.setflat("#live", o, z3.BoolVal(True))
        if zero:
            for key in s.keyset:
                if key in FLAT: continue
                z = zr(0) if s.w.keykind(key) == "double" else zi(0)
                st.setarr(key, o, z3.K(I, z))
        return Ptr(o, 0)
    def fresh_alloc(s, st):
        a = fresh("alloc", I)
        st.assume(a >= zi(st.alloc))
        st.alloc = a
    # ------------------------------------------------------------ execution
    def pure_region(s, fn, t, e):
        """a conditional whose branches neither write memory nor leave: (blocks, join).  Without `merge` only branches without
        any assignment qualify; with it local variables may be assigned."""
        cache = fn.__dict__.setdefault("_pure", {})
        k = (t, e, id(s.contracts), s.con.merge)
        if k in cache: return cache[k]
        def okblock(b):
            if b in fn.loops: return False
            for x in fn.blocks[b]:
                if x.op == "store" and not (s.con.merge and x.a[1].k == "l" and x.a[1].v in fn.vars): return False
                if x.op in ("alloca", "ret", "unreachable", "switch"): return False
                if x.op == "call":
                    nm = x.x.v if x.x.k != "l" else None
                    con = s.contracts.get(nm)
                    if nm is None: return False
                    if not (nm in NOP or nm in MATH1 or nm.startswith("llvm.dbg") or nm.startswith("llvm.fabs") or nm.startswith("llvm.fmuladd") or nm == "fabs" or (con is not None and con.trusted and not con.mods and not con.allocs)): return False
            return True
        def succ(b):
            x = fn.blocks[b][-1]
            return [x.x] if x.op == "br" else [x.x[0], x.x[1]] if x.op == "condbr" else []
        def region(join):
            reg = set(); todo = [t, e]
            while todo:
                b = todo.pop()
                if b == join or b in reg: continue
                if len(reg) > 16 or not okblock(b): return None
                reg.add(b); todo += succ(b)
            return reg
        cand = []; todo = [t, e]; seen = set()
        while todo and len(cand) < 20:
            b = todo.pop(0)
            if b in seen: continue
            seen.add(b); cand.append(b); todo += succ(b)
        r = None
        for J in cand:
            if fn.blocks[J] and fn.blocks[J][0].op == "phi": continue
            reg = region(J)
            if reg: r = (reg, J); break
        cache[k] = r
        return r
    def run(s, fr, st, blk, idx, prev, stop, check):
        """explore all paths from (blk, idx); returns outcomes:
           ('ret',state,val) ('back',state) ('exit',state,block,prev)"""
        outs = []
        work = [(st, blk, idx, prev)]
        fn = fr.fn
        while work:
            st, blk, idx, prev = work.pop()
            if time.time() > s.deadline: raise Budget("time budget exhausted in " + fn.name)
            if stop is not None and idx == 0 and prev is not None:
                if blk == stop[0] and not (len(prev) and prev == "<start>"):
                    outs.append(("back", st, prev)); continue
                if blk not in stop[1]:
                    outs.append(("exit", st, blk, prev)); continue
            if blk in fn.loops and idx == 0 and prev != "<start>":
                for o in s.do_loop(fr, st, blk, prev, check):
                    if o[0] == "exit": work.append((o[1], o[2], 0, o[3]))
                    else: outs.append(o)
                continue
            instrs = fn.blocks[blk]
            if prev == "<start>": realprev = getattr(fr, "startprev", None)
            else: realprev = prev
            # phis first
            if idx == 0:
                newv = {}
                while idx < len(instrs) and instrs[idx].op == "phi":
                    x = instrs[idx]
                    if blk in fn.loops: raise Unsupported("phi in loop header")
                    for v, b in zip(x.a, x.x):
                        if b == realprev: newv[x.dst] = s.val(fr, st, v); break
                    else: raise Unsupported("phi without incoming edge")
                    idx += 1
                if newv:
                    st.env = dict(st.env); st.env.update(newv)
            dead = False
            jumped = False
            while idx < len(instrs):
                x = instrs[idx]; op = x.op
                if op == "br":
                    work.append((st, x.x, 0, blk)); jumped = True; break
                if op == "condbr":
                    c = s.val(fr, st, x.a[0])
                    if not isinstance(c, bool): c = z3.simplify(c)
                    pr = None if isinstance(c, bool) or z3.is_true(c) or z3.is_false(c) else s.pure_region(fn, x.x[0], x.x[1])
                    if pr is not None:
                        # the branches only read, print (and, with merge, set local variables): check them, then go on without splitting the path
                        reg, join = pr; n0 = len(st.trail); sub = []
                        tmp = []; base = st.copy(); base.env = dict(st.env); base.vars = dict(st.vars)
                        s.branch(fr, base, c, x.x[0], x.x[1], blk, tmp)
                        for (n, b, _, pb) in tmp:
                            if b == join: sub.append(n)
                            else: sub += [o[1] for o in s.run(fr, n, b, 0, pb, ("<none>", reg), check)]
                        if not sub: jumped = True; break      # no feasible continuation
                        if s.con.merge:
                            st.vars = dict(st.vars)
                            for v in {v for n in sub for v in n.vars if n.vars[v] is not st.vars.get(v)}:
                                r = None
                                for n in sub:
                                    w = n.vars.get(v)
                                    if w is None: continue
                                    r = w if r is None or same_val(r, w) else s.ite(z3.And([zb(q) for q in n.trail[n0:]]), w, r)
                                st.vars[v] = r
                        work.append((st, join, 0, blk)); jumped = True; break
                    s.branch(fr, st, c, x.x[0], x.x[1], blk, work); jumped = True; break
                if op == "switch":
                    v = cint(s.val(fr, st, x.a[0]))
                    if isinstance(v, int):
                        t = x.x[0]
                        for cv, cb in x.x[1]:
                            if cv == v: t = cb
                        work.append((st, t, 0, blk))
                    else:
                        rest = []
                        for cv, cb in x.x[1]:
                            c = v == cv
                            rest.append(z3.Not(c))
                            if not s.infeasible(st, c):
                                n = st.copy(); n.assume(c); n.trail.append(c); n.env = dict(st.env); n.vars = dict(st.vars)
                                work.append((n, cb, 0, blk))
                        d = z3.And(rest)
                        if not s.infeasible(st, d):
                            st.assume(d); st.trail.append(d)
                            work.append((st, x.x[0], 0, blk))
                    jumped = True; break
                if op == "ret":
                    v = s.val(fr, st, x.a[0]) if x.a else None
                    outs.append(("ret", st, v)); jumped = True; break
                if op == "unreachable": jumped = True; break
                if op == "call":
                    r = s.call(fr, st, x, check)
                    # r: list of (state, value) continuations
                    if len(r) == 1 and r[0][0] is st:
                        if x.dst: st.env[x.dst] = r[0][1]
                        idx += 1
                        continue
                    for (n, v) in r:
                        if x.dst:
                            n.env = dict(n.env); n.env[x.dst] = v
                        work.append((n, blk, idx + 1, prev))
                    jumped = True; break
                s.step(fr, st, x, check)
                idx += 1
            if not jumped: raise Unsupported("fell off block")
        return outs
    def branch(s, fr, st, c, bt, bf, blk, work):
        if isinstance(c, bool):
            work.append((st, bt if c else bf, 0, blk)); return
        c = z3.simplify(c)
        if z3.is_true(c): work.append((st, bt, 0, blk)); return
        if z3.is_false(c): work.append((st, bf, 0, blk)); return
        nc = z3.Not(c)
        f_ok = not s.infeasible(st, nc)
        t_ok = not s.infeasible(st, c)
        if f_ok and t_ok and s.is_abort(fr.fn, bf):
            pass
        if f_ok:
            n = st.copy() if t_ok else st
            n.assume(nc); n.trail.append(nc)
            if t_ok: n.env = dict(st.env); n.vars = dict(st.vars)
            work.append((n, bf, 0, blk))
        if t_ok:
            st.assume(c); st.trail.append(c)
            work.append((st, bt, 0, blk))
    def is_abort(s, fn, b): return fn.blocks[b][-1].op == "unreachable"
    def step(s, fr, st, x, check):
        op = x.op; env = st.env
        if op == "load":
            p = x.a[0]
            if p.k == "l" and p.v in fr.fn.vars:
                v = st.vars.get(p.v)
                if v is None:
                    ty = fr.fn.vars[p.v]
                    v = Ptr(fresh("uninit", I)) if isinstance(ty, TPtr) else fresh("uninit", R if isinstance(ty, TFP) else I)
                    if isinstance(ty, TInt) and ty.w == 1: v = fresh("uninit", B)
                    st.vars[p.v] = v
                env[x.dst] = v
            else:
                env[x.dst] = s.load(fr, st, s.val(fr, st, p), x.ty, x.line, check)
        elif op == "store":
            p = x.a[1]; v = s.val(fr, st, x.a[0])
            if p.k == "l" and p.v in fr.fn.vars: st.vars[p.v] = v
            else: s.store(fr, st, s.val(fr, st, p), v, x.ty, x.line, check)
        elif op == "alloca":
            if x.dst in fr.fn.vars: return
            n = s.w.sizeof(x.ty)
            if x.x is not None: n = imul(s.val(fr, st, x.x), n)
            env[x.dst] = s.malloc(st, n, name=x.dst)
        elif op == "gep":
            env[x.dst] = s.gep(fr, st, x.x, s.val(fr, st, x.a[0]), [s.val(fr, st, o) for o in x.a[1:]])
        elif op == "bin":
            env[x.dst] = s.binop(st, x.x[0], x.x[1], x.ty, s.val(fr, st, x.a[0]), s.val(fr, st, x.a[1]))
        elif op == "fneg": env[x.dst] = -zr(s.val(fr, st, x.a[0]))
        elif op == "icmp": env[x.dst] = s.icmp(x.x, s.val(fr, st, x.a[0]), s.val(fr, st, x.a[1]))
        elif op == "fcmp": env[x.dst] = s.fcmp(x.x, s.val(fr, st, x.a[0]), s.val(fr, st, x.a[1]))
        elif op == "cast": env[x.dst] = s.cast(st, x.x, s.val(fr, st, x.a[0]), x.a[0].ty, x.ty)
        elif op == "freeze": env[x.dst] = s.val(fr, st, x.a[0])
        elif op == "select":
            env[x.dst] = s.ite(s.val(fr, st, x.a[0]), s.val(fr, st, x.a[1]), s.val(fr, st, x.a[2]))
        elif op == "extractvalue":
            v = s.val(fr, st, x.a[0])
            for i in x.x: v = v[i]
            env[x.dst] = v
        elif op == "insertvalue":
            v = dict(s.val(fr, st, x.a[0])); v[x.x[0]] = s.val(fr, st, x.a[1]); env[x.dst] = v
        else: raise Unsupported(op)
    # ------------------------------------------------------------ calls
    def call(s, fr, st, x, check):
        cal = x.x
        if cal.k == "l":
            fp = s.val(fr, st, cal)
            args = [s.val(fr, st, a) for a in x.a[:-1]]
            nm = s.w.fnname(fp.obj) if isnum(fp.obj) else None
            if nm is None:
                h = getattr(s.con, "fnargs", {}).get("indirect")
                if h is None: raise Unsupported("indirect call line %s" % x.line)
                return h(s, fr, st, fp, args, x, check)
        else:
            nm = cal.v
            if nm in NOP or nm.startswith("llvm.dbg") or nm.startswith("llvm.lifetime"):
                v = None
                if x.dst: v = fresh(nm, I) if isinstance(x.ty, TInt) else (Ptr(fresh(nm, I)))
                return [(st, v)]
            args = [s.val(fr, st, a) for a in x.a]
        return s.call_named(fr, st, nm, args, x, check)
    def call_named(s, fr, st, nm, args, x, check):
        if nm in ("__assert_fail",):
            s.oblige(st, z3.BoolVal(False), "assertion holds", "assert", x.line, check); return []
        if nm in ("exit", "abort", "_exit"):
            s.oblige(st, z3.BoolVal(False), "error exit is not reached", "assert", x.line, check); return []
        bi = getattr(s, "bi_" + nm.replace(".", "_"), None)
        if nm in s.contracts and nm not in s.con.inline:
            return s.call_contract(fr, st, nm, args, x, check)
        if bi is not None: return bi(fr, st, args, x, check)
        if nm in MATH1:
            return [(st, s.math1(st, nm, args[0]))]
        if nm == "pow" and z3.is_rational_value(z3.simplify(zr(args[1]))):
            e = z3.simplify(zr(args[1])).as_fraction()
            if e.denominator == 1 and 0 <= e.numerator <= 4:
                r = zr(1)
                for _ in range(e.numerator): r = zr(args[0]) if z3.is_rational_value(r) else r * zr(args[0])
                return [(st, r)]
        if nm in MATH2: return [(st, mathfn(nm, 2)(zr(args[0]), zr(args[1])))]
        if nm.startswith("llvm.memcpy") or nm.startswith("llvm.memmove"): return s.bi_memmove(fr, st, args, x, check)
        if nm.startswith("llvm.memset"): return s.bi_memset(fr, st, args, x, check)
        if nm.startswith("llvm.fabs"): return s.bi_fabs(fr, st, args, x, check)
        if nm.startswith("llvm.fmuladd"):
            return [(st, zr(args[0]) * zr(args[1]) + zr(args[2]))]
        if nm.startswith("llvm.stacksave"): return [(st, NULL)]
        g = s.prog.find(nm, fr.fn.module)
        if g is None: raise Unsupported("call to %s (no body, no contract) line %s" % (nm, x.line))
        return s.inline(fr, st, g, args, x, check)
    def math1(s, st, nm, a):
        f = mathfn(nm, 1); a = zr(a); r = f(a)
        if nm == "sqrt": st.assume(z3.Implies(a >= 0, z3.And(r >= 0, r * r == a)))
        if nm == "exp": st.assume(r > 0)
        if nm == "floor":
            st.assume(r == z3.ToReal(z3.ToInt(a)))
        if nm == "ceil": st.assume(r == -z3.ToReal(z3.ToInt(-a)))
        return r
    def inline(s, fr, st, g, args, x, check):
        d = 0; q = fr
        while q is not None:
            if q.fn is g: raise Unsupported("recursive inlining of " + g.name)
            q = q.parent; d += 1
        if d > 12: raise Unsupported("inlining depth")
        s.inlined.add(g.name)
        nf = Frame(g, d, fr)
        env0, vars0 = st.env, st.vars
        st.env = {p[0]: a for p, a in zip(g.params, args)}; st.vars = {}
        outs = s.run(nf, st, g.entry, 0, "<start>" if False else None, None, check)
        r = []
        for o in outs:
            assert o[0] == "ret"
            n = o[1]; n.env = dict(env0); n.vars = dict(vars0)
            r.append((n, o[2]))
        return r
    def call_contract(s, fr, st, nm, args, x, check):
        con = s.contracts[nm]
        s.used_contracts.add(nm)
        pre = st.copy()
        c = Ctx(s, args, pre)
        for lab, q in norm(con.requires(c)):
            s.oblige(st, q, "precondition of %s: %s" % (nm, lab), "requires", x.line, check)
        pre.pc = st.pc
        # havoc
        if con.allocs: s.fresh_alloc(st)
        for a in con.assigns(c):
            key, who = a[0], a[1]
            if who is None: continue
            mk = who.key if isinstance(who, Ptr) and who.key else key
            if key not in con.mods: raise Exception('contract %s assigns %s without declaring it' % (nm, key))
            if mk != key and s.loopstack: raise Unsupported('assignment through a tagged field pointer inside a loop')
            if callable(who):
                o = z3.Int("o!f")
                H0 = st.H(key); H1 = fresh("H_" + key, s.w.sort(key))
                st.heap[key] = H1
                st.assume(z3.ForAll([o], z3.Implies(z3.And(o < zi(pre.alloc), z3.Not(zb(who(o)))), H1[o] == H0[o]), patterns=[H1[o]]))
                s.closed(st, key)
                if s.rec_writes is not None: s.rec_writes.append((key, None, None, None, []))
            else:
                ob = who.obj if isinstance(who, Ptr) else who
                if key in FLAT: st.setflat(key, ob, fresh("hv", FLAT[key]))
                else:
                    k = who.key if isinstance(who, Ptr) and who.key else key
                    if len(a) > 2:     # a range of cells [lo, hi)
                        A0 = st.arr(k, ob); A1 = fresh("A_" + k, A0.sort()); j = z3.Int("j!r")
                        st.setarr(k, ob, A1)
                        st.assume(z3.ForAll([j], z3.Implies(z3.Or(j < zi(a[2]), j >= zi(a[3])), A1[j] == A0[j]), patterns=[A1[j]]))
                    elif isinstance(who, Ptr) and who.key: st.put(k, ob, who.off, fresh("hv", cellsort(s.w.keykind(k))))
                    else: st.setarr(k, ob, fresh("A_" + k, z3.ArraySort(I, cellsort(s.w.keykind(k)))))
                    s.closed_arr(st, k, ob)
                if s.rec_writes is not None: s.rec_writes.append((key, ob, None, None, []))
        g = s.prog.funcs.get(nm)
        rty = x.ty
        res = None
        if isinstance(rty, TPtr): res = Ptr(fresh("r_" + nm, I), 0); st.assume(zi(res.obj) < zi(st.alloc))
        elif isinstance(rty, TFP): res = fresh("r_" + nm, R)
        elif isinstance(rty, TInt):
            res = fresh("r_" + nm, I) if rty.w > 1 else fresh("r_" + nm, B)
            if rty.w == 64: st.assume(res >= 0)
        if con.ret is not None:
            c2 = Ctx(s, args, pre, st, res); c2.call = x
            res = con.ret(c2)
        c2 = Ctx(s, args, pre, st, res)
        for lab, q in norm(con.ensures(c2)): st.assume(zb(q))
        return [(st, res)]
    # ------------------------------------------------------------ builtins
    def bi_malloc(s, fr, st, a, x, ck): return [(st, s.malloc(st, a[0]))]
    def bi_calloc(s, fr, st, a, x, ck): return [(st, s.malloc(st, imul(a[0], a[1]), True))]
    def bi_free(s, fr, st, a, x, ck):
        p = a[0]
        c = z3.Or(zi(p.obj) == 0, z3.And(st.live(p), zi(p.off) == 0, zi(p.obj) > 0))
        if not s.nosafety: s.oblige(st, c, "free of a live object", "memory", x.line, ck)
        if s.rec_writes is not None: s.rec_writes.append(("#live", p.obj, None, None, []))
        st.setflat("#live", p.obj, z3.BoolVal(False))
        return [(st, None)]
    def bi_fabs(s, fr, st, a, x, ck):
        v = zr(a[0]); return [(st, z3.If(v >= 0, v, -v))]
    def bi_fmax(s, fr, st, a, x, ck): return [(st, z3.If(zr(a[0]) >= zr(a[1]), zr(a[0]), zr(a[1])))]
    def bi_fmin(s, fr, st, a, x, ck): return [(st, z3.If(zr(a[0]) <= zr(a[1]), zr(a[0]), zr(a[1])))]
    def bi_abs(s, fr, st, a, x, ck): return [(st, z3.If(zi(a[0]) >= 0, zi(a[0]), -zi(a[0])))]
    def bi_llvm_is_fpclass_f64(s, fr, st, a, x, ck): return [(st, z3.BoolVal(False))]     # exact reals: never NaN or infinite
    def bi_isnan(s, fr, st, a, x, ck): return [(st, 0)]
    def bi_memcpy(s, fr, st, a, x, ck): return s.bi_memmove(fr, st, a, x, ck)
    def bi_memmove(s, fr, st, a, x, ck):
        dst, src, n = a[0], a[1], cint(a[2])
        line = x.line
        if dst.key == "@" or src.key == "@": return s.bytecopy(st, dst, src, n, line, ck)
        if dst.key is not None or src.key is not None: raise Unsupported("memcpy on fields")
        hit = False
        for key in sorted(s.keyset):
            if key not in (s.con.copies or ("double", "i64", "ptr", "i32", "i8")): continue
            sz = {"double": 8, "i64": 8, "ptr": 8, "i32": 4, "i8": 1}[key]
            m = divexact(n, sz)
            if m is None: continue
            hit = True
            if not s.nosafety:
                for p in (dst, src):
                    s.oblige(st, z3.Or(zi(m) == 0, z3.And(zi(p.obj) > 0, st.live(p), zi(p.off) >= 0, zi(iscale(sz, iadd(p.off, m))) <= BSIZE(zi(p.obj)))),
                             "memcpy range in bounds and live", "memory", line, ck)
            A = st.arr(key, dst.obj); Sr = st.arr(key, src.obj)
            N = fresh("cpy", A.sort()); j = z3.Int("j!c")
            idx = isub(iadd(j, src.off), dst.off)
            st.assume(z3.ForAll([j], N[j] == z3.If(z3.And(j >= zi(dst.off), j < zi(iadd(dst.off, m))), Sr[zi(idx)], A[j]), patterns=[N[j]]))
            if isnum(m) and m <= 16:
                for q in range(m): st.assume(N[zi(iadd(dst.off, q))] == Sr[zi(iadd(src.off, q))])
            # transport facts from the source to the copy
            if s.rec_writes is not None: s.rec_writes.append((key, dst.obj, None, None, []))
            st.setarr(key, dst.obj, N)
        if not hit: raise Unsupported("memcpy of unknown cell type line %s" % line)
        return [(st, dst)]
    def bytecopy(s, st, dst, src, n, line, ck):
        """copy between a byte stream (offsets in bytes) and ordinary memory (offsets in cells): a cell of kind k of the ordinary side is the cell
        "@k" at its byte position in the stream; cells of the stream that overlap the written bytes otherwise are forgotten"""
        tob = dst.key == "@"
        if tob and src.key == "@": raise Unsupported("copy inside byte streams")
        b, p = (dst, src) if tob else (src, dst)
        if p.key is not None and "." in p.key:
            kk = s.w.keykind(p.key)
            if n != {"double": 8, "i64": 8, "i32": 4, "i8": 1, "ptr": 8}[kk]: raise Unsupported("partial copy of a field")
            kinds = [kk]
        else: kinds = [k for k in ("double", "i64", "i32", "i8") if k in s.keyset and "@" + k in s.keyset]
        SZ = {"double": 8, "i64": 8, "ptr": 8, "i32": 4, "i8": 1}
        hit = False
        s.oblige(st, z3.Or(zi(n) == 0, z3.And(zi(b.obj) > 0, zi(b.obj) < zi(st.alloc), st.live(b), zi(b.off) >= 0, zi(iadd(b.off, n)) <= BSIZE(zi(b.obj)))), "stream range in bounds and live", "memory", line, ck)
        new = []
        for k in kinds:
            sz = SZ[k]; m = divexact(n, sz)
            if m is None: continue
            hit = True
            if p.key is None: s.oblige(st, z3.Or(zi(m) == 0, z3.And(zi(p.obj) > 0, zi(p.obj) < zi(st.alloc), st.live(p), zi(p.off) >= 0, zi(iscale(sz, iadd(p.off, m))) <= BSIZE(zi(p.obj)))), "memcpy range in bounds and live", "memory", line, ck)
            if tob:
                Sr = st.arr(p.key or k, p.obj)
                A = st.arr("@" + k, b.obj); N = fresh("bcpy", A.sort()); j = z3.Int("j!c"); q = z3.Int("q!c")
                st.assume(z3.ForAll([j], z3.Implies(z3.Or(j <= zi(isub(b.off, sz)), j >= zi(iadd(b.off, n))), N[j] == A[j]), patterns=[N[j]]))
                if isnum(m) and m <= 16:
                    for i in range(m): st.assume(N[zi(iadd(b.off, sz * i))] == Sr[zi(iadd(p.off, i))])
                else:
                    st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(m)), N[zi(iadd(b.off, iscale(sz, q)))] == Sr[zi(iadd(p.off, q))]), patterns=[Sr[zi(iadd(p.off, q))], N[zi(iadd(b.off, iscale(sz, q)))]]))
                new.append(("@" + k, b.obj, N))
            else:
                Sr = st.arr("@" + k, b.obj)
                kk = p.key or k
                A = st.arr(kk, p.obj); N = fresh("bcpy", A.sort()); j = z3.Int("j!c")
                st.assume(z3.ForAll([j], N[j] == z3.If(z3.And(j >= zi(p.off), j < zi(iadd(p.off, m))), Sr[zi(iadd(b.off, iscale(sz, isub(j, p.off))))], A[j]), patterns=[N[j]]))
                if isnum(m) and m <= 16:
                    for i in range(m): st.assume(N[zi(iadd(p.off, i))] == Sr[zi(iadd(b.off, sz * i))])
                new.append((kk, p.obj, N))
        if not hit: raise Unsupported("memcpy of unknown cell type line %s" % line)
        if tob:
            done = {k for k, _, _ in new}
            for k in ("@double", "@i64", "@i32", "@i8", "@ptr"):
                if k in done or k not in s.keyset: continue
                A = st.arr(k, b.obj); N = fresh("bkill", A.sort()); j = z3.Int("j!c")
                st.assume(z3.ForAll([j], z3.Implies(z3.Or(j <= zi(isub(b.off, SZ[k[1:]])), j >= zi(iadd(b.off, n))), N[j] == A[j]), patterns=[N[j]]))
                new.append((k, b.obj, N))
        for k, o, N in new:
            if s.rec_writes is not None: s.rec_writes.append((k, o, None, None, []))
            st.setarr(k, o, N)
        return [(st, dst)]
    def bi_memset(s, fr, st, a, x, ck):
        raise Unsupported("memset")
    # ------------------------------------------------------------ loops
    def closed(s, st, key):
        """type invariants of a havocked heap"""
        if key in FLAT: return
        k = s.w.keykind(key); H = st.H(key)
        if not z3.is_const(H): return
        o, i = z3.Ints("o!c i!c")
        if k == "ptr": st.assume(z3.ForAll([o, i], z3.Implies(o < st.alloc, H[o][i] < st.alloc), patterns=[H[o][i]]))
        elif k == "i64": st.assume(z3.ForAll([o, i], H[o][i] >= 0, patterns=[H[o][i]]))
    def closed_arr(s, st, key, ob):
        if key in FLAT: return
        k = s.w.keykind(key); A = st.arr(key, ob); i = z3.Int("i!c")
        if k == "ptr": st.assume(z3.ForAll([i], A[i] < st.alloc, patterns=[A[i]]))
        elif k == "i64": st.assume(z3.ForAll([i], A[i] >= 0, patterns=[A[i]]))
    def scan_mods(s, fn, blocks, seen=None):
        """heap keys possibly written, whether memory may be allocated, variables assigned"""
        seen = seen if seen is not None else set()
        keys = set(); allocs = False; vs = set()
        for b in blocks:
            for x in fn.blocks[b]:
                if x.op == "store":
                    p = x.a[1]
                    if p.k == "l" and p.v in fn.vars: vs.add(p.v); continue
                    keys.add(s.static_key(fn, p, x.ty))
                elif x.op == "alloca" and x.dst not in fn.vars: allocs = True; keys.add("#live")
                elif x.op == "call":
                    cal = x.x
                    if cal.k == "l":
                        k2 = s.con.fnargs.get("indirect_keys")
                        if k2: keys |= set(k2)
                        continue
                    nm = cal.v
                    if nm in NOP or nm in ("__assert_fail", "exit", "abort"): continue
                    if nm in ("malloc", "calloc"): allocs = True; keys.add("#live")
                    if nm == "calloc": keys |= {k for k in s.keyset if k not in FLAT}
                    if nm == "free": keys.add("#live"); continue
                    if "memcpy" in nm or "memmove" in nm or "memset" in nm:
                        keys |= {k for k in s.keyset if k in (s.con.copies or ("double", "i64", "ptr", "i32", "i8"))}; continue
                    if nm in s.contracts and nm not in s.con.inline:
                        con = s.contracts[nm]
                        if con.allocs: allocs = True
                        keys |= set(con.mods); continue
                    if hasattr(s, "bi_" + nm.replace(".", "_")): continue
                    g = s.prog.find(nm, fn.module)
                    if g is not None and g.name not in seen:
                        seen.add(g.name)
                        k2, a2, _ = s.scan_mods(g, g.order, seen)
                        keys |= k2; allocs = allocs or a2
        return keys, allocs, vs
    def static_key(s, fn, p, ty):
        if p.k == "l" and p.v in fn.defs:
            d = fn.defs[p.v]
            if d.op == "gep":
                bt = d.x
                if isinstance(bt, TStruct) and len(d.a) > 2:
                    t = bt; key = None
                    for o in d.a[2:]:
                        if isinstance(t, TStruct):
                            k, t = s.w.fieldkey(t.name, o.v); key = k if key is None else key + "." + k.split(".", 1)[1]
                        elif isinstance(t, TArr): t = t.e
                    # nested gep base
                    return key
                b = d.a[0]
                if isinstance(bt, TArr) and b.k == "l" and b.v in fn.defs and fn.defs[b.v].op == "gep":
                    return s.static_key(fn, b, ty)
        return s.w.kindof(ty)
    def do_loop(s, fr, st, hdr, prev, check):
        fn = fr.fn; body = fn.loops[hdr]
        keys, allocs, vs = s.scan_mods(fn, body)
        live = fn.live[hdr]
        entry = st
        # --- unrolling of loops whose trip count is concrete (small)
        u = s.try_unroll(fr, st, hdr, prev, check)
        if u is not None: return u
        sub = s.loopmemo.setdefault((id(fn), hdr), {}) if False else None
        # variables that are read in the body only before being written are dead at the header
        hv = {v for v in vs}
        walk = None      # pointers whose offset changes in the loop (None: not known yet)
        def stays(o):
            for v in hv:
                if v in live and isinstance(fn.vars[v], TPtr) and isinstance(o[1].vars.get(v), Ptr) and v not in walk:
                    if not same(o[1].vars[v].off, 0): raise Unsupported("pointer %s walks" % v)
        def havoc():
            n = entry.copy(); n.env = dict(entry.env); n.vars = dict(entry.vars); n.trail = []
            new = {}
            for v in hv:
                if v not in live: n.vars.pop(v, None); continue
                ty = fn.vars[v]
                if isinstance(ty, TPtr):
                    p0 = entry.vars.get(v)
                    q = fresh("v_" + v, I); new[v] = q
                    off = 0; key = None
                    if isinstance(p0, Ptr) and (walk is None or v in walk): off = fresh("vo_" + v, I); key = p0.key if p0.key == "@" else None
                    n.vars[v] = Ptr(q, off, key)
                elif isinstance(ty, TFP): n.vars[v] = new[v] = fresh("v_" + v, R)
                elif ty.w == 1: n.vars[v] = new[v] = fresh("v_" + v, B)
                else:
                    n.vars[v] = new[v] = fresh("v_" + v, I)
                    if ty.w == 64: n.assume(new[v] >= 0)
                    if ty.w == 8: n.assume(new[v] >= 0, new[v] < 256)
            if allocs: s.fresh_alloc(n)
            for v in hv:
                if v in live and isinstance(fn.vars[v], TPtr): n.assume(zi(n.vars[v].obj) < n.alloc)
            hh = {}
            for k in keys:
                hh[k] = fresh("H_" + k, s.w.sort(k)); n.heap[k] = hh[k]
                s.closed(n, k)
            return n, new, hh
        save_w = s.rec_writes
        # --- dry run: record writes, comparisons
        memo_key = (fr_path(fr), hdr, len(s.loopstack))
        ctr0 = _ctr[0]
        h, new, hh = havoc()
        s.rec_writes = []
        dry0, s.dry = s.dry, True
        try:
            d = h.copy(); d.env = dict(h.env); d.vars = dict(h.vars)
            s.loopstack.append(hdr)
            douts = s.run_loop_body(fr, d, hdr, body, False, prev)
        finally:
            s.loopstack.pop(); s.dry = dry0
        writes = s.rec_writes
        s.rec_writes = save_w
        if save_w is not None: save_w += writes
        s.loopctr = ctr0
        walk = set()
        for v in hv:
            if v not in live or not isinstance(fn.vars[v], TPtr): continue
            p0 = entry.vars.get(v)
            if not isinstance(p0, Ptr): continue
            offs = [p0.off] + [o[1].vars[v].off for o in douts if o[0] == "back" and isinstance(o[1].vars.get(v), Ptr)]
            hoff = h.vars[v].off
            if not all(same(o, 0) or same(o, hoff) for o in offs) or not same(p0.off, 0): walk.add(v)
        s.decr = set()
        for o in douts:
            if o[0] != "back": continue
            for v in vs:
                if v in new and v in o[1].vars and isinstance(fn.vars[v], TInt):
                    nv = o[1].vars[v]
                    dlt = cint(isub(nv, new[v]))
                    if isinstance(dlt, int):
                        if dlt < 0: s.decr.add(v)
                    elif z3.is_app(zi(nv)) and zi(nv).decl().kind() == z3.Z3_OP_ITE: s.decr.add(v)
        cands = s.candidates(fr, entry, h, new, hh, keys, allocs, vs & live, writes, douts, hdr)
        if s.verbose: print("  loop %s:%s  %d candidates" % (fn.name, hdr, len(cands)), flush=True)
        # --- initiation
        if s.dry: cands = [x for x in cands if x[0].startswith("#b ")]
        # what was not inductive under stronger assumptions is not inductive now (an optimisation: dropping is always sound)
        mk = (fr_path(fr), hdr, tuple(s.loopstack))
        dropped = s.memo.setdefault(mk, set()) if s.outer_round > 1 else set()
        if s.outer_round <= 1: s.memo[mk] = dropped
        if not s.dry: cands = [x for x in cands if x[0] not in dropped]
        ors = s.outer_round
        keep = []
        for lab, c in cands:
            try: g = c(entry)
            except Unsupported: continue
            t0 = time.time()
            ok, _ = s.valid(entry, g, 1000 * s.msx)
            if not ok and not s.dry: dropped.add(lab)
            if ok: keep.append((lab, c))
            elif s.verbose:
                print("      init drops", lab, "%.1f" % (time.time() - t0))
                if os.environ.get('VF_DBG') == lab: s.dump(entry, g)
        cands = keep
        # --- consecution (Houdini)
        rnd = 0
        while True:
            rnd += 1
            h, new, hh = havoc()
            for lab, c in cands: h.assume(zb(c(h)))
            s.rec_writes = None
            s.loopstack.append(hdr)
            s.outer_round = max(ors, rnd)
            try:
                hs = h.copy(); hs.env = dict(h.env); hs.vars = dict(h.vars)
                outs = s.run_loop_body(fr, hs, hdr, body, False, prev)
            finally: s.loopstack.pop(); s.outer_round = ors
            bad = set()
            for o in outs:
                if o[0] != "back": continue
                n = o[1]
                stays(o)
                gs = [(lab, zb(c(n))) for lab, c in cands if lab not in bad]
                if not gs: continue
                ok, _ = s.valid(n, z3.And([g for _, g in gs]), 2000 * s.msx)
                if ok: continue
                for lab, g in gs:
                    t0 = time.time()
                    ok, _ = s.valid(n, g, 1000 if s.dry else s.ms)
                    if not ok:
                        bad.add(lab)
                        if os.environ.get("VF_DUMPC") and lab.startswith(os.environ["VF_DUMPC"]): s.dump(n, g)
                        if not s.dry: dropped.add(lab)
                        if s.verbose: print("      round %d drops %s %.1f" % (rnd, lab, time.time() - t0), flush=True)
                        if os.environ.get('VF_DBG') == lab: s.dump(n, g)
            if not bad: break
            cands = [(l, c) for l, c in cands if l not in bad]
        if s.verbose: print("    keeps:", [l for l, _ in cands], flush=True)
        if check: s.invcount += len(cands)
        s.kept.setdefault("%s:%s" % (fn.name, hdr), [l for l, _ in cands])
        # --- final pass: obligations in the body, exits
        h, new, hh = havoc()
        for lab, c in cands: h.assume(zb(c(h)))
        s.rec_writes = save_w
        s.loopstack.append(hdr); s.outer_round = max(ors, rnd + 1)
        try: outs = s.run_loop_body(fr, h, hdr, body, check, prev)
        finally: s.loopstack.pop(); s.outer_round = ors
        res = []
        for o in outs:
            if o[0] == "exit":
                o[1].trail = list(st.trail)   # facts of the path before the loop
                res.append(o)
            elif o[0] == "ret": res.append(o)
        return res
    def try_unroll(s, fr, st, hdr, prev, check):
        n = s.con.unroll
        if not n: return None
        # execute concretely: allow at most n iterations, decisions must be concrete
        outs = []
        cur = [(st, prev)]
        body = fr.fn.loops[hdr]
        snap = st.copy(); snap.env = dict(st.env); snap.vars = dict(st.vars)
        for it in range(n + 1):
            nxt = []
            for (c, pv) in cur:
                for o in s.run_loop_body(fr, c, hdr, body, check, pv):
                    if o[0] == "back": nxt.append((o[1], o[2]))
                    else: outs.append(o)
            cur = nxt
            if not cur: return outs
        if s.con.unroll_strict if hasattr(s.con, "unroll_strict") else False: raise Unsupported("unroll bound")
        st.__dict__.update(snap.__dict__)
        return None
    def run_loop_body(s, fr, st, hdr, body, check, prev):
        old = getattr(fr, "startprev", None)
        fr.startprev = prev
        try: return s.run(fr, st, hdr, 0, "<start>", (hdr, body), check)
        finally: fr.startprev = old
    # ---- invariant candidates
    def candidates(s, fr, entry, h, new, hh, keys, allocs, vs, writes, douts, hdr):
        fn = fr.fn
        C = []
        ints = [v for v in vs if isinstance(fn.vars[v], TInt) and fn.vars[v].w > 8]
        ptrs = [v for v in vs if isinstance(fn.vars[v], TPtr)]
        havoc_ids = {t.get_id() for t in list(new.values())} | {t.get_id() for t in hh.values()}
        if z3.is_expr(zi(h.alloc)): havoc_ids |= {zi(h.alloc).get_id()} if allocs else set()
        # integer bounds
        for v in ints:
            v0 = entry.vars.get(v)
            if v0 is None: continue
            C.append(("#b %s>=entry" % v, lambda S, v=v, v0=v0: zi(S.vars[v]) >= zi(v0)))
            C.append(("#b %s<=entry" % v, lambda S, v=v, v0=v0: zi(S.vars[v]) <= zi(v0)))
        bnds = {}
        for o in douts:
            tr = o[1].trail
            for c in tr:
                for (a, b) in ineqs(c):
                    for v in ints:
                        if v in new:
                            d, k = lin(isub(b, a))
                            # a <= b ; look for single occurrence of the variable
                            t = d.get(new[v].get_id())
                            if t is None or abs(t[0]) != 1: continue
                            rest = dict(d); del rest[new[v].get_id()]
                            r = unlin(rest, k)       # t0*v + r >= 0
                            if mentions(r, havoc_ids): continue
                            bound = iscale(-1, r) if t[0] == 1 else r     # v >= -r  or v <= r
                            bnds.setdefault((v, str(bound)), bound)
        for (v, _), bd in bnds.items():
            for off in (0, 1):
                C.append(("#b %s<=%s+%d" % (v, short(bd), off), lambda S, v=v, bd=bd, off=off: zi(S.vars[v]) <= zi(iadd(bd, off))))
            C.append(("#b %s>=%s" % (v, short(bd)), lambda S, v=v, bd=bd: zi(S.vars[v]) >= zi(bd)))
        # lock-step counters
        for i in range(len(ints)):
            for j in range(i + 1, len(ints)):
                a, b = ints[i], ints[j]
                a0, b0 = entry.vars.get(a), entry.vars.get(b)
                if a0 is None or b0 is None: continue
                C.append(("#b %s-%s const" % (a, b), lambda S, a=a, b=b, a0=a0, b0=b0: zi(isub(S.vars[a], a0)) == zi(isub(S.vars[b], b0))))
                C.append(("#b %s+%s const" % (a, b), lambda S, a=a, b=b, a0=a0, b0=b0: zi(iadd(S.vars[a], S.vars[b])) == zi(iadd(a0, b0))))
        for v in ptrs:
            p0 = entry.vars.get(v)
            if isinstance(p0, Ptr): C.append(("#b %s unchanged" % v, lambda S, v=v, p0=p0: zi(S.vars[v].obj) == zi(p0.obj)))
            if isinstance(p0, Ptr): C.append(("#b %s offset unchanged" % v, lambda S, v=v, p0=p0: zi(S.vars[v].off) == zi(p0.off)))
            if isinstance(p0, Ptr): C.append(("#b %s offset grows" % v, lambda S, v=v, p0=p0: zi(S.vars[v].off) >= zi(p0.off)))
        # frames
        oe = z3.Int("o!e")
        allo = entry.alloc
        for k in keys:
            W = []; unk = False
            for (kk, ob, off, vv, tr) in writes:
                if kk != k: continue
                if ob is None: unk = True; continue
                if mentions(ob, havoc_ids):
                    continue
                if not any(same(ob, w) for w in W): W.append(ob)
            He = entry.H(k)
            def frame(S, k=k, W=W, He=He):
                Hc = S.H(k)
                if Hc.eq(He): return z3.BoolVal(True)
                return z3.ForAll([oe], z3.Implies(z3.And(oe > 0, oe < zi(allo), *[oe != zi(w) for w in W]), Hc[oe] == He[oe]), patterns=[Hc[oe]])
            C.append(("frame %s (writes %s)" % (k, len(W)), frame))
            # relative to function entry and the contract's assigns clause
            ca = s.assign_pred(k)
            H0 = s.S0.H(k); A0 = s.S0.alloc
            def cframe(S, k=k, ca=ca, H0=H0):
                Hc = S.H(k)
                if Hc.eq(H0): return z3.BoolVal(True)
                return z3.ForAll([oe], z3.Implies(z3.And(oe > 0, oe < zi(A0), z3.Not(ca(oe))), Hc[oe] == H0[oe]), patterns=[Hc[oe]])
            C.append(("contract frame %s" % k, cframe))
            for a in s.cur_assigns:
                if a[0] == k and len(a) > 2 and not callable(a[1]) and k not in FLAT:
                    ob = a[1].obj if isinstance(a[1], Ptr) else a[1]
                    je = z3.Int("j!e")
                    C.append(("contract range frame %s" % k, lambda S, k=k, ob=ob, a=a: z3.ForAll([je], z3.Implies(s.outside(k, ob, je), S.arr(k, ob)[je] == s.S0.arr(k, ob)[je]), patterns=[S.arr(k, ob)[je]])))
            if k == "#live":
                def lv(S, He=He):
                    Hc = S.H("#live")
                    return z3.ForAll([oe], z3.Implies(z3.And(oe > 0, oe < zi(allo), He[oe]), Hc[oe]), patterns=[Hc[oe]])
                C.append(("live objects stay live", lv))
            # cells of written objects not yet reached
            if k not in FLAT:
                for w in W:
                    A0e = entry.arr(k, w)
                    je = z3.Int("j!e")
                    for v in ints:
                        if entry.vars.get(v) is None or v not in new: continue
                        if not any(kk == k and ob is not None and off is not None and same(ob, w) and abs(lin(off)[0].get(new[v].get_id(), (0,))[0]) == 1 for (kk, ob, off, vv, tr) in writes): continue
                        C.append(("%s cells >= %s untouched (%s)" % (k, v, short(w)), lambda S, k=k, w=w, v=v, A0e=A0e: z3.ForAll([je], z3.Implies(je >= zi(S.vars[v]), S.arr(k, w)[je] == A0e[je]), patterns=[S.arr(k, w)[je]])))
                        C.append(("%s cells > %s untouched (%s)" % (k, v, short(w)), lambda S, k=k, w=w, v=v, A0e=A0e: z3.ForAll([je], z3.Implies(je > zi(S.vars[v]), S.arr(k, w)[je] == A0e[je]), patterns=[S.arr(k, w)[je]])))
                        C.append(("%s cells < %s untouched (%s)" % (k, v, short(w)), lambda S, k=k, w=w, v=v, A0e=A0e: z3.ForAll([je], z3.Implies(je < zi(S.vars[v]), S.arr(k, w)[je] == A0e[je]), patterns=[S.arr(k, w)[je]])))
                        v0 = entry.vars[v]
                    C.append(("%s cells < entry idx untouched (%s)" % (k, short(w)), lambda S: z3.BoolVal(True)))
        # loop-derived element facts:  for all t in [v0, v): H[b][e(t)] == value(t)
        C += s.derived(fr, entry, h, new, hh, writes, ints, havoc_ids)
        # templates of the contract
        C += s.from_templates(fr, entry, h, vs, hdr)
        # de-duplicate labels
        seen = {}; out = []
        for l, c in C:
            n = seen.get(l, 0); seen[l] = n + 1
            out.append((l if n == 0 else "%s #%d" % (l, n), c))
        return out
    def outside(s, k, ob, j):
        """cell j of object ob lies outside every assigned range of key k"""
        L = []
        for b in s.cur_assigns:
            if b[0] != k: continue
            w = b[1]
            if callable(w): L.append(z3.Not(zb(w(zi(ob))))); continue
            o2 = w.obj if isinstance(w, Ptr) else w; same_o = zi(o2).eq(zi(ob))
            out = z3.Or(j < zi(b[2]), j >= zi(b[3])) if len(b) > 2 else z3.BoolVal(False)
            L.append(out if same_o else z3.Implies(zi(o2) == zi(ob), out))
        return z3.And(L) if len(L) > 1 else L[0]
    def assign_pred(s, k):
        items = [a for a in s.cur_assigns if a[0] == k]
        def pred(o):
            ds = []
            for a in items:
                who = a[1]
                if callable(who): ds.append(zb(who(o)))
                else: ds.append(o == zi(who.obj if isinstance(who, Ptr) else who))
            return z3.Or(ds) if ds else z3.BoolVal(False)
        return pred
    def derived(s, fr, entry, h, new, hh, writes, ints, havoc_ids):
        C = []
        seen = set()
        for (k, ob, off, vv, tr) in writes:
            if ob is None or vv is None or k in FLAT: continue
            if mentions(ob, havoc_ids): continue
            for v in ints:
                if v not in new or entry.vars.get(v) is None: continue
                nv = new[v]
                if not mentions(off, {nv.get_id()}): continue
                # replace havocked heaps by their value at loop entry
                subs = [(hh[q], entry.H(q)) for q in hh]
                t = z3.Int("t!d")
                val = z3.substitute(z3.substitute(vv, *subs) if subs else vv, (nv, t))
                e = z3.substitute(z3.substitute(zi(off), *subs) if subs else zi(off), (nv, t))
                conds = [z3.substitute(z3.substitute(c, *subs) if subs else c, (nv, t)) for c in tr]
                if mentions(val, havoc_ids) or mentions(e, havoc_ids): continue
                if younger(val, s.loopctr) or younger(e, s.loopctr): continue
                conds = [c for c in conds if not younger(c, s.loopctr)]
                conds = [c for c in conds if not mentions(c, havoc_ids)]
                key = (k, str(ob), v, val.get_id(), e.get_id(), tuple(c.get_id() for c in conds))
                if key in seen: continue
                seen.add(key)
                v0 = entry.vars[v]
                def up(S, k=k, ob=ob, v=v, val=val, e=e, conds=conds, v0=v0):
                    return z3.ForAll([t], z3.Implies(z3.And(t >= zi(v0), t < zi(S.vars[v]), *conds), S.arr(k, ob)[e] == val), patterns=[S.arr(k, ob)[e]] if not z3.is_int_value(e) else [])
                C.append(("derived %s[%s] over %s: %s" % (k, short(e), v, short(val)), up))
                if v not in s.decr: continue
                def dn(S, k=k, ob=ob, v=v, val=val, e=e, conds=conds, v0=v0):
                    return z3.ForAll([t], z3.Implies(z3.And(t <= zi(v0), t > zi(S.vars[v]), *conds), S.arr(k, ob)[e] == val), patterns=[S.arr(k, ob)[e]])
                C.append(("derived-down %s[%s] over %s" % (k, short(e), v), dn))
        return C
    def from_templates(s, fr, entry, h, vs, hdr):
        import inspect, itertools
        fn = fr.fn
        C = []
        live = fn.live[hdr]
        intv = sorted([v for v in live if isinstance(fn.vars[v], TInt) and fn.vars[v].w >= 32 and entry.vars.get(v) is not None])
        realv = sorted([v for v in live if isinstance(fn.vars[v], TFP) and entry.vars.get(v) is not None])
        ptrv = sorted([v for v in live if isinstance(fn.vars[v], TPtr) and isinstance(entry.vars.get(v), Ptr)])
        boolv = []
        modi = [v for v in intv if v in vs]
        # integer variables modified in any enclosing loop
        enc = set()
        for hd, bd in fn.loops.items():
            if hdr in bd: enc |= s.scan_mods(fn, bd)[2]
        modenc = [v for v in intv if v in enc]
        for ti, tm in enumerate(s.con.templates):
            ps = [q.name for q in inspect.signature(tm).parameters.values() if q.default is q.empty][1:]     # first: Ctx
            doms = []
            for p in ps:
                if p.startswith("kd"): doms.append([("v", v) for v in modenc if v in s.decr or v not in vs])
                elif p.startswith("k"): doms.append([("v", v) for v in modenc])
                elif p.startswith("n"): doms.append([("v", v) for v in intv])
                elif p.startswith("x"): doms.append([("v", v) for v in realv])
                elif p.startswith("pf"):
                    doms.append([("v", v) for v in ptrv if not any(isinstance(a, Ptr) and same(a.obj, entry.vars[v].obj) for a in s.args) and not same(entry.vars[v].obj, 0)] +
                                [("m", m) for m in sorted(fn.memallocas) if m in entry.env])
                elif p.startswith("p"): doms.append([("v", v) for v in ptrv] + [("m", m) for m in sorted(fn.memallocas) if m in entry.env])
                else: raise Unsupported("template parameter " + p)
            for combo in itertools.product(*doms):
                if len(set(combo)) < len(combo): continue
                def cand(S, tm=tm, combo=combo):
                    c = Ctx(s, s.args, s.S0, S)
                    c.entry = entry; c.proving = True
                    vals = [S.vars[n] if k == "v" else S.env[n] for k, n in combo]
                    r = tm(c, *vals)
                    if isinstance(r, (list, tuple)): r = z3.And([zb(q) for _, q in norm(r)])
                    return zb(r)
                try: 
                    r = cand(entry)
                except SkipTemplate: continue
                C.append(("T%d(%s)" % (ti, ",".join(n for _, n in combo)), cand))
        return C
    # ------------------------------------------------------------ a whole function
    def verify(s, name):
        con = s.contracts[name]
        fn = s.prog.find(name)
        s.cur = con; s.con = con; s.deadline = time.time() + s.budget
        if fn is None: raise Unsupported("function %s not found" % name)
        s.cur.name = name
        s.rec_writes = None; s.loopstack = []; s.loopmemo = {}; s.kept = {}; s.invcount = 0
        s.ax = []; s.recs = []; s.recax = {}; s.recnames = set(); s._ra = {}
        smt.NODIST[0] = con.nodist
        if con.timeout: s.ms = con.timeout
        s.ms *= s.msx
        s.nosafety = con.nosafety
        smt.USED["mul"] = False; smt.USED["div"] = False
        s.keyset = {"double", "i64", "ptr", "#live"} | set(con.keys)
        s.keyset = s.collect_keys(fn) | set(con.keys) | {"#live"}
        st = State(s.w)
        st.alloc = z3.Int("alloc0")
        st.assume(st.alloc > 0)
        st.env = {}; st.vars = {}
        args = []
        for i, (pn, ty, at) in enumerate(fn.params):
            if isinstance(ty, TPtr):
                if i in con.fnargs: v = con.fnargs[i](s) if callable(con.fnargs[i]) else con.fnargs[i]
                else:
                    v = Ptr(z3.Int("arg%d" % i), z3.Int("arg%doff" % i) if i in con.interior else 0, "@" if i in con.bytes else None)
                    st.assume(v.obj >= 0, v.obj < st.alloc)
                    if i in con.interior: st.assume(zi(v.off) >= 0)
            elif isinstance(ty, TFP): v = z3.Real("arg%d" % i)
            elif isinstance(ty, TInt):
                if ty.w == 1: v = z3.Bool("arg%d" % i)
                else:
                    v = z3.Int("arg%d" % i)
                    if ty.w == 64: st.assume(v >= 0)
                    if ty.w == 8: st.assume(v >= 0, v < 256)
            else: raise Unsupported("parameter type %r" % ty)
            args.append(v)
            st.env[pn] = v
        for k in sorted(s.keyset):
            st.H(k)
            s.closed(st, k)
        o = z3.Int("o!l")
        S0 = st.copy()
        s.S0 = S0; s.args = args
        c = Ctx(s, args, S0)
        s.c0 = c
        s.sticky = set()
        if con.prep: con.prep(c); s.sticky = set(s.recax)
        for lab, q in norm(con.requires(c)): st.assume(zb(q))
        S0.pc = list(st.pc)
        # vacuity: the precondition must not be contradictory
        r, _ = z3_try(s.asm(st) + axioms(), z3.BoolVal(False), 1500)
        s.vacuous = (r == z3.unsat)
        s.cur_assigns = list(con.assigns(c))
        for l in con.lemmas: st.assume(*[zb(q) for _, q in norm(l(c))])
        if con.inducts:
            for lab, P, n in con.inducts(c):
                s.oblige(st.copy(), P(0), "induction base: " + lab, "lemma", None, True)
                m = fresh("m", I); h = st.copy()
                h.assume(m >= 0, m < zi(n), zb(P(m)))
                s.oblige(h, P(iadd(m, 1)), "induction step: " + lab, "lemma", None, True)
                st.assume(zb(P(n)))
            S0.pc = list(st.pc)
        fr = Frame(fn)
        st.trail = []
        outs = s.run(fr, st, fn.entry, 0, None, None, True)
        rets = 0; sound = False
        for oc in outs:
            assert oc[0] == "ret", oc[0]
            n, rv = oc[1], oc[2]
            if s.infeasible(n): continue
            rets += 1
            if not sound:     # a contradiction among the assumptions collected on the way would make every obligation hold
                r, _ = z3_try(s.asm(n) + axioms(), z3.BoolVal(False), 700)
                sound = r != z3.unsat
            c2 = Ctx(s, args, S0, n, rv); c2.ghost = c.ghost; c2.proving = True
            if con.hints:
                for lab, q in norm(con.hints(c2)):
                    s.oblige(n, q, "lemma: " + lab, "lemma", None, True)
            for lab, q in norm(con.ensures(c2)):
                s.oblige(n.copy(), q, "ensures: " + lab, "ensures", None, True)
            # frame
            for k in sorted(n.heap):
                if k == "#live": pass
                Hc, H0 = n.H(k), S0.H(k)
                if Hc.eq(H0): continue
                o = z3.Int("o!x")
                pr = s.assign_pred(k)
                s.oblige(n.copy(), z3.ForAll([o], z3.Implies(z3.And(o < S0.alloc, z3.Not(pr(o)), *([o > 0] if True else [])), Hc[o] == H0[o])),
                         "frame: %s unchanged outside assigns" % k, "frame", None, True)
                if k not in FLAT:
                    for a in s.cur_assigns:
                        if a[0] == k and len(a) > 2 and not callable(a[1]):
                            j = z3.Int("j!x"); ob = a[1].obj if isinstance(a[1], Ptr) else a[1]
                            s.oblige(n.copy(), z3.Implies(zi(ob) > 0, z3.ForAll([j], z3.Implies(s.outside(k, ob, j), n.arr(k, ob)[j] == S0.arr(k, ob)[j]))),
                                     "frame: cells of %s outside the assigned range unchanged" % k, "frame", None, True)
            if not con.allocs:
                s.oblige(n.copy(), z3.BoolVal(True), "no allocation escapes", "frame", None, False)
        s.reach = rets
        if rets and not sound and not con.noreach:
            s.obls.append(Obl(name, "the assumptions of the contracts called are consistent", "vacuity", None, False, "engine", 0))
        if rets == 0 and not con.noreach:
            s.obls.append(Obl(name, "function can return normally under its precondition", "vacuity", None, False, "engine", 0))
        if s.vacuous:
            s.obls.append(Obl(name, "precondition is satisfiable", "vacuity", None, False, "engine", 0))
        return s.obls
    def collect_keys(s, fn, seen=None):
        seen = seen if seen is not None else set()
        ks = set()
        for b in fn.order:
            for x in fn.blocks[b]:
                if x.op in ("load", "store"):
                    p = x.a[0] if x.op == "load" else x.a[1]
                    if p.k == "l" and p.v in fn.vars: continue
                    try: ks.add(s.static_key(fn, p, x.ty))
                    except Unsupported: pass
                elif x.op == "call" and x.x.k == "g":
                    nm = x.x.v
                    if nm in s.contracts and nm not in s.con.inline:
                        ks |= set(s.contracts[nm].keys); continue
                    g = s.prog.find(nm, fn.module) if not hasattr(s, "bi_" + nm.replace(".", "_")) and nm not in NOP else None
                    if g is not None and nm not in seen:
                        seen.add(nm); ks |= s.collect_keys(g, seen)
        return ks

class SkipTemplate(Exception): pass

def fr_path(fr):
    r = []
    while fr is not None: r.append(fr.fn.name); fr = fr.parent
    return tuple(r)

def norm(r):
    """list of clauses -> list of (label, formula)"""
    if r is None: return []
    if not isinstance(r, (list, tuple)): r = [r]
    out = []
    for i, q in enumerate(r):
        if isinstance(q, tuple) and len(q) == 2 and isinstance(q[0], str): out.append(q)
        elif isinstance(q, (list, tuple)): out += norm(q)
        else: out.append(("#%d" % i, q))
    return out

def divexact(n, k):
    n = cint(n)
    if isinstance(n, int): return n // k if n % k == 0 else None
    d, c = lin(n)
    if c % k: return None
    for q, x in d.values():
        if q % k: return None if k != 1 else None
    return unlin({i: (q // k, x) for i, (q, x) in d.items()}, c // k)

def mentions(t, ids, _c=None):
    t = cint(t)
    if isinstance(t, int) or not z3.is_expr(t): return False
    st = [t]; seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: return True
        if z3.is_quantifier(x): st.append(x.body())
        elif not z3.is_var(x): st += x.children()
    return False

def younger(t, n):
    """mentions a constant created after counter value n"""
    t = cint(t)
    if isinstance(t, int) or not z3.is_expr(t): return False
    st = [t]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_var(x): continue
        if x.num_args() == 0:
            nm = x.decl().name() if z3.is_app(x) else ""
            k = nm.rfind("!")
            if k > 0 and nm[k + 1:].isdigit() and int(nm[k + 1:]) > n: return True
        st += x.children()
    return False

def ineqs(c):
    """atoms as a <= b pairs of integer terms"""
    neg = False
    while z3.is_not(c): neg = not neg; c = c.arg(0)
    if not z3.is_app(c): return []
    if z3.is_and(c) and not neg or z3.is_or(c) and neg:
        r = []
        for y in c.children(): r += ineqs(z3.Not(y) if neg else y)
        return r
    k = c.decl().kind()
    if c.num_args() != 2 or not z3.is_int(c.arg(0)): return []
    a, b = c.arg(0), c.arg(1)
    if k == z3.Z3_OP_LE: return [(a, b)] if not neg else [(iadd(b, 1), a)]
    if k == z3.Z3_OP_LT: return [(iadd(a, 1), b)] if not neg else [(b, a)]
    if k == z3.Z3_OP_GE: return [(b, a)] if not neg else [(iadd(a, 1), b)]
    if k == z3.Z3_OP_GT: return [(iadd(b, 1), a)] if not neg else [(a, b)]
    if k == z3.Z3_OP_EQ: return [(a, b), (b, a)]
    return []

def short(t):
    r = str(t).replace("\n", " ")
    return r if len(r) < 60 else r[:57] + "..."
