"""LLVM textual IR front end.

Every run compiles /repo's C sources with clang -O0 (no optimisation passes) and
parses the resulting IR.  Nothing of the code is dropped except debug
information, alignment/attributes, and the variadic printf-family calls."""
import re, os, subprocess, hashlib, sys, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
CLANG = "clang-18" if shutil.which("clang-18") else "clang"


def include_flags(repo=None):
    repo = repo or REPO
    fl = ["-I" + repo + "/include", "-I" + repo + "/c3"]
    for d in sorted(glob.glob(repo + "/c3/lib_*")):
        fl.append("-I" + d)
    return fl


def all_sources(repo=None):
    repo = repo or REPO
    out = []
    for f in sorted(glob.glob(repo + "/c3/lib_*/*.c")):
        if f.endswith("lib_funcs/polynomials.c"):
            continue
        out.append(f)
    return out


def compile_ll(src, out, extra=()):
    cmd = [CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g",
           "-std=c99", "-w", "-D_GNU_SOURCE"] + include_flags() + list(extra) + ["-emit-llvm", "-S", src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("clang failed on %s:\n%s" % (src, r.stderr[:2000]))
    return out

# ---------------------------------------------------------------- types
class T:
    __slots__ = ()

class TInt(T):
    __slots__ = ("w",)
    def __init__(s, w): s.w = w
    def __repr__(s): return "i%d" % s.w
class TFP(T):
    __slots__ = ("k",)
    def __init__(s, k): s.k = k
    def __repr__(s): return s.k
class TPtr(T):
    def __repr__(s): return "ptr"
class TVoid(T):
    def __repr__(s): return "void"
class TStruct(T):
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __repr__(s): return "%" + s.name
class TLit(T):
    __slots__ = ("elts",)
    def __init__(s, e): s.elts = e
    def __repr__(s): return "{%s}" % ",".join(map(repr, s.elts))
class TArr(T):
    __slots__ = ("n", "e")
    def __init__(s, n, e): s.n = n; s.e = e
    def __repr__(s): return "[%d x %r]" % (s.n, s.e)
class TVec(T):
    __slots__ = ("n", "e")
    def __init__(s, n, e): s.n = n; s.e = e
    def __repr__(s): return "<%d x %r>" % (s.n, s.e)

PTR = TPtr(); VOID = TVoid(); I64 = TInt(64); I32 = TInt(32); I1 = TInt(1); I8 = TInt(8); DBL = TFP("double")

TOK = re.compile(r'''\s*(
   c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*" |
   %"[^"]*" | @"[^"]*" |
   %[-a-zA-Z$._0-9]+ | @[-a-zA-Z$._0-9]+ | ![-a-zA-Z$._0-9]* | \#\d+ |
   0x[KMLHR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ |
   \.\.\. | [a-zA-Z_][a-zA-Z_0-9.]* | [=,(){}\[\]<>*:|]
)''', re.X)


def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise SyntaxError("token? %r" % s[i:i+60])
        t = m.group(1)
        out.append(t); i = m.end()
    return out

class Op:
    """operand"""
    __slots__ = ("k", "v", "ty")
    def __init__(s, k, v, ty=None): s.k = k; s.v = v; s.ty = ty
    def __repr__(s): return "%s:%s" % (s.k, s.v)

class Instr:
    __slots__ = ("op", "dst", "ty", "a", "x", "line", "text")
    def __init__(s, op, dst=None, ty=None, a=(), x=None): s.op = op; s.dst = dst; s.ty = ty; s.a = a; s.x = x; s.line = None; s.text = ""
    def __repr__(s): return "%s=%s %s %s" % (s.dst, s.op, s.a, s.x)

ATTRS = set("noundef nonnull signext zeroext inreg nocapture readonly writeonly returned noalias immarg inbounds nsw nuw exact volatile tail musttail notail fast nnan ninf nsz arcp contract afn reassoc dso_local local_unnamed_addr unnamed_addr fastcc ccc readnone nofree allocptr allocalign noreturn nounwind byval sret dereferenceable dereferenceable_or_null align disjoint".split())

class P:
    def __init__(s, toks, structs): s.t = toks; s.i = 0; s.structs = structs
    def pk(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else None
    def nx(s):
        v = s.t[s.i]; s.i += 1; return v
    def eat(s, x):
        if s.pk() == x: s.i += 1; return True
        return False
    def exp(s, x):
        if not s.eat(x): raise SyntaxError("expected %s got %s in %s" % (x, s.pk(), " ".join(s.t)))
    def attrs(s):
        got = []
        while s.pk() in ATTRS:
            a = s.nx(); got.append(a)
            if a in ("align",) and re.match(r"\d+$", s.pk() or ""): s.nx()
            elif s.pk() == "(":
                d = 0
                st = s.i
                while True:
                    x = s.nx()
                    if x == "(": d += 1
                    if x == ")":
                        d -= 1
                        if d == 0: break
                if a in ("byval", "sret"):
                    got[-1] = (a, s.t[st + 1])
        return got
    def type(s):
        t = s.nx()
        if t == "void": r = VOID
        elif t == "ptr": r = PTR
        elif t in ("double", "float", "x86_fp80", "fp128"): r = TFP(t)
        elif re.match(r"i\d+$", t): r = TInt(int(t[1:]))
        elif t[0] == "%": r = TStruct(t[1:].strip('"'))
        elif t == "[":
            n = int(s.nx()); s.exp("x"); e = s.type(); s.exp("]"); r = TArr(n, e)
        elif t == "<":
            if s.pk() == "{":
                r = s.type(); s.exp(">")
            else:
                n = int(s.nx()); s.exp("x"); e = s.type(); s.exp(">"); r = TVec(n, e)
        elif t == "{":
            el = []
            if not s.eat("}"):
                while True:
                    el.append(s.type())
                    if s.eat("}"): break
                    s.exp(",")
            r = TLit(el)
        elif t in ("label", "metadata", "token", "opaque"): r = TFP(t)
        else: raise SyntaxError("type? %s in %s" % (t, " ".join(s.t)))
        # function type  "i32 (ptr, ...)"
        return r
    def val(s, ty):
        t = s.nx()
        if t[0] == "%": return Op("l", t[1:].strip('"'), ty)
        if t[0] == "@": return Op("g", t[1:].strip('"'), ty)
        if t == "null": return Op("null", None, ty)
        if t in ("undef", "poison"): return Op("undef", None, ty)
        if t == "true": return Op("i", 1, ty)
        if t == "false": return Op("i", 0, ty)
        if t == "zeroinitializer": return Op("zero", None, ty)
        if re.match(r"-?\d+$", t): return Op("i", int(t), ty)
        if re.match(r"0x[0-9A-Fa-f]+$", t) or re.match(r"-?\d+\.\d", t):
            import struct
            if t.startswith("0x"):
                return Op("f", struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0], ty)
            return Op("f", float(t), ty)
        if t == "getelementptr":
            s.eat("inbounds"); s.exp("(")
            bt = s.type(); s.exp(",")
            pt = s.type(); b = s.val(pt); idx = []
            while s.eat(","):
                it = s.type(); idx.append(s.val(it))
            s.exp(")")
            return Op("cgep", (bt, b, idx), ty)
        if t in ("bitcast", "ptrtoint", "inttoptr"):
            s.exp("("); t1 = s.type(); v = s.val(t1); s.exp("to"); s.type(); s.exp(")")
            return Op("cast", (t, v), ty)
        if t == "[" or t == "{":
            close = "]" if t == "[" else "}"
            el = []
            if not s.eat(close):
                while True:
                    et = s.type(); el.append(s.val(et))
                    if s.eat(close): break
                    s.exp(",")
            return Op("agg", el, ty)
        if t.startswith('c"'): return Op("str", t, ty)
        raise SyntaxError("value? %s in %s" % (t, " ".join(s.t)))
    def tv(s):
        ty = s.type(); a = s.attrs(); v = s.val(ty); return v

BIN = set("add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem".split())
CAST = set("sext zext trunc sitofp uitofp fptosi fptoui fpext fptrunc bitcast ptrtoint inttoptr".split())

class Function:
    def __init__(s, name, module):
        s.name = name; s.module = module; s.params = []; s.ret = None; s.vararg = False
        s.blocks = {}; s.order = []; s.entry = None
        s.body_text = None; s.parsed = False; s.hdr = None; s.sret = None
    def parse(s):
        if s.parsed: return s
        s.parsed = True
        lines = s.body_text
        # allocate the implicit number of the entry block is irrelevant (value names kept)
        cur = None
        i = 0
        first = True
        while i < len(lines):
            ln = lines[i]; i += 1
            st = ln.strip()
            if not st or st.startswith(";"): continue
            m = re.match(r'^("[^"]+"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = m.group(1).strip('"'); s.blocks[cur] = []; s.order.append(cur)
                if first: s.entry = cur; first = False
                continue
            if first:
                cur = "<entry>"; s.entry = cur; s.blocks[cur] = []; s.order.append(cur); first = False
            if st.startswith("switch") and "[" in st and "]" not in st:
                while "]" not in lines[i]:
                    st += " " + lines[i].strip(); i += 1
                st += " " + lines[i].strip(); i += 1
            ins = parse_instr(st, s.module)
            if ins is not None: s.blocks[cur].append(ins)
        s.cfg()
        return s
    def cfg(s):
        s.succ = {}; s.pred = {b: [] for b in s.order}
        for b in s.order:
            # truncate after the first terminator
            ins = s.blocks[b]
            for k, x in enumerate(ins):
                if x.op in ("br", "condbr", "switch", "ret", "unreachable"):
                    del ins[k+1:]; break
            t = ins[-1]
            if t.op == "br": sc = [t.x]
            elif t.op == "condbr": sc = list(t.x)
            elif t.op == "switch": sc = [t.x[0]] + [c[1] for c in t.x[1]]
            else: sc = []
            s.succ[b] = sc
        # reachable
        seen = set(); st = [s.entry]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b); st += s.succ[b]
        s.order = [b for b in s.order if b in seen]
        for b in s.order:
            for c in s.succ[b]: s.pred.setdefault(c, []).append(b)
        for b in list(s.pred):
            s.pred[b] = [p for p in s.pred[b] if p in seen]
        # dominators
        dom = {b: set(s.order) for b in s.order}; dom[s.entry] = {s.entry}
        ch = True
        while ch:
            ch = False
            for b in s.order:
                if b == s.entry: continue
                ps = [dom[p] for p in s.pred[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        s.dom = dom
        s.loops = {}
        for b in s.order:
            for c in s.succ[b]:
                if c in dom[b]:
                    body = s.loops.setdefault(c, {c})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += s.pred[x]
        # allocas that never escape: kept as mutable scalar variables
        s.vars = {}; esc = set(); al = {}
        for b in s.order:
            for x in s.blocks[b]:
                if x.op == "alloca": al[x.dst] = x
        for b in s.order:
            for x in s.blocks[b]:
                if x.op == "load": continue
                if x.op == "store":
                    if x.a[0].k == "l" and x.a[0].v in al: esc.add(x.a[0].v)
                    continue
                for o in x.a:
                    if isinstance(o, Op) and o.k == "l" and o.v in al: esc.add(o.v)
        for n, x in al.items():
            if n not in esc and isinstance(x.ty, (TInt, TFP, TPtr)) and x.x is None: s.vars[n] = x.ty
        s.memallocas = {n: x for n, x in al.items() if n not in s.vars}
        # liveness of variables at block entry
        use = {}; dfn = {}
        for b in s.order:
            u = set(); d = set()
            for x in s.blocks[b]:
                if x.op == "load" and x.a[0].k == "l" and x.a[0].v in s.vars and x.a[0].v not in d: u.add(x.a[0].v)
                if x.op == "store" and x.a[1].k == "l" and x.a[1].v in s.vars: d.add(x.a[1].v)
            use[b] = u; dfn[b] = d
        live = {b: set() for b in s.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(s.order):
                o = set()
                for c in s.succ[b]: o |= live[c]
                n = use[b] | (o - dfn[b])
                if n != live[b]: live[b] = n; ch = True
        s.live = live
        s.defs = {}
        for b in s.order:
            for x in s.blocks[b]:
                if x.dst: s.defs[x.dst] = x

def parse_instr(st, mod):
    text = st
    dbg = None
    m = re.search(r", !dbg !(\d+)", st)
    if m: dbg = m.group(1)
    st = re.sub(r", !(dbg|llvm\.loop|tbaa|srcloc|nosanitize|prof) !\d+", "", st)
    if "call void @llvm.dbg." in st or "call void @llvm.lifetime" in st: return None
    p = P(tokenize(st), mod.structs)
    dst = None
    if p.pk(1) == "=":
        dst = p.nx()[1:].strip('"'); p.nx()
    op = p.nx()
    I = None
    if op in ("tail", "musttail", "notail"): op = p.nx()
    if op == "load":
        fl = p.attrs(); ty = p.type(); p.exp(","); v = p.tv(); I = Instr("load", dst, ty, [v])
    elif op == "store":
        p.attrs(); v = p.tv(); p.exp(","); q = p.tv(); I = Instr("store", None, v.ty, [v, q])
    elif op == "alloca":
        ty = p.type(); n = None
        if p.eat(","):
            if p.pk() != "align":
                n = p.tv()
        I = Instr("alloca", dst, ty, [], n if (n is not None and not (n.k == "i" and n.v == 1)) else None)
    elif op == "getelementptr":
        p.attrs(); bt = p.type(); p.exp(","); b = p.tv(); idx = []
        while p.eat(","): idx.append(p.tv())
        I = Instr("gep", dst, PTR, [b] + idx, bt)
    elif op in BIN:
        fl = p.attrs(); ty = p.type(); a = p.val(ty); p.exp(","); b = p.val(ty); I = Instr("bin", dst, ty, [a, b], (op, fl))
    elif op == "fneg":
        p.attrs(); ty = p.type(); a = p.val(ty); I = Instr("fneg", dst, ty, [a])
    elif op in ("icmp", "fcmp"):
        p.attrs(); pr = p.nx(); ty = p.type(); a = p.val(ty); p.exp(","); b = p.val(ty); I = Instr(op, dst, ty, [a, b], pr)
    elif op in CAST:
        p.attrs(); a = p.tv(); p.exp("to"); ty = p.type(); I = Instr("cast", dst, ty, [a], op)
    elif op == "br":
        if p.pk() == "label":
            p.nx(); I = Instr("br", None, None, [], p.nx()[1:].strip('"'))
        else:
            c = p.tv(); p.exp(","); p.exp("label"); t = p.nx()[1:].strip('"'); p.exp(","); p.exp("label"); f = p.nx()[1:].strip('"')
            I = Instr("condbr", None, None, [c], (t, f))
    elif op == "switch":
        v = p.tv(); p.exp(","); p.exp("label"); d = p.nx()[1:].strip('"'); p.exp("["); cs = []
        while not p.eat("]"):
            c = p.tv(); p.exp(","); p.exp("label"); cs.append((c.v, p.nx()[1:].strip('"')))
        I = Instr("switch", None, None, [v], (d, cs))
    elif op == "ret":
        if p.pk() == "void": I = Instr("ret", None, VOID, [])
        else: v = p.tv(); I = Instr("ret", None, v.ty, [v])
    elif op == "unreachable": I = Instr("unreachable")
    elif op == "phi":
        p.attrs(); ty = p.type(); inc = []
        while True:
            p.exp("["); v = p.val(ty); p.exp(","); b = p.nx()[1:].strip('"'); p.exp("]"); inc.append((v, b))
            if not p.eat(","): break
        I = Instr("phi", dst, ty, [v for v, _ in inc], [b for _, b in inc])
    elif op == "select":
        p.attrs(); c = p.tv(); p.exp(","); a = p.tv(); p.exp(","); b = p.tv(); I = Instr("select", dst, a.ty, [c, a, b])
    elif op == "call":
        p.attrs(); ty = p.type(); p.attrs()
        if p.pk() == "(":   # function type
            d = 0
            while True:
                x = p.nx()
                if x == "(": d += 1
                if x == ")":
                    d -= 1
                    if d == 0: break
        c = p.nx()
        callee = Op("g" if c[0] == "@" else "l", c[1:].strip('"'), PTR)
        p.exp("("); args = []
        if not p.eat(")"):
            while True:
                at = p.type(); ab = p.attrs()
                if isinstance(at, TFP) and at.k == "metadata":
                    return None
                v = p.val(at)
                args.append(v)
                if p.eat(")"): break
                p.exp(",")
        I = Instr("call", dst, ty, args, callee)
        if callee.k == "l": I.a = args + [callee]
    elif op in ("extractvalue",):
        v = p.tv(); idx = []
        while p.eat(","): idx.append(int(p.nx()))
        I = Instr(op, dst, None, [v], idx)
    elif op in ("insertvalue",):
        v = p.tv(); p.exp(","); w = p.tv(); idx = []
        while p.eat(","): idx.append(int(p.nx()))
        I = Instr(op, dst, v.ty, [v, w], idx)
    elif op in ("extractelement",):
        v = p.tv(); p.exp(","); w = p.tv(); I = Instr(op, dst, None, [v, w])
    elif op in ("insertelement",):
        v = p.tv(); p.exp(","); w = p.tv(); p.exp(","); z = p.tv(); I = Instr(op, dst, v.ty, [v, w, z])
    elif op == "freeze":
        v = p.tv(); I = Instr("freeze", dst, v.ty, [v])
    else:
        I = Instr("unsupported:" + op, dst)
    I.line = mod.dbgline(dbg) if dbg else None
    I.text = text
    return I

class Module:
    def __init__(s, path, src):
        s.path = path; s.src = src; s.structs = {}; s.funcs = {}; s.globals = {}; s.decls = set()
        s.fieldnames = {}
        s._lines = {}
        txt = open(path).read().split("\n")
        i = 0; md = {}
        while i < len(txt):
            ln = txt[i]
            if ln.startswith("define"):
                m = re.search(r"@([-a-zA-Z$._0-9]+)\(", ln)
                f = Function(m.group(1), s); f.hdr = ln
                body = []; i += 1
                while txt[i] != "}": body.append(txt[i]); i += 1
                f.body_text = body
                s.funcs[f.name] = f
                s.parse_hdr(f)
            elif ln.startswith("%") and " = type " in ln:
                n, t = ln.split(" = type ", 1)
                s.structs[n[1:].strip('"')] = t
            elif ln.startswith("@"):
                n = re.match(r'@("[^"]+"|[-a-zA-Z$._0-9]+) = (.*)', ln)
                s.globals[n.group(1).strip('"')] = n.group(2)
            elif ln.startswith("!"):
                m = re.match(r"!(\d+) = (.*)", ln)
                if m: md[m.group(1)] = m.group(2)
            i += 1
        s.md = md
        for k in list(s.structs):
            t = s.structs[k]
            if t.strip() == "opaque": s.structs[k] = None
            else:
                s.structs[k] = P(tokenize(t), s.structs).type().elts
        # field names
        for k, v in md.items():
            if "DICompositeType(" in v and ("DW_TAG_structure_type" in v) and "elements:" in v:
                n = re.search(r'name: "([^"]+)"', v)
                e = re.search(r"elements: !(\d+)", v)
                if n and e:
                    s.fieldnames.setdefault("struct." + n.group(1), s.members(e.group(1)))
        s.enums = {}
        for k, v in md.items():
            if "DIEnumerator(" in v:
                m = re.search(r'name: "([^"]+)", value: (-?\d+)', v)
                if m: s.enums[m.group(1)] = int(m.group(2))
        # typedef'd anonymous structs
        for k, v in md.items():
            if "DW_TAG_typedef" in v:
                n = re.search(r'name: "([^"]+)"', v); b = re.search(r"baseType: !(\d+)", v)
                if n and b and b.group(1) in md and "DW_TAG_structure_type" in md[b.group(1)]:
                    e = re.search(r"elements: !(\d+)", md[b.group(1)])
                    if e: s.fieldnames.setdefault("struct." + n.group(1), s.members(e.group(1)))
    def members(s, eid):
        ids = re.findall(r"!(\d+)", s.md[eid])
        out = []
        for i in ids:
            m = re.search(r'name: "([^"]+)"', s.md[i])
            out.append(m.group(1) if m else "?")
        return out
    def dbgline(s, d):
        m = re.search(r"line: (\d+)", s.md.get(d, ""))
        return int(m.group(1)) if m else None
    def parse_hdr(s, f):
        h = f.hdr
        h = h[:h.rindex("{")]
        h = re.sub(r"!dbg !\d+", "", h)
        p = P(tokenize(h), s.structs)
        p.nx()
        while p.pk() in ATTRS or p.pk() in ("internal", "linkonce_odr", "weak", "hidden", "private", "available_externally"):
            p.nx()
        f.ret = p.type(); p.attrs()
        p.nx(); p.exp("(")
        if not p.eat(")"):
            while True:
                if p.eat("..."): f.vararg = True
                else:
                    t = p.type(); at = p.attrs(); n = p.nx()
                    f.params.append((n[1:].strip('"'), t, at))
                if p.eat(")"): break
                p.exp(",")

class Program:
    """All translation units; functions are looked up by name, file-local ones by module first."""
    def __init__(s): s.mods = []; s.funcs = {}; s.structs = {}; s.fieldnames = {}; s.globals = {}; s.enums = {}
    def add(s, mod):
        s.mods.append(mod)
        for n, f in mod.funcs.items():
            if n in s.funcs and "internal" in f.hdr.split("@")[0]: continue
            s.funcs[n] = f
        for k, v in mod.structs.items():
            if v is not None or k not in s.structs: s.structs[k] = v
        for k, v in mod.fieldnames.items():
            if k not in s.fieldnames: s.fieldnames[k] = v
        s.enums.update(mod.enums)
    def find(s, name, module=None):
        if module is not None and name in module.funcs: return module.funcs[name].parse()
        f = s.funcs.get(name)
        return f.parse() if f else None
    def field_index(s, sname, fname):
        return s.fieldnames["struct." + sname].index(fname)

def load_program(files=None, workdir=None, extra_sources=()):
    """compile and parse; files = list of basenames (without dir) or None for everything"""
    own = workdir is None
    workdir = workdir or tempfile.mkdtemp(prefix="vf_ir_")
    srcs = all_sources()
    if files is not None:
        srcs = [f for f in srcs if os.path.basename(f) in files]
        miss = set(files) - {os.path.basename(f) for f in srcs}
        if miss: raise RuntimeError("sources missing: %s" % miss)
    srcs += list(extra_sources)
    def one(f):
        o = os.path.join(workdir, os.path.basename(f)[:-2] + ".ll")
        compile_ll(f, o)
        return (f, o)
    pr = Program()
    try:
        with ThreadPoolExecutor(8) as ex:
            for f, o in ex.map(one, srcs):
                pr.add(Module(o, f))
    finally:
        if own: shutil.rmtree(workdir, ignore_errors=True)
    return pr

if __name__ == "__main__":
    import time
    t = time.time()
    pr = load_program()
    n = 0
    for m in pr.mods:
        for f in m.funcs.values():
            f.parse(); n += 1
            for b in f.order:
                for x in f.blocks[b]:
                    if x.op.startswith("unsupp"): print(f.name, x.text)
    print(n, "functions", time.time() - t)
