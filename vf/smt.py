"""Solver front end: z3 (in process, e-matching only) with z3-new / cvc5 as fall-backs."""
import z3, time, subprocess, tempfile, os, shutil
from fractions import Fraction

I = z3.IntSort(); R = z3.RealSort(); B = z3.BoolSort()
AI = z3.ArraySort(I, I)
STATS = {"queries": 0, "time": 0.0, "z3": 0, "z3mbqi": 0, "z3new": 0, "cvc5": 0}

MUL = z3.Function("imul", I, I, I)
IDIV = z3.Function("idiv", I, I, I)
IREM = z3.Function("irem", I, I, I)

def isnum(x): return isinstance(x, int) and not isinstance(x, bool)

def zi(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    return x

def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x

def zr(x):
    if isinstance(x, (int, Fraction)): return z3.RealVal(str(Fraction(x)))
    if isinstance(x, float): return z3.RealVal(str(Fraction(x)))
    return x

def cint(x):
    """python int if the term is a numeral"""
    if isinstance(x, int): return x
    if z3.is_int_value(x): return x.as_long()
    return x

# ---- linear normal form of integer terms: {term_id: (coef, term)}, const
def lin(t):
    t = cint(t)
    if isinstance(t, int): return {}, t
    d = {}; c = 0
    st = [(1, t)]
    while st:
        k, x = st.pop()
        if z3.is_int_value(x): c += k * x.as_long(); continue
        dk = x.decl().kind()
        if dk == z3.Z3_OP_ADD:
            for y in x.children(): st.append((k, y))
        elif dk == z3.Z3_OP_SUB:
            ch = x.children(); st.append((k, ch[0]))
            for y in ch[1:]: st.append((-k, y))
        elif dk == z3.Z3_OP_UMINUS: st.append((-k, x.arg(0)))
        elif dk == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            st.append((k * x.arg(0).as_long(), x.arg(1)))
        elif dk == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(1)):
            st.append((k * x.arg(1).as_long(), x.arg(0)))
        else:
            i = x.get_id()
            if i in d: d[i] = (d[i][0] + k, x)
            else: d[i] = (k, x)
    return {i: v for i, v in d.items() if v[0] != 0}, c

def unlin(d, c):
    if not d: return c
    items = sorted(d.values(), key=lambda p: p[1].get_id())
    ts = [x if k == 1 else k * x for k, x in items]
    r = ts[0]
    for y in ts[1:]: r = r + y
    if c: r = r + c
    return r

def iadd(a, b):
    a = cint(a); b = cint(b)
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    d1, c1 = lin(a); d2, c2 = lin(b)
    d = dict(d1)
    for i, (k, x) in d2.items():
        if i in d:
            kk = d[i][0] + k
            if kk: d[i] = (kk, x)
            else: del d[i]
        else: d[i] = (k, x)
    return unlin(d, c1 + c2)

def iscale(k, a):
    a = cint(a)
    if isinstance(a, int): return k * a
    if k == 1: return a
    d, c = lin(a)
    return unlin({i: (k * q, x) for i, (q, x) in d.items() if k * q}, k * c)

def isub(a, b): return iadd(a, iscale(-1, b))

def monom(t):
    """factor list of a product term"""
    if z3.is_app(t) and t.decl().eq(MUL): return monom(t.arg(0)) + monom(t.arg(1))
    return [t]

NODIST = [False]
USED = {"mul": False, "div": False}

def mkmono(fs):
    fs = sorted(fs, key=lambda x: x.get_id())
    r = fs[0]
    for f in fs[1:]: r = MUL(r, f)
    return r

def imul(a, b):
    a = cint(a); b = cint(b)
    if isinstance(a, int): return iscale(a, b)
    if isinstance(b, int): return iscale(b, a)
    USED["mul"] = True
    if NODIST[0]:
        if a.get_id() > b.get_id(): a, b = b, a
        return MUL(a, b)
    d1, c1 = lin(a); d2, c2 = lin(b)
    r = c1 * c2
    for k, x in d1.values():
        if c2: r = iadd(r, iscale(k * c2, x))
    for k, x in d2.values():
        if c1: r = iadd(r, iscale(k * c1, x))
    for k, x in d1.values():
        for q, y in d2.values():
            r = iadd(r, iscale(k * q, mkmono(monom(x) + monom(y))))
    return r

def same(a, b):
    a = cint(a); b = cint(b)
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, int) or isinstance(b, int): return False
    if a.eq(b): return True
    d = cint(isub(a, b))
    return isinstance(d, int) and d == 0

def differ(a, b):
    d = cint(isub(a, b))
    return isinstance(d, int) and d != 0

x_, y_, n_, u_, v_ = z3.Ints("x! y! n! u! v!")
MUL_AX = [
    z3.ForAll([x_, y_], MUL(x_, y_) == MUL(y_, x_), patterns=[MUL(x_, y_)]),
    z3.ForAll([x_, y_], z3.And(z3.Implies(x_ == 0, MUL(x_, y_) == 0), z3.Implies(x_ == 1, MUL(x_, y_) == y_),
                               z3.Implies(z3.And(x_ >= 0, y_ >= 0), MUL(x_, y_) >= 0),
                               z3.Implies(z3.And(x_ >= 1, y_ >= 0), MUL(x_, y_) >= y_),
                               z3.Implies(z3.And(x_ >= 1, y_ >= 1), MUL(x_, y_) >= x_ + y_ - 1)), patterns=[MUL(x_, y_)]),
    z3.ForAll([x_, y_, n_], z3.Implies(z3.And(n_ >= 0, x_ < y_), MUL(x_, n_) + n_ <= MUL(y_, n_)),
              patterns=[z3.MultiPattern(MUL(x_, n_), MUL(y_, n_))]),
]
DIV_AX = [
    z3.ForAll([x_, y_], z3.Implies(z3.And(x_ >= 0, y_ > 0), z3.And(IREM(x_, y_) >= 0, IREM(x_, y_) < y_, IDIV(x_, y_) >= 0,
              x_ == MUL(IDIV(x_, y_), y_) + IREM(x_, y_))), patterns=[IREM(x_, y_)]),
    z3.ForAll([x_, y_], z3.Implies(z3.And(x_ >= 0, y_ > 0), z3.And(IREM(x_, y_) >= 0, IREM(x_, y_) < y_, IDIV(x_, y_) >= 0,
              x_ == MUL(IDIV(x_, y_), y_) + IREM(x_, y_))), patterns=[IDIV(x_, y_)]),
]

def axioms():
    r = []
    if USED["mul"] or USED["div"]: r += MUL_AX
    if USED["div"]: r += DIV_AX
    return r

def has_quant(e, cache={}):
    k = e.get_id()
    if k in cache: return cache[k][0]
    if z3.is_quantifier(e): r = True
    else: r = any(has_quant(c) for c in e.children())
    cache[k] = (r, e)
    return r

SHAKE = int(os.environ.get('VF_SHAKE', '0')) * 13
def quick_unsat(assum, ms=300):
    s = z3.SolverFor("QF_AUFLIA") if False else z3.Solver()
    s.set("rlimit", int(ms * 2000)); s.set("timeout", int(ms * 8)); s.set("auto_config", False); s.set("smt.mbqi", False); s.set("smt.solve_eqs", False)
    t = time.time()
    for a in assum:
        if not has_quant(a): s.add(a)
    r = s.check()
    STATS["time"] += time.time() - t; STATS["queries"] += 1
    return r == z3.unsat

def z3_try(assum, goal, ms, mbqi=False, seed=0, nl=None, simple=True):
    s = z3.SimpleSolver() if simple else z3.Solver()
    # the limit is counted in solver steps, so that the answer does not depend on the load of the machine; the wall-clock limit is only a backstop
    s.set("rlimit", int(ms * 600)); s.set("timeout", int(ms * 8)); s.set("auto_config", False); s.set("smt.mbqi", mbqi); s.set("smt.solve_eqs", False); s.set("random_seed", seed + SHAKE)
    if nl is not None: s.set("smt.arith.nl", nl)
    for a in assum: s.add(a)
    s.add(z3.Not(goal))
    return s.check(), s

def ext_try(assum, goal, secs, which):
    s = z3.Solver()
    for a in assum: s.add(a)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False, dir="/tmp")
    try:
        if which == "cvc5":
            txt = "(set-logic ALL)\n" + txt
        f.write(txt); f.close()
        if which == "z3new": cmd = ["z3-new", "-T:%d" % secs, f.name]
        else: cmd = ["cvc5", "--tlimit=%d" % (secs * 1000), f.name]
        if not shutil.which(cmd[0]): return "unknown"
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 5)
            o = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
        except subprocess.TimeoutExpired:
            o = "unknown"
        return o
    finally:
        os.unlink(f.name)

_nl = {}
def nlterm(e):
    k = e.get_id()
    if k in _nl: return _nl[k][0]
    r = False
    if z3.is_quantifier(e): r = nlterm(e.body())
    else:
        ch = e.children()
        dk = e.decl().kind() if z3.is_app(e) else None
        if dk == z3.Z3_OP_MUL and sum(1 for c in ch if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1: r = True
        elif dk == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]): r = True
        else: r = any(nlterm(c) for c in ch)
    _nl[k] = (r, e)
    return r
def has_nl(A, goal): return nlterm(goal) or any(nlterm(a) for a in A)
def prove(assum, goal, ms=3000, strong=False):
    """-> (proved?, backend)"""
    goal = zb(goal)
    if z3.is_true(goal): return True, "trivial"
    A = list(assum) + axioms()
    t = time.time(); STATS["queries"] += 1
    try:
        if not has_quant(goal):            # arithmetic and array facts often suffice; instantiating the quantified ones is the expensive part
            r, _ = z3_try([a for a in assum if not has_quant(a)], goal, min(ms, 2000) // 8, nl=False)
            if r == z3.unsat:
                STATS["z3"] += 1; return True, "z3"
        for nl in ((False, True) if has_nl(A, goal) else (False,)):
            r, _ = z3_try(A, goal, ms, nl=nl)
            if r == z3.unsat:
                STATS["z3"] += 1; return True, "z3"
        if not strong: return False, "unknown"
        for seed, mb, nl in ((7, False, False), (11, False, True), (3, True, None)):
            r, _ = z3_try(A, goal, ms * 2, mbqi=mb, seed=seed, nl=nl, simple=(seed == 11))
            if r == z3.unsat:
                STATS["z3mbqi"] += 1; return True, "z3"
            if r == z3.sat and mb: return False, "sat"
        o = ext_try(A, goal, max(3, ms // 500), "z3new")
        if o == "unsat": STATS["z3new"] += 1; return True, "z3-new"
        o = ext_try(A, goal, max(3, ms // 500), "cvc5")
        if o == "unsat": STATS["cvc5"] += 1; return True, "cvc5"
        return False, o
    finally:
        STATS["time"] += time.time() - t
