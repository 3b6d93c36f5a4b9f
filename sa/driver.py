"""Witness cases: each is a tiny C++ function that calls one public operation on
symbolic operands, plus the value every element of every operand must have
afterwards.  The functions are compiled against /repo's current headers and
analysed (never executed)."""
import re, os, sys, json, subprocess, tempfile, time, shutil, hashlib, threading, traceback, resource
from multiprocessing import get_context
from multiprocessing.connection import wait
from . import alg, engine, models
from .alg import Poly, Node, ap1, ap2, apn, ite, band, bor, bnot, AnalysisError
from .engine import Engine, Module, State, Ptr, Undef, NAN, Interval, SplitRequest, Obj
from .val import V
from .streams import outputs, inputs, stream_state

REPO = os.environ.get("VMML_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18/bin/"
CXX = LLVM + "clang++"
WARN = ["-w"]
CXXFLAGS = ["-O0", "-g", "-std=c++11", "-include", "cstdint", "-ffp-contract=off", "-fno-discard-value-names"]

ELEM = {  # name: (C++ type, IR type, size, integer width or None, unsigned)
    "d": ("double", "f64", 8, None, False), "f": ("float", "f32", 4, None, False),
    "ld": ("long double", "f80", 16, None, False), "i": ("int", "i32", 4, 32, False),
    "u": ("unsigned", "i32", 4, 32, True), "ub": ("uint8_t", "i8", 1, 8, True),
    "sz": ("size_t", "i64", 8, 64, True), "b": ("bool", "i8", 1, 8, True), "s": ("short", "i16", 2, 16, False), "us": ("uint16_t", "i16", 2, 16, True), "sb": ("int8_t", "i8", 1, 8, False),
    "l": ("long", "i64", 8, 64, False), "raw": ("char", "i8", 1, 8, True),
}
MODE = {"d": "f64", "f": "f32", "ld": "f80"}

class P:
    """an operand: n elements of element type `elem` laid out contiguously"""
    def __init__(self, name, ctype, elem, n, init="sym", const=False):
        self.name, self.ctype, self.elem, self.n, self.init, self.const = name, ctype, elem, n, init, const

def vec(name, m, t, init="sym", const=False): return P(name, "Vector<%d,%s>" % (m, ELEM[t][0]), t, m, init, const)
def mat(name, r, c, t, init="sym", const=False): return P(name, "Matrix<%d,%d,%s>" % (r, c, ELEM[t][0]), t, r * c, init, const)
def sca(name, t, init="sym", const=False): return P(name, ELEM[t][0], t, 1, init, const)
def arr(name, n, t, init="sym", const=False): return P(name, "Arr<%s,%d>" % (ELEM[t][0], n), t, n, init, const)
def quat(name, t, init="sym", const=False): return P(name, "Quaternion<%s>" % ELEM[t][0], t, 4, init, const)
def nan_at(p, k):
    """the operand p with not-a-number as its k-th element"""
    return P(p.name, p.ctype, p.elem, p.n, ["%s[%d]" % (p.name, i) if i != k else NAN for i in range(p.n)] if p.n > 1 else [NAN], p.const)
def idx(name, cls): return P(name, "size_t", "sz", 1, ("idx", cls), True)

class Case:
    def __init__(self, prop, title, params, body, expect=None, throws=None, mode=None, facts=None, reduce=None,
                 aborts=None, unwind=False, setup=None, post=None, tags=(), keep=True, headers=(), leak=False, tol=None, cxx=None,
                 only=None, order=None, effects=()):
        self.effects = effects
        self.props = prop if isinstance(prop, (list, tuple)) else [prop]
        self.title, self.params, self.body, self.expect = title, params, body, expect
        self.throws, self.mode, self.facts, self.reduce = throws, mode, facts, reduce
        self.aborts, self.unwind, self.setup, self.post, self.tags = aborts, unwind, setup, post, tags
        self.keep = keep; self.headers = headers; self.tol = tol; self.cxx = cxx; self.only = only
        if self.mode is None:
            ms = [MODE[p.elem] for p in params if p.elem in MODE]
            order_ = ["f32", "f64", "f80"]
            self.mode = max(ms, key=order_.index) if ms else "f64"

def source(cases, headers, ids):
    out = ["// generated witness functions"]
    hs = []
    for h in headers:
        if h not in hs: hs.append(h)
    for h in hs: out.append("#include <%s>" % h)
    out.append("#include <vector>\n#include <list>\n#include <cassert>\n#include <cstring>\n#include <sstream>\n#include <iostream>\n#include <iterator>")
    out.append("using namespace vmml; template<class T,size_t N> struct Arr { T a[N]; };")
    for k, c in zip(ids, cases):
        if c.cxx: out.append(c.cxx)
        ps = ", ".join(("const " if p.const else "") + p.ctype + "& " + p.name for p in c.params)
        out.append('extern "C" void W_%d( %s )\n{\n#line 1 "witness:%d"\n%s\n}' % (k, ps, k, c.body))
    return "\n".join(out) + "\n"

def compile_ir(src, workdir, name, flags=()):
    cpp = os.path.join(workdir, name + ".cpp"); bc = os.path.join(workdir, name + ".bc"); js = os.path.join(workdir, name + ".json")
    open(cpp, "w").write(src)
    cmd = [CXX] + CXXFLAGS + WARN + list(flags) + ["-I" + incdir(workdir), "-I" + REPO, "-I" + os.path.join(ROOT, "stubs"), "-c", "-emit-llvm", cpp, "-o", bc]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return None, r.stderr
    r = subprocess.run([irdump(), bc, js], capture_output=True, text=True)
    if r.returncode: raise RuntimeError("irdump: " + r.stderr)
    os.unlink(bc); os.unlink(cpp)
    return js, ""

def incdir(workdir):
    """version.hpp is generated by the build and ignored by git: regenerate it"""
    base = os.path.join(os.environ.get("SA_WORK", workdir), "inc")
    d = os.path.join(base, "vmmlib")
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        src = os.path.join(REPO, "vmmlib", "version.in.hpp")
        if os.path.exists(src) and not os.path.exists(os.path.join(REPO, "vmmlib", "version.hpp")):
            import re
            s = re.sub(r"@[A-Za-z_0-9]+@", "0", open(src).read())
            open(os.path.join(d, "version.hpp"), "w").write(s)
    return base

_irdump = None
def irdump():
    global _irdump
    if _irdump: return _irdump
    bdir = os.path.join(ROOT, "build")
    src = os.path.join(ROOT, "tools", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(bdir, "irdump-" + h)
    if not os.path.exists(exe):
        os.makedirs(bdir, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        subprocess.check_call([CXX, "-O0", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-I/usr/lib/llvm-18/include",
                               "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
                               src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.rename(tmp, exe)
    _irdump = exe
    return exe

# ------------------------------------------------------------------ running one case
class Facts(list):
    """preconditions of a case: linear facts, and a boolean diagram"""
    cond = 1

class Result:
    def __init__(self, title): self.title = title; self.obl = []; self.info = {}
    def add(self, prop, what, ok, msg="", loc=None):
        self.obl.append((prop, what, bool(ok), msg, loc))

def wrap(v, elem):
    _, _, _, w, u = ELEM[elem]
    return V(v, w, u)

def run_case(case, mod, k, flagsname="debug"):
    res = run_case1(case, mod, k, flagsname)
    if case.mode == "f80" and any(not o[2] and o[0] != "C26" for o in res.obl):
        # long double passing through double: a matter of C26 alone; every other property is about the exact value
        alg.NOROUND = True
        try: res2 = run_case1(case, mod, k, flagsname)
        finally: alg.NOROUND = False
        res2.obl = [o for o in res2.obl if o[0] != "C26"] + [o for o in res.obl if o[0] == "C26"]
        return res2
    return res

def run_case1(case, mod, k, flagsname="debug"):
    res = Result(case.title)
    work = [{}]
    # interval classes of index parameters
    for p in case.params:
        if isinstance(p.init, tuple) and p.init[0] == "idx":
            new = []
            for w in work:
                for lo, hi in p.init[1]:
                    d = dict(w); d[p.name] = (lo, hi); new.append(d)
            work = new
    steps = 0; visited = set(); unknown = {}; nclass = 0; ends = False; first = work[:]
    while work:
        cls = work.pop()
        try:
            e = run_once(case, mod, k, cls, res, flagsname)
            nclass += 1
            steps += e.steps; visited |= e.visited
            for n, c in e.unknown.items(): unknown[n] = unknown.get(n, 0) + c
        except SplitRequest as s:
            lo, hi = cls[s.sym]
            if s.at is None or not lo < s.at <= hi: raise AnalysisError("bad split of %s at %r" % (s.sym, s.at))
            a = dict(cls); a[s.sym] = (lo, s.at - 1); b = dict(cls); b[s.sym] = (s.at, hi)
            work += [a, b]
            if len(work) + nclass > 600 and not ends:
                # the classes do not become uniform: decide at their end points
                ends = True
                work = first[:]
                for n in list(first[0]): work = [dict(w, **{n: (x, x)}) for w in work for x in sorted(set(w[n]))]
    res.info = dict(steps=steps, visited=sorted(visited), unknown=unknown, classes=nclass, ends=ends)
    return res

def run_once(case, mod, k, cls, res, flagsname):
    e = Engine(mod, mode=case.mode, unwind=case.unwind)
    alg.FMAX[0] = FMAX.get(case.mode)
    st = State()
    st.objs[0] = Obj(0, "null", "null")
    e.prelude = True
    env = {}; ptrs = {}; init = {}
    facts = Facts()
    for p in case.params:
        ct, irt, sz, w, uns = ELEM[p.elem]
        if p.init == "stream":
            q = e.alloc(st, {"std::ostream": 272, "std::istream": 280}[p.ctype], p.name, "arg")
            models.make_stream(e, st, q, st.objs[q.obj].size, p.name)
            b = st.objs[q.obj].size - models.IOS
            F = alg.cell(p.name + ".flags", integer=True, nonneg=True); R = alg.cell(p.name + ".precision", integer=True, nonneg=True)
            e.raw_store(st, Ptr(q.obj, b + models.FLAGS), F, 4)
            e.raw_store(st, Ptr(q.obj, b + models.PREC), R, 8)
            e.raw_store(st, Ptr(q.obj, b + models.FILL), alg.cell(p.name + ".fill", integer=True, nonneg=True), 1)
            ptrs[p.name] = q; env[p.name] = p.name
            continue
        q = e.alloc(st, sz * p.n, p.name, "arg", "undef")
        vals = None
        if p.init == "sym":
            vals = [alg.cell("%s%s" % (p.name, "[%d]" % i if p.n > 1 else ""), nonneg=uns, integer=w is not None) for i in range(p.n)]
        elif p.init == "undef": vals = None
        elif isinstance(p.init, tuple) and p.init[0] == "idx":
            lo, hi = cls[p.name]
            vals = [lo if lo == hi else Interval(p.name, lo, hi, 1, 0, 64)]
        else:
            raw = p.init(env) if callable(p.init) else p.init
            vals = []
            for x in raw:
                if isinstance(x, V): x = x.v
                elif isinstance(x, str): x = alg.cell(x, nonneg=uns, integer=w is not None)
                elif x is NAN: pass
                elif w is None and not isinstance(x, (Poly, Node)): x = alg.const(alg.Fraction(x))
                elif w is not None and isinstance(x, int): x %= 1 << w
                vals.append(x)
        if vals is not None:
            for i, v in enumerate(vals): e.raw_store(st, Ptr(q.obj, i * sz), v, sz)
            env[p.name] = [wrap(v, p.elem) if not isinstance(v, Interval) else v for v in vals] if p.n > 1 or p.ctype.startswith(("Vector", "Matrix", "Arr")) else (wrap(vals[0], p.elem) if not isinstance(vals[0], Interval) else vals[0])
        else:
            env[p.name] = None
        ptrs[p.name] = q
        st.objs[q.obj].ro = p.const
        init[p.name] = dict(st.objs[q.obj].cells)
    if case.facts:
        for f in case.facts(env):
            if isinstance(f, V): f = f.v
            if isinstance(f, tuple): facts.append(f)
            else: facts.cond = band(facts.cond, f)
    run_ctors(e, st, mod)
    e.steps = 0; e.prelude = False; e.effects = {}; e.inguard = 0; e.guardobjs = set()
    r = e.call(st, "W_%d" % k, [ptrs[p.name] for p in case.params])
    ctx = ""
    if cls: ctx = " for " + ", ".join("%s in [%d,%d]" % (n, a, b) for n, (a, b) in sorted(cls.items()))
    check_case(case, e, r, ptrs, env, init, facts, res, ctx, cls)
    return e

def run_ctors(e, st, mod):
    """static initialisers give the library's constants their values"""
    g = mod.globals.get("llvm.global_ctors")
    if g is None or not g["init"]: return
    fns = [c[3][1] for c in g["init"] if c[3] and c[3][0] == "fn"]
    # only those the witness can observe are evaluated lazily by name: all are cheap
    for f in fns:
        if f in ("_GLOBAL__I_000101",): continue
        try:
            e.call(st, f, [])
        except AnalysisError:
            pass
    e.events = []; e.exc = []

def cond_of(x):
    if x is None: return 0
    if isinstance(x, V): return x.v
    return int(x)

def feasible_where(cond, facts):
    """some feasible assignment under which the boolean diagram holds, or None"""
    cond = band(getattr(facts, "cond", 1), cond)
    for path, leaf in alg.live_paths(cond, lambda l: not isinstance(l, Undef) and l == 1, facts):
        if alg.feasible_path(path, None, facts): return path
    return None

def diff_path(exp, got, pc, facts, reduce_, tol, width=None):
    """None if got == exp wherever pc holds; else (path, expected leaf, actual leaf)"""
    def d(x, y):
        if x is y: return 0
        if isinstance(y, Undef) or isinstance(x, Undef): return ("D", x, y)
        if width and isinstance(x, Poly) and isinstance(y, int) and y >> (width - 1): y -= 1 << width   # a signed operand
        if width and isinstance(y, Poly) and isinstance(x, int) and x >> (width - 1): x -= 1 << width
        if x is y: return 0
        if isinstance(x, Poly) and isinstance(y, Poly):
            if reduce_ is not None: 
                return 0 if red_equal(x, y, reduce_, tol) else ("D", x, y)
            return 0 if alg.poly_equal(x, y, tol) else ("D", x, y)
        if isinstance(x, Poly) and isinstance(y, int): x2 = alg.sub(x, alg.const(y)); return 0 if not x2.t else ("D", x, y)
        if isinstance(y, Poly) and isinstance(x, int): x2 = alg.sub(y, alg.const(x)); return 0 if not x2.t else ("D", x, y)
        return 0 if alg.same(x, y) else ("D", x, y)
    D = ap2(d, exp, got)
    D = ite(band(getattr(facts, "cond", 1), pc), D, 0)
    for path, leaf in alg.live_paths(D, lambda l: l != 0, facts):
        _, x, y = leaf
        df = None
        if isinstance(x, Poly) or isinstance(y, Poly):
            px = x if isinstance(x, Poly) else (alg.const(x) if isinstance(x, int) else None)
            py = y if isinstance(y, Poly) else (alg.const(y) if isinstance(y, int) else None)
            if px is not None and py is not None:
                df = alg.sub(px, py)
                if reduce_ is not None:
                    if any(REL_EQ(v, i) for v, i in path): pass
        if df is not None and not alg.feasible_path(path, None, facts): continue
        if alg.feasible_path(path, df, facts): return path, x, y
    return None

def REL_EQ(v, i): return i == 1

def red_equal(x, y, reduce_, tol):
    a, b = alg.full_clear([x, y])
    d = alg.sub(a, b)
    r = reduce_(d)
    r, z = alg.full_clear([r, alg.ZERO])
    if not r.t: return True
    scale = max([abs(alg.fl(c)) for c in a.t.values()] + [abs(alg.fl(c)) for c in b.t.values()] + [0])
    return all(abs(alg.fl(c)) <= tol * scale for c in r.t.values())

FMAX = {"f32": (2 ** 24 - 1) * 2 ** 104, "f64": (2 ** 53 - 1) * 2 ** 971, "f80": (2 ** 64 - 1) * 2 ** 16320}
MEMKINDS = ("oob", "uaf", "null", "uninit", "badfree", "indirect", "div0")

def inrepo(chain): return [c for c in chain if "vmml::" in c]

def check_case(case, e, r, ptrs, env, init, facts, res, ctx, cls):
    tol = case.tol or (1e-14 if case.mode != "f32" else 2e-7)
    P0 = case.props
    val_prop = P0[0]
    thrown = 0; aborted = 0
    for ev in e.events:
        kind = ev["kind"]
        if kind == "throw": thrown = bor(thrown, ev["pc"])
        elif kind == "abort": aborted = bor(aborted, ev["pc"])
    def loc_of(ev):
        rc = inrepo(ev["chain"])
        return "%s in %s" % (ev["loc"], rc[-1] if rc else ev["fn"])
    # ---- memory events
    for ev in e.events:
        kind = ev["kind"]
        if kind in MEMKINDS:
            w = feasible_where(ev["pc"], facts)
            if w is None: continue
            res.add("C22", kind, False, "%s%s: %s; reached when: %s" % (case.title, ctx, ev["detail"], alg.path_str(w) or "always"), loc_of(ev))
        elif kind == "hang":
            w = feasible_where(ev["pc"], facts)
            if w is None: continue
            res.add(val_prop, "comes to an end", False, "%s%s: %s; when: %s" % (case.title, ctx, ev["detail"], alg.path_str(w) or "always"), loc_of(ev))
        elif kind == "constwrite":
            res.add("C24", kind, False, "%s%s: %s" % (case.title, ctx, ev["detail"]), loc_of(ev))
    for what, loc in e.effects.items():
        res.add("C24", "effect", any(what.startswith(x) for x in case.effects), "%s%s: %s" % (case.title, ctx, what), loc)
    res.add("C24", "no effect beyond the operands", True)
    res.add("C22", "accesses within operands, no indeterminate decision", not any(o[0] == "C22" and not o[2] for o in res.obl))
    # ---- failures signalled
    exp_throw = case.throws
    if callable(exp_throw): exp_throw = exp_throw(env, cls)
    failing = bor(thrown, aborted)
    expc = cond_of(exp_throw)
    def same_cond(a, b):
        x = ap2(lambda p, q: int(p != q), a, b)
        return feasible_where(x, facts)
    w = same_cond(expc, failing)
    evs = [ev for ev in e.events if ev["kind"] in ("throw", "abort")]
    msg = ""
    if w is not None:
        msg = "%s%s: failure signalled %s, expected %s; when: %s" % (case.title, ctx, alg.node_str(failing), alg.node_str(expc), alg.path_str(w) or "always")
    tp = "C23" if cls else val_prop
    res.add(tp, "signals failure exactly when documented", w is None, msg, loc_of(evs[0]) if evs else case.body)
    # ---- what a signalled failure says
    for ev in evs:
        if feasible_where(ev["pc"], facts) is None: continue
        if ev["kind"] == "abort":
            if "C44" not in P0: continue
            out = [x[3] if x[2] == "text" else str(x[4]) if x[2] == "value" else "?" for x in ev["snap"].trace if x[0] == "out" and x[2] in ("text", "value")]
            ev = dict(ev, type="typeinfo for vmml::", text="".join(map(str, out)))
        res.add("C44", "a failure is a vmml::exception", ev["type"].startswith("typeinfo for vmml::"), "%s%s: %s" % (case.title, ctx, ev["detail"]), loc_of(ev))
        if ev["text"] is not None:
            m = re.search(r"\w+\.h\w*\W+[1-9]\d*", ev["text"])
            res.add("C44", "the message names the place", bool(m), "%s%s: the message is %r" % (case.title, ctx, ev["text"][-200:]), loc_of(ev))
            res.add("C44", "the message describes the failure", bool(set(re.findall("[A-Za-z]{3,}", re.sub(r"\S*\.h\w*\W+\d+", " ", ev["text"]))) - {"vmmlib", "vmml", "error", "exception", "file", "line"}), "%s%s: the message is %r" % (case.title, ctx, ev["text"][-200:]), loc_of(ev))
    # ---- state at failure
    for ev in evs:
        s = ev.get("snap")
        if s is None or not case.keep: continue
        for p in case.params:
            if p.init in ("stream",) : continue
            q = ptrs[p.name]
            o = s.objs.get(q.obj)
            bad = None
            for off, c in init[p.name].items():
                now = o.cells.get(off)
                if now is None or not (now[1] is c[1] or alg.same(now[1], c[1])): bad = off
            if len(o.cells) != len(init[p.name]): bad = -1
            if bad is not None and feasible_where(ev["pc"], facts) is None: bad = None
            res.add("C34", "operands unchanged when failure is signalled", bad is None,
                    "%s%s: %s changed before the failure is signalled" % (case.title, ctx, p.name), loc_of(ev))
    if r is None:
        if case.expect and not (not isinstance(expc, Node) and expc == 1):
            res.add(val_prop, "returns normally", False, "%s%s: never returns normally" % (case.title, ctx), case.body)
        return
    st, _ = r
    # ---- leaks
    def leaks(s):
        out = []
        for o in s.objs.values():
            if o.kind != "heap": continue
            c = band(s.pc, band(o.born, alg.bnot(o.freed)))
            w = feasible_where(c, facts)
            if w is not None: out.append((o, w))
        return out
    def leak_text(ls): return "; ".join(o.name + (" when " + alg.path_str(w) if w else "") for o, w in ls)
    live = leaks(st)
    res.add("C31", "every allocation released on normal exit", not live, "%s%s: never released: %s" % (case.title, ctx, leak_text(live)), live[0][0].name if live else None)
    for es in e.exc:
        lv = leaks(es)
        res.add("C31", "every allocation released on exceptional exit", not lv, "%s%s: not released when an exception leaves: %s" % (case.title, ctx, leak_text(lv)), lv[0][0].name if lv else None)
    # ---- values
    exp = case.expect(env, cls) if (case.expect and cls) else (case.expect(env) if case.expect else {})
    if exp is None: exp = {}
    for p in case.params:
        ct, irt, sz, w, uns = ELEM[p.elem]
        q = ptrs[p.name]
        if p.init == "stream": continue
        o = st.objs[q.obj]
        if p.name in exp:
            want = exp[p.name]
            if want is None: continue
            if isinstance(want, V) or not isinstance(want, (list, tuple)): want = [want]
            if len(want) != p.n: raise AnalysisError("case %s expects %d elements of %s" % (case.title, len(want), p.name))
            for i in range(p.n):
                if want[i] is None: continue
                x = want[i]
                if isinstance(x, V):
                    if w is None and x.w is not None: x = x.real()
                    if w is not None and x.w is None: raise AnalysisError("type of expected value in " + case.title)
                    x = x.v
                elif w is None: x = alg.const(alg.Fraction(x))
                else: x = int(x) % (1 << w)
                if w is not None and isinstance(x, int): x %= 1 << w
                got = e.load(st, Ptr(q.obj, i * sz), irt)
                if isinstance(got, Interval): got = alg.cell(repr(got))
                dp = diff_path(x, got, st.pc, facts, case.reduce, tol, w if w and not uns else None)
                ok = dp is None
                msg = ""; loc = None
                if not ok:
                    c = o.cells.get(i * sz)
                    loc = where_written(e, c)
                    kind = "is never written / indeterminate" if isinstance(dp[2], Undef) and dp[2] is not NAN else "is %s" % short(dp[2])
                    msg = "%s%s: %s[%d] %s, required %s%s" % (case.title, ctx, p.name, i, kind, short(dp[1]), ("; when " + alg.path_str(dp[0])) if dp[0] else "")
                    if isinstance(dp[2], Undef) and dp[2] is not NAN: res.add("C22", "result element written", False, msg, loc)
                for pr in case.props: res.add(pr, "%s[%d]" % (p.name, i), ok, msg, loc)
                if w is None and case.mode != "f32":
                    lossy = narrowings(got) - narrowings(x)
                    res.add("C26", "%s[%d] computed without narrowing" % (p.name, i), not lossy,
                            "%s%s: %s[%d] passes through %s: %s" % (case.title, ctx, p.name, i, ", ".join(sorted(lossy)), short(got)), loc or where_written(e, o.cells.get(i * sz)))
        else:
            # must be untouched
            bad = None
            for off, c in o.cells.items():
                c0 = init[p.name].get(off)
                if c0 is None: bad = (off, c); break
                if not (c[1] is c0[1] or alg.same(c[1], c0[1])):
                    x = c0[1]
                    if isinstance(x, (Poly, Node, int)) and isinstance(c[1], (Poly, Node, int)) and diff_path(x, c[1], st.pc, facts, None, tol) is None: continue
                    bad = (off, c); break
            msg = ""; loc = None
            if bad:
                loc = where_written(e, bad[1])
                msg = "%s%s: operand %s changed at byte %d" % (case.title, ctx, p.name, bad[0])
            res.add(case.only or val_prop, "%s unchanged" % p.name, bad is None, msg, loc)
            if p.const or case.only is None: res.add("C24", "%s unchanged" % p.name, bad is None, msg, loc)
    if case.post:
        try: post = list(case.post(case, e, st, ptrs, env, facts))
        except Exception:
            # a relation over outputs cannot be formed when one of them was never written
            holes = []
            for p in case.params:
                ct, irt, sz, w, uns = ELEM[p.elem]
                if p.init != "undef": continue
                for i in range(p.n):
                    got = e.load(st, Ptr(ptrs[p.name].obj, i * sz), irt)
                    if isinstance(got, Undef) or any(isinstance(l, Undef) for _, l in alg.live_paths(got, lambda l: True, facts)): holes.append((p, i))
            if not holes: raise
            post = []
            for p, i in holes:
                for pr in {val_prop, "C22"}: post.append((pr, "%s[%d] written" % (p.name, i), False, "%s[%d] is never written / indeterminate" % (p.name, i), case.body))
        for pr, what, ok, msg, loc in post:
            res.add(pr or val_prop, what, ok, "%s%s: %s" % (case.title, ctx, msg), loc)

def narrowings(v):
    """names of the lossy conversions a value depends on"""
    out = set(); seen = set()
    def poly(p):
        for m in p.t:
            for a, _ in m:
                if a in seen: continue
                seen.add(a)
                at = alg.ATOMS[a]
                if at.kind == "fn" and (at.name.startswith("round_to_") or at.name == "trunc"): out.add(at.name)
                for y in at.args:
                    if isinstance(y, Poly): poly(y)
    ns = set()
    def go(n):
        if isinstance(n, Poly): poly(n)
        elif isinstance(n, Node):
            if id(n) in ns: return
            ns.add(id(n))
            p = alg.VARS[n.v][0]
            if isinstance(p, Poly): poly(p)
            for c in n.ch: go(c)
    go(v)
    return out

def short(x):
    s = str(x)
    return s if len(s) < 300 else s[:300] + "..."

def where_written(e, c):
    if c is None or not c[2]: return None
    l, f = c[2]
    fn = e.mod.funcs[f]["dem"] if f in e.mod.funcs else f
    return "%s in %s" % (e.mod.loc(l), fn)

# ------------------------------------------------------------------ batches
def _work(job):
    """job: (batch id, [(case index, case)], headers, flags, flagsname, workdir)"""
    out = []
    result = {}
    def body():
        result["r"] = _work_inner(job)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=body); t.start(); t.join()
    return result.get("r", [("crash", job[0], None, "worker died")])

CASE_CPU = 60            # seconds of CPU time spent on one case before it counts as not analysed
WALL = float("inf")      # time at which no further case is started
MEMORY = 3 << 30         # per worker
CASES = None
COMPILE_ONLY = False
def _work_inner(job):
    bid, idxs, headers, flags, fname, workdir = job
    out = []
    cases = [CASES[i] for i in idxs]
    js, err = compile_ir(source(cases, headers, idxs), workdir, "b%s_%s" % (bid, fname), flags)
    if js is None:
        if len(idxs) == 1:
            return [("nocompile", idxs[0], None, "\n".join([l for l in err.split("\n") if "error:" in l][:4]) or err[:2000])]
        h = len(idxs) // 2
        return (_work_inner((str(bid) + "l", idxs[:h], headers, flags, fname, workdir)) +
                _work_inner((str(bid) + "r", idxs[h:], headers, flags, fname, workdir)))
    mod = Module(js)
    os.unlink(js)
    if COMPILE_ONLY:
        missing = [f["dem"] for n, f in mod.funcs.items() if f["decl"] and "vmml::" in f["dem"].split("(")[0]]
        if not missing: return [("ok", i, None, "") for i in idxs]
        if len(idxs) == 1: return [("undefined", idxs[0], None, "declared and used but defined nowhere: " + ", ".join(missing))]
        h = len(idxs) // 2
        return (_work_inner((str(bid) + "l", idxs[:h], headers, flags, fname, workdir)) +
                _work_inner((str(bid) + "r", idxs[h:], headers, flags, fname, workdir)))
    for i in idxs:
        c = CASES[i]
        t0 = time.time()
        alg.reset(); engine._bitsrc.clear()
        alg.DEADLINE = (time.thread_time() + CASE_CPU, WALL)
        try:
            r = run_case(c, mod, i, fname)
            r.info["time"] = time.time() - t0
            out.append(("ok", i, r, ""))
        except MemoryError:
            alg.reset(); out.append(("unsupported", i, None, "memory budget of the case exceeded"))
        except AnalysisError as x:
            out.append(("unsupported", i, None, "%s\n%s" % (x, traceback.format_exc()[-1500:])))
        except Exception as x:
            out.append(("crash", i, None, traceback.format_exc()[-3000:]))
    return out

def _child(job, conn):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY + (1 << 30),) * 2)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    conn.send(_work(job)); conn.close()

def run_jobs(jobs, procs):
    """yields (job number, result or None if its process died)"""
    ctx = get_context("fork")
    todo = list(range(len(jobs)))[::-1]; running = {}
    while todo or running:
        while todo and len(running) < procs:
            b = todo.pop()
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(jobs[b], wr), daemon=True); p.start(); wr.close()
            running[rd] = (b, p)
        for rd in wait(list(running)):
            b, p = running.pop(rd)
            try: r = rd.recv()
            except (EOFError, OSError): r = None
            rd.close(); p.join()
            yield b, r

def run_cases(cases, headers, flags=(), fname="debug", workdir=None, batch=24, procs=None, compile_only=False):
    global CASES, COMPILE_ONLY
    CASES = cases; COMPILE_ONLY = compile_only
    own = workdir is None
    if own: workdir = tempfile.mkdtemp(prefix="vmmlsa")
    os.environ["SA_WORK"] = workdir
    irdump(); incdir(workdir)
    # one translation unit per group of cases, cheap ones interleaved
    n = len(cases)
    procs = procs or min(8, os.cpu_count() or 2)
    nb = max(1, min((n + batch - 1) // batch, n))
    nb = max(nb, min(procs, n))
    groups = [[] for _ in range(nb)]
    for i in range(n): groups[i % nb].append(i)
    jobs = [(b, g, headers, flags, fname, workdir) for b, g in enumerate(groups) if g]
    res = []
    try:
        for b, r in run_jobs(jobs, procs):
            if r is None and len(jobs[b][1]) > 1:      # the worker died: one process per case finds out which one did it
                single = [("%sx%d" % (b, k), [k], headers, flags, fname, workdir) for k in jobs[b][1]]
                for b2, r2 in run_jobs(single, procs): res += r2 if r2 is not None else [("crash", single[b2][1][0], None, "worker died")]
            else: res += r if r is not None else [("crash", jobs[b][1][0], None, "worker died")]
    finally:
        if own: shutil.rmtree(workdir, ignore_errors=True)
    res.sort(key=lambda x: x[1] if isinstance(x[1], int) else -1)
    return res
