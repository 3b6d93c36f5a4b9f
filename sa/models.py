"""Models of functions that have no body in the analysed module (libm, libstdc++
streams and strings, allocation, exceptions) and of a few intrinsics."""
import re
from . import alg
from .alg import Poly, Node, ZERO, ONE, AnalysisError, ap1, ap2, apn, ite, band, bor, bnot

E = None
def _eng():
    global E
    if E is None:
        from . import engine as E_
        E = E_
    return E

MODELS = {}
PATTERNS = []
_cache = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f)); return f
    return d

def lookup(eng, name, f):
    m = MODELS.get(name)
    if m is not None: return m
    if not f["decl"] and not f["dem"].startswith(STR_T + "::basic_string("): return None
    k = name
    if k in _cache: return _cache[k]
    r = None
    if name.startswith("llvm."):
        for p, h in INTR:
            if name.startswith(p): r = h; break
    else:
        for rx, h in PATTERNS:
            if rx.search(f["dem"]): r = h; break
    _cache[k] = r
    return r

EFFECT = re.compile(r"^(printf|fprintf|vprintf|vfprintf|puts|fputs|putchar|putc|fputc|fwrite|fread|fopen|freopen|getenv|setenv|putenv|system|setlocale|remove|rename|unlink|open|close|write|read|signal|raise|exit|atexit|quick_exit|mkstemp|tmpfile|tmpnam|localtime|gmtime|strtok|drand48|lrand48|srand48|srandom|getchar|gets|fgets|scanf|fscanf|fesetround|feclearexcept|feraiseexcept|std::locale::global)\b")
def unknown(eng, st, name, f, args, inst):
    if EFFECT.search(f["dem"]): eng.effect("calls " + f["dem"])
    eng.unknown[f["dem"]] = eng.unknown.get(f["dem"], 0) + 1
    return st, eng.opaque(f["ret"], "ext:" + f["dem"][:40])

# ------------------------------------------------------------------ intrinsics
INTR = []
def intr(p):
    def d(f): INTR.append((p, f)); return f
    return d

@intr("llvm.memcpy")
def _memcpy(e, st, a, I, f):
    e.memcpy(st, a[0], a[1], a[2]); return st, None
@intr("llvm.memmove")
def _memmove(e, st, a, I, f):
    e.memcpy(st, a[0], a[1], a[2]); return st, None
@model("memcpy", "memmove", "__memcpy_chk")
def _memcpy2(e, st, a, I, f):
    e.memcpy(st, a[0], a[1], a[2]); return st, a[0]
@intr("llvm.memset")
def _memset(e, st, a, I, f):
    _set(e, st, a[0], a[1], a[2]); return st, None
@model("memset")
def _memset2(e, st, a, I, f):
    _set(e, st, a[0], a[1], a[2]); return st, a[0]
def _set(e, st, p, v, n):
    E = _eng()
    if not isinstance(n, int): raise AnalysisError("memset of symbolic length")
    if n == 0: return
    v = v & 255 if isinstance(v, int) else v
    if v == 0 and isinstance(v, int): e.raw_store(st, p, E.Zeros(n), n)
    else:
        for i in range(n): e.raw_store(st, e.padd(p, i), v, 1)

@model("memcmp", "bcmp", "__builtin_memcmp")
def _memcmp(e, st, a, I, f):
    E = _eng()
    n = a[2]
    if not isinstance(n, int): return st, e.fresh("memcmp", integer=True)
    if n == 0: return st, 0
    pa = e.read_range(st, a[0], n); pb = e.read_range(st, a[1], n)
    if pa is None or pb is None: return st, E.UNDEF
    cuts = sorted(set(e.cuts(pa)) | set(e.cuts(pb)))
    diffs = []
    for lo, hi in zip(cuts, cuts[1:]):
        x = e.sub_pieces(pa, lo, hi); y = e.sub_pieces(pb, lo, hi)
        def eq(p, q):
            if p is E.NAN or q is E.NAN: return e.boolvar("representation of NaN")
            if isinstance(p, E.Undef) or isinstance(q, E.Undef): return p if isinstance(p, E.Undef) else q
            if isinstance(p, E.Zeros): p = 0
            if isinstance(q, E.Zeros): q = 0
            if p is q: return 1
            def isf(z): return isinstance(z, Poly) and not all(alg.ATOMS[k].integer for m in z.t for k, _ in m)
            if isf(p) or isf(q):
                # representation equality of floating values is strictly finer
                # than value equality (-0.0 vs 0.0): keep it distinct
                p2 = p if isinstance(p, Poly) else alg.const(p)
                q2 = q if isinstance(q, Poly) else alg.const(q)
                k = sorted([p2, q2], key=lambda z: str(z))
                v = alg.mkvar(alg.fn("same_bytes", k[0], k[1], integer=True, nonneg=True), nonneg=True)
                return alg.node(v, 1, 0, 1)
            return e.icmp1(st, "eq", p, q, "i%d" % (8 * (hi - lo)))
        c = ap2(eq, x, y)
        if isinstance(c, E.Undef): return st, c
        def lt(p, q):
            if isinstance(p, E.Zeros): p = 0
            if isinstance(q, E.Zeros): q = 0
            if isinstance(p, (int, Poly)) and isinstance(q, (int, Poly)): return e.icmp1(st, "ult", p, q, "i8")
            return 0 if isinstance(p, E.Undef) or isinstance(q, E.Undef) else 2
        less = ap2(lt, x, y) if hi - lo == 1 else 2
        if less != 2:
            sign = ap1(lambda z: 0xffffffff if z == 1 else 1, less)
        else:
            sign = alg.node(alg.mkvar(e.fresh("order of differing bytes", integer=True)), 0xffffffff, 1, 1)
        diffs.append((c, sign))
    r = 0
    for c, sign in reversed(diffs):
        r = apn(lambda q, w, z: q if isinstance(q, E.Undef) else (z if q else w), (c, sign, r))
    return st, r

@model("strlen")
def _strlen(e, st, a, I, f):
    p = a[0]
    o = st.objs.get(p.obj)
    n = 0
    E = _eng()
    while True:
        v = e.load(st, E.Ptr(p.obj, p.off + n), "i8")
        if v == 0 and isinstance(v, int): return st, n
        if not isinstance(v, int): return st, e.fresh("strlen", integer=True, nonneg=True)
        n += 1

def _put(e, st, p, text, end=True):
    E = _eng()
    q = e.check_access(st, p, len(text) + end, "write")
    if q is not None:
        for i, ch in enumerate(text + "\0" * end): e.raw_store(st, E.Ptr(q.obj, q.off + i), ord(ch), 1)
@model("strcpy", "strncpy", "strcat", "strncat", "stpcpy")
def _strcpy(e, st, a, I, f):
    E = _eng(); n = f["dem"]
    s = known_cstring(e, st, a[1]); d = known_cstring(e, st, a[0]) if "cat" in n else ""
    k = a[2] if len(a) > 2 else None
    if s is None or d is None or k is not None and not isinstance(k, int): return unknown(e, st, n, f, a, I)
    if n == "strncpy": _put(e, st, a[0], (s + "\0" * k)[:k] if k < 65536 else s, k >= 65536)
    else: _put(e, st, a[0], d + (s if k is None else s[:k]))
    return st, e.padd(a[0], len(s)) if n == "stpcpy" else a[0]
@model("snprintf", "sprintf")
def _snprintf(e, st, a, I, f):
    E = _eng()
    n, r = (a[1], a[2:]) if f["dem"] == "snprintf" else (None, a[1:])
    fmt = known_cstring(e, st, r[0]); args = list(r[1:]); text = ""
    for lit, cv in re.findall(r"([^%]+)|%(%|s|c|(?:h|hh|l|ll|z)?[diu])", fmt or ""):
        if lit: text += lit; continue
        if cv == "%": text += "%"; continue
        v = args.pop(0) if args else None
        v = known_cstring(e, st, v) if cv == "s" else v if isinstance(v, int) else None
        if v is None: text = None; break
        if cv == "c": v = chr(v & 255)
        elif cv != "s":
            w = 64 if cv[0] in "lz" else 8 if cv[:2] == "hh" else 16 if cv[0] == "h" else 32
            v &= (1 << w) - 1
            v = v - (1 << w) if cv[-1] != "u" and v >> (w - 1) else v
        text += str(v)
    if not fmt or text is None or "%" in re.sub(r"%(%|s|c|(?:h|hh|l|ll|z)?[diu])", "", fmt) or n is not None and not isinstance(n, int):
        q = e.alloc(st, 256, "formatted text", "string", default="sym")
        if n is None or isinstance(n, int) and n: e.raw_store(st, a[0], e.fresh("formatted", integer=True), 1)
        return st, e.fresh("formatted", integer=True)
    if n != 0: _put(e, st, a[0], text if n is None else text[:n - 1])
    return st, len(text)

@intr("llvm.fmuladd")
@intr("llvm.fma")
def _fma(e, st, a, I, f):
    return st, e.fp2(st, "fadd", e.fp2(st, "fmul", a[0], a[1]), a[2])
@model("fma", "fmaf", "fmal")
def _fma2(e, st, a, I, f):
    return st, e.fp2(st, "fadd", e.fp2(st, "fmul", a[0], a[1]), a[2])

RET = {"f32": 0, "f64": 1, "f80": 2}
def un(g):
    def h(e, st, a, I, f):
        E = _eng()
        def k(x):
            if isinstance(x, E.Undef): return x
            return g(x)
        v = ap1(k, a[0])
        return st, narrow(e, st, f, v)
    return h
def narrow(e, st, f, v):
    """a libm function of a narrower type than the element type rounds"""
    t = f["ret"]
    if t in RET and RET[t] < RET.get(e.mode, 0):
        return e.cast(st, "fptrunc", v, "f80", t)
    return v
def reg(name, g):
    for n in (name, name + "f", name + "l"): MODELS[n] = un(g)
    INTR.append(("llvm." + name + ".f", un(g)))
def sq(x):
    return alg.sqrt_(x)
reg("sqrt", sq); reg("fabs", alg.fabs); reg("sin", alg.sin_); reg("cos", alg.cos_); reg("tan", alg.tan_)
for _n in ("acos", "asin", "atan", "exp", "log", "exp2", "log2", "log10", "cbrt", "sinh", "cosh", "tanh"):
    reg(_n, (lambda n: lambda x: ap1(lambda y: y, fn1(n, x)))(_n))
for _n in ("floor", "ceil", "round", "trunc", "rint", "nearbyint"):
    reg(_n, (lambda n: lambda x: x if _int(x) else alg.fn("r" + n, x, integer=True))(_n))
def _int(p):
    if alg.is_const(p):
        return not isinstance(alg.cval(p), alg.Fraction)
    return all(not isinstance(c, alg.Fraction) and all(e > 0 and alg.ATOMS[a].integer for a, e in m) for m, c in p.t.items())
def fn1(n, x):
    import math
    if alg.is_const(x):
        c = alg.cval(x)
        if n == "exp" and c == 0: return ONE
        if n in ("asin", "atan", "sinh", "tanh") and c == 0: return ZERO
        if n in ("log",) and c == 1: return ZERO
    return alg.fn(n, x, nonneg=n in ("exp", "exp2", "acos", "cosh"))

@model("pow", "powf", "powl")
@intr("llvm.pow")
def _pow(e, st, a, I, f):
    E = _eng()
    def g(x, y):
        if isinstance(x, E.Undef): return x
        if isinstance(y, E.Undef): return y
        if alg.is_const(y):
            c = alg.cval(y)
            if not isinstance(c, alg.Fraction) and abs(c) <= 12:
                r = ONE
                for _ in range(abs(c)): r = alg.mul(r, x)
                return r if c >= 0 else alg.inv(r)
            if c == alg.Fraction(1, 2): return alg.sqrt_(x)
            if c == alg.Fraction(-1, 2): return ap1(alg.inv, alg.sqrt_(x))
        return alg.fn("pow", x, y)
    v = ap2(lambda x, y: g(x, y), a[0], a[1])
    return st, narrow(e, st, f, v)
@intr("llvm.powi")
def _powi(e, st, a, I, f):
    return _pow(e, st, [a[0], alg.const(E.sgn(a[1], 32))], I, f)
@model("hypot", "hypotf", "hypotl")
def _hypot(e, st, a, I, f):
    v = ap2(lambda x, y: alg.sqrt_(alg.add(alg.mul(x, x), alg.mul(y, y))), a[0], a[1])
    return st, narrow(e, st, f, v)
@model("atan2", "atan2f", "atan2l")
def _atan2(e, st, a, I, f):
    return st, narrow(e, st, f, ap2(alg.atan2_, a[0], a[1]))
@model("fmod", "fmodf", "fmodl")
def _fmod(e, st, a, I, f):
    return st, ap2(lambda x, y: alg.fn("fmod", x, y), a[0], a[1])
def _mm(pick):
    def h(e, st, a, I, f):
        c = e.fcmp(st, "olt", a[0], a[1])
        v = ite(c, a[0], a[1]) if pick == "min" else ite(c, a[1], a[0])
        return st, narrow(e, st, f, v)
    return h
for _n in ("min", "max"):
    for _s in ("", "f", "l"): MODELS["f" + _n + _s] = _mm(_n)
    INTR.append(("llvm." + _n + "num", _mm(_n)))
    INTR.append(("llvm." + _n + "imum", _mm(_n)))
@model("copysign", "copysignf", "copysignl")
@intr("llvm.copysign")
def _copysign(e, st, a, I, f):
    c = e.fcmp(st, "olt", a[1], ZERO)
    m = ap1(alg.fabs, a[0])
    return st, narrow(e, st, f, ite(c, ap1(alg.neg, m), m))
@model("__isnan", "isnan", "__isnanf")
def _isnan(e, st, a, I, f):
    N = _eng().NAN
    return st, ap1(lambda x: int(x is N), a[0])
@model("__isinf", "isinf", "__isinff")
def _isinf(e, st, a, I, f): return st, 0
@intr("llvm.is.fpclass")
def _fpclass(e, st, a, I, f):
    m = a[1]
    nan = m & 0x3; inf = m & 0x204; fin = m & 0x1f8
    N = _eng().NAN
    return st, ap1(lambda x: int(nan == 3) if x is N else int(fin == 0x1f8), a[0])
def _round_to_int(n):
    def h(e, st, a, I, f):
        def k(x):
            if isinstance(x, E.Undef): return x
            return e.cast1(st, "fptosi", x if _int(x) else alg.fn("r" + n, x, integer=True), "f64", f["ret"])
        _eng()
        return st, ap1(k, a[0])
    return h
for _n in ("round", "rint"):
    for _s in ("", "f", "l"):
        for _l in ("l", "ll"): MODELS[_l + _n + _s] = _round_to_int(_n)
        for _l in ("l", "ll"): INTR.append(("llvm." + _l + _n + ".", _round_to_int(_n)))
@model("remainder", "remainderf", "remainderl")
def _remainder(e, st, a, I, f):
    return st, narrow(e, st, f, ap2(lambda x, y: x if isinstance(x, _eng().Undef) else y if isinstance(y, _eng().Undef) else alg.fn("remainder", x, y), a[0], a[1]))
@model("ldexp", "ldexpf", "ldexpl", "scalbn", "scalbnf", "scalbnl", "scalbln", "scalblnf", "scalblnl")
@intr("llvm.ldexp")
def _ldexp(e, st, a, I, f):
    E = _eng()
    def k(x, n):
        if isinstance(x, E.Undef): return x
        if isinstance(n, E.Undef): return n
        if isinstance(n, int):
            n = E.sgn(n, 32 if n < 1 << 32 else 64)
            if abs(n) < 1100: return alg.scale(x, alg.nz(alg.Fraction(2) ** n))
        return e.fresh("ldexp")
    return st, narrow(e, st, f, ap2(k, a[0], a[1]))
FT = {"": "f64", "f": "f32", "l": "f80"}
for _s in FT:
    @model("frexp" + _s)
    def _frexp(e, st, a, I, f):
        e.store(st, a[1], e.fresh("exponent", integer=True), "i32")
        return st, ap1(lambda x: x if isinstance(x, _eng().Undef) else alg.fn("mantissa", x), a[0])
    @model("modf" + _s)
    def _modf(e, st, a, I, f, t=FT[_s]):
        w = ap1(lambda x: x if isinstance(x, _eng().Undef) or _int(x) else alg.fn("rtrunc", x, integer=True), a[0])
        e.store(st, a[1], w, t)
        return st, e.fp2(st, "fsub", a[0], w)
    @model("sincos" + _s)
    def _sincos(e, st, a, I, f, t=FT[_s]):
        E = _eng()
        for g, q in ((alg.sin_, a[1]), (alg.cos_, a[2])):
            e.store(st, q, ap1(lambda x: x if isinstance(x, E.Undef) else g(x), a[0]), t)
        return st, None
def _bits(g):
    def h(e, st, a, I, f):
        w = int(f["ret"][1:])
        return st, ap1(lambda x: x if isinstance(x, _eng().Undef) else g(x, w) if isinstance(x, int) else e.fresh("bits", integer=True, nonneg=True), a[0])
    return h
INTR.append(("llvm.ctlz.", _bits(lambda x, w: w - x.bit_length())))
INTR.append(("llvm.cttz.", _bits(lambda x, w: (x & -x).bit_length() - 1 if x else w)))
INTR.append(("llvm.ctpop.", _bits(lambda x, w: bin(x).count("1"))))
@intr("llvm.threadlocal.address")
def _tls(e, st, a, I, f): return st, a[0]
@intr("llvm.abs")
def _abs(e, st, a, I, f):
    w = int(f["ret"][1:])
    c = e.icmp(st, "slt", a[0], 0, f["ret"])
    return st, ite(c, e.int2(st, "sub", 0, a[0], w), a[0])
@model("abs", "labs", "llabs")
def _abs2(e, st, a, I, f): return _abs(e, st, a, I, f)
def _imm(p, pick):
    @intr("llvm." + p)
    def h(e, st, a, I, f):
        c = e.icmp(st, ("s" if p[0] == "s" else "u") + "lt", a[0], a[1], f["ret"])
        return st, ite(c, a[0], a[1]) if pick == "min" else ite(c, a[1], a[0])
for _p in ("smin", "umin"): _imm(_p, "min")
for _p in ("smax", "umax"): _imm(_p, "max")
@intr("llvm.umul.with.overflow")
def _umulo(e, st, a, I, f):
    w = int(f["ret"][2][0][1][1:])
    if isinstance(a[0], int) and isinstance(a[1], int):
        x = a[0] * a[1]
        return st, (x % (1 << w), int(x >> w > 0))
    return st, (e.int2(st, "mul", a[0], a[1], w), 0)
@intr("llvm.va_start")
@intr("llvm.va_end")
@intr("llvm.lifetime")
@intr("llvm.dbg")
@intr("llvm.assume")
@intr("llvm.stackrestore")
@intr("llvm.prefetch")
@intr("llvm.donothing")
@intr("llvm.experimental.noalias")
def _nop(e, st, a, I, f): return st, None
@intr("llvm.stacksave")
def _ss(e, st, a, I, f): return st, _eng().NULL
@intr("llvm.expect")
def _expect(e, st, a, I, f): return st, a[0]
@intr("llvm.objectsize")
def _os(e, st, a, I, f): return st, (1 << 64) - 1
@intr("llvm.is.constant")
def _isc(e, st, a, I, f): return st, 0
@intr("llvm.eh.typeid")
def _tid(e, st, a, I, f): return st, 1
@intr("llvm.trap")
def _trap(e, st, a, I, f):
    e.event("abort", st, "trap"); return None

# ------------------------------------------------------------------ allocation
@model("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t")
def _new(e, st, a, I, f):
    n = a[0]
    if isinstance(n, Node):
        n = alg.simplify(n, st.pc)
        if isinstance(n, Node): n = max(x for x in alg.leaves(n) if isinstance(x, int))
    if not isinstance(n, int):
        raise AnalysisError("allocation of symbolic size")
    loc, fn = e.where()
    p = e.alloc(st, n, "heap@%s" % loc, "heap")
    e.counters["heap"] = e.counters.get("heap", 0) + 1
    return st, p
@model("calloc")
def _calloc(e, st, a, I, f):
    return st, e.alloc(st, a[0] * a[1], "heap@%s" % e.where()[0], "heap", "zero")
@model("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free")
def _del(e, st, a, I, f):
    p = a[0]
    E = _eng()
    def one(p, c):  # c: the condition under which this is the pointer
        if isinstance(p, E.Undef):
            e.event("uninit", st, "delete of an indeterminate pointer"); return
        if not isinstance(p, E.Ptr) or p.obj == 0: return
        o = st.objs.get(p.obj)
        if o is None or o.kind != "heap" or p.off != 0:
            e.event("badfree", st, "delete of memory not obtained from new (%s)" % (o.name if o else "?")); return
        twice = alg.band(st.pc, alg.band(c, o.freed))
        if isinstance(twice, Node) or twice: e.event("badfree", st, "second delete of %s" % o.name, pc=twice)
        w = st.w(p.obj)
        w.freed = alg.bor(o.freed, c)
    if isinstance(p, Node):
        p = alg.simplify(p, st.pc)
    if isinstance(p, Node):
        for q in set(l for l in alg.leaves(p) if isinstance(l, (E.Ptr, E.Undef))):
            one(q, alg.ap1(lambda x, q=q: int(x is q or (isinstance(x, E.Ptr) and isinstance(q, E.Ptr) and (x.obj, x.off) == (q.obj, q.off))), p))
    else: one(p, 1)
    return st, None

# ------------------------------------------------------------------ exceptions, termination
@model("__cxa_allocate_exception")
def _cxa_alloc(e, st, a, I, f):
    return st, e.alloc(st, a[0], "exception", "exc", "zero")
@model("__cxa_free_exception")
def _cxa_free(e, st, a, I, f): return st, None
@model("__cxa_throw")
def _cxa_throw(e, st, a, I, f):
    t = a[1]
    nm = "?"
    E = _eng()
    if isinstance(t, E.Ptr) and t.obj in st.objs: nm = st.objs[t.obj].name
    text = sget(e, st, E.Ptr(a[0].obj, a[0].off + 8)) if nm == "typeinfo for vmml::exception" and isinstance(a[0], E.Ptr) else None
    e.event("throw", st, "throws %s" % nm, snap=st.fork() if True else None, type=nm, text=text)
    e.exc.append(st)
    return None
@pattern(r"^std::__throw_")
def _throwstd(e, st, a, I, f):
    e.event("throw", st, "throws via %s" % f["dem"].split("(")[0], snap=st.fork(), type="std", text=None)
    e.exc.append(st)
    return None
@model("__cxa_rethrow", "_Unwind_Resume")
def _rethrow(e, st, a, I, f):
    e.exc.append(st); return None
@model("__assert_fail", "abort", "_ZSt9terminatev", "exit", "_exit", "__cxa_pure_virtual")
def _abort(e, st, a, I, f):
    e.event("abort", st, "calls %s" % f["dem"], snap=st.fork())
    return None
@pattern(r"^__glibcxx_assert_fail|^std::__glibcxx_assert_fail")
def _gabort(e, st, a, I, f):
    e.event("abort", st, "library assertion", snap=st.fork()); return None
@model("__cxa_guard_acquire")
def _ga(e, st, a, I, f):
    v = e.load(st, a[0], "i8")
    if isinstance(v, int) and v == 0:
        e.inguard += 1
        return st, 1
    return st, 0
@model("__cxa_guard_release")
def _gr(e, st, a, I, f):
    e.inguard -= 1
    if not e.inguard: e.guard_done(st)
    e.store(st, a[0], 1, "i8"); return st, None
@model("__cxa_guard_abort")
def _gab(e, st, a, I, f):
    e.inguard -= 1; return st, None
@model("__cxa_begin_catch", "__cxa_end_catch")
def _gx(e, st, a, I, f): return st, _eng().NULL
@model("__cxa_atexit")
def _atexit(e, st, a, I, f): return st, 0
@model("rand", "random")
def _rand(e, st, a, I, f):
    e.effect("draws from rand()")
    return st, e.fresh("rand", integer=True, nonneg=True)
@model("srand")
def _srand(e, st, a, I, f):
    e.effect("calls srand()")
    st.trace = st.trace + (("srand", a[0], e.counters.get("rand", 0)),)
    return st, None
@model("time")
def _time(e, st, a, I, f):
    e.effect("reads the clock")
    return st, e.fresh("time", integer=True)

# ------------------------------------------------------------------ streams
# complete-object sizes of the libstdc++ stream classes; the virtual ios_base
# sub-object occupies the last 264 bytes
IOS = 264
FLAGS, PREC, WIDTH, STATE, MASK, FILL = 24, 8, 16, 32, 28, 224
def ios_of(e, st, p):
    """the ios_base sub-object of a stream pointer"""
    E = _eng()
    o = st.objs[p.obj]
    return E.Ptr(p.obj, o.size - IOS)
def make_stream(e, st, p, size, name, opened=True):
    """lay out a stream object in place: vtable pointers and formatting state"""
    E = _eng()
    vt = e.alloc(st, 64, "vtable", "global")
    e.raw_store(st, E.Ptr(vt.obj, 0), size - IOS, 8)      # vbase offset at vptr-24
    e.raw_store(st, p, E.Ptr(vt.obj, 24), 8)
    b = size - IOS
    vt2 = e.alloc(st, 64, "vtable", "global")
    e.raw_store(st, E.Ptr(vt2.obj, 0), 0, 8)
    for off, v, n in ((0, E.Ptr(vt2.obj, 24), 8), (PREC, 6, 8), (WIDTH, 0, 8), (FLAGS, 0x1002, 4), (28, 0, 4), (STATE, 0, 4)):
        e.raw_store(st, E.Ptr(p.obj, p.off + b + off), v, n)
    if size >= 512: e.raw_store(st, E.Ptr(p.obj, p.off + b - 8), 0, 8)
def stream_init(e, st, p, size, name):
    st.w(p.obj)
    make_stream(e, st, p, size, name)

SIZES = [("basic_ofstream", 512), ("basic_ifstream", 520), ("basic_fstream", 528),
         ("basic_ostringstream", 376), ("basic_istringstream", 384), ("basic_stringstream", 392)]
@pattern(r"^std::(__cxx11::)?basic_[io]?(f|string)stream<char.*>::basic_[io]?(f|string)stream\(")
def _streamctor(e, st, a, I, f):
    E = _eng()
    size = next(s for n, s in SIZES if n in f["dem"])
    base = a[0]
    make_stream(e, st, base, size, f["dem"])
    sig = f["dem"].split("(", 1)[1]
    if "fstream" in f["dem"] and sig.startswith(("char const*", "std::__cxx11")):
        _open(e, st, base, size, a[1:] if isinstance(a[1], E.Ptr) and "vtable" not in getattr(st.objs.get(a[1].obj), "name", "") else a[2:], sig)
    st.trace = st.trace + (("stream", "construct", base.obj),)
    return st, None
def _open(e, st, base, size, args=(), sig=""):
    E = _eng()
    path = None
    if args: path = sget(e, st, args[0]) if sig.startswith("std::__cxx11") else known_cstring(e, st, args[0])
    st.trace = st.trace + (("stream", "open", base.obj, path),)
    ok = e.boolvar("open_succeeds")
    e.effect("opens a file")
    b = base.off + size - IOS
    e.raw_store(st, E.Ptr(base.obj, b + STATE), ite(ok, 0, 4), 4)
    e.raw_store(st, E.Ptr(base.obj, b - 8), ite(ok, 1, 0), 8)
def _size(e, st, p): return st.objs[p.obj].size
@pattern(r"^std::basic_[io]?fstream<char.*>::open\(")
def _streamopen(e, st, a, I, f):
    _open(e, st, a[0], next(s for n, s in SIZES if n in f["dem"]), a[1:], f["dem"].split("(", 1)[1])
    return st, None
@pattern(r"^std::basic_[io]?fstream<char.*>::is_open\(")
def _isopen(e, st, a, I, f):
    E = _eng()
    size = next(s for n, s in SIZES if n in f["dem"])
    v = e.load(st, E.Ptr(a[0].obj, a[0].off + size - IOS - 8), "i64")
    return st, ap1(lambda x: int(x != 0) if isinstance(x, int) else x, v)
@pattern(r"^std::basic_[io]?fstream<char.*>::close\(")
def _close(e, st, a, I, f):
    E = _eng()
    size = next(s for n, s in SIZES if n in f["dem"])
    e.raw_store(st, E.Ptr(a[0].obj, a[0].off + size - IOS - 8), 0, 8)
    st.trace = st.trace + (("stream", "close", a[0].obj),)
    return st, None
@pattern(r"^std::(__cxx11::)?basic_[io]?(f|string)stream<char.*>::~basic_")
def _sdtor(e, st, a, I, f):
    st.trace = st.trace + (("stream", "close", a[0].obj),)
    return st, None
def _state(e, st, p):
    v = e.load(st, _eng().Ptr(p.obj, p.off + STATE), "i32")
    return v
def _ios_test(g):
    def h(e, st, a, I, f):
        E = _eng()
        v = e.load(st, e.padd(a[0], STATE), "i32")
        return st, ap1(lambda x: g(x) if isinstance(x, int) else (x if isinstance(x, E.Undef) else e.boolvar("iostate")), v)
    return h
pattern(r"^std::basic_ios<char.*>::good\(")(_ios_test(lambda x: int(x == 0)))
pattern(r"^std::basic_ios<char.*>::fail\(")(_ios_test(lambda x: int(x & 5 != 0)))
pattern(r"^std::basic_ios<char.*>::bad\(")(_ios_test(lambda x: int(x & 1 != 0)))
pattern(r"^std::basic_ios<char.*>::eof\(")(_ios_test(lambda x: int(x & 2 != 0)))
pattern(r"^std::basic_ios<char.*>::operator!\(")(_ios_test(lambda x: int(x & 5 != 0)))
pattern(r"^std::basic_ios<char.*>::operator bool\(")(_ios_test(lambda x: int(x & 5 == 0)))
pattern(r"^std::basic_ios<char.*>::operator void\*\(")(_ios_test(lambda x: int(x & 5 == 0)))
@pattern(r"^std::basic_ios<char.*>::rdstate\(")
def _rds(e, st, a, I, f): return st, e.load(st, e.padd(a[0], STATE), "i32")
@pattern(r"^std::basic_ios<char.*>::(clear|setstate)\(")
def _clr(e, st, a, I, f):
    old = e.load(st, e.padd(a[0], STATE), "i32")
    new = a[1] if "clear(" in f["dem"] else ap2(lambda x, y: x | y if isinstance(x, int) and isinstance(y, int) else x, old, a[1])
    e.raw_store(st, e.padd(a[0], STATE), new, 4)
    return st, None
@pattern(r"^std::basic_ios<char.*>::fill\(")
def _fill(e, st, a, I, f):
    p = e.padd(a[0], FILL)
    old = e.load(st, p, "i8")
    if len(a) > 1: e.raw_store(st, p, a[1], 1)
    E = _eng()
    return st, 32 if isinstance(old, E.Undef) else old
@pattern(r"^std::basic_ios<char.*>::copyfmt\(")
def _copyfmt(e, st, a, I, f):
    for off, n, t in ((FLAGS, 4, "i32"), (PREC, 8, "i64"), (WIDTH, 8, "i64")):
        e.raw_store(st, e.padd(a[0], off), e.load(st, e.padd(a[1], off), t), n)
    return st, a[0]
@pattern(r"^std::basic_ios<char.*>::(basic_ios|~basic_ios|init)\(|^std::ios_base::(ios_base|~ios_base)\(")
def _iosctor(e, st, a, I, f):
    for off, v, n in ((PREC, 6, 8), (WIDTH, 0, 8), (FLAGS, 0x1002, 4), (28, 0, 4), (STATE, 0, 4)):
        e.raw_store(st, e.padd(a[0], off), v, n)
    return st, None

def emit(e, st, p, *what):
    E = _eng()
    fmt = None
    if isinstance(p, E.Ptr) and p.obj in st.objs and st.objs[p.obj].size >= 272:
        b = ios_of(e, st, p)
        fl = e.load(st, E.Ptr(b.obj, b.off + FLAGS), "i32"); pr = e.load(st, E.Ptr(b.obj, b.off + PREC), "i64")
        wd = e.load(st, E.Ptr(b.obj, b.off + WIDTH), "i64")
        fmt = (fl, pr, wd)
        if what[0] in ("value", "text", "char"): e.raw_store(st, E.Ptr(b.obj, b.off + WIDTH), 0, 8)
    name = st.objs[p.obj].name if isinstance(p, E.Ptr) and p.obj in st.objs else "?"
    if not isinstance(p, E.Ptr) or p.obj not in st.objs or st.objs[p.obj].kind == "global": e.effect("writes to " + name)
    st.trace = st.trace + (("out", name) + what + (fmt,),)

@pattern(r"^std::ostream::operator<<\(std::(ostream|basic_ios<.*>|ios_base)& ?\(\*\)")
def _manip(e, st, a, I, f):
    E = _eng()
    g = a[1]
    nm = e.mod.funcs[g.name]["dem"] if isinstance(g, E.FnPtr) else "?"
    if isinstance(g, E.FnPtr) and not e.mod.funcs[g.name]["decl"] and "ios_base" in f["dem"]:
        r = e.call(st, g.name, [ios_of(e, st, a[0])], I)
        if r is None: return None
        return r[0], a[0]
    if "endl" in nm: emit(e, st, a[0], "text", "\n")
    elif "flush" in nm: pass
    else: emit(e, st, a[0], "manip", nm)
    return st, a[0]
@pattern(r"^std::ostream::operator<<\(|^std::ostream& std::ostream::_M_insert<")
def _outval(e, st, a, I, f):
    m = re.search(r"_M_insert<(.*?)>\(", f["dem"]) or re.search(r"operator<<\((.*)\)", f["dem"])
    emit(e, st, a[0], "value", m.group(1), a[1])
    return st, a[0]
@pattern(r"^std::basic_ostream<char.*>& std::operator<<.*\(std::basic_ostream<char.*>&, (signed |unsigned )?char( const\*)?\)")
def _outtext(e, st, a, I, f):
    E = _eng()
    if isinstance(a[1], E.Ptr):
        s = cstring(e, st, a[1])
        emit(e, st, a[0], "text", s)
    else: emit(e, st, a[0], "char", a[1])
    return st, a[0]
def cstring(e, st, p):
    E = _eng()
    s = ""
    o = st.objs.get(p.obj)
    while o is not None and p.off + len(s) < o.size:
        v = e.load(st, E.Ptr(p.obj, p.off + len(s)), "i8")
        if not isinstance(v, int): return "?"
        if v == 0: break
        s += chr(v)
    return s
@pattern(r"^std::basic_ostream<char.*>& std::endl<")
def _endl(e, st, a, I, f):
    emit(e, st, a[0], "text", "\n"); return st, a[0]
@pattern(r"^std::basic_ostream<char.*>& std::operator<<.*\(std::basic_ostream<char.*>&, std::_(Setw|Setprecision)\)")
def _setw(e, st, a, I, f):
    E = _eng()
    b = ios_of(e, st, a[0])
    v = a[1]
    v = v[0] if isinstance(v, tuple) and not hasattr(v, "_fields") else v
    e.raw_store(st, E.Ptr(b.obj, b.off + (WIDTH if "_Setw" in f["dem"] else PREC)), v, 8)
    return st, a[0]
@pattern(r"^std::basic_ostream<char.*>& std::operator<<.*\(std::basic_ostream<char.*>&, std::_Set(iosflags)\)|std::_Resetiosflags\)")
def _setf(e, st, a, I, f):
    E = _eng()
    b = ios_of(e, st, a[0])
    p = E.Ptr(b.obj, b.off + FLAGS)
    old = e.load(st, p, "i32")
    v = a[1]
    v = v[0] if isinstance(v, tuple) and not hasattr(v, "_fields") else v
    if "_Reset" in f["dem"]: new = e.int2(st, "and", old, e.int2(st, "xor", v, 0xffffffff, 32), 32)
    else: new = e.int2(st, "or", old, v, 32)
    e.raw_store(st, p, new, 4)
    return st, a[0]
@pattern(r"^std::basic_ostream<char.*>& std::operator<<.*\(std::basic_ostream<char.*>&, std::_Setfill<char>\)")
def _setfill(e, st, a, I, f):
    E = _eng()
    b = ios_of(e, st, a[0])
    e.raw_store(st, E.Ptr(b.obj, b.off + FILL), a[1], 1)
    return st, a[0]
@pattern(r"^std::basic_ostream<char.*>& std::operator<<.*basic_string<char")
def _outstr(e, st, a, I, f):
    s = sget(e, st, a[1])
    src = e.printed.get((a[1].obj, a[1].off)) if s is None and isinstance(a[1], _eng().Ptr) else None
    if src: # what was printed into a string stream is printed
        for x in src: emit(e, st, a[0], *x[2:-1])
    else: emit(e, st, a[0], "text", "<string>" if s is None else s)
    return st, a[0]
@pattern(r"^std::(ostream|basic_ostream<char.*>)::(write|put)\(")
def _write(e, st, a, I, f):
    E = _eng()
    if "write(" in f["dem"]:
        n = a[2]
        if not isinstance(n, int): raise AnalysisError("write of symbolic length")
        pl = e.read_range(st, a[1], n)
        emit(e, st, a[0], "raw", n, tuple((p, s, v) for p, s, v in pl) if pl else None)
    else: emit(e, st, a[0], "char", a[1])
    return st, a[0]
@pattern(r"^std::(ostream|istream|basic_[io]stream<char.*>)::(flush|seekp|seekg|tellp|tellg)\(")
def _flush(e, st, a, I, f):
    if "tell" in f["dem"]: return st, e.opaque(f["ret"], "tell")
    if "seek" in f["dem"]: st.trace = st.trace + (("seek", st.objs[a[0].obj].name),)
    return st, a[0]

def _readstate(e, st, p):
    """a read either succeeds or sets failbit|eofbit; a stream already failed stays failed"""
    E = _eng()
    b = ios_of(e, st, p)
    sp = E.Ptr(b.obj, b.off + STATE)
    old = e.load(st, sp, "i32")
    ok = e.boolvar("read_ok")
    good = ap1(lambda x: int(x == 0) if isinstance(x, int) else e.boolvar("iostate"), old)
    okk = band(good, ok)
    e.raw_store(st, sp, ite(okk, old, ap1(lambda x: x | 6 if isinstance(x, int) else x, old)), 4)
    return okk, ok
@pattern(r"^std::(istream|basic_istream<char.*>)::read(some)?\(")
def _read(e, st, a, I, f):
    E = _eng()
    n = a[2]
    if not isinstance(n, int): raise AnalysisError("read of symbolic length")
    b = ios_of(e, st, a[0])
    sp = E.Ptr(b.obj, b.off + STATE)
    old = e.load(st, sp, "i32")
    good = ap1(lambda x: int(x == 0) if isinstance(x, int) else e.boolvar("iostate"), old)
    # the input is one sequence of an unknown number of bytes; reads that
    # happen at all happen after what was asked for before was delivered
    name = st.objs[a[0].obj].name
    from .streams import alternatives
    before = {sum(x[2] for x in ev if x[:2] == ("in", name) and isinstance(x[2], int)) for c, ev in alternatives(st.trace)}
    if len(before) != 1: raise AnalysisError("read at an unknown position of %s" % name)
    at = before.pop()
    G = e.available.get(name)
    if G is None: G = e.available[name] = e.fresh("available", integer=True, nonneg=True)
    full = alg.ge(G, alg.const(at + n))
    e.raw_store(st, sp, ite(band(good, full), old, ap1(lambda x: x | 6 if isinstance(x, int) else x, old)), 4)
    # a count that decides how much is copied is needed as a number
    got = 0
    if n <= 256:
        for j in range(1, n + 1): got = ite(alg.ge(G, alg.const(at + j)), j, got)
    else: got = ite(full, n, ite(alg.ge(G, alg.const(at)), alg.sub(G, alg.const(at)), 0))
    e.raw_store(st, E.Ptr(a[0].obj, a[0].off + 8), ite(good, got, 0), 8)
    q = e.check_access(st, a[1], n, "write")
    if q is not None and n:
        pieces = e.read_range(st, q, n)
        rest = None if all(isinstance(v, E.Undef) for _, _, v in pieces) else tuple((at + p, s, v) for p, s, v in pieces)
        e.raw_store(st, q, E.Slice(E.StreamBytes(name, at + n, G, rest, good), at, n), n)
    st.trace = st.trace + (("in", name, n),)
    return st, a[0]
@pattern(r"^std::(istream|basic_istream<char.*>)::gcount\(")
def _gcount(e, st, a, I, f):
    v = e.load(st, _eng().Ptr(a[0].obj, a[0].off + 8), "i64")
    return st, 0 if isinstance(v, _eng().Undef) else v
@pattern(r"^std::istream::operator>>\(|^std::istream& std::istream::_M_extract<|^std::basic_istream<char.*>& std::operator>>.*\(std::basic_istream<char.*>&, (signed |unsigned )?char&\)")
def _inval(e, st, a, I, f):
    E = _eng()
    dem = f["dem"]
    m = re.search(r"_M_extract<(.*?)>\(", dem) or re.search(r"operator>>\((.*)&\)", dem) or re.search(r", (.*)&\)$", dem)
    t = m.group(1)
    k = e.nreads; e.nreads += 1
    tt = {"double": ("f64", 8), "float": ("f32", 4), "long double": ("f80", 16), "int": ("i32", 4), "unsigned int": ("i32", 4),
          "long": ("i64", 8), "unsigned long": ("i64", 8), "short": ("i16", 2), "unsigned short": ("i16", 2), "bool": ("i8", 1)}.get(t, ("i8", 1))
    nm = "in%d" % k
    v = alg.cell(nm, integer=tt[0][0] == 'i', nonneg="unsigned" in t)
    e.raw_store(st, a[1], v, tt[1])
    _readstate(e, st, a[0])
    st.trace = st.trace + (("in", st.objs[a[0].obj].name if isinstance(a[0], E.Ptr) and a[0].obj in st.objs else "?", nm, t),)
    return st, a[0]
@pattern(r"^std::basic_istream<char.*>& std::(operator>>|getline).*basic_string<char")
def _instr(e, st, a, I, f):
    _readstate(e, st, a[0])
    st.trace = st.trace + (("in", "string"),)
    return st, a[0]

# ------------------------------------------------------------------ strings
# A string whose content is known (built from literals) has libstdc++'s layout: pointer, length,
# 16 bytes. Any other string is an opaque value without effect on anything else.
def sget(e, st, p):
    """the content of the string at p, None if it is not known"""
    E = _eng()
    if not isinstance(p, E.Ptr) or p.obj not in st.objs: return None
    o = st.objs[p.obj]
    q, n = o.cells.get(p.off), o.cells.get(p.off + 8)
    if not q or not n or not isinstance(q[1], E.Ptr) or not isinstance(n[1], int) or n[1] > 4096: return None
    return chars(e, st, q[1], n[1])
def chars(e, st, p, n):
    E = _eng()
    if not isinstance(p, E.Ptr) or p.obj not in st.objs or not isinstance(n, int) or n > 4096: return None
    o = st.objs[p.obj]
    if p.off < 0 or p.off + n > o.size: return None
    r = ""
    for i in range(n):
        v = e.load(st, E.Ptr(p.obj, p.off + i), "i8")
        if isinstance(v, E.Zeros): v = 0
        if not isinstance(v, int): return None
        r += chr(v & 255)
    return r
def known_cstring(e, st, p):
    E = _eng()
    if not isinstance(p, E.Ptr) or p.obj not in st.objs: return None
    r = cstring(e, st, p)
    return None if r == "?" else r
def sset(e, st, p, s):
    """the string at p now is s (None: unknown)"""
    E = _eng()
    if not isinstance(p, E.Ptr) or p.obj not in st.objs: return
    e.printed.pop((p.obj, p.off), None)
    if s is None:
        c = st.objs[p.obj].cells.get(p.off)
        if c and isinstance(c[1], E.Ptr):
            o = st.w(p.obj)
            for k in (p.off, p.off + 8): o.cells.pop(k, None)
        return
    q = E.Ptr(p.obj, p.off + 16) if len(s) < 16 else e.alloc(st, len(s) + 1, "characters of a string", "string")
    for i, ch in enumerate(s + "\0"): e.raw_store(st, E.Ptr(q.obj, q.off + i), ord(ch), 1)
    e.raw_store(st, p, q, 8); e.raw_store(st, e.padd(p, 8), len(s), 8)
    if q.obj != p.obj: e.raw_store(st, e.padd(p, 16), len(s), 8)
NPOS = (1 << 64) - 1
STR_T = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
_sig = {}
def sig_of(dem):
    r = _sig.get(dem)
    if r is None:
        d = dem.replace(STR_T, "STR").replace("std::allocator<char>", "A").replace("[abi:cxx11]", "")
        m = re.match(r"^STR::(operator[^(]*(?:\(\))?|~?\w+)\((.*)\)( const)?$", d)
        r = _sig[dem] = (m.group(1), [x.strip() for x in m.group(2).split(",")] if m.group(2) else [], bool(m.group(3))) if m else (None, [], False)
    return r
def arg_text(e, st, sig, a):
    """the text the arguments (of one of the usual overloads) stand for, None if unknown"""
    sig = [x for x in sig if x != "A const&"]
    t = sig[0] if sig else None
    num = [x if isinstance(x, int) else None for x in a]
    if t in ("STR const&", "STR&&"):
        s = sget(e, st, a[0])
        if s is None: return None
        if len(sig) >= 2:
            if None in num[1:len(sig)] or num[1] > len(s): return None
            return s[num[1]:][:num[2] if len(sig) > 2 else NPOS]
        return s
    if t == "char const*":
        if len(sig) == 1: return known_cstring(e, st, a[0])
        if len(sig) == 2 and sig[1] == "unsigned long": return chars(e, st, a[0], num[1])
        return None
    if t == "char" and len(sig) == 1: return None if num[0] is None else chr(num[0] & 255)
    if t == "unsigned long" and len(sig) == 2 and sig[1] == "char": return None if None in num[:2] or num[0] > 4096 else chr(num[1] & 255) * num[0]
    if t is None: return ""
    return None
def _find(nm, s, w, pos, many):
    n, k = len(s), len(w)
    if nm == "find":
        r = s.find(w, pos) if pos <= n else -1
    elif nm == "rfind":
        r = -1 if k > n else s.rfind(w, 0, min(pos, n - k) + k)
    elif nm in ("find_first_of", "find_first_not_of"):
        r = next((i for i in range(min(pos, n), n) if (s[i] in w) == (nm == "find_first_of")), -1)
    else:
        r = next((i for i in range(min(pos, n - 1), -1, -1) if (s[i] in w) == (nm == "find_last_of")), -1)
    return NPOS if r < 0 else r
@pattern(r"^std::(__cxx11::)?basic_string<char.*>::basic_string<|^std::(__cxx11::)?basic_string<char.*>::(?!basic_string)[a-z_]*<")
def _strtmpl(e, st, a, I, f):
    if a: sset(e, st, a[0], None)
    return st, a[0] if f["ret"] == "p" and a else e.opaque(f["ret"], "string")
@pattern(r"^std::(__cxx11::)?basic_string<char")
def _str(e, st, a, I, f):
    E = _eng()
    nm, sig, const = sig_of(f["dem"])
    ret = f["ret"]
    def dflt():
        if nm in ("compare",): return st, e.fresh("strcmp", integer=True)
        if nm in ("length", "size", "capacity") or nm and nm.startswith(("find", "rfind")): return st, e.fresh("strsize", integer=True, nonneg=True)
        if nm and not const and a: sset(e, st, a[0], None)
        elif nm is None and a and ret == "void": sset(e, st, a[0], None)
        if nm in ("operator[]", "at", "back", "front", "begin", "end", "cbegin", "cend", "c_str", "data", "_M_data") and ret == "p":
            q = e.alloc(st, 256, "characters of a string", "string", default="sym"); return st, E.Ptr(q.obj, 128)
        return st, a[0] if ret == "p" and a else e.opaque(ret, "string")
    if nm is None or not a: return dflt()
    if nm == "substr":
        s = sget(e, st, a[1]) if ret == "void" else None
        if s is None or not all(isinstance(x, int) for x in a[2:]) or a[2] > len(s): return dflt() if ret != "void" else (sset(e, st, a[0], None) or (st, None))
        sset(e, st, a[0], s[a[2]:][:a[3]]); return st, None
    if nm in ("rbegin", "rend", "crbegin", "crend"):
        v = sget(e, st, a[1]) if len(a) > 1 else None
        if v is None and len(a) > 1: q = E.Ptr(e.alloc(st, 256, "characters of a string", "string", default="sym").obj, 128)
        else: q = e.padd(e.load(st, a[1], "p"), 0 if "rend" in nm else len(v))
        e.raw_store(st, a[0], q, 8); return st, None
    p = a[0]
    # the parts inline functions are made of
    if nm == "_M_local_data": return st, e.padd(p, 16)
    if nm == "_M_data":
        if sig and sig[0] == "char*": e.raw_store(st, p, a[1], 8); return st, None
        return (st, e.load(st, p, "p")) if sget(e, st, p) is not None or isinstance(p, E.Ptr) and p.obj in st.objs and isinstance((st.objs[p.obj].cells.get(p.off) or (0, 0))[1], E.Ptr) else dflt()
    if nm in ("_M_capacity", "_M_set_length", "_M_length") and sig:
        if nm == "_M_capacity": e.raw_store(st, e.padd(p, 16), a[1], 8)
        else:
            e.raw_store(st, e.padd(p, 8), a[1], 8)
            q = st.objs[p.obj].cells.get(p.off) if isinstance(p, E.Ptr) and p.obj in st.objs else None
            if nm == "_M_set_length" and q and isinstance(q[1], E.Ptr) and isinstance(a[1], int): e.raw_store(st, e.padd(q[1], a[1]), 0, 1)
        return st, None
    if nm == "_M_create":
        n = e.load(st, a[1], "i64")
        return (st, e.alloc(st, n + 1, "characters of a string", "string")) if isinstance(n, int) and n < 4096 else dflt()
    if nm == "~basic_string" and isinstance(p, E.Ptr) and p.obj in st.objs:
        q = st.objs[p.obj].cells.get(p.off)
        if q and isinstance(q[1], E.Ptr) and q[1].obj in st.objs and st.objs[q[1].obj].kind == "string": st.w(q[1].obj).freed = 1
    if nm in ("_M_dispose", "_M_destroy", "~basic_string", "reserve", "shrink_to_fit"): return st, None
    if nm == "basic_string":
        sset(e, st, p, None)
        sset(e, st, p, arg_text(e, st, sig, a[1:])); return st, None
    s = sget(e, st, p)
    if nm in ("operator=", "assign"):
        sset(e, st, p, arg_text(e, st, sig, a[1:])); return st, p
    if s is None: return dflt()
    if nm in ("append", "operator+=", "push_back"):
        w = arg_text(e, st, sig, a[1:])
        if w is None: return dflt()
        sset(e, st, p, s + w); return st, p
    if nm in ("size", "length"): return st, len(s)
    if nm == "empty": return st, int(not s)
    if nm in ("c_str", "data"): return st, e.load(st, p, "p")
    if nm in ("operator[]", "at", "back", "front", "begin", "end", "cbegin", "cend"):
        i = a[1] if nm in ("operator[]", "at") else 0 if nm in ("front", "begin", "cbegin") else len(s) - (nm == "back")
        if isinstance(i, int) and i < len(s) + (nm not in ("at", "back", "front")): return st, e.padd(e.load(st, p, "p"), i)
        return dflt()
    if nm in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
        if sig[0] == "char": w = chr(a[1] & 255) if isinstance(a[1], int) else None
        elif len(sig) == 3: w = chars(e, st, a[1], a[3])
        else: w = arg_text(e, st, sig[:1], a[1:2])
        pos = a[2] if len(a) > 2 else (NPOS if nm in ("rfind", "find_last_of", "find_last_not_of") else 0)
        if w is None or not isinstance(pos, int): return dflt()
        return st, _find(nm, s, w, pos, 0)
    if nm == "compare":
        k = sig
        if len(k) >= 3 and k[0] == k[1] == "unsigned long":
            if not isinstance(a[1], int) or not isinstance(a[2], int) or a[1] > len(s): return dflt()
            x = s[a[1]:][:a[2]]; w = arg_text(e, st, k[2:], a[3:])
        else: x = s; w = arg_text(e, st, k, a[1:])
        return dflt() if w is None else (st, (x > w) - (x < w) & 0xffffffff)
    if nm == "erase" and sig == ["unsigned long", "unsigned long"] and all(isinstance(x, int) for x in a[1:]) and a[1] <= len(s):
        sset(e, st, p, s[:a[1]] + s[a[1]:][a[2]:]); return st, p
    if nm == "insert" and sig[:1] == ["unsigned long"] and isinstance(a[1], int) and a[1] <= len(s):
        w = arg_text(e, st, sig[1:], a[2:])
        if w is not None: sset(e, st, p, s[:a[1]] + w + s[a[1]:]); return st, p
    if nm == "clear": sset(e, st, p, ""); return st, None
    if nm == "pop_back" and s: sset(e, st, p, s[:-1]); return st, None
    if nm == "resize" and isinstance(a[1], int) and a[1] < 4096: sset(e, st, p, (s + "\0" * 4096)[:a[1]] if a[1] > len(s) else s[:a[1]]); return st, None
    if nm == "swap":
        t = sget(e, st, a[1]); sset(e, st, p, t); sset(e, st, a[1], s); return st, None
    return dflt()
@pattern(r"^std::(__cxx11::)?basic_[io]?stringstream<char.*>::str\(.*\) const")
def _streamstr(e, st, a, I, f):
    """the text printed into a string stream; where numbers of unknown value are in it, what was printed"""
    E = _eng()
    tr = st.trace; k = max([i for i, x in enumerate(tr) if x[0] == "stream" and x[1] in ("construct", "reset") and x[2] == a[1].obj] or [-1])
    sset(e, st, a[0], None)
    if k < 0 or any(x[0] == "gate" for x in tr[k:]): return st, None
    out = [x for x in tr[k:] if x[0] == "out" and x[1] == st.objs[a[1].obj].name]
    text = "" if tr[k][1] == "construct" else tr[k][3] or None     # a later write would go over the text
    if tr[k][1] == "reset" and (tr[k][3] == "" or not out): text = tr[k][3]
    for x in out if text is not None else ():
        if x[2] == "text" and x[3] != "<string>": text += x[3]
        elif x[2] == "char" and isinstance(x[3], int): text += chr(x[3] & 255)
        elif x[2] == "value" and x[3] in ("short", "unsigned short", "int", "long", "unsigned int", "unsigned long") and isinstance(x[4], int) and x[-1] and x[-1][0] == 0x1002:
            w = 32 if "int" in x[3] else 16 if "short" in x[3] else 64
            n = x[4] & (1 << w) - 1
            text += str(n - (1 << w) if "unsigned" not in x[3] and n >> (w - 1) else n)
        else: text = None; break
    sset(e, st, a[0], text)
    if text is None: e.printed[(a[0].obj, a[0].off)] = out
    return st, None
@pattern(r"^std::(bad_exception|exception)::what\(")
def _what(e, st, a, I, f):
    q = e.alloc(st, 16, "text of std::exception", "static")
    _put(e, st, q, "std::exception"); return st, q
@pattern(r"^std::allocator<char>|^std::(__cxx11::)?basic_[io]?stringstream<char.*>::str\(|^std::exception::|^std::bad_|^std::(logic|runtime)_error|^std::out_of_range|^std::invalid_argument|^std::range_error|^std::domain_error|^std::locale|^std::ios_base::Init")
def _strlike(e, st, a, I, f):
    E = _eng()
    r = f["ret"]
    if r == "p" and a: return st, a[0]
    if "stringstream" in f["dem"] and "::str(" in f["dem"] and len(a) == 2 and r == "void" and isinstance(a[0], E.Ptr):
        st.trace = st.trace + (("stream", "reset", a[0].obj, sget(e, st, a[1])),); return st, None
    if "stringstream" in f["dem"] and r == "void" and a: sset(e, st, a[0], None)
    return st, e.opaque(r, "string")
@pattern(r"^std::__detail::_List_node_base::_M_hook\(")
def _lhook(e, st, a, I, f):
    node, pos = a[0], a[1]
    prev = e.load(st, e.padd(pos, 8), "p")
    e.store(st, node, pos, "p"); e.store(st, e.padd(node, 8), prev, "p")
    e.store(st, prev, node, "p"); e.store(st, e.padd(pos, 8), node, "p")
    return st, None
@pattern(r"^std::__detail::_List_node_base::_M_unhook\(")
def _lunhook(e, st, a, I, f):
    nx, pv = e.load(st, a[0], "p"), e.load(st, e.padd(a[0], 8), "p")
    e.store(st, pv, nx, "p"); e.store(st, e.padd(nx, 8), pv, "p")
    return st, None
@pattern(r"^std::__detail::_List_node_base|^std::_Rb_tree")
def _bad(e, st, a, I, f): raise AnalysisError("unmodelled " + f["dem"])
