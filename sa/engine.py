"""Forward value-flow analysis of LLVM IR (unoptimised, as emitted from /repo's
current sources).  Every value is kept as its normal form over the inputs (see
alg.py).  Control flow is not explored path by path: at a branch on an unknown
condition both arms are analysed up to their immediate post-dominator and the
two abstract states are joined cell-wise into gated values.  Loops are followed
as long as their condition is decided by constants."""
import json, struct, sys
from collections import namedtuple
from fractions import Fraction
from . import alg
from .alg import (Poly, Node, ZERO, ONE, AnalysisError, ap1, ap2, apn, ite, band,
                  bor, bnot, same)

sys.setrecursionlimit(200000)
EXIT = -1
Ptr = namedtuple("Ptr", "obj off")
NULL = Ptr(0, 0)
FnPtr = namedtuple("FnPtr", "name")
Slice = namedtuple("Slice", "val off size")     # bytes [off,off+size) of a stored value
Zeros = namedtuple("Zeros", "size")
# got: number of bytes that are defined; rest: what the others hold, as (position, size, value); cond: when anything was read at all
StreamBytes = namedtuple("StreamBytes", "name size got rest cond", defaults=(None, None, 1))

class Undef:
    __slots__ = ("what",)
    def __init__(self, what): self.what = what
    def __repr__(self): return "<indeterminate: %s>" % self.what
UNDEF = Undef("value")

class NotANumber(Undef):
    """the IEEE not-a-number, as an operand: arithmetic keeps it, comparisons do not hold"""
    def __repr__(self): return "NaN"
NAN = NotANumber("NaN")

class Concat:
    __slots__ = ("parts",)
    def __init__(self, parts): self.parts = tuple(parts)
    def __repr__(self): return "Concat%r" % (self.parts,)

class Bits:
    """fixed-width integer as a tuple of boolean diagrams (bit 0 first)"""
    __slots__ = ("b",)
    tab = {}
    def __new__(cls, b):
        k = tuple(alg._ck(x) for x in b)
        r = cls.tab.get(k)
        if r is None:
            r = object.__new__(cls); r.b = tuple(b); cls.tab[k] = r
        return r
    def __repr__(self): return "Bits(%s)" % "".join("?" if isinstance(x, Node) else str(x) for x in reversed(self.b))

class Interval:
    """mul*sym + add, sym an integer in [lo,hi] (width w, never wrapping)"""
    __slots__ = ("sym", "lo", "hi", "mul", "add", "w")
    def __init__(self, sym, lo, hi, mul, add, w):
        self.sym, self.lo, self.hi, self.mul, self.add, self.w = sym, lo, hi, mul, add, w
    def rng(self):
        a = self.mul * self.lo + self.add; b = self.mul * self.hi + self.add
        return (a, b) if a <= b else (b, a)
    def key(self): return (self.sym, self.lo, self.hi, self.mul, self.add, self.w)
    def __eq__(self, o): return isinstance(o, Interval) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self): return "%d*%s+%d" % (self.mul, self.sym, self.add)

class SplitRequest(Exception):
    """the interval class of `sym` must be split: [lo,at-1] and [at,hi]"""
    def __init__(self, sym, at): self.sym, self.at = sym, at

class Obj:
    __slots__ = ("size", "name", "cells", "kind", "tok", "freed", "born", "default", "ro")
    def __init__(self, size, name, kind, default="undef", ro=False):
        self.size = size; self.name = name; self.kind = kind
        self.cells = {}; self.tok = None; self.freed = 0; self.born = 1; self.default = default; self.ro = ro
    def copy(self):
        o = Obj(self.size, self.name, self.kind, self.default, self.ro)
        o.cells = dict(self.cells); o.freed = self.freed; o.born = self.born
        return o

class State:
    __slots__ = ("objs", "pc", "trace", "tok")
    def __init__(self):
        self.objs = {}; self.pc = 1; self.trace = (); self.tok = object()
    def fork(self):
        s = State(); s.objs = dict(self.objs); s.pc = self.pc; s.trace = self.trace
        self.tok = object()
        return s
    def w(self, i):
        o = self.objs[i]
        if o.tok is not self.tok:
            o = o.copy(); o.tok = self.tok; self.objs[i] = o
        return o

# ------------------------------------------------------------------ helpers
def tsize(t):
    if isinstance(t, str):
        if t[0] == 'i': return (int(t[1:]) + 7) // 8
        return {"f32": 4, "f64": 8, "f80": 16, "p": 8}.get(t, 0)
    if t[0] == 'V': return t[1] * t[2]
    if t[0] == 'A': return t[1] * t[2]
    return t[1]

def is_fp(t): return t in ("f32", "f64", "f80")
def is_int(t): return isinstance(t, str) and t[0] == 'i'

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v

def decode_fp(t, hexs):
    b = int(hexs, 16)
    if t == "f64":
        d = struct.unpack("<d", struct.pack("<Q", b))[0]
    elif t == "f32":
        d = struct.unpack("<f", struct.pack("<I", b))[0]
    else:
        s = b >> 79; e = (b >> 64) & 0x7fff; m = b & ((1 << 64) - 1)
        if e == 0x7fff: return alg.cell("inf") if not s else alg.neg(alg.cell("inf"))
        v = Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
        return alg.const(-v if s else v)
    if d != d: return NAN
    if d in (float("inf"), float("-inf")):
        c = alg.cell("inf")
        return c if d > 0 else alg.neg(c)
    return alg.const(Fraction(d))

def mkint(p, w):
    """polynomial over Z/2^w in normal form; constants become python ints"""
    M = 1 << w; H = M >> 1
    if alg.is_const(p):
        c = alg.cval(p)
        if isinstance(c, Fraction): return p
        return c % M
    bad = False
    for c in p.t.values():
        if isinstance(c, Fraction): return p
        if not -H <= c < H: bad = True
    if not bad: return p
    t = {}
    for m, c in p.t.items():
        c %= M
        if c >= H: c -= M
        if c: t[m] = c
    q = alg.mk(t)
    if alg.is_const(q): return alg.cval(q) % M
    return q

def topoly(v, w):
    if isinstance(v, int): return alg.const(sgn(v % (1 << w), w))
    if isinstance(v, Poly): return v
    return None

def tobits(v, w):
    if isinstance(v, Bits): return v
    if isinstance(v, int): return Bits([(v >> i) & 1 for i in range(w)])
    if isinstance(v, Poly):
        nm = str(v)
        out = []
        for i in range(w):
            var = alg.mkvar(alg.cell("bit%d(%s)" % (i, nm)), nonneg=True)
            out.append(alg.node(var, 1, 0, 1))
        return Bits(out)
    return None

def frombits(b):
    if all(isinstance(x, int) for x in b):
        return sum(x << i for i, x in enumerate(b))
    # recognise the untouched bits of a symbol
    x0 = b[0]
    if isinstance(x0, Node):
        nm = str(alg.VARS[x0.v][0])
        if nm.startswith("bit0("):
            src = nm[5:-1]
            ok = True
            for i, x in enumerate(b):
                if not isinstance(x, Node) or str(alg.VARS[x.v][0]) != "bit%d(%s)" % (i, src) or x.ch[1] != 0 or x.ch[2] != 1:
                    ok = False; break
            if ok and src in _bitsrc: return _bitsrc[src]
    return Bits(b)
_bitsrc = {}

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = d["funcs"]; self.globals = d["globals"]; self.files = d["files"]
        self.code = {}
    def loc(self, l):
        if not l: return "?"
        return "%s:%d" % (self.files[l[0]], l[1])

class Fn:
    """decoded function: blocks of closures plus the post-dominator tree"""
    def __init__(self, mod, name):
        f = mod.funcs[name]
        self.name = name; self.dem = f["dem"]; self.f = f; self.mod = mod
        self.n = f["n"]; self.args = f["args"]; self.ret = f["ret"]
        self.blocks = f["blocks"]
        self.phis = []
        for b in self.blocks:
            self.phis.append([i for i in b if i["o"] == "phi"])
        self._pdom()
    def succ(self, b):
        i = self.blocks[b][-1]
        o = i["o"]
        if o == "br": return i["b"]
        if o == "switch": return [i["df"]] + [x[1] for x in i["cs"]]
        if o == "invoke": return [i["nd"]]
        return []
    def _pdom(self):
        n = len(self.blocks)
        succ = [list(dict.fromkeys(self.succ(b))) for b in range(n)]
        exits = [b for b in range(n) if self.blocks[b][-1]["o"] in ("ret", "resume")]
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in succ[b]: pred[s].append(b)
        live = set(exits); st = list(exits)
        while st:
            b = st.pop()
            for p in pred[b]:
                if p not in live: live.add(p); st.append(p)
        self.live = live
        # iterative post-dominators on live blocks, virtual exit = EXIT
        order = []; seen = set()
        def dfs(r):
            stack = [(r, iter(pred[r]))]; seen.add(r)
            while stack:
                b, it = stack[-1]
                for p in it:
                    if p in live and p not in seen:
                        seen.add(p); stack.append((p, iter(pred[p]))); break
                else:
                    stack.pop(); order.append(b)
        for e in exits:
            if e not in seen: dfs(e)
        rpo = order[::-1]
        num = {b: i + 1 for i, b in enumerate(rpo)}; num[EXIT] = 0
        idom = {EXIT: EXIT}
        changed = True
        def inter(a, b):
            while a != b:
                while num[a] > num[b]: a = idom[a]
                while num[b] > num[a]: b = idom[b]
            return a
        while changed:
            changed = False
            for b in rpo:
                ss = [s for s in succ[b] if s in live and s in idom]
                if b in exits: ss.append(EXIT)
                if not ss: continue
                new = ss[0]
                for s in ss[1:]: new = inter(new, s)
                if idom.get(b) != new: idom[b] = new; changed = True
        self.ipdom = idom

class Frame:
    __slots__ = ("fn", "env", "allocas", "ret")
    def __init__(self, fn):
        self.fn = fn; self.env = [None] * fn.n; self.allocas = []

class Engine:
    def __init__(self, mod, mode="f64", unwind=False, budget=6000000):
        self.mod = mod
        self.mode = mode            # widest element type analysed: truncation below it is opaque
        self.unwind = unwind
        self.budget = budget
        self.fns = {}
        self.events = []
        self.nobj = 0
        self.steps = 0
        self.stack = []
        self.exc = []
        self.gobj = {}
        self.unknown = {}
        self.calls = set()
        self.counters = {}
        self.curloc = None
        self.visited = set()
        from . import models
        self.models = models
        self.nreads = 0
        self.available = {}
        self.effects = {}
        self.inguard = 0
        self.guardobjs = set()
        self.printed = {}
        self.prelude = False

    # ---------------------------------------------------------------- events
    def where(self):
        l = self.mod.loc(self.curloc) if self.curloc else "?"
        fn = self.stack[-1].fn.dem if self.stack else "?"
        return l, fn
    def callchain(self):
        """innermost location inside /repo, outermost first"""
        return [fr.fn.dem for fr in self.stack]
    def event(self, kind, st, detail, **kw):
        l, fn = self.where()
        e = dict(kind=kind, pc=st.pc, loc=l, fn=fn, detail=detail, chain=self.callchain())
        e.update(kw)
        self.events.append(e)

    def effect(self, what):
        if self.prelude: return
        if what not in self.effects:
            l, fn = self.where()
            chain = [c for c in self.callchain() if "vmml::" in c]
            self.effects[what] = "%s in %s" % (l, chain[-1] if chain else fn)

    def guard_done(self, st):
        """a function-local static has been initialised: whatever its first caller passed must not have gone into it"""
        def depends(v):
            if isinstance(v, Node): v = alg.simplify(v, st.pc)
            if isinstance(v, Poly): return not alg.is_const(v)
            if isinstance(v, (Node, Interval)): return True
            if isinstance(v, Bits): return any(not isinstance(b, int) for b in v.b)
            if isinstance(v, Ptr):
                o = st.objs.get(v.obj)
                return not (isinstance(v.off, int) and (v.obj == 0 or o is not None and o.kind not in ("stack", "arg")))
            if isinstance(v, Slice): return depends(v.val)
            if isinstance(v, Concat): return any(depends(x) for _, x in v.parts)
            return False
        for i in sorted(self.guardobjs):
            o = st.objs.get(i)
            if o is None or o.freed: continue
            if o.kind == "global" and o.name.startswith(("guard variable", "vtable", "std::")): continue
            if any(depends(c[1]) for c in o.cells.values()):
                self.effect("the first call's operands stay in " + o.name)
            elif o.kind == "heap": st.w(i).kind = "static heap"     # lives as long as the static that holds it
        self.guardobjs = set()

    def fresh(self, base, integer=False, nonneg=False):
        n = self.counters.get(base, 0); self.counters[base] = n + 1
        return alg.cell("%s#%d" % (base, n), integer=integer, nonneg=nonneg)

    def boolvar(self, base):
        p = self.fresh(base, integer=True, nonneg=True)
        v = alg.mkvar(p, nonneg=True)
        return alg.node(v, 1, 0, 1)

    # ---------------------------------------------------------------- memory
    def alloc(self, st, size, name, kind, default="undef", ro=False):
        self.nobj += 1
        o = Obj(size, name, kind, default, ro); o.tok = st.tok; o.born = st.pc
        st.objs[self.nobj] = o
        return Ptr(self.nobj, 0)

    def globalptr(self, st, name, off):
        i = self.gobj.get(name)
        if i is None:
            g = self.mod.globals[name]
            self.nobj += 1
            i = self.nobj
            self.gobj[name] = i
        if i not in st.objs:
            g = self.mod.globals[name]
            o = Obj(g["s"], g["dem"] if g["dem"] else name, "global", "undef" if g["init"] is not None else "sym", bool(g["c"]))
            if g["init"] is not None:
                for c in g["init"]:
                    if c[2] == "Z":
                        if c[1]: o.cells[c[0]] = (c[1], Zeros(c[1]), None)
                    elif c[2] == "U": pass
                    else: o.cells[c[0]] = (c[1], self.constant(st, c[3]), None)
            o.tok = None
            st.objs[i] = o
        return Ptr(i, off)

    def constant(self, st, c):
        k = c[0]
        if k == "i": return c[2] % (1 << c[1])
        if k == "f": return decode_fp(c[1], c[2])
        if k == "n": return NULL
        if k == "u": return self.zero_or_undef(c[1], True)
        if k == "z": return self.zero_or_undef(c[1], False)
        if k == "g": return self.globalptr(st, c[1], c[2])
        if k == "fn": return FnPtr(c[1])
        if k == "agg": return tuple(self.constant(st, x) for x in c[2])
        if k == "off":
            p = self.constant(st, c[1])
            return Ptr(p.obj, p.off + c[2]) if isinstance(p, Ptr) else p
        if k == "cast": return self.constant(st, c[2])
        if k == "md": return None
        raise AnalysisError("constant %r" % (c,))

    def zero_or_undef(self, t, undef):
        if isinstance(t, str):
            if undef: return UNDEF
            if is_fp(t): return ZERO
            if t == "p": return NULL
            return 0
        if t[0] == 'S': return tuple(self.zero_or_undef(x[1], undef) for x in t[2])
        return tuple(self.zero_or_undef(t[3], undef) for _ in range(t[1]))

    def typed_zero(self, t): return self.zero_or_undef(t, False)

    def coerce(self, v, t, size):
        """reinterpret a stored value as type t"""
        if isinstance(v, Poly):
            if is_fp(t) or is_int(t) :
                return v
            if t == "p": return v
        if isinstance(v, int) and is_fp(t):
            if v == 0: return ZERO
            if t == "f64": return decode_fp("f64", "%x" % v)
            if t == "f32": return decode_fp("f32", "%x" % v)
        if isinstance(v, int) and t == "p" and v == 0: return NULL
        if isinstance(v, Zeros): return self.typed_zero(t)
        if isinstance(v, Slice):
            if isinstance(v.val, StreamBytes):
                nm = "%s[%d:%d]" % (v.val.name, v.off, v.size)
                x = alg.cell(nm, integer=not is_fp(t))
                if v.val.got is None: return x
                have = band(v.val.cond, alg.ge(v.val.got, alg.const(v.off + v.size)))
                if v.val.rest is None: return ite(have, x, Undef("bytes beyond those read into " + v.val.name))
                parts = [(min(q + n, v.off + v.size) - max(q, v.off), self.slice(b, max(q, v.off) - q, min(q + n, v.off + v.size) - max(q, v.off), n))
                         for q, n, b in v.val.rest if q < v.off + v.size and q + n > v.off]
                none = alg.bor(alg.bnot(v.val.cond), alg.le(v.val.got, alg.const(v.off)))
                return ite(have, x, ite(none, self.from_parts(parts, t, v.size), alg.cell("%s partially[%d:%d]" % (v.val.name, v.off, v.size), integer=not is_fp(t))))
            if isinstance(v.val, int) :
                x = (v.val >> (8 * v.off)) & ((1 << (8 * v.size)) - 1)
                return self.coerce(x, t, size)
            if isinstance(v.val, Poly) and alg.is_const(v.val):
                pass
        if isinstance(v, StreamBytes):
            return self.coerce(Slice(v, 0, v.size), t, size)
        return v

    def slice(self, v, off, size, total):
        if off == 0 and size == total: return v
        if isinstance(v, Node): return ap1(lambda x: self.slice(x, off, size, total), v)
        if isinstance(v, Zeros): return Zeros(size)
        if isinstance(v, Undef): return v
        if isinstance(v, int): return (v >> (8 * off)) & ((1 << (8 * size)) - 1)
        if isinstance(v, Slice): return Slice(v.val, v.off + off, size)
        if isinstance(v, Bits): return frombits(v.b[8 * off:8 * (off + size)])
        return Slice(v, off, size)

    def raw_read(self, o, off, size):
        """list of (size, value) pieces covering [off, off+size)"""
        c = o.cells.get(off)
        if c is not None and c[0] == size: return [(size, c[1])]
        out = []
        pos = off
        end = off + size
        items = sorted((k, v) for k, v in o.cells.items() if k < end and k + v[0] > off)
        for k, (n, v, d) in items:
            if k > pos:
                out.append((k - pos, self.default(o, pos, k - pos)))
                pos = k
            a = pos - k
            m = min(n - a, end - pos)
            out.append((m, self.slice(v, a, m, n)))
            pos += m
        if pos < end: out.append((end - pos, self.default(o, pos, end - pos)))
        return out

    def default(self, o, off, size):
        if o.default == "undef": return Undef("%s+%d" % (o.name, off))
        if o.default == "zero": return Zeros(size)
        return Slice(StreamBytes("%s" % o.name, o.size), off, size)

    def check_access(self, st, p, size, what):
        if not isinstance(p, Ptr):
            if isinstance(p, Undef):
                self.event("uninit", st, "%s through an indeterminate pointer" % what); return None
            if isinstance(p, int):
                self.event("null", st, "%s through pointer value %d" % (what, p)); return None
            if isinstance(p, FnPtr): return None
            raise AnalysisError("%s through %r" % (what, p))
        if p.obj == 0:
            self.event("null", st, "%s through a null pointer" % what); return None
        o = st.objs.get(p.obj)
        if o is None:
            self.event("oob", st, "%s of an object whose lifetime ended" % what, obj="(dead)"); return None
        if isinstance(o.freed, Node):
            c = band(st.pc, o.freed)
            if isinstance(c, Node) or c: self.event("uaf", st, "%s of freed memory" % what, obj=o.name, pc=c)
        elif o.freed:
            self.event("uaf", st, "%s of freed memory" % what, obj=o.name); return None
        off = p.off
        if isinstance(off, Interval):
            lo, hi = off.rng()
            if lo >= o.size or hi + size <= 0:
                self.event("oob", st, "%s of %d bytes at offset %s of %s (%d bytes)" % (what, size, off, o.name, o.size), obj=o.name)
                return None
            if off.lo == off.hi:
                return Ptr(p.obj, lo)
            # split so that every class is either inside or outside
            for at in (off.lo + 1, off.hi): pass
            m = off.mul
            cut = -(-(o.size - off.add) // m) if m > 0 else None
            if cut is not None and off.lo < cut <= off.hi: raise SplitRequest(off.sym, cut)
            raise SplitRequest(off.sym, off.lo + 1)
        if not isinstance(off, int): raise AnalysisError("symbolic address %r" % (off,))
        if off < 0 or off + size > o.size:
            self.event("oob", st, "%s of %d bytes at offset %d of %s (%d bytes)" % (what, size, off, o.name, o.size), obj=o.name)
            return None
        return p

    def load(self, st, p, t, size=None):
        if isinstance(p, Node):
            return ap1(lambda q: self.load(st, q, t, size), alg.simplify(p, st.pc))
        if size is None: size = tsize(t)
        if not isinstance(t, str):
            if t[0] == 'S':
                return tuple(self.load(st, self.padd(p, off), ft) for off, ft in t[2])
            return tuple(self.load(st, self.padd(p, i * t[2]), t[3]) for i in range(t[1]))
        q = self.check_access(st, p, size, "read")
        if q is None: return Undef("out-of-range read")
        o = st.objs[q.obj]
        c = o.cells.get(q.off)
        if c is not None and c[0] == size:
            v = c[1]
            if v.__class__ in (Poly, Node) and not isinstance(v, Node): return v
            if isinstance(v, Node): return ap1(lambda x: self.coerce(x, t, size), v)
            return self.coerce(v, t, size)
        return self.from_parts(self.raw_read(o, q.off, size), t, size)

    def from_parts(self, parts, t, size):
        """the value of type t made of consecutive pieces of memory"""
        if len(parts) == 1:
            v = parts[0][1]
            return ap1(lambda x: self.coerce(x, t, size), v) if isinstance(v, Node) else self.coerce(v, t, size)
        if all(isinstance(v, Undef) for _, v in parts): return parts[0][1]
        if all(isinstance(v, Zeros) or (isinstance(v, int) and v == 0) for _, v in parts): return self.typed_zero(t)
        if is_int(t) and all(isinstance(v, (int, Zeros)) for _, v in parts):
            x = 0; pos = 0
            for n, v in parts:
                x |= (0 if isinstance(v, Zeros) else v) << (8 * pos); pos += n
            return x
        if t == "f80" :
            # 10 significant bytes of a 16-byte cell
            return parts[0][1]
        # slices of one value put together again
        if all(isinstance(v, Slice) for _, v in parts):
            v0 = parts[0][1]; pos = v0.off; ok = True
            for n, v in parts:
                if v.val is not v0.val and v.val != v0.val or v.off != pos: ok = False
                pos += n
            if ok:
                return self.coerce(Slice(v0.val, v0.off, size), t, size)
        return Concat(parts)

    def store(self, st, p, v, t, size=None):
        if isinstance(p, Node):
            p = alg.simplify(p, st.pc)
        if isinstance(p, Node):
            for q in alg.leaves(p):
                c = ap1(lambda x: 1 if x == q else 0, p)
                if not isinstance(q, Ptr) or q.obj == 0:
                    sub = st.fork(); sub.pc = band(st.pc, c)
                    self.check_access(sub, q, 1, "write"); continue
                old = self.load(st, q, t, size)
                self.store(st, q, self.iteval(c, v, old), t, size)
            return
        if not isinstance(t, str) and isinstance(v, tuple):
            if t[0] == 'S':
                for (off, ft), x in zip(t[2], v): self.store(st, self.padd(p, off), x, ft)
            else:
                for i, x in enumerate(v): self.store(st, self.padd(p, i * t[2]), x, t[3])
            return
        if size is None: size = tsize(t)
        if isinstance(v, Concat):
            pos = 0
            for n, x in v.parts:
                self.raw_store(st, self.padd(p, pos), x, n); pos += n
            return
        self.raw_store(st, p, v, size)

    def raw_store(self, st, p, v, size):
        q = self.check_access(st, p, size, "write")
        if q is None: return
        o = st.w(q.obj)
        if o.kind in ("global", "static heap") and not self.inguard and not self.prelude and not o.name.startswith(("guard variable", "vtable", "std::")):
            self.effect("writes global " + o.name)
        if self.inguard and o.kind in ("global", "heap", "static heap"): self.guardobjs.add(q.obj)
        if o.ro:
            self.event("constwrite", st, "write to read-only object %s" % o.name, obj=o.name)
            return
        cells = o.cells
        off = q.off
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v, self.dbg())
            return
        if cells:
            end = off + size
            hit = [(k, x) for k, x in cells.items() if k < end and k + x[0] > off]
            for k, (n, x, d) in hit:
                del cells[k]
                if k < off:
                    cells[k] = (off - k, self.slice(x, 0, off - k, n), d)
                if k + n > end:
                    cells[end] = (k + n - end, self.slice(x, end - k, k + n - end, n), d)
        if size: cells[off] = (size, v, self.dbg())

    def dbg(self):
        return (self.curloc, self.stack[-1].fn.name if self.stack else None)

    def padd(self, p, k):
        if isinstance(p, Node): return ap1(lambda q: self.padd(q, k), p)
        if isinstance(p, Ptr):
            if isinstance(p.off, int) and isinstance(k, int): return Ptr(p.obj, p.off + k)
            return Ptr(p.obj, self.iv_add(p.off, k))
        if isinstance(p, Undef): return p
        if isinstance(p, int): return p + k
        raise AnalysisError("pointer arithmetic on %r" % (p,))

    def iv_add(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a + b
        if isinstance(b, Interval): a, b = b, a
        if isinstance(a, Interval) and isinstance(b, int):
            return Interval(a.sym, a.lo, a.hi, a.mul, a.add + b, a.w)
        if isinstance(a, Interval) and isinstance(b, Interval) and a.sym == b.sym:
            return Interval(a.sym, a.lo, a.hi, a.mul + b.mul, a.add + b.add, a.w)
        if isinstance(a, Interval) and isinstance(b, Interval):
            # keep only one symbolic dimension: narrow the other one
            x = b
            raise SplitRequest(x.sym, x.lo + 1 if x.lo < x.hi else None)
        raise AnalysisError("symbolic offset %r + %r" % (a, b))

    def memcpy(self, st, dst, src, n):
        if isinstance(n, Node):
            n = alg.simplify(n, st.pc)
        if isinstance(n, Node):
            # gated length: copy under each condition
            for k in alg.leaves(n):
                c = ap1(lambda x: 1 if x == k else 0, n)
                sub = st.fork(); sub.pc = band(st.pc, c)
                if sub.pc == 0 and not isinstance(sub.pc, Node): continue
                self.memcpy(sub, dst, src, k)
                for i, o in sub.objs.items():
                    if o is not st.objs.get(i) and i in st.objs:
                        st.objs[i] = self.merge_obj(st, c, o, st.objs[i])
            return
        if isinstance(n, Interval): raise SplitRequest(n.sym, n.lo + 1)
        if not isinstance(n, int): raise AnalysisError("memcpy of symbolic length %r" % (n,))
        if n == 0: return
        for name, p in (("dst", dst), ("src", src)):
            if isinstance(p, Node):
                leaves = alg.leaves(alg.simplify(p, st.pc))
                if name == "dst":
                    for q in leaves:
                        c = ap1(lambda x: 1 if x == q else 0, p)
                        sub = st.fork(); sub.pc = band(st.pc, c)
                        self.memcpy(sub, q, src, n)
                        if isinstance(q, Ptr) and q.obj in st.objs and sub.objs[q.obj] is not st.objs[q.obj]:
                            st.objs[q.obj] = self.merge_obj(st, c, sub.objs[q.obj], st.objs[q.obj])
                    return
        s = [src] if not isinstance(src, Node) else None
        if s is None:
            base = None
            pieces = []
            for q in alg.leaves(alg.simplify(src, st.pc)):
                c = ap1(lambda x: 1 if x == q else 0, src)
                pieces.append((c, self.read_range(st, q, n)))
            cuts = sorted({0, n} | {x for _, pl in pieces for x in self.cuts(pl)})
            for a, b in zip(cuts, cuts[1:]):
                v = None
                for c, pl in pieces:
                    x = self.sub_pieces(pl, a, b)
                    v = x if v is None else self.iteval(c, x, v)
                self.raw_store(st, self.padd(dst, a), v, b - a)
            return
        pl = self.read_range(st, src, n)
        q = self.check_access(st, dst, n, "write")
        if q is None or pl is None: return
        for pos, sz, v in pl: self.raw_store(st, Ptr(q.obj, q.off + pos), v, sz)

    def cuts(self, pl): return [x for pos, sz, _ in pl for x in (pos, pos + sz)]
    def sub_pieces(self, pl, a, b):
        for pos, sz, v in pl:
            if pos <= a and b <= pos + sz: return self.slice(v, a - pos, b - a, sz)
        return UNDEF

    def read_range(self, st, p, n):
        q = self.check_access(st, p, n, "read")
        if q is None: return None
        o = st.objs[q.obj]
        out = []; pos = 0
        for sz, v in self.raw_read(o, q.off, n):
            out.append((pos, sz, v)); pos += sz
        return out

    # ---------------------------------------------------------------- merge
    def iteval(self, c, a, b):
        if a is b: return a
        if isinstance(a, tuple) and not hasattr(a, "_fields") and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.iteval(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Concat) and isinstance(b, Concat) and [n for n, _ in a.parts] == [n for n, _ in b.parts]:
            return Concat([(n, self.iteval(c, x, y)) for (n, x), (_, y) in zip(a.parts, b.parts)])
        return ite(c, a, b)

    def merge_obj(self, st, c, a, b):
        o = Obj(a.size, a.name, a.kind, a.default, a.ro)
        o.tok = st.tok
        o.freed = a.freed if a.freed is b.freed else ite(c, a.freed, b.freed); o.born = a.born
        ca, cb = a.cells, b.cells
        for k, x in ca.items():
            y = cb.get(k)
            if y is x: o.cells[k] = x
            elif y is not None and y[0] == x[0]:
                v = self.iteval(c, x[1], y[1])
                o.cells[k] = (x[0], v, x[2] if not same(x[1], v) or same(y[1], v) else x[2])
            else:
                o = None; break
        if o is not None and all(k in ca for k in cb): return o
        # different layouts: cut both at every boundary
        o = Obj(a.size, a.name, a.kind, a.default, a.ro); o.tok = st.tok
        o.freed = a.freed if a.freed is b.freed else ite(c, a.freed, b.freed); o.born = a.born
        cuts = set()
        for k, x in list(ca.items()) + list(cb.items()): cuts |= {k, k + x[0]}
        cuts = sorted(cuts)
        for lo, hi in zip(cuts, cuts[1:]):
            pa = self.raw_read(a, lo, hi - lo); pb = self.raw_read(b, lo, hi - lo)
            if len(pa) != 1 or len(pb) != 1: raise AnalysisError("merge")
            x, y = pa[0][1], pb[0][1]
            if isinstance(x, Undef) and isinstance(y, Undef): continue
            da = ca.get(lo); db = cb.get(lo)
            d = (da or db or (0, 0, None))[2]
            o.cells[lo] = (hi - lo, self.iteval(c, x, y), d)
        return o

    def merge(self, c, A, B):
        """state equal to A where c holds and to B elsewhere"""
        S = State()
        if len(A.objs) >= len(B.objs): big, small = A.objs, B.objs
        objs = {}
        for i, a in A.objs.items():
            b = B.objs.get(i)
            if b is a: objs[i] = a
            elif b is None:
                objs[i] = a
            else: objs[i] = self.merge_obj(S, c, a, b)
        for i, b in B.objs.items():
            if i not in objs: objs[i] = b
        S.objs = objs
        S.pc = bor(A.pc, B.pc)
        if A.trace is B.trace or A.trace == B.trace: S.trace = A.trace
        else:
            n = 0
            while n < len(A.trace) and n < len(B.trace) and A.trace[n] == B.trace[n]: n += 1
            S.trace = A.trace[:n] + (("gate", c, A.trace[n:], B.trace[n:]),)
        return S

    # ---------------------------------------------------------------- run
    def get(self, name):
        f = self.fns.get(name)
        if f is None:
            f = self.fns[name] = Fn(self.mod, name)
        return f

    def call(self, st, name, args, inst=None):
        """returns (state, value) or None when control does not come back"""
        f = self.mod.funcs.get(name)
        self.calls.add(name)
        if f is None: raise AnalysisError("no function " + name)
        m = self.models.lookup(self, name, f)
        if m is not None: return m(self, st, args, inst, f)
        if f["decl"]: return self.models.unknown(self, st, name, f, args, inst)
        fn = self.get(name)
        self.visited.add(name)
        if len(self.stack) > 400: raise AnalysisError("recursion too deep in " + fn.dem)
        fr = Frame(fn)
        for i, a in enumerate(args):
            if i < len(fn.args):
                bv = fn.args[i]["bv"]
                if bv:
                    p = self.alloc(st, bv, "byval", "stack")
                    self.memcpy(st, p, a, bv); fr.allocas.append(p.obj)
                    a = p
                fr.env[i] = a
        saved = self.curloc
        self.stack.append(fr)
        try:
            r = self.region(fr, 0, None, st, EXIT)
        finally:
            self.stack.pop()
            self.curloc = saved
        if r is None: return None
        st, _, val = r
        for i in fr.allocas: st.objs.pop(i, None)
        return st, val

    def phivals(self, fr, blk, prev, st):
        ph = fr.fn.phis[blk]
        if not ph: return None
        out = {}
        for i in ph:
            for v, b in i["in"]:
                if b == prev:
                    out[i["d"]] = self.val(fr, st, v); break
            else: raise AnalysisError("phi")
        return out

    def val(self, fr, st, v):
        if v.__class__ is int: return fr.env[v]
        return self.constant(st, v)

    def region(self, fr, blk, prev, st, stop, phis=None):
        fn = fr.fn
        env = fr.env
        seen = {}; snap = None
        while True:
            if blk == stop:
                if phis is None: phis = self.phivals(fr, blk, prev, st)
                return st, phis, None
            if phis is None and fn.phis[blk]: phis = self.phivals(fr, blk, prev, st)
            if phis:
                for k, v in phis.items(): env[k] = v
            phis = None
            n = seen[blk] = seen.get(blk, 0) + 1
            if n >= 256:
                # a state that comes back to a block exactly as it was there before never leaves
                if snap is not None and snap[0] == blk and self.recurs(snap, fr, st):
                    self.event("hang", st, "the loop never ends: its state repeats")
                    return None
                if n in (256, 4096, 65536): snap = self.snapshot(blk, fr, st)
            code = fn.blocks[blk]
            for I in code:
                self.steps += 1; alg.tick()
                o = I["o"]
                h = DISPATCH.get(o)
                if h is not None:
                    if I["l"]: self.curloc = I["l"]
                    env[I["d"]] = h(self, fr, st, I)
                    continue
                if o == "phi": continue
                if I["l"]: self.curloc = I["l"]
                if o == "call" or o == "invoke":
                    nexc = len(self.exc)
                    r = self.docall(fr, st, I)
                    if o == "invoke" and self.unwind and len(self.exc) > nexc:
                        mine = self.exc[nexc:]; del self.exc[nexc:]
                        for es in mine:
                            save_env = list(env)
                            self.region(fr, I["ud"], blk, es, EXIT)
                            env[:] = save_env
                    if r is None: return None
                    st, env[I["d"]] = r
                    if o == "invoke": break
                    continue
                break
            if self.steps > self.budget: raise AnalysisError("analysis budget exceeded in " + fn.dem)
            I = code[-1]; o = I["o"]
            if o == "invoke":
                prev, blk = blk, I["nd"]; continue
            if o == "ret":
                v = self.val(fr, st, I["a"][0]) if I["a"] else None
                return st, None, v
            if o == "br":
                if "a" not in I:
                    prev, blk = blk, I["b"][0]; continue
                c = self.val(fr, st, I["a"][0])
                # LLVM lists successors as printed: successor 0 is taken when true
                tgts = [(self.cond(st, c), I["b"][0]), (None, I["b"][1])]
                c = tgts[0][0]
                if not isinstance(c, Node):
                    prev, blk = blk, (I["b"][0] if c else I["b"][1]); continue
                r = self.fork(fr, blk, st, c, I["b"][0], I["b"][1])
                if r is None: return None
                nb, st, phis, val = r
                if nb == EXIT: return st, None, val
                prev, blk = None, nb
                if phis is None: phis = {}
                if nb == stop: return st, phis, None
                continue
            if o == "switch":
                v = self.val(fr, st, I["a"][0])
                v = alg.simplify(v, st.pc) if isinstance(v, Node) else v
                if isinstance(v, int):
                    t = I["df"]
                    for k, b in I["cs"]:
                        if k[2] % (1 << k[1]) == v: t = b
                    prev, blk = blk, t; continue
                # chain of equality tests
                w = int(I["st"][1:]) if "st" in I else 32
                r = self.switch(fr, blk, st, v, [(k[2] % (1 << k[1]), b, k[1]) for k, b in I["cs"]], I["df"])
                if r is None: return None
                nb, st, phis, val = r
                if nb == EXIT: return st, None, val
                prev, blk = None, nb
                if phis is None: phis = {}
                if nb == stop: return st, phis, None
                continue
            if o == "unreachable":
                return None
            if o == "resume":
                self.exc.append(st); return None
            raise AnalysisError("terminator " + o)

    def snapshot(self, blk, fr, st):
        return blk, list(fr.env), {i: dict(o.cells) for i, o in st.objs.items()}, dict(self.counters)

    def recurs(self, snap, fr, st):
        def eq(a, b):
            if a is b: return True
            if a.__class__ is not b.__class__: return False
            if isinstance(a, Undef): return a.what == b.what
            if isinstance(a, (tuple, list)): return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
            if isinstance(a, (int, str)): return a == b
            # numbers that keep growing are decided by no constant: control does not depend on them
            if isinstance(a, Poly) and not alg.is_const(a) and not alg.is_const(b): return True
            return same(a, b)
        _, env, objs, cnt = snap
        if cnt != self.counters or objs.keys() != st.objs.keys(): return False
        if len(env) != len(fr.env) or not all(eq(x, y) for x, y in zip(env, fr.env)): return False
        for i, c in objs.items():
            now = st.objs[i].cells
            if now.keys() != c.keys(): return False
            for k, x in c.items():
                y = now[k]
                if x is not y and not (x[0] == y[0] and eq(x[1], y[1])): return False
        return True

    def cond(self, st, c):
        if isinstance(c, Undef):
            self.event("uninit", st, "branch depends on an indeterminate value (%s)" % c.what)
            return self.boolvar("indeterminate")
        if isinstance(c, Node):
            c = alg.simplify(c, st.pc)
            if isinstance(c, Node) and any(isinstance(x, Undef) for x in alg.leaves(c)):
                self.event("uninit", st, "branch depends on an indeterminate value",
                           pc=band(st.pc, ap1(lambda x: 1 if isinstance(x, Undef) else 0, c)))
                bv = self.boolvar("indeterminate")
                c = ap1(lambda x: bv if isinstance(x, Undef) else x, c)
            if not isinstance(c, Node): return self.cond(st, c)
            return c
        if isinstance(c, (int,)): return c
        if isinstance(c, Poly):
            return ap1(lambda s: 0 if s == 0 else 1, alg.sign(c))
        if isinstance(c, Bits): return c.b[0]
        raise AnalysisError("branch on %r" % (c,))

    def fork(self, fr, blk, st, c, bt, bf):
        ip = fr.fn.ipdom.get(blk, EXIT)
        pc0 = st.pc
        A = st.fork(); B = st.fork()
        A.pc = band(pc0, c); B.pc = band(pc0, bnot(c))
        pa, pb = A.pc, B.pc
        def dead(x): return not isinstance(x, Node) and x == 0
        ra = rb = None
        if not dead(A.pc): ra = self.region(fr, bt, blk, A, ip)
        if not dead(B.pc): rb = self.region(fr, bf, blk, B, ip)
        if ra is None and rb is None: return None
        if ra is None: return ip, rb[0], rb[1], rb[2]
        if rb is None: return ip, ra[0], ra[1], ra[2]
        A, phA, vA = ra; B, phB, vB = rb
        S = self.merge(c, A, B)
        if A.pc is pa and B.pc is pb: S.pc = pc0
        ph = None
        if phA: ph = {k: self.iteval(c, phA[k], phB[k]) for k in phA}
        v = None
        if ip == EXIT and vA is not None: v = self.iteval(c, vA, vB)
        return ip, S, ph, v

    def switch(self, fr, blk, st, v, cases, df):
        # group into nested two-way forks through a synthetic chain
        ip = fr.fn.ipdom.get(blk, EXIT)
        def go(st, cs):
            if not cs: return self.region(fr, df, blk, st, ip)
            k, b, w = cs[0]
            c = self.cond(st, self.icmp(st, "eq", v, k, "i%d" % w))
            if not isinstance(c, Node):
                if c: return self.region(fr, b, blk, st, ip)
                return go(st, cs[1:])
            pc0 = st.pc
            A = st.fork(); B = st.fork()
            A.pc = band(pc0, c); B.pc = band(pc0, bnot(c))
            ra = self.region(fr, b, blk, A, ip)
            rb = go(B, cs[1:])
            if ra is None: return rb
            if rb is None: return ra
            S = self.merge(c, ra[0], rb[0])
            ph = {k: self.iteval(c, ra[1][k], rb[1][k]) for k in ra[1]} if ra[1] else None
            return S, ph, (self.iteval(c, ra[2], rb[2]) if ra[2] is not None else None)
        r = go(st, cases)
        if r is None: return None
        return ip, r[0], r[1], r[2]

    def docall(self, fr, st, I):
        f = I["f"]
        args = [self.val(fr, st, a) for a in I["a"]]
        if f.__class__ is list and f[0] == "fn": name = f[1]
        elif f.__class__ is list and f[0] == "asm": return st, None
        else:
            p = self.val(fr, st, f)
            if isinstance(p, FnPtr): name = p.name
            else:
                self.event("indirect", st, "call through an unknown function pointer %r" % (p,))
                return st, self.opaque(I["t"], "indirect")
        return self.call(st, name, args, I)

    def opaque(self, t, base):
        if t == "void": return None
        if is_fp(t): return self.fresh(base)
        if t == "i1": return self.boolvar(base)
        if is_int(t): return self.fresh(base, integer=True)
        if t == "p": return NULL
        if t[0] == 'S': return tuple(self.opaque(x[1], base) for x in t[2])
        return tuple(self.opaque(t[3], base) for _ in range(t[1]))

    # ---------------------------------------------------------------- scalar ops
    def fpop(self, st, op, a, b):
        if isinstance(a, Undef) and a is not NAN: return a
        if isinstance(b, Undef): return b
        if a is NAN: return a
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise AnalysisError("floating-point %s on %r, %r" % (op, a, b))
        if op == "fadd": return alg.add(a, b)
        if op == "fsub": return alg.sub(a, b)
        if op == "fmul": return alg.mul(a, b)
        if op == "fdiv":
            if alg.is_const(b) and alg.cval(b) == 0:
                return alg.fn("div0", a)
            try:
                return alg.div(a, b)
            except ZeroDivisionError:
                return alg.fn("div0", a)
        if op == "frem": return alg.fn("fmod", a, b)
        raise AnalysisError(op)

    def fp2(self, st, op, a, b):
        if isinstance(a, tuple) and not hasattr(a, "_fields"):
            return tuple(self.fp2(st, op, x, y) for x, y in zip(a, b))
        if op == "fdiv": self.note_division(st, b)
        if a.__class__ is Poly and b.__class__ is Poly: return self.fpop(st, op, a, b)
        return ap2(lambda x, y: self.fpop(st, op, x, y), a, b)

    divhook = None
    def note_division(self, st, b):
        if self.divhook is not None: self.divhook(self, st, b)

    def intop(self, st, op, a, b, w):
        if isinstance(a, Undef): return a
        if isinstance(b, Undef): return b
        M = (1 << w) - 1
        ai, bi = isinstance(a, int), isinstance(b, int)
        if ai and bi:
            if op == "add": return (a + b) & M
            if op == "sub": return (a - b) & M
            if op == "mul": return (a * b) & M
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return (a << b) & M if b < w else 0
            if op == "lshr": return a >> b if b < w else 0
            if op == "ashr": return (sgn(a, w) >> min(b, w - 1)) & M
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    self.event("div0", st, "integer division by zero"); return UNDEF
                if op == "udiv": return a // b
                if op == "urem": return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == "sdiv" else x - q * y) & M
            raise AnalysisError(op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if op == "sub" and a.obj == b.obj:
                    d = self.iv_add(a.off, self.iv_neg(b.off))
                    return d & M if isinstance(d, int) else d
                return self.fresh("ptrdiff", integer=True)
            if op == "add":
                p, k = (a, b) if isinstance(a, Ptr) else (b, a)
                return self.padd(p, sgn(k, w) if isinstance(k, int) else k)
            if op == "sub" and isinstance(a, Ptr): return self.padd(a, -sgn(b, w))
            if op == "and" and isinstance(b, int) and b < 16: return a.off & b if isinstance(a.off, int) else self.fresh("align", integer=True)
            return self.fresh("ptrop", integer=True)
        if isinstance(a, Interval) or isinstance(b, Interval):
            return self.ivop(st, op, a, b, w)
        if op in ("and", "or", "xor") or isinstance(a, Bits) or isinstance(b, Bits):
            if isinstance(a, Poly): _bitsrc[str(a)] = a
            if isinstance(b, Poly): _bitsrc[str(b)] = b
            if op == "and" and (a == 0 if ai else False or (bi and b == 0)): return 0
            x, y = tobits(a, w), tobits(b, w)
            if x is None or y is None: raise AnalysisError("%s on %r %r" % (op, a, b))
            if op == "and": return frombits([band(p, q) for p, q in zip(x.b, y.b)])
            if op == "or": return frombits([bor(p, q) for p, q in zip(x.b, y.b)])
            if op == "xor": return frombits([ite(p, bnot(q), q) for p, q in zip(x.b, y.b)])
            if op in ("shl", "lshr") and bi:
                if op == "shl": return frombits(([0] * b + list(x.b))[:w])
                return frombits((list(x.b)[b:] + [0] * b)[:w])
            return alg.fn(op, a if isinstance(a, Poly) else alg.cell(repr(a)), b if isinstance(b, Poly) else alg.cell(repr(b)), integer=True)
        pa, pb = topoly(a, w), topoly(b, w)
        if pa is None or pb is None: raise AnalysisError("integer %s on %r, %r" % (op, a, b))
        if op == "add": return mkint(alg.add(pa, pb), w)
        if op == "sub": return mkint(alg.sub(pa, pb), w)
        if op == "mul": return mkint(alg.mul(pa, pb), w)
        if op == "shl" and bi: return mkint(alg.scale(pa, 1 << b), w)
        if op in ("sdiv", "udiv") and bi and b == 1: return a
        return alg.fn(op, pa, pb, integer=True, nonneg=op[0] == 'u')

    def iv_neg(self, a):
        if isinstance(a, int): return -a
        return Interval(a.sym, a.lo, a.hi, -a.mul, -a.add, a.w)

    def ivop(self, st, op, a, b, w):
        M = 1 << w
        if op == "sub" and isinstance(b, (int, Interval)):
            b = (-b if isinstance(b, int) else self.iv_neg(b)); op = "add"
            if isinstance(b, int) and isinstance(a, Interval): pass
        if op == "add":
            if isinstance(a, Interval) and isinstance(b, int): r = self.iv_add(a, sgn(b % M, w))
            elif isinstance(b, Interval) and isinstance(a, int): r = self.iv_add(b, sgn(a % M, w))
            else: r = self.iv_add(a, b)
        elif op == "mul" and (isinstance(a, int) or isinstance(b, int)):
            if isinstance(a, int): a, b = b, a
            k = sgn(b, w)
            if k == 0: return 0
            r = Interval(a.sym, a.lo, a.hi, a.mul * k, a.add * k, w)
        elif op == "shl" and isinstance(b, int):
            return self.ivop(st, "mul", a, 1 << b, w)
        else:
            x = a if isinstance(a, Interval) else b
            if x.lo < x.hi: raise SplitRequest(x.sym, x.lo + (x.hi - x.lo + 1) // 2)
            raise AnalysisError("interval " + op)
        return self.iv_wrap(r, w)

    def iv_wrap(self, r, w):
        if isinstance(r, int): return r % (1 << w)
        if r.mul == 0: return r.add % (1 << w)
        M = 1 << w
        lo, hi = r.rng()
        klo, khi = lo // M, hi // M
        if klo == khi:
            r = Interval(r.sym, r.lo, r.hi, r.mul, r.add - klo * M, w)
            if r.lo == r.hi: return r.rng()[0]
            return r
        # find the first symbol value whose image lies in the next period
        if r.mul > 0:
            at = -(-((klo + 1) * M - r.add) // r.mul)
        else:
            # image decreases: first value with image < khi*M
            at = (khi * M - r.add) // r.mul + 1
            while r.mul * (at - 1) + r.add < khi * M: at -= 1
        raise SplitRequest(r.sym, at)

    def int2(self, st, op, a, b, w):
        if isinstance(a, tuple) and not hasattr(a, "_fields"):
            return tuple(self.int2(st, op, x, y, w) for x, y in zip(a, b))
        if w == 1:
            if op in ("and", "mul"): return apn(lambda x, y: x if isinstance(x, Undef) else (y if isinstance(y, Undef) else x & y), (a, b))
            if op == "or": return apn(lambda x, y: x if isinstance(x, Undef) else (y if isinstance(y, Undef) else x | y), (a, b))
            if op in ("xor", "add", "sub"): return apn(lambda x, y: x if isinstance(x, Undef) else (y if isinstance(y, Undef) else x ^ y), (a, b))
        if op in ("sdiv", "udiv", "srem", "urem"): self.note_division(st, b)
        return ap2(lambda x, y: self.intop(st, op, x, y, w), a, b)

    def icmp(self, st, pred, a, b, t):
        if isinstance(a, tuple) and not hasattr(a, "_fields"):
            return tuple(self.icmp(st, pred, x, y, t) for x, y in zip(a, b))
        return ap2(lambda x, y: self.icmp1(st, pred, x, y, t), a, b)

    def icmp1(self, st, pred, a, b, t):
        if isinstance(a, Undef): return a
        if isinstance(b, Undef): return b
        w = 64 if t == "p" else int(t[1:])
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = a == b
            return int(e) if pred == "eq" else int(not e)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a == 0: a = NULL
            if b == 0: b = NULL
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    x, y = a.off, b.off
                    if isinstance(x, int) and isinstance(y, int):
                        return self.cmpint(pred.replace("u", "s", 1) if pred[0] == 'u' else pred, x, y, 64, True)
                    d = self.iv_add(x, self.iv_neg(y))
                    return self.ivcmp(pred.replace("u", "s", 1) if pred[0] == 'u' else pred, d, 0, True)
                if pred == "eq": return 0
                if pred == "ne": return 1
                # order of unrelated objects: by allocation order
                return self.cmpint(pred, a.obj, b.obj, 64, True)
            if pred == "eq": return 0
            if pred == "ne": return 1
            return self.boolvar("ptrcmp")
        if isinstance(a, int) and isinstance(b, int):
            return self.cmpint(pred, a, b, w)
        if isinstance(a, Interval) or isinstance(b, Interval):
            return self.iv_icmp(pred, a, b, w)
        if isinstance(a, Bits) or isinstance(b, Bits):
            x, y = tobits(a, w), tobits(b, w)
            if pred in ("eq", "ne") and x and y:
                r = 1
                for p, q in zip(x.b, y.b): r = band(r, ite(p, q, bnot(q)))
                return r if pred == "eq" else bnot(r)
            return self.boolvar("bitcmp")
        if isinstance(a, (Slice, Concat, StreamBytes, Zeros)) or isinstance(b, (Slice, Concat, StreamBytes, Zeros)):
            if same(a, b) and pred in ("eq", "ne"): return int(pred == "eq")
            return self.boolvar("rawcmp")
        pa, pb = topoly(a, w), topoly(b, w)
        if pred[0] == 'u' and isinstance(a, int): pa = alg.const(a)
        if pred[0] == 'u' and isinstance(b, int): pb = alg.const(b)
        if pred[0] == 'u' and w == 8:
            pass
        if pa is None or pb is None: raise AnalysisError("icmp on %r, %r" % (a, b))
        d = alg.sub(pa, pb)
        s = alg.sign(d)
        p = pred if len(pred) == 2 else pred[1:]
        T = {"eq": (0, 1, 0), "ne": (1, 0, 1), "lt": (1, 0, 0), "le": (1, 1, 0), "gt": (0, 0, 1), "ge": (0, 1, 1)}[p]
        return ap1(lambda x: T[(x > 0) - (x < 0) + 1], s)

    def cmpint(self, pred, a, b, w, raw=False):
        if pred == "eq": return int(a == b)
        if pred == "ne": return int(a != b)
        if pred[0] == 's' and not raw: a, b = sgn(a, w), sgn(b, w)
        p = pred[1:]
        return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])

    def iv_icmp(self, pred, a, b, w):
        # values are in [0, 2^w); signed comparisons shift the halves
        H = 1 << (w - 1)
        if pred[0] == 's':
            def sh(x):
                if isinstance(x, int): return sgn(x, w)
                lo, hi = x.rng()
                if hi < H: return x
                if lo >= H: return Interval(x.sym, x.lo, x.hi, x.mul, x.add - (1 << w), w)
                at = -(-(H - x.add) // x.mul) if x.mul > 0 else (H - 1 - x.add) // x.mul
                raise SplitRequest(x.sym, max(at, x.lo + 1))
            a, b = sh(a), sh(b)
        nb = -b if isinstance(b, int) else self.iv_neg(b)
        return self.ivcmp(pred, self.iv_add(a, nb), 0, True)

    def ivcmp(self, pred, d, _z, raw):
        """sign test of an interval difference"""
        p = pred if len(pred) == 2 else pred[1:]
        T = {"eq": (0, 1, 0), "ne": (1, 0, 1), "lt": (1, 0, 0), "le": (1, 1, 0), "gt": (0, 0, 1), "ge": (0, 1, 1)}[p]
        if isinstance(d, int): return T[(d > 0) - (d < 0) + 1]
        lo, hi = d.rng()
        ss = [(lo > 0) - (lo < 0), (hi > 0) - (hi < 0)]
        lo_s, hi_s = ss
        out = {T[s + 1] for s in range(lo_s, hi_s + 1)}
        if d.lo < d.hi and lo_s < 0 < hi_s and all((d.mul * k + d.add) != 0 for k in ((-d.add) // d.mul, (-d.add) // d.mul + 1)):
            out = {T[0], T[2]}
        if len(out) == 1: return out.pop()
        # split at the zero crossing
        z = Fraction(-d.add, d.mul)
        import math
        c = math.ceil(z)
        for at in (c, c + 1):
            if d.lo < at <= d.hi: raise SplitRequest(d.sym, at)
        raise SplitRequest(d.sym, d.lo + 1)

    def fcmp(self, st, pred, a, b):
        if isinstance(a, tuple) and not hasattr(a, "_fields"):
            return tuple(self.fcmp(st, pred, x, y) for x, y in zip(a, b))
        if pred == "true": return 1
        if pred == "false": return 0
        if pred in ("ord", "uno"):
            n = int(pred == "uno")
            return ap2(lambda x, y: n if x is NAN or y is NAN else 1 - n, a, b)
        p = pred[1:]; unordered = int(pred[0] == "u")
        T = {"eq": (0, 1, 0), "ne": (1, 0, 1), "lt": (1, 0, 0), "le": (1, 1, 0), "gt": (0, 0, 1), "ge": (0, 1, 1)}[p]
        def f(x, y):
            if isinstance(x, Undef) and x is not NAN: return x
            if isinstance(y, Undef) and y is not NAN: return y
            if x is NAN or y is NAN: return unordered
            if not isinstance(x, Poly) or not isinstance(y, Poly): raise AnalysisError("fcmp on %r, %r" % (x, y))
            return ap1(lambda s: T[(s > 0) - (s < 0) + 1], alg.sign(alg.sub(x, y)))
        return ap2(f, a, b)

    RANK = {"f32": 0, "f64": 1, "f80": 2}
    def cast(self, st, op, v, ft, tt):
        if not isinstance(ft, str) and isinstance(v, tuple):
            return tuple(self.cast(st, op, x, ft[3], tt[3]) for x in v)
        return ap1(lambda x: self.cast1(st, op, x, ft, tt), v)

    def cast1(self, st, op, v, ft, tt):
        if isinstance(v, Undef): return v
        if op in ("bitcast", "freeze", "addrspacecast"):
            return v
        if op == "ptrtoint": return v
        if op == "inttoptr": return NULL if v == 0 and isinstance(v, int) else v
        if op == "fpext": return v
        if op == "fptrunc":
            if alg.NOROUND and tt == "f64": return v
            if alg.is_const(v): 
                if tt == "f32":
                    c = float(alg.cval(v))
                    try: return alg.const(Fraction(struct.unpack("<f", struct.pack("<f", c))[0]))
                    except OverflowError: return alg.cell("inf")
                if tt == "f64":
                    try: return alg.const(Fraction(float(alg.cval(v))))
                    except OverflowError: return alg.cell("inf")
            if self.RANK[tt] >= self.RANK.get(self.mode, 0): return v
            if self.integral(v): return v
            return alg.fn("round_to_" + {"f32": "float", "f64": "double"}[tt], v)
        if op in ("sitofp", "uitofp"):
            w = int(ft[1:])
            if isinstance(v, int): return alg.const(sgn(v, w) if op[0] == 's' else v)
            if isinstance(v, Poly): return v
            if isinstance(v, Interval): raise SplitRequest(v.sym, v.lo + 1)
            return self.fresh("itof")
        if op in ("fptosi", "fptoui"):
            w = int(tt[1:])
            if alg.is_const(v):
                c = alg.cval(v)
                q = int(c) if c >= 0 else -int(-c)
                return q % (1 << w)
            if self.integral(v): return mkint(v, w)
            return alg.fn("trunc", v, integer=True)
        w = int(ft[1:]) if is_int(ft) else 64
        w2 = int(tt[1:])
        if op == "trunc":
            if isinstance(v, int): return v & ((1 << w2) - 1)
            if w2 == 1:
                if isinstance(v, Poly): return self.boolof(v)
                if isinstance(v, Bits): return v.b[0]
            if isinstance(v, Bits): return frombits(v.b[:w2])
            if isinstance(v, Poly): return mkint(self.strip_ext(v, w2), w2)
            if isinstance(v, Interval):
                if v.rng()[1] < (1 << w2): return v
                raise SplitRequest(v.sym, v.lo + (v.hi - v.lo + 1) // 2)
            if isinstance(v, Slice): return Slice(v.val, v.off, w2 // 8)
            if isinstance(v, Concat):
                acc = 0
                for n, x in v.parts:
                    if acc == 0 and n * 8 == w2: return x
                    break
            return self.fresh("trunc", integer=True)
        if op == "zext":
            if isinstance(v, int): return v
            if isinstance(v, Bits): return frombits(list(v.b) + [0] * (w2 - w))
            if isinstance(v, Poly):
                if len(v.t) == 1:
                    (m, c), = v.t.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and alg.ATOMS[m[0][0]].nonneg: return v
                if w >= 32: return v
                if len(v.t) == 2 and sorted(v.t.values()) == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 and alg.ATOMS[m[0][0]].nonneg for m in v.t):
                    # the difference of two unsigned numbers that narrow wraps when it is negative
                    return alg.ite(ap1(lambda q: 1 if q < 0 else 0, alg.sign(v)), alg.add(v, alg.const(1 << w)), v)
                return alg.fn("zext%d" % w, v, integer=True, nonneg=True)
            return v
        if op == "sext":
            if isinstance(v, int): return sgn(v, w) & ((1 << w2) - 1)
            if isinstance(v, Bits): return frombits(list(v.b) + [v.b[-1]] * (w2 - w))
            if isinstance(v, Poly):
                # (the negative of a narrow integer: of the lowest value it is not considered)
                if w >= 32 or self.is_cell(v) or self.is_cell(alg.neg(v)): return v
                return alg.fn("sext%d" % w, v, integer=True)
            return v
        raise AnalysisError("cast " + op)

    def boolof(self, v):
        return ap1(lambda s: 0 if s == 0 else 1, alg.sign(v))

    def is_cell(self, v):
        if len(v.t) != 1: return False
        (m, c), = v.t.items()
        return c == 1 and len(m) == 1 and m[0][1] == 1

    def integral(self, p):
        return all(not isinstance(c, Fraction) and all(e > 0 and alg.ATOMS[a].integer for a, e in m) for m, c in p.t.items())

    def strip_ext(self, p, w):
        for _ in range(20):
            hit = None
            for m in p.t:
                for a, e in m:
                    at = alg.ATOMS[a]
                    if at.kind == "fn" and at.name in ("zext%d" % w, "sext%d" % w) : hit = a
            if hit is None: return p
            p = alg.subst(p, hit, alg.ATOMS[hit].args[0])
        return p

# ------------------------------------------------------------------ dispatch
def _alloca(e, fr, st, I):
    n = e.val(fr, st, I["n"])
    if not isinstance(n, int): raise AnalysisError("variable-length array")
    p = e.alloc(st, I["s"] * n, I["nm"] or "tmp", "stack")
    fr.allocas.append(p.obj)
    return p
def _load(e, fr, st, I):
    a = I["a"][0]
    p = fr.env[a] if a.__class__ is int else e.constant(st, a)
    return e.load(st, p, I["t"])
def _store(e, fr, st, I):
    a = I["a"]
    v = e.val(fr, st, a[0]); p = e.val(fr, st, a[1])
    e.store(st, p, v, I["vt"])
def _gep(e, fr, st, I):
    p = e.val(fr, st, I["a"][0])
    c = I["c"]
    for o, k in I["x"]:
        i = e.val(fr, st, o)
        if isinstance(i, int):
            c += sgn(i % (1 << 64), 64) * k
        elif isinstance(i, Node):
            def f(q, x, k=k):
                if isinstance(x, Undef): return x
                if isinstance(q, Undef): return q
                if not isinstance(x, int): raise AnalysisError("symbolic index %r" % (x,))
                return e.padd(q, sgn(x, 64) * k)
            p = ap2(f, p, alg.simplify(i, st.pc))
        elif isinstance(i, Interval):
            if i.rng()[1] >= 1 << 63:
                at = -(-((1 << 63) - i.add) // i.mul)
                if i.lo < at <= i.hi: raise SplitRequest(i.sym, at)
                i = Interval(i.sym, i.lo, i.hi, i.mul, i.add - (1 << 64), i.w)
            p = e.padd(p, Interval(i.sym, i.lo, i.hi, i.mul * k, i.add * k, i.w))
        elif isinstance(i, Undef):
            e.event("uninit", st, "index is indeterminate"); return i
        else:
            raise AnalysisError("symbolic index %r" % (i,))
    if c.__class__ is int and c == 0: return p
    return e.padd(p, c)
def _bin(op):
    if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
        def f(e, fr, st, I):
            a, b = I["a"]
            return e.fp2(st, op, e.val(fr, st, a), e.val(fr, st, b))
    else:
        def f(e, fr, st, I):
            a, b = I["a"]
            t = I["t"]
            w = int(t[1:]) if t.__class__ is str else int(t[3][1:])
            return e.int2(st, op, e.val(fr, st, a), e.val(fr, st, b), w)
    return f
def _fneg(e, fr, st, I):
    v = e.val(fr, st, I["a"][0])
    f = lambda x: x if isinstance(x, Undef) else alg.neg(x)
    if isinstance(v, tuple) and not hasattr(v, "_fields"): return tuple(ap1(f, x) for x in v)
    return ap1(f, v)
def _icmp(e, fr, st, I):
    a, b = I["a"]
    t = I["st"] if I["st"].__class__ is str else I["st"][3]
    return e.icmp(st, I["p"], e.val(fr, st, a), e.val(fr, st, b), t)
def _fcmp(e, fr, st, I):
    a, b = I["a"]
    return e.fcmp(st, I["p"], e.val(fr, st, a), e.val(fr, st, b))
def _cast(op):
    def f(e, fr, st, I): return e.cast(st, op, e.val(fr, st, I["a"][0]), I["st"], I["t"])
    return f
def _select(e, fr, st, I):
    c, a, b = [e.val(fr, st, x) for x in I["a"]]
    if isinstance(c, tuple) and not hasattr(c, "_fields"):
        return tuple(ite(x, y, z) for x, y, z in zip(c, a, b))
    if isinstance(c, Undef): return c
    return e.iteval(c, a, b)
def _extractvalue(e, fr, st, I):
    v = e.val(fr, st, I["a"][0])
    for k in I["ix"]: v = v[k] if isinstance(v, tuple) else v
    return v
def _insertvalue(e, fr, st, I):
    v, x = [e.val(fr, st, a) for a in I["a"]]
    def go(v, ix):
        if not ix: return x
        v = list(v) if isinstance(v, tuple) else [UNDEF] * (ix[0] + 1)
        while len(v) <= ix[0]: v.append(UNDEF)
        v[ix[0]] = go(v[ix[0]], ix[1:])
        return tuple(v)
    return go(v, I["ix"])
def _extractelement(e, fr, st, I):
    v, i = [e.val(fr, st, a) for a in I["a"]]
    return v[i] if isinstance(v, tuple) else v
def _insertelement(e, fr, st, I):
    v, x, i = [e.val(fr, st, a) for a in I["a"]]
    n = I["t"][1]
    v = list(v) if isinstance(v, tuple) else [UNDEF] * n
    v[i] = x
    return tuple(v)
def _shuffle(e, fr, st, I):
    a, b = [e.val(fr, st, x) for x in I["a"][:2]]
    n = I["st"][1]
    a = a if isinstance(a, tuple) else (UNDEF,) * n
    b = b if isinstance(b, tuple) else (UNDEF,) * n
    ab = a + b
    return tuple(UNDEF if k < 0 else ab[k] for k in I["mask"])
def _landingpad(e, fr, st, I): return (NULL, 0)
def _fence(e, fr, st, I): return None
DISPATCH = {"alloca": _alloca, "load": _load, "store": _store, "getelementptr": _gep, "fneg": _fneg,
            "icmp": _icmp, "fcmp": _fcmp, "select": _select, "extractvalue": _extractvalue,
            "insertvalue": _insertvalue, "extractelement": _extractelement, "insertelement": _insertelement,
            "shufflevector": _shuffle, "landingpad": _landingpad, "fence": _fence}
for _o in ("fadd", "fsub", "fmul", "fdiv", "frem", "add", "sub", "mul", "sdiv", "udiv", "srem", "urem",
           "and", "or", "xor", "shl", "lshr", "ashr"):
    DISPATCH[_o] = _bin(_o)
for _o in ("bitcast", "freeze", "addrspacecast", "ptrtoint", "inttoptr", "fpext", "fptrunc", "sitofp", "uitofp",
           "fptosi", "fptoui", "trunc", "zext", "sext"):
    DISPATCH[_o] = _cast(_o)
