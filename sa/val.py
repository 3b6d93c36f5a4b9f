"""Expected values, written as ordinary Python expressions over V objects."""
from fractions import Fraction
from . import alg
from .alg import ap1, ap2, apn, Poly, Node
from .engine import mkint, topoly, sgn, Engine, NAN
from .alg import const

def nn(f):
    """f, keeping not-a-number"""
    return lambda *x: NAN if NAN in x else f(*x)

class V:
    """w is None: real number; otherwise an integer of that many bits"""
    __slots__ = ("v", "w", "uns")
    def __init__(self, v, w=None, uns=False):
        if isinstance(v, V): v = v.v
        if w is None and isinstance(v, (int, float, Fraction)): v = alg.const(Fraction(v))
        self.v = v; self.w = w; self.uns = uns
    def _c(self, o):
        if isinstance(o, V): return o
        if self.w is None: return V(o)
        return V(int(o) % (1 << self.w), self.w, self.uns)
    def _bin(self, o, f, g):
        o = self._c(o)
        if self.w is None and o.w is None: return V(ap2(nn(f), self.v, o.v))
        if self.w is None or o.w is None:
            a = self if self.w is None else self.real()
            b = o if o.w is None else o.real()
            return V(ap2(f, a.v, b.v))
        w = self.w
        def h(x, y):
            if isinstance(x, int) and isinstance(y, int) and g is None: raise ValueError
            px, py = topoly(x, w), topoly(y, w)
            return mkint(f(px, py), w)
        return V(ap2(h, self.v, o.v), w, self.uns)
    def __add__(self, o): return self._bin(o, alg.add, 1)
    def __sub__(self, o): return self._bin(o, alg.sub, 1)
    def __mul__(self, o): return self._bin(o, alg.mul, 1)
    def __radd__(self, o): return self._c(o) + self
    def __rsub__(self, o): return self._c(o) - self
    def __rmul__(self, o): return self._c(o) * self
    def __neg__(self):
        if self.w is None: return V(ap1(nn(alg.neg), self.v))
        return self._c(0) - self
    def __truediv__(self, o):
        o = self._c(o)
        if self.w is None or o.w is None:
            a = self if self.w is None else self.real()
            b = o if o.w is None else o.real()
            return V(ap2(nn(fdiv), a.v, b.v))
        w = self.w
        def h(x, y):
            if isinstance(x, int) and isinstance(y, int):
                if self.uns: return x // y
                a, b = sgn(x, w), sgn(y, w)
                q = abs(a) // abs(b)
                return (-q if (a < 0) != (b < 0) else q) % (1 << w)
            px, py = topoly(x, w), topoly(y, w)
            if isinstance(y, int) and y == 1: return x
            n = "udiv" if (self.uns and w >= 32) else "sdiv"
            return alg.fn(n, px, py, integer=True, nonneg=n[0] == 'u')
        return V(ap2(h, self.v, o.v), w, self.uns)
    def __rtruediv__(self, o): return self._c(o) / self
    def __pow__(self, k):
        r = self._c(1)
        for _ in range(k): r = r * self
        return r
    def real(self):
        if self.w is None: return self
        w = self.w
        return V(ap1(lambda x: alg.const(x if self.uns else sgn(x, w)) if isinstance(x, int) else x, self.v))
    def _rel(self, o, f):
        o = self._c(o)
        a, b = self.real(), o.real()
        if a.v is NAN or b.v is NAN: return V(0, 1)
        return V(f(a.v, b.v), 1)
    def __lt__(self, o): return self._rel(o, alg.lt)
    def __le__(self, o): return self._rel(o, alg.le)
    def __gt__(self, o): return self._rel(o, alg.gt)
    def __ge__(self, o): return self._rel(o, alg.ge)
    def eq(self, o): return self._rel(o, alg.eq)
    def ne(self, o): return V(alg.bnot(self.eq(o).v), 1)
    def __and__(self, o): return V(alg.band(self.v, V(o, 1).v if not isinstance(o, V) else o.v), 1)
    def __or__(self, o): return V(alg.bor(self.v, V(o, 1).v if not isinstance(o, V) else o.v), 1)
    def __invert__(self): return V(alg.bnot(self.v), 1)
    def __repr__(self): return repr(self.v)

def fdiv(a, b):
    if alg.is_const(b) and alg.cval(b) == 0: return alg.fn("div0", a)
    try: return alg.div(a, b)
    except ZeroDivisionError: return alg.fn("div0", a)

def where(c, a, b):
    """a where c holds, else b"""
    c = c.v if isinstance(c, V) else int(c)
    w = a.w if isinstance(a, V) else (b.w if isinstance(b, V) else None)
    uns = (a.uns if isinstance(a, V) else False) or (b.uns if isinstance(b, V) else False)
    if not isinstance(a, V): a = V(a, w) if w is None else V(int(a) % (1 << w), w)
    if not isinstance(b, V): b = V(b, w) if w is None else V(int(b) % (1 << w), w)
    if a.w != b.w:
        if a.w is None: b = b.real()
        else: a = a.real(); w = None
    return V(alg.ite(c, a.v, b.v), a.w, uns)

def atan2(y, x): return V(ap2(alg.atan2_, V(y).v, V(x).v))
def B(x): return V(int(x), 1)
def all_(xs):
    r = B(1)
    for x in xs: r = r & x
    return r
def any_(xs):
    r = B(0)
    for x in xs: r = r | x
    return r
def sqrt(a): return V(ap1(nn(alg.sqrt_), V(a).v if not isinstance(a, V) else a.real().v))
def sin(a): return V(ap1(alg.sin_, V(a).v))
def cos(a): return V(ap1(alg.cos_, V(a).v))
def tan(a): return V(ap1(alg.tan_, V(a).v))
def fn(name, *a, **k): return V(apn(lambda *x: alg.fn(name, *x, **k), tuple(V(x).v for x in a)))
def absv(a):
    if a.w is None: return V(ap1(alg.fabs, a.v))
    return where(a < 0, -a, a)
def minv(xs):
    r = xs[0]
    for x in xs[1:]: r = where(x < r, x, r)
    return r
def maxv(xs):
    r = xs[0]
    for x in xs[1:]: r = where(r < x, x, r)
    return r
def sumv(xs):
    r = xs[0]
    for x in xs[1:]: r = r + x
    return r
def dotv(a, b): return sumv([x * y for x, y in zip(a, b)])
def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def norm(a): return sqrt(dotv(a, a))
def unit(a):
    """a / |a|, a itself when |a| = 0"""
    l = norm(a)
    return [where(l.eq(0), x, x / l) for x in a]
def trunc_to(a, w):
    """real -> integer of w bits by truncation"""
    def f(x):
        if alg.is_const(x):
            c = alg.cval(x); return (int(c) if c >= 0 else -int(-c)) % (1 << w)
        from .engine import Engine
        if Engine.integral(None, x): return mkint(x, w)
        return alg.fn("trunc", x, integer=True)
    return V(ap1(f, a.real().v), w)
def I(x, w=32): return V(int(x) % (1 << w), w)

# ------------------------------------------------------------------ helpers of the case tables
FMAX = {"d": Fraction(2) ** 1024 - Fraction(2) ** 971, "f": Fraction(2) ** 128 - Fraction(2) ** 104, "ld": Fraction(2) ** 16384 - Fraction(2) ** 16320}
FEPS = {"d": Fraction(1, 2 ** 52), "f": Fraction(1, 2 ** 23), "ld": Fraction(1, 2 ** 63)}
FMIN = {"d": Fraction(1, 2 ** 1022), "f": Fraction(1, 2 ** 126), "ld": Fraction(1, 2 ** 16382)}
WID = {"us": 16, "sb": 8, "i": 32, "u": 32, "ub": 8, "sz": 64, "b": 8, "s": 16, "l": 64}
UNS = ("us", "u", "ub", "sz")
def fmax(t): return V(FMAX[t])
def feps(t): return V(FEPS[t])
def kt(c, t):
    """the constant c as a value of element type t"""
    return V(c) if t not in WID else V(int(c) % (1 << WID[t]), WID[t], t in UNS)
FR = ("f", "d", "ld")
def narrowed(x, t):
    """rounded to a narrower floating-point type"""
    n = {"f": "round_to_float", "d": "round_to_double"}[t]
    if alg.NOROUND and t == "d": return x
    return V(ap1(lambda p: p if Engine.integral(None, p) else alg.fn(n, p), x.v))
def conv(x, t, u=None):
    """static_cast to element type t"""
    if t not in WID:
        x = x.real()
        return narrowed(x, t) if u in FR and FR.index(t) < FR.index(u) else x
    w = WID[t]
    if x.w is None: return V(trunc_to(x, w), w, t in UNS)
    if x.w == w: return V(x.v, w, t in UNS)
    return V(ap1(lambda y: (y if x.uns else sgn(y, x.w)) % (1 << w) if isinstance(y, int) else mkint(y, w), x.v), w, t in UNS)
def convfacts(n, t, u): return {}
def intabs(n, t): return None
def within(xs, t):
    """the values the element type can hold, as linear facts"""
    if t in WID:
        w = WID[t]
        lo, hi = (0, 2 ** w - 1) if t in UNS else (-2 ** (w - 1), 2 ** (w - 1) - 1)
    else: lo, hi = -FMAX[t], FMAX[t]
    out = []
    for x in xs:
        p = x.real().v
        out += [(alg.sub(p, const(lo)), ">="), (alg.sub(const(hi), p), ">=")]
    return out
def lst(x): return x if isinstance(x, list) else [x]
def prod(a):
    r = a[0]
    for x in a[1:]: r = r * x
    return r
def vsub(a, b): return [x - y for x, y in zip(a, b)]
def vadd(a, b): return [x + y for x, y in zip(a, b)]
def smul(s, a): return [s * x for x in a]
def rodrigues(p, u, th):
    """p turned by th about the unit axis u"""
    c, s = cos(th), sin(th)
    k = dotv(u, p); x = cross(u, p)
    return [c * p[i] + (1 - c) * k * u[i] + s * x[i] for i in range(3)]
def ident(n): return [[1 if i == j else 0 for j in range(n)] for i in range(n)]
def matmul(a, b):
    """lists of rows"""
    return [[sumv([_v(a[i][k]) * _v(b[k][j]) for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]
def _v(x): return x if isinstance(x, V) else V(x)
def rows(flat, r, c):
    """column-major storage -> list of rows"""
    return [[flat[j * r + i] for j in range(c)] for i in range(r)]
def flat(rw):
    """list of rows -> column-major storage"""
    return [rw[i][j] for j in range(len(rw[0])) for i in range(len(rw))]
def det(m):
    n = len(m)
    if n == 1: return m[0][0]
    r = None
    for j in range(n):
        t = m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]])
        if j % 2: t = -t
        r = t if r is None else r + t
    return r
def minor(m, i, j): return [row[:j] + row[j + 1:] for k, row in enumerate(m) if k != i]
def transp(m): return [list(c) for c in zip(*m)]
