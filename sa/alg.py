"""Abstract values: Laurent polynomials over interned atoms (the normal form of
a computed value as a function of the inputs) and multi-way decision diagrams
(the normal form of a value that depends on the signs of such polynomials).

All arithmetic is exact (int / Fraction); a value read from the analysed
program is therefore its meaning in exact real arithmetic.
"""
from fractions import Fraction
import math, time

NOROUND = False
class AnalysisError(Exception):
    pass

def nz(c):
    """normalise a coefficient: Fractions with denominator 1 become ints"""
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c

DEADLINE = None          # (thread CPU time, wall time) at which the analysis of the current case is given up
_ticks = 0
def tick():
    global _ticks
    _ticks += 1
    if not _ticks & 255 and DEADLINE is not None and (time.thread_time() > DEADLINE[0] or time.time() > DEADLINE[1]):
        raise AnalysisError("time budget of the case exceeded")

def reset():
    """forget every interned term: results never depend on what was analysed before"""
    CORES.clear(); SOLVED.clear(); SUBST.clear()
    for t in (ATOMS, _atomtab, _polytab, _mulcache, _approxtab, _canoncache, VARS, _vartab, _nodetab, _signcache): t.clear()
    _polytab[ZERO._k] = ZERO; _polytab[ONE._k] = ONE

def fl(c):
    try: return float(c)
    except OverflowError: return float("inf") if c > 0 else -float("inf")

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "special", "nonneg", "integer")
    def __repr__(self):
        return atom_str(self.id)

ATOMS = []
_atomtab = {}

def _mkatom(kind, name, args, special=False, nonneg=False, integer=False):
    key = (kind, name, args, nonneg, integer)
    a = _atomtab.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS); a.kind = kind; a.name = name; a.args = args
        a.special = special; a.nonneg = nonneg; a.integer = integer
        ATOMS.append(a); _atomtab[key] = a
    return a

def atom_str(i):
    a = ATOMS[i]
    if a.kind == "cell":
        return a.name
    if a.kind == "inv":
        return "1/(%s)" % (a.args[0],)
    return "%s(%s)" % (a.name, ", ".join(str(x) for x in a.args))

# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "_k")
    def __repr__(self):
        return poly_str(self)
    def __hash__(self):
        return id(self)
    def __eq__(self, o):
        return self is o

_polytab = {}

def mk(t):
    """intern a term dictionary (monomial -> coefficient)"""
    k = frozenset(t.items())
    p = _polytab.get(k)
    if p is None:
        p = Poly(); p.t = t; p._k = k
        _polytab[k] = p
    return p

ZERO = mk({})
ONE = mk({(): 1})

def const(c):
    if c == 0:
        return ZERO
    return mk({(): nz(c)})

def cell(name, nonneg=False, integer=False):
    a = _mkatom("cell", name, (), nonneg=nonneg, integer=integer)
    return mk({((a.id, 1),): 1})

def is_const(p):
    return not p.t or (len(p.t) == 1 and () in p.t)

def cval(p):
    return p.t.get((), 0)

def poly_str(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda kv: (len(kv[0]), kv[0])):
        f = []
        if c != 1 or not m:
            if type(c) is Fraction:
                f.append(str(c) if c.denominator < 10**6 and abs(c.numerator) < 10**30 else "%.12g" % fl(c))
            else:
                f.append(str(c) if abs(c) < 10**30 else "%.12g" % fl(c))
        for a, e in m:
            f.append(atom_str(a) if e == 1 else "%s^%d" % (atom_str(a), e))
        out.append("*".join(f))
    s = " + ".join(out[:40])
    if len(out) > 40:
        s += " + ...(%d terms)" % len(out)
    return s

def add(a, b):
    if not a.t: return b
    if not b.t: return a
    if len(a.t) < len(b.t): a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = nz(v + c)
            if v: t[m] = v
            else: del t[m]
    return mk(t)

def neg(a):
    return mk({m: -c for m, c in a.t.items()})

def sub(a, b):
    return add(a, neg(b))

def scale(a, c):
    if c == 0: return ZERO
    if c == 1: return a
    return mk({m: nz(v * c) for m, v in a.t.items()})

def mmul(m, n):
    if not m: return n
    if not n: return m
    out = []
    i = j = 0
    lm, ln = len(m), len(n)
    while i < lm and j < ln:
        a, e = m[i]; b, f = n[j]
        if a == b:
            if e + f: out.append((a, e + f))
            i += 1; j += 1
        elif a < b:
            out.append(m[i]); i += 1
        else:
            out.append(n[j]); j += 1
    if i < lm: out.extend(m[i:])
    if j < ln: out.extend(n[j:])
    return tuple(out)

def _reducible(m):
    for a, e in m:
        if ATOMS[a].special and (e >= 2 or e <= -2):
            if ATOMS[a].kind == "sqrt" or (ATOMS[a].kind == "cos" and e >= 2):
                return a, e
    return None

def _reduce(t):
    """rewrite sqrt(q)^2 -> q, sqrt(q)^-2 -> 1/q, cos(x)^2 -> 1 - sin(x)^2"""
    bad = None
    for m in t:
        if _reducible(m):
            bad = True; break
    if not bad:
        return mk(t)
    plain = {}; extra = ZERO
    for m, c in t.items():
        r = _reducible(m)
        if not r:
            v = nz(plain.get(m, 0) + c)
            if v: plain[m] = v
            else: plain.pop(m, None)
            continue
        a, e = r
        at = ATOMS[a]
        rest = tuple(x for x in m if x[0] != a)
        if at.kind == "sqrt":
            k = abs(e) // 2
            rem = abs(e) % 2
            if rem:
                rest = mmul(rest, ((a, 1 if e > 0 else -1),))
            q = at.args[0] if e > 0 else inv(at.args[0])
            f = ONE
            for _ in range(k): f = mul(f, q)
        else:
            if e % 2:
                rest = mmul(rest, ((a, 1),))
            s = sin_(at.args[0])
            f1 = sub(ONE, mul(s, s)); f = ONE
            for _ in range(e // 2): f = mul(f, f1)
        extra = add(extra, mul(mk({rest: c}), f))
    return add(mk(plain), extra)

_mulcache = {}
def mul(a, b):
    if not a.t or not b.t: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    k = (a, b)
    r = _mulcache.get(k)
    if r is not None: return r
    t = {}
    get = t.get
    spec = False
    for m, c in a.t.items():
        for n, d in b.t.items():
            x = mmul(m, n)
            v = get(x)
            v = c * d if v is None else v + c * d
            t[x] = v
    t = {m: nz(c) for m, c in t.items() if c}
    r = _reduce(t)
    if len(_mulcache) > 400000: _mulcache.clear()
    _mulcache[k] = r
    return r

def content(p):
    """p = c * monomial * q with q having content 1 and leading coefficient 1
    (Laurent: the monomial takes the minimum exponent of every atom)"""
    ms = list(p.t)
    low = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(low):
            e = d.get(a, 0)
            if e < low[a]: low[a] = e
        for a, e in d.items():
            if a not in low and e < 0: low[a] = e
    for m in ms:
        d = dict(m)
        for a in low:
            e = d.get(a, 0)
            if e < low[a]: low[a] = e
    mono = tuple(sorted((a, e) for a, e in low.items() if e))
    imono = tuple((a, -e) for a, e in mono)
    t = {mmul(m, imono): c for m, c in p.t.items()}
    lead = t[min(t, key=_mkey)]
    if lead != 1:
        t = {m: nz(Fraction(c) / lead) for m, c in t.items()}
    return lead, mono, mk(t)

def _mkey(m):
    return (-len(m), m)

def mono_poly(m):
    return mk({m: 1}) if m else ONE

def _approx_key(p):
    return tuple(sorted((m, "%.9e" % fl(c)) for m, c in p.t.items()))

_approxtab = {}
def approx_canon(p):
    """identify polynomials whose coefficients agree to ~10 digits (constants
    folded by the compiler are rounded; the property is about exact values)"""
    if all(type(c) is int for c in p.t.values()):
        key = _approx_key(p)
        return _approxtab.setdefault(key, p)
    key = _approx_key(p)
    return _approxtab.setdefault(key, p)

def divexact(n, q):
    """n / q if the division is exact (polynomials, q with >= 2 terms), else None"""
    if len(n.t) < 1: return ZERO
    # make exponents non-negative
    if any(e < 0 for m in n.t for _, e in m) or any(e < 0 for m in q.t for _, e in m):
        cn, mn, nn = content(n); cq, mq, qq = content(q)
        if any(e < 0 for m in qq.t for _, e in m): return None
        r = divexact(nn, qq)
        if r is None: return None
        im = tuple((a, -e) for a, e in mq)
        return mul(scale(r, Fraction(cn) / cq), mono_poly(mmul(mn, im)))
    vars_ = sorted({a for m in n.t for a, _ in m} | {a for m in q.t for a, _ in m})
    idx = {a: i for i, a in enumerate(vars_)}
    def vec(m):
        v = [0] * len(vars_)
        for a, e in m: v[idx[a]] = e
        return tuple(v)
    nd = {vec(m): c for m, c in n.t.items()}
    qd = {vec(m): c for m, c in q.t.items()}
    lq = max(qd); clq = qd[lq]
    res = {}
    steps = 0
    while nd:
        ln = max(nd)
        d = tuple(x - y for x, y in zip(ln, lq))
        if any(x < 0 for x in d): return None
        c = nz(Fraction(nd[ln]) / clq)
        res[d] = c
        for v, cc in qd.items():
            w = tuple(x + y for x, y in zip(v, d))
            s = nz(nd.get(w, 0) - c * cc)
            if s: nd[w] = s
            else: nd.pop(w, None)
        steps += 1
        if steps > 4000: return None
    out = {}
    for v, c in res.items():
        out[tuple((vars_[i], e) for i, e in enumerate(v) if e)] = c
    return mk(out)

def inv_atom(q):
    q = approx_canon(q)
    return _mkatom("inv", "inv", (q,), special=True)

def clear(p):
    """p = n / d with n, d free of 'inv' atoms. returns (n, [(q, k)...])"""
    dens = []
    guard = 0
    while True:
        ks = {}
        for m in p.t:
            for a, e in m:
                if ATOMS[a].kind == "inv":
                    ks[a] = max(ks.get(a, 0), e)
        if not ks: break
        a = max(ks)         # innermost-last: highest id may contain lower ids
        k = ks[a]
        q = ATOMS[a].args[0]
        pw = [ONE]
        for _ in range(max(k, 0) + 8): pw.append(mul(pw[-1], q))
        acc = ZERO
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] != a)
            acc = add(acc, mul(mk({rest: c}), pw[k - e]))
        p = acc
        if k > 0: dens.append((q, k))
        guard += 1
        if guard > 200: raise AnalysisError("clear diverges")
    return p, dens

_canoncache = {}
def canon(p):
    """cancel numerator against the inverse atoms where division is exact"""
    r = _canoncache.get(p)
    if r is not None: return r
    if not any(ATOMS[a].kind == "inv" for m in p.t for a, _ in m):
        _canoncache[p] = p
        return p
    n, dens = clear(p)
    out = n
    rem = []
    for q, k in dens:
        while k > 0:
            d = divexact(out, q)
            if d is None: break
            out = d; k -= 1
        if k: rem.append((q, k))
    r = out
    for q, k in rem:
        m = ((inv_atom(q).id, k),)
        r = mk({mmul(x, m): c for x, c in r.t.items()})
    _canoncache[p] = r
    return r

def inv(p):
    if not p.t:
        raise ZeroDivisionError
    p = canon(p)
    c, m, q = content(p)
    ic = Fraction(1) / c
    im = tuple((a, -e) for a, e in m)
    # inverse of inv atoms gives the polynomial back
    f = ONE
    keep = []
    for a, e in im:
        if ATOMS[a].kind == "inv" and e < 0:
            for _ in range(-e): f = mul(f, ATOMS[a].args[0])
        else:
            keep.append((a, e))
    r = scale(mul(mono_poly(tuple(keep)), f), nz(ic))
    if is_const(q):
        return _reduce(dict(r.t))
    n, dens = clear(q)
    if dens:
        # 1/q = prod(dens) / n
        cn, mn, qn = content(n)
        r = mul(r, scale(mono_poly(tuple((a, -e) for a, e in mn)), nz(Fraction(1) / cn)))
        for d, k in dens:
            for _ in range(k): r = mul(r, d)
        if is_const(qn): return r
        q = qn
    a = inv_atom(q)
    # normalise the scale difference of an approximately equal atom
    return mul(r, mk({((a.id, 1),): 1}))

def div(a, b):
    if is_const(b):
        c = cval(b)
        if c == 0: raise ZeroDivisionError
        return scale(a, nz(Fraction(1) / Fraction(c)))
    return mul(a, inv(b))

def fn(name, *args, nonneg=False, integer=False):
    a = _mkatom("fn", name, tuple(approx_canon(canon(x)) if isinstance(x, Poly) else x for x in args),
                nonneg=nonneg, integer=integer)
    return mk({((a.id, 1),): 1})

def _isq(c):
    c = Fraction(c)
    if c < 0: return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return nz(Fraction(n, d))
    return None

def sqrt_(p):
    p = canon(p)
    if is_const(p):
        c = cval(p)
        r = _isq(c) if c >= 0 else None
        if r is not None: return const(r)
        a = _mkatom("sqrt", "sqrt", (approx_canon(p),), special=True, nonneg=True)
        return mk({((a.id, 1),): 1})
    c, m, q = content(p)
    if c < 0:
        a = _mkatom("sqrt", "sqrt", (approx_canon(p),), special=True, nonneg=True)
        return mk({((a.id, 1),): 1})
    out = ONE
    rest = []
    odd = ()
    gates = []
    for a, e in m:
        if e % 2 == 0:
            h = e // 2
            base = mk({((a, h),): 1})
            if h % 2 == 0 or ATOMS[a].nonneg:
                out = mul(out, base)
            else:
                gates.append(base)
        else:
            odd = odd + ((a, e),)
    inner = scale(mul(q, mono_poly(odd)), c)
    if is_const(inner):
        r = sqrt_(inner)
    else:
        a = _mkatom("sqrt", "sqrt", (approx_canon(inner),), special=True, nonneg=True)
        r = mk({((a.id, 1),): 1})
    r = mul(out, r)
    for g in gates:
        r = ap2(mul, r, fabs(g))
    return r

def _argsign(p):
    """sign of the canonical leading term, to normalise odd/even functions"""
    m = min(p.t, key=_mkey)
    return -1 if p.t[m] < 0 else 1

def sin_(p):
    p = canon(p)
    if not p.t: return ZERO
    if is_const(p):
        q = approx_canon(p)
        v = math.sin(float(cval(q)))
        if abs(v) < 1e-14: return ZERO
        if abs(v - 1) < 1e-14: return ONE
        if abs(v + 1) < 1e-14: return neg(ONE)
    s = _argsign(p)
    q = approx_canon(p if s > 0 else neg(p))
    a = _mkatom("fn", "sin", (q,), nonneg=False)
    r = mk({((a.id, 1),): 1})
    return r if s > 0 else neg(r)

def cos_(p):
    p = canon(p)
    if not p.t: return ONE
    if is_const(p):
        q = approx_canon(p)
        v = math.cos(float(cval(q)))
        if abs(v) < 1e-14: return ZERO
        if abs(v - 1) < 1e-14: return ONE
        if abs(v + 1) < 1e-14: return neg(ONE)
    s = _argsign(p)
    q = approx_canon(p if s > 0 else neg(p))
    # cos(acos(x)) = x
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.kind == "fn" and at.name == "acos": return at.args[0]
    a = _mkatom("cos", "cos", (q,), special=True)
    return mk({((a.id, 1),): 1})

def atan2_(y, x):
    """atan2(sqrt(1-x^2), x) is acos(x)"""
    if len(y.t) == 1:
        (m, c), = y.t.items()
        if c > 0 and all(ATOMS[a].nonneg for a, _ in m) and poly_equal(add(mul(y, y), mul(x, x)), ONE): return fn("acos", x, nonneg=True)
    return fn("atan2", y, x)

def tan_(p):
    return div(sin_(p), cos_(p)) if canon(p).t else ZERO

# ---------------------------------------------------------------- diagrams
class Node:
    __slots__ = ("v", "ch", "h")
    def __repr__(self):
        return node_str(self)

VARS = []          # index -> (kind, poly, nonneg)
_vartab = {}
_nodetab = {}

def mkvar(p, nonneg=False):
    k = p
    i = _vartab.get(k)
    if i is None:
        i = len(VARS)
        VARS.append((p, nonneg))
        _vartab[k] = i
    return i

def _ck(x):
    return id(x) if isinstance(x, (Node, Poly)) else (type(x), x)

def node(v, lt, eq, gt):
    if VARS[v][1]: lt = gt        # polynomial known to be >= 0
    if lt is eq and eq is gt: return lt
    if same(lt, eq) and same(eq, gt): return lt
    k = (v, _ck(lt), _ck(eq), _ck(gt))
    n = _nodetab.get(k)
    if n is None:
        tick()
        n = Node(); n.v = v; n.ch = (lt, eq, gt)
        _nodetab[k] = n
    return n

def same(a, b):
    if a is b: return True
    if isinstance(a, (Node, Poly)) or isinstance(b, (Node, Poly)): return False
    return type(a) is type(b) and a == b

def ap1(f, a):
    if not isinstance(a, Node): return f(a)
    memo = {}
    def go(n):
        if not isinstance(n, Node): return f(n)
        r = memo.get(id(n))
        if r is None:
            l, e, g = n.ch
            r = _ite(n.v, go(l), go(e), go(g))
            memo[id(n)] = r
        return r
    return go(a)

def _ite(v, l, e, g):
    """children may carry diagrams with earlier variables (f may introduce
    gates), so rebuild with proper ordering"""
    top = v
    for x in (l, e, g):
        if isinstance(x, Node) and x.v <= v:
            return _ite_slow(v, l, e, g)
    return node(v, l, e, g)

def _cof(x, v, i):
    if isinstance(x, Node) and x.v == v: return x.ch[i]
    return x

def _ite_slow(v, l, e, g, memo=None):
    if memo is None: memo = {}
    k = (_ck(l), _ck(e), _ck(g))
    r = memo.get(k)
    if r is not None: return r
    t = v
    for x in (l, e, g):
        if isinstance(x, Node) and x.v < t: t = x.v
    if t == v:
        r = node(v, _cof(l, v, 0), _cof(e, v, 1), _cof(g, v, 2))
    else:
        ch = [_ite_slow(v, _cof(l, t, i), _cof(e, t, i), _cof(g, t, i), memo) for i in range(3)]
        r = node(t, *ch)
    memo[k] = r
    return r

def ap2(f, a, b):
    an = isinstance(a, Node); bn = isinstance(b, Node)
    if not an and not bn: return f(a, b)
    memo = {}
    def go(x, y):
        xn = isinstance(x, Node); yn = isinstance(y, Node)
        if not xn and not yn: return f(x, y)
        k = (_ck(x), _ck(y))
        r = memo.get(k)
        if r is None:
            v = min(x.v if xn else 1 << 60, y.v if yn else 1 << 60)
            ch = [go(_cof(x, v, i), _cof(y, v, i)) for i in range(3)]
            r = _ite(v, *ch)
            memo[k] = r
        return r
    return go(a, b)

def apn(f, args):
    if not any(isinstance(a, Node) for a in args): return f(*args)
    memo = {}
    def go(xs):
        v = 1 << 60
        for x in xs:
            if isinstance(x, Node) and x.v < v: v = x.v
        if v == 1 << 60: return f(*xs)
        k = tuple(_ck(x) for x in xs)
        r = memo.get(k)
        if r is None:
            ch = [go(tuple(_cof(x, v, i) for x in xs)) for i in range(3)]
            r = _ite(v, *ch)
            memo[k] = r
        return r
    return go(tuple(args))

def ite(c, a, b):
    """c: boolean diagram with int leaves 0/1"""
    if not isinstance(c, Node): return a if c else b
    if same(a, b): return a
    memo = {}
    def go(c, a, b):
        if not isinstance(c, Node): return a if c else b
        if same(a, b): return a
        k = (id(c), _ck(a), _ck(b))
        r = memo.get(k)
        if r is None:
            v = c.v
            if isinstance(a, Node) and a.v < v: v = a.v
            if isinstance(b, Node) and b.v < v: v = b.v
            ch = [go(_cof(c, v, i), _cof(a, v, i), _cof(b, v, i)) for i in range(3)]
            r = node(v, *ch)
            memo[k] = r
        return r
    return go(c, a, b)

def band(a, b): return ite(a, b, 0)
def bor(a, b): return ite(a, 1, b)
def bnot(a): return ite(a, 0, 1)

def simplify(f, pc):
    """drop the parts of f that the path condition pc excludes"""
    if not isinstance(pc, Node) or not isinstance(f, Node): return f
    memo = {}
    def go(f, c):
        if not isinstance(f, Node): return f
        if not isinstance(c, Node): return f
        k = (id(f), id(c))
        r = memo.get(k)
        if r is not None: return r
        if c.v < f.v:
            # quantify the variable f does not test (any child)
            alive = [x for x in c.ch if not (x.__class__ is int and x == 0)]
            if len(set(map(_ck, alive))) == 1: r = go(f, alive[0])
            else:
                cc = alive[0]
                for x in alive[1:]: cc = bor(cc, x)
                r = go(f, cc)
        else:
            v = f.v
            res = []
            for i in range(3):
                ci = _cof(c, v, i)
                if ci.__class__ is int and ci == 0: res.append(None)
                else: res.append(go(f.ch[i], ci))
            live = [x for x in res if x is not None]
            if not live: r = f.ch[1]
            elif all(same(x, live[0]) for x in live): r = live[0]
            else:
                fill = live[0]
                r = node(v, *[fill if x is None else x for x in res])
        memo[k] = r
        return r
    return go(f, pc)

def leaves(f, seen=None):
    if not isinstance(f, Node): return [f]
    out = []; st = [f]; seen = set(); got = set()
    while st:
        n = st.pop()
        if isinstance(n, Node):
            if id(n) in seen: continue
            seen.add(id(n)); st.extend(n.ch)
        else:
            k = _ck(n)
            if k not in got: got.add(k); out.append(n)
    return out

def node_str(n, depth=0):
    if not isinstance(n, Node): return str(n)
    if depth > 6: return "..."
    p, nn = VARS[n.v]
    l, e, g = n.ch
    return "[%s <0: %s; =0: %s; >0: %s]" % (p, node_str(l, depth + 1) if not nn else "-", node_str(e, depth + 1), node_str(g, depth + 1))

# ---------------------------------------------------------------- sign
_signcache = {}
def mulsign(a, b): return a * b

FMAX = [None]      # the largest finite value of the case's element type
def _nonneg_poly(p):
    if len(p.t) == 2 and FMAX[0] is not None and () in p.t and p.t[()] > 0:
        # no value lies beyond the largest one
        for m, c in p.t.items():
            if m and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "cell" and not ATOMS[m[0][0]].integer and p.t[()] >= abs(c) * FMAX[0]: return True
    for m, c in p.t.items():
        if c < 0 or any(e % 2 and not ATOMS[a].nonneg for a, e in m): return _psd(p)
    return True

def _psd(p):
    """a positive semidefinite quadratic form (exact elimination)"""
    if len(p.t) > 150: return False
    G = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 2: G[m[0][0], m[0][0]] = Fraction(c)
        elif len(m) == 2 and m[0][1] == m[1][1] == 1:
            G[m[0][0], m[1][0]] = G[m[1][0], m[0][0]] = Fraction(c) / 2
        else: return False
    ids = {a for k in G for a in k}
    while ids:
        a = next((a for a in ids if (a, a) in G), None)
        if a is None: return not G
        d = G.pop((a, a))
        if d < 0: return False
        ids.discard(a)
        row = {b: G.pop((a, b)) for b in ids if (a, b) in G}
        for b in row: G.pop((b, a))
        if d == 0:
            if row: return False
            continue
        for b, x in row.items():
            for c_, y in row.items():
                z = G.get((b, c_), 0) - x * y / d
                if z: G[b, c_] = z
                else: G.pop((b, c_), None)
        ids = {a for a in ids}
    return True

def _atomsign(a):
    at = ATOMS[a]
    if at.kind == "sqrt":
        s = sign(at.args[0])
        return ap1(lambda x: 0 if x == 0 else 1, s)
    if at.kind == "inv":
        return sign(at.args[0])
    p = mk({((a, 1),): 1})
    v = mkvar(p, nonneg=at.nonneg)
    return node(v, -1, 0, 1)

def sign(p):
    """three-way diagram of the sign of polynomial p (no NaN)"""
    s = _signcache.get(p)
    if s is not None: return s
    q0 = canon(p)
    if not q0.t: r = 0
    elif is_const(q0): r = -1 if cval(q0) < 0 else 1
    else:
        n, dens = clear(q0)
        r = 1
        for q, k in dens:
            if k % 2: r = ap2(mulsign, r, sign(q))
        # drop noise from rounded constants
        c, m, q = content(n)
        if c < 0: r = ap1(lambda x: -x, r)
        for a, e in m:
            sa = _atomsign(a)
            if e % 2 == 0: sa = ap1(lambda x: x * x, sa)
            r = ap2(mulsign, r, sa)
        if not is_const(q):
            q = approx_canon(q)
            sg = 1
            if _argsign(q) < 0: q = neg(q); sg = -1
            nn = _nonneg_poly(q)
            if not nn and _nonneg_poly(neg(q)): q = neg(q); sg = -sg; nn = True
            v = mkvar(q, nonneg=nn)
            sn = node(v, -1, 0, 1)
            if VARS[v][1]:
                # lt child is a don't-care already mapped to gt
                pass
            if sg < 0: sn = ap1(lambda x: -x, sn)
            r = ap2(mulsign, r, sn)
    _signcache[p] = r
    return r

def lt(a, b): return ap1(lambda s: 1 if s < 0 else 0, apsign(a, b))
def le(a, b): return ap1(lambda s: 1 if s <= 0 else 0, apsign(a, b))
def eq(a, b): return ap1(lambda s: 1 if s == 0 else 0, apsign(a, b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)

def apsign(a, b):
    return ap2(lambda x, y: sign(sub(x, y)), a, b)

def fabs(p):
    if isinstance(p, Node): return ap1(fabs, p)
    if is_const(p): return const(abs(cval(p)))
    if _nonneg_poly(p): return p
    if _nonneg_poly(neg(p)): return neg(p)
    s = sign(p)
    return ap1(lambda x: neg(p) if x < 0 else p, s)

# ---------------------------------------------------------------- substitution
def subst(p, a, e):
    """replace atom id a by polynomial e everywhere in p (recursively)"""
    memo = {}
    def atom(i):
        if i == a: return e
        r = memo.get(i)
        if r is not None: return r
        at = ATOMS[i]
        if at.kind == "cell":
            r = mk({((i, 1),): 1})
        elif at.kind == "inv":
            r = inv(pol(at.args[0]))
        elif at.kind == "sqrt":
            r = sqrt_(pol(at.args[0]))
            if isinstance(r, Node): r = mk({((i, 1),): 1})
        elif at.kind == "cos":
            r = cos_(pol(at.args[0]))
        elif at.name == "sin":
            r = sin_(pol(at.args[0]))
        else:
            r = fn(at.name, *[pol(x) if isinstance(x, Poly) else x for x in at.args], nonneg=at.nonneg, integer=at.integer)
        memo[i] = r
        return r
    def uses(i):
        if i == a: return True
        at = ATOMS[i]
        return any(isinstance(x, Poly) and any(uses(b) for m in x.t for b, _ in m) for x in at.args)
    def pol(q):
        ids = {b for m in q.t for b, _ in m}
        hit = {b for b in ids if uses(b)}
        if not hit: return q
        acc = ZERO
        for m, c in q.t.items():
            t = const(c)
            for b, k in m:
                if b not in hit:
                    t = mul(t, mk({((b, k),): 1})); continue
                r = atom(b)
                if k < 0: r = inv(r)
                for _ in range(abs(k)): t = mul(t, r)
            acc = add(acc, t)
        return acc
    return pol(p)

# ---------------------------------------------------------------- comparison
def full_clear(ps):
    """bring several polynomials to a common inverse-free, Laurent-free form by
    multiplying all of them by the same non-zero factor"""
    for _ in range(60):
        ks = {}
        for p in ps:
            for m in p.t:
                for a, e in m:
                    if ATOMS[a].kind == "inv": ks[a] = max(ks.get(a, 0), e)
        if ks:
            a = max(ks); k = ks[a]; q = ATOMS[a].args[0]
            pw = [ONE]
            for _ in range(k): pw.append(mul(pw[-1], q))
            out = []
            for p in ps:
                acc = ZERO
                for m, c in p.t.items():
                    e = dict(m).get(a, 0)
                    rest = tuple(x for x in m if x[0] != a)
                    acc = add(acc, mul(mk({rest: c}), pw[k - e]))
                out.append(acc)
            ps = out
            continue
        low = {}
        for p in ps:
            for m in p.t:
                for a, e in m:
                    if e < 0: low[a] = min(low.get(a, 0), e)
        if not low: return ps
        f = mono_poly(tuple(sorted((a, -e) for a, e in low.items())))
        ps = [mul(p, f) for p in ps]
    return ps

def poly_equal(a, b, tol=1e-9):
    if a is b: return True
    a, b = full_clear([a, b])
    if a is b: return True
    big = 0.0
    for t in (a.t, b.t):
        for c in t.values():
            x = abs(fl(c))
            if x > big: big = x
    lim = tol * big
    for m in set(a.t) | set(b.t):
        if abs(fl(a.t.get(m, 0) - b.t.get(m, 0))) > max(lim * 1e-3, tol * max(abs(fl(a.t.get(m, 0))), abs(fl(b.t.get(m, 0))))):
            return False
    return True

def _lp_core(cons):
    """cons: list of (dict var->coef, const, rel) with rel in '<','=','>','>='.
    Exact emptiness test of the set they describe, the constant being made one more
    variable h > 0. Returns None if it is not empty, else the indices of constraints
    (a Farkas certificate) that already contradict each other."""
    rows = []; free = set(); eqs = []
    def put(r, v, k):
        r[v] = r.get(v, 0) + k
    def ints(r):
        d = 1
        for k in r.values():
            if type(k) is Fraction: d = d * k.denominator // math.gcd(d, k.denominator)
        return {v: int(k * d) for v, k in r.items() if k}
    HC = ("h",); TC = ("t",)
    order = {}
    for n, (c, k, rel) in enumerate(cons):
        s = -1 if rel in ('>', '>=') else 1
        r = {("v", v): k_ * s for v, k_ in c.items()}
        if k: r[HC] = k * s
        r = ints(r)
        free.update(r)
        if rel in '<>': r[TC] = 1
        r[("s", n)] = 1
        rows.append((("s", n), r))
        if rel == '=': eqs.append(("s", n))
    rows.append((("s", -1), {HC: -1, TC: 1, ("s", -1): 1})); free.add(HC)
    fixed = set(eqs)                        # slack of an equation: may not become positive
    T = [[s, r] for s, r in rows]
    def small(r):
        g = 0
        for k in r.values():
            g = math.gcd(g, k)
            if g == 1: return r
        return {v: k // g for v, k in r.items()} if g > 1 else r
    def elim(r, c, R, pv):
        k = r.get(c)
        if not k: return r
        g = math.gcd(k, pv); m = abs(pv) // g; q = k // g if pv > 0 else -(k // g)
        out = {v: x * m for v, x in r.items()} if m != 1 else dict(r)
        for v, y in R.items():
            z = out.get(v, 0) - q * y
            if z: out[v] = z
            else: out.pop(v, None)
        return small(out) if m != 1 else out
    # unconstrained columns: solve for them, equations first
    T.sort(key=lambda x: x[0] not in fixed)
    for _ in range(len(T)):
        best = None
        for i, (s, r) in enumerate(T):
            cs = [v for v in r if v in free]
            if cs and (best is None or len(r) < best[0]):
                best = (len(r), i, cs)
                if s in fixed: break
        if best is None: break
        tick()
        _, i, cs = best
        s, R = T.pop(i)
        # the column that occurs in fewest other rows
        c = min(cs, key=lambda v: (sum(1 for _, r in T if v in r), str(v)))
        pv = R[c]
        for x in T: x[1] = elim(x[1], c, R, pv)
        free.discard(c)
    name = lambda r: sorted({v[1] for v in r if v[0] == "s" and v[1] >= 0})
    act = []
    for s, r in T:
        if s in fixed:
            if r.get(TC): return name(r)    # t = combination of slacks ...
            continue
        act.append([s, r])
    obj = {TC: -1}; it = 0
    key = {TC: -2}
    kf = lambda v: key.get(v, v[1] if v[0] == "s" else -2)
    while True:
        it += 1
        if not it & 15: tick()
        if it > 2000: return None
        neg_ = [v for v, k in obj.items() if k < 0 and v not in fixed]
        if not neg_: return name({v: 1 for v, k in obj.items() if k})
        c = min(neg_, key=kf) if it > 40 else min(neg_, key=lambda v: (obj[v], kf(v)))
        best = None
        for i, (s, r) in enumerate(act):
            if r.get(c, 0) > 0 and (best is None or kf(s) < kf(act[best][0])): best = i
        if best is None: return None
        s, R = act[best]; pv = R[c]
        for i, x in enumerate(act):
            if i != best: x[1] = elim(x[1], c, R, pv)
        obj = elim(obj, c, R, pv)
        act[best][0] = c

def _lp_feasible(cons): return _lp_core(cons) is None

def _lin(p):
    c = {}; k = 0
    for m, v in p.t.items():
        if m == (): k = v
        else: c[m] = v
    return c, k

def _facts(polys):
    """sign facts about the monomials that occur"""
    out = []
    seen = set()
    for p in polys:
        for m in p.t:
            if m in seen or not m: continue
            seen.add(m)
            if all(e % 2 == 0 or ATOMS[a].nonneg for a, e in m):
                out.append(({m: 1}, 0, '>='))
    return out

SOLVED = {}; SUBST = {}
def _subst1(q, a, e):
    k = (id(q), a, id(e))
    r = SUBST.get(k)
    if r is None: r = SUBST[k] = (q, e, subst(q, a, e))
    return r[2]

def path_feasible(path, diff=None, facts=(), strong=True):
    """path: list of (poly, rel). diff: a polynomial that must be non-zero."""
    return path_core(path, diff, facts, strong) is None

def path_core(path, diff=None, facts=(), strong=True):
    """None if the conditions may hold together, else the indices of conditions
    that contradict each other (with the facts, and with diff if there is one)"""
    diffs = [diff] if diff is not None else []
    # eliminate equalities that are linear in a cell
    progress = True; guard = 0
    path = [(x, r, frozenset((i,))) for i, (x, r) in enumerate(path)]
    dsrc = frozenset()
    while progress and guard < 40:
        progress = False; guard += 1
        for _ in range(8): tick()
        for i, (p, rel, src) in enumerate(path):
            if rel != '=': continue
            if not p.t:
                path.pop(i); progress = True; break
            if is_const(p): return src
            cand = None
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "cell":
                    a = m[0][0]
                    if sum(1 for n in p.t for b, _ in n if b == a) == 1 and not any(
                            _uses(b, a) for n in p.t if n != m for b, _ in n):
                        cand = (a, m, c); break
            if cand:
                a, m, c = cand
                x = SOLVED.get((id(p), a))
                if x is None: x = SOLVED[(id(p), a)] = (p, scale(sub(p, mk({m: c})), nz(Fraction(-1) / c)))
                e = x[1]
                newp = []
                for j, (q, r, s) in enumerate(path):
                    if j == i: continue
                    try: q2 = _subst1(q, a, e)
                    except ZeroDivisionError: return s | src      # excluded: divides by a value that is zero here
                    newp.append((q2, r, s if q2 is q else s | src))
                try: d2 = [subst(d, a, e) for d in diffs]
                except ZeroDivisionError: return src | dsrc
                if any(x is not y for x, y in zip(diffs, d2)): dsrc |= src
                diffs = d2
                path = newp; progress = True
                break
    # what is zero has a zero square root
    for p, rel, src in path:
        if rel != '=' or not diffs: continue
        z = _mono_clear(p)
        for d in list(diffs):
            for a in {a for m in d.t for a, e in m if ATOMS[a].kind == "sqrt" and e > 0}:
                if _proportional(_mono_clear(ATOMS[a].args[0]), z):
                    dsrc |= src
                    try: diffs = [subst(x, a, ZERO) for x in diffs]
                    except ZeroDivisionError: pass
    cons = []; srcs = []
    polys = []
    for p, rel, src in path:
        try:
            p2 = canon(p)
            if any(ATOMS[a].kind == "inv" for m in p2.t for a, _ in m): continue
        except ZeroDivisionError:
            return src
        if is_const(p2):
            v = cval(p2)
            if (rel == '<' and not v < 0) or (rel == '>' and not v > 0) or (rel == '=' and v != 0): return src
            continue
        c, k = _lin(p2)
        cons.append((c, k, rel)); srcs.append(src); polys.append(p2)
    for p, rel in facts:
        c, k = _lin(p); cons.append((c, k, rel)); srcs.append(frozenset()); polys.append(p)
    def core(cs, ss):
        r = _lp_core(cs)
        if r is None: return None
        return frozenset().union(*[ss[i] for i in r if i < len(ss)])
    if diffs:
        d = diffs[0]
        dc, = full_clear([d])
        if not dc.t or poly_equal(dc, ZERO): return dsrc
        if is_const(dc): return core(cons + _facts(polys), srcs) if cons else None
        c, k = _lin(dc)
        polys.append(dc)
        f = cons + _facts(polys); m = len(f)
        def both(f, ss):
            x = core(f + [(c, k, '<')], ss)
            if x is None: return None
            y = core(f + [(c, k, '>')], ss)
            return None if y is None else x | y | dsrc
        none = [frozenset()] * (m - len(cons))
        r = both(f, srcs + none)
        if r is not None: return r
        x = _products(path, polys) if strong else None
        return both(f + [y for y, _ in x], srcs + none + [s for _, s in x]) if x else None
    if not cons: return None
    f = cons + _facts(polys)
    r = core(f, srcs)
    if r is not None: return r
    x = _products(path, polys) if strong else None
    return core(f + [y for y, _ in x], srcs + [frozenset()] * (len(f) - len(cons)) + [s for _, s in x]) if x else None

def _products(path, polys):
    """sign conditions multiplied by non-negative atoms, where that speaks about
    monomials the other conditions mention"""
    mons = {m for p in polys for m in p.t}
    atoms = {a for m in mons if len(m) > 1 for a, e in m if ATOMS[a].nonneg}
    out = []
    for p, rel, src in path:
        for a in atoms:
            q = mul(p, mk({((a, 1),): 1}))
            if not q.t or any(m not in mons for m in q.t): continue
            c, k = _lin(q if rel != '<' else neg(q))
            out.append(((c, k, '=' if rel == '=' else '>='), src))
    return out

def _mono_clear(p):
    p, = full_clear([p])
    return p
def _proportional(a, b):
    if len(a.t) != len(b.t) or not a.t: return False
    m = next(iter(a.t))
    if m not in b.t: return False
    k = Fraction(a.t[m]) / Fraction(b.t[m])
    return all(n in b.t and Fraction(c) == k * b.t[n] for n, c in a.t.items())

def _uses(i, a):
    if i == a: return True
    return any(isinstance(x, Poly) and any(_uses(b, a) for m in x.t for b, _ in m) for x in ATOMS[i].args)

REL = ('<', '=', '>')
def paths_to(f, want, limit=200000):
    """enumerate the variable assignments (as constraint lists) under which the
    diagram f reaches a leaf satisfying want(leaf)"""
    dead = set()
    count = [0]
    def go(n, path):
        if not isinstance(n, Node):
            if want(n):
                yield list(path), n
            return
        if id(n) in dead: return
        any_ = False
        for i in range(3):
            if VARS[n.v][1] and i == 0: continue
            path.append((n.v, i))
            for r in go(n.ch[i], path):
                any_ = True
                yield r
            path.pop()
        if not any_: dead.add(id(n))
    for r in go(f, []):
        count[0] += 1
        if count[0] > limit: raise AnalysisError("too many cases in a comparison")
        yield r

def live_paths(f, want, facts=(), limit=400000):
    """as paths_to, leaving out what the contradictions found so far exclude; a
    search that visits much is restarted on the diagram without them"""
    _learnt(facts)
    _, learnt, conf, found = CORES[id(facts)]
    conf[0] = None
    count = visits = 0
    applied = 0
    while True:
        reach = {}
        def hits(n):
            if not isinstance(n, Node): return bool(want(n))
            r = reach.get(id(n))
            if r is None:
                r = any(hits(c) for i, c in enumerate(n.ch) if not (VARS[n.v][1] and i == 0))
                reach[id(n)] = r
            return r
        restart = False
        visits = 0
        def go(n, path, here, checked):
            nonlocal count, visits, restart
            if not isinstance(n, Node):
                count += 1
                if count > limit: raise AnalysisError("too many cases in a comparison")
                yield list(path), n
                return
            visits += 1
            if not visits & 255: tick()
            if visits > 2000 and len(found) > applied: restart = True; return
            if len(path) - checked >= STRIDE:
                if not feasible_path(path, None, facts, False): return
                checked = len(path)
            for i in range(3):
                if VARS[n.v][1] and i == 0: continue
                if not hits(n.ch[i]): continue
                x = (n.v, i)
                here.add(x)
                if not any(c <= here for c in learnt.get(x, ())):
                    path.append(x)
                    yield from go(n.ch[i], path, here, checked)
                    path.pop()
                here.discard(x)
                if restart: return
                if conf[0] is not None:
                    # what contradicts itself above this node does so for all that follows
                    if conf[0] <= here: return
                    conf[0] = None
        if hits(f): yield from go(f, [], set(), 0)
        if not restart: return
        sup = support(f)
        for c in found[applied:]:
            if all(v in sup for v, _ in c):
                x = 1
                for v, i in sorted(c, reverse=True):
                    ch = [0, 0, 0]; ch[i] = x; x = node(v, *ch)
                f = ite(x, 0, f)
        applied = len(found)

def support(f):
    seen = set(); out = set(); st = [f]
    while st:
        n = st.pop()
        if isinstance(n, Node) and id(n) not in seen:
            seen.add(id(n)); out.add(n.v); st.extend(n.ch)
    return out

STRIDE = 100
CORES = {}
def _learnt(facts):
    """contradicting sets of conditions found so far under these facts, by their last condition"""
    r = CORES.get(id(facts))
    if r is None: r = CORES[id(facts)] = (facts, {}, [None], [])
    return r[1]
def _conf(facts):
    """the contradiction found last"""
    _learnt(facts)
    return CORES[id(facts)][2]

def feasible_path(path, diff=None, facts=(), strong=True):
    learnt = _learnt(facts)
    here = set(path)
    for x in path:
        for c in learnt.get(x, ()):
            if c <= here: _conf(facts)[0] = c; return False
    r = path_core([(VARS[v][0], REL[i]) for v, i in path], diff, facts, strong)
    if r is not None and diff is None:
        c = frozenset(path[i] for i in r)
        if c:
            last = max(c); _conf(facts)[0] = c
            L = learnt.setdefault(last, [])
            if len(L) < 200: L.append(c); CORES[id(facts)][3].append(c)
    return r is None

def path_str(path):
    return ", ".join("%s %s 0" % (VARS[v][0], REL[i]) for v, i in path)
