"""matrix.hpp and util.hpp: arithmetic, products, reductions, determinants,
inverses, transforms."""
from .driver import *
from .streams import *
from .val import *
from .c_vector import FT, IT
from .c_matrix import mt, R, rect

HEADERS = ["vmmlib/matrix.hpp", "vmmlib/util.hpp"]

def axes(k, c, s):
    """the rotation about axis k (0 x, 1 y, 2 z) by the angle of cosine c, sine s"""
    m = [[V(x) for x in q] for q in ident(4)]
    i, j = [(1, 2), (2, 0), (0, 1)][k]
    m[i][i] = c; m[j][j] = c; m[i][j] = -s; m[j][i] = s
    return m
def axis_rotation(u, c, s):
    m = [[V(x) for x in q] for q in ident(4)]
    k = 1 - c
    for i in range(3):
        for j in range(3):
            m[i][j] = k * u[i] * u[j] + (c if i == j else 0)
    m[0][1] = m[0][1] - s * u[2]; m[1][0] = m[1][0] + s * u[2]
    m[0][2] = m[0][2] + s * u[1]; m[2][0] = m[2][0] - s * u[1]
    m[1][2] = m[1][2] - s * u[0]; m[2][1] = m[2][1] + s * u[0]
    return m
def adjugate(a):
    n = len(a)
    cof = [[det(minor(a, i, j)) * (1 if (i + j) % 2 == 0 else -1) if n > 1 else V(1) for j in range(n)] for i in range(n)]
    return transp(cof)

def grid(th):
    q = [((m, n), "d") for m, n in ((1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (1, 4), (4, 1))]
    q += [((3, 3), "f"), ((2, 2), "i"), ((2, 3), "ld"), ((3, 2), "u"), ((5, 5), "d"), ((6, 4), "d"), ((7, 7), "d"), ((17, 16), "d"), ((260, 1), "f"), ((1, 260), "f"), ((2, 3), "s"), ((3, 2), "ub"), ((2, 2), "l"), ((3, 3), "i"), ((2, 2), "f"), ((2, 2), "ld"), ((4, 4), "f")]
    if th: q += [((m, n), "d") for m in range(1, 6) for n in range(1, 6) if ((m, n), "d") not in q] + [((4, 4), "f"), ((4, 4), "ld"), ((3, 4), "f"), ((3, 3), "i"), ((4, 2), "s"), ((7, 3), "d")]
    return q

def cases(th=False):
    L = []
    def C(prop, title, params, body, expect=None, **k):
        L.append(Case(prop, "Matrix: " + title, params, body, expect, **k))
    for s, t in grid(th):
        m, n = s; e = ELEM[t][0]; M = mt(s, t); N = m * n
        tag = "<%d,%d,%s>" % (m, n, e)
        r, a, b, x = mat("r", m, n, t, "undef"), mat("a", m, n, t, const=True), mat("b", m, n, t, const=True), sca("s", t, const=True)
        am = mat("a", m, n, t)
        l = lambda v, k: lst(v[k])
        # ------------------------------------------------------------- C07
        for o, f in (("+", lambda p, q: p + q), ("-", lambda p, q: p - q)):
            el = lambda v, f=f: [f(p, q) for p, q in zip(lst(v["a"]), lst(v["b"]))]
            C("C07", "a %s b %s" % (o, tag), [r, a, b], "r = a %s b;" % o, lambda v, el=el: dict(r=el(v)))
            C("C07", "a %s= b %s" % (o, tag), [am, b], "a %s= b;" % o, lambda v, el=el: dict(a=el(v)))
            C("C07", "a %s= a %s" % (o, tag), [am], "a %s= a;" % o, lambda v, f=f: dict(a=[f(p, p) for p in lst(v["a"])]))
            C("C07", "a %s= s %s" % (o, tag), [am, x], "a %s= s;" % o, lambda v, f=f: dict(a=[f(p, v["s"]) for p in lst(v["a"])]))
            if t in FT and N <= 6:
                for k in sorted({0, N - 1}):
                    C("C07", "a %s b with element %d not a number %s" % (o, k, tag), [r, nan_at(a, k), b], "r = a %s b;" % o, lambda v, el=el: dict(r=el(v)))
                    C("C07", "a %s= b with element %d not a number %s" % (o, k, tag), [am, nan_at(b, k)], "a %s= b;" % o, lambda v, el=el: dict(a=el(v)))
        nz = (lambda v: [v["s"].ne(0).v]) if t not in FT else None
        sc = lambda v: [p * v["s"] for p in lst(v["a"])]
        dv = lambda v: [p / v["s"] for p in lst(v["a"])]
        C("C07", "a * s %s" % tag, [r, a, x], "r = a * s;", lambda v, sc=sc: dict(r=sc(v)))
        C("C07", "a *= s %s" % tag, [am, x], "a *= s;", lambda v, sc=sc: dict(a=sc(v)))
        C("C07", "a / s %s" % tag, [r, a, x], "r = a / s;", lambda v, dv=dv: dict(r=dv(v)), facts=nz)
        C("C07", "a /= s %s" % tag, [am, x], "a /= s;", lambda v, dv=dv: dict(a=dv(v)), facts=nz)
        if t in FT and N <= 6:
            for k in sorted({0, N - 1}):
                C("C07", "a * s with element %d not a number %s" % (k, tag), [r, nan_at(a, k), x], "r = a * s;", lambda v, sc=sc: dict(r=sc(v)))
                C("C07", "a *= s with element %d not a number %s" % (k, tag), [nan_at(am, k), x], "a *= s;", lambda v, sc=sc: dict(a=sc(v)))
                C("C07", "a / s with element %d not a number %s" % (k, tag), [r, nan_at(a, k), x], "r = a / s;", lambda v, dv=dv: dict(r=dv(v)))
                C("C07", "%s with element %d not a number times vector" % (tag, k), [vec("r", m, t, "undef"), nan_at(a, k), vec("w", n, t, const=True)], "r = a * w;", lambda v, s=s: dict(r=[dotv(q, lst(v["w"])) for q in R(v, "a", s)]))
                C("C07", "%s times <%d,1> with element not a number" % (tag, n), [mat("r", m, 1, t, "undef"), a, nan_at(mat("b", n, 1, t, const=True), min(k, n - 1))], "r = a * b;",
                  lambda v, s=s: dict(r=flat(matmul(R(v, "a", s), R(v, "b", (s[1], 1))))))
        if t not in ("u", "ub"):
            C("C07", "-a %s" % tag, [r, a], "r = -a;", lambda v: dict(r=[-p for p in lst(v["a"])]))
            C("C07", "negate %s" % tag, [r, a], "r = a.negate();", lambda v: dict(r=[-p for p in lst(v["a"])]))
        C("C07", "multiply_piecewise %s" % tag, [am, b], "a.multiply_piecewise( b );", lambda v: dict(a=[p * q for p, q in zip(lst(v["a"]), lst(v["b"]))]))
        C("C07", "multiply_piecewise with itself %s" % tag, [am], "a.multiply_piecewise( a );", lambda v: dict(a=[p * p for p in lst(v["a"])]))
        for p in sorted({1, 2, m, n + 1 if n < 4 else 4}):
            if m * n * p > 64 and p > 1 and (not th or N > 64): continue
            # (m x p) = (m x n) (n x p)
            pr = lambda v, s=s, p=p: dict(r=flat(matmul(R(v, "a", s), R(v, "b", (s[1], p)))))
            ops = [mat("r", m, p, t, "undef"), a, mat("b", n, p, t, const=True)]
            C("C07", "%s times <%d,%d>" % (tag, n, p), ops, "r = a * b;", pr)
            C("C07", "r.multiply( %s, <%d,%d> )" % (tag, n, p), ops, "r.multiply( a, b );", pr)
            C("C07", "multiply( %s, <%d,%d>, r )" % (tag, n, p), ops, "multiply( a, b, r );", pr)
        if m == n:
            C("C07", "a *= b %s" % tag, [am, b], "a *= b;", lambda v, s=s: dict(a=flat(matmul(R(v, "a", s), R(v, "b", s)))))
            C("C07", "a *= a %s" % tag, [am], "a *= a;", lambda v, s=s: dict(a=flat(matmul(R(v, "a", s), R(v, "a", s)))))
            C("C07", "a = a * b %s" % tag, [am, b], "a = a * b;", lambda v, s=s: dict(a=flat(matmul(R(v, "a", s), R(v, "b", s)))))
            C("C07", "b = a * b %s" % tag, [a, mat("b", m, n, t)], "b = a * b;", lambda v, s=s: dict(b=flat(matmul(R(v, "a", s), R(v, "b", s)))))
        C("C07", "%s times vector" % tag, [vec("r", m, t, "undef"), a, vec("w", n, t, const=True)], "r = a * w;", lambda v, s=s: dict(r=[dotv(q, lst(v["w"])) for q in R(v, "a", s)]))
        if m == n and 2 <= m and t in FT:
            def hom(v, s=s):
                h = [dotv(q[:-1], lst(v["w"])) + q[-1] for q in R(v, "a", s)]
                return dict(r=[y / h[-1] for y in h[:-1]])
            C("C07", "%s times homogeneous vector" % tag, [vec("r", m - 1, t, "undef"), a, vec("w", m - 1, t, const=True)], "r = a * w;", hom)
        # ------------------------------------------------------------- C08
        C("C08", "tensor %s" % tag, [r, vec("u", m, t, const=True), vec("w", n, t, const=True)], "r.tensor( u, w );", lambda v: dict(r=flat([[p * q for q in lst(v["w"])] for p in lst(v["u"])])))
        if (t == "d" or th or N <= 16) and N <= 64:
            C("C08", "symmetric_covariance %s" % tag, [mat("r", m, m, t, "undef"), a], "a.symmetric_covariance( r );", lambda v, s=s: dict(r=flat([[dotv(p, q) for q in R(v, "a", s)] for p in R(v, "a", s)])))
            for o in (1, 2, 3):
                C("C08", "khatri_rao %s with <%d,%d>" % (tag, o, n), [mat("r", m * o, n, t, "undef"), a, mat("b", o, n, t, const=True)], "a.khatri_rao_product( b, r );",
                  lambda v, s=s, o=o: dict(r=flat([[R(v, "a", s)[i][j] * R(v, "b", (o, s[1]))[k][j] for j in range(s[1])] for i in range(s[0]) for k in range(o)])))
            for o, p in ((1, 1), (2, 3), (3, 2), (2, 2)):
                if N * o * p > 60 and not th: continue
                C("C08", "kronecker %s with <%d,%d>" % (tag, o, p), [mat("r", m * o, n * p, t, "undef"), a, mat("b", o, p, t, const=True)], "a.kronecker_product( b, r );",
                  lambda v, s=s, o=o, p=p: dict(r=flat([[R(v, "a", s)[i][j] * R(v, "b", (o, p))[k][q] for j in range(s[1]) for q in range(p)] for i in range(s[0]) for k in range(o)])))
            for o, p in ((1, 1), (2, 1), (1, 3)):
                def dsum(v, s=s, o=o, p=p):
                    A, Bm = R(v, "a", s), R(v, "b", (o, p))
                    return dict(r=flat([q + [0] * p for q in A] + [[0] * s[1] + q for q in Bm]))
                C("C08", "direct_sum %s and <%d,%d>" % (tag, o, p), [mat("r", m + o, n + p, t, "undef"), a, mat("b", o, p, t, const=True)], "r.direct_sum( a, b );", dsum)
            for o, p in ((1, 1), (3, 3), (2, 2), (1, 3), (3, 1), (2, 3), (1, 5), (5, 1), (4, 5), (7, 1), (1, 8), (9, 9)):
                if N * o * p > 1300 and not th: continue
                if N * o * p > 6000 or (o * p > 30 and t != "d"): continue
                def conv2(v, s=s, o=o, p=p):
                    A, K = R(v, "a", s), R(v, "k", (o, p)); m, n = s
                    cl = lambda i, k: min(max(i, 0), k - 1)
                    return dict(a=flat([[sumv([K[y][z] * A[cl(i - o // 2 + y, m)][cl(j - p // 2 + z, n)] for y in range(o) for z in range(p)]) for j in range(n)] for i in range(m)]))
                C("C08", "convolve %s by <%d,%d>" % (tag, o, p), [am, mat("k", o, p, t, const=True)], "a.convolve( k );", conv2)
        C("C08", "columnwise_sum %s" % tag, [vec("r", n, t, "undef"), a], "a.columnwise_sum( r );", lambda v, s=s: dict(r=[sumv(q) for q in transp(R(v, "a", s))]))
        if t != "ld":
            C("C08", "sum_elements %s" % tag, [sca("r", "d", "undef"), a], "r = a.sum_elements();", lambda v: dict(r=sumv([p.real() for p in lst(v["a"])])))
            if t in FT:
                C("C08", "frobenius_norm %s" % tag, [sca("r", "d", "undef"), a], "r = a.frobenius_norm();", lambda v: dict(r=norm(lst(v["a"]))))
                if N <= 4: C("C08", "p_norm( 2 ) %s" % tag, [sca("r", "d", "undef"), a], "r = a.p_norm( 2. );", lambda v: dict(r=norm(lst(v["a"]))))
        if m >= 2:
            C(["C08", "C31"], "sum_rows %s" % tag, [mat("r", m // 2, n, t, "undef"), a], "a.sum_rows( r );",
              lambda v, s=s: dict(r=flat([[R(v, "a", s)[2 * i][j] + R(v, "a", s)[2 * i + 1][j] for j in range(s[1])] for i in range(s[0] // 2)])))
        if n >= 2:
            C(["C08", "C31"], "sum_columns %s" % tag, [mat("r", m, n // 2, t, "undef"), a], "a.sum_columns( r );",
              lambda v, s=s: dict(r=flat([[R(v, "a", s)[i][2 * j] + R(v, "a", s)[i][2 * j + 1] for j in range(s[1] // 2)] for i in range(s[0])])))
        if m == n:
            C("C08", "diag %s" % tag, [r, vec("w", m, t, const=True)], "r.diag( w );", lambda v, m=m: dict(r=flat([[lst(v["w"])[i] if i == j else 0 for j in range(m)] for i in range(m)])))
        if t in ("d", "ld") and N <= 64:
            import math as _m
            def dct(v, s=s):
                pi = Fraction(_m.pi)
                w = lambda i: sqrt(V(Fraction(1 if i == 0 else 2, s[0])))
                return dict(r=flat([[w(i) * cos(V(Fraction((2 * j + 1) * i) * pi / (2 * s[0]))) for j in range(s[1])] for i in range(s[0])]))
            C("C08", "set_dct %s" % tag, [r], "r.set_dct();", dct, mode="f64")
        if t in FT and N <= 64:
            DR = ("draws from rand",); SR = DR + ("calls srand",)
            C(["C43", "C22"], "set_random draws once per element %s" % tag, [r], "r.set_random();", lambda v: dict(r=None), effects=DR, post=drawn("r", N, t, None), tags=("random",))
            C(["C43", "C22"], "set_random with a seed %s" % tag, [r, sca("q", "i", const=True)], "r.set_random( q );", lambda v: dict(r=None), effects=SR, post=drawn("r", N, t, "q"), tags=("random",))
            C("C43", "set_random with the seed 0 %s" % tag, [r], "r.set_random( 0 );", lambda v: dict(r=None), effects=SR, post=drawn("r", N, t, 0), tags=("random",))
            C("C43", "set_random with a negative seed %s" % tag, [r], "r.set_random( -2 );", lambda v: dict(r=None), effects=DR, post=drawn("r", N, t, None), tags=("random",))
        # ------------------------------------------------------------- C41
        if t in ("f", "d") and (N <= 4 or th):
            for q in ("ub", "us", "s", "sb") + (("i",) if t == "d" else ()):
                lo, hi = RANGE[q]; step = hi - lo
                def level(x, a, b, q=q, lo=lo, hi=hi, step=step):
                    """unsigned: the nearest of the evenly spaced levels; signed: the levels count from zero"""
                    y = trunc_to((x * step / (b - a) if q in ("s", "sb", "i") else (x - a) * step / (b - a)) + V(Fraction(1, 2)), 64)
                    k = lambda c: V(c % 2 ** 64, 64)
                    m = 2 ** WID[q]
                    return V(ite((y < k(lo)).v, lo % m, ite((k(hi) < y).v, hi % m, y.v)), WID[q], q in UNS)
                two = [sca("p", t, const=True), sca("q", t, const=True)]
                C("C41", "quantize_to %s of %s" % (q, tag), [mat("r", m, n, q, "undef"), a] + two, "a.quantize_to( r, p, q );",
                  lambda v, level=level: dict(r=[level(x, v["p"], v["q"]) for x in lst(v["a"])]), facts=lambda v: [(v["p"] < v["q"]).v])
                if N <= 2:
                    def qz(v, level=level):
                        xs = lst(v["a"]); lo = xs[0]; hi = xs[0]
                        for x in xs[1:]: lo = where(x < lo, x, lo); hi = where(hi < x, x, hi)
                        return dict(r=[level(x, lo, hi) for x in xs], p=lo, q=hi)
                    C("C41", "quantize %s of %s" % (q, tag), [mat("r", m, n, q, "undef"), a, sca("p", t), sca("q", t)], "a.quantize( r, p, q );", qz, facts=lambda v: [(lst(v["a"])[0] - lst(v["a"])[-1]).ne(0).v] if N > 1 else [])
                def deq(v, q=q, lo=lo, step=step):
                    out = []
                    for x in lst(v["b"]):
                        y = x.real() * (v["q"] - v["p"]) / step + (0 if q in ("s", "sb", "i") else v["p"])
                        y = where(y < v["p"], v["p"], y)
                        out.append(where(v["q"] < y, v["q"], y))
                    return dict(r=out)
                C("C41", "dequantize %s to %s" % (q, tag), [r, mat("b", m, n, q, const=True)] + two, "b.dequantize( r, p, q );", deq, facts=lambda v: [(v["p"] < v["q"]).v])
        # ------------------------------------------------------------- C09
        if m == n and m <= 4 and t not in ("u", "ub"):
            D = lambda v, s=s: det(R(v, "a", s))
            C("C09", "det %s" % tag, [sca("r", t, "undef"), a], "r = a.det();", lambda v, D=D: dict(r=D(v)))
            C("C09", "compute_determinant %s" % tag, [sca("r", t, "undef"), a], "r = compute_determinant( a );", lambda v, D=D: dict(r=D(v)))
            if m >= 2:
                for i, j in (rect(s) if m < 4 else [(0, 0), (1, 2), (3, 3), (2, 0), (0, 3)]):
                    C("C09", "get_minor(%d,%d) %s" % (i, j, tag), [mat("r", m - 1, n - 1, t, "undef"), sca("d", t, "undef"), a], "d = a.get_minor( r, %d, %d );" % (i, j),
                      lambda v, s=s, i=i, j=j: dict(r=flat(minor(R(v, "a", s), i, j)), d=det(minor(R(v, "a", s), i, j))))
                C("C09", "get_adjugate %s" % tag, [r, a], "a.get_adjugate( r );", lambda v, s=s: dict(r=flat(adjugate(R(v, "a", s)))))
                C("C09", "get_cofactors %s" % tag, [r, a], "a.get_cofactors( r );", lambda v, s=s: dict(r=flat(transp(adjugate(R(v, "a", s))))))
        if m == n and 2 <= m <= 4 and t in FT:
            def inv(v, s=s, tol=None, tgt="r"):
                A = R(v, "a", s); d = det(A); tl = v["tol"] if tol is None else tol
                good = absv(d) > tl
                adj = flat(adjugate(A))
                old = lst(v["r"])
                return dict(r=[where(good, y / d, o) for y, o in zip(adj, old)], ok=where(good, I(1), I(0)))
            okp, rr, tol = sca("ok", "i", "undef"), mat("r", m, n, t), sca("tol", t, const=True)
            pos = lambda v: [(v["tol"] >= 0).v]
            C(["C09", "C33", "C34"], "inverse( r, tol ) %s" % tag, [okp, rr, a, tol], "ok = a.inverse( r, tol );", inv, facts=pos)
            C(["C09", "C33", "C34"], "compute_inverse( a, r, tol ) %s" % tag, [okp, rr, a, tol], "ok = compute_inverse( a, r, tol );", inv, facts=pos)
            C(["C09", "C33", "C34"], "inverse( r ) %s" % tag, [okp, rr, a], "ok = a.inverse( r );", lambda v, inv=inv, t=t: inv(v, tol=feps(t)))
            C(["C09", "C33", "C34"], "compute_inverse( a, r ) %s" % tag, [okp, rr, a], "ok = compute_inverse( a, r );", lambda v, inv=inv, t=t: inv(v, tol=feps(t)))
            def self_inv(v, s=s):
                A = R(v, "a", s); d = det(A); good = absv(d) > v["tol"]
                return dict(a=[where(good, y / d, o) for y, o in zip(flat(adjugate(A)), lst(v["a"]))], ok=where(good, I(1), I(0)))
            C("C09", "inverse into itself %s" % tag, [okp, am, tol], "ok = a.inverse( a, tol );", self_inv, facts=pos)
        if m == n and m <= 3 and t in FT:
            def posdef(v, s=s):
                A = R(v, "a", s)
                return dict(r=where(all_([det([q[:k] for q in A[:k]]) >= v["s"] for k in range(1, s[0] + 1)]), I(1), I(0)))
            C(["C09", "C27"], "is_positive_definite( limit ) %s" % tag, [sca("r", "i", "undef"), a, x], "r = is_positive_definite( a, s );", posdef)
    # ------------------------------------------------------------- C08: legacy 4x4 tensor
    for t in ("d", "f"):
        def ten(v):
            u, w = v["u"], v["w"]
            return dict(r=flat([[u[j] * w[i] if i < 3 and j < 3 else u[j] if j < 3 else w[i] if i < 3 else V(1) for j in range(4)] for i in range(4)]))
        C("C08", "tensor of 3-vectors into 4x4 <%s>" % t, [mat("r", 4, 4, t, "undef"), vec("u", 3, t, const=True), vec("w", 3, t, const=True)], "r.tensor( u, w );", ten)
    # ------------------------------------------------------------- C10
    for t in FT:
        e = ELEM[t][0]; tag = "<%s>" % e
        am, a, r, th_ = mat("a", 4, 4, t), mat("a", 4, 4, t, const=True), mat("r", 4, 4, t, "undef"), sca("th", t, const=True)
        A = lambda v: R(v, "a", (4, 4))
        cs = lambda v: (cos(v["th"]), sin(v["th"]))
        S = [sca(k, t, const=True) for k in "xyz"]; W = vec("w", 3, t, const=True); AR = arr("w", 3, t, const=True)
        trans = lambda w: [[1, 0, 0, w[0]], [0, 1, 0, w[1]], [0, 0, 1, w[2]], [0, 0, 0, 1]]
        scal = lambda w: [[w[0], 0, 0, 0], [0, w[1], 0, 0], [0, 0, w[2], 0], [0, 0, 0, 1]]
        xyz = lambda v: [v["x"], v["y"], v["z"]]
        C("C10", "rotate %s" % tag, [am, th_, vec("w", 3, t, const=True)], "a.rotate( th, w );", lambda v, cs=cs: dict(a=flat(axis_rotation(v["w"], *cs(v)))))
        for k, nm in enumerate("xyz"):
            C("C10", "rotate_%s multiplies on the right %s" % (nm, tag), [am, th_], "a.rotate_%s( th );" % nm, lambda v, k=k, cs=cs, A=A: dict(a=flat(matmul(A(v), axes(k, *cs(v))))))
            C("C10", "pre_rotate_%s multiplies the transposed rotation on the left %s" % (nm, tag), [am, th_], "a.pre_rotate_%s( th );" % nm, lambda v, k=k, cs=cs, A=A: dict(a=flat(matmul(transp(axes(k, *cs(v))), A(v)))))
            C("C10", "rotate_%s returns the matrix %s" % (nm, tag), [am, r, th_], "r = a.rotate_%s( th );" % nm, lambda v, k=k, cs=cs, A=A: dict(a=flat(matmul(A(v), axes(k, *cs(v)))), r=flat(matmul(A(v), axes(k, *cs(v))))))
        C("C10", "scale( x, y, z ) %s" % tag, [am] + S, "a.scale( x, y, z );", lambda v, A=A, scal=scal, xyz=xyz: dict(a=flat(matmul(A(v), scal(xyz(v))))))
        C("C10", "scale( vector ) %s" % tag, [am, W], "a.scale( w );", lambda v, A=A, scal=scal: dict(a=flat(matmul(A(v), scal(v["w"])))))
        C("C10", "scale( array ) %s" % tag, [am, AR], "a.scale( w.a );", lambda v, A=A, scal=scal: dict(a=flat(matmul(A(v), scal(v["w"])))))
        st = lambda v: dict(a=v["a"][:12] + [p * q for p, q in zip(v["a"][12:15], v["w"])] + v["a"][15:])
        C("C10", "scale_translation( vector ) %s" % tag, [am, W], "a.scale_translation( w );", st)
        C("C10", "scale_translation( array ) %s" % tag, [am, AR], "a.scale_translation( w.a );", st)
        stt = lambda v: dict(a=v["a"][:12] + list(v["w"]) + v["a"][15:])
        C("C10", "set_translation( x, y, z ) %s" % tag, [am] + S, "a.set_translation( x, y, z );", lambda v, xyz=xyz: dict(a=v["a"][:12] + xyz(v) + v["a"][15:]))
        C("C10", "set_translation( vector ) %s" % tag, [am, W], "a.set_translation( w );", stt)
        C("C10", "set_translation( array ) %s" % tag, [am, AR], "a.set_translation( w.a );", stt)
        C("C10", "get_translation %s" % tag, [vec("r", 3, t, "undef"), a], "r = a.get_translation();", lambda v: dict(r=v["a"][12:15]))
        C("C10", "get_translation into vector %s" % tag, [vec("r", 3, t, "undef"), a], "a.get_translation( r );", lambda v: dict(r=v["a"][12:15]))
        # util.hpp
        C("C10", "create_translation %s" % tag, [r, W], "r = create_translation( w );", lambda v, trans=trans: dict(r=flat(trans(v["w"]))))
        C("C10", "create_rotation %s" % tag, [r, th_, W], "r = create_rotation( th, w );", lambda v, cs=cs: dict(r=flat(axis_rotation(v["w"], *cs(v)))))
        C("C10", "create_scaling( vector ) %s" % tag, [r, W], "r = create_scaling( w );", lambda v, scal=scal: dict(r=flat(scal(v["w"]))))
        C("C10", "create_scaling( scalar ) %s" % tag, [r, sca("x", t, const=True)], "r = create_scaling( x );", lambda v, scal=scal: dict(r=flat(scal([v["x"]] * 3))))
        C("C10", "apply_translation %s" % tag, [am] + S, "apply_translation( a, x, y, z );", lambda v, A=A, trans=trans, xyz=xyz: dict(a=flat(matmul(A(v), trans(xyz(v))))))
        C("C10", "apply_rotation %s" % tag, [am, th_] + S, "apply_rotation( a, th, x, y, z );", lambda v, A=A, cs=cs, xyz=xyz: dict(a=flat(matmul(A(v), axis_rotation(xyz(v), *cs(v))))))
        # component-wise helpers of util.hpp
        for m in (2, 3, 4):
            two = [vec("r", m, t, "undef"), vec("a", m, t, const=True), vec("b", m, t, const=True)]
            C("C05", "component-wise min <%d,%s>" % (m, e), two, "r = vmml::min( a, b );", lambda v: dict(r=[where(q < p, q, p) for p, q in zip(v["a"], v["b"])]))
            C("C05", "component-wise max <%d,%s>" % (m, e), two, "r = vmml::max( a, b );", lambda v: dict(r=[where(p < q, q, p) for p, q in zip(v["a"], v["b"])]))
            C("C02", "manhattan <%d,%s>" % (m, e), [sca("r", t, "undef"), vec("a", m, t, const=True)], "r = manhattan( a );", lambda v: dict(r=sumv([absv(p) for p in v["a"]])))
            C("C03", "zero <%d,%s>" % (m, e), [vec("a", m, t)], "vmml::zero( a );", lambda v, m=m: dict(a=[0] * m))
    for n, t in ((3, "d"), (3, "f")):
        C("C10", "get_translation <3,3,%s>" % t, [vec("r", 2, t, "undef"), mat("a", 3, 3, t, const=True)], "r = a.get_translation();", lambda v: dict(r=v["a"][6:8]))
    for t, u in (("d", "f"), ("f", "d"), ("d", "i")):
        cv = lambda v, t=t, u=u: [conv(p, t, u) for p in v["w"]]
        am = mat("a", 4, 4, t)
        tag = "<%s from %s>" % (t, u)
        C("C10", "set_translation converting %s" % tag, [am, vec("w", 3, u, const=True)], "a.set_translation( w );", lambda v, cv=cv: dict(a=v["a"][:12] + cv(v) + v["a"][15:]))
        C("C10", "scale converting %s" % tag, [am, vec("w", 3, u, const=True)], "a.scale( w );", lambda v, cv=cv: dict(a=[p * (cv(v) + [V(1)])[i // 4] for i, p in enumerate(v["a"])]))
        C("C10", "rotate_x converting %s" % tag, [am, sca("w", u, const=True)], "a.rotate_x( w );",
          lambda v, t=t: dict(a=flat(matmul(R(v, "a", (4, 4)), axes(0, cos(conv(v["w"], t)), sin(conv(v["w"], t)))))), mode=MODE[t])
    return L

def all_written(name, n, t):
    def post(case, e, st, ptrs, env, facts):
        ct, irt, sz, w, uns = ELEM[t]
        for i in range(n):
            c = st.objs[ptrs[name].obj].cells.get(i * sz)
            yield None, "element %d written" % i, c is not None and not isinstance(c[1], Undef), "element %d is never written" % i, case.body
    return post

RANGE = {"ub": (0, 255), "us": (0, 65535), "s": (-2 ** 15, 2 ** 15 - 1), "sb": (-128, 127), "i": (-2 ** 31, 2 ** 31 - 1)}
