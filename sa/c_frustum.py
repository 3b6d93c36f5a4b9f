"""frustum.hpp and frustum_culler.hpp."""
import math
from .driver import *
from .streams import *
from .val import *
from .c_vector import FT

HEADERS = ["vmmlib/frustum.hpp", "vmmlib/frustum_culler.hpp"]
PI = Fraction(math.pi)

def frus(name, t, init="sym", const=False): return P(name, "Frustum<%s>" % ELEM[t][0], t, 6, init, const)
def OS(): return P("os", "std::ostream", "raw", 1, "stream")

def persp(f):
    l, r, b, t, n, F = f
    return [[2 * n / (r - l), 0, (r + l) / (r - l), 0], [0, 2 * n / (t - b), (t + b) / (t - b), 0],
            [0, 0, -(F + n) / (F - n), -2 * F * n / (F - n)], [0, 0, -1, 0]]
def ortho(f):
    l, r, b, t, n, F = f
    return [[2 / (r - l), 0, 0, -(r + l) / (r - l)], [0, 2 / (t - b), 0, -(t + b) / (t - b)],
            [0, 0, -2 / (F - n), -(F + n) / (F - n)], [0, 0, 0, 1]]
def plane3(a, b, c):
    """the plane through a, b, c, counter-clockwise"""
    n = cross(vsub(b, c), vsub(a, b)); k = norm(n)
    n = [where(dotv(n, n).eq(0), p, p / k) for p in n]
    return n + [-dotv(n, a)]
def planes(m):
    """left, right, bottom, top, near, far of a projection matrix (list of rows)"""
    out = []
    for i in range(3):
        for s in (1, -1):
            p = [y + s * x for x, y in zip(m[i], m[3])]
            k = norm(p[:3])
            out.append([x / k for x in p])
    return out
SETUP = "FrustumCuller<%s> f; f.setup( m ); "
ORDER = (0, 1, 3, 2, 4, 5)    # left, right, top, bottom, near, far in the text output

def cases(th=False):
    L = []
    def C(prop, title, params, body, expect=None, **k):
        L.append(Case(prop, "Frustum: " + title, params, body, expect, **k))
    for t in FT:
        e = ELEM[t][0]; tag = "<%s>" % e; FR = "Frustum<%s>" % e
        r, a, am = frus("r", t, "undef"), frus("a", t, const=True), frus("a", t)
        six = [sca(k, t, const=True) for k in "pqsuvw"]
        new = lambda args: "new( &r ) %s( %s );" % (FR, args)
        vals = lambda v: [v[k] for k in "pqsuvw"]
        m4 = mat("r", 4, 4, t, "undef")
        C("C16", "from six planes %s" % tag, [r] + six, new("p, q, s, u, v, w"), lambda v, vals=vals: dict(r=vals(v)))
        C("C16", "set %s" % tag, [am] + six, "a.set( p, q, s, u, v, w );", lambda v, vals=vals: dict(a=vals(v)))
        C("C16", "default is zero %s" % tag, [r], new(""), lambda v: dict(r=[0] * 6))
        C("C16", "DEFAULT %s" % tag, [r], "r = %s::DEFAULT;" % FR, lambda v: dict(r=[-1, 1, -1, 1, Fraction(1, 10), 100]))
        C("C16", "copy %s" % tag, [r, a], new("a"), lambda v: dict(r=v["a"]))
        C("C16", "operator= %s" % tag, [r, a], "r = a;", lambda v: dict(r=v["a"]))
        C("C16", "operator= itself %s" % tag, [am], "a = a;", lambda v: dict(a=v["a"]))
        for u in ("f", "d", "i"):
            C("C16", "from array of %s %s" % (u, tag), [r, arr("w", 6, u, const=True)], new("w.a"), lambda v, t=t, u=u: dict(r=[conv(p, t, u) for p in v["w"]]))
        for u in ("f", "d"):
            if u != t:
                C("C16", "converted from %s %s" % (u, tag), [r, frus("w", u, const=True)], new("w"), lambda v, t=t, u=u: dict(r=[conv(p, t, u) for p in v["w"]]))
                C("C16", "assigned from %s %s" % (u, tag), [r, frus("w", u, const=True)], "r = w;", lambda v, t=t, u=u: dict(r=[conv(p, t, u) for p in v["w"]]))
        acc = ("left", "right", "bottom", "top", "near_plane", "far_plane")
        C("C16", "accessors %s" % tag, [arr("r", 6, t, "undef"), a], " ".join("r.a[%d] = a.%s();" % (i, n) for i, n in enumerate(acc)), lambda v: dict(r=v["a"]))
        C("C16", "accessors write %s" % tag, [am] + six, " ".join("a.%s() = %s;" % (n, k) for k, n in zip("pqsuvw", acc)), lambda v, vals=vals: dict(a=vals(v)))
        C("C16", "compute_matrix %s" % tag, [m4, a], "r = a.compute_matrix();", lambda v: dict(r=flat(persp(v["a"]))))
        C("C16", "compute_matrix into %s" % tag, [m4, a], "a.compute_matrix( r );", lambda v: dict(r=flat(persp(v["a"]))))
        C("C16", "compute_ortho_matrix %s" % tag, [m4, a], "r = a.compute_ortho_matrix();", lambda v: dict(r=flat(ortho(v["a"]))))
        C("C16", "compute_ortho_matrix into %s" % tag, [m4, a], "a.compute_ortho_matrix( r );", lambda v: dict(r=flat(ortho(v["a"]))))
        # the corners of the view volume
        for sx, X in ((-1, "a.left()"), (1, "a.right()")):
            for sy, Y in ((-1, "a.bottom()"), (1, "a.top()")):
                for sz, Z in ((-1, "a.near_plane()"), (1, "a.far_plane()")):
                    c = "%s k = %s / a.near_plane(); Vector<3,%s> c( %s * k, %s * k, -%s ); r = a.compute_matrix() * c;" % (e, Z, e, X, Y, Z)
                    C("C16", "perspective corner %d %d %d %s" % (sx, sy, sz, tag), [vec("r", 3, t, "undef"), a], c, lambda v, w=(sx, sy, sz): dict(r=list(w)))
                    c = "Vector<3,%s> c( %s, %s, -%s ); r = a.compute_ortho_matrix() * c;" % (e, X, Y, Z)
                    C("C16", "orthographic corner %d %d %d %s" % (sx, sy, sz, tag), [vec("r", 3, t, "undef"), a], c, lambda v, w=(sx, sy, sz): dict(r=list(w)))
        C("C16", "apply_jitter %s" % tag, [am, vec("w", 2, t, const=True)], "a.apply_jitter( w );",
          lambda v: dict(a=[v["a"][0] + v["w"][0], v["a"][1] + v["w"][0], v["a"][2] + v["w"][1], v["a"][3] + v["w"][1], v["a"][4], v["a"][5]]))
        C("C16", "adjust_near %s" % tag, [am, sca("n", t, const=True)], "a.adjust_near( n );", lambda v: dict(a=[p * v["n"] / v["a"][4] for p in v["a"][:4]] + [v["n"], v["a"][5]]),
          facts=lambda v: [v["a"][4].ne(0).v])
        C("C16", "adjust_near( near ) %s" % tag, [am], "a.adjust_near( a.near_plane() );", lambda v: dict(a=v["a"]))
        def fov(v):
            h = v["y"] * PI / 360; T = sin(h) / cos(h) * v["n"]
            return dict(a=[-T * v["x"], T * v["x"], -T, T, v["n"], v["w"]])
        C("C16", "set_perspective %s" % tag, [am] + [sca(k, t, const=True) for k in "yxnw"], "a.set_perspective( y, x, n, w );", fov)
        C("C16", "get_width, get_height %s" % tag, [arr("r", 2, t, "undef"), a], "r.a[0] = a.get_width(); r.a[1] = a.get_height();", lambda v: dict(r=[absv(v["a"][1] - v["a"][0]), absv(v["a"][3] - v["a"][2])]))
        for pr, post in (("C25", stream_state("os")), (["C16", "C11"], outputs("os", lambda v: list(v["a"]), t))):
            C(pr, "operator<< %s" % tag, [OS(), a], "os << a;", post=post)
        # ------------------------------------------------------------- culler
        mm = mat("m", 4, 4, t, const=True)
        nzp = lambda v: [dotv(p[:3], p[:3]).ne(0).v for p in ([y + s * x for x, y in zip(rows(v["m"], 4, 4)[i], rows(v["m"], 4, 4)[3])] for i in range(3) for s in (1, -1))]
        def six_planes(v, f=planes):
            ps = f(rows(v["m"], 4, 4))
            return [x for i in ORDER for x in ps[i]]
        C("C17", "planes of a matrix %s" % tag, [OS(), mm], SETUP % e + "os << f;", post=outputs("os", six_planes, t), facts=nzp)
        C("C25", "operator<< culler %s" % tag, [OS(), mm], SETUP % e + "os << f;", post=stream_state("os"), facts=nzp)
        C("C17", "setup replaces the planes %s" % tag, [OS(), mm, mat("o", 4, 4, t, const=True)], "FrustumCuller<%s> f; f.setup( o ); f.setup( m ); os << f;" % e, post=outputs("os", six_planes, t), facts=nzp)
        cs = [vec("c%d" % i, 3, t, const=True) for i in range(8)]
        def corner_planes(v):
            a, b, c, d, e_, f, g, h = [v["c%d" % i] for i in range(8)]
            ps = [plane3(c, a, e_), plane3(f, b, d), plane3(h, d, c), plane3(a, b, f), plane3(b, a, c), plane3(g, e_, f)]
            return [x for i in ORDER for x in ps[i]]
        C("C17", "planes of corner points %s" % tag, [OS()] + cs, "FrustumCuller<%s> f; f.setup( %s ); os << f;" % (e, ", ".join(c.name for c in cs)), post=outputs("os", corner_planes, t))
        # ------------------------------------------------------------- visibility
        def vis(full, none): return where(any_(none), I(0), where(all_(full), I(2), I(1)))
        def sphere(v):
            ps = planes(rows(v["m"], 4, 4))
            ds = [dotv(p[:3], v["s"][:3]) + p[3] for p in ps]
            return dict(r=vis([d >= v["s"][3] for d in ds], [d <= -v["s"][3] for d in ds]))
        C("C18", "test_sphere %s" % tag, [sca("r", "i", "undef"), mm, vec("s", 4, t, const=True)], SETUP % e + "r = f.test_sphere( s );", sphere, facts=lambda v, nzp=nzp: nzp(v) + [(v["s"][3] >= 0).v])
        # a box given by middle and half extents, and the same with each pair swapped
        def aabb(v):
            ps = planes(rows(v["m"], 4, 4))
            mid = [V(alg.cell("m" + k)) for k in "xyz"]; ext = [V(alg.cell("e" + k, nonneg=True)) for k in "xyz"]
            r = I(2)
            for i in range(6):
                p = ps[i]
                d = dotv(p[:3], mid) + p[3]
                n = sumv([x * absv(q) for x, q in zip(ext, p)])
                q = where(d - n >= 0, I(2), where(d + n > 0, I(1), I(0)))
                r = where(q.eq(0), I(0), where(r.eq(0), I(0), where(q.eq(1), I(1), r)))
            return dict(r=r)
        def proper(v):
            # a box without extent along the normal of a plane it lies in is on neither side of it
            mid = [V(alg.cell("m" + k)) for k in "xyz"]; ext = [V(alg.cell("e" + k, nonneg=True)) for k in "xyz"]
            out = nzp(v)
            for p in planes(rows(v["m"], 4, 4)):
                d = dotv(p[:3], mid) + p[3]; n = sumv([x * absv(q) for x, q in zip(ext, p)])
                out.append(alg.bnot(alg.band((d - n).eq(0).v, (d + n).eq(0).v)))
            return out
        for sw in (1, -1):
            box = [P(k, "Vector<2,%s>" % e, t, 2, lambda env, k=k, sw=sw: [V(alg.cell("m" + k)) - sw * V(alg.cell("e" + k, nonneg=True)), V(alg.cell("m" + k)) + sw * V(alg.cell("e" + k, nonneg=True))], True) for k in "xyz"]
            # two of the first three rows are zero: their planes are the last row
            for row in range(3):
                rm = P("m", "Matrix<4,4,%s>" % e, t, 16, lambda env, row=row: [V(alg.cell("m%d" % k)) if k % 4 in (row, 3) else V(0) for k in range(16)], True)
                C("C18", "test_aabb%s, planes of row %d %s" % (" swapped" if sw < 0 else "", row, tag), [sca("r", "i", "undef"), rm] + box, SETUP % e + "r = f.test_aabb( x, y, z );", aabb, facts=proper)
            if th or t == "d": C("C18", "test_aabb%s %s" % (" swapped" if sw < 0 else "", tag), [sca("r", "i", "undef"), mm] + box, SETUP % e + "r = f.test_aabb( x, y, z );", aabb, facts=proper)
    for i, (n, s) in enumerate((("VISIBILITY_NONE", "not visible"), ("VISIBILITY_PARTIAL", "partially visible"), ("VISIBILITY_FULL", "fully visible"))):
        C(["C18", "C11"], "text of %s" % n, [OS()], "os << %s;" % n, post=text_is(s))
        C("C18", "value of %s" % n, [sca("r", "i", "undef")], "r = %s;" % n, lambda v, i=i: dict(r=I(i)))
    return L

def text_is(s):
    def post(case, e, st, ptrs, env, facts):
        tr = [x for x in flatten(st.trace) if x[0] == "out"]
        got = "".join(x[3] for x in tr if x[2] == "text" and isinstance(x[3], str)).strip()
        yield None, "text", got == s, "writes '%s', expected '%s'" % (got, s), case.body
    return post
