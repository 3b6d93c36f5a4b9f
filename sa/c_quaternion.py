"""quaternion.hpp: quaternion algebra, rotation matrices, interpolation."""
from .driver import *
from .streams import *
from .val import *
from .c_vector import FT

HEADERS = ["vmmlib/quaternion.hpp"]

def ham(p, q):
    """Hamilton product, scalar part last"""
    x, y, z, w = p; a, b, c, d = q
    return [w * a + x * d + y * c - z * b, w * b - x * c + y * d + z * a, w * c + x * b - y * a + z * d, w * d - x * a - y * b - z * c]
def conjug(q): return [-q[0], -q[1], -q[2], q[3]]
def rotm(q):
    x, y, z, w = q
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]
def n2(q): return sumv([x * x for x in q])
def unit(q):
    n = norm(q)
    return [where(n2(q).eq(0), x, x / n) for x in q]

def cases(th=False):
    L = []
    def C(prop, title, params, body, expect=None, **k):
        L.append(Case(prop, "Quaternion: " + title, params, body, expect, **k))
    for t in FT:
        e = ELEM[t][0]; tag = "<%s>" % e; QT = "Quaternion<%s>" % e
        r, a, b = quat("r", t, "undef"), quat("a", t, const=True), quat("b", t, const=True)
        am, x = quat("a", t), sca("s", t, const=True)
        w3, w4 = vec("w", 3, t, const=True), vec("w", 4, t, const=True)
        sr, ok = sca("r", t, "undef"), sca("r", "i", "undef")
        # new( &r ) constructs in place without relying on operator=
        new = lambda args: "new( &r ) %s( %s );" % (QT, args)
        if True:
            C("C03", "default is the identity rotation %s" % tag, [r], new(""), lambda v: dict(r=[0, 0, 0, 1]))
            C("C03", "from components %s" % tag, [r] + [sca(k, t, const=True) for k in "pqsu"], new("p, q, s, u"), lambda v: dict(r=[v[k] for k in "pqsu"]))
            C("C03", "from vector and scalar %s" % tag, [r, w3, x], new("w, s"), lambda v: dict(r=v["w"] + [v["s"]]))
            C("C03", "from vector %s" % tag, [r, w3], new("w"), lambda v: dict(r=v["w"] + [0]))
            C("C03", "copy %s" % tag, [r, a], new("a"), lambda v: dict(r=v["a"]))
            C("C03", "zero %s" % tag, [am], "a.zero();", lambda v: dict(a=[0] * 4))
            C("C03", "identity %s" % tag, [am], "a.identity();", lambda v: dict(a=[0, 0, 0, 1]))
            C("C03", "set components %s" % tag, [am] + [sca(k, t, const=True) for k in "pqsu"], "a.set( p, q, s, u );", lambda v: dict(a=[v[k] for k in "pqsu"]))
            C("C03", "set vector and scalar %s" % tag, [am, w3, x], "a.set( w, s );", lambda v: dict(a=v["w"] + [v["s"]]))
            C("C03", "set range %s" % tag, [am, arr("w", 4, t, const=True)], "a.set( w.a, w.a + 4 );", lambda v: dict(a=v["w"]))
            C("C03", "iter_set %s" % tag, [am, arr("w", 4, t, const=True)], "a.iter_set( w.a, w.a + 4 );", lambda v: dict(a=v["w"]))
            C(["C22", "C03"], "set short range %s" % tag, [am, arr("w", 3, t, const=True)], "a.set( w.a, w.a + 3 );", lambda v: dict(a=v["w"] + [v["a"][3]]))
            C("C03", "operator= %s" % tag, [am, b], "a = b;", lambda v: dict(a=v["b"]))
            C("C03", "operator= itself %s" % tag, [am], "a = a;", lambda v: dict(a=v["a"]))
            C("C03", "operator= vector %s" % tag, [am, w4], "a = w;", lambda v: dict(a=v["w"]))
            C("C03", "accessors %s" % tag, [arr("r", 12, t, "undef"), a],
              "r.a[0] = a.x(); r.a[1] = a.y(); r.a[2] = a.z(); r.a[3] = a.w(); for( int i = 0; i < 4; ++i ) { r.a[4+i] = a.at( i ); r.a[8+i] = a( i ); }", lambda v: dict(r=v["a"] * 3))
            C("C03", "accessors write %s" % tag, [am, w4], "a.x() = w( 3 ); a.y() = w( 2 ); a.z() = w( 1 ); a.w() = w( 0 );", lambda v: dict(a=v["w"][::-1]))
            for k, nm in enumerate(("QUATERI", "QUATERJ", "QUATERK", "IDENTITY")):
                C("C03", "%s %s" % (nm, tag), [r], "r = %s::%s;" % (QT, nm), lambda v, k=k: dict(r=[int(i == k) for i in range(4)]))
            C("C05", "find_min/find_max %s" % tag, [arr("r", 2, t, "undef"), a], "r.a[0] = a.find_min(); r.a[1] = a.find_max();", lambda v: dict(r=[minv(v["a"]), maxv(v["a"])]))
        C("C23", "at( i ) is checked %s" % tag, [sr, a, idx("i", [(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 2 ** 64 - 1)])], "r = a.at( i );",
          lambda v, c: dict(r=v["a"][c["i"][0]]) if c["i"][0] < 4 else None, throws=lambda v, c: c["i"][0] >= 4)
        # ------------------------------------------------------------- C04
        same = lambda v: where(all_([p.eq(q) for p, q in zip(v["a"], v["b"])]), I(1), I(0))
        diff = lambda v: where(all_([p.eq(q) for p, q in zip(v["a"], v["b"])]), I(0), I(1))
        C("C04", "a == b %s" % tag, [ok, a, b], "r = a == b;", lambda v, same=same: dict(r=same(v)))
        C("C04", "a != b %s" % tag, [ok, a, b], "r = a != b;", lambda v, diff=diff: dict(r=diff(v)))
        vb = vec("b", 4, t, const=True)
        C("C04", "a == vector %s" % tag, [ok, a, vb], "r = a == b;", lambda v, same=same: dict(r=same(v)))
        C("C04", "a != vector %s" % tag, [ok, a, vb], "r = a != b;", lambda v, diff=diff: dict(r=diff(v)))
        sc = lambda v: all_([p.eq(0) for p in v["a"][:3]] + [v["a"][3].eq(v["s"])])
        C("C04", "a == scalar %s" % tag, [ok, a, x], "r = a == s;", lambda v, sc=sc: dict(r=where(sc(v), I(1), I(0))))
        C("C04", "a != scalar %s" % tag, [ok, a, x], "r = a != s;", lambda v, sc=sc: dict(r=where(sc(v), I(0), I(1))))
        ak = lambda v, d: dict(r=where(all_([absv(p - q) <= d for p, q in zip(v["a"], v["b"])]), I(1), I(0)))
        C("C04", "is_akin( b, delta ) %s" % tag, [ok, a, b, x], "r = a.is_akin( b, s );", lambda v, ak=ak: ak(v, v["s"]))
        C("C04", "is_akin( b ) %s" % tag, [ok, a, b], "r = a.is_akin( b );", lambda v, ak=ak, t=t: ak(v, feps(t)))
        # ------------------------------------------------------------- C12
        add = lambda v: [p + q for p, q in zip(v["a"], v["b"])]
        sub = lambda v: [p - q for p, q in zip(v["a"], v["b"])]
        C("C12", "a + b %s" % tag, [r, a, b], "r = a + b;", lambda v, f=add: dict(r=f(v)))
        C("C12", "a - b %s" % tag, [r, a, b], "r = a - b;", lambda v, f=sub: dict(r=f(v)))
        C("C12", "a * b %s" % tag, [r, a, b], "r = a * b;", lambda v: dict(r=ham(v["a"], v["b"])))
        C("C12", "a += b %s" % tag, [am, b], "a += b;", lambda v, f=add: dict(a=f(v)))
        C("C12", "a -= b %s" % tag, [am, b], "a -= b;", lambda v, f=sub: dict(a=f(v)))
        C("C12", "a *= b %s" % tag, [am, b], "a *= b;", lambda v: dict(a=ham(v["a"], v["b"])))
        C("C12", "a += a %s" % tag, [am], "a += a;", lambda v: dict(a=[p + p for p in v["a"]]))
        C("C12", "a -= a %s" % tag, [am], "a -= a;", lambda v: dict(a=[0] * 4))
        C("C12", "a *= a %s" % tag, [am], "a *= a;", lambda v: dict(a=ham(v["a"], v["a"])))
        C("C12", "a = a * b %s" % tag, [am, b], "a = a * b;", lambda v: dict(a=ham(v["a"], v["b"])))
        C("C12", "a = b * a %s" % tag, [am, b], "a = b * a;", lambda v: dict(a=ham(v["b"], v["a"])))
        C("C12", "a * s %s" % tag, [r, a, x], "r = a * s;", lambda v: dict(r=[p * v["s"] for p in v["a"]]))
        C("C12", "a *= s %s" % tag, [am, x], "a *= s;", lambda v: dict(a=[p * v["s"] for p in v["a"]]))
        z = lambda v, c: v["s"].eq(0)
        C(["C12", "C33"], "a / s %s" % tag, [r, a, x], "r = a / s;", lambda v: dict(r=[p / v["s"] for p in v["a"]]), throws=z)
        C(["C12", "C33", "C34"], "a /= s %s" % tag, [am, x], "a /= s;", lambda v: dict(a=[p / v["s"] for p in v["a"]]), throws=z)
        C("C12", "-a %s" % tag, [r, a], "r = -a;", lambda v: dict(r=[-p for p in v["a"]]))
        C(["C12", "C27"], "negate %s" % tag, [r, a], "r = a.negate();", lambda v: dict(r=[-p for p in v["a"]]))
        C("C12", "conjugate %s" % tag, [am], "a.conjugate();", lambda v: dict(a=conjug(v["a"])))
        C("C12", "get_conjugate %s" % tag, [r, a], "r = a.get_conjugate();", lambda v: dict(r=conjug(v["a"])))
        C("C12", "inverse %s" % tag, [r, a], "r = a.inverse();", lambda v: dict(r=[p / n2(v["a"]) for p in conjug(v["a"])]))
        nzq = lambda v: [n2(v["a"]).ne(0).v]
        C("C12", "a * inverse is one %s" % tag, [r, a], "r = a * a.inverse();", lambda v: dict(r=[0, 0, 0, 1]), facts=nzq)
        C("C12", "inverse * a is one %s" % tag, [r, a], "r = a.inverse() * a;", lambda v: dict(r=[0, 0, 0, 1]), facts=nzq)
        C("C12", "abs %s" % tag, [sr, a], "r = a.abs();", lambda v: dict(r=norm(v["a"])))
        C("C12", "squared_abs %s" % tag, [sr, a], "r = a.squared_abs();", lambda v: dict(r=n2(v["a"])))
        C(["C12", "C33"], "normalize %s" % tag, [am], "a.normalize();", lambda v: dict(a=unit(v["a"])))
        C(["C12", "C33"], "get_normalized %s" % tag, [r, a], "r = a.get_normalized();", lambda v: dict(r=unit(v["a"])))
        # what normal() of three or four quaternions yields is nowhere said: it is complete, and has no effect on anything else
        C(["C24", "C27"], "normal of four %s" % tag, [am, b, quat("c", t, const=True), quat("d", t, const=True), quat("e", t, const=True)], "a.normal( b, c, d, e );", lambda v: dict(a=None))
        C(["C24", "C27"], "normal of three %s" % tag, [r, a, b, quat("c", t, const=True), quat("d", t, const=True)], "Q q = a; r = q.normal( b, c, d );".replace("Q", QT), lambda v: dict(r=None))
        C("C12", "dot %s" % tag, [sr, a, b], "r = a.dot( b );", lambda v: dict(r=dotv(v["a"], v["b"])))
        C("C12", "static dot %s" % tag, [sr, a, b], "r = %s::dot( a, b );" % QT, lambda v: dict(r=dotv(v["a"], v["b"])))
        C("C12", "cross %s" % tag, [vec("r", 3, t, "undef"), a, b], "r = a.cross( b );", lambda v: dict(r=cross(v["a"][:3], v["b"][:3])))
        z3 = lambda v: v["w"] + [V(0)]
        C("C12", "a + vector %s" % tag, [r, a, w3], "r = a + w;", lambda v, z3=z3: dict(r=[p + q for p, q in zip(v["a"], z3(v))]))
        C("C12", "a - vector %s" % tag, [r, a, w3], "r = a - w;", lambda v, z3=z3: dict(r=[p - q for p, q in zip(v["a"], z3(v))]))
        C("C12", "a * vector %s" % tag, [r, a, w3], "r = a * w;", lambda v, z3=z3: dict(r=ham(v["a"], z3(v))))
        C("C12", "a += vector %s" % tag, [am, w3], "a += w;", lambda v, z3=z3: dict(a=[p + q for p, q in zip(v["a"], z3(v))]))
        C("C12", "a -= vector %s" % tag, [am, w3], "a -= w;", lambda v, z3=z3: dict(a=[p - q for p, q in zip(v["a"], z3(v))]))
        C("C12", "a *= vector %s" % tag, [am, w3], "a *= w;", lambda v, z3=z3: dict(a=ham(v["a"], z3(v))))
        # rotations of a vector: q p q^-1 with q = (axis sin(h), cos(h)), h half the angle
        def rot(v, ax):
            u = [V(p) for p in ax] if ax else v["ax"]
            n = norm(u)
            h = v["s"] / 2
            q = [p * sin(h) / n for p in u] + [cos(h)]
            p = ham(ham(q, v["w"] + [V(0)]), conjug(q))
            return dict(r=p)
        for nm, ax in (("x", (1, 0, 0)), ("y", (0, 1, 0)), ("z", (0, 0, 1))):
            C(["C12", "C27"], "rotate_%s %s" % (nm, tag), [r, am, x, w3], "r = a.rotate_%s( s, w );" % nm, lambda v, rot=rot, ax=ax: rot(v, ax))
        C(["C12", "C27"], "rotate about an axis %s" % tag, [r, am, x, vec("ax", 3, t), w3], "r = a.rotate( s, ax, w );", lambda v, rot=rot: dict(rot(v, None), ax=None), facts=lambda v: [n2(v["ax"]).ne(0).v])
        C("C27", "rotate in place %s" % tag, [am, x, w3], "a.rotate( s, w );", lambda v: dict(a=None), only="compile")
        # ------------------------------------------------------------- C13
        C("C13", "get_rotation_matrix %s" % tag, [mat("r", 3, 3, t, "undef"), a], "r = a.get_rotation_matrix();", lambda v: dict(r=flat(rotm(v["a"]))))
        C("C13", "get_rotation_matrix into 3x3 %s" % tag, [mat("r", 3, 3, t, "undef"), a], "a.get_rotation_matrix( r );", lambda v: dict(r=flat(rotm(v["a"]))))
        def rot4(v):
            m = rotm(v["a"]); o = rows(v["r"], 4, 4)
            return dict(r=flat([[m[i][j] if i < 3 and j < 3 else o[i][j] for j in range(4)] for i in range(4)]))
        C("C13", "get_rotation_matrix into 4x4 %s" % tag, [mat("r", 4, 4, t), a], "a.get_rotation_matrix( r );", rot4)
        C("C13", "rotation matrix times vector is the rotated vector %s" % tag, [vec("r", 3, t, "undef"), a, w3], "r = a.get_rotation_matrix() * w;",
          lambda v: dict(r=ham(ham(v["a"], v["w"] + [V(0)]), conjug(v["a"]))[:3]))
        # the matrix of the quaternion q, whatever its length, normalised
        for D in (3, 4):
            def fromq(env, D=D):
                q = [V(alg.cell("q%d" % i)) for i in range(4)]
                R = [[y / n2(q) for y in row] for row in rotm(q)]
                R = [[R[i][j] if i < 3 and j < 3 else V(alg.cell("h%d%d" % (i, j))) for j in range(D)] for i in range(D)]
                return flat(R)
            def same_rot(v):
                q = [V(alg.cell("q%d" % i)) for i in range(4)]
                return dict(r=[q[i] * q[j] / n2(q) for i in range(4) for j in range(i, 4)])
            mp = P("m", "Matrix<%d,%d,%s>" % (D, D, e), t, D * D, fromq, True)
            prods = "int k = 0; for( int i = 0; i < 4; ++i ) for( int j = i; j < 4; ++j ) r.a[ k++ ] = q.at( i ) * q.at( j );"
            qf = lambda v: [n2([V(alg.cell("q%d" % i)) for i in range(4)]).ne(0).v]
            C("C13", "set( rotation matrix %dx%d ) is that rotation up to sign %s" % (D, D, tag), [arr("r", 10, t, "undef"), a, mp], "%s q = a; q.set( m ); %s" % (QT, prods), same_rot, facts=qf)
            C("C13", "quaternion from rotation matrix %dx%d %s" % (D, D, tag), [arr("r", 10, t, "undef"), mp], "%s q( m ); %s" % (QT, prods), same_rot, facts=qf)
        # ------------------------------------------------------------- C14
        def slerp(v, eps):
            p, q = unit(v["a"]), unit(v["b"])
            c = dotv(p, q)
            flip = c < 0
            q = [where(flip, -y, y) for y in q]
            c = where(flip, -c, c)
            s = v["s"]
            h = atan2(sqrt(1 - c * c), c)
            sn = sqrt(1 - c * c)
            std = [sin((1 - s) * h) / sn * y + sin(s * h) / sn * z for y, z in zip(p, q)]
            lin = [(1 - s) * y + s * z for y, z in zip(p, q)]
            lin = unit(lin)
            return dict(r=[where(absv(c) < 1 - eps, y, z) for y, z in zip(std, lin)])
        both = lambda v: [n2(v["a"]).ne(0).v, n2(v["b"]).ne(0).v]
        C("C14", "slerp %s" % tag, [r, a, b, x, sca("eps", t, const=True)], "r = %s::slerp( s, a, b, eps );" % QT, lambda v, slerp=slerp: slerp(v, v["eps"]), facts=both)
        C("C14", "slerp, default epsilon %s" % tag, [r, a, b, x], "r = %s::slerp( s, a, b );" % QT, lambda v, slerp=slerp: slerp(v, V(Fraction(1, 10 ** 13))), facts=both)
        # ------------------------------------------------------------- streams
        for pr, post in (("C25", stream_state("os")), ("C11", outputs("os", lambda v: list(v["a"]), t))):
            C(pr, "operator<< %s" % tag, [P("os", "std::ostream", "raw", 1, "stream"), a], "os << a;", post=post)
    return L
