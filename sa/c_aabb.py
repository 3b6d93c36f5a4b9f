"""aabb.hpp."""
from .driver import *
from .streams import *
from .val import *
from .c_vector import FT

HEADERS = ["vmmlib/aabb.hpp"]

def box(name, t, init="sym", const=False): return P(name, "AABB<%s>" % ELEM[t][0], t, 6, init, const)
def OS(): return P("os", "std::ostream", "raw", 1, "stream")
def lo(b): return b[:3]
def hi(b): return b[3:]
def top(t): return V(FMAX[t]) if t in FMAX else kt(2 ** (WID[t] - (t not in UNS)) - 1, t)
def bottom(t): return V(-FMAX[t]) if t in FMAX else kt(0 if t in UNS else -2 ** (WID[t] - 1), t)
def empty(t): return [top(t)] * 3 + [bottom(t)] * 3
def merged(a, mn, mx):
    return [where(q < p, q, p) for p, q in zip(lo(a), mn)] + [where(q > p, q, p) for p, q in zip(hi(a), mx)]
def inside(b, p, axes=(0, 1, 2)):
    return all_([(b[i] <= p[i]) & (p[i] <= b[3 + i]) for i in axes])
def inside_sphere(b, s):
    return all_([(b[i] <= s[i] - s[3]) & (s[i] + s[3] <= b[3 + i]) for i in range(3)])

def cases(th=False):
    L = []
    def C(prop, title, params, body, expect=None, **k):
        L.append(Case(prop, "AABB: " + title, params, body, expect, **k))
    ITS = ("i", "ub", "u", "s", "l") + (("sb", "us", "sz") if th else ())
    for t in FT + ITS:
        e = ELEM[t][0]; tag = "<%s>" % e; BX = "AABB<%s>" % e
        fl = t in FT
        r, a, am, b = box("r", t, "undef"), box("a", t, const=True), box("a", t), box("b", t, const=True)
        p, q, s = vec("p", 3, t, const=True), vec("q", 3, t, const=True), vec("s", 4, t, const=True)
        pm = vec("p", 3, t)
        four = [sca(k, t, const=True) for k in "xyzw"]
        B1 = sca("r", "b", "undef")
        new = lambda args: "new( &r ) %s( %s );" % (BX, args)
        ball = lambda v: [v[k] - v["w"] for k in "xyz"] + [v[k] + v["w"] for k in "xyz"]
        C("C19", "corners %s" % tag, [r, p, q], new("p, q"), lambda v: dict(r=v["p"] + v["q"]))
        C("C19", "sphere %s" % tag, [r, s], new("s"), lambda v: dict(r=[x - v["s"][3] for x in v["s"][:3]] + [x + v["s"][3] for x in v["s"][:3]]))
        C("C19", "centre and size %s" % tag, [r] + four, new("x, y, z, w"), lambda v, ball=ball: dict(r=ball(v)))
        C("C19", "set corners %s" % tag, [am, p, q], "a.set( p, q );", lambda v: dict(a=v["p"] + v["q"]))
        C("C19", "set centre and size %s" % tag, [am] + four, "a.set( x, y, z, w );", lambda v, ball=ball: dict(a=ball(v)))
        C("C19", "setMin %s" % tag, [am, p], "a.setMin( p );", lambda v: dict(a=v["p"] + hi(v["a"])))
        C("C19", "setMax %s" % tag, [am, p], "a.setMax( p );", lambda v: dict(a=lo(v["a"]) + v["p"]))
        C("C19", "set from itself swapped %s" % tag, [am], "a.set( %s( a.getMax() ), %s( a.getMin() ) );" % (("Vector<3,%s>" % e,) * 2), lambda v: dict(a=hi(v["a"]) + lo(v["a"])))
        C("C19", "getMin, getMax %s" % tag, [r, a], "r.setMin( a.getMin() ); r.setMax( a.getMax() );", lambda v: dict(r=v["a"]))
        C("C19", "getMin, getMax write %s" % tag, [am, p, q], "a.getMin() = p; a.getMax() = q;", lambda v: dict(a=v["p"] + v["q"]))
        C("C19", "copy %s" % tag, [r, a], new("a"), lambda v: dict(r=v["a"]))
        C("C19", "operator= %s" % tag, [r, a], "r = a;", lambda v: dict(r=v["a"]))
        # ------------------------------------------------------------- empty and merge
        C("C19", "default is empty %s" % tag, [r], new(""), lambda v, t=t: dict(r=empty(t)))
        C("C19", "setEmpty %s" % tag, [am], "a.setEmpty();", lambda v, t=t: dict(a=empty(t)))
        C("C19", "default reports empty %s" % tag, [B1], "r = %s().isEmpty();" % BX, lambda v: dict(r=V(1, 8)))
        C("C19", "setEmpty reports empty %s" % tag, [B1, am], "a.setEmpty(); r = a.isEmpty();", lambda v, t=t: dict(r=V(1, 8), a=empty(t)))
        C("C19", "isEmpty %s" % tag, [B1, a], "r = a.isEmpty();", lambda v: dict(r=where(any_([v["a"][i] >= v["a"][3 + i] for i in range(3)]), V(1, 8), V(0, 8))))
        C("C19", "merge point %s" % tag, [am, p], "a.merge( p );", lambda v: dict(a=merged(v["a"], v["p"], v["p"])))
        C("C19", "merge box %s" % tag, [am, b], "a.merge( b );", lambda v: dict(a=merged(v["a"], lo(v["b"]), hi(v["b"]))))
        C("C19", "merge itself %s" % tag, [am], "a.merge( a );", lambda v: dict(a=v["a"]),
          facts=lambda v: [(v["a"][i] <= v["a"][3 + i]).v for i in range(3)])
        C("C19", "merge own corner %s" % tag, [am], "a.merge( a.getMin() );", lambda v: dict(a=v["a"]),
          facts=lambda v: [(v["a"][i] <= v["a"][3 + i]).v for i in range(3)])
        rng = lambda *ks: (lambda v, ks=ks, t=t: Facts(within([x for k in ks for x in v[k]], t)))
        C("C19", "empty merges a point %s" % tag, [r, p], new("") + " r.merge( p );", lambda v: dict(r=v["p"] * 2), facts=rng("p"))
        C("C19", "setEmpty merges a point %s" % tag, [am, p], "a.setEmpty(); a.merge( p );", lambda v: dict(a=v["p"] * 2), facts=rng("p"))
        C("C19", "empty merges a box %s" % tag, [r, b], new("") + " r.merge( b );", lambda v: dict(r=v["b"]), facts=rng("b"))
        C("C19", "merging an empty box %s" % tag, [am], "a.merge( %s() );" % BX, lambda v: dict(a=v["a"]), facts=rng("a"))
        C("C19", "empty merges two points %s" % tag, [r, p, q], new("") + " r.merge( p ); r.merge( q );",
          lambda v: dict(r=[minv([x, y]) for x, y in zip(v["p"], v["q"])] + [maxv([x, y]) for x, y in zip(v["p"], v["q"])]), facts=rng("p", "q"))
        # ------------------------------------------------------------- queries
        one = lambda c: where(c, V(1, 8), V(0, 8))
        C("C19", "isIn point %s" % tag, [B1, a, p], "r = a.isIn( p );", lambda v, one=one: dict(r=one(inside(v["a"], v["p"]))))
        C("C19", "isIn2d %s" % tag, [B1, a, p], "r = a.isIn2d( p );", lambda v, one=one: dict(r=one(inside(v["a"], v["p"], (0, 1)))))
        if fl:
            C("C19", "isIn sphere %s" % tag, [B1, a, s], "r = a.isIn( s );", lambda v, one=one: dict(r=one(inside_sphere(v["a"], v["s"]))))
            C("C19", "a sphere is in its box %s" % tag, [B1, s], "r = %s( s ).isIn( s );" % BX, lambda v: dict(r=V(1, 8)))
        C("C19", "merged point is inside %s" % tag, [B1, am, p], "a.merge( p ); r = a.isIn( p );", lambda v: dict(r=V(1, 8), a=None))
        C("C19", "corners are inside %s" % tag, [arr("r", 2, "b", "undef"), a], "r.a[0] = a.isIn( a.getMin() ); r.a[1] = a.isIn( a.getMax() );", lambda v: dict(r=[V(1, 8)] * 2),
          facts=lambda v: [(v["a"][i] <= v["a"][3 + i]).v for i in range(3)])
        C("C19", "getDimension %s" % tag, [vec("r", 3, t, "undef"), a], "r = a.getDimension();", lambda v: dict(r=[x - y for x, y in zip(hi(v["a"]), lo(v["a"]))]))
        if fl: C("C19", "getCenter %s" % tag, [vec("r", 3, t, "undef"), a], "r = a.getCenter();", lambda v: dict(r=[(x + y) / 2 for x, y in zip(hi(v["a"]), lo(v["a"]))]))
        C("C19", "getCenter of a constant %s" % tag, [vec("r", 3, t, "undef")], "typedef Vector<3,%s> W; r = %s( W( 2, 4, 6 ), W( 4, 12, 26 )).getCenter();" % (e, BX), lambda v, t=t: dict(r=[kt(3, t), kt(8, t), kt(16, t)]))
        C("C19", "makeUnitBox %s" % tag, [r], "r = %s::makeUnitBox();" % BX, lambda v, t=t: dict(r=[kt(0, t)] * 3 + [kt(1, t)] * 3))
        # ------------------------------------------------------------- arithmetic
        for o, f in (("*", lambda x, y: x * y), ("/", lambda x, y: x / y), ("+", lambda x, y: x + y), ("-", lambda x, y: x - y)):
            nz = (lambda v: [v["w"].ne(0).v]) if o == "/" and not fl else None
            C("C19", "operator%s %s" % (o, tag), [r, a, sca("w", t, const=True)], "r = a %s w;" % o, lambda v, f=f: dict(r=[f(x, v["w"]) for x in v["a"]]), facts=nz)
            C("C19", "operator%s= %s" % (o, tag), [am, sca("w", t, const=True)], "a %s= w;" % o, lambda v, f=f: dict(a=[f(x, v["w"]) for x in v["a"]]), facts=nz)
        # ------------------------------------------------------------- comparison
        for u in (t,) + (tuple(x for x in FT if FT_RANK[x] < FT_RANK[t]) if fl else ()):
            bu = box("b", u, const=True); ut = tag if u == t else "%s and %s" % (tag, ELEM[u][0])
            C(["C04", "C19"], "operator== %s" % ut, [B1, a, bu], "r = a == b;", lambda v, one=one: dict(r=one(all_([x.eq(y) for x, y in zip(v["a"], v["b"])]))))
            C(["C04", "C19"], "operator!= %s" % ut, [B1, a, bu], "r = a != b;", lambda v, one=one: dict(r=one(any_([x.ne(y) for x, y in zip(v["a"], v["b"])]))))
        C("C04", "equal to itself %s" % tag, [arr("r", 2, "b", "undef"), a], "r.a[0] = a == a; r.a[1] = a != a;", lambda v: dict(r=[V(1, 8), V(0, 8)]))
        C("C25", "operator<< %s" % tag, [OS(), a], "os << a;", post=stream_state("os"))
        if t not in ("ub", "sb"): C(["C11", "C19"], "operator<< %s" % tag, [OS(), a], "os << a;", post=outputs("os", lambda v: list(v["a"]), t))
    return L

FT_RANK = {"f": 0, "d": 1, "ld": 2}
