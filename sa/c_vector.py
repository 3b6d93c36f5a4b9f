"""What vector.hpp promises, operation by operation (docs: the comments in the
class and the names; oracle: the component-wise / linear-algebra definition)."""
from .driver import *
from .streams import *
from .val import *

HEADERS = ["vmmlib/vector.hpp"]
DIMS = (1, 2, 3, 4, 7)
FT = ("d", "f", "ld")
IT = ("i", "u", "ub")

def grid(th):
    """(dimension, type) pairs of the generic operations"""
    q = [(m, "d") for m in DIMS + (5, 6, 8, 9, 16, 260)] + [(3, "f"), (4, "f"), (3, "ld"), (3, "i"), (4, "ub"), (2, "u"), (3, "s"), (2, "l"), (4, "sb"), (3, "us")]
    if th: q += [(m, "d") for m in (10, 11, 12, 13, 32, 64, 1000)] + [(m, t) for m in (1, 2, 7) for t in ("f", "ld", "i", "ub", "u", "s")] + [(4, "i"), (3, "ub"), (4, "ld"), (3, "l"), (3, "sz")]
    return q

def post_extremum(res, src, key):
    """the reported index is in range and no element beats it"""
    def post(case, e, st, ptrs, env, facts):
        a = [key(x) for x in env[src]]
        n = len(a)
        p = next(p for p in case.params if p.name == res)
        got = V(e.load(st, Ptr(ptrs[res].obj, 0), "i64"), 64, True)
        legal = ap1(lambda x: int(isinstance(x, int) and x < n), got.v)
        w = feasible_where(bnot(legal), facts)
        yield None, "index in range", w is None, "reported index is %s; when %s" % (short(got.v), alg.path_str(w or ())), case.body
        for i in range(n):
            here = ap1(lambda x: int(isinstance(x, int) and x == i), got.v)
            for j in range(n):
                if i == j: continue
                w = feasible_where(band(here, (a[j] < a[i]).v), facts)
                yield None, "element %d not beaten by %d" % (i, j), w is None, "index %d reported although element %d beats it; when %s" % (i, j, alg.path_str(w or ())), where_def(e, st, ptrs[res])
    return post

def where_def(e, st, q):
    c = st.objs[q.obj].cells.get(0)
    return where_written(e, c)

def cases(th=False):
    L = []
    def C(prop, title, params, body, expect=None, **k):
        L.append(Case(prop, "Vector: " + title, params, body, expect, **k))
    OPS = [("+", lambda x, y: x + y), ("-", lambda x, y: x - y), ("*", lambda x, y: x * y), ("/", lambda x, y: x / y)]
    # ------------------------------------------------------------- C01
    for m, t in grid(th):
        n = "<%d,%s>" % (m, ELEM[t][0])
        for o, f in OPS:
            nzf = (lambda v: [x.ne(0).v for x in v["b"]]) if o == "/" and t not in FT else None
            nzs = (lambda v: [v["s"].ne(0).v]) if o == "/" and t not in FT else None
            nza = (lambda v: [x.ne(0).v for x in v["a"]]) if o == "/" and t not in FT else None
            C("C01", "a %s b %s" % (o, n), [vec("r", m, t, "undef"), vec("a", m, t, const=True), vec("b", m, t, const=True)], "r = a %s b;" % o,
              lambda v, f=f: dict(r=[f(x, y) for x, y in zip(v["a"], v["b"])]), facts=nzf)
            C("C01", "a %s s %s" % (o, n), [vec("r", m, t, "undef"), vec("a", m, t, const=True), sca("s", t, const=True)], "r = a %s s;" % o,
              lambda v, f=f: dict(r=[f(x, v["s"]) for x in v["a"]]), facts=nzs)
            C("C01", "a %s= b %s" % (o, n), [vec("a", m, t), vec("b", m, t, const=True)], "a %s= b;" % o,
              lambda v, f=f: dict(a=[f(x, y) for x, y in zip(v["a"], v["b"])]), facts=nzf)
            C("C01", "a %s= s %s" % (o, n), [vec("a", m, t), sca("s", t, const=True)], "a %s= s;" % o,
              lambda v, f=f: dict(a=[f(x, v["s"]) for x in v["a"]]), facts=nzs)
            C("C01", "a %s= a %s" % (o, n), [vec("a", m, t)], "a %s= a;" % o,
              lambda v, f=f: dict(a=[f(x, x) for x in v["a"]]), facts=nza)
            C("C01", "a %s= a(i) %s" % (o, n), [vec("a", m, t)], "a %s= a( %d );" % (o, m // 2),
              lambda v, f=f, m=m: dict(a=[f(x, v["a"][m // 2]) for x in v["a"]]), facts=nza)
            C("C01", "a = a %s b %s" % (o, n), [vec("a", m, t), vec("b", m, t, const=True)], "a = a %s b;" % o,
              lambda v, f=f: dict(a=[f(x, y) for x, y in zip(v["a"], v["b"])]), facts=nzf)
            if t in FT and m <= 4:
                for k in sorted({0, m - 1}):
                    C("C01", "a %s b with component %d not a number %s" % (o, k, n), [vec("r", m, t, "undef"), nan_at(vec("a", m, t, const=True), k), vec("b", m, t, const=True)], "r = a %s b;" % o,
                      lambda v, f=f: dict(r=[f(x, y) for x, y in zip(v["a"], v["b"])]))
                    C("C01", "a %s= b with component %d not a number %s" % (o, k, n), [vec("a", m, t), nan_at(vec("b", m, t, const=True), k)], "a %s= b;" % o,
                      lambda v, f=f: dict(a=[f(x, y) for x, y in zip(v["a"], v["b"])]))
                    C("C01", "a %s s with component %d not a number %s" % (o, k, n), [vec("r", m, t, "undef"), nan_at(vec("a", m, t, const=True), k), sca("s", t, const=True)], "r = a %s s;" % o,
                      lambda v, f=f: dict(r=[f(x, v["s"]) for x in v["a"]]))
                    C("C01", "a %s= s with component %d not a number %s" % (o, k, n), [nan_at(vec("a", m, t), k), sca("s", t, const=True)], "a %s= s;" % o,
                      lambda v, f=f: dict(a=[f(x, v["s"]) for x in v["a"]]))
        C("C01", "s * a %s" % n, [vec("r", m, t, "undef"), vec("a", m, t, const=True), sca("s", t, const=True)], "r = s * a;",
          lambda v: dict(r=[x * v["s"] for x in v["a"]]))
        C("C01", "-a %s" % n, [vec("r", m, t, "undef"), vec("a", m, t, const=True)], "r = -a;", lambda v: dict(r=[-x for x in v["a"]]))
        C("C01", "negate %s" % n, [vec("r", m, t, "undef"), vec("a", m, t)], "r = a.negate();", lambda v: dict(r=[-x for x in v["a"]], a=[-x for x in v["a"]]))
        if t in FT:
            C("C01", "reciprocal %s" % n, [vec("a", m, t)], "a.reciprocal();", lambda v: dict(a=[1 / x for x in v["a"]]))
            C(["C33", "C01"], "reciprocal_safe %s" % n, [vec("a", m, t)], "a.reciprocal_safe();",
              lambda v, t=t: dict(a=[where(x.eq(0), fmax(t), 1 / x) for x in v["a"]]))
            DR = ("draws from rand",); SR = DR + ("calls srand",)
            if m <= 16:
                C(["C43", "C22"], "set_random draws once per element %s" % n, [vec("r", m, t, "undef")], "r.set_random();", lambda v: dict(r=None), effects=DR, post=drawn("r", m, t, None), tags=("random",))
                C(["C43", "C22"], "set_random with a seed %s" % n, [vec("r", m, t, "undef"), sca("q", "i", const=True)], "r.set_random( q );", lambda v: dict(r=None), effects=SR, post=drawn("r", m, t, "q"), tags=("random",))
                C("C43", "set_random with the seed 0 %s" % n, [vec("r", m, t, "undef")], "r.set_random( 0 );", lambda v: dict(r=None), effects=SR, post=drawn("r", m, t, 0), tags=("random",))
                C("C43", "perturb %s" % n, [vec("a", m, t), sca("p", t, const=True)], "a.perturb( p );", lambda v: dict(a=None), effects=DR, post=shaken("a", m, t, "p"), facts=lambda v: [v["p"].ne(0).v], tags=("random",))
            C("C01", "sqrt_elementwise %s" % n, [vec("a", m, t)], "a.sqrt_elementwise();", lambda v: dict(a=[sqrt(x) for x in v["a"]]))
    for m, t, u in [(3, "d", "f"), (4, "f", "d"), (3, "d", "i"), (4, "i", "d"), (4, "ub", "f"), (5, "d", "ld"), (2, "u", "i")]:
        C(["C01", "C03"], "cast_from <%d,%s <- %s>" % (m, t, u), [vec("r", m, t, "undef"), vec("a", m, u, const=True)], "r.cast_from( a );",
          lambda v, t=t, u=u: dict(r=[conv(x, t, u) for x in v["a"]]), **convfacts("a", t, u))
    # ------------------------------------------------------------- C02
    for m, t in grid(th):
        n = "<%d,%s>" % (m, ELEM[t][0])
        two = [sca("r", t, "undef"), vec("a", m, t, const=True), vec("b", m, t, const=True)]
        C("C02", "dot member %s" % n, two, "r = a.dot( b );", lambda v: dict(r=dotv(v["a"], v["b"])))
        C("C02", "dot free %s" % n, two, "r = dot( a, b );", lambda v: dict(r=dotv(v["a"], v["b"])))
        C("C02", "dot self %s" % n, [sca("r", t, "undef"), vec("a", m, t, const=True)], "r = a.dot( a );", lambda v: dict(r=dotv(v["a"], v["a"])))
        C("C02", "squared_length %s" % n, [sca("r", t, "undef"), vec("a", m, t, const=True)], "r = a.squared_length();", lambda v: dict(r=dotv(v["a"], v["a"])))
        C("C02", "squared_distance %s" % n, two, "r = a.squared_distance( b );", lambda v: dict(r=sumv([(x - y) * (x - y) for x, y in zip(v["a"], v["b"])])))
        C("C02", "product %s" % n, [sca("r", t, "undef"), vec("a", m, t, const=True)], "r = a.product();", lambda v: dict(r=prod(v["a"])))
        if t not in FT: continue
        C("C02", "length %s" % n, [sca("r", t, "undef"), vec("a", m, t, const=True)], "r = a.length();", lambda v: dict(r=norm(v["a"])))
        C("C02", "distance %s" % n, two, "r = a.distance( b );", lambda v: dict(r=norm([x - y for x, y in zip(v["a"], v["b"])])))
        if t != "ld": C("C02", "norm %s" % n, [sca("r", "d", "undef"), vec("a", m, t, const=True)], "r = a.norm();", lambda v: dict(r=norm(v["a"])))
        C(["C02", "C33"], "normalize member %s" % n, [sca("r", t, "undef"), vec("a", m, t)], "r = a.normalize();", lambda v: dict(r=norm(v["a"]), a=unit(v["a"])))
        C("C02", "normalize free %s" % n, [vec("r", m, t, "undef"), vec("a", m, t, const=True)], "r = normalize( a );", lambda v: dict(r=unit(v["a"])))
    for t in ("d", "f", "ld", "i") + (("s", "l") if th else ()):
        n = "<3,%s>" % ELEM[t][0]
        C("C02", "cross member %s" % n, [vec("r", 3, t, "undef"), vec("a", 3, t, const=True), vec("b", 3, t, const=True)], "r = a.cross( b );", lambda v: dict(r=cross(v["a"], v["b"])))
        C("C02", "cross free %s" % n, [vec("r", 3, t, "undef"), vec("a", 3, t, const=True), vec("b", 3, t, const=True)], "r = cross( a, b );", lambda v: dict(r=cross(v["a"], v["b"])))
        C("C02", "cross into target %s" % n, [vec("r", 3, t, "undef"), vec("a", 3, t, const=True), vec("b", 3, t, const=True)], "r.cross( a, b );", lambda v: dict(r=cross(v["a"], v["b"])))
        C("C02", "cross into the left operand %s" % n, [vec("a", 3, t), vec("b", 3, t, const=True)], "a.cross( a, b );", lambda v: dict(a=cross(v["a"], v["b"])))
        C("C02", "cross into the right operand %s" % n, [vec("a", 3, t, const=True), vec("b", 3, t)], "b.cross( a, b );", lambda v: dict(b=cross(v["a"], v["b"])))
        C("C02", "a = a.cross(b) %s" % n, [vec("a", 3, t), vec("b", 3, t, const=True)], "a = a.cross( b );", lambda v: dict(a=cross(v["a"], v["b"])))
    for t in FT:
        n = "<%s>" % ELEM[t][0]
        C("C02", "rotate about axis %s" % n, [vec("r", 3, t, "undef"), vec("a", 3, t, const=True), sca("th", t, const=True), vec("k", 3, t, const=True)], "r = a.rotate( th, k );",
          lambda v: dict(r=rodrigues(v["a"], unit(v["k"]), v["th"])))
        C("C02", "compute_normal of three %s" % n, [vec("r", 3, t, "undef"), vec("a", 3, t, const=True), vec("b", 3, t, const=True), vec("c", 3, t, const=True)], "r.compute_normal( a, b, c );",
          lambda v: dict(r=unit(cross(vsub(v["b"], v["a"]), vsub(v["c"], v["a"])))))
        C("C02", "compute_normal of this and two %s" % n, [vec("r", 3, t, "undef"), vec("a", 3, t, const=True), vec("b", 3, t, const=True), vec("c", 3, t, const=True)], "r = a.compute_normal( b, c );",
          lambda v: dict(r=unit(cross(vsub(v["b"], v["a"]), vsub(v["c"], v["a"])))))
        C("C02", "project_point_onto_sphere %s" % n, [vec("r", 3, t, "undef"), vec("s", 4, t, const=True), vec("p", 3, t, const=True)], "r = s.project_point_onto_sphere( p );",
          lambda v: dict(r=[c + v["s"][3] * x for c, x in zip(v["s"], unit(vsub(v["p"], v["s"])))]))
        C("C02", "distance_to_sphere %s" % n, [sca("r", t, "undef"), vec("s", 4, t, const=True), vec("p", 3, t, const=True)], "r = s.distance_to_sphere( p );",
          lambda v: dict(r=norm(vsub(v["p"], v["s"])) - v["s"][3]))
        C("C02", "distance_to_plane %s" % n, [sca("r", t, "undef"), vec("s", 4, t, const=True), vec("p", 3, t, const=True)], "r = s.distance_to_plane( p );",
          lambda v: dict(r=dotv(v["s"][:3], v["p"]) + v["s"][3]))
        C("C02", "project_point_onto_plane %s" % n, [vec("r", 3, t, "undef"), vec("s", 4, t, const=True), vec("p", 3, t, const=True)], "r = s.project_point_onto_plane( p );",
          lambda v: dict(r=[p - x * (dotv(v["s"][:3], v["p"]) + v["s"][3]) for p, x in zip(v["p"], v["s"])]))
        def plane(v):
            nrm = unit(cross(vsub(v["b"], v["c"]), vsub(v["a"], v["b"])))
            return dict(r=nrm + [-dotv(nrm, v["a"])])
        C("C02", "compute_plane %s" % n, [vec("r", 4, t, "undef"), vec("a", 3, t, const=True), vec("b", 3, t, const=True), vec("c", 3, t, const=True)], "r = compute_plane( a, b, c );", plane)
    # ------------------------------------------------------------- C03
    G3 = [(2, "d"), (3, "d"), (4, "d"), (3, "f"), (4, "i"), (3, "ub"), (3, "ld"), (5, "d"), (7, "f"), (6, "d"), (16, "d"), (260, "f"), (4, "s"), (3, "l")] + ([(8, "i"), (2, "ub"), (4, "ld"), (9, "d"), (12, "f"), (64, "d")] if th else [])
    for m, t in G3 + [(1, "d")]:
        n = "<%d,%s>" % (m, ELEM[t][0]); ct = "Vector<%d,%s>" % (m, ELEM[t][0]); e = ELEM[t][0]
        r, a, s = vec("r", m, t, "undef"), vec("a", m, t, const=True), sca("s", t, const=True)
        old = vec("r", m, t)
        whole = dict(r=None)
        fil = lambda v, m=m: dict(r=[v["s"]] * m)
        same = lambda v: dict(r=v["a"])
        C("C03", "construct from filler %s" % n, [r, s], "::new( (void*)&r ) %s( s );" % ct, fil)
        C("C03", "default construction writes nothing but zeros %s" % n, [r], "::new( (void*)&r ) %s();" % ct, lambda v, m=m: dict(r=[0] * m))
        C("C03", "set( filler ) %s" % n, [r, s], "r.set( s );", fil)
        if m > 1: C("C03", "operator=( filler ) %s" % n, [r, s, sca("q", t, "undef")], "q = ( r = s );", lambda v, m=m: dict(r=[v["s"]] * m, q=v["s"]))
        C("C03", "construct from array %s" % n, [r, arr("a", m, t, const=True)], "::new( (void*)&r ) %s( a.a );" % ct, same)
        C("C03", "operator=( array ) %s" % n, [r, arr("a", m, t, const=True)], "r = a.a;", same)
        C("C03", "copy construct %s" % n, [r, a], "::new( (void*)&r ) %s( a );" % ct, same)
        C("C03", "copy assign %s" % n, [r, a], "r = a;", same)
        C("C03", "copy assign chains %s" % n, [r, vec("q", m, t, "undef"), a], "q = r = a;", lambda v: dict(r=v["a"], q=v["a"]))
        C("C03", "self assign %s" % n, [vec("a", m, t)], "a = a;", lambda v: dict(a=v["a"]))
        # range: exact, too short, too long
        for k in sorted({0, max(m - 1, 0), m, m + 2}):
            C(["C03", "C22"], "iter_set from %d elements %s" % (k, n), [old, arr("a", max(k, 1), t, const=True)], "r.iter_set( a.a, a.a + %d );" % k,
              lambda v, k=k, m=m: dict(r=[lst(v["a"])[i] if i < k else v["r"][i] for i in range(m)]) if m > 1 else dict(r=[lst(v["a"])[0] if k else v["r"][0]]))
        for nm, base in (("begin", "a.begin()[%d]"), ("*(begin+i)", "*( a.begin() + %d )"), ("array", "a.array[ %d ]"), ("at", "a.at( %d )"), ("call", "a( %d )"), ("index", "a[ %d ]")):
            for cst in (True, False):
                C("C03", "read through %s%s %s" % (nm, " const" if cst else "", n), [r, vec("a", m, t, const=cst)], " ".join("r.array[%d] = %s;" % (i, base % i) for i in range(m)), same)
            C("C03", "write through %s %s" % (nm, n), [vec("a", m, t), sca("s", t, const=True)], (base % (m - 1)) + " = s;", lambda v, m=m: dict(a=v["a"][:m - 1] + [v["s"]]))
        C("C03", "iterate begin..end %s" % n, [r, a], "size_t k = 0; for( %s::const_iterator i = a.begin(); i != a.end(); ++i ) r.array[k++] = *i;" % ct, same)
        C("C03", "iterate mutable begin..end %s" % n, [old, s], "for( %s::iterator i = r.begin(); i != r.end(); ++i ) *i = s;" % ct, fil)
        C(["C03", "C27"], "iterate rbegin..rend %s" % n, [r, a], "size_t k = 0; for( %s::const_reverse_iterator i = a.rbegin(); i != a.rend(); ++i ) r.array[k++] = *i;" % ct, lambda v: dict(r=v["a"][::-1]))
        C(["C03", "C27"], "iterate mutable rbegin..rend %s" % n, [old, arr("a", m, t, const=True)], "size_t k = 0; for( %s::reverse_iterator i = r.rbegin(); i != r.rend(); ++i ) *i = a.a[k++];" % ct, lambda v: dict(r=lst(v["a"])[::-1]))
        C("C03", "size() and DIMENSION %s" % n, [sca("r", "sz", "undef"), sca("q", "sz", "undef"), a], "r = a.size(); const size_t dim = %s::DIMENSION; q = dim;" % ct, lambda v, m=m: dict(r=I(m, 64), q=I(m, 64)))
        C("C03", "constant ONE %s" % n, [r], "r = %s::ONE;" % ct, lambda v, m=m: dict(r=[1] * m))
        C("C03", "constant ZERO %s" % n, [r], "r = %s::ZERO;" % ct, lambda v, m=m: dict(r=[0] * m))
        if m == 3:
            for k, c in dict(FORWARD=[0, 0, -1], BACKWARD=[0, 0, 1], UP=[0, 1, 0], DOWN=[0, -1, 0], LEFT=[-1, 0, 0], RIGHT=[1, 0, 0], UNIT_X=[1, 0, 0], UNIT_Y=[0, 1, 0], UNIT_Z=[0, 0, 1]).items():
                C("C03", "constant %s %s" % (k, n), [r], "r = %s::%s;" % (ct, k), lambda v, c=c: dict(r=c))
        args = "xyzw"
        if 2 <= m <= 4:
            ss = [sca(c, t, const=True) for c in args[:m]]
            C("C03", "construct from components %s" % n, [r] + ss, "::new( (void*)&r ) %s( %s );" % (ct, ", ".join(args[:m])), lambda v, m=m: dict(r=[v[c] for c in "xyzw"[:m]]))
            for k, (names) in enumerate(("xyzw", "rgba")):
                for cst in (True, False):
                    C("C03", "read %s%s %s" % (names[:m], " const" if cst else "", n), [r, vec("a", m, t, const=cst)], " ".join("r.array[%d] = a.%s();" % (i, names[i]) for i in range(m)), same)
                C("C03", "write %s %s" % (names[:m], n), [vec("a", m, t)] + ss, " ".join("a.%s() = %s;" % (names[i], args[i]) for i in range(m)), lambda v, m=m: dict(a=[v[c] for c in "xyzw"[:m]]))
        for k in (2, 3, 4):
            if k <= m:
                C("C03", "set of %d components %s" % (k, n), [old] + [sca(c, t, const=True) for c in args[:k]], "r.set( %s );" % ", ".join(args[:k]),
                  lambda v, k=k, m=m: dict(r=[v["xyzw"[i]] if i < k else v["r"][i] for i in range(m)]))
        if m >= 2:
            C("C03", "construct from smaller vector and last %s" % n, [r, vec("a", m - 1, t, const=True), s], "::new( (void*)&r ) %s( a, s );" % ct, lambda v: dict(r=v["a"] + [v["s"]]))
            C("C03", "set( smaller vector, last ) %s" % n, [r, vec("a", m - 1, t, const=True), s], "r.set( a, s );", lambda v: dict(r=v["a"] + [v["s"]]))
            C("C03", "to-homogeneous construction %s" % n, [r, vec("a", m - 1, t, const=True)], "::new( (void*)&r ) %s( a );" % ct, lambda v: dict(r=v["a"] + [1]))
            C("C03", "to-homogeneous assignment %s" % n, [r, vec("a", m - 1, t, const=True)], "r = a;", lambda v: dict(r=v["a"] + [1]))
        if True:
            C("C03", "from-homogeneous construction %s" % n, [r, vec("a", m + 1, t, const=True)], "::new( (void*)&r ) %s( a );" % ct, lambda v: dict(r=[x / v["a"][-1] for x in v["a"][:-1]]))
            C("C03", "from-homogeneous assignment %s" % n, [r, vec("a", m + 1, t, const=True)], "r = a;", lambda v: dict(r=[x / v["a"][-1] for x in v["a"][:-1]]))
        for k in sorted({max(1, m - 2), m - 1, m, m + 1, m + 3} - {0}):
            C("C03", "set( Vector<%d> ) %s" % (k, n), [old, vec("a", k, t, const=True)], "r.set( a );" if k != m - 1 else "r.template set< %d >( a );" % k,
              lambda v, k=k, m=m: dict(r=[v["a"][i] if i < k else v["r"][i] for i in range(m)]))
        for k in sorted({1, m // 2, m - 1, m} - {0}):
            for off in sorted({0, m - k, (m - k) // 2}):
                C("C03", "get_sub_vector<%d>(%d) const %s" % (k, off, n), [vec("r", k, t, "undef"), a], "r = a.template get_sub_vector< %d >( %d );" % (k, off), lambda v, k=k, off=off: dict(r=v["a"][off:off + k]))
                C("C03", "write through get_sub_vector<%d>(%d) %s" % (k, off, n), [vec("a", m, t), vec("b", k, t, const=True)], "a.template get_sub_vector< %d >( %d ) = b;" % (k, off),
                  lambda v, k=k, off=off: dict(a=v["a"][:off] + v["b"] + v["a"][off + k:]))
            C("C03", "get_sub_vector<%d>() starts at 0 %s" % (k, n), [vec("r", k, t, "undef"), a], "r = a.template get_sub_vector< %d >();" % k, lambda v, k=k: dict(r=v["a"][:k]))
    for m, t, u in [(3, "d", "f"), (4, "f", "d"), (3, "d", "i"), (2, "i", "d"), (4, "ub", "f"), (5, "d", "ld"), (2, "u", "i"), (3, "ld", "f")]:
        n = "<%d,%s from %s>" % (m, t, u); ct = "Vector<%d,%s>" % (m, ELEM[t][0])
        k = convfacts("a", t, u)
        C("C03", "converting construction %s" % n, [vec("r", m, t, "undef"), vec("a", m, u, const=True)], "::new( (void*)&r ) %s( a );" % ct, lambda v, t=t, u=u: dict(r=[conv(x, t, u) for x in v["a"]]), **k)
        C("C03", "converting assignment %s" % n, [vec("r", m, t, "undef"), vec("a", m, u, const=True)], "r = a;", lambda v, t=t, u=u: dict(r=[conv(x, t, u) for x in v["a"]]), **k)
        C("C03", "iter_set converting %s" % n, [vec("r", m, t, "undef"), arr("a", m, u, const=True)], "r.iter_set( a.a, a.a + %d );" % m, lambda v, t=t, u=u: dict(r=[conv(x, t, u) for x in v["a"]]), **k)
    # ------------------------------------------------------------- C04
    G4 = [(1, "d"), (2, "d"), (3, "d"), (4, "d"), (3, "f"), (2, "ld"), (3, "i"), (4, "ub"), (2, "u"), (6, "d"), (16, "d"), (260, "i"), (4, "s"), (3, "l"), (3, "sb"), (2, "us")] + ([(5, "f"), (8, "d"), (3, "u"), (3, "ub"), (5, "i")] if th else [])
    for m, t in G4:
        n = "<%d,%s>" % (m, ELEM[t][0])
        ab = [sca("r", "i", "undef"), vec("a", m, t, const=True), vec("b", m, t, const=True)]
        E = lambda v: all_([x.eq(y) for x, y in zip(v["a"], v["b"])])
        C("C04", "== %s" % n, ab, "r = a == b;", lambda v, E=E: dict(r=where(E(v), I(1), I(0))))
        C("C04", "!= %s" % n, ab, "r = a != b;", lambda v, E=E: dict(r=where(E(v), I(0), I(1))))
        if t in FT and m <= 7:
            for k in sorted({0, m // 2, m - 1}):
                for q in (0, 1):
                    two = [sca("r", "i", "undef"), nan_at(ab[1], k) if q != 1 else ab[1], nan_at(ab[2], k) if q != 0 else ab[2]]
                    C("C04", "== with component %d of %s not a number %s" % (k, "ab"[q], n), two, "r = a == b;", lambda v: dict(r=I(0)))
                    C("C04", "!= with component %d of %s not a number %s" % (k, "ab"[q], n), two, "r = a != b;", lambda v: dict(r=I(1)))
                C("C04", "a == a with component %d not a number %s" % (k, n), [ab[0], nan_at(ab[1], k)], "r = a == a;", lambda v: dict(r=I(0)))
        C("C04", "a == a %s" % n, [sca("r", "i", "undef"), vec("a", m, t, const=True)], "r = a == a;", lambda v: dict(r=I(1)))
        def lex(v):
            r = I(0)
            for x, y in reversed(list(zip(v["a"], v["b"]))): r = where(x < y, I(1), where(y < x, I(0), r))
            return dict(r=r)
        C("C04", "< %s" % n, ab, "r = a < b;", lex)
        if t in FT and m <= 4:
            C("C04", "equals( b, tol ) %s" % n, ab + [sca("tol", t, const=True)], "r = a.equals( b, tol );", lambda v: dict(r=where(all_([absv(x - y) <= v["tol"] for x, y in zip(v["a"], v["b"])]), I(1), I(0))), facts=lambda v: [(v["tol"] >= 0).v])
            C("C04", "equals( b ) %s" % n, ab, "r = a.equals( b );", lambda v, t=t: dict(r=where(all_([absv(x - y) <= feps(t) for x, y in zip(v["a"], v["b"])]), I(1), I(0))))
            C("C04", "free equals %s" % n, ab, "r = vmml::equals( a, b );", lambda v, t=t: dict(r=where(all_([absv(x - y) <= feps(t) for x, y in zip(v["a"], v["b"])]), I(1), I(0))))
        elif m <= 4:
            C("C04", "equals( b ) %s" % n, ab, "r = a.equals( b );", lambda v, E=E: dict(r=where(E(v), I(1), I(0))))
    # ------------------------------------------------------------- C05
    G5 = [(1, "d"), (2, "d"), (3, "d"), (4, "d"), (3, "f"), (3, "i"), (3, "ub"), (3, "ld"), (3, "s"), (2, "sb"), (3, "l"), (3, "us"), (5, "d"), (6, "i")] + ([(7, "f"), (4, "i"), (4, "u")] if th else [])
    for m, t in G5:
        n = "<%d,%s>" % (m, ELEM[t][0])
        r, a = sca("r", t, "undef"), vec("a", m, t, const=True)
        k = sca("k", "sz", "undef")
        C("C05", "find_min const %s" % n, [r, a], "r = a.find_min();", lambda v: dict(r=minv(v["a"])))
        C("C05", "find_max const %s" % n, [r, a], "r = a.find_max();", lambda v: dict(r=maxv(v["a"])))
        C("C05", "find_min %s" % n, [r, vec("a", m, t)], "r = a.find_min();", lambda v: dict(r=minv(v["a"])))
        C("C05", "find_max %s" % n, [r, vec("a", m, t)], "r = a.find_max();", lambda v: dict(r=maxv(v["a"])))
        C("C05", "find_min_index %s" % n, [k, a], "k = a.find_min_index();", lambda v: dict(k=None), post=post_extremum("k", "a", lambda x: x))
        C("C05", "find_max_index %s" % n, [k, a], "k = a.find_max_index();", lambda v: dict(k=None), post=post_extremum("k", "a", lambda x: -x.real()))
        if t not in ("u",):
            if m <= 4: C("C05", "find_abs_min_index %s" % n, [k, a], "k = a.find_abs_min_index();", lambda v: dict(k=None), post=post_extremum("k", "a", lambda x: absv(x.real())), facts=intabs("a", t))
            if m <= 4: C("C05", "find_abs_max_index %s" % n, [k, a], "k = a.find_abs_max_index();", lambda v: dict(k=None), post=post_extremum("k", "a", lambda x: -absv(x.real())), facts=intabs("a", t))
        C("C05", "clamp( lo, hi ) %s" % n, [vec("a", m, t), sca("lo", t, const=True), sca("hi", t, const=True)], "a.clamp( lo, hi );",
          lambda v: dict(a=[where(x < v["lo"], v["lo"], where(v["hi"] < x, v["hi"], x)) for x in v["a"]]), facts=lambda v: [(v["lo"] <= v["hi"]).v])
        C("C05", "clamp() is to [0,1] %s" % n, [vec("a", m, t)], "a.clamp();", lambda v, t=t: dict(a=[where(x < 0, kt(0, t), where(kt(1, t) < x, kt(1, t), x)) for x in v["a"]]))
        C("C05", "nnz %s" % n, [k, a], "k = a.nnz();", lambda v: dict(k=sumv([where(x.eq(0), I(0, 64), I(1, 64)) for x in v["a"]])))
        if m <= 4:
            def isunit(v):
                c = sumv([where(x.eq(0), I(0, 8), where(x.eq(1), I(1, 8), I(16, 8))) for x in v["a"]])
                return dict(r=where(c.eq(1), I(1), I(0)))
            C("C05", "is_unit_vector %s" % n, [sca("r", "i", "undef"), a], "r = a.is_unit_vector();", isunit)
    for m in (2, 3, 5):
        for t, u, mx in [("d", "ub", 255), ("f", "ub", 255), ("d", "i", 2**31 - 1)]:
            C("C41", "scale_to <%d,%s -> %s>" % (m, t, u), [vec("r", m, u, "undef"), vec("a", m, t, const=True), sca("lo", t, const=True), sca("hi", t, const=True)], "a.scale_to( r, lo, hi );",
              lambda v, u=u, mx=mx: dict(r=[trunc_to((x - v["lo"]) * mx / (v["hi"] - v["lo"]), ELEM[u][3]) for x in v["a"]]))
    # ------------------------------------------------------------- C23
    for m, t in [(1, "d"), (3, "d"), (4, "f"), (7, "i"), (3, "ub"), (260, "f")] + ([(2, "ld"), (12, "d")] if th else []):
        n = "<%d,%s>" % (m, ELEM[t][0])
        cl = [(i, i) for i in range(m) if m <= 16 or i in (0, 1, 127, 128, 255, 256, m - 1)] + [(m, m), (m + 1, 2**63), (2**63 + 1, 2**64 - 1)]
        bad = lambda v, c, m=m: c["i"][0] >= m
        for nm, ex in (("at", "a.at( i )"), ("()", "a( i )")):
            for cst in (True, False):
                C("C23", "%s%s %s" % (nm, " const" if cst else "", n), [sca("r", t, "undef"), vec("a", m, t, const=cst), idx("i", cl)], "r = %s;" % ex,
                  lambda v, c, m=m: dict(r=v["a"][c["i"][0]]) if c["i"][0] < m else None, throws=bad)
            C("C23", "write %s %s" % (nm, n), [vec("a", m, t), idx("i", cl), sca("s", t, const=True)], "%s = s;" % ex,
              lambda v, c, m=m: dict(a=[v["s"] if j == c["i"][0] else x for j, x in enumerate(v["a"])]) if c["i"][0] < m else None, throws=bad)
        for k in sorted({1, m - 1, m} - {0}):
            cl2 = [(i, i) for i in range(m - k + 1) if m <= 16 or i in (0, 1, 127, 128, 255, 256, m - k)] + [(m - k + 1, m - k + 1), (m - k + 2, 2**63), (2**63 + 1, 2**64 - 1)]
            for cst in (True, False):
                C("C23", "get_sub_vector<%d>%s %s" % (k, " const" if cst else "", n), [vec("r", k, t, "undef"), vec("a", m, t, const=cst), idx("i", cl2)], "r = a.template get_sub_vector< %d >( i );" % k,
                  lambda v, c, m=m, k=k: dict(r=v["a"][c["i"][0]:c["i"][0] + k]) if c["i"][0] <= m - k else None, throws=lambda v, c, m=m, k=k: c["i"][0] > m - k)
    # ------------------------------------------------------------- C11
    for m, t in [(1, "d"), (3, "d"), (4, "f"), (3, "i"), (2, "ld"), (7, "d"), (260, "d")]:
        n = "<%d,%s>" % (m, ELEM[t][0])
        C("C11", "write_to_stream %s" % n, [P("os", "std::ostream", "raw", 1, "stream"), vec("a", m, t, const=True)], "a.write_to_stream( os );", post=outputs("os", lambda v: list(v["a"]), t))
        C("C11", "read_from_stream %s" % n, [P("is", "std::istream", "raw", 1, "stream"), vec("a", m, t)], "a.read_from_stream( is );", lambda v, m=m: dict(a=None), post=inputs("a", m, t))
        C(["C25"], "operator<< %s" % n, [P("os", "std::ostream", "raw", 1, "stream"), vec("a", m, t, const=True)], "os << a;", post=stream_state("os"))
        C(["C11"], "operator<< %s" % n, [P("os", "std::ostream", "raw", 1, "stream"), vec("a", m, t, const=True)], "os << a;", post=outputs("os", lambda v: list(v["a"]), t))
    return L
