"""The optional parts: names of types, the Boost.LA traits, construction from another
library's vectors. Analysed with the macros that switch them on (stubs/)."""
from .driver import *
from .val import *

HEADERS = ["vmmlib_sa/all_on.hpp", "vmmlib/vmmlib.hpp", "vmmlib/frustum_culler.hpp", "vmmlib/aabb.hpp", "vmmlib/intersection.hpp", "vmmlib/lowpass_filter.hpp",
           "vmmlib/vector_traits.hpp", "vmmlib/matrix_traits.hpp"]

NEW = {"Vector%d%s" % (n, s): "Vector< %d, %s >" % (n, t) for n in (2, 3, 4) for s, t in (("i", "int"), ("ui", "unsigned"), ("d", "double"), ("f", "float"), ("ub", "uint8_t")) if (n, s) not in ((2, "d"), (2, "ub"))}
NEW.update({"Matrix%d%s" % (n, s): "Matrix< %d, %d, %s >" % (n, n, t) for n in (3, 4) for s, t in (("d", "double"), ("f", "float"))})
NEW.update({"%s%s" % (c, s): "%s< %s >" % (c, t) for c in ("Quaternion", "Frustum", "FrustumCuller", "AABB") for s, t in (("d", "double"), ("f", "float"))})
OLD = {"vec%d%s" % (n, s): "Vector< %d, %s >" % (n, t) for n in (2, 3, 4) for s, t in (("d", "double"), ("f", "float"))}
OLD.update({"mat%d%s" % (n, s): "Matrix< %d, %d, %s >" % (n, n, t) for n in (3, 4) for s, t in (("d", "double"), ("f", "float"))})
OLD.update({"%s%s" % (c, s): "%s< %s >" % (k, t) for c, k in (("quaternion", "Quaternion"), ("frustum", "Frustum"), ("frustum_culler", "FrustumCuller")) for s, t in (("d", "double"), ("f", "float"))})
OLD.update({"vector< 5, short >": "Vector< 5, short >", "matrix< 2, 3, int >": "Matrix< 2, 3, int >", "matrix< 2, 3 >": "Matrix< 2, 3, float >", "quaternion< long double >": "Quaternion< long double >",
            "frustum< long double >": "Frustum< long double >", "frustum_culler< long double >": "FrustumCuller< long double >", "intersection< double >": "Intersection< double >",
            "lowpass_filter< 4, double >": "LowpassFilter< 4, double >"})
# what the class templates say of themselves
MEMBERS = {"Vector< 3, double >::value_type": "double", "Vector< 3, double >::iterator": "double*", "Vector< 3, double >::const_iterator": "const double*",
           "Vector< 3, double >::reverse_iterator": "std::reverse_iterator< double* >", "Vector< 3, double >::const_reverse_iterator": "std::reverse_iterator< const double* >",
           "Matrix< 2, 3, int >::value_type": "int", "Matrix< 2, 3, int >::iterator": "int*", "Matrix< 2, 3, int >::const_iterator": "const int*",
           "Matrix< 2, 3, int >::reverse_iterator": "std::reverse_iterator< int* >", "Matrix< 2, 3, int >::const_reverse_iterator": "std::reverse_iterator< const int* >",
           "Quaternion< double >::super": "Vector< 4, double >", "FrustumCuller< double >::vec2": "Vector< 2, double >", "FrustumCuller< double >::vec3": "Vector< 3, double >", "FrustumCuller< double >::vec4": "Vector< 4, double >",
           "Intersection< double >::vec3": "Vector< 3, double >", "Intersection< double >::vec4": "Vector< 4, double >"}

def same(a, b): return "static_assert( std::is_same< vmml::%s, %s >::value, \"\" );" % (a, ("vmml::" if "<" in b and "std::" not in b else "") + b)

def cases(th=False):
    L = []
    def C(prop, title, params, body, expect=None, **k):
        L.append(Case(prop, "Names: " + title, params, body, expect, **k))
    for d, what in ((NEW, "is"), (MEMBERS, "is")):
        for a, b in d.items(): C("C27", "%s %s %s" % (a, what, b), [], same(a, b), only="compile")
    for k, v in (("Vector< 5, float >::DIMENSION", 5), ("Matrix< 2, 3, int >::ROWS", 2), ("Matrix< 2, 3, int >::COLS", 3)):
        C("C27", "%s = %d" % (k, v), [], "static_assert( vmml::%s == %d, \"\" );" % (k, v), only="compile")
    for m, t in ((1, "d"), (3, "d"), (4, "f"), (7, "i"), (2, "ub")):
        ct = ELEM[t][0]; n = "<%d,%s>" % (m, ct); TR = "boost::la::vector_traits< Vector< %d, %s > >" % (m, ct)
        C(["C27"], "vector_traits %s" % n, [], "static_assert( %s::dim == %d && std::is_same< %s::scalar_type, %s >::value, \"\" );" % (TR, m, TR, ct), only="compile")
        for i in range(m):
            C(["C03", "C27"], "vector_traits::r<%d> %s" % (i, n), [sca("r", t, "undef"), vec("a", m, t, const=True)], "r = %s::r< %d >( a );" % (TR, i), lambda v, i=i: dict(r=v["a"][i] if len(v["a"]) > 1 else lst(v["a"])[0]))
            C(["C03", "C27"], "vector_traits::w<%d> %s" % (i, n), [vec("a", m, t), sca("s", t, const=True)], "%s::w< %d >( a ) = s;" % (TR, i), lambda v, i=i: dict(a=[v["s"] if k == i else x for k, x in enumerate(lst(v["a"]))]))
            C(["C03", "C27"], "vector_traits::ir( %d ) %s" % (i, n), [sca("r", t, "undef"), vec("a", m, t, const=True)], "r = %s::ir( %d, a );" % (TR, i), lambda v, i=i: dict(r=lst(v["a"])[i]))
            C(["C03", "C27"], "vector_traits::iw( %d ) %s" % (i, n), [vec("a", m, t), sca("s", t, const=True)], "%s::iw( %d, a ) = s;" % (TR, i), lambda v, i=i: dict(a=[v["s"] if k == i else x for k, x in enumerate(lst(v["a"]))]))
    for m, k, t in ((1, 1, "d"), (3, 3, "d"), (2, 3, "d"), (4, 2, "f"), (2, 2, "i")):
        ct = ELEM[t][0]; n = "<%d,%d,%s>" % (m, k, ct); TR = "boost::la::matrix_traits< Matrix< %d, %d, %s > >" % (m, k, ct)
        C(["C27"], "matrix_traits %s" % n, [], "static_assert( %s::rows == %d && %s::cols == %d && std::is_same< %s::scalar_type, %s >::value, \"\" );" % (TR, m, TR, k, TR, ct), only="compile")
        for i in range(m):
            for j in range(k):
                g = j * m + i
                C(["C06", "C27"], "matrix_traits::r<%d,%d> %s" % (i, j, n), [sca("r", t, "undef"), mat("a", m, k, t, const=True)], "r = %s::r< %d, %d >( a );" % (TR, i, j), lambda v, g=g: dict(r=lst(v["a"])[g]))
                C(["C06", "C27"], "matrix_traits::w<%d,%d> %s" % (i, j, n), [mat("a", m, k, t), sca("s", t, const=True)], "%s::w< %d, %d >( a ) = s;" % (TR, i, j), lambda v, g=g: dict(a=[v["s"] if q == g else x for q, x in enumerate(lst(v["a"]))]))
                C(["C06", "C27"], "matrix_traits::ir( %d, %d ) %s" % (i, j, n), [sca("r", t, "undef"), mat("a", m, k, t, const=True)], "r = %s::ir( %d, %d, a );" % (TR, i, j), lambda v, g=g: dict(r=lst(v["a"])[g]))
                C(["C06", "C27"], "matrix_traits::iw( %d, %d ) %s" % (i, j, n), [mat("a", m, k, t), sca("s", t, const=True)], "%s::iw( %d, %d, a ) = s;" % (TR, i, j), lambda v, g=g: dict(a=[v["s"] if q == g else x for q, x in enumerate(lst(v["a"]))]))
    for t in ("d", "f", "ld", "i"):
        ct = ELEM[t][0]
        C(["C03", "C27"], "from another library's vector <3,%s>" % ct, [vec("r", 3, t, "undef"), P("a", "OtherVec3< %s >" % ct, t, 3, "sym", True)], "r = Vector< 3, %s >( a );" % ct, lambda v: dict(r=lst(v["a"])))
    return L
