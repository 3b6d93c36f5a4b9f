"""matrix.hpp: layout, element access, construction, equality, extrema, IO."""
from .driver import *
from .streams import *
from .val import *
from .c_vector import FT, IT, post_extremum

HEADERS = ["vmmlib/matrix.hpp"]
SHAPES = [(1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (1, 4), (4, 1), (3, 5)]

def grid(th):
    q = [(s, "d") for s in SHAPES] + [((3, 3), "f"), ((4, 4), "f"), ((2, 3), "i"), ((3, 2), "ub"), ((2, 4), "ld"), ((5, 5), "d"), ((6, 4), "d"), ((7, 7), "d"), ((17, 16), "d"), ((260, 1), "f"), ((1, 260), "f"), ((3, 3), "s"), ((2, 2), "l"), ((2, 3), "sb"), ((1, 1), "f"), ((2, 2), "us")]
    if th: q += [((m, n), "d") for m in range(1, 6) for n in range(1, 6) if (m, n) not in SHAPES] + [((7, 2), "d"), ((2, 7), "d")] + \
                [(s, t) for s in ((1, 1), (2, 2), (3, 2), (4, 3)) for t in ("f", "ld", "i", "u", "s", "ub") if (s, t) not in q]
    return q

def mt(s, t): return "Matrix<%d,%d,%s>" % (s[0], s[1], ELEM[t][0])
def R(v, n, s): return rows(lst(v[n]), *s)
def rect(s): return [(i, j) for i in range(s[0]) for j in range(s[1])]

def cases(th=False):
    L = []
    def C(prop, title, params, body, expect=None, **k):
        L.append(Case(prop, "Matrix: " + title, params, body, expect, **k))
    # ------------------------------------------------------------- C06 access paths
    for s, t in grid(th):
        m, n = s; e = ELEM[t][0]; M = mt(s, t); tag = "<%d,%d,%s>" % (m, n, e)
        r, a, x = mat("r", m, n, t, "undef"), mat("a", m, n, t, const=True), sca("s", t, const=True)
        am, old = mat("a", m, n, t), mat("r", m, n, t)
        cells = rect(s); N = m * n
        same = lambda v: dict(r=v["a"])
        put = lambda v, i, j, y, m=m: [y if k == j * m + i else z for k, z in enumerate(lst(v["a"]))]
        for nm, ex in (("at", "a.at( %d, %d )"), ("()", "a( %d, %d )"), ("[][]", "a[ %d ][ %d ]"), ("size_t [][]", "a[ size_t( %d ) ][ size_t( %d ) ]")):
            for cst in (True, False):
                if cst and "[" in nm: continue
                C("C06", "read through %s%s %s" % (nm, " const" if cst else "", tag), [r, mat("a", m, n, t, const=cst)],
                  " ".join("r.array[ %d ] = %s;" % (j * m + i, ex % (i, j)) for i, j in cells), same)
            for i, j in sorted({(0, 0), (m - 1, 0), (0, n - 1), (m - 1, n - 1), (m // 2, n // 2)}):
                C("C06", "write (%d,%d) through %s %s" % (i, j, nm, tag), [am, x], (ex % (i, j)) + " = s;", lambda v, i=i, j=j, put=put: dict(a=put(v, i, j, v["s"])))
        C("C06", "read through a const row %s" % tag, [r, am],
          " ".join("{ const %s::row_accessor q = a[ %d ]; r.array[ %d ] = q[ %d ]; }" % (M, i, j * m + i, j) for i, j in cells), same)
        C("C06", "element (i,j) is begin()[j*rows+i] %s" % tag, [r, a], "for( size_t k = 0; k < %d; ++k ) r.array[ k ] = a.begin()[ k ];" % N, same)
        C("C06", "iterate const %s" % tag, [r, a], "size_t k = 0; for( %s::const_iterator i = a.begin(); i != a.end(); ++i ) r.array[ k++ ] = *i;" % M, same)
        C("C06", "iterate mutable %s" % tag, [old, x], "for( %s::iterator i = r.begin(); i != r.end(); ++i ) *i = s;" % M, lambda v, N=N: dict(r=[v["s"]] * N))
        C(["C06", "C27"], "iterate reverse const %s" % tag, [r, a], "size_t k = 0; for( %s::const_reverse_iterator i = a.rbegin(); i != a.rend(); ++i ) r.array[ k++ ] = *i;" % M, lambda v: dict(r=lst(v["a"])[::-1]))
        C(["C06", "C27"], "iterate reverse mutable %s" % tag, [old, arr("a", N, t, const=True)], "size_t k = 0; for( %s::reverse_iterator i = r.rbegin(); i != r.rend(); ++i ) *i = a.a[ k++ ];" % M, lambda v: dict(r=lst(v["a"])[::-1]))
        C("C06", "conversion to pointer %s" % tag, [r, a], "const %s* p = a; for( size_t k = 0; k < %d; ++k ) r.array[ k ] = p[ k ];" % (e, N), same)
        C("C06", "conversion to mutable pointer %s" % tag, [am, x], "%s* p = a; p[ %d ] = s;" % (e, N - 1), lambda v, N=N: dict(a=lst(v["a"])[:N - 1] + [v["s"]]))
        C("C06", "sizes %s" % tag, [sca("p", "sz", "undef"), sca("q", "sz", "undef"), sca("z", "sz", "undef"), sca("u", "sz", "undef"), sca("w", "sz", "undef"), a],
          "p = a.get_number_of_rows(); q = a.get_number_of_columns(); z = a.size(); const size_t R = %s::ROWS, K = %s::COLS; u = R; w = K;" % (M, M),
          lambda v, m=m, n=n: dict(p=I(m, 64), q=I(n, 64), z=I(m * n, 64), u=I(m, 64), w=I(n, 64)))
        if s == (4, 4):
            C("C06", "x() y() z() are the translation column %s" % tag, [am, sca("p", t, const=True), sca("q", t, const=True), x], "a.x() = p; a.y() = q; a.z() = s;",
              lambda v: dict(a=v["a"][:12] + [v["p"], v["q"], v["s"]] + v["a"][15:]))
            C("C06", "read x() y() z() %s" % tag, [vec("r", 3, t, "undef"), am], "r.array[ 0 ] = a.x(); r.array[ 1 ] = a.y(); r.array[ 2 ] = a.z();", lambda v: dict(r=v["a"][12:15]))
        # construction / assignment
        C("C06", "default construction %s" % tag, [r], "::new( (void*)&r ) %s();" % M, lambda v, m=m, n=n: dict(r=[int(m == n and i == j) for j in range(n) for i in range(m)]))
        C("C06", "copy construction %s" % tag, [r, a], "::new( (void*)&r ) %s( a );" % M, same)
        C("C06", "copy assignment %s" % tag, [r, a], "r = a;", same)
        C("C06", "self assignment %s" % tag, [am], "a = a;", lambda v: dict(a=v["a"]))
        C("C06", "copy assignment chains %s" % tag, [r, mat("q", m, n, t, "undef"), a], "q = ( r = a );", lambda v: dict(r=v["a"], q=v["a"]))
        filled = lambda v, N=N: dict(r=[v["s"]] * N)
        C("C06", "fill %s" % tag, [r, x], "r.fill( s );", filled)
        C("C06", "assign a scalar %s" % tag, [r, x], "r = s;", filled)
        C("C06", "zero %s" % tag, [r], "r.zero();", lambda v, N=N: dict(r=[0] * N))
        C("C06", "constant ZERO %s" % tag, [r], "r = %s::ZERO;" % M, lambda v, N=N: dict(r=[0] * N))
        if m == n:
            C("C06", "constant IDENTITY %s" % tag, [r], "r = %s::IDENTITY;" % M, lambda v, m=m: dict(r=flat(ident(m))))
            C("C06", "identity() %s" % tag, [old], "identity( r );", lambda v, m=m: dict(r=flat(ident(m))))
        rm = lambda v, s=s: dict(r=flat([[lst(v["a"])[i * s[1] + j] for j in range(s[1])] for i in range(s[0])]))
        C("C06", "assign a row-major array %s" % tag, [r, arr("a", N, t, const=True)], "r = static_cast< const %s* >( a.a );" % e, rm)
        C("C06", "assign a 2D array %s" % tag, [r, arr("a", N, t, const=True)], "r = *reinterpret_cast< const %s(*)[ %d ][ %d ] >( a.a );" % (e, m, n), rm)
        C(["C06", "C31"], "assign a std::vector %s" % tag, [r, arr("a", N, t, const=True)], "std::vector< %s > w( a.a, a.a + %d ); r = w;" % (e, N), rm)
        C(["C06", "C31"], "assign a longer std::vector %s" % tag, [r, arr("a", N + 2, t, const=True)], "std::vector< %s > w( a.a, a.a + %d ); r = w;" % (e, N + 2), rm)
        C(["C34", "C23", "C31"], "assign a too short std::vector %s" % tag, [old, arr("a", N, t, const=True)], "std::vector< %s > w( a.a, a.a + %d ); r = w;" % (e, N - 1), throws=1, unwind=True)
        C("C06", "set row-major %s" % tag, [r, arr("a", N, t, const=True)], "r.set( a.a, a.a + %d );" % N, rm)
        C("C06", "set column-major %s" % tag, [r, arr("a", N, t, const=True)], "r.set( a.a, a.a + %d, false );" % N, lambda v: dict(r=lst(v["a"])))
        if n > 1 or m > 1:
            for k in sorted({1, N - 1, n, m}):
                if k >= N: continue
                def part(v, s=s, k=k):
                    o = R(v, "r", s)
                    for q in range(k): o[q // s[1]][q % s[1]] = lst(v["a"])[q]
                    return dict(r=flat(o))
                C(["C06", "C22"], "set row-major from %d elements %s" % (k, tag), [old, arr("a", k, t, const=True)], "r.set( a.a, a.a + %d );" % k, part)
                C(["C06", "C22"], "set column-major from %d elements %s" % (k, tag), [old, arr("a", k, t, const=True)], "r.set( a.a, a.a + %d, false );" % k,
                  lambda v, k=k: dict(r=lst(v["a"]) + lst(v["r"])[k:]))
            C(["C06", "C22"], "set from an empty range %s" % tag, [old, arr("a", 1, t, const=True)], "r.set( a.a, a.a );", lambda v: dict(r=v["r"]))
        C(["C06", "C22"], "set from a longer range %s" % tag, [old, arr("a", N + 3, t, const=True)], "r.set( a.a, a.a + %d );" % (N + 3), rm)
        C(["C06", "C22"], "set column-major from a longer range %s" % tag, [old, arr("a", N + 3, t, const=True)], "r.set( a.a, a.a + %d, false );" % (N + 3), lambda v, N=N: dict(r=lst(v["a"])[:N]))
        C(["C06", "C31"], "set from a list %s" % tag, [r, arr("a", N, t, const=True)], "std::list< %s > w( a.a, a.a + %d ); r.set( w.begin(), w.end() );" % (e, N), rm)
        # shape conversion
        for P_, Q_ in {(m, n + 1), (m + 1, n), (m + 1, n + 2), (max(1, m - 1), n), (m, max(1, n - 1)), (max(1, m - 1), n + 1), (m + 2, max(1, n - 1))}:
            if (P_, Q_) == s: continue
            fit = lambda v, s=s, p=P_, q=Q_: dict(r=flat([[R(v, "a", (p, q))[i][j] if i < p and j < q else 0 for j in range(s[1])] for i in range(s[0])]))
            C("C06", "construct from %dx%d %s" % (P_, Q_, tag), [r, mat("a", P_, Q_, t, const=True)], "::new( (void*)&r ) %s( a );" % M, fit)
            C("C06", "assign from %dx%d %s" % (P_, Q_, tag), [old, mat("a", P_, Q_, t, const=True)], "r = a;", fit)
        # transpose, rows, columns, blocks
        tr = lambda v, s=s: dict(r=flat(transp(R(v, "a", s))))
        C("C06", "transpose %s" % tag, [mat("r", n, m, t, "undef"), a], "r = transpose( a );", tr)
        C("C06", "transpose_to %s" % tag, [mat("r", n, m, t, "undef"), a], "a.transpose_to( r );", tr)
        for j in sorted({0, n - 1, n // 2}):
            col = lambda v, j=j, m=m: dict(r=lst(v["a"])[j * m:j * m + m])
            C("C06", "get_column(%d) %s" % (j, tag), [vec("r", m, t, "undef"), a], "r = a.get_column( %d );" % j, col)
            C("C06", "get_column(%d) into vector %s" % (j, tag), [vec("r", m, t, "undef"), a], "a.get_column( %d, r );" % j, col)
            C("C06", "get_column(%d) into matrix %s" % (j, tag), [mat("r", m, 1, t, "undef"), a], "a.get_column( %d, r );" % j, col)
            scol = lambda v, j=j, m=m: dict(a=lst(v["a"])[:j * m] + lst(v["c"]) + lst(v["a"])[j * m + m:])
            C("C06", "set_column(%d) from vector %s" % (j, tag), [am, vec("c", m, t, const=True)], "a.set_column( %d, c );" % j, scol)
            C("C06", "set_column(%d) from matrix %s" % (j, tag), [am, mat("c", m, 1, t, const=True)], "a.set_column( %d, c );" % j, scol)
        for i in sorted({0, m - 1, m // 2}):
            row = lambda v, i=i, s=s: dict(r=R(v, "a", s)[i])
            C("C06", "get_row(%d) %s" % (i, tag), [vec("r", n, t, "undef"), a], "r = a.get_row( %d );" % i, row)
            C("C06", "get_row(%d) into vector %s" % (i, tag), [vec("r", n, t, "undef"), a], "a.get_row( %d, r );" % i, row)
            C("C06", "get_row(%d) into matrix %s" % (i, tag), [mat("r", 1, n, t, "undef"), a], "a.get_row( %d, r );" % i, row)
            srow = lambda v, i=i, s=s: dict(a=flat([lst(v["c"]) if k == i else q for k, q in enumerate(R(v, "a", s))]))
            C("C06", "set_row(%d) from vector %s" % (i, tag), [am, vec("c", n, t, const=True)], "a.set_row( %d, c );" % i, srow)
            C("C06", "set_row(%d) from matrix %s" % (i, tag), [am, mat("c", 1, n, t, const=True)], "a.set_row( %d, c );" % i, srow)
        for O, K in sorted({(1, 1), (m, n), (max(1, m - 1), max(1, n - 1)), (m, 1), (1, n), (max(1, m - 1), n)}):
            for ro, co in sorted({(0, 0), (m - O, n - K), (0, n - K), (m - O, 0)}):
                sub = lambda v, s=s, O=O, K=K, ro=ro, co=co: dict(r=flat([q[co:co + K] for q in R(v, "a", s)[ro:ro + O]]))
                C("C06", "get_sub_matrix<%d,%d>(%d,%d) %s" % (O, K, ro, co, tag), [mat("r", O, K, t, "undef"), a], "r = a.template get_sub_matrix< %d, %d >( %d, %d );" % (O, K, ro, co), sub)
                C("C06", "get_sub_matrix(%dx%d,%d,%d) %s" % (O, K, ro, co, tag), [mat("r", O, K, t, "undef"), a], "a.get_sub_matrix( r, %d, %d );" % (ro, co), sub)
                def ssub(v, s=s, O=O, K=K, ro=ro, co=co):
                    o = R(v, "a", s); b = R(v, "b", (O, K))
                    for i, j in rect((O, K)): o[ro + i][co + j] = b[i][j]
                    return dict(a=flat(o))
                C("C06", "set_sub_matrix(%dx%d,%d,%d) %s" % (O, K, ro, co, tag), [am, mat("b", O, K, t, const=True)], "a.set_sub_matrix( b, %d, %d );" % (ro, co), ssub)
                if (ro, co) == (0, 0):
                    C("C06", "get_sub_matrix(%dx%d) defaults to the origin %s" % (O, K, tag), [mat("r", O, K, t, "undef"), a], "a.get_sub_matrix( r );", sub)
                    C("C06", "set_sub_matrix(%dx%d) defaults to the origin %s" % (O, K, tag), [am, mat("b", O, K, t, const=True)], "a.set_sub_matrix( b );", ssub)
        # ------------------------------------------------------------- C23
        if s in ((1, 1), (2, 2), (2, 3), (3, 2), (4, 4), (1, 4)) and t not in ("sb", "us") or th:
            big = [(2**32, 2**32)]
            ci = [(k, k) for k in range(m)] + [(m, m), (m + 1, 2**63), (2**63 + 1, 2**64 - 1)]
            cj = [(k, k) for k in range(n)] + [(n, n), (n + 1, 2**63), (2**63 + 1, 2**64 - 1)]
            bad = lambda v, c, m=m, n=n: c["i"][0] >= m or c["j"][0] >= n
            ok = lambda c, m=m, n=n: c["i"][0] < m and c["j"][0] < n
            ij = [idx("i", ci), idx("j", cj)]
            def elem(v, c, m=m, ok=ok): return dict(r=lst(v["a"])[c["j"][0] * m + c["i"][0]]) if ok(c) else None
            for nm, ex in (("at", "a.at( i, j )"), ("()", "a( i, j )"), ("[][]", "a[ i ][ j ]")):
                for cst in (True, False):
                    if cst and "[" in nm: continue
                    C("C23", "%s%s %s" % (nm, " const" if cst else "", tag), [sca("r", t, "undef"), mat("a", m, n, t, const=cst)] + ij, "r = %s;" % ex, elem, throws=bad)
                C("C23", "write %s %s" % (nm, tag), [am] + ij + [x], "%s = s;" % ex, lambda v, c, put=put, ok=ok: dict(a=put(v, c["i"][0], c["j"][0], v["s"])) if ok(c) else None, throws=bad)
            C("C23", "const row [] %s" % tag, [sca("r", t, "undef"), am] + ij, "const %s::row_accessor q = a[ i ]; r = q[ j ];" % M, elem, throws=bad)
            for kind, dim, cl in (("column", m, cj), ("row", n, ci)):
                lim = n if kind == "column" else m
                get = (lambda v, c, m=m: lst(v["a"])[c["i"][0] * m:c["i"][0] * m + m]) if kind == "column" else (lambda v, c, s=s: R(v, "a", s)[c["i"][0]])
                res = lambda v, c, get=get, lim=lim: dict(r=get(v, c)) if c["i"][0] < lim else None
                oob = lambda v, c, lim=lim: c["i"][0] >= lim
                vt, m1 = vec("r", dim, t, "undef"), (mat("r", m, 1, t, "undef") if kind == "column" else mat("r", 1, n, t, "undef"))
                vs, ms = vec("r", dim, t), (mat("r", m, 1, t) if kind == "column" else mat("r", 1, n, t))
                C("C23", "get_%s %s" % (kind, tag), [vt, a, idx("i", cl)], "r = a.get_%s( i );" % kind, res, throws=oob)
                C("C23", "get_%s into vector %s" % (kind, tag), [vs, a, idx("i", cl)], "a.get_%s( i, r );" % kind, res, throws=oob)
                C("C23", "get_%s into matrix %s" % (kind, tag), [ms, a, idx("i", cl)], "a.get_%s( i, r );" % kind, res, throws=oob)
                def setx(v, c, kind=kind, lim=lim, s=s):
                    k = c["i"][0]
                    if k >= lim: return None
                    if kind == "row": return dict(a=flat([lst(v["c"]) if q == k else y for q, y in enumerate(R(v, "a", s))]))
                    return dict(a=lst(v["a"])[:k * s[0]] + lst(v["c"]) + lst(v["a"])[k * s[0] + s[0]:])
                C("C23", "set_%s from vector %s" % (kind, tag), [am, vec("c", dim, t, const=True), idx("i", cl)], "a.set_%s( i, c );" % kind, setx, throws=oob)
                C("C23", "set_%s from matrix %s" % (kind, tag), [am, (mat("c", m, 1, t, const=True) if kind == "column" else mat("c", 1, n, t, const=True)), idx("i", cl)], "a.set_%s( i, c );" % kind, setx, throws=oob)
            for O, K in sorted({(1, 1), (max(1, m - 1), max(1, n - 1)), (m, 1), (m, n)}):
                cls = lambda k: [(q, q) for q in range(k + 1)] + [(k + 1, k + 1), (k + 2, 2**63), (2**63 + 1, 2**64 - 1 - 8)] + [(q, q) for q in range(2**64 - 8, 2**64)][::-1][:6]
                if m * n > 6 and not th: cls = lambda k: [(q, q) for q in range(k + 1)] + [(k + 1, k + 1), (k + 2, 2**63), (2**64 - 1, 2**64 - 1), (2**64 - 2, 2**64 - 2)]
                two = [idx("i", cls(m - O)), idx("j", cls(n - K))]
                bad2 = lambda v, c, s=s, O=O, K=K: c["i"][0] > s[0] - O or c["j"][0] > s[1] - K
                def sub(v, c, s=s, O=O, K=K, bad2=bad2):
                    if bad2(v, c): return None
                    i, j = c["i"][0], c["j"][0]
                    return dict(r=flat([q[j:j + K] for q in R(v, "a", s)[i:i + O]]))
                C("C23", "get_sub_matrix<%d,%d> %s" % (O, K, tag), [mat("r", O, K, t, "undef"), a] + two, "r = a.template get_sub_matrix< %d, %d >( i, j );" % (O, K), sub, throws=bad2)
                C("C23", "get_sub_matrix(%dx%d) %s" % (O, K, tag), [mat("r", O, K, t), a] + two, "a.get_sub_matrix( r, i, j );", sub, throws=bad2)
                def ssub(v, c, s=s, O=O, K=K, bad2=bad2):
                    if bad2(v, c): return None
                    o = R(v, "a", s); b = R(v, "b", (O, K))
                    for i, j in rect((O, K)): o[c["i"][0] + i][c["j"][0] + j] = b[i][j]
                    return dict(a=flat(o))
                C("C23", "set_sub_matrix(%dx%d) %s" % (O, K, tag), [am, mat("b", O, K, t, const=True)] + two, "a.set_sub_matrix( b, i, j );", ssub, throws=bad2)
        # ------------------------------------------------------------- C04
        if N <= 9 or th:
            ab = [sca("r", "i", "undef"), a, mat("b", m, n, t, const=True)]
            E = lambda v: all_([p.eq(q) for p, q in zip(lst(v["a"]), lst(v["b"]))])
            yes = lambda f: (lambda v: dict(r=where(f(v), I(1), I(0))))
            C("C04", "== %s" % tag, ab, "r = a == b;", yes(E))
            C("C04", "!= %s" % tag, ab, "r = a != b;", yes(lambda v, E=E: ~E(v)))
            if t in FT:
                for k in sorted({0, N // 2, N - 1}):
                    for q in (0, 1):
                        two = [ab[0], nan_at(ab[1], k) if q != 1 else ab[1], nan_at(ab[2], k) if q != 0 else ab[2]]
                        C("C04", "== with element %d of %s not a number %s" % (k, "ab"[q], tag), two, "r = a == b;", lambda v: dict(r=I(0)))
                        C("C04", "!= with element %d of %s not a number %s" % (k, "ab"[q], tag), two, "r = a != b;", lambda v: dict(r=I(1)))
                    C("C04", "a == a with element %d not a number %s" % (k, tag), [ab[0], nan_at(ab[1], k)], "r = a == a;", lambda v: dict(r=I(0)))
            C("C04", "a == a %s" % tag, [sca("r", "i", "undef"), a], "r = a == a;", lambda v: dict(r=I(1)))
            if N <= 4 and t in FT:
                near = lambda v, tol: all_([absv(p - q) <= tol for p, q in zip(lst(v["a"]), lst(v["b"]))])
                C("C04", "equals( b, tol ) %s" % tag, ab + [sca("tol", t, const=True)], "r = a.equals( b, tol );", yes(lambda v, near=near: near(v, v["tol"])), facts=lambda v: [(v["tol"] >= 0).v])
                C("C04", "free equals %s" % tag, ab, "r = vmml::equals( a, b );", yes(lambda v, near=near, t=t: near(v, feps(t))))
                C("C04", "free equals( tol ) %s" % tag, ab + [sca("tol", t, const=True)], "r = vmml::equals( a, b, tol );", yes(lambda v, near=near: near(v, v["tol"])), facts=lambda v: [(v["tol"] >= 0).v])
            if N <= 6:
                C("C04", "equals( b, functor ) %s" % tag, ab, "struct { bool operator()( %s p, %s q ) { return p < q; } } f; r = a.equals( b, f );" % (e, e),
                  yes(lambda v: all_([p < q for p, q in zip(lst(v["a"]), lst(v["b"]))])))
        # ------------------------------------------------------------- C05
        if N <= 4 or th and N <= 6:
            q, k = sca("r", t, "undef"), sca("k", "sz", "undef")
            C("C05", "get_min %s" % tag, [q, a], "r = a.get_min();", lambda v: dict(r=minv(lst(v["a"]))), facts=lambda v, t=t: within(lst(v["a"]), t))
            C("C05", "get_max %s" % tag, [q, a], "r = a.get_max();", lambda v: dict(r=maxv(lst(v["a"]))), facts=lambda v, t=t: within(lst(v["a"]), t))
            if t in FT:
                fac = lambda v, t=t: within(lst(v["a"]), t)
                if N <= 4:
                    C("C05", "get_abs_min %s" % tag, [q, a], "r = a.get_abs_min();", lambda v: dict(r=minv([absv(p) for p in lst(v["a"])])), facts=fac)
                    C("C05", "get_abs_max %s" % tag, [q, a], "r = a.get_abs_max();", lambda v: dict(r=maxv([absv(p) for p in lst(v["a"])])))
                C("C05", "nnz( threshold ) %s" % tag, [k, a, x], "k = a.nnz( s );", lambda v: dict(k=sumv([where(absv(p) > v["s"], I(1, 64), I(0, 64)) for p in lst(v["a"])])), facts=lambda v: [(v["s"] >= 0).v])
                C("C05", "threshold %s" % tag, [am, x], "a.threshold( s );", lambda v: dict(a=[where(absv(p) <= v["s"], 0, p) for p in lst(v["a"])]), facts=lambda v: [(v["s"] >= 0).v])
            C("C05", "nnz %s" % tag, [k, a], "k = a.nnz();", lambda v: dict(k=sumv([where(p.eq(0), I(0, 64), I(1, 64)) for p in lst(v["a"])])))
        # ------------------------------------------------------------- C11
        OS, IS = P("os", "std::ostream", "raw", 1, "stream"), P("is", "std::istream", "raw", 1, "stream")
        rowmajor = lambda v, s=s: [y for q in R(v, "a", s) for y in q]
        if t in ("ub", "sb"): continue
        C("C11", "write_to_stream %s" % tag, [OS, a], "a.write_to_stream( os );", post=outputs("os", rowmajor, t))
        C("C11", "operator<< %s" % tag, [OS, a], "os << a;", post=outputs("os", rowmajor, t))
        C("C25", "operator<< %s" % tag, [OS, a], "os << a;", post=stream_state("os"))
        C("C11", "read_from_stream %s" % tag, [IS, am], "a.read_from_stream( is );", lambda v: dict(a=None), post=inputs("a", N, t, order=[j * m + i for i in range(m) for j in range(n)]))
    # ------------------------------------------------------------- conversions of element type
    for s, t, u in [((2, 3), "d", "f"), ((3, 3), "f", "d"), ((2, 2), "d", "i"), ((3, 2), "i", "d"), ((2, 2), "ub", "f"), ((2, 2), "d", "ld"), ((2, 3), "ld", "f")]:
        m, n = s; tag = "<%d,%d,%s from %s>" % (m, n, t, u); M = mt(s, t)
        cv = lambda v, t=t, u=u: dict(r=[conv(y, t, u) for y in v["a"]])
        C("C06", "cast_from %s" % tag, [mat("r", m, n, t, "undef"), mat("a", m, n, u, const=True)], "r.cast_from( a );", cv)
        C("C06", "converting construction %s" % tag, [mat("r", m, n, t, "undef"), mat("a", m, n, u, const=True)], "::new( (void*)&r ) %s( a );" % M, cv)
        C("C06", "converting assignment %s" % tag, [mat("r", m, n, t, "undef"), mat("a", m, n, u, const=True)], "r = a;", cv)
        C("C06", "set row-major converting %s" % tag, [mat("r", m, n, t, "undef"), arr("a", m * n, u, const=True)], "r.set( a.a, a.a + %d );" % (m * n),
          lambda v, s=s, t=t, u=u: dict(r=flat([[conv(v["a"][i * s[1] + j], t, u) for j in range(s[1])] for i in range(s[0])])))
    return L
