"""intersection.hpp, lowpass_filter.hpp, qr_decomposition.hpp, math.hpp,
matrix_functors.hpp, util.hpp and the file functions of matrix.hpp."""
from .driver import *
from .streams import *
from .val import *
from .c_vector import FT
from .c_aabb import FT_RANK

HEADERS = ["vmmlib/intersection.hpp", "vmmlib/lowpass_filter.hpp", "vmmlib/qr_decomposition.hpp", "vmmlib/math.hpp",
           "vmmlib/matrix_functors.hpp", "vmmlib/util.hpp"]

def OS(): return P("os", "std::ostream", "raw", 1, "stream")
def one(c): return where(c, V(1, 8), V(0, 8))

def cases(th=False):
    L = []
    def C(prop, title, params, body, expect=None, **k):
        L.append(Case(prop, title, params, body, expect, **k))
    file_cases(C, th)
    # ------------------------------------------------------------- C44
    def says(what):
        def post(case, e, st, ptrs, env, facts):
            # (text the analysis cannot follow is not judged)
            x = e.load(st, Ptr(ptrs["r"].obj, 0), "i8")
            yield None, what, not (isinstance(x, int) and x != 1), "the message does not contain it", case.body
            gone = [ev for ev in e.events if ev["kind"] in ("uaf", "null", "uninit")]
            yield None, "the text lives as long as the exception", not gone, "what() returns text that is gone: %s" % (gone[:1] and gone[0]["detail"],), case.body
        return post
    for kind, desc, file, line in (("short", "some text", "dir/file.hpp", 4711), ("long", '%s\\n\\tat %% \\"it\\"' % ("some text " * 300), "%s/file.hpp" % "/".join(["directory"] * 60), 2147483647), ("small", "x", "f", 1)):
        X_ = 'vmml::exception x( std::string( "%s" ), vmml::except_here( "%s", %d )); ' % (desc, file, line)
        for what, y in (("the description", '"%s"' % desc), ("the file", '"%s"' % file), ("the line", '"%d"' % line)):
            C("C44", "exception: what() contains %s (%s)" % (what, kind), [sca("r", "b", "undef")], X_ + 'const std::exception& y = x; const std::string s( y.what( )); r = s.find( %s ) != std::string::npos;' % y, lambda v: dict(r=None), post=says(what), tags=("message",))
    C("C44", "exception: a copy says the same", [sca("r", "b", "undef")], X_.replace('"x"', '"some text"') + 'std::string s; { const vmml::exception y( x ); s = y.what(); } r = s == x.what();', lambda v: dict(r=None), post=says("the text"), tags=("message",))
    C("C44", "exception: error_noexcept says what and where", [sca("r", "b", "undef")], 'vmml::error_noexcept( std::string( "some text" ), vmml::except_here( "file.hpp", 4711 ));', None, throws=1, tags=("message",), effects=("writes to",))
    for t in FT:
        e = ELEM[t][0]; tag = "<%s>" % e
        # ------------------------------------------------------------- C20
        ray = [vec("o", 3, t, const=True), vec("d", 3, t, const=True), vec("s", 4, t, const=True)]
        res = [sca("r", "b", "undef"), sca("t", t)]
        I_ = "Intersection<%s> x( o, d ); " % e
        def hit(v):
            u = unit(v["d"]); cv = vsub(v["s"][:3], v["o"])
            p = dotv(cv, u); d2 = dotv(cv, cv); r2 = v["s"][3] * v["s"][3]
            h2 = d2 - p * p
            outside = d2 > r2
            miss = ((p < 0) & outside) | (h2 > r2)
            q = sqrt(r2 - h2)
            return dict(r=where(miss, V(0, 8), V(1, 8)), t=where(miss, v["t"], where(outside, p - q, p + q)))
        C("C20", "Intersection: test_sphere %s" % tag, res + ray, I_ + "r = x.test_sphere( s, t );", hit)
        C("C20", "Intersection: the ray is copied %s" % tag, res + [vec("o", 3, t), vec("d", 3, t), vec("s", 4, t, const=True)], I_ + "o = 9; d = 9; r = x.test_sphere( s, t );", lambda v, hit=hit: dict(hit(v), o=[9] * 3, d=[9] * 3))
        # the point reported lies on the sphere, and is the nearest one ahead:
        # with origin on the first axis and the direction along it
        axis = "Intersection<%s> x( Vector<3,%s>( a, 0, 0 ), Vector<3,%s>( 1, 0, 0 )); t = 0; r = x.test_sphere( s, t ); q = r ? ( t + a - s.x() ) * ( t + a - s.x() ) + s.y() * s.y() + s.z() * s.z() - s.w() * s.w() : 0;" % (e, e, e)
        C("C20", "Intersection: the hit lies on the sphere %s" % tag, [sca("r", "b", "undef"), sca("t", t, "undef"), sca("q", t, "undef"), sca("a", t, const=True), vec("s", 4, t, const=True)], axis,
          lambda v: dict(q=0, r=None, t=None))
        near = "Intersection<%s> x( Vector<3,%s>( a, 0, 0 ), Vector<3,%s>( 1, 0, 0 )); t = 0; r = true; if( x.test_sphere( s, t )) { q = t - ( s.x() - a ); r = ( s.x() - a ) * ( s.x() - a ) + s.y() * s.y() + s.z() * s.z() > s.w() * s.w() ? q <= 0 : q >= 0; }" % (e, e, e)
        C("C20", "Intersection: the nearest hit ahead %s" % tag, [sca("r", "b", "undef"), sca("t", t, "undef"), sca("q", t, "undef"), sca("a", t, const=True), vec("s", 4, t, const=True)], near,
          lambda v: dict(r=V(1, 8), t=None, q=None))
        # ------------------------------------------------------------- C35
        # three columns: the leading ones are triangular
        def echelon(m, n):
            def f(env):
                return [V(0) if j < n - 1 and i > j else V(alg.cell("a%d" % (j * m + i))) for j in range(n) for i in range(m)]
            return f
        # more columns: a reflection (of rational elements) of an upper triangular matrix
        def reflected(m, n):
            def f(env):
                w = [1 if i % 2 else -2 for i in range(m)]; s = sum(x * x for x in w)
                H = [[V(Fraction(int(i == k) * s - 2 * w[i] * w[k], s)) for k in range(m)] for i in range(m)]
                U = [[V(0) if i > j else V(alg.cell("a%d" % (j * m + i))) for j in range(n)] for i in range(m)]
                return [sumv([H[i][k] * U[k][j] for k in range(m)]) for j in range(n) for i in range(m)]
            return f
        for m, n, kind in ((1, 1, 0), (2, 1, 0), (2, 2, 0), (3, 1, 0), (3, 2, 0), (3, 3, 1), (4, 3, 1), (4, 4, 1), (5, 5, 1), (3, 3, 2), (4, 4, 2), (5, 5, 2), (7, 6, 1)) + (((4, 2, 0), (5, 1, 0), (5, 2, 0), (6, 5, 2), (6, 6, 2), (8, 7, 1)) if th else ()):
            g = "qr_decompose_gram_schmidt( a, q, r ); "
            ps = [mat("q", m, m, t, "undef"), mat("r", n, n, t, "undef"), mat("a", m, n, t, ("sym", echelon(m, n), reflected(m, n))[kind], const=True)]
            nz = lambda v, m=m, n=n: rank_facts(v["a"], m, n)
            def prod_(case, e_, st, ptrs, env, facts, m=m, n=n, t=t):
                sz = ELEM[t][2]; irt = ELEM[t][1]
                Q = rows([V(e_.load(st, Ptr(ptrs["q"].obj, i * sz), irt)) for i in range(m * m)], m, m)
                R = rows([V(e_.load(st, Ptr(ptrs["r"].obj, i * sz), irt)) for i in range(n * n)], n, n)
                A = rows(env["a"], m, n)
                for i in range(m):
                    for j in range(n):
                        x = sumv([Q[i][k] * R[k][j] for k in range(n)])
                        dp = diff_path(A[i][j].v, x.v, st.pc, facts, None, 1e-6)
                        yield None, "(QR)(%d,%d) = A(%d,%d)" % (i, j, i, j), dp is None, "(QR)(%d,%d) is %s" % (i, j, short(x.v)), case.body
                for i in range(n):
                    for j in range(i):
                        yield None, "R(%d,%d) = 0" % (i, j), diff_path(alg.const(0), R[i][j].v, st.pc, facts, None, None) is None, "R(%d,%d) is %s" % (i, j, short(R[i][j].v)), case.body
                for i in range(n):
                    for j in range(i + 1):
                        x = sumv([Q[k][i] * Q[k][j] for k in range(m)])
                        dp = diff_path(alg.const(int(i == j)), x.v, st.pc, facts, None, 1e-6)
                        yield None, "columns %d, %d of Q orthonormal" % (i, j), dp is None, "columns %d and %d of Q have the dot product %s" % (i, j, short(x.v)), case.body
            C("C35", "QR: factors of <%d,%d,%s>%s" % (m, n, e, ("", " (last column free)" if n > 3 else "", " (reflected triangle)")[kind]), ps, g, lambda v: dict(q=None, r=None), post=prod_, facts=nz)
        # ------------------------------------------------------------- math.hpp
        r = sca("r", t, "undef"); a, b = sca("a", t, const=True), sca("b", t, const=True)
        C("C02", "math: squared %s" % tag, [r, a], "r = math::squared( a );", lambda v: dict(r=v["a"] * v["a"]))
        C("C02", "math: pythag %s" % tag, [r, sca("s", "b", "undef"), a, b], "%s h = math::pythag( a, b ); r = h * h; s = h >= 0;" % e, lambda v: dict(r=v["a"] * v["a"] + v["b"] * v["b"], s=V(1, 8)))
        C("C02", "math: sign %s" % tag, [r, a, b], "r = math::sign( a, b );", lambda v: dict(r=where(v["b"] >= 0, absv(v["a"]), -absv(v["a"]))))
        C("C05", "math: abs_less %s" % tag, [sca("r", "b", "undef"), a, b], "r = math::abs_less<%s>()( a, b ) != 0;" % e, lambda v: dict(r=one(absv(v["a"]) < absv(v["b"]))))
        C("C05", "math: abs_greater %s" % tag, [sca("r", "b", "undef"), a, b], "r = math::abs_greater<%s>()( a, b ) != 0;" % e, lambda v: dict(r=one(absv(v["a"]) > absv(v["b"]))))
        # ------------------------------------------------------------- util.hpp
        B1 = sca("r", "b", "undef")
        for u in FT:
            if FT_RANK[u] > FT_RANK[t]: continue
            C("C04", "util: equals of %s and %s" % (e, u), [B1, a, sca("b", u, const=True)], "r = equals( a, b );", lambda v: dict(r=one(absv(v["a"] - v["b"]) < FEPS["f"])))
            if u != t: C("C04", "util: equals of %s and %s" % (u, e), [B1, sca("a", u, const=True), b], "r = equals( a, b );", lambda v: dict(r=one(absv(v["a"] - v["b"]) < FEPS["f"])))
        C("C04", "util: equals is reflexive %s" % tag, [B1, a], "r = equals( a, a );", lambda v: dict(r=V(1, 8)))
        # ------------------------------------------------------------- matrix_functors.hpp
        for m, n in ((2, 2), (2, 3), (3, 1), (4, 4)):
            if (m, n) != (2, 2) and t != "d" and not th: continue
            M_ = "Matrix<%d,%d,%s>" % (m, n, e); mt = "<%d,%d,%s>" % (m, n, e)
            A, Bm = mat("a", m, n, t, const=True), mat("b", m, n, t, const=True)
            def lines(v, m=m, n=n, col=False):
                f = (lambda x: transp(rows(x, m, n))) if col else (lambda x: rows(x, m, n))
                return list(zip(f(v["a"]), f(v["b"])))
            for nm, col in (("rows", False), ("columns", True)):
                if m * n <= 6:
                    C("C04", "functors: matrix_equals_allow_inverted_%s %s" % (nm, mt), [B1, A, Bm], "r = matrix_equals_allow_inverted_%s< %s >()( a, b );" % (nm, M_),
                      lambda v, lines=lines, col=col: dict(r=one(all_([all_([x.eq(y) for x, y in zip(p, q)]) | all_([x.eq(-y) for x, y in zip(p, q)]) for p, q in lines(v, col=col)]))))
                    C("C04", "functors: matrix_equals_allow_inverted_%s with tolerance %s" % (nm, mt), [B1, A, Bm, sca("w", t, const=True)], "r = matrix_equals_allow_inverted_%s< %s >()( a, b, w );" % (nm, M_),
                      lambda v, lines=lines, col=col: dict(r=one(all_([all_([absv(x - y) <= v["w"] for x, y in zip(p, q)]) | all_([absv(x + y) <= v["w"] for x, y in zip(p, q)]) for p, q in lines(v, col=col)]))))
                C("C04", "functors: inverted %s equal %s" % (nm, mt), [B1, A], "%s c( a ); for( size_t i = 0; i < %d; ++i ) c.set_%s( i, -a.get_%s( i )); r = matrix_equals_allow_inverted_%s< %s >()( a, c );" % (M_, n if col else m, nm[:-1], nm[:-1], nm, M_),
                  lambda v: dict(r=V(1, 8)))
            C("C08", "functors: set_to_zero %s" % mt, [mat("a", m, n, t)], "set_to_zero_functor< %s >()( a );" % M_, lambda v, k=m * n: dict(a=[0] * k))
            if m == n: C("C08", "functors: set_to_identity %s" % mt, [mat("a", m, n, t)], "set_to_identity_functor< %s >()( a );" % M_, lambda v, n=n: dict(a=flat(ident(n))))
        # ------------------------------------------------------------- C21
        LP = lambda M, T=None: "LowpassFilter<%d,%s >" % (M, T or e)
        def mean(xs, fs, M):
            """xs: newest first"""
            r = xs[0]; w = fs
            for x in xs[1:M]:
                r = r * (1 - w) + x * w; w = w * fs
            return r
        for M in (1, 2, 3, 4, 5, 7) + ((6, 8) if th else ()):
            for k in range(1, 2 * M + 3) if M < 4 else (1, M - 1, M, M + 1, M + 2, 2 * M + 1):
                ps = [sca("r", t, "undef"), sca("f", "f", const=True)] + [sca("x%d" % i, t, const=True) for i in range(k)]
                seq = " ".join("%sl.add( x%d );" % ("r = " if i == k - 1 else "", i) for i in range(k))
                ex = lambda v, k=k, M=M: dict(r=mean([v["x%d" % i] for i in reversed(range(k))], v["f"], M))
                C("C21", "LowpassFilter: %d additions to capacity %d %s" % (k, M, tag), ps, "%s l( f ); %s" % (LP(M), seq), ex)
            k = M + 1
            ps = [sca("f", "f", const=True), sca("g", "f", const=True)] + [sca("x%d" % i, t, const=True) for i in range(k)]
            seq = "%s l( f ); " % LP(M) + " ".join("l.add( x%d );" % i for i in range(k - 1)) + " l.set_smooth_factor( g ); "
            ex = lambda v, k=k, M=M: mean([v["x%d" % i] for i in reversed(range(k))], v["g"], M)
            C("C21", "LowpassFilter: new factor, capacity %d %s" % (M, tag), [sca("r", t, "undef")] + ps, seq + "r = l.add( x%d );" % (k - 1), lambda v, ex=ex: dict(r=ex(v)))
            for n in {M + 2, 2 * M + 1}:
                C("C21", "LowpassFilter: a new factor before each of %d additions, capacity %d %s" % (n, M, tag), [sca("r", t, "undef"), sca("f", "f", const=True)] + [sca("x%d" % i, t, const=True) for i in range(n)] + [sca("f%d" % i, "f", const=True) for i in range(n)],
                  "%s l( f ); " % LP(M) + " ".join("l.set_smooth_factor( f%d ); %sl.add( x%d );" % (i, "r = " if i == n - 1 else "", i) for i in range(n)),
                  lambda v, n=n, M=M: dict(r=mean([v["x%d" % i] for i in reversed(range(n))], v["f%d" % (n - 1)], M)))
            C("C21", "LowpassFilter: assignment copies the window, capacity %d %s" % (M, tag), [arr("r", 2, t, "undef"), sca("f", "f", const=True), sca("g", "f", const=True)] + [sca("x%d" % i, t, const=True) for i in range(3)],
              "%s l( f ), m( g ); l.add( x0 ); m.add( x1 ); m = l; r.a[0] = m.get(); r.a[1] = m.add( x2 );" % LP(M), lambda v, M=M: dict(r=[v["x0"], mean([v["x2"], v["x0"]], v["f"], M)]))
            C("C21", "LowpassFilter: get, capacity %d %s" % (M, tag), [arr("r", 3, t, "undef")] + ps, seq + "l.add( x%d ); r.a[0] = l.get(); r.a[1] = *l; r.a[2] = *l.operator->();" % (k - 1), lambda v, ex=ex: dict(r=[ex(v)] * 3))
            C("C21", "LowpassFilter: factor alone changes nothing, capacity %d %s" % (M, tag), [sca("r", t, "undef")] + ps[:3], "%s l( f ); l.add( x0 ); l.set_smooth_factor( g ); r = l.get();" % LP(M), lambda v: dict(r=v["x0"]))
            C("C21", "LowpassFilter: adding the own value, capacity %d %s" % (M, tag), [sca("r", t, "undef"), sca("f", "f", const=True), sca("x", t, const=True)], "%s l( f ); l.add( x ); l.add( l.get() ); r = l.get();" % LP(M), lambda v: dict(r=v["x"]))
            C("C21", "LowpassFilter: copies are independent, capacity %d %s" % (M, tag), [arr("r", 2, t, "undef"), sca("f", "f", const=True), sca("x", t, const=True), sca("y", t, const=True)],
              "%s l( f ); l.add( x ); %s k( l ); k.add( y ); r.a[0] = l.get(); r.a[1] = k.get();" % (LP(M), LP(M)), lambda v, M=M: dict(r=[v["x"], mean([v["y"], v["x"]], v["f"], M)]))
        # long histories and wide windows, with a factor of one half (the window then is a plain sum)
        for M, k in ((1, 70), (3, 70), (3, 200), (16, 18), (33, 40), (70, 72)) + (((2, 600), (64, 65), (70, 150), (130, 131)) if th else ()):
            ps = [sca("r", t, "undef"), arr("x", k, t, const=True)]
            C("C21", "LowpassFilter: %d additions in a row to capacity %d %s" % (k, M, tag), ps, "%s l( 0.5f ); for( size_t i = 0; i < %d; ++i ) r = l.add( x.a[i] );" % (LP(M), k),
              lambda v, k=k, M=M: dict(r=mean([lst(v["x"])[i] for i in reversed(range(k))], V(Fraction(1, 2)), M)))
        C("C21", "LowpassFilter: reading before the first addition %s" % tag, [sca("r", t, "undef"), sca("f", "f", const=True)], "%s l( f ); r = l.get();" % LP(3), lambda v: dict(r=0))
        C("C21", "LowpassFilter: vectors %s" % tag, [vec("r", 3, t, "undef"), sca("f", "f", const=True)] + [vec("x%d" % i, 3, t, const=True) for i in range(4)],
          "%s l( f ); l.add( x0 ); l.add( x1 ); l.add( x2 ); r = l.add( x3 );" % LP(3, "Vector<3,%s>" % e),
          lambda v: dict(r=[mean([v["x%d" % i][j] for i in (3, 2, 1)], v["f"], 3) for j in range(3)]))
    return L

NAMES = 'const std::string d( "out" ), f( "%s" ); '
FILE = ("opens a file", "writes to std::cout")

def file_cases(C, th):
    for m, n, t in ((2, 3, "d"), (3, 2, "f"), (1, 1, "d"), (4, 4, "d"), (2, 2, "ld"), (3, 3, "i"), (2, 3, "ub")):
        tag = "<%d,%d,%s>" % (m, n, ELEM[t][0])
        rd = lambda v, m=m, n=n: [x for r in rows(v["a"], m, n) for x in r]
        ca = [mat("a", m, n, t, const=True)]
        C(["C11", "C22"], "file: write_to_raw %s" % tag, ca, NAMES % "m.raw" + "a.write_to_raw( d, f );", effects=FILE, post=posts(file_written(lambda v: v["a"], t, True), streams_closed))
        C("C11", "file: write_csv_file %s" % tag, ca, NAMES % "m.csv" + "a.write_csv_file( d, f );", effects=FILE, post=posts(file_written(rd, t, False), streams_closed))
        C(["C11", "C34"], "file: read_from_raw %s" % tag, [mat("a", m, n, t)], NAMES % "m.raw" + "a.read_from_raw( d, f );", lambda v: dict(a=None), effects=FILE, post=posts(file_read("a", m * n, t), streams_closed))
        for op, ext in (("write_to_raw", "raw"), ("write_csv_file", "csv"), ("read_from_raw", None)):
            if (m, n, t) != (2, 3, "d") and not (th and t in ("f", "i")): continue
            for d in ("", "/", "out", "out/", "a/b", "a/b/", "./", "/very/long/absolute/name/of/a/directory"):
                for fn in ("x", "ab", "data", "x.raw", "x.csv", "data.raw", "data.csv", "a.raw.bak", "csv.d", "a_rather_long_name_of_a_file.raw", "a_rather_long_name_of_a_file"):
                    if ext is None and not fn.endswith(".raw"): continue
                    path = d + ("/" if d and not d.endswith("/") else "") + fn + ("" if ext is None or fn.endswith("." + ext) else "." + ext)
                    C("C11", "file: %s %s, \"%s\" in \"%s\"" % (op, tag, fn, d), [mat("a", m, n, t, const=ext is not None)], "const std::string d( \"%s\" ), f( \"%s\" ); a.%s( d, f );" % (d, fn, op),
                      None if ext else lambda v: dict(a=None), effects=FILE, post=posts(path_opened(path), streams_closed))
        C("C22", "file: read_csv_file %s" % tag, [mat("a", m, n, t)], NAMES % "m.csv" + "a.read_csv_file( d, f );", lambda v: dict(a=None), effects=FILE, post=streams_closed)

def rank_facts(a, m, n):
    """full column rank: the Gram determinants are positive"""
    A = transp(rows(a, m, n))
    out = []
    for k in range(1, n + 1):
        g = [[dotv(A[i], A[j]) for j in range(k)] for i in range(k)]
        out.append(det(g).ne(0).v)
    return out
