"""Obligations about what goes through a stream, read off the abstract trace of
stream operations the analysed function performs."""
import re
from fractions import Fraction
from . import alg, models
from .alg import ap1, ap2, AnalysisError
from .alg import Node, Poly
from .engine import Ptr, Undef
from .val import V

def flatten(tr):
    out = []
    for t in tr:
        if t[0] == "gate": raise AnalysisError("stream operations depend on operand values")
        out.append(t)
    return out

def outputs(name, want, t, sep=True, exact=None):
    """every element is written once, in order, separated by white space"""
    def post(case, e, st, ptrs, env, facts):
        from .driver import diff_path, ELEM, short
        tr = [x for x in flatten(st.trace) if x[0] == "out" and x[1] == name]
        w = want(env)
        vals = [x for x in tr if x[2] == "value"]
        yield None, "number of values written", len(vals) == len(w), "%d values written, %d elements" % (len(vals), len(w)), case.body
        bad = [x for x in tr if x[2] not in ("value", "text", "char")]
        yield None, "only text and values", not bad, "unexpected output %s" % (bad[:1],), case.body
        for k, (x, y) in enumerate(zip(vals, w)):
            dp = diff_path(y.v, x[4], st.pc, facts, None, 1e-9)
            yield None, "value %d" % k, dp is None, "value %d written is %s, expected %s" % (k, short(x[4]), short(y.v)), case.body
            ct = {"d": "double", "f": "float", "ld": "long double"}.get(t)
            if ct == "long double": yield None, "written in full precision", x[3] == ct, "value %d is written as %s" % (k, x[3]), case.body
        # separation
        between = False; ok = True; seen = False
        for x in tr:
            if x[2] == "value":
                if seen and not between: ok = False
                seen = True; between = False
            else:
                s = x[3] if x[2] == "text" else (chr(x[3]) if isinstance(x[3], int) else "")
                if isinstance(s, str) and any(c in " \n\t,;" for c in s): between = True
        if sep: yield None, "values separated", ok, "two values are written without a separator", case.body
    return post

def inputs(name, n, t, order=None):
    """the k-th value read is stored at the k-th documented position"""
    def post(case, e, st, ptrs, env, facts):
        from .driver import ELEM, diff_path, short, where_written
        ct, irt, sz, w, uns = ELEM[t]
        tr = [x for x in flatten(st.trace) if x[0] == "in"]
        yield None, "number of values read", len(tr) == n, "%d values read for %d elements" % (len(tr), n), case.body
        for k in range(min(n, len(tr))):
            pos = order[k] if order else k
            got = e.load(st, Ptr(ptrs[name].obj, pos * sz), irt)
            exp = alg.cell(tr[k][2], integer=w is not None, nonneg="unsigned" in tr[k][3])
            dp = diff_path(exp, got, st.pc, facts, None, 1e-9)
            yield None, "read value %d" % k, dp is None, "element %d holds %s, expected the value read at position %d" % (pos, short(got), k), where_written(e, st.objs[ptrs[name].obj].cells.get(pos * sz))
    return post

def stream_state(name):
    """format flags and precision after the call are those before it"""
    def post(case, e, st, ptrs, env, facts):
        from .driver import diff_path, short, where_written
        q = ptrs[name]; o = st.objs[q.obj]; b = o.size - models.IOS
        for what, off, sz, t in (("flags", models.FLAGS, 4, "i32"), ("precision", models.PREC, 8, "i64"), ("fill", models.FILL, 1, "i8")):
            got = e.load(st, Ptr(q.obj, b + off), t)
            sym = alg.cell("%s.%s" % (name, what), integer=True, nonneg=True)
            ok = got is sym or alg.same(got, sym)
            yield "C25", "%s restored" % what, ok, "stream %s are %s after printing, %s before" % (what, short(got), short(sym)), where_written(e, o.cells.get(b + off))
        # each formatted output uses the width up; none may be left for what the caller prints next
        for what, off, sz, t in (("no width left over", models.WIDTH, 8, "i64"), ("error state untouched", models.STATE, 4, "i32"), ("exception mask untouched", models.MASK, 4, "i32")):
            got = e.load(st, Ptr(q.obj, b + off), t)
            yield "C25", what, isinstance(got, int) and got == 0, "%s after printing, 0 before" % short(got), where_written(e, o.cells.get(b + off))
    return post

def alternatives(tr, pc=1):
    """the sequences of stream events with the condition each happens under"""
    alts = [(pc, [])]
    for t in tr:
        if t[0] != "gate":
            for a in alts: a[1].append(t)
            continue
        new = []
        for c, ev in alts:
            for side, sub in ((t[1], t[2]), (alg.bnot(t[1]), t[3])):
                cc = alg.band(c, side)
                if cc.__class__ is int and cc == 0: continue
                for c2, ev2 in alternatives(sub, cc): new.append((c2, ev + ev2))
        alts = new
    return alts

def _opened(c):
    """1 where the file could be opened, on the condition c"""
    from .driver import feasible_where
    ok = None
    for v, (p, nn) in enumerate(alg.VARS):
        if "open_succeeds" in str(p): ok = alg.node(v, 0, 0, 1)
    if ok is None: return None
    if feasible_where(alg.band(c, alg.bnot(ok)), ()) is None: return True
    if feasible_where(alg.band(c, ok), ()) is None: return False
    return None

def file_written(want, t, raw):
    """the file receives every element once, in order, and nothing else"""
    def post(case, e, st, ptrs, env, facts):
        from .driver import diff_path, ELEM, short
        w = want(env); sz = ELEM[t][2]
        n = 0
        for c, ev in alternatives(st.trace):
            o = _opened(c)
            if o is None:
                yield None, "file opened and tested", False, "data are handled without testing whether the file is open", case.body; continue
            out = [x for x in ev if x[0] == "out" and not x[1].startswith("std::")]
            if not o:
                yield None, "nothing written to a file that is not open", not out, "writes %s" % (out[:1],), case.body; continue
            n += 1
            if raw:
                got = []
                for x in out:
                    if x[2] != "raw" or x[4] is None:
                        yield None, "raw output only", False, "writes %s" % (x[2:4],), case.body
                    else: got += [(s, v) for _, s, v in x[4]]
                yield None, "number of bytes", sum(s for s, _ in got) == sz * len(w), "%d bytes written, the elements have %d" % (sum(s for s, _ in got), sz * len(w)), case.body
                got = [(v, "element") if s == sz else (None, "a piece of %d bytes" % s) for s, v in got]
            else:
                got = [(x[4] if x[2] == "value" else x[3], "value") for x in out if x[2] == "value" or x[2] == "char" and not isinstance(x[3], int)]
                yield None, "number of values", len(got) == len(w), "%d values written, %d elements" % (len(got), len(w)), case.body
            for k, (x, y) in enumerate(zip(got, w)):
                dp = diff_path(y.v, x[0], st.pc, facts, None, 1e-9) if x[0] is not None else 1
                yield None, "element %d" % k, dp is None, "position %d of the file holds %s, expected %s" % (k, short(x[0]), short(y.v)), case.body
        yield None, "a file is written", n > 0, "no file is written", case.body
    return post

def path_opened(path):
    """the one file opened is the one documented"""
    def post(case, e, st, ptrs, env, facts):
        got = {x[3] for c, ev in alternatives(st.trace) for x in ev if x[:2] == ("stream", "open")}
        if None in got: raise AnalysisError("the path of the file is not known")
        yield None, "the file named is opened", got == {path}, "opens %s, expected %s" % (" and ".join(sorted(map(repr, got))) or "nothing", repr(path)), case.body
    return post

def file_read(name, n, t):
    """the k-th element read from the file is stored at position k, all others
    keep their value"""
    def post(case, e, st, ptrs, env, facts):
        from .driver import diff_path, ELEM, short, feasible_where, where_written
        ct, irt, sz, w, uns = ELEM[t]
        ok = None; G = None
        for v, (p, nn) in enumerate(alg.VARS):
            if "open_succeeds" in str(p): ok = alg.node(v, 0, 0, 1)
            if "available#0" in str(p): G = alg.cell("available#0", integer=True, nonneg=True)
        yield None, "the file is read", ok is not None and G is not None, "the file is never read", case.body
        if ok is None or G is None: return
        reads = [x for c, ev in alternatives(st.trace) for x in ev if x[0] == "in"]
        yield None, "the elements are read from one stream", len({x[1] for x in reads}) == 1, "reads from %s" % sorted({x[1] for x in reads}), case.body
        for i in range(n):
            got = e.load(st, Ptr(ptrs[name].obj, i * sz), irt)
            loc = where_written(e, st.objs[ptrs[name].obj].cells.get(i * sz))
            old = env[name][i].v
            new = alg.cell("%s[%d:%d]" % (reads[0][1], i * sz, sz), integer=w is not None) if reads else None
            want = alg.band(ok, alg.ge(G, alg.const((i + 1) * sz)))
            kind = ap1(lambda x: 1 if x is new or alg.same(x, new) else (0 if x is old or alg.same(x, old) else 2), got)
            bad = ap2(lambda k, c: int(k != c), kind, want)
            p = feasible_where(bad, facts)
            yield None, "element %d" % i, p is None, "element %d holds %s; when %s" % (i, short(got), alg.path_str(p or ())), loc
    return post

def streams_closed(case, e, st, ptrs, env, facts):
    for c, ev in alternatives(st.trace):
        opened = [x[2] for x in ev if x[:2] == ("stream", "construct")]; closed = [x[2] for x in ev if x[:2] == ("stream", "close")]
        yield "C31", "every file is closed", all(x in closed for x in opened), "a file stream is left open", case.body

def posts(*fs):
    def post(*a):
        for f in fs: yield from f(*a)
    return post

RAND_MAX = 2 ** 31 - 1
def seeds(tr, facts, env, seed):
    """(ok, text): the generator is reseeded exactly when a seed >= 0 is passed, before any draw"""
    from .driver import diff_path
    if seed is None: return not tr, "reseeded although no seed is given: %s" % (tr,)
    if isinstance(seed, int): return list(tr) == [("srand", seed, 0)], "reseeding is %s" % (tr,)
    s = env[seed]
    if len(tr) != 1 or tr[0][0] != "gate": return False, "reseeding does not depend on the seed: %s" % (tr,)
    _, c, on, off = tr[0]
    if off and not on: c, on, off = alg.bnot(c), off, on
    if off or len(on) != 1 or on[0][0] != "srand" or on[0][2] != 0: return False, "reseeding is %s" % (tr,)
    if not alg.same(on[0][1], s.v): return False, "reseeded with %s" % on[0][1]
    return diff_path((s >= 0).v, c, 1, facts, None, None) is None, "reseeded when %s" % (c,)

def drawn(name, n, t, seed):
    """every element is -1 + 2 * draw / RAND_MAX of a draw of its own"""
    def post(case, e, st, ptrs, env, facts):
        from .driver import diff_path, ELEM, short
        ct, irt, sz, w, uns = ELEM[t]
        used = {}
        cand = {k: alg.mul(alg.const(2), alg.cell("rand#%d" % k, integer=True, nonneg=True)) for k in range(e.counters.get("rand", 0))}
        for i in range(n):
            got = e.load(st, Ptr(ptrs[name].obj, i * sz), irt)
            if isinstance(got, Undef):
                yield None, "element %d written" % i, False, "element %d is never written" % i, case.body
                yield "C22", "element %d written" % i, False, "element %d is never written" % i, case.body
                continue
            k = next((k for k, p in cand.items() if diff_path(p, ap1(lambda x: alg.mul(alg.add(x, alg.const(1)), alg.const(RAND_MAX)) if isinstance(x, Poly) else x, got), st.pc, facts, None, 1e-6) is None), None)
            yield None, "element %d is a draw mapped onto [-1,1]" % i, k is not None, "element %d is %s, required -1 + 2 rand() / RAND_MAX" % (i, short(got)), case.body
            if k is not None:
                yield None, "element %d has a draw of its own" % i, k not in used, "elements %s and %d share a draw" % (used.get(k), i), case.body
                used[k] = i
        ok, text = seeds(st.trace, facts, env, seed)
        yield None, "reseeds exactly when a seed is given", ok, text, case.body
    return post

def shaken(name, n, t, amount):
    """every element moves by plus or minus the amount, as a draw of its own decides"""
    def post(case, e, st, ptrs, env, facts):
        from .driver import diff_path, ELEM, short
        ct, irt, sz, w, uns = ELEM[t]
        used = {}
        for i, x in enumerate(env[name].e if hasattr(env[name], "e") else env[name]):
            got = e.load(st, Ptr(ptrs[name].obj, i * sz), irt)
            draws = set(re.findall(r"rand#(\d+)", str(got)))
            up, down = (diff_path(y.v, got, st.pc, facts, None, 1e-9) for y in (x + env[amount], x - env[amount]))
            both = ap2(lambda g, z: g if alg.same(g, (x + env[amount]).v) else z, got, (x - env[amount]).v)
            yield None, "element %d moves by plus or minus the amount" % i, diff_path(both, got, st.pc, facts, None, 1e-9) is None, "element %d becomes %s" % (i, short(got)), case.body
            yield None, "element %d can move either way" % i, up is not None and down is not None, "element %d always becomes %s" % (i, short(got)), case.body
            yield None, "element %d has a draw of its own" % i, len(draws) == 1 and not draws & set(used), "element %d is decided by draw %s" % (i, sorted(draws)), case.body
            for d in draws: used[d] = i
        yield None, "does not reseed", not st.trace, "reseeds: %s" % (st.trace,), case.body
    return post
