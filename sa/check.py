"""check <property> [--thorough]: decide one property on /repo's current tree."""
import sys, os, re, json, time, importlib, tempfile, shutil
from . import driver
from .driver import Case, run_cases, P, vec, mat, sca, arr, quat, idx, REPO, ROOT

MODULES = ["c_vector", "c_matrix", "c_matrix2", "c_quaternion", "c_frustum", "c_aabb", "c_misc", "c_names"]
# views: obligations every case contributes to, whatever it is about
VIEWS = {"C22", "C23", "C24", "C26", "C31", "C34"}

def modules():
    out = []
    for m in MODULES:
        try: out.append(importlib.import_module("sa." + m))
        except ModuleNotFoundError as x:
            if x.name != "sa." + m: raise
    return out

def batches(th):
    """[(headers, cases)]"""
    return [(m.HEADERS, m.cases(th)) for m in modules()]

# ------------------------------------------------------------------ positive controls
def controls():
    H = lambda body: body
    one = lambda v: dict(r=v["a"][0])
    C = {}
    val = Case("X", "control: wrong value", [sca("r", "d", "undef"), vec("a", 3, "d", const=True)], "r = a.array[ 1 ];", one)
    C["value"] = val
    C["C22"] = Case("C22", "control: read past the end", [sca("r", "d", "undef"), vec("a", 3, "d", const=True)], "r = *( &a.array[ 0 ] + 3 );", lambda v: dict(r=None))
    C["C23"] = Case("C23", "control: unchecked index", [sca("r", "d", "undef"), vec("a", 3, "d", const=True), idx("i", [(0, 2), (3, 9)])], "r = a.array[ i ];", lambda v, c: dict(r=None), throws=lambda v, c: c["i"][0] >= 3)
    C["C24"] = Case("C24", "control: hidden state", [sca("r", "d", "undef"), vec("a", 3, "d", const=True)], "static double memo; memo = a.array[ 0 ]; r = memo;", one)
    C["C26"] = Case("X", "control: narrowing", [sca("r", "d", "undef"), vec("a", 3, "d", const=True)], "r = (float)a.array[ 0 ];", one)
    C["C31"] = Case("X", "control: leak", [sca("r", "d", "undef"), vec("a", 3, "d", const=True)], "double* p = new double( a.array[ 0 ] ); r = *p;", one)
    C["C34"] = Case("X", "control: changed before failing", [vec("a", 3, "d")], "a.array[ 0 ] = 1; throw 1;", throws=1)
    C["C44"] = Case("X", "control: an error that says nothing", [vec("a", 3, "d")], "throw 1;", throws=1)
    C["C33"] = val
    return C

def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obl = 0; self.dis = 0; self.viol = []; self.known = []
        self.ncases = 0; self.skipped = []; self.functions = set(); self.steps = 0; self.samples = []
        self.broken = []; self.notes = []; self.extra = {}
        self.minimum = 1
    def add(self, title, what, ok, msg="", loc=None):
        self.obl += 1
        if ok: self.dis += 1; return
        self.viol.append(dict(case=title, what=what, msg=msg, loc=loc))
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

def finish(r, technique):
    ev = os.path.join(ROOT, "evidence"); os.makedirs(ev, exist_ok=True)
    known = [k for k in load_known() if k.get("property") == r.prop and k.get("status") == "known"]
    real = []; hit = {}
    for v in r.viol:
        k = next((k for k in known if k["case"] in v["case"] and k.get("what", "") in v["what"]), None)
        if k: hit[k["case"]] = k
        else: real.append(v)
    for k in hit.values(): print("KNOWN-FINDING: property=%s %s" % (r.prop, k["description"]))
    if r.obl < r.minimum: r.broken.append("only %d obligations were formed, at least %d expected" % (r.obl, r.minimum))
    cov = dict(explanation=technique, obligations=r.obl, discharged=r.dis, cases_analysed=r.ncases, functions_analysed=len(r.functions),
               instructions_interpreted=r.steps, cases_not_analysed=[s[0] for s in r.skipped][:50], samples=r.samples, repository=REPO,
               library_functions=sorted(f for f in r.functions if "vmml::" in f)[:400], notes=r.notes)
    cov.update(r.extra)
    out = dict(property=r.prop, tier=r.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov,
               assumptions=ASSUME, wall_s=round(time.time() - r.t0, 2), violations=len(real))
    json.dump(out, open(os.path.join(ev, r.prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d cases, %d functions, %d instructions, %.1fs" % (r.prop, r.obl, r.dis, r.ncases, len(r.functions), r.steps, time.time() - r.t0))
    for s in r.skipped[:10]: print("  not analysed: %s: %s" % (s[0], s[1].strip().split("\n")[0][:300]))
    if real:
        path = os.path.join(ev, r.prop + ".violations.txt")
        with open(path, "w") as f:
            for v in real:
                f.write("%s\n  rule: %s\n  at: %s\n  %s\n\n" % (v["case"], v["what"], v["loc"], v["msg"]))
        shown = 0
        for v in real[:20]:
            print("  [%s] %s\n    at %s\n    %s" % (v["case"], v["what"], v["loc"], v["msg"][:900]))
        if len(real) > 20: print("  ... %d more in %s" % (len(real) - 20, path))
        print("VIOLATION property=%s replay=%s" % (r.prop, os.path.relpath(path, ROOT)))
        return 1
    p = os.path.join(ev, r.prop + ".violations.txt")
    if os.path.exists(p): os.unlink(p)
    if r.broken:
        for b in r.broken: print("ANALYSIS-BROKEN: " + b)
        return 2
    return 0

ASSUME = ["real-number semantics for floating point (rounding, overflow, NaN are outside the claim)",
          "64-bit two's complement integers, clang 18 lowering of /repo's headers at -O0, x86-64 ABI",
          "library functions outside /repo (libstdc++ streams, libm, allocator) behave as modelled in sa/models.py"]

TECH_VALUE = ("value-flow abstract interpretation of the LLVM IR clang emits for each public operation, instantiated for the listed dimensions and element types: "
              "every output cell is a term of an exact algebraic domain (Laurent polynomials over operand cells, square roots and trigonometric atoms, joined at branch merges "
              "in sign-decision diagrams over all inputs at once) and must be identical to the term the definition prescribes")

def take(r, prop, res, cs, keep=None):
    """collect the obligations of one batch"""
    for k, i, x, err in res:
        if k != "ok":
            t = cs[i].title if isinstance(i, int) else str(i)
            r.skipped.append((t, k + ": " + err)); continue
        r.ncases += 1
        r.steps += x.info["steps"]
        fs = x.info["visited"]
        if x.info.get("ends"): r.notes.append("%s: decided at the end points of the index classes only" % cs[i].title)
        r.functions.update(fs)
        n = 0
        for o in x.obl:
            if o[0] == prop and (keep is None or keep(cs[i], o)):
                r.add(cs[i].title, o[1], o[2], o[3], o[4]); n += 1
        if n and len(r.samples) < 12 and r.ncases % 37 == 1:
            r.sample(dict(case=cs[i].title, operation=cs[i].body, obligations=n, functions=[f for f in fs if "vmml::" in f][:6]))

def control(r, kind, flags=()):
    c = controls()[kind]
    res = run_cases([c], ["vmmlib/vector.hpp"], flags=flags, fname="control", procs=1)
    k, i, x, err = res[0]
    prop = c.props[0] if kind == "value" or kind == "C33" else kind
    if k != "ok" or all(o[2] for o in x.obl if o[0] == prop): r.broken.append("the positive control '%s' was not reported: %s" % (c.title, err))
    else: r.extra["positive_control"] = next(o[3] for o in x.obl if o[0] == prop and not o[2])[:300]

def order(cs):
    """expensive cases are spread over the batches"""
    return cs

def value_check(r, prop, th):
    sel = 0
    for headers, cs in batches(th):
        cs = [c for c in cs if c.only != "compile" and (prop in c.props or (prop in VIEWS and not c.only == "values") or (prop == "C44" and c.throws is not None))]
        if not cs: continue
        sel += len(cs)
        take(r, prop, run_cases(cs, headers, fname="debug"), cs)
        if prop == "C22":      # the release build has none of the checks that stop a stray access
            cs = [c for c in cs if c.throws is None and c.props[0] not in ("C23", "C34")]; sel += len(cs)
            take(r, prop, run_cases(cs, headers, flags=("-DNDEBUG",), fname="release"), cs)
    if sel and r.ncases < 0.5 * sel: r.broken.append("only %d of %d cases could be analysed" % (r.ncases, sel))
    control(r, prop if prop in VIEWS | {"C33", "C44"} else "value")

def c27(r, prop, th):
    """every operation instantiates: the witness of every case compiles"""
    for headers, cs in batches(th):
        for k, i, x, err in run_cases(cs, headers, fname="compile", compile_only=True):
            c = cs[i]
            r.ncases += 1
            if k == "nocompile": r.add(c.title, "instantiates", False, "does not compile: %s   [%s]" % (err.strip()[:700], c.body.strip()), err.strip().split(": error")[0][-200:])
            elif k == "undefined": r.add(c.title, "defined", False, err, c.body)
            else: r.add(c.title, "instantiates and is defined", True)
    # the single header offers every type: the same witnesses with nothing else included
    for headers, cs in batches(th):
        if headers[0].startswith("vmmlib_sa"): continue
        if "vmmlib/util.hpp" in headers and "vmmlib/lowpass_filter.hpp" not in headers: headers = headers[:-1]
        cs = [c for c in cs if not re.search(r"\b(create_|apply_|qr_decompose|equals_allow|matrix_equals|math::|util|vmml::(min|max|zero)|zero<|manhattan)", c.body + (c.cxx or ""))]
        if "vmmlib/lowpass_filter.hpp" in headers: cs = [c for c in cs if re.search(r"Intersection|LowpassFilter", c.body + (c.cxx or "") + " ".join(p.ctype for p in c.params))]
        if not th: cs = cs[::3]
        if not cs: continue
        for k, i, x, err in run_cases(cs, ["vmmlib/vmmlib.hpp"], fname="single", compile_only=True):
            c = cs[i]; r.ncases += 1
            if k == "nocompile": r.add(c.title + " through vmmlib.hpp", "available from the single header", False, err.strip()[:500], err.strip().split(": error")[0][-200:])
            elif k == "undefined": r.add(c.title + " through vmmlib.hpp", "defined", False, err, c.body)
            else: r.add(c.title + " through vmmlib.hpp", "available from the single header", True)
    r.samples.append(dict(rule="each witness function type-checks and every vmml:: function it references is defined in the unit"))

def c30(r, prop, th):
    for headers, cs in batches(th):
        cs = [c for c in cs if c.throws is None and c.only != "compile" and c.props[0] not in ("C23", "C34")]
        if not cs: continue
        rel = run_cases(cs, headers, flags=("-DNDEBUG",), fname="release")
        bad = {}
        for k, i, x, err in rel:
            if k != "ok": r.skipped.append((cs[i].title if isinstance(i, int) else str(i), k + ": " + err)); continue
            r.ncases += 1; r.steps += x.info["steps"]; r.functions.update(x.info["visited"])
            f = [o for o in x.obl if not o[2]]
            if f: bad[i] = f
            r.obl += len(x.obl); r.dis += len(x.obl) - len(f)
        if bad:
            sub = sorted(bad)
            sc = [cs[i] for i in sub]
            for k, j, x, err in run_cases(sc, headers, fname="debug"):
                i = sub[j]
                if k != "ok": continue
                dbg = {(o[0], o[1]) for o in x.obl if not o[2]}
                for o in bad[i]:
                    if (o[0], o[1]) in dbg: r.dis += 1; r.notes.append("both builds agree on a deviation: " + o[3][:200])
                    else: r.viol.append(dict(case=cs[i].title, what="release build differs: " + o[1], msg=o[3], loc=o[4]))
        if len(cs) > 3: r.sample(dict(case=cs[3].title, operation=cs[3].body, rule="same value terms with NDEBUG as required in the checked build"))
    n = sum(1 for h, cs in batches(th) for c in cs if c.throws is None and c.only != "compile" and c.props[0] not in ("C23", "C34"))
    if r.ncases < 0.5 * n: r.broken.append("only %d of %d cases could be analysed" % (r.ncases, n))
    c = Case("X", "control: assertion with a side effect", [sca("r", "d", "undef"), vec("a", 3, "d", const=True)], "size_t i = 0; assert( ++i == 1 ); r = a.array[ i ];", lambda v: dict(r=v["a"][1]))
    ok = [all(o[2] for o in run_cases([c], ["vmmlib/vector.hpp"], flags=f, fname="control", procs=1)[0][2].obl) for f in ((), ("-DNDEBUG",))]
    if ok != [True, False]: r.broken.append("the positive control was not reported: %s" % ok)

SPECIAL = {"C27": c27, "C30": c30}
TECH = {}

def main(argv):
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    th = tier == "thorough"
    r = Report(prop, tier)
    if th: driver.CASE_CPU = 600
    else: driver.WALL = time.time() + 720
    try:
        from . import special
        fn = SPECIAL.get(prop) or special.SPECIAL.get(prop) or value_check
        mins = json.load(open(os.path.join(ROOT, "sa", "minimum.json"))) if os.path.exists(os.path.join(ROOT, "sa", "minimum.json")) else {}
        r.minimum = mins.get(prop, 1)
        fn(r, prop, th)
        tech = special.TECH.get(prop, TECH_VALUE)
    except Exception:
        import traceback
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error")
        return 2
    return finish(r, tech)
