"""checks that are decided by the type checker: C28 (compile-fail witnesses), C29 (headers and configurations)"""
import os, subprocess, tempfile, shutil, re, itertools
from concurrent.futures import ThreadPoolExecutor
from . import driver
from .driver import REPO, run_cases, CXX

GXX = "g++"
STD = ["-std=c++11", "-fsyntax-only", "-w"]
NEEDS = {"matrix_traits.hpp": "boost/la/matrix_traits.hpp", "vector_traits.hpp": "boost/la/vector_traits.hpp"}

class Work:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vmmlsa")
        os.environ["SA_WORK"] = self.d
        self.inc = ["-I" + driver.incdir(self.d), "-I" + REPO, "-I" + os.path.join(driver.ROOT, "stubs")]
        self.ids = itertools.count()
        return self
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
    def compile(self, src, flags=(), cc=CXX, std=STD, out=None, keep=False):
        p = os.path.join(self.d, "u%d.cpp" % next(self.ids))
        open(p, "w").write(src)
        cmd = [cc] + list(std) + list(flags) + self.inc + [p] + (["-o", out] if out else [])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if not keep: os.unlink(p)
        return r.returncode == 0, r.stderr, r.stdout

def first_error(err):
    for l in err.split("\n"):
        if "error" in l: return l.strip()
    return err.strip()[:300]

def where(err):
    m = re.search(r"(%s\S*?:\d+)" % re.escape(REPO), err)
    return m.group(1) if m else first_error(err)[:200]

def headers(work, r):
    out = []
    for h in sorted(os.listdir(os.path.join(REPO, "vmmlib"))):
        if not h.endswith(".hpp") or h == "version.in.hpp": continue
        if h in NEEDS:
            ok, err, _ = work.compile("#include <%s>\n" % NEEDS[h])
            if not ok: r.notes.append("%s not analysed: its dependency %s is not installed" % (h, NEEDS[h])); continue
        out.append(h)
    if "version.hpp" not in out: out.append("version.hpp")
    return sorted(out)

CONFIGS = [("default", ()), ("NDEBUG", ("-DNDEBUG",)), ("VMMLIB_NO_CONVERSION_OPERATORS", ("-DVMMLIB_NO_CONVERSION_OPERATORS",)),
           ("VMMLIB_NO_TYPEDEFS", ("-DVMMLIB_NO_TYPEDEFS",)), ("VMMLIB_OLD_TYPEDEFS", ("-DVMMLIB_OLD_TYPEDEFS",)), ("VMMLIB_NO_TYPEDEFS+OLD_TYPEDEFS", ("-DVMMLIB_NO_TYPEDEFS", "-DVMMLIB_OLD_TYPEDEFS")),
           ("__OSG_MATH", ("-D__OSG_MATH",)), ("VMMLIB_CUSTOM_CONFIG", ("-DVMMLIB_CUSTOM_CONFIG",)),
           ("VMMLIB_CUSTOM_CONFIG+SAFE_ACCESSORS", ("-DVMMLIB_CUSTOM_CONFIG", "-DVMMLIB_SAFE_ACCESSORS")),
           ("VMMLIB_CUSTOM_CONFIG+THROW_EXCEPTIONS", ("-DVMMLIB_CUSTOM_CONFIG", "-DVMMLIB_THROW_EXCEPTIONS")),
           ("VMMLIB_CUSTOM_CONFIG+SAFE_ACCESSORS+THROW_EXCEPTIONS", ("-DVMMLIB_CUSTOM_CONFIG", "-DVMMLIB_SAFE_ACCESSORS", "-DVMMLIB_THROW_EXCEPTIONS"))]

LAYOUT = ["Vector<2,float>", "Vector<3,double>", "Vector<4,int>", "Matrix<3,3,float>", "Matrix<4,4,double>", "Matrix<2,3,int>", "Quaternion<double>",
          "AABB<double>", "Frustum<double>", "FrustumCuller<double>", "Intersection<double>", "LowpassFilter<3,double>"]

def c29(r, prop, th):
    from .check import batches
    inc = lambda *hs: "".join("#include <vmmlib/%s>\n" % h for h in hs)
    with Work() as w:
        hs = headers(w, r)
        jobs = []
        for h in hs:
            for cn, fl in CONFIGS:
                for cc in (CXX, GXX) if th or cn in ("default", "NDEBUG", "VMMLIB_NO_TYPEDEFS") else (CXX,):
                    jobs.append(("%s alone, %s, %s" % (h, cn, os.path.basename(cc)), "compiles on its own", inc(h), fl, cc))
                jobs.append(("%s twice, %s" % (h, cn), "compiles when included twice", inc(h, h), fl, CXX))
        for a, b in itertools.permutations(hs, 2):
            jobs.append(("%s then %s" % (a, b), "compiles after another header", inc(a, b), (), CXX))
            if th: jobs.append(("%s then %s, g++" % (a, b), "compiles after another header", inc(a, b), (), GXX))
        if th:
            for t in itertools.permutations([h for h in hs if h not in ("version.hpp", "vmmlib_config.hpp", "enable_if.hpp")], 3):
                jobs.append(("%s, %s, %s" % t, "compiles in this order", inc(*t), (), CXX))
        for h in hs:
            # what a user may have defined or included before must not matter
            for pre in ("#include <algorithm>\n#include <cmath>\n#include <complex>\n", "#include <cstdint>\n#include <limits>\n#include <functional>\n",
                        "#define _USE_MATH_DEFINES\n#include <math.h>\n#include <stdlib.h>\n#include <string.h>\n", "namespace user { struct Vector {}; struct Matrix {}; struct exception {}; }\nusing namespace user;\nusing namespace std;\n"):
                src = ("#include <string>\n" if "using" in pre else "") + pre + inc(h)
                jobs.append(("%s after %s" % (h, pre.replace("\n", " ")), "compiles whatever was included before", src, (), CXX))
        from . import c_names
        allh = inc("vmmlib.hpp", "frustum_culler.hpp", "intersection.hpp", "lowpass_filter.hpp")
        for fl, names in (((), c_names.NEW), (("-DVMMLIB_OLD_TYPEDEFS",), dict(c_names.NEW, **c_names.OLD))):
            for a, b in names.items(): jobs.append(("the name %s%s" % (a, " (VMMLIB_OLD_TYPEDEFS)" if fl else ""), "is " + b, allh + c_names.same(a, b) + "\n", fl, CXX))
        with ThreadPoolExecutor(8) as ex:
            for j, (ok, err, _) in zip(jobs, ex.map(lambda j: w.compile(j[2], j[3], j[4]), jobs)):
                r.ncases += 1
                r.add(j[0], j[1], ok, first_error(err) + "\n" + err[:600] if not ok else "", where(err))
        # no header defines a symbol of strong linkage: any two units that include it link together
        ir = ["-std=c++11", "-w", "-O0", "-S", "-emit-llvm"]
        orders = [[h] for h in hs] + [hs, hs[::-1]]
        for o in orders:
            for cn, fl in (CONFIGS if len(o) > 1 else CONFIGS[:1]):
                p = os.path.join(w.d, "o.ll")
                ok, err, _ = w.compile(inc(*o), fl, CXX, ir, p)
                t = "linkage of the definitions in %s (%s)" % (", ".join(o) if len(o) == 1 else "all headers", cn)
                r.ncases += 1
                if not ok: r.add(t, "compiles", False, first_error(err), where(err)); continue
                strong = []
                for l in open(p):
                    m = re.match(r"define (.*?)@([\w.$\"]+)\(", l)
                    if m:
                        if not re.search(r"\b(linkonce_odr|linkonce|weak_odr|weak|internal|private|available_externally)\b", m.group(1)): strong.append(m.group(2))
                        continue
                    m = re.match(r"@([\w.$\"]+) = (.*)", l)
                    if m and re.match(r"(dso_local |local_unnamed_addr |unnamed_addr |thread_local )*(global|constant)\b", m.group(2)): strong.append(m.group(1))
                    r.steps += 1
                r.add(t, "defines no symbol of strong linkage", not strong, "a second translation unit including it fails to link: duplicate definition of " + ", ".join(strong[:5]), strong[0] if strong else None)
        # layout and meaning of the types do not depend on the configuration
        sizes = {}
        body = "".join("extern const unsigned long s%d; const unsigned long s%d = sizeof( vmml::%s ) * 4096 + alignof( vmml::%s );\n" % (i, i, t, t) for i, t in enumerate(LAYOUT))
        for cn, fl in CONFIGS:
            p = os.path.join(w.d, "s.ll")
            ok, err, _ = w.compile(inc("vmmlib.hpp") + body, fl, CXX, ir, p)
            if not ok: r.add("layout under " + cn, "compiles", False, first_error(err), where(err)); continue
            for m in re.finditer(r"@s(\d+) = .*constant i64 (\d+)", open(p).read()):
                k = LAYOUT[int(m.group(1))]
                if cn == "default": sizes[k] = int(m.group(2))
                else: r.add("layout of %s under %s" % (k, cn), "same size and alignment in every configuration", sizes.get(k) == int(m.group(2)), "sizeof %d, default %d" % (int(m.group(2)) >> 12, sizes.get(k, 0) >> 12), k)
        if len(sizes) != len(LAYOUT): r.broken.append("only %d layouts were read" % len(sizes))
        # controls
        ok, _, _ = w.compile("#include <vmmlib/enable_if.hpp>\nstd::vector<int> v;\n")
        if ok: r.broken.append("the positive control (missing include) was accepted")
    # the same results under each macro
    cfg = [c for c in CONFIGS if c[0] in ("VMMLIB_NO_CONVERSION_OPERATORS", "VMMLIB_CUSTOM_CONFIG", "VMMLIB_NO_TYPEDEFS")]
    if not th: cfg = cfg[:1]
    for cn, fl in cfg:
        for hd, cs in batches(th):
            # the conversions the macro removes are what it is for
            cs = [c for c in cs if c.throws is None and c.only != "compile" and c.props[0] not in ("C23", "C34")
                  and not (cn == "VMMLIB_NO_CONVERSION_OPERATORS" and ": conversion to" in c.title)]
            bad = {}
            for k, i, x, err in run_cases(cs, hd, flags=fl, fname=cn):
                t = cs[i].title if isinstance(i, int) else str(i)
                if k == "nocompile": r.add(t + " with " + cn, "compiles under the macro", False, err[:600], err[:200]); continue
                if k != "ok": r.skipped.append((t, k + ": " + err)); continue
                r.ncases += 1; r.steps += x.info["steps"]; r.functions.update(x.info["visited"])
                f = [o for o in x.obl if not o[2]]
                r.obl += len(x.obl); r.dis += len(x.obl) - len(f)
                if f: bad[i] = f
            if not bad: continue
            # what fails without the macro as well is another property's matter
            sub = sorted(bad)
            for k, j, x, err in run_cases([cs[i] for i in sub], hd, fname="default"):
                same = {(o[0], o[1]) for o in x.obl if not o[2]} if k == "ok" else set()
                for o in bad[sub[j]]:
                    if (o[0], o[1]) in same: r.dis += 1; r.notes.append("the same without the macro: " + o[3][:200])
                    else: r.viol.append(dict(case=cs[sub[j]].title + " with " + cn, what="same meaning under the macro: " + o[1], msg=o[3], loc=o[4]))
    r.sample(dict(headers=hs, rule="alone with two compilers under %d configurations, twice, every ordered pair, strong definitions, layout" % len(CONFIGS)))

def c28(r, prop, th):
    from .c28 import families
    HEAD = "#include <vmmlib/vmmlib.hpp>\nusing namespace vmml;\n"
    with Work() as w:
        J = [(t, c.format(*d), bool(ok(*d)), d, nc) for t, c, ok, dims, nc in families() for d in dims]
        pch = {}
        for nc in (False, True):
            fl = ("-DVMMLIB_NO_CONVERSION_OPERATORS",) if nc else ()
            p = os.path.join(w.d, "h%d.pch" % nc)
            ok, err, _ = w.compile(HEAD, fl, CXX, ["-std=c++11", "-w", "-x", "c++-header"], p, keep=True)
            if not ok: r.broken.append("the headers do not compile: " + first_error(err)); return
            pch[nc] = fl + ("-include-pch", p)
        jobs = [(j, cc) for j in J for cc in ((CXX, GXX) if th else (CXX,))]
        def one(jc):
            j, cc = jc
            if cc == CXX: return w.compile(j[1] + "\n", pch[j[4]], cc)
            return w.compile(HEAD + j[1] + "\n", ("-DVMMLIB_NO_CONVERSION_OPERATORS",) if j[4] else (), cc)
        twins = {}
        with ThreadPoolExecutor(8) as ex:
            for (j, cc), (ok, err, _) in zip(jobs, ex.map(one, jobs)):
                t = "%s <%s>%s" % (j[0], ",".join(str(x) or "-" for x in j[3]), "" if cc == CXX else " (g++)")
                r.ncases += 1
                twins.setdefault(j[0], set()).add(ok)
                if j[2]: r.add(t, "a conforming program compiles", ok, "rejected: %s   [%s]" % (first_error(err)[:300], j[1]), where(err))
                else: r.add(t, "a non-conforming program is rejected", not ok, "accepted by the compiler: " + j[1], j[1])
                if not j[2] and r.ncases % 200 == 3: r.sample(dict(rejected=j[1], because=first_error(err)[-200:]))
        one_sided = [k for k, v in twins.items() if len(v) < 2]
        if one_sided and not r.viol: r.broken.append("no twin for: " + ", ".join(one_sided))
        r.extra["operations"] = len(twins)

SPECIAL = {"C28": c28, "C29": c29}
TECH = {"C28": "compile-fail witnesses: for every constrained operation, every shape (and constness) in range is type-checked and must be accepted exactly when it conforms",
        "C29": "type checking of every header alone, twice and in every order under every configuration macro; linkage analysis of the emitted definitions; layout comparison; value-flow analysis of every operation under the macros"}
