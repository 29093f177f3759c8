import hashlib, json, os, sys, time, subprocess, re, shutil
import build as B
VERIF = B.VERIF
ENV = dict(os.environ, OMP_NUM_THREADS="1", LC_ALL="C", TZ="UTC0",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:malloc_fill_byte=190:max_malloc_fill_size=1048576:detect_stack_use_after_return=0:detect_odr_violation=0:quarantine_size_mb=16:handle_abort=1",
           UBSAN_OPTIONS="print_stacktrace=1")

def known_findings(prop):
    """Lines 'known: property=<id> case=<family>:<index> <what>' of known_findings.txt."""
    out = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\w+) case=\"([^\"]+)\" (.*)", l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out

class Run:
    def __init__(self, prop, thorough):
        self.prop, self.thorough = prop, thorough
        self.t0 = time.time()
        self.b = B.Build(prop)
        self.violations, self.notes, self.parts = [], [], []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, cases=0, families=[], samples=[])
        self.complete = True
        self.assumptions = []
        self.known = known_findings(prop)
        self.known_hit = set()
    def explore(self, exe, budget=None, args=(), label=""):
        budget = budget or (3000 if self.thorough else 420)
        sc = os.path.join(self.b.dir, "scratch" + label); os.makedirs(sc, exist_ok=True)
        out = os.path.join(sc, "out.json")
        cmd = [exe, "--out", out, "--scratch", sc, "--budget", str(budget), "--known", ",".join(k for k, _ in self.known)]
        if self.thorough: cmd.append("--thorough")
        r = subprocess.run(cmd + list(args), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if not os.path.exists(out):
            raise B.BuildError("explorer gave no result (exit %d): %s" % (r.returncode, r.stdout[-3000:]))
        j = json.load(open(out))
        if r.stdout.strip(): self.notes.append(r.stdout.strip()[:2000])
        self.add(j, exe, sc, label)
        return j
    def add(self, j, exe=None, sc=None, label=""):
        c = self.cov
        c["states"] += j["states"]; c["transitions"] += j["transitions"]; c["traces_validated_against_impl"] += j["traces"]; c["cases"] += j["cases"]
        for f in j["families"]: c["families"].append(dict(f, part=label) if label else f)
        c["samples"] += j["samples"][:12]
        self.complete = self.complete and j["complete"]
        if j.get("unconfirmed"): self.notes.append("unconfirmed: %s" % (j["unconfirmed"],))
        self.known_hit |= set(j.get("known_hit", []))
        for v in j["violations"]:
            v["part"] = label; self.violations.append(v)
    def finish(self, level="model_checking", rule="", extra=None):
        c = self.cov
        c["exhaustive"] = bool(self.complete)
        c["bounds"] = rule
        ncases = c.pop("cases")
        if ncases != c["traces_validated_against_impl"]: c["cases_explored"] = ncases
        if extra: c.update(extra)
        if len(c["samples"]) > 24: c["samples"] = c["samples"][:24]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier="thorough" if self.thorough else "quick", seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                  level=level, coverage=c, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3), violations=len(self.violations))
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k, what in self.known:
            if k in self.known_hit: print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        print("%s: %d cases, %d states, %d transitions, %d traces, complete=%s, %.1f s" % (self.prop, ncases, c["states"], c["transitions"], c["traces_validated_against_impl"], self.complete, time.time() - self.t0))
        rc = 0
        if self.violations:
            rp = os.path.join(VERIF, "evidence", self.prop + ".replay.json")
            json.dump(self.violations, open(rp, "w"), indent=1)
            for v in self.violations[:3]:
                print("  %s #%s [%s] %s" % (v.get("family"), v.get("index"), v.get("kind"), v.get("case", "")[:600]))
                print("    " + v.get("message", "").replace("\n", "\n    ")[:2500])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            rc = 1
        for n in self.notes[:3]: print("note: " + n)
        self.b.close()
        return rc

CHECKS = {}
def check(*ids):
    def deco(f):
        for i in ids: CHECKS[i] = f
        return f
    return deco

SEQ = ["the library is driven single-threaded here; thread schedules are C10's subject",
       "inputs outside the enumerated spaces are not covered"]

@check("C02", "C03", "C04", "C05", "C06", "C07")
def pipeline(r):
    exe = r.b.explorer("c02.cpp", "pipe", defs=["STAGE=%d" % int(r.prop[1:])])
    r.explore(exe)
    r.assumptions = SEQ + ["reference stages take the library's own earlier stages as input (C01 for distances, C02 for core distances)"]
    return r.finish(rule="every data set and minPts of each listed family (families give the bounds); every level of every run compared with the reference model")

@check("C32")
def stages(r):
    r.explore(r.b.explorer("c02.cpp", "pipe", defs=["STAGE=32"]))
    r.assumptions = SEQ + ["the levels of the full hierarchy are C04's subject"]
    return r.finish(rule="every data set and minPts of each listed family x the listed sequence of stepwise runs (full, compact, compact, full, rerun) on one handle, and full and compact on handles set up by hand")

@check("C20", "C21", "C22", "C23")
def containers(r):
    exe = r.b.explorer("containers.cpp", "cont", defs=["PROP=%d" % int(r.prop[1:])])
    r.explore(exe)
    r.assumptions = ["one container at a time, single-threaded", "histories longer than the listed depths are covered only by the periodic families"]
    return r.finish(rule="every operation word of the listed depths over the listed alphabets; the whole content is compared after every operation")

@check("C24", "C25")
def utils(r):
    r.explore(r.b.explorer("utils.cpp", "utils", defs=["PROP=%d" % int(r.prop[1:])], shim=False))
    r.assumptions = ["arguments outside the listed ranges are not covered"]
    return r.finish(rule="every argument (or pair, triple, bucket count) of the listed ranges")

@check("C26")
def oom(r):
    r.explore(r.b.explorer("oom.cpp", "oom", link=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"]))
    r.assumptions = ["memory fails only while an element is added or a container is created", "allocation goes through malloc, calloc or realloc"]
    return r.finish(rule="every history of the listed depths x every first failing allocation x 1, 2, 3 or all following allocations failing")

@check("C01")
def distances(r):
    r.explore(r.b.explorer("dist.cpp", "dist"))
    r.assumptions = SEQ + ["coordinates whose squared differences overflow or underflow double are outside the property"]
    return r.finish(rule="every data set over the listed boundary values for the listed shapes, all shapes of the sweep; every pair of points, before and after a rerun")

RUNS = {"C08": "every data set and minPts of the listed families, run and rerun; text captured, return value of the propagation step",
        "C09": "every word of handle operations of the listed depths; the handle's complete contents compared with a fresh handle's after every operation",
        "C11": "every data set of the listed families x all permutations (up to 5 points; above that transpositions, rotations, reversal, riffle), translations, mirrors, column changes, scalings by powers of two",
        "C35": "every data set of the listed shapes and patterns x type x layout x position in sealed pages; every word of queries of the listed length, handle and maps compared after each",
        "C31": "every data set over the listed extreme values x minPts; run and rerun"}
@check("C08", "C09", "C11", "C31", "C35")
def runs(r):
    r.explore(r.b.explorer("runs.cpp", "runs", defs=["PROP=%d" % int(r.prop[1:])]))
    r.assumptions = SEQ
    return r.finish(rule=RUNS[r.prop])

POST = {"C13": "every label array of the listed lengths and alphabets x every sub-range, plus periodic long arrays",
        "C14": "every data set of the listed families x every labeling (or the listed partitions); brute-force minima and maxima",
        "C15": "every tuple of ranges over the listed alphabet x prior contents of the result object; every sign pattern",
        "C16": "every key sequence of the listed lengths and alphabets, every ordered request, plus periodic long ones"}
@check("C13", "C14", "C15", "C16")
def post(r):
    r.explore(r.b.explorer("post.cpp", "post", defs=["PROP=%d" % int(r.prop[1:])]))
    r.assumptions = SEQ
    return r.finish(rule=POST[r.prop])

TREE = {"C18": "every graph of the listed sizes, every weight sequence, sort ranges, removal orders; all adjacency lists compared after every operation",
        "C19": "every tree shape of the listed sizes x sizes, constraint counts, level layouts; every detachment sequence; every virtual-child word"}
@check("C18", "C19")
def tree(r):
    r.explore(r.b.explorer("tree.cpp", "tree", defs=["PROP=%d" % int(r.prop[1:])], extra_c=["tree.c"]))
    r.assumptions = SEQ + (["at most one self edge per vertex where edges are removed"] if r.prop == "C18" else ["no more points are detached than a cluster has; levels fall from parents to children"])
    return r.finish(rule=TREE[r.prop])

@check("C17")
def printing(r):
    r.explore(r.b.explorer("print.cpp", "print", extra_c=["tree.c"]))
    r.assumptions = SEQ + ["lines the logger stamps with the time are not judged", "labels and indices below 2^31", "a library built without DEBUG"]
    return r.finish(rule="every run of the listed families, every combination of the listed magnitudes in the printed objects, every file-name length; the numbers shown are compared with the stored ones at the precision shown")

@check("C34")
def exports(r):
    r.explore(r.b.explorer("print.cpp", "exports", defs=["PROP=34"], extra_c=["tree.c"]))
    r.assumptions = SEQ + ["files are obstructed between exports, not while one runs", "what a file on a full disk holds is not judged"]
    return r.finish(rule="every history of the listed length over exports of three hierarchies to two names and obstacles; the whole directory, standard output, descriptors and memory are examined after every export")

@check("C30")
def cells(r):
    for idx in ("int", "short") if not r.thorough else ("int", "short", "long"):
        exe = r.b.explorer("cells.cpp", "cells_" + idx, flavor="addr", cfg=dict(index=idx) if idx != "int" else None, shim=False, extra_c=["cells.c"], link=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=free,--wrap=memcpy,--wrap=memmove"])
        r.explore(exe, label="index-" + idx)
    r.assumptions = SEQ + ["the storage is one block of memory obtained while distances are computed; where it is not, values are compared instead of cells", "distance type double"]
    return r.finish(rule="every pair of every listed number of points; the address of the cell read and written is observed for each")

@check("C12")
def types(r):
    libs = [r.b.shared("%s_%s_%s.so" % (l, i, d), flavor="asanpic", cfg=dict(label=l, index=i, dist=d)) for d in ("double", "float") for l in B.TYPES for i in B.TYPES]
    exe = r.b.explorer("types.cpp", "types", shim=False, lib=False, link=["-rdynamic", "-ldl"])
    for l in libs: l.result()
    r.explore(exe, args=["--libs", r.b.dir])
    r.assumptions = SEQ + ["float configurations: clusters whose stability ties with their children's within 1e-4 may be selected differently", "statistics of float configurations compared at 1e-4 (2e-2 for skewness and kurtosis) where the values spread"]
    return r.finish(rule="every data set of the listed families through all 18 configurations, run and rerun, with maps, statistics and orders; every label array over the boundary values of each label type")

@check("C33")
def log(r):
    libs = [r.b.shared(n, flavor="asanpic", cfg=c) for n, c in (("ordinary.so", {}), ("debug.so", dict(debug=True)))]
    exe = r.b.explorer("log.cpp", "log", shim=False, lib=False, link=["-rdynamic", "-ldl"])
    libs = [l.result() for l in libs]
    r.explore(exe, args=["--ordinary", libs[0], "--debug", libs[1]])
    r.assumptions = SEQ + ["in the debug build the log is opened before it is used and closed before it is opened again", "time zone UTC"]
    return r.finish(rule="every sequence of messages of the listed depths over all types and texts, every history of opening, writing and closing, every length and clock value listed, in both builds; every data set of the listed families through both builds, with all that is shown")

@check("C29")
def cpp(r):
    for cfg in [None] + ([dict(label="long", index="short", dist="float"), dict(label="short", index="long")] if r.thorough else []):
        lab = "-".join(cfg.values()) if cfg else "default"
        r.explore(r.b.explorer("cpp.cpp", "cpp_" + lab, cfg=cfg, cpp_api=True, extra_c=["cpp_c.c"], harness_instr=True), label=lab)
    r.assumptions = SEQ + ["methods declared but not defined (graph methods, Distance::getDistance) are not claimed", "C++ statistics add up in label order: compared at 1e-9"]
    return r.finish(rule="every data set of the listed families through both interfaces; every word of operations of the listed depths on one and two objects; every field offset")

WRAP = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset", "qsort")]
@check("C10")
def threads(r):
    exe = r.b.explorer("coop.cpp", "coop", flavor="coop", cpp_api=True, extra_cpp=["coop_cpp.cpp"], link=WRAP, tail=["-lgomp"])
    r.explore(exe)
    r.assumptions = ["sequentially consistent memory; the code is compiled without optimisation so that every access of the source is a step", "team sizes 2 to 7", "one region at a time is explored, the others under three fixed orders"]
    return r.finish(rule="every parallel region of every run of the listed families: all schedules where the limit allows, else all with the stated number of preemptions; every byte two threads conflict on is a switch point")

@check("C36")
def handles(r):
    exe = r.b.explorer("coop.cpp", "several", flavor="coop", cpp_api=True, extra_cpp=["coop_cpp.cpp"], link=WRAP, tail=["-lgomp"], defs=["PROP=36"], extra_c=["coop_c.c", "tree.c"])
    r.explore(exe)
    r.assumptions = ["sequentially consistent memory; the code is compiled without optimisation so that every access of the source is a step", "each thread runs the library's own parallel regions alone (teams are C10's subject)", "the C library's functions are steps of their own"]
    return r.finish(rule="every group of threads of the listed families; every byte two threads conflict on and every lock is a switch point: where they have none in common, every order is equivalent to the one run, otherwise all schedules where the limit allows, else all with the stated number of preemptions")

def py_run(r, cfg, lab, budget):
    import pyexplore
    b = r.b; c = b.cfg(**cfg); d = os.path.join(b.dir, "py_" + lab); os.makedirs(d)
    fl = B.FLAVORS["asanpic"]
    py = json.loads(subprocess.run(["/usr/bin/python3", "-c", "import sysconfig, numpy, json; print(json.dumps([sysconfig.get_paths()['include'], numpy.get_include()]))"], stdout=subprocess.PIPE, text=True).stdout)
    src = sorted(B.glob.glob(os.path.join(B.REPO, "modules/python/src/*.c")))
    f = b.objs(B.repo_sources("c"), fl["c"], c)
    m = b.objs(src, fl["c"] + ["-I" + x for x in py], c)
    x = b.objs([os.path.join(B.H, "ref.c")], fl["c"], c)
    def so(name, os_): B.sh(["gcc", "-shared"] + fl["link"] + ["-Wl,-Bsymbolic,--allow-multiple-definition", "-o", os.path.join(d, name)] + [o.result() for o in os_] + ["-lm"])
    so("PyHdbscan.so", f + m); so("libref.so", f + x)
    libasan = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = dict(ENV, LD_PRELOAD=os.path.realpath(libasan), PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1")
    try: j = pyexplore.explore(["/usr/bin/python3", os.path.join(B.H, "pybind.py"), d], env, os.path.join(d, "scratch"), r.thorough, budget, known=[k for k, _ in r.known])
    except RuntimeError as e: raise B.BuildError(str(e))
    r.add(j, label=lab)

@check("C27")
def python_binding(r):
    py_run(r, {}, "default", 3000 if r.thorough else 420)
    if r.thorough:
        py_run(r, dict(label="long", index="short"), "long-short", 2000)
        py_run(r, dict(label="short", index="long", dist="float"), "short-long", 2000)
    r.assumptions = SEQ + ["calls from several Python threads are not covered (the binding holds the interpreter lock)"]
    return r.finish(rule="every word of calls of the listed depths on one and two objects, every element type x layout x value tuple, one invalid call at every place of every word of valid ones; labels, maps and hierarchies compared with the C interface, everything returned earlier read again after every call")

def java_run(r, cfg, lab, budget):
    import pyexplore
    b = r.b; c = b.cfg(**cfg); d = os.path.join(b.dir, "java_" + lab); os.makedirs(d)
    fl = B.FLAVORS["asanpic"]
    home = os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("javac"))))
    jni = ["-I" + os.path.join(home, "include"), "-I" + os.path.join(home, "include", "linux")]
    mod = os.path.join(B.REPO, "modules/java/src")
    native = sorted(B.glob.glob(os.path.join(mod, "*.cpp")) + B.glob.glob(os.path.join(mod, "*.c")))
    f = b.objs(B.repo_sources("c"), fl["c"], c) + b.objs(B.repo_sources("cpp"), fl["c"], c, True)
    hd = hashlib.sha256(b"".join(open(h, "rb").read() for h in sorted(B.glob.glob(os.path.join(mod, "*.h"))))).hexdigest()
    m = [o for s in native for o in b.objs([s], fl["c"] + jni + ["-I" + mod, "-DVERIF_H_" + hd[:16]], c, s.endswith("pp"))]
    x = b.objs([os.path.join(B.H, "ref.c"), os.path.join(B.H, "refjni.c")], fl["c"] + jni, c)
    def so(name, os_): B.sh(["g++", "-shared"] + fl["link"] + ["-Wl,-Bsymbolic,--allow-multiple-definition", "-o", os.path.join(d, name)] + [o.result() for o in os_] + ["-lm"])
    so("libhdbscan_java.so", f + m); so("librefjni.so", f + x)
    B.sh(["javac", "-nowarn", "-d", d, "-sourcepath", os.path.join(d, "none"), os.path.join(mod, "bw/co/roguesystems/Hdbscan.java")] + [os.path.join(B.H, "java", n) for n in ("Ref.java", "JavaBind.java")])
    libasan = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = dict(ENV, LD_PRELOAD=os.path.realpath(libasan), ASAN_OPTIONS=ENV["ASAN_OPTIONS"].replace("handle_abort=1", "handle_abort=0:handle_segv=0:handle_sigfpe=0:handle_sigbus=0:handle_sigill=0"))
    env.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx256m", "-Xss4m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=" + os.path.join(d, "hs_err.log"), "-XX:-UsePerfData", "-Xcheck:jni", "-Djava.library.path=" + d, "-cp", d, "JavaBind"]
    try: j = pyexplore.explore(cmd, env, os.path.join(d, "scratch"), r.thorough, budget, known=[k for k, _ in r.known])
    except RuntimeError as e: raise B.BuildError(str(e))
    r.add(j, label=lab)

@check("C28")
def java_binding(r):
    java_run(r, {}, "default", 3000 if r.thorough else 420)
    if r.thorough:
        java_run(r, dict(label="long", index="short"), "long-short", 2000)
        java_run(r, dict(label="short", index="long", dist="float"), "short-long", 2000)
    r.assumptions = SEQ + ["calls from several Java threads are not covered"]
    return r.finish(rule="every word of calls of the listed depths on one and two objects, every small data set over the listed values, one invalid call at every place of every word; labels and maps of all objects compared with the C interface after every call, everything returned earlier read again")

def replay(prop, n):
    """Replays violation n of evidence/<prop>.replay.json (rebuilds first)."""
    v = json.load(open(os.path.join(VERIF, "evidence", prop + ".replay.json")))[n]
    print(json.dumps(v, indent=1))

def main(argv):
    thorough = os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in argv
    ids = [a for a in argv if not a.startswith("-")]
    rc = 0
    for i in ids:
        r = Run(i, thorough)
        try:
            x = CHECKS[i](r)
        except B.BuildError as e:
            print("ERROR %s: %s" % (i, e)); r.b.close(); x = 2
        rc = max(rc, x)
    return rc
