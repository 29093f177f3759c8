"""Compiles the library under test from /repo's working tree, in any build
configuration and instrumentation, together with an explorer of /verif."""
import os, re, glob, hashlib, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, "build", "cache")
POOL = ThreadPoolExecutor(12)

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def repo_sources(kind="c"):
    ext = {"c": "*.c", "cpp": "*.cpp"}[kind]
    out = glob.glob(os.path.join(REPO, "src", ext))
    for m in ("collections", "utils"):
        out += glob.glob(os.path.join(REPO, "modules", m, "src", "**", ext), recursive=True)
    return sorted(out)

def headers_digest():
    h = hashlib.sha256()
    fs = []
    for d in ("include", "modules/utils/include", "modules/collections/include"):
        fs += glob.glob(os.path.join(REPO, d, "**", "*"), recursive=True)
    fs += [os.path.join(REPO, "config.h.in")]
    for d in ("src", "modules/utils/src", "modules/collections/src"):   # private headers, included .c files
        fs += glob.glob(os.path.join(REPO, d, "**", "*.h*"), recursive=True)
        fs += glob.glob(os.path.join(REPO, d, "**", "*.inc"), recursive=True)
    fs += glob.glob(os.path.join(H, "*.h")) + glob.glob(os.path.join(H, "*.hpp"))
    for f in sorted(set(fs)):
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

TYPES = {"int": "unsigned int", "short": "unsigned short", "long": "unsigned long"}

def config_h(label="int", index="int", dist="double", debug=False):
    src = open(os.path.join(REPO, "config.h.in")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    ver = re.search(r"project\s*\(\s*\w+\s+VERSION\s+([\d.]+)", cm)
    ver = ver.group(1) if ver else "0.0.0"
    p = (ver.split(".") + ["0", "0"])[:3]
    sub = {"LABEL_TYPE": TYPES[label], "INDEX_TYPE": TYPES[index], "DISTANCE_TYPE": dist,
           "D_MAX": "DBL_MAX" if dist == "double" else "FLT_MAX", "D_MIN": "DBL_MIN" if dist == "double" else "FLT_MIN",
           "HDBSCAN_MAJOR_VERSION": p[0], "HDBSCAN_MINOR_VERSION": p[1], "HDBSCAN_PATCH_VERSION": p[2], "HDBSCAN_VERSION": ver}
    src = re.sub(r"#cmakedefine\s+DEBUG\b.*", "#define DEBUG 1" if debug else "/* #undef DEBUG */", src)
    src = re.sub(r"#cmakedefine\s+(\w+).*", r"/* #undef \1 */", src)
    return re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), ""), src)

def incs(cfgdir):
    return ["-I" + cfgdir] + ["-I" + os.path.join(REPO, d) for d in ("include", "modules/utils/include", "modules/collections/include")] + ["-I" + H]

ASAN = ["-fsanitize=address", "-fno-sanitize-recover=all"]
FLAVORS = {
    # sequential exploration: memory errors fail loudly, uninitialised automatic variables get a pattern
    "asan": dict(c=["-O1", "-g", "-fno-omit-frame-pointer", "-fopenmp", "-ftrivial-auto-var-init=pattern"] + ASAN, link=["-fopenmp"] + ASAN),
    "plain": dict(c=["-O2", "-g", "-fopenmp"], link=["-fopenmp"]),
    "pic": dict(c=["-O1", "-g", "-fPIC", "-fopenmp", "-ftrivial-auto-var-init=pattern"], link=["-fopenmp"]),
    "asanpic": dict(c=["-O1", "-g", "-fPIC", "-fno-omit-frame-pointer", "-fopenmp", "-ftrivial-auto-var-init=pattern"] + ASAN, link=["-fopenmp"] + ASAN),
    # every memory access of the library calls back into the harness
    "addr": dict(c=["-O2", "-g", "-fopenmp", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"], link=["-fopenmp"]),
    "coop": dict(c=["-O0", "-g", "-fno-builtin", "-fopenmp", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-fno-omit-frame-pointer", "-fno-stack-protector", "-ftrivial-auto-var-init=pattern"], link=["-no-pie"]),
}

class Build:
    """A scratch directory for one check; removed when the check ends."""
    def __init__(self, name):
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        os.makedirs(CACHE, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + ".", dir=os.path.join(VERIF, "build"))
        self.hd = headers_digest()
        self.cfgs = {}
        self.t0 = time.time()
    def close(self):
        if os.environ.get("VERIF_KEEP"): return
        shutil.rmtree(self.dir, ignore_errors=True)
    def cfg(self, **kw):
        key = "_".join("%s-%s" % i for i in sorted(kw.items())) or "default"
        if key not in self.cfgs:
            d = os.path.join(self.dir, "cfg_" + key); os.makedirs(d)
            open(os.path.join(d, "config.h"), "w").write(config_h(**kw))
            self.cfgs[key] = (d, hashlib.sha256(config_h(**kw).encode()).hexdigest())
        return self.cfgs[key]
    def obj(self, src, flags, cfg, cxx=False):
        d, dig = cfg
        comp = (["g++", "-std=gnu++17"] if cxx else ["gcc", "-std=gnu11", "-fgnu89-inline"])
        base = comp + flags + ["-w"]
        key = hashlib.sha256(("|".join(base) + src + self.hd + dig + REPO).encode() + open(src, "rb").read()).hexdigest()[:32]
        out = os.path.join(CACHE, key + ".o")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid() + hashlib.md5(src.encode()).hexdigest()[:6]
            sh(base + incs(d) + ["-c", src, "-o", tmp])
            os.replace(tmp, out)
        return out
    def objs(self, srcs, flags, cfg, cxx=False):
        return [POOL.submit(self.obj, s, flags, cfg, cxx) for s in srcs]
    def explorer(self, src, name, flavor="asan", cfg=None, defs=(), cpp_api=False, extra_c=(), link=(), extra_flags=(), shim=True, harness_instr=False, lib=True, extra_cpp=(), tail=()):
        cfg = self.cfg(**(cfg or {}))
        fl = FLAVORS[flavor]
        f = self.objs(repo_sources("c"), fl["c"] + list(extra_flags), cfg) if lib else []
        if shim:
            f += self.objs([os.path.join(H, "sut.c")], fl["c"], cfg)
        f += self.objs([os.path.join(H, e) for e in extra_c], fl["c"], cfg)
        if cpp_api:
            f += self.objs(repo_sources("cpp"), fl["c"] + list(extra_flags), cfg, True)
        f += self.objs([os.path.join(H, e) for e in extra_cpp], fl["c"], cfg, True)
        hf = ["-O2", "-g"] + (fl["c"] if harness_instr else []) + ["-D" + d for d in defs]
        f += self.objs([os.path.join(H, src)], hf, cfg, True)
        out = os.path.join(self.dir, name)
        sh(["g++"] + fl["link"] + list(link) + ["-Wl,--allow-multiple-definition", "-o", out] + [x.result() for x in f] + ["-lm", "-lpthread"] + list(tail))
        return out
    def shared(self, name, flavor="pic", cfg=None, extra_c=("sut.c",), cpp_api=False):
        cfg = self.cfg(**(cfg or {}))
        fl = FLAVORS[flavor]
        f = self.objs(repo_sources("c"), fl["c"], cfg) + self.objs([os.path.join(H, e) for e in extra_c], fl["c"], cfg)
        if cpp_api:
            f += self.objs(repo_sources("cpp"), fl["c"], cfg, True)
        out = os.path.join(self.dir, name)
        return POOL.submit(lambda: (sh(["g++", "-shared"] + fl["link"] + ["-Wl,--allow-multiple-definition", "-Wl,-Bsymbolic", "-o", out] + [x.result() for x in f] + ["-lm"]), out)[1])
