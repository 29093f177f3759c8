"""Driver of the Python binding: every word of calls on one and two clustering objects, every element type
and array layout, every invalid argument; the C interface (libref.so) says what each call must return.
usage: pybind.py DIR list|work|one|desc ...   (DIR holds PyHdbscan.so and libref.so)"""
import sys, os, ctypes, struct, json, itertools, weakref, gc
DIR = sys.argv[1]
sys.path.insert(0, DIR)
import numpy as np
gc.disable()
import PyHdbscan as mod
ref = ctypes.CDLL(os.path.join(DIR, "libref.so"))
L = ctypes.c_long
for f in (ref.ref_sizeof, ref.ref_result, ref.ref_map): f.restype = L
INDEX_MAX = (1 << (8 * ref.ref_sizeof(1))) - 1
CODE = {"f8": 1, "f4": 2, "i4": 0, "i8": 3, "i2": 4}

class Fail(Exception): pass
stats = dict(transitions=0)
states = set()

memo = {}
BUFN = 1 << 20
BUF = (L * BUFN)()
def expected(key, data, mins):
    """Labels and hierarchy the C interface computes for data (2-d, C order), run with mins[0], rerun with the rest."""
    k = (key, mins)
    if key is None or k not in memo:
        rer = (L * max(1, len(mins) - 1))(*mins[1:])
        n = ref.ref_result(data.ctypes.data_as(ctypes.c_void_p), L(data.shape[0]), L(data.shape[1]), L(CODE[data.dtype.str[1:]]), L(mins[0]), rer, L(len(mins) - 1), BUF, L(BUFN))
        if n < 0: raise RuntimeError("reference run failed")
        v = BUF[:n]; r = v[0]; labels = v[1:1 + r]; p = 1 + r; nh = v[p]; p += 1; h = {}
        for _ in range(nh): h[v[p]] = v[p + 1:p + 1 + r]; p += 1 + r
        res = (labels, h)
        if key is None: return res
        memo[k] = res
    return memo[k]

def expected_map(labels, b, e):
    k = ("m", tuple(labels), b, e)
    if k not in memo:
        buf = (L * (3 * (e - b) + 4))()
        ref.ref_map((L * max(1, len(labels)))(*labels), L(len(labels)), L(b), L(e), buf)
        p = 1; m = {}
        for _ in range(buf[0]):
            lab, c = buf[p], buf[p + 1]; m[lab] = list(buf[p + 2:p + 2 + c]); p += 2 + c
        memo[k] = m
    return memo[k]

def ints(x): return [int(v) for v in x]
def plain(d): return {int(k): ints(v) for k, v in d.items()}

class Obj:
    """One clustering object and what its user knows about it."""
    def __init__(s, m, kept, tag):
        s.o = mod.PyHdbscan(m); s.m = m; s.data = None; s.kept = kept; s.tag = tag; s.labels = s.hier = None
    def keep(s, what, v, frozen, f): s.kept.append((s.tag + what, v, frozen, f))
    def ran(s, what):
        got = s.o.labels
        if ints(got) != s.labels: raise Fail("%s%s: labels %r, the C interface computes %r" % (s.tag, what, list(got), s.labels))
        if (s.o.rows, s.o.cols, s.o.minPoints) != (s.data.shape[0], s.data.shape[1], s.m): raise Fail("%s%s: rows, cols, minPoints are %r instead of %r" % (s.tag, what, (s.o.rows, s.o.cols, s.o.minPoints), s.data.shape + (s.m,)))
        s.keep(what + ".labels", got, list(s.labels), ints)
    def run(s, key, arr, data):
        e = s.o.run(arr)
        s.key, s.data = key, data
        s.labels, s.hier = expected(key, data, (s.m,)); s.hist = (s.m,)
        if e != 0: raise Fail("%srun returned %r" % (s.tag, e))
        s.ran("run(%s)" % (key,))
    def rerun(s, k):
        if s.data is None: return s.raises("rerun(%d) before run" % k, lambda: s.o.rerun(k))
        e = s.o.rerun(k)
        s.m = k
        s.labels, s.hier = expected(s.key, s.data, (k,)); s.hist += (k,)
        if e != 0: raise Fail("%srerun(%d) returned %r" % (s.tag, k, e))
        s.ran("rerun(%d)" % k)
    def map(s, b, e):
        if s.data is None: return s.raises("getClusterMap before run", lambda: s.o.getClusterMap(b, e))
        n = s.data.shape[0]; e = n + e if e <= 0 else min(e, n); b = min(b, e)
        got = s.o.getClusterMap(b, e); want = expected_map(s.labels, b, e)
        if plain(got) != want: raise Fail("%sgetClusterMap(%d, %d) is %r, the C interface computes %r" % (s.tag, b, e, plain(got), want))
        if plain(s.o.clusterMap) != want: raise Fail("%sclusterMap is %r after getClusterMap(%d, %d) returned %r" % (s.tag, plain(s.o.clusterMap), b, e, want))
        s.keep("getClusterMap(%d,%d)" % (b, e), got, {k: list(v) for k, v in want.items()}, plain)
        for k, v in got.items(): s.keep("getClusterMap(%d,%d)[%d]" % (b, e, k), v, list(want[int(k)]), ints)
    def hierarchy(s):
        if s.data is None: return s.raises("getHierarchies before run", lambda: s.o.getHierarchies())
        s.o.getHierarchies(); got = s.o.hierarchy
        if plain(got) != s.hier: raise Fail("%shierarchy is %r, the C interface computes %r" % (s.tag, plain(got), s.hier))
        s.keep("hierarchy", got, {k: list(v) for k, v in s.hier.items()}, plain)
        for k, v in got.items(): s.keep("hierarchy[%d]" % k, v, list(s.hier[int(k)]), ints)
    def reinit(s, m):
        s.o.__init__(m); s.m = m; s.data = None; s.labels = None
    def raises(s, what, f):
        try: f()
        except Exception: return
        raise Fail("%s%s raised no exception" % (s.tag, what))

def unchanged(kept):
    for what, v, frozen, f in kept:
        try: now = f(v)
        except Exception as e: now = "unreadable (%s)" % e
        if now != frozen: raise Fail("what %s returned changed afterwards: %r, was %r" % (what, now, frozen))

A1 = np.array([[0, 0], [1, 0], [0, 1], [9, 9], [9, 8], [8, 9], [4, 5]], dtype="f8")
A2 = np.array([[3], [3], [4], [10]], dtype="f8")
A3 = np.array([[0], [2], [3], [11], [12], [14], [30], [31], [33], [34]], dtype="i4")
A4 = np.array([5.0, 6.0], dtype="f4").reshape(2, 1)
DATA = {"A1": A1, "A2": A2, "A3": A3, "A4": A4}

BAD = [("run()", lambda o: o.run()), ("run(None)", lambda o: o.run(None)), ("run([1,2,3])", lambda o: o.run([1, 2, 3])), ("run('x')", lambda o: o.run("x")),
       ("run(empty)", lambda o: o.run(np.zeros((0, 2)))), ("run(no columns)", lambda o: o.run(np.zeros((3, 0)))), ("run(0-d)", lambda o: o.run(np.float64(3) * np.ones(()))),
       ("run(3-d)", lambda o: o.run(np.zeros((2, 2, 2)))), ("run(objects)", lambda o: o.run(np.array([[1, 2], [3, 4]], dtype=object))),
       ("run(strings)", lambda o: o.run(np.array([["a"], ["b"]]))), ("run(records)", lambda o: o.run(np.zeros(3, dtype=[("x", "f8"), ("y", "i4")]))),
       ("run(1, 2)", lambda o: o.run(A1, A2)),
       ("rerun()", lambda o: o.rerun()), ("rerun(1)", lambda o: o.rerun(1)), ("rerun(0)", lambda o: o.rerun(0)), ("rerun(-3)", lambda o: o.rerun(-3)),
       ("rerun(None)", lambda o: o.rerun(None)), ("rerun('3')", lambda o: o.rerun("3")), ("rerun(2**70)", lambda o: o.rerun(2 ** 70)), ("rerun(max+1)", lambda o: o.rerun(INDEX_MAX + 1)),
       ("rerun(max+4)", lambda o: o.rerun(INDEX_MAX + 4)),
       ("getClusterMap()", lambda o: o.getClusterMap()), ("getClusterMap(0)", lambda o: o.getClusterMap(0)), ("getClusterMap(-1, 1)", lambda o: o.getClusterMap(-1, 1)),
       ("getClusterMap(2, 1)", lambda o: o.getClusterMap(2, 1)), ("getClusterMap(0, 1000)", lambda o: o.getClusterMap(0, 1000)), ("getClusterMap(1000, 1001)", lambda o: o.getClusterMap(1000, 1001)),
       ("getClusterMap(0, 2**40)", lambda o: o.getClusterMap(0, 2 ** 40)), ("getClusterMap(-2**31, 2)", lambda o: o.getClusterMap(-2 ** 31, 2)), ("getClusterMap('a', 'b')", lambda o: o.getClusterMap("a", "b")),
       ("getClusterMap(-1, -1)", lambda o: o.getClusterMap(-1, -1)), ("getClusterMap(0, -1)", lambda o: o.getClusterMap(0, -1)),
       ("__init__(1)", lambda o: o.__init__(1)), ("__init__(-1)", lambda o: o.__init__(-1)), ("__init__()", lambda o: o.__init__()), ("__init__('a')", lambda o: o.__init__("a")),
       ("__init__(max+3)", lambda o: o.__init__(INDEX_MAX + 3)), ("__init__(x=2)", lambda o: o.__init__(x=2)), ("__init__(0)", lambda o: o.__init__(0))]
NEW = [(), (1,), (0,), (-1,), (-2 ** 31,), (2 ** 70,), (INDEX_MAX + 1,), (INDEX_MAX + 3,), ("2",), (None,), (2, 3), (2.5,), ([2],)]

OPS = [("run(%s)" % k, (lambda k: lambda o: o.run(k, DATA[k], DATA[k]))(k)) for k in ("A1", "A2", "A3")]
OPS += [("rerun(%d)" % k, (lambda k: lambda o: o.rerun(k))(k)) for k in (2, 3, 5)]
OPS += [("map(0,n)", lambda o: o.map(0, 0)), ("map(1,3)", lambda o: o.map(1, 3)), ("hierarchy", lambda o: o.hierarchy()), ("init(3)", lambda o: o.reinit(3))]
NB = len(BAD)
badop = [(w, (lambda w, f: lambda o: o.raises(w, lambda: f(o.o)))(w, f)) for w, f in BAD]
MIN = [op for op in OPS if op[0] in ("run(A1)", "run(A2)", "rerun(3)", "map(0,n)", "hierarchy", "init(3)")]

def digits(i, base, n):
    r = []
    for _ in range(n): r.append(i % base); i //= base
    return r

def play(objs, steps, kept):
    for k, (what, f) in steps:
        o = objs[k]
        try: f(o)
        except Fail as e: raise Fail("at %s%s: %s" % (o.tag, what, e))
        except Exception as e: raise Fail("at %s%s: unexpected %s: %s" % (o.tag, what, type(e).__name__, e))
        unchanged(kept); stats["transitions"] += 1
        states.add(hash((what,) + tuple((x.m, x.data is not None and x.key, x.tag) for x in objs)))

def word_case(ms, ops, n, i, extra=0):
    """A word over ops for each object; the objects are then dropped in either order while results live on."""
    base = len(ops) * len(ms); kept = []
    objs = [Obj(m, kept, "ab"[k] + "." if len(ms) > 1 else "") for k, m in enumerate(ms)]
    order = i & 1 if len(ms) > 1 else 0; i = i >> 1 if len(ms) > 1 else i
    steps = [(d // len(ops), ops[d % len(ops)]) for d in digits(i, base, n)]
    play(objs, steps, kept)
    for o in (objs if order == 0 else objs[::-1]): o.o = None; unchanged(kept)
def word_desc(ms, ops, n, i):
    base = len(ops) * len(ms); j = i >> 1 if len(ms) > 1 else i
    return "objects %s: %s; dropped %s" % (ms, " ".join("%s%s" % ("ab"[d // len(ops)] + "." if len(ms) > 1 else "", ops[d % len(ops)][0]) for d in digits(j, base, n)), "last first" if len(ms) > 1 and i & 1 else "first first")

# ---- element types and layouts
TYPES = ["f8", "f4", "i4", "i8", "i2"]
def lay_c(a): return a
def lay_f(a): return np.array(a, order="F", copy=True)
def lay_step(a):
    b = np.full((a.shape[0] * 2, a.shape[1] * 3), 77, dtype=a.dtype); b[::2, ::3] = a; return b[::2, ::3]
def lay_neg(a): return np.array(a[::-1, ::-1], order="C", copy=True)[::-1, ::-1]
def lay_t(a): return np.array(a.T, order="C", copy=True).T
def lay_ro(a):
    b = a.copy(); b.flags.writeable = False; return b
def lay_swap(a): return a.astype(a.dtype.newbyteorder(">"))
def lay_unal(a):
    raw = np.zeros(a.nbytes + 1, dtype="u1"); v = raw[1:1 + a.nbytes].view(a.dtype).reshape(a.shape); v[...] = a; return v
class Sub(np.ndarray): pass
def lay_sub(a): return a.view(Sub)
LAYOUTS = [("C", lay_c), ("Fortran", lay_f), ("strided", lay_step), ("negative strides", lay_neg), ("transposed", lay_t), ("read-only", lay_ro), ("swapped bytes", lay_swap), ("unaligned", lay_unal), ("subclass", lay_sub)]
VALUES = {"f8": [-1e9, 0.0, 0.1, 2.5], "f4": [-1e6, 0.0, 0.1, 2.5], "i4": [-2 ** 30, -1, 0, 2 ** 30], "i8": [-2 ** 40, -1, 0, 2 ** 52], "i2": [-32768, -1, 0, 32767]}
SHAPES = [(2, 1), (3, 1), (4, 1), (2, 2), (5, 1), (3, 2)]
def grid(th): return [(t, s) for t in TYPES for s in SHAPES if th or s[0] * s[1] <= 4 or (s == (5, 1) and t in ("f8", "i2")) or (s == (3, 2) and t in ("f4", "i8"))]
def type_case(th, i):
    for t, s in grid(th):
        c = 4 ** (s[0] * s[1]) * 2
        if i < c: return t, s, 2 + i % 2, [VALUES[t][d] for d in digits(i // 2, 4, s[0] * s[1])]
        i -= c
def type_run(th, i):
    t, s, m, vals = type_case(th, i)
    base = np.array(vals, dtype=t).reshape(s); kept = []
    want = None
    o = Obj(m, kept, "")
    for name, f in LAYOUTS:
        if want is None: want = expected(None, base, (m,))
        arr = f(base); was = arr.copy()
        if o.o.run(arr) != 0: raise Fail("run of a %s array failed" % name)
        if ints(o.o.labels) != want[0]: raise Fail("%s array of %s: labels %r, the C interface computes %r" % (name, t, o.o.labels, want[0]))
        if not (arr == was).all(): raise Fail("run changed the %s array it was given" % name)
        arr2 = None
        if arr.flags.writeable and name not in ("C", "subclass"): arr[...] = 0         # a later rerun must not look at it
        o.o.getHierarchies()
        if plain(o.o.hierarchy) != want[1]: raise Fail("%s array of %s: hierarchy %r, the C interface computes %r" % (name, t, plain(o.o.hierarchy), want[1]))
        del arr, arr2; stats["transitions"] += 1
    k = 5 - m
    o.o.rerun(k); w2 = expected(None, base, (k,))
    if ints(o.o.labels) != w2[0]: raise Fail("rerun(%d) after a run of %s: labels %r, the C interface computes %r" % (k, t, o.o.labels, w2[0]))
    if s[1] == 1:
        o.o.__init__(m); o.o.run(base[:, 0])
        if ints(o.o.labels) != want[0]: raise Fail("one-dimensional array of %s: labels %r, the C interface computes %r" % (t, o.o.labels, want[0]))
        if (o.o.rows, o.o.cols) != s: raise Fail("one-dimensional array: rows, cols are %r" % ((o.o.rows, o.o.cols),))
    states.add(hash((t, s, m, tuple(vals))))
def type_desc(th, i):
    t, s, m, vals = type_case(th, i); return "%s %dx%d minPoints %d %r in %d layouts" % (t, s[0], s[1], m, vals, len(LAYOUTS))

# other element types: refused, or clustered like the same numbers in double
OTHER = ["u1", "i1", "u2", "u4", "u8", "f2", "g", "q", "Q", "?", "c8", "c16", "M8[s]", "m8[s]", "S4", "U4", "V8", "O"]
def other_run(i):
    t, m, k = OTHER[i // 4], 2 + i % 2, i // 2 % 2
    base = np.array([[0], [1], [1], [0], [1], [0]] if k else [[0, 1], [1, 1], [0, 0]])
    arr = base.astype(t) if t not in ("V8",) else np.zeros(base.shape, dtype=t)
    o = Obj(m, [], "")
    before = o.o.minPoints
    try: e = o.o.run(arr)
    except Exception:
        o.raises("rerun after a refused run", lambda: o.o.rerun(3)); states.add(hash((t, m, k, 0))); return
    want = expected(None, base.astype("f8"), (m,))
    if e == 0 and ints(o.o.labels) != want[0]: raise Fail("array of type %s: labels %r, the C interface computes %r for the same numbers" % (t, o.o.labels, want[0]))
    states.add(hash((t, m, k, 1)))

# every word of four values at the limits of the element type
LIMITS = {"u1": [0, 100, 127, 255], "i1": [-128, -1, 0, 127], "u2": [0, 32767, 32768, 65535], "u4": [0, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1], "u8": [0, 2 ** 32, 2 ** 50, 2 ** 50 + 7],
          "Q": [1, 2 ** 31, 2 ** 33, 2 ** 48], "q": [-2 ** 50, -1, 2 ** 31, 2 ** 50], "f2": [-65504.0, -0.5, 1024.0, 0.25], "g": [-1e9, 0.125, 2.5, 1e9], "?": [0, 1, 1, 0]}
LT = sorted(LIMITS); LN = 5
def limit_case(i): return LT[i % len(LT)], 2 + i // len(LT) % 2, i // (2 * len(LT))
def limit_run(i):
    t, m, w = limit_case(i); base = np.array([[LIMITS[t][d]] for d in digits(w, 4, LN)])
    arr = np.array([[LIMITS[t][d]] for d in digits(w, 4, LN)], dtype=t); was = arr.copy()
    o = Obj(m, [], "")
    try: e = o.o.run(arr)
    except Exception:
        o.raises("rerun after a refused run", lambda: o.o.rerun(3)); states.add(hash((t, m, w, 0))); return
    want = expected(None, np.array(base.astype("f8"), order="C"), (m,))
    if e == 0 and ints(o.o.labels) != want[0]: raise Fail("array of type %s: labels %r, the C interface computes %r for the same numbers" % (t, o.o.labels, want[0]))
    if not (arr == was).all(): raise Fail("run changed the array it was given")
    states.add(hash((t, m, w, 1)))
def limit_desc(i):
    t, m, w = limit_case(i); return "type %s minPoints %d values %r" % (t, m, [LIMITS[t][d] for d in digits(w, 4, LN)])
# numbers of points around the limits of narrow integers
SIZES = [127, 128, 129, 254, 255, 256, 257, 300, 515]
def size_data(i):
    t = TYPES[i % 5]; n = SIZES[i // 5 % len(SIZES)]; sh = i // 5 // len(SIZES)
    a = np.arange(n)
    return t, n, sh, ((a // 2 * 10 + a % 2 * 3) % 32000 if sh == 0 else (a * 37 % 101 + a % 3 * 4000) if sh == 1 else np.where(a < n - 20, a % 50, 9000 + a % 11 * 3)).astype(t).reshape(n, 1)
def size_run(i):
    t, n, sh, a = size_data(i); kept = []; o = Obj(2, kept, "")
    key = ("size", i)
    play([o], [(0, ("run", lambda o: o.run(key, a, a))), (0, ("map", lambda o: o.map(0, 0))), (0, ("hierarchy", lambda o: o.hierarchy())), (0, ("rerun", lambda o: o.rerun(5))), (0, ("map", lambda o: o.map(1, n - 1))), (0, ("hierarchy", lambda o: o.hierarchy())), (0, ("run(A1)", lambda o: o.run("A1", A1, A1)))], kept)
    memo.clear()
def size_desc(i): t, n, sh, a = size_data(i); return "%d points of type %s, shape %d" % (n, t, sh)

# ---- invalid arguments
def new_run(i):
    try: o = mod.PyHdbscan(*NEW[i])
    except Exception: return
    raise Fail("PyHdbscan%r raised no exception" % (NEW[i],))
class Child(mod.PyHdbscan):
    def __init__(s, *a): s.mine = a                     # does not call the base: the object is never initialised
RAW = [("run", lambda o: o.run(A1)), ("rerun", lambda o: o.rerun(3)), ("getClusterMap", lambda o: o.getClusterMap(0, 1)), ("getHierarchies", lambda o: o.getHierarchies()),
       ("labels", lambda o: o.labels), ("clusterMap", lambda o: o.clusterMap), ("hierarchy", lambda o: o.hierarchy)]
def raw_run(i):
    how, i = i % 2, i // 2
    o = mod.PyHdbscan.__new__(mod.PyHdbscan) if how else Child(5)
    for d in digits(i, len(RAW), 2):
        try: RAW[d][1](o)
        except Exception: continue
        raise Fail("%s of an object that was never initialised raised no exception" % RAW[d][0])
    mod.PyHdbscan.__init__(o, 2); o.run(A1)
    if ints(o.labels) != expected("A1", A1, (2,))[0]: raise Fail("labels %r" % (o.labels,))
def bad_case(depth, i):
    """One bad call at every place of a word of good ones."""
    w = digits(i // (NB * (depth + 1)), len(MIN), depth); b = i % NB; pos = i // NB % (depth + 1)
    steps = [MIN[d] for d in w]; steps.insert(pos, badop[b]); return steps
def bad_run(depth, i):
    kept = []; o = Obj(2, kept, "")
    play([o], [(0, s) for s in bad_case(depth, i)], kept)

# ---- nothing stays allocated
try: live = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes; live.restype = ctypes.c_size_t
except AttributeError: live = None
LEAK = OPS + [badop[k] for k in range(NB)]
def leak_run(n, i):
    steps = [(0, LEAK[d]) for d in digits(i, len(LEAK), n)]
    def once():
        kept = []; o = Obj(2, kept, ""); play([o], steps, kept)
        o.o.run(A2) if i % 2 else None
    for _ in range(4): once()
    if live is None: return
    was = live(); grow = 0
    for r in range(12):
        once(); now = live(); grow = grow + 1 if now > was else 0; was = now
        if not grow: return                           # memory was stable over one round: nothing is kept per round
    raise Fail("memory in use grows in each of 12 rounds of %s" % " ".join(s[1][0] for s in steps))

def families(th):
    d1, d2, dm = (5, 3, 4) if not th else (6, 4, 5)
    f = []
    for n in range(1, d1 + 1 if th else d1): f.append(("one-%d" % n, len(OPS) ** n, (lambda n: lambda i: word_case((2,), OPS, n, i))(n), (lambda n: lambda i: word_desc((2,), OPS, n, i))(n)))
    for n in range(1, d2 + 1): f.append(("two-%d" % n, 2 * (2 * len(OPS)) ** n, (lambda n: lambda i: word_case((2, 4), OPS, n, i))(n), (lambda n: lambda i: word_desc((2, 4), OPS, n, i))(n)))
    f.append(("two-core-%d" % dm, 2 * (2 * len(MIN)) ** dm, lambda i: word_case((3, 2), MIN, dm, i), lambda i: word_desc((3, 2), MIN, dm, i)))
    f.append(("types", sum(4 ** (s[0] * s[1]) * 2 for t, s in grid(th)), lambda i: type_run(th, i), lambda i: type_desc(th, i)))
    f.append(("other-types", 4 * len(OTHER), other_run, lambda i: "type %s" % OTHER[i // 4]))
    f.append(("limits-%d" % LN, len(LT) * 2 * 4 ** LN, limit_run, limit_desc))
    f.append(("sizes", 5 * len(SIZES) * 3, size_run, size_desc))
    f.append(("new", len(NEW), new_run, lambda i: "PyHdbscan%r" % (NEW[i],)))
    f.append(("uninitialised", 2 * len(RAW) ** 2, raw_run, lambda i: " ".join(RAW[d][0] for d in digits(i // 2, len(RAW), 2))))
    for n in ((1, 2, 3) if not th else (1, 2, 3, 4)): f.append(("bad-%d" % n, NB * (n + 1) * len(MIN) ** n, (lambda n: lambda i: bad_run(n, i))(n), (lambda n: lambda i: " ".join(s[0] for s in bad_case(n, i)))(n)))
    for n in (1, 2): f.append(("leak-%d" % n, len(LEAK) ** n, (lambda n: lambda i: leak_run(n, i))(n), (lambda n: lambda i: " ".join(LEAK[d][0] for d in digits(i, len(LEAK), n)))(n)))
    return f

def say(t):
    with open(os.environ["VERIF_REPORT"], "a") as f: f.write(t + "\n")

def main(a):
    th = "thorough" in a; fams = families(th)
    def locate(g):
        for f in fams:
            if g < f[1]: return f, g
            g -= f[1]
    if a[0] == "list":
        for f in fams: print("FAMILY %s %d" % (f[0], f[1]))
    elif a[0] == "desc":
        f, i = locate(int(a[1])); print(f[3](i))
    elif a[0] == "one":
        f, i = locate(int(a[1]))
        try: f[2](i)
        except Fail as e: say("FAIL %s" % e); return 77
        say("DONE")
    else:
        w, of, start = int(a[1]), int(a[2]), int(a[3]); fd = os.open(a[4], os.O_WRONLY); lo = 0
        for f in fams:
            b = max(start, lo)
            for g in range(b + (w - b) % of, lo + f[1], of):
                os.pwrite(fd, struct.pack("<q", g), 0)
                try: f[2](g - lo)
                except Fail as e:
                    say("STAT " + json.dumps(dict(stats, states=list(states)))); say("FAIL %s" % e); return 77
            lo += f[1]
        say("DONE " + json.dumps(dict(stats, states=list(states))))
    return 0
sys.exit(main(sys.argv[2:]))
