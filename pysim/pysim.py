"""Deterministic simulation of the Python module.

pysim.py sweep --prop P --seed S --from A --to B --cap SEC --out DIR [--max-violations N]
pysim.py replay FILE          one JSON line, exit 1 when the violation appears
pysim.py minimize IN OUT SEC

Runs under the interpreter the module was built for, with the simulated module
(build directory) on PYTHONPATH.  Every run is a program (JSON) drawn from
(property, seed, index) and is executed in forked processes that start from the
same memory image, so a program is one exactly repeatable execution.
"""
import array, atexit, builtins, codecs, contextvars, copy, ctypes, functools, gc, hashlib, importlib, io, itertools, json, operator, os, pickle, pickletools, random, resource, select, signal, struct, subprocess, sys, threading, time, types, weakref

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import hyperjet as hj

MAXSW = 4000


class Shared(ctypes.Structure):
    _fields_ = [("status", ctypes.c_int32), ("nsw", ctypes.c_int32), ("cls", ctypes.c_char * 64), ("msg", ctypes.c_char * 1600), ("op", ctypes.c_char * 320)] + \
        [(n, ctypes.c_uint64) for n in ("steps", "opcode_points", "native_points", "switches", "native_switches", "gil_released", "blocked", "allocs", "frees", "faults", "accesses", "hash", "npc")] + [("pc", ctypes.c_uint64 * 24), ("where", ctypes.c_char * 400)] + \
        [("sw", ctypes.c_uint32 * (2 * MAXSW))]


LIB = ctypes.PyDLL(hj.__file__)
LIB.hjs_shared.restype = ctypes.c_void_p
SH = Shared.from_address(LIB.hjs_shared())
LIB.hjs_begin.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_uint32]
LIB.hjs_arm.argtypes = [ctypes.c_int, ctypes.c_uint32]
LIB.hjs_exclude.argtypes = [ctypes.c_uint64, ctypes.c_uint64]
LIB.hjs_live.restype = ctypes.c_uint64
LIB.hjs_allocs.restype = ctypes.c_uint64
LIB.hjs_addressable.argtypes = [ctypes.c_uint64, ctypes.c_uint64]
LIB.hjs_hash.argtypes = [ctypes.c_uint64]
LIB.hjs_violation.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
LIB.hjs_op.argtypes = [ctypes.c_char_p]
LIB.hjs_setup.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_uint32, ctypes.c_uint32, ctypes.c_void_p, ctypes.c_uint32, ctypes.c_int]
STATS = ("steps", "opcode_points", "native_points", "switches", "native_switches", "gil_released", "blocked", "allocs", "frees", "faults", "accesses")

CLS = {"DDScalar": (2, None), "DScalar": (1, None)}
for _n in range(17):
    CLS["DD%dScalar" % _n] = (2, _n)
    CLS["D%dScalar" % _n] = (1, _n)
CLS = {k: v for k, v in CLS.items() if hasattr(hj, k)}
JETS = tuple(getattr(hj, k) for k in CLS)
NAMES = ("x", "y", "z", "node_17_displacement_u", "node_17_displacement_v", "w")


class Violation(Exception):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg


def violation(cls, msg):
    raise Violation(cls, msg)


# ------------------------------------------------------------------ observation
def b64(v):
    return "nan" if v != v else struct.pack(">d", v).hex()


def dlen(order, n):
    return 1 + n if order == 1 else (n + 1) * (n + 2) // 2


def raw(x):
    """all entries of a dense jet, without a view"""
    try:
        return [float(v) for v in x.__getstate__()[0]]
    except (AttributeError, TypeError, KeyError, IndexError):     # another state format
        return x.data.tolist()


def state(x):
    """everything observable of a value, as a string-comparable structure"""
    if isinstance(x, JETS):
        o = type(x).order
        r = [type(x).__name__, x.size, len(x), b64(x.f), [b64(v) for v in raw(x)], [b64(v) for v in x.g.tolist()]]
        if o == 2:
            r.append([b64(v) for v in x.hm("full").ravel().tolist()])
        return r
    if isinstance(x, hj.SScalar):
        r = " " + repr(x) + " "
        return ["SScalar", b64(x.f), [b64(x.d(n)) if "*d%s " % n in r else None for n in NAMES], x.size]
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return b64(x)
    if isinstance(x, np.ndarray):
        return ["arr", list(x.shape), [state(v) for v in x.ravel().tolist()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [state(v) for v in x]
    if isinstance(x, dict):
        return ["dict"] + sorted([str(k), state(v)] for k, v in x.items())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return state(x.item())
    return repr(type(x))


def dig(o):
    return int.from_bytes(hashlib.blake2b(json.dumps(o).encode(), digest_size=8).digest(), "little")


def note(o):
    LIB.hjs_hash(dig(o))


def at(s):
    LIB.hjs_op(s.encode()[:300])


# ------------------------------------------------------------------ building jets
def rng(*key):
    return random.Random(json.dumps(key))


EXT = False      # whether generated numbers include denormals, infinities and the like
EXTREMES = [5e-324, -5e-324, 1e-310, -2.2e-308, 2.2250738585072014e-308, -0.0, 0.0, 1.7976931348623157e308, -1e300, 1e-200, float("inf"), float("-inf"), float("nan")]


def val(r):
    if EXT and r.random() < 0.12:
        return r.choice(EXTREMES)
    v = round(r.uniform(0.3, 1.9), 6)
    if r.random() < 0.33:
        v = -v
    k = r.randrange(30)
    return 0.0 if k == 0 else v * 1e-12 if k == 1 else v * 1e12 if k == 2 else v


def mk_data(cls, n, seed):
    r = rng("data", seed)
    return [val(r) for _ in range(dlen(CLS[cls][0], n))]


def mk(cls, n, seed):
    """a jet made through one of the public ways, by seed"""
    if cls == "SScalar":
        r = rng("s", seed)
        return hj.SScalar(val(r), {r.choice(NAMES): val(r) for _ in range(r.randrange(5))})
    C, (order, st) = getattr(hj, cls), CLS[cls]
    r = rng("mk", seed)
    way = r.randrange(8)
    data = mk_data(cls, n, seed)
    if way == 0 and n:
        return C.variable(r.randrange(n), data[0], n)
    if way == 1:
        return C.constant(data[0], n) if st is None else C.constant(data[0])
    if way == 2:
        g = np.array(data[1:n + 1])
        if order == 1:
            return C(data[0], g)
        m = np.zeros((n, n))
        for i in range(n):
            for j in range(i, n):
                m[i, j] = m[j, i] = val(r)
        return C(data[0], g, m)
    if way == 3 and n:
        return C.variables([val(r) for _ in range(n)])[r.randrange(n)]
    return C(data)


def via_ctor(x):
    """an independent jet with the same contents"""
    if isinstance(x, hj.SScalar):
        return hj.SScalar(x.f, {n: x.d(n) for n, v in zip(NAMES, state(x)[2]) if v is not None})
    return type(x)(raw(x))


def via_zero(x):
    """the same, not using any part of the copy and restore code"""
    C = type(x)
    y = C.zero(x.size) if CLS[C.__name__][1] is None else C.zero()
    y.data[:] = x.data
    return y


# ------------------------------------------------------------------ operations on slots
UN = ["__neg__", "__abs__", "reciprocal", "sqrt", "cbrt", "cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh", "exp", "log", "log2", "log10", "abs", "arccos", "arcsinh"]
BIN = ["add", "sub", "mul", "truediv"]
IP = ["iadd", "isub", "imul", "itruediv"]
NPU = ["sin", "cos", "exp", "sqrt", "cbrt", "tan", "arctan", "sinh", "tanh", "log", "log2", "log10", "negative", "absolute", "reciprocal", "arcsin", "arccosh"]
NPB = ["add", "subtract", "multiply", "true_divide", "hypot", "arctan2", "less", "equal"]
NPX = ["dot", "sum", "prod", "scale", "rscale", "outer", "cumsum", "iadd", "imul", "max", "pow"]
CMP = ["lt", "le", "gt", "ge", "eq", "ne"]


class Env:
    def __init__(self, S):
        self.S = S
        self.copier = None      # how "copy" operations are carried out


def copy_with(how, x):
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how.startswith("pickle"):
        return pickle.loads(pickle.dumps(x, int(how[6:])))
    if how == "list":
        return copy.deepcopy([x, x])[1]
    if how == "dictcopy":
        return copy.deepcopy({"a": x})["a"]
    raise KeyError(how)


def apply(E, op):
    """one operation; returns what the caller of the library observes"""
    S, k, a = E.S, op[0], op[1:]
    if k == "new":
        S[a[0]] = mk(a[1], a[2], a[3]); return None
    x = S[a[0]]
    dense = not isinstance(x, hj.SScalar)
    if k == "un":
        S[a[2]] = getattr(x, a[1])(); return None
    if k == "pow":
        S[a[2]] = x ** a[1]; return None
    if k == "logb":
        S[a[2]] = x.log(a[1]); return None
    if k == "bin":
        S[a[3]] = getattr(operator, a[1])(x, S[a[2]]); return None
    if k == "binf":
        S[a[3]] = getattr(operator, a[1])(x, a[2]); return None
    if k == "rbinf":
        S[a[3]] = getattr(operator, a[1])(a[2], x); return None
    if k == "fn2":
        y = S[a[2]]
        S[a[3]] = hj.hypot(x, y) if a[1] == "mhypot" else getattr(x, a[1])(y); return None
    if k == "fn3":
        S[a[4]] = x.hypot(S[a[2]], S[a[3]]) if a[1] == "hypot" else hj.hypot(x, S[a[2]], S[a[3]]); return None
    if k == "ip":
        S[a[0]] = getattr(operator, a[1])(x, S[a[2]]); return S[a[0]] is x
    if k == "ipf":
        S[a[0]] = getattr(operator, a[1])(x, a[2]); return S[a[0]] is x
    if k == "alias":
        S[a[1]] = x; return None
    if k == "copy":
        S[a[2]] = E.copier(a[1], x); return None
    if k == "cmp":
        y = S[a[2]] if a[3] is None else a[3]
        return getattr(operator, a[1])(x, y)
    if k == "repr":
        s = repr(x).replace("-nan", "nan")     # the sign of a NaN is not part of its value
        return s if dense else "".join(sorted(s))
    if k == "size":
        return [x.size, len(x)]
    if k == "eval":
        r = rng("eval", a[1])
        if dense:
            return x.eval([val(r) for _ in range(x.size)])
        return "%.9e" % x.eval({n: val(r) for n in NAMES})
    if k == "get":
        return [x.f, None if dense else [x.d(n) for n in NAMES]]
    # dense only
    n = x.size
    if k == "setf":
        x.f = a[1]; return None
    if k == "setd":
        v = x.data; v[a[1] % len(v)] = a[2]; return None
    if k == "setg":
        if n:
            v = x.g; v[a[1] % n] = a[2]
        return None
    if k == "seth":
        if n:
            x.set_h(a[1] % n, a[2] % n, a[3])
        return None
    if k == "h":
        return x.h(a[1] % n, a[2] % n) if n else None
    if k == "sethm":
        r = rng("hm", a[1])
        x.set_hm(np.array([[val(r) for _ in range(n)] for _ in range(n)]).reshape(n, n)); return None
    if k == "hm":
        return x.hm(a[1])
    if k == "views":
        return [x.data.copy(), x.g.copy()]
    if k == "state":
        return x.__getstate__()
    if k == "resize":
        x.resize(a[1]); return None
    if k == "pad":
        S[a[3]] = getattr(x, a[1])(a[2]); return None
    if k == "dumps":
        return len(pickle.dumps(x, a[1])) > 0
    # module functions
    if k == "mf":
        arr = np.empty(2, object)
        arr[0], arr[1] = x, S[a[2]]
        return getattr(hj, a[1])(arr)
    if k == "np":
        arr = np.empty(3, object)
        arr[0], arr[1], arr[2] = x, S[a[2]], x
        f = a[1]
        if f in NPU: return getattr(np, f)(arr)
        if f in NPB: return getattr(np, f)(arr, arr[::-1])
        if f == "dot": return arr.dot(arr[::-1])
        if f == "sum": return arr.sum()
        if f == "prod": return np.prod(arr)
        if f == "scale": return arr * 2.5 + 1.0
        if f == "rscale": return 1.5 / arr - 2.0 * arr
        if f == "outer": return np.outer(arr[:2], np.array([1.0, 2.0])).sum(axis=0)     # not "@": numpy frees its partial sum twice when an element fails
        if f == "cumsum": return np.cumsum(arr)
        if f == "iadd":
            b = arr * 1.0
            b += arr
            return b
        if f == "imul":
            b = np.array([via_ctor(v) for v in arr], object)
            b *= arr
            return b
        if f == "max": return arr.max()
        if f == "pow": return arr ** 2.0
        raise KeyError(f)
    if k == "vars":
        r = rng("vars", a[2])
        xs = hj.variables([val(r) for _ in range(a[1])], order=a[3])
        return [state(v) for v in xs]
    if k == "cvars":
        r = rng("vars", a[1])
        return [state(v) for v in type(x).variables([val(r) for _ in range(n)])]
    raise KeyError(k)


def safe(E, op):
    """apply; exceptions are part of the outcome"""
    try:
        r = apply(E, op)
        return state(r)
    except MemoryError:
        return ["raise", "MemoryError"]
    except Exception as e:
        return ["raise", type(e).__name__]


def draw_op(r, ns, order, dyn, sparse=False, extra=()):
    """one operation on ns slots"""
    s = lambda: r.randrange(ns)
    kinds = ["un"] * 3 + ["bin"] * 4 + ["binf", "rbinf", "pow", "logb", "fn2", "fn3"] + ["ip"] * 6 + ["ipf"] * 2 + ["alias", "cmp", "repr", "size", "eval", "get"]
    if not sparse:
        kinds += ["setf", "setf", "setd", "setd", "setg", "views", "state"]
        if order == 2:
            kinds += ["seth", "seth", "sethm", "h", "hm"]
        if dyn:
            kinds += ["resize", "pad", "pad"]
    kinds += list(extra)
    k = r.choice(kinds)
    if k == "un": return [k, s(), r.choice(UN), s()]
    if k == "pow": return [k, s(), r.choice([2.0, 3.0, 0.5, -1.0, 1.5, 0.0]), s()]
    if k == "logb": return [k, s(), r.choice([2.0, 10.0, 3.3]), s()]
    if k == "bin": return [k, s(), r.choice(BIN), s(), s()]
    if k in ("binf", "rbinf"): return [k, s(), r.choice(BIN), val(r), s()]
    if k == "fn2": return [k, s(), r.choice(["atan2", "hypot", "mhypot", "arctan2"]), s(), s()]
    if k == "fn3": return [k, s(), r.choice(["hypot", "mhypot"]), s(), s(), s()]
    if k == "ip": return [k, s(), r.choice(IP), s()]
    if k == "ipf": return [k, s(), r.choice(["imul", "itruediv", "imul", "itruediv", "iadd", "isub"]), val(r)]
    if k == "alias": return [k, s(), s()]
    if k == "cmp": return [k, s(), r.choice(CMP), s(), r.choice([None, None, val(r)])]
    if k in ("repr", "size", "get", "views", "state"): return [k, s()]
    if k == "eval": return [k, s(), r.randrange(1000)]
    if k == "setf": return [k, s(), val(r)]
    if k in ("setd", "setg"): return [k, s(), r.randrange(40), val(r)]
    if k == "seth": return [k, s(), r.randrange(20), r.randrange(20), val(r)]
    if k == "h": return [k, s(), r.randrange(20), r.randrange(20)]
    if k == "sethm": return [k, s(), r.randrange(1000)]
    if k == "hm": return [k, s(), r.choice(["full", "zeros", "full", "bogus"])]
    if k == "resize": return [k, s(), r.choice([0, 1, 2, 3, 5, 8, 13, -1])]
    if k == "pad": return [k, s(), r.choice(["pad_left", "pad_right"]), r.choice([0, 2, 3, 5, 6, 9, 14]), s()]
    if k == "copy": return [k, s(), r.choice(["copy", "deepcopy", "list", "dictcopy"] + ["pickle%d" % p for p in range(6)]), s()]
    if k == "dumps": return [k, s(), r.randrange(6)]
    if k == "mf": return [k, s(), r.choice(["f", "d", "dd"] if order == 2 else ["f", "d"]), s()]
    if k == "np": return [k, s(), r.choice(r.choice([NPU, NPB, NPX])), s()]
    if k == "vars": return [k, s(), r.choice([1, 2, 3, 5, 15, 17]), r.randrange(1000), r.choice([0, 1, 2])]
    if k == "cvars": return [k, s(), r.randrange(1000)]
    if k == "new": return [k, s(), None, None, r.randrange(10 ** 6)]
    raise KeyError(k)


def draw_kind(r):
    """class and size"""
    c = r.choice(["DDScalar", "DDScalar", "DDScalar", "DScalar", "DScalar", "", "", ""])
    if c and c in CLS:
        return c, r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 11, 16, 19, 23])
    c = r.choice(sorted(k for k in CLS if CLS[k][1] is not None))
    return c, CLS[c][1]


def fix_new(op, cls, n):
    if op[0] == "new":
        op[2], op[3] = cls, n
    return op


# ================================================================== C09
def c09_gen(r):
    global EXT
    EXT = r.random() < 0.4
    cls, n = draw_kind(r)
    order, st = CLS[cls]
    ns = r.randrange(3, 6)
    ops = []
    for _ in range(r.randrange(4, 16)):
        if r.random() < 0.28:
            ops.append(["save", r.randrange(6), r.choice(["list", "dict", "tuple", "objarr", "nested", "deepcopied"]), r.randrange(1, 5)])
        else:
            ops.append(fix_new(draw_op(r, ns, order, st is None, extra=["copy"] * 7 + ["new", "np", "mf"]), cls, n))
    crashes = []
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.randrange(len(ops))
        crashes.append([i, r.choice(["before", "after"]) if ops[i][0] != "save" else r.choice(["before", "chunk0", "chunk1", "fsync", "rename", "after"])])
    return {"cls": cls, "n": n, "slots": [r.randrange(10 ** 6) for _ in range(ns)], "ops": ops, "crashes": crashes, "fills": [r.randrange(5) for _ in range(5)], "quarantine": r.choice([0, 64]), "fresh": r.random() < 0.01, "ext": EXT}


def c09_pack(S, form):
    if form == "list": return list(S)
    if form == "tuple": return tuple(S)
    if form == "dict": return {"s%d" % i: x for i, x in enumerate(S)}
    if form == "nested": return {"jets": [S[0], tuple(S[1:])], "again": S[-1], "meta": 3}
    if form == "deepcopied": return copy.deepcopy(list(S))
    a = np.empty(len(S), object)
    for i, x in enumerate(S):
        a[i] = x
    return a


def c09_unpack(o):
    if isinstance(o, dict):
        if "jets" in o:
            S = [o["jets"][0], *o["jets"][1]]
            if S[-1] is not o["again"]:
                violation("identity-lost", "two references to one jet became two jets in a saved state")
            return S
        return [o["s%d" % i] for i in range(len(o))]
    return list(o)


def c09_ref_copier():
    def f(how, x):
        return via_zero(x)
    return f


def c09_obs(S, out):
    return [out, [state(x) for x in S], [next(j for j in range(len(S)) if S[j] is x) for x in S]]


def c09_reference(P):
    """child: the uninterrupted run, no copy or restore code involved"""
    E = Env([mk(P["cls"], P["n"], s) for s in P["slots"]])
    E.copier = c09_ref_copier()
    tr = []
    for op in P["ops"]:
        at("reference " + json.dumps(op))
        out = None if op[0] == "save" else safe(E, op)
        tr.append(c09_obs(E.S, out))
    return {"trace": tr}


def c09_life(P, disk, crash, send):
    """child: one life of the computation, from the last saved state until the crash point or the end"""
    if disk is None:
        pc, E = 0, Env([mk(P["cls"], P["n"], s) for s in P["slots"]])
    else:
        at("restore")
        pc, o = pickle.loads(disk)
        E = Env(c09_unpack(o))
        del o
    E.copier = copy_with
    send({"start": pc, "obs": c09_obs(E.S, None)})
    for i in range(pc, len(P["ops"])):
        op = P["ops"][i]
        stage = crash[1] if crash and crash[0] == i else None
        if stage == "before":
            return
        at("op %d %s" % (i, json.dumps(op)))
        out = None
        if op[0] == "save":
            blob = pickle.dumps((i + 1, c09_pack(E.S, op[2])), op[1])
            cut = sorted({len(blob) * c // op[3] for c in range(op[3] + 1)})
            for c, (u, v) in enumerate(zip(cut, cut[1:])):
                if stage == "chunk%d" % c:
                    send({"write": blob[u:(u + v) // 2].hex()})
                    return
                send({"write": blob[u:v].hex()})
            if stage in ("fsync", "chunk1"):
                return
            send({"fsync": 1})
            if stage == "rename":
                return
            send({"rename": 1})
        else:
            out = safe(E, op)
        send({"op": i, "obs": c09_obs(E.S, out)})
        if stage == "after":
            return
    send({"end": 1})


def c09_run(P, X):
    ref = X.child(lambda send: send(c09_reference(P)), P["fills"][0], P["quarantine"])
    if ref is None:
        return
    trace = ref[0]["trace"]
    disk, crashes, life = None, list(P["crashes"]), 0
    initial = None
    saved_obs = None
    while True:
        crash = crashes[life] if life < len(crashes) else None
        fill = P["fills"][(life + 1) % 5]
        if P.get("fresh") and disk is not None:
            msgs = X.fresh_child({"P": P, "disk": disk.hex(), "crash": crash}, fill, P["quarantine"])
        else:
            msgs = X.child(lambda send: c09_life(P, disk, crash, send), fill, P["quarantine"])
        if msgs is None:
            return
        tmp, synced, ended = b"", False, False
        for m in msgs:
            if "start" in m:
                i = m["start"]
                if disk is not None:
                    want = [None, trace[i - 1][1], trace[i - 1][2]] if i else None
                    if want and m["obs"] != want:
                        return X.fail("restart-differs", "state restored after %d operations differs: %s" % (i, diff(m["obs"], want)))
                    X.stats["restarts"] = X.stats.get("restarts", 0) + 1
            elif "write" in m:
                tmp += bytes.fromhex(m["write"])
            elif "fsync" in m:
                synced = True
            elif "rename" in m:
                disk, tmp, synced = tmp, b"", False
                X.stats["saves"] = X.stats.get("saves", 0) + 1
            elif "op" in m:
                i = m["op"]
                X.note(m["obs"])
                if m["obs"] != trace[i]:
                    return X.fail("history-differs", "after operation %d %s: %s" % (i, json.dumps(P["ops"][i]), diff(m["obs"], trace[i])))
                X.stats["okops"] = X.stats.get("okops", 0) + 1
            elif "end" in m:
                ended = True
        if ended:
            break
        if crash is None:
            return X.fail("error", "life ended early")
        key = "crash_" + crash[1]
        X.faults[key] = X.faults.get(key, 0) + 1
        if tmp:
            X.faults["torn_write"] = X.faults.get("torn_write", 0) + 1
        X.cov.add(dig(["crash", P["ops"][crash[0]][:3] if P["ops"][crash[0]][0] == "save" else P["ops"][crash[0]][0], crash[1], P["cls"]]))
        life += 1
    X.nontrivial = bool(life)


def diff(a, b, path=""):
    if type(a) is type(b) and isinstance(a, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + "[%d]" % i)
    def sh(v):
        s = json.dumps(v)
        return s if len(s) < 200 else s[:200] + "..."
    return "at %s got %s, expected %s" % (path, sh(a), sh(b))


# ================================================================== C10
def c10_gen(r):
    kinds = [draw_kind(r) for _ in range(r.choice([1, 1, 2, 3]))]
    P = {"jets": [[c, n, r.randrange(10 ** 6)] for c, n in kinds], "quarantine": r.choice([0, 64]), "fills": r.sample(range(5), 2), "use": r.randrange(10 ** 6)}
    if r.random() < 0.45:
        c, n = kinds[0]
        order = CLS[c][0]
        k = r.choice(["len", "len", "len", "len", "len", "other", "other", "types", "tuple", "shape", "numpy", "nested", "counted", "counted", "good"])
        if k == "len":
            m = r.choice([max(0, dlen(order, n) + r.choice([-1, 1, -2, 2, 3, n, -n])), r.randrange(0, 420), r.randrange(0, 40)])
            st = [k, m]
        elif k == "other":
            st = [k, *draw_kind(r)]
        elif k in ("types", "tuple", "shape", "numpy", "nested", "counted"):
            st = [k, r.randrange(12)]
        else:
            st = [k]
        P.update(mode="state", state=st, calls=r.choice([1, 1, 1, 2]))
    else:
        P.update(mode="bytes", proto=r.randrange(6), form=r.choice(["single", "list", "dict", "tuple"]), damage=[])
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.choice(["trunc", "flip", "flip", "flip", "setbyte", "setbyte", "zero", "dup", "del", "splice", "opdel", "opdel", "opdup", "opdup", "cls", "cls", "opflip"])
            P["damage"].append([k, r.random(), r.randrange(256), r.choice(sorted(CLS))])
    return P


def c10_damage(b, d, other):
    k, f, v, name = d
    n = len(b)
    i = min(int(f * n), max(n - 1, 0))
    if k == "trunc": return b[:i]
    if k == "flip" and n: return b[:i] + bytes([b[i] ^ (1 << v % 8)]) + b[i + 1:]
    if k == "setbyte" and n: return b[:i] + bytes([v]) + b[i + 1:]
    if k == "zero": return b[:i] + b"\0" * min(v % 64, n - i) + b[i + v % 64:]
    if k == "dup": return b[:i + v % 40] + b[i:]
    if k == "del": return b[:i] + b[i + 1 + v % 40:]
    if k == "splice": return b[:i] + other[min(i + v % 3, len(other)):]
    if k in ("opdel", "opdup", "opflip"):
        try:
            pos = [p for _, _, p in pickletools.genops(b)] + [n]
        except Exception:
            return b[:i]
        j = min(int(f * (len(pos) - 1)), len(pos) - 2)
        if k == "opflip":
            return b[:pos[j]] + bytes([b[pos[j]] ^ (1 << v % 8)]) + b[pos[j] + 1:]
        e = min(j + 1 + v % 5, len(pos) - 1)
        return b[:pos[j]] + b[pos[e]:] if k == "opdel" else b[:pos[e]] + b[pos[j]:]
    if k == "cls":
        for c in sorted(CLS, key=len, reverse=True):
            q = c.encode()
            p = b.find(q)
            if p >= 0 and c != name:
                t = name.encode()
                if p and b[p - 1] == len(q):
                    return b[:p - 1] + bytes([len(t)]) + t + b[p + len(q):]
                if p > 3 and b[p - 4:p] == struct.pack("<I", len(q)):
                    return b[:p - 4] + struct.pack("<I", len(t)) + t + b[p + len(q):]
                return b[:p] + t + b[p + len(q):]
        return b[:i]
    return b


class Restricted(pickle.Unpickler):
    def find_class(self, module, name):
        if module == "hyperjet" and name in CLS:
            return getattr(hj, name)
        if module == "copyreg" and name in ("__newobj__", "_reconstructor"):
            import copyreg
            return getattr(copyreg, name)
        if module == "builtins" and name == "object":
            return object
        raise pickle.UnpicklingError("refused")


BADS = [None, "text", b"bytes", 3, 2.5, [["a"]], [None, 1.0], {"a": 1}, [1.0, "x", 2.0], [1 << 2000], [1 + 2j, 0.0], object]


class Short(list):
    """announces fewer entries than it has"""
    def __len__(self): return max(0, list.__len__(self) - self.by)


class Fickle:
    """an honest length, but another one every time it is asked"""
    def __init__(self, n, by): self.n, self.by, self.i = n, by, 0
    def __len__(self):
        self.i += 1
        return max(0, self.n + self.by * (self.i - 1))
    def __getitem__(self, i):
        if i >= max(0, self.n + self.by * self.i): raise IndexError(i)
        return 1.5


class Later:
    """a number; reading it changes the list it stands in"""
    def __init__(self, v, act): self.v, self.act = v, act
    def __float__(self):
        self.act()
        return self.v


def counted(good, i, s):
    big = good + mk_vals(100 + s % 200, s)
    if i < 4:
        a = Short([good, big, good + [1.0], big][i])
        a.by = [1 + s % 3, len(big) - len(good), 1, len(big)][i]
        return a
    if i < 8: return Fickle([len(good), len(good), 300, 200 + len(good)][i - 4], [1, -1, -100, -200][i - 4])
    a = list(good) if i < 10 else list(big)
    k = s % max(1, len(a))
    if a: a[k] = Later(1.5, [lambda: a.clear(), lambda: a.extend(mk_vals(300, s)), lambda: a.__delitem__(slice(k + 1, None)), lambda: a.insert(0, a[0])][s // 7 % 4])
    return a


class Cheat:
    def __init__(self, n): self.n = n
    def __len__(self): return self.n + 3
    def __getitem__(self, i):
        if i >= self.n: raise IndexError(i)
        return 1.5


def c10_state(P, jets):
    c, n, s = P["jets"][0]
    order = CLS[c][0]
    st = P["state"]
    good = mk_data(c, n, s)
    k = st[0]
    if k == "good": return (good,)
    if k == "len": return (mk_vals(st[1], s),)
    if k == "other": return (mk_data(st[1], st[2], s),)
    if k == "types": return (BADS[st[1] % len(BADS)],)
    if k == "tuple": return [(), (good, good), (good, 1), good, None, 3, {"a": 1}, "s", (good, None, None), [good], ((good,),), (1,)][st[1]]
    if k == "shape":
        m = np.array(mk_vals(24, s)).reshape(4, 6)
        return (m[:, :1 + st[1] % 3],)
    if k == "numpy":
        L = len(good)
        a = np.array(good)
        return ([a, a[::-1], a.astype(np.float32), a.astype(np.int64), a.astype(object), a.reshape(1, -1), np.repeat(a, 2)[::2], a.astype(complex), np.array(0.0), np.zeros(L + 1), np.zeros((L, 0)), a.astype("S8")][st[1]],)
    if k == "counted": return (counted(good, st[1], s),)
    if k == "nested":
        return ([[good], [good, good], [[v] for v in good], tuple(good), set(good), iter(good), {i: v for i, v in enumerate(good)}, range(len(good)), memoryview(np.array(good)), Cheat(len(good)), Cheat(0), (v for v in good)][st[1]],)


def mk_vals(n, s):
    r = rng("v", s)
    return [val(r) for _ in range(n)]


def jets_in(o, out, depth=0):
    if isinstance(o, JETS):
        if not any(o is y for y in out):
            out.append(o)
    elif depth < 6 and isinstance(o, (list, tuple)):
        for v in o: jets_in(v, out, depth + 1)
    elif depth < 6 and isinstance(o, dict):
        for k, v in o.items():
            jets_in(k, out, depth + 1)
            jets_in(v, out, depth + 1)
    return out


def c10_wellformed(x):
    o, st = CLS[type(x).__name__]
    d = x.data
    n = x.size
    if st is not None and n != st:
        violation("malformed", "%s has size %d" % (type(x).__name__, n))
    if n < 0 or len(d) != dlen(o, n):
        violation("malformed", "%s of size %d has %d entries, expected %s" % (type(x).__name__, n, len(d), dlen(o, n) if n >= 0 else "none"))
    if len(d) and not LIB.hjs_addressable(d.__array_interface__["data"][0], d.nbytes):
        violation("malformed", "data of %s is not live storage" % type(x).__name__)
    if len(x.g) != n or (o == 2 and x.hm().shape != (n, n)):
        violation("malformed", "%s of size %d has gradient %s" % (type(x).__name__, n, x.g.shape))


def c10_use(x, seed):
    """every kind of operation on a restored jet"""
    C = type(x)
    o, st = CLS[C.__name__]
    E = Env([x, via_zero(x), via_zero(x)])
    E.copier = copy_with
    E.S[1].data[:] = mk_vals(len(x.data), seed)
    r = rng("use", seed)
    out = [state(x)]
    for _ in range(8):
        op = draw_op(r, 3, o, st is None, extra=["copy", "dumps", "mf", "cvars", "np"])
        at("use " + json.dumps(op))
        out.append(safe(E, op))
        out.append([state(v) for v in E.S])
    return out


def c10_child(P):
    if P.get("limit", True):
        vm = int(open("/proc/self/statm").read().split()[0]) * 4096
        resource.setrlimit(resource.RLIMIT_AS, (vm + (1 << 30), resource.RLIM_INFINITY))
    jets = [mk(*j) for j in P["jets"]]
    views = [x.data for x in jets]
    before = [state(x) for x in jets]
    restored = set()
    keep = []
    obj, exc = None, None
    if P["mode"] == "state":
        C = getattr(hj, P["jets"][0][0])
        hooked = True
        x = C.__new__(C)
        at("__setstate__ %s of %s" % (P["state"], C.__name__))
        for k in range(P["calls"]):
            try:
                x.__setstate__(c10_state(P, jets))
                obj = x
                restored.add(id(x))
            except Exception as e:
                exc = type(e).__name__
    else:
        hooked = True
        for C in JETS:
            orig = C.__dict__.get("__setstate__")
            if orig is None:            # state is restored in another way
                hooked = False
                continue
            def hook(self, st, orig=orig):
                orig(self, st)
                restored.add(id(self))
                keep.append(self)
            C.__setstate__ = hook
        form = P["form"]
        o = jets[0] if form == "single" else list(jets) if form == "list" else tuple(jets) if form == "tuple" else {"j%d" % i: x for i, x in enumerate(jets)}
        b = pickle.dumps(o, P["proto"])
        other = pickle.dumps(list(reversed(jets)), P["proto"])
        for d in P["damage"]:
            b = c10_damage(b, d, other)
        at("loads %s" % b.hex()[:280])
        note(b.hex())
        try:
            obj = Restricted(io.BytesIO(b)).load()
        except Exception as e:
            exc = type(e).__name__
    got = jets_in(obj, []) if P["mode"] == "bytes" else ([obj] if obj is not None else [])
    out = []
    for x in got:
        if any(x is y for y in jets):
            continue
        if hooked and id(x) not in restored:
            violation("unrestored", "a damaged pickle gave a %s whose state was never set" % type(x).__name__)
        at("inspect restored %s" % type(x).__name__)
        c10_wellformed(x)
        out.append(c10_use(x, P["use"]))
    at("afterwards")
    for x, s, v in zip(jets, before, views):
        if state(x) != s or [b64(t) for t in v.tolist()] != s[4]:
            violation("disturbed", "an existing %s changed: %s" % (type(x).__name__, diff(state(x), s)))
    LIB.hjs_check_heap()
    return {"out": out, "raised": exc if not out else None, "n": len(out)}


def c10_run(P, X):
    res = []
    for f in P["fills"]:
        m = X.child(lambda send: send(c10_child(P)), f, P["quarantine"])
        if m is None:
            return
        res.append(m[0])
        X.note(m[0])
    a, b = res
    if a["out"] != b["out"]:
        return X.fail("exposes-memory", "what was restored depends on unrelated memory contents: %s" % diff(a["out"], b["out"]))
    k = "state_" + P["state"][0] if P["mode"] == "state" else None
    for key in ([k] if k else ["damage_" + d[0] for d in P["damage"]]):
        X.faults[key] = X.faults.get(key, 0) + 1
        X.cov.add(dig([key, P["jets"][0][0], P["jets"][0][1], bool(a["n"])]))
    X.stats["accepted" if a["n"] else "rejected"] = 1
    X.nontrivial = True


# ================================================================== C11
def c11_gen(r):
    cls, n = draw_kind(r)
    order, st = CLS[cls]
    ns, nv = r.randrange(2, 5), 4
    s, v = lambda: r.randrange(ns), lambda: r.randrange(nv)
    resizing = st is None and r.random() < 0.04
    ops = []
    for _ in range(r.randrange(6, 26)):
        kinds = ["view"] * 5 + ["sub", "sub", "mv"] + ["ip"] * 7 + ["ipf"] * 2 + ["setf", "wr", "wr", "wrall", "drop", "drop", "drop", "dropv", "churn", "churn", "gc", "cyc", "alias", "copyto", "binto", "fault", "fault", "refill"]
        if order == 2:
            kinds += ["seth", "sethm", "hmcopy", "wrhm"]
        if st is None:
            kinds += ["resize"]
        k = r.choice(kinds)
        ops.append({
            "view": lambda: [k, r.choice(["data", "data", "g"]), s(), v()],
            "sub": lambda: [k, v(), r.randrange(4), r.randrange(2, 30), r.choice([1, 1, 2, 3]), v()],
            "mv": lambda: [k, v(), v()],
            "ip": lambda: [k, s(), r.choice(IP), s()],
            "ipf": lambda: [k, s(), r.choice(["imul", "itruediv", "imul", "itruediv", "iadd"]), val(r)],
            "fault": lambda: [k, s(), r.choice(IP), s(), r.choice([1, 2]), r.randrange(3)],
            "setf": lambda: [k, s(), val(r)],
            "wr": lambda: [k, v(), r.randrange(40), val(r)],
            "wrall": lambda: [k, v(), r.randrange(1000)],
            "drop": lambda: [k, s()], "dropv": lambda: [k, v()], "churn": lambda: [k, r.randrange(1, 6), r.randrange(1000)],
            "gc": lambda: [k], "cyc": lambda: [k, s()], "alias": lambda: [k, s(), s()],
            "copyto": lambda: [k, r.choice(["copy", "deepcopy", "pickle2", "pickle5"]), s(), s()],
            "binto": lambda: [k, r.choice(BIN), s(), s(), s()],
            "refill": lambda: [k, s(), r.randrange(10 ** 6)],
            "seth": lambda: [k, s(), r.randrange(20), r.randrange(20), val(r)],
            "sethm": lambda: [k, s(), r.randrange(1000)],
            "hmcopy": lambda: [k, s()], "wrhm": lambda: [k, val(r)],
            "resize": lambda: [k, s(), r.choice([0, 1, 2, 3, 5, 9]), resizing],
        }[k]())
    return {"cls": cls, "n": n, "slots": [r.randrange(10 ** 6) for _ in range(ns)], "ops": ops, "fill": r.randrange(5), "quarantine": r.choice([0, 0, 64])}


class Cell:
    def __init__(self, exp): self.exp = exp


def c11_child(P):
    C = getattr(hj, P["cls"])
    order, st = CLS[P["cls"]]
    S = []
    for s in P["slots"]:
        x = mk(P["cls"], P["n"], s)
        S.append([x, Cell(raw(x))])
    V = [None] * 4                # [array, cell, indices]
    hms = []                      # [matrix, expected]
    attic, stats = [], {}
    def cnt(k): stats[k] = stats.get(k, 0) + 1
    for i, op in enumerate(P["ops"]):
        at("op %d %s" % (i, json.dumps(op)))
        k, a = op[0], op[1:]
        if k == "view" and S[a[1]]:
            x, c = S[a[1]]
            arr = x.data if a[0] == "data" else x.g
            idx = list(range(len(c.exp))) if a[0] == "data" else list(range(1, 1 + x.size))
            if arr.shape != (len(idx),):
                violation("view-shape", "%s of a jet of size %d has shape %s" % (a[0], x.size, arr.shape))
            if not arr.flags.writeable:
                violation("view-readonly", "%s cannot be written" % a[0])
            V[a[2]] = [arr, c, idx]; cnt("views")
            del x, arr
        elif k == "sub" and V[a[0]]:
            arr, c, idx = V[a[0]]
            V[a[4]] = [arr[a[1]:a[2]:a[3]], c, idx[a[1]:a[2]:a[3]]]
            del arr
        elif k == "mv" and V[a[0]]:
            arr, c, idx = V[a[0]]
            V[a[1]] = [memoryview(arr), c, idx]
            del arr
        elif k in ("ip", "ipf", "fault") and S[a[0]] and (k == "ipf" or S[a[2]]):
            x, c = S[a[0]]
            t = C(c.exp)
            if k == "ipf":
                y = u = a[2]
            else:
                y, yc = S[a[2]]
                u = t if yc is c else C(yc.exp)
            f = getattr(operator, a[1])
            try:
                w = f(t, u)
            except Exception as e:
                w = None
            want_inplace = k != "ipf" or a[1] in ("imul", "itruediv")
            if k == "fault":
                LIB.hjs_arm(a[3], a[4])
            try:
                z = f(x, y)
            except Exception as e:
                z = None
            fired = LIB.hjs_disarm()
            if z is None:
                if w is not None and not fired:
                    violation("result-differs", "%s failed on the jet but not on an equal one" % a[1])
                cnt("failed")
            elif w is None:
                violation("result-differs", "%s succeeded on the jet but failed on an equal one" % a[1])
            elif want_inplace:
                if z is not x:
                    violation("detached", "%s did not update the jet in place but replaced it" % a[1])
                c.exp = raw(t); cnt("inplace")
            elif z is x:
                c.exp = raw(w)
            else:
                S[a[0]] = [z, Cell(raw(w))]
            del x, y, z, t, u, w
        elif k == "setf" and S[a[0]]:
            S[a[0]][0].f = a[1]
            S[a[0]][1].exp[0] = a[1]
        elif k in ("seth", "sethm") and S[a[0]]:
            x, c = S[a[0]]
            n = x.size
            t = C(c.exp)
            for q in (x, t):
                if k == "seth" and n:
                    q.set_h(a[1] % n, a[2] % n, a[3])
                elif k == "sethm":
                    q.set_hm(np.array([[v + 0.0 for v in mk_vals(n, a[1] + j)] for j in range(n)]).reshape(n, n))
            c.exp = raw(t)
            del x, t, q
        elif k == "wr" and V[a[0]]:
            arr, c, idx = V[a[0]]
            if idx:
                j = a[1] % len(idx)
                if not c11_live(arr): c11_dead(arr, c)
                arr[j] = a[2]
                c.exp[idx[j]] = a[2]; cnt("writes")
            del arr
        elif k == "wrall" and V[a[0]]:
            arr, c, idx = V[a[0]]
            vs = mk_vals(len(idx), a[1])
            if not c11_live(arr): c11_dead(arr, c)
            for j, v in enumerate(vs):
                arr[j] = v
                c.exp[idx[j]] = v
            del arr
        elif k == "drop":
            S[a[0]] = None
        elif k == "dropv":
            V[a[0]] = None
        elif k == "churn":
            more = [mk(P["cls"], P["n"], a[1] + q) for q in range(a[0])]
            more = [m * m for m in more]
            if a[1] % 2: attic.append(more)
            elif attic: attic.pop()
            del more
        elif k == "gc":
            gc.collect()
        elif k == "cyc" and S[a[0]]:
            loop = [S[a[0]][0]]
            loop.append(loop)
            S[a[0]] = None
            del loop
        elif k == "alias" and S[a[0]]:
            S[a[1]] = list(S[a[0]])
        elif k == "copyto" and S[a[1]]:
            x, c = S[a[1]]
            S[a[2]] = [copy_with(a[0], x), Cell(list(c.exp))]
            del x
        elif k == "binto" and S[a[1]] and S[a[2]]:
            f = getattr(operator, a[0])
            try:
                z = f(S[a[1]][0], S[a[2]][0])
                w = f(C(S[a[1]][1].exp), C(S[a[2]][1].exp))
                S[a[3]] = [z, Cell(raw(w))]
                del z, w
            except Exception:
                pass
        elif k == "refill":
            x = mk(P["cls"], P["n"], a[1])
            S[a[0]] = [x, Cell(raw(x))]
            del x
        elif k == "hmcopy" and S[a[0]]:
            m = S[a[0]][0].hm()
            hms.append([m, m.copy()])
            hms[:] = hms[-3:]
            del m
        elif k == "wrhm" and hms:
            hms[-1][0][...] = a[0]
            hms[-1][1][...] = a[0]
        elif k == "resize" and S[a[0]]:
            x, c = S[a[0]]
            attached = any(v and v[1] is c for v in V)
            if not attached or a[2]:
                t = C(c.exp)
                x.resize(a[1])
                t.resize(a[1])
                if attached:
                    stale = [v for v in V if v and v[1] is c]
                    for v in stale:
                        if not c11_live(v[0]) or (len(v[2]) and c11_ptr(v[0]) // 8 - v[2][0] != x.data.__array_interface__["data"][0] // 8 and len(x.data)):
                            violation("view-resize", "a view taken before resize() no longer refers to the jet's storage")
                    # still attached (storage did not move): indices keep their meaning where they exist
                    for v in V:
                        if v and v[1] is c and any(j >= len(raw(t)) for j in v[2]):
                            violation("view-resize", "a view taken before resize() extends beyond the jet's storage")
                c.exp = raw(t)
                del x, t
        # ---- invariants
        for q, s in enumerate(S):
            if s:
                got = raw(s[0])
                if [b64(v) for v in got] != [b64(v) for v in s[1].exp]:
                    violation("jet-differs", "slot %d after %s: %s" % (q, k, diff([b64(v) for v in got], [b64(v) for v in s[1].exp])))
        for q, v in enumerate(V):
            if v:
                arr, c, idx = v
                if not c11_live(arr):
                    c11_dead(arr, c)
                got = [b64(t) for t in arr.tolist()]
                want = [b64(c.exp[j]) for j in idx]
                if got != want:
                    violation("view-differs", "view %d after %s does not show the jet: %s" % (q, k, diff(got, want)))
                cnt("alone" if not any(s and s[1] is c for s in S) else "attached")
        for m, e in hms:
            if state(m) != state(e):
                violation("copy-changed", "a Hessian matrix obtained as a copy changed after %s" % k)
        note([[b64(v) for v in s[1].exp] if s else None for s in S])
        arr = c = idx = got = want = s = v = m = e = None
    S = V = hms = attic = None
    gc.collect()
    LIB.hjs_check_heap()
    return {"stats": stats}


def c11_ptr(arr):
    return np.asarray(arr).__array_interface__["data"][0]


def c11_live(arr):
    a = np.asarray(arr)
    if a.size == 0:
        return True
    p = a.__array_interface__["data"][0]
    span = (a.size - 1) * abs(a.strides[0]) + 8
    return LIB.hjs_addressable(p, span)


def c11_dead(arr, c):
    violation("view-dangling", "a view refers to storage that was released")


def c11_run(P, X):
    m = X.child(lambda send: send(c11_child(P)), P["fill"], P["quarantine"])
    if m is None:
        return
    for k, v in m[0]["stats"].items():
        X.stats[k] = X.stats.get(k, 0) + v
    if m[0]["stats"].get("failed"):
        X.faults["failed_update"] = m[0]["stats"]["failed"]
    if m[0]["stats"].get("alone"):
        X.faults["jet_dropped_under_view"] = 1
    if P["quarantine"] == 0:
        X.faults["immediate_memory_reuse"] = 1
    for a, b in zip(P["ops"], P["ops"][1:]):
        X.cov.add(dig([P["cls"], a[0], b[0]]))
    X.nontrivial = bool(m[0]["stats"].get("views"))


# ================================================================== C12
def c12_gen(r):
    sparse = r.random() < 0.3
    if sparse:
        cls, n = "SScalar", 0
        order, st = 1, 0
    else:
        cls, n = draw_kind(r)
        order, st = CLS[cls]
        if n > 8 and r.random() < 0.7:
            n = n if st is not None else 4
    nt = r.choice([2, 2, 2, 3])
    ns = r.choice([1, 1, 2, 3])
    s = lambda: r.randrange(ns)
    per = r.choice([1, 2, 3]) if nt == 3 else r.choice([1, 2, 3, 4])
    write = ["ip"] * 6 + ["ipf"] * 2
    read = ["un", "bin", "bin", "fn2", "fn3", "repr", "eval", "cmp"]
    if not sparse:
        write += ["setf", "setf"]
        read += ["copy", "state", "state", "mf1"]
        if order == 2:
            write += ["seth", "sethm"]
            read += ["hm"]
        if st is None:
            write += ["resize"]
            read += ["pad"]
    focus = r.random()
    if focus < 0.6:         # few kinds of calls, so that the same two meet often
        write = [r.choice(write) for _ in range(r.choice([1, 1, 2]))]
        read = [r.choice(sorted(set(read))) for _ in range(r.choice([1, 1, 2]))]
    threads = []
    for _ in range(nt):
        ops = []
        for _ in range(per):
            # in some programs a thread only writes and the others mostly read
            kinds = write + read if focus < 0.3 or focus > 0.8 else write if not threads or r.random() < 0.15 else read
            k = r.choice(kinds)
            ops.append({
                "ip": lambda: [k, s(), r.choice(IP), s()],
                "ipf": lambda: [k, s(), r.choice(["imul", "itruediv"]), abs(val(r)) + 0.1, r.random() < 0.4],
                "un": lambda: [k, s(), r.choice(UN)],
                "bin": lambda: [k, s(), r.choice(BIN), s()],
                "fn2": lambda: [k, s(), r.choice(["atan2", "hypot", "mhypot"]), s()],
                "fn3": lambda: [k, s(), s(), s()],
                "repr": lambda: [k, s()], "state": lambda: [k, s()], "hm": lambda: [k, s()],
                "eval": lambda: [k, s(), r.randrange(1000), r.random() < 0.4],
                "cmp": lambda: [k, s(), r.choice(CMP), s()],
                "setf": lambda: [k, s(), val(r), r.random() < 0.4],
                "copy": lambda: [k, s(), r.choice(["copy", "deepcopy", "pickle2", "pickle5"])],
                "mf1": lambda: [k, s()],
                "seth": lambda: [k, s(), r.randrange(9), r.randrange(9), val(r)],
                "sethm": lambda: [k, s(), r.randrange(1000), r.random() < 0.4],
                "resize": lambda: [k, s(), r.choice([0, n, n, n + 1])],
                "pad": lambda: [k, s(), r.choice(["pad_left", "pad_right"]), n + r.randrange(3)],
            }[k]())
        threads.append(ops)
    return {"cls": cls, "n": n, "slots": [r.randrange(10 ** 6) for _ in range(ns)], "threads": threads, "seed": r.randrange(1 << 40), "pop": r.choice([0, 0, 0, 3, 8, 25, 80]), "pnat": r.choice([5, 20, 60, 200]), "sched": None, "fill": r.randrange(5), "quarantine": r.choice([0, 64])}


class Num:
    """a number whose conversion runs Python code (and so yield points)"""
    def __init__(self, v): self.v = v
    def __float__(self):
        u = self.v
        u = u + 0.0
        LIB.hjs_point() if Num.points else None
        return u
    points = False


def c12_call(S, n0, op):
    """one call; the result is reduced to what it says"""
    k, x, a = op[0], S[op[1]], op[2:]
    sp = isinstance(x, hj.SScalar)
    if k == "ip": return getattr(operator, a[0])(x, S[a[1]]) is x
    if k == "ipf": return getattr(operator, a[0])(x, Num(a[1]) if a[2] and not sp else a[1]) is x
    if k == "un": return getattr(x, a[0])()
    if k == "bin": return getattr(operator, a[0])(x, S[a[1]])
    if k == "fn2": return hj.hypot(x, S[a[1]]) if a[0] == "mhypot" else getattr(x, a[0])(S[a[1]])
    if k == "fn3": return x.hypot(S[a[0]], S[a[1]])
    if k == "repr":
        s = repr(x).replace("-nan", "nan")
        return "".join(sorted(s)) if sp else s
    if k == "state": return x.__getstate__()
    if k == "hm": return x.hm()
    if k == "eval" and sp:      # one factor that is not zero: no matter in which order the terms are added
        return x.eval({n: 0.7 if i == a[0] % len(NAMES) else 0.0 for i, n in enumerate(NAMES)})
    if k == "eval": return x.eval([Num(v) if a[1] else v for v in mk_vals(n0, a[0])])
    if k == "cmp": return getattr(operator, a[0])(x, S[a[1]])
    if k == "setf": x.f = Num(a[0]) if a[1] else a[0]; return None
    if k == "copy": return copy_with(a[0], x)
    if k == "mf1": return x.size
    if k == "seth":
        return x.set_h(a[0] % n0, a[1] % n0, a[2]) if n0 else None
    if k == "sethm":
        m = [[Num(v) if a[1] else v for v in mk_vals(n0, a[0] + i)] for i in range(n0)]
        return x.set_hm(m if n0 else np.zeros((0, 0)))
    if k == "resize": return x.resize(a[0])
    if k == "pad": return getattr(x, a[0])(a[1])
    raise KeyError(k)


def c12_out(S, n0, op):
    try:
        r = c12_call(S, n0, op)
    except Exception as e:
        return ["raise", type(e).__name__], None
    return None, r


def c12_child(P):
    threads = P["threads"]
    S = [mk(P["cls"], P["n"], s) for s in P["slots"]]
    start = [state(x) for x in S]
    n0 = P["n"]
    nt = len(threads)
    hist = [[] for _ in range(nt)]      # (invoked, responded, outcome)
    clock = itertools.count()
    def tracer(frame, ev, arg):
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return local
    def local(frame, ev, arg):
        if ev == "opcode":
            LIB.hjs_point()
        return local
    def body(t):
        LIB.hjs_enter(t)
        try:
            sys.settrace(tracer)
            c12_thread(threads[t], S, n0, hist[t], clock)
        finally:
            sys.settrace(None)
            LIB.hjs_leave(t)
    sched = P.get("sched")
    if sched is not None:
        flat = [v for p in sched for v in p]
        buf = (ctypes.c_uint32 * max(1, len(flat)))(*flat)
        LIB.hjs_setup(nt, P["seed"], P["pop"], P["pnat"], ctypes.addressof(buf), len(sched), 1)
    else:
        LIB.hjs_setup(nt, P["seed"], P["pop"], P["pnat"], None, 0, 0)
    Num.points = True
    sys._getframe().f_trace_opcodes = True      # from now on tracing includes single bytecodes
    ts = [threading.Thread(target=body, args=(t,)) for t in range(nt)]
    for t in ts:
        t.start()
        LIB.hjs_wait_registered()
    at("threads %s" % json.dumps(threads))
    LIB.hjs_run()
    for t in ts:
        t.join()
    Num.points = False
    at("search for a serial order")
    final = [state(x) for x in S]
    H = []
    for t in range(nt):
        L = []
        for inv, res, exc, r in hist[t]:
            L.append((inv, res, exc if exc is not None else state(r)))
        H.append(L)
    note([H, final])
    ov = sum(1 for t in range(nt) for u in range(t) for x in H[t] for y in H[u] if x[0] < y[1] and y[0] < x[1])
    order = c12_serial(P, threads, start, H, final, n0)
    if order is None:
        violation("not-serial", "no serial order of the calls explains the outcome: %s ; final %s" % (json.dumps([[o[2] for o in t] for t in H])[:700], json.dumps(final)[:500]))
    LIB.hjs_check_heap()
    return {"overlaps": ov, "ops": sum(map(len, H))}


def c12_thread(ops, S, n0, out, clock):
    for op in ops:
        inv = next(clock)          # one indivisible call
        exc, r = c12_out(S, n0, op)
        out.append((inv, next(clock), exc, r))


def c12_rebuild(bits, cls):
    if cls == "SScalar":
        unb = lambda h: float("nan") if h == "nan" else struct.unpack(">d", bytes.fromhex(h))[0]
        return hj.SScalar(unb(bits[1]), {n: unb(v) for n, v in zip(NAMES, bits[2]) if v is not None})
    unb = lambda h: float("nan") if h == "nan" else struct.unpack(">d", bytes.fromhex(h))[0]
    return getattr(hj, cls)([unb(h) for h in bits[4]])


def same(a, b):
    return a == b


def c12_serial(P, threads, start, H, final, n0):
    """depth-first search for a serial order (respecting each thread's order and real time) that reproduces results and final contents"""
    cls = P["cls"]
    names_only = cls == "SScalar"
    def norm(s):
        return s
    cache = {}
    def run(st, op):
        key = (json.dumps(st), json.dumps(op))
        if key not in cache:
            S = [c12_rebuild(b, cls) for b in st]
            exc, r = c12_out(S, n0, op)
            cache[key] = (exc if exc is not None else state(r), [state(x) for x in S])
        return cache[key]
    seen = set()
    fin = [norm(s) for s in final]
    def go(pos, st):
        if all(p == len(h) for p, h in zip(pos, H)):
            return [] if [norm(s) for s in st] == fin else None
        key = (pos, json.dumps(st))
        if key in seen:
            return None
        seen.add(key)
        first_resp = min(H[t][p][1] for t, p in enumerate(pos) if p < len(H[t]))
        cand = sorted((H[t][p][0], t) for t, p in enumerate(pos) if p < len(H[t]) and H[t][p][0] < first_resp)
        for _, t in cand:
            out, nst = run(st, threads[t][pos[t]])
            if norm(out) != norm(H[t][pos[t]][2]):
                continue
            r = go(tuple(p + (u == t) for u, p in enumerate(pos)), nst)
            if r is not None:
                return [t] + r
        return None
    return go((0,) * len(H), start)


def c12_run(P, X):
    m = X.child(lambda send: send(c12_child(P)), P["fill"], P["quarantine"])
    if m is None:
        return
    X.stats["overlapping_calls"] = m[0]["overlaps"]
    X.stats["okops"] = m[0]["ops"]
    X.faults["thread_switch"] = SH.switches
    X.faults["switch_inside_native_call"] = SH.native_switches
    X.faults["number_conversion_running_python"] = sum(1 for t in P["threads"] for op in t if op[-1] is True)
    for t in P["threads"]:
        for op in t:
            X.cov.add(dig([P["cls"], op[0], op[2] if len(op) > 2 and isinstance(op[2], str) else ""]))
    X.sched.add(dig([P["threads"], P["slots"], list(SH.sw[:2 * SH.nsw])]))
    X.nontrivial = SH.switches > len(P["threads"])


# ================================================================== C13
def c13_gen(r):
    sparse = r.random() < 0.25
    if sparse:
        cls, n, order, st = "SScalar", 0, 1, 0
    else:
        cls, n = draw_kind(r)
        order, st = CLS[cls]
    ns = r.randrange(2, 5)
    steps = []
    for _ in range(r.randrange(1, 6)):
        ex = ["vars", "np", "np"] if sparse else ["copy", "copy", "dumps", "mf", "vars", "cvars", "new", "new", "np", "np"]
        op = fix_new(draw_op(r, ns, order, st is None, sparse, extra=ex + (["new"] if sparse else [])), cls, n)
        if op[0] == "resize":
            op[1] = r.randrange(1, ns)
        steps.append([op, r.choice([1, 1, 1, 1, 2, 2, 3, 4]), r.random(), r.randrange(200)])
    return {"cls": cls, "n": n, "slots": [r.randrange(10 ** 6) for _ in range(ns)], "steps": steps, "fill": r.randrange(5), "quarantine": r.choice([0, 64])}


def c13_eq(a, b):
    return a == b


def c13_call(E, op):
    """('ok', result) or ('raise', exception type)"""
    try:
        return "ok", apply(E, op)
    except Exception as e:
        return "raise", type(e)


def module_symbols():
    """[(address, size, name)] of the functions of the simulated module in this process"""
    base = next(int(l.split("-")[0], 16) for l in open("/proc/self/maps") if l.rstrip().endswith(os.path.basename(hj.__file__)))
    p = subprocess.run(["nm", "-CS", "--defined-only", hj.__file__], stdout=subprocess.PIPE, text=True, check=True)
    out = []
    for l in p.stdout.splitlines():
        q = l.split(" ", 3)
        if len(q) == 4 and q[2] in "tTwW":
            out.append((base + int(q[0], 16), int(q[1], 16), q[3]))
    return sorted(out)


def exclude_registration():
    """pybind11 (not part of the repository) cannot recover when the table of its
    instances cannot grow: those allocations are not made to fail"""
    n = 0
    for a, size, name in module_symbols():
        if "::init_instance(" in name or "pybind11::detail::register_instance" in name:
            LIB.hjs_exclude(a, size)
            n += 1
    if not n:
        sys.exit("cannot find pybind11's registration code")


def fault_site():
    """names of the functions around the first allocation that was made to fail"""
    import bisect
    syms = module_symbols()
    addr = [s[0] for s in syms]
    out = []
    for k in range(SH.npc):
        i = bisect.bisect_right(addr, SH.pc[k]) - 1
        out.append(syms[i][2][:160] if i >= 0 and SH.pc[k] < addr[i] + syms[i][1] else "?")
    return out


def twin(S):
    m, T = {}, []
    for x in S:
        if id(x) not in m:
            m[id(x)] = via_ctor(x)
        T.append(m[id(x)])
    return T


def c13_child(P):
    S = [mk(P["cls"], P["n"], s) for s in P["slots"]]
    E = Env(S)
    E.copier = copy_with
    dense = P["cls"] != "SScalar"
    views = [S[0].data, S[0].g] if dense else []
    owner = S[0]
    out = {"failed": 0, "fired": 0, "completed": 0, "kinds": {}, "cov": []}
    for i, (op, kind, frac, big) in enumerate(P["steps"]):
        at("step %d %s" % (i, json.dumps(op)))
        if op[0] == "resize" and E.S[op[1]] is owner:
            continue
        # the fault-free outcome, on equal operands
        R = Env(twin(E.S))
        R.copier = copy_with
        c13_call(Env2(twin(E.S)), op)                      # warm
        n0 = LIB.hjs_allocs()
        how, res = c13_call(R, op)
        n = LIB.hjs_allocs() - n0
        ref = [how, state(res) if how == "ok" else res.__name__, [state(x) for x in R.S]]
        if how == "raise" and res is TypeError:
            kind = 0        # refused by pybind11, which cannot recover when it has no memory for the message
        del res
        arg = int(frac * n) if kind in (1, 2) else big if kind == 3 else int(frac * 5)
        before = [state(x) for x in E.S]
        ids = [id(x) for x in E.S]
        vb = [v.tolist() for v in views]
        lives, done = [], False
        for rep in range(7):
            at("step %d %s fault %d/%d repetition %d" % (i, json.dumps(op), kind, arg, rep))
            LIB.hjs_arm(kind, arg)
            how, res = c13_call(E, op)
            fired = LIB.hjs_disarm()
            if how == "ok":
                done = True
                if not c13_eq([how, state(res), [state(x) for x in E.S]], ref):
                    violation("partial-result", "with %d failed allocations %s completed with another result: %s" % (fired, json.dumps(op), diff([how, state(res), [state(x) for x in E.S]], ref)))
                out["completed"] += 1
                del res
                break
            if not fired:
                if ref[0] == "ok":
                    violation("spurious", "%s raised %s without a failure" % (json.dumps(op), res.__name__))
                break
            out["fired"] += fired
            out["kinds"][str(kind)] = out["kinds"].get(str(kind), 0) + fired
            out["cov"].append([P["cls"], op[0], kind, min(arg, 12)])
            if issubclass(res, SystemError):
                violation("not-ordinary", "%s raised %s" % (json.dumps(op), res.__name__))
            if ref[0] == "ok" and not issubclass(res, MemoryError):
                out["other"] = out.get("other", 0) + 1
                out.setdefault("others", []).append([op[0], res.__name__])
            del res
            out["failed"] += 1
            if [state(x) for x in E.S] != before or [id(x) for x in E.S] != ids:
                violation("changed", "a failed %s changed a jet: %s" % (json.dumps(op), diff([state(x) for x in E.S], before)))
            if [[b64(t) for t in v.tolist()] for v in views] != [[b64(t) for t in v] for v in vb]:
                violation("view-changed", "a failed %s changed what a view shows" % json.dumps(op))
            LIB.hjs_check_heap()
            lives.append(LIB.hjs_live())
        if len(lives) == 7 and all(a < b for a, b in zip(lives[1:], lives[2:])):
            violation("leak", "each failing %s leaves native allocations behind: live %s; failing in %s" % (json.dumps(op), lives, " < ".join(fault_site()[1:5])))
        if not done:
            at("step %d %s retry" % (i, json.dumps(op)))
            how, res = c13_call(E, op)
            got = [how, state(res) if how == "ok" else res.__name__, [state(x) for x in E.S]]
            del res
            if not c13_eq(got, ref):
                violation("retry-differs", "repeating %s after the failure: %s" % (json.dumps(op), diff(got, ref)))
        note([ref, lives])
        del R
    return out


def Env2(S):
    E = Env(S)
    E.copier = copy_with
    return E


def c13_run(P, X):
    m = X.child(lambda send: send(c13_child(P)), P["fill"], P["quarantine"])
    if m is None:
        return
    m = m[0]
    for k, v in m["kinds"].items():
        key = {"1": "alloc_one", "2": "alloc_persistent", "3": "alloc_larger_than", "4": "alloc_every_nth"}[k]
        X.faults[key] = X.faults.get(key, 0) + v
    for k in ("failed", "completed", "other"):
        X.stats[k] = m.get(k, 0)
    X.others = m.get("others")
    for c in m["cov"]:
        X.cov.add(dig(c))
    X.nontrivial = m["failed"] > 0


# ================================================================== C14
class Hostile:
    """what happens while the arguments of one call are converted"""
    def __init__(self): self.count, self.mode, self.k, self.exc, self.act = 0, "off", -1, None, None
    def arm(self, mode, k, exc=None, act=None):
        self.count, self.mode, self.k, self.exc, self.act, self.fired, self.what = 0, mode, k, exc, act, 0, set()
        self.lists = []      # the plain lists among the arguments of the call
    def tick(self, what="number"):
        i, self.count = self.count, self.count + 1
        m = self.mode
        if i >= self.k >= 0:
            self.what.add(what)
        if (m == "raise" and i == self.k) or (m == "raise_on" and i >= self.k):
            self.fired += 1
            raise self.exc
        if m == "act" and i == self.k:
            self.fired += 1
            self.act()
        return (m == "notnum" and i == self.k) or (m == "lie" and i == self.k)


HOST = Hostile()


class HNum:
    """a number whose conversion may fail or run other operations"""
    def __init__(self, v): self.v = v
    def __float__(self):
        if HOST.tick():
            HOST.fired += 1
            return "no number"
        return self.v


class HInt:
    def __init__(self, v): self.v = v
    def __index__(self):
        if HOST.tick():
            HOST.fired += 1
            return "no number"
        return self.v


class HSeq:
    """a sequence whose length and entries are asked for step by step"""
    def __init__(self, v): self.v = v
    def __len__(self):
        if HOST.tick("seq"):
            HOST.fired += 1
            return len(self.v) + 1
        return len(self.v)
    def __getitem__(self, i):
        if HOST.tick("seq"):
            HOST.fired += 1
            raise IndexError(i)
        return self.v[i]


class Interrupt(BaseException):
    pass


EXCS = [ValueError, KeyError, ZeroDivisionError, RuntimeError, StopIteration, IndexError, TypeError, OverflowError, KeyboardInterrupt, Interrupt]
WRONG = [None, "1.5", b"x", [1.0], {}, object(), 1j, (2.0,), len, float]


def c14_wrap(style):
    """F, I, L for a style"""
    plain = lambda v: v
    if style == "plain":
        return plain, plain, plain
    F = HNum if style != "seqs" else plain
    I = HInt if style != "seqs" else plain
    seq = (lambda v: HOST.lists.append(v) or v) if style == "nums" else HSeq
    def L(v):
        return seq([L(u) if isinstance(u, list) else F(u) for u in v])
    return F, I, L


def c14_draw(r, ns, cls, n):
    s = lambda: r.randrange(ns)
    if cls == "SScalar":
        k = r.choice(["sctor", "sconst", "svar", "pow", "logb", "opf", "opf", "ropf", "ipf", "ipf", "cmpf", "seval", "sd", "ip", "bin"])
    else:
        order, st = CLS[cls]
        ks = ["data", "data", "fg", "fg", "constant", "ctor", "variable", "variables", "variables", "mvars", "setf", "setf", "eval", "eval", "pow", "logb", "opf", "opf", "ropf", "ipf", "ipf", "cmpf", "ip", "bin", "fn2", "fn3"]
        if order == 2: ks += ["fghm", "fghm", "seth", "seth", "h", "sethm", "sethm", "sethm", "sethm", "hm"]
        if st is None: ks += ["resize", "resize", "pad", "pad", "zero"]
        k = r.choice(ks)
    c = {"k": k, "s": s(), "y": s(), "z": s(), "v": val(r), "i": r.randrange(max(n, 1)), "j": r.randrange(max(n, 1)), "m": r.choice([0, 1, 2, 3, 5, 7]), "q": r.randrange(10 ** 6), "op": r.choice(BIN), "iop": r.choice(IP), "cmp": r.choice(CMP), "fn": r.choice(["atan2", "hypot", "arctan2", "mhypot"])}
    return c


def c14_call(c, S, cls, style="plain"):
    """a closure making the call; operands and arguments are fixed now"""
    F, I, L = c14_wrap(style)
    k, v, q = c["k"], c["v"], c["q"]
    C = getattr(hj, cls)
    x, y, z = S[c["s"]], S[c["y"]], S[c["z"]]
    order, st = CLS.get(cls, (1, 0))
    n = x.size
    if k in ("opf", "ropf", "ipf", "cmpf", "pow", "logb", "sctor", "sconst", "svar", "setf"):
        a = F(v if k not in ("logb", "pow") else abs(v) + 1.5)
        if k == "opf": g = getattr(operator, c["op"]); return lambda: g(x, a)
        if k == "ropf": g = getattr(operator, c["op"]); return lambda: g(a, x)
        if k == "ipf":
            g = getattr(operator, c["iop"])
            return lambda: [g(x, a), 0][0]
        if k == "cmpf": g = getattr(operator, c["cmp"]); return lambda: g(x, a)
        if k == "pow": return lambda: x.__pow__(a)
        if k == "logb": return lambda: x.log(a)
        if k == "setf":
            def f(): x.f = a
            return f
        if k == "sconst": return lambda: C.constant(a)
        if k == "svar": return lambda: C.variable("x", a)
        d = {nm: F(w) for nm, w in zip(NAMES, mk_vals(c["m"] % 5, q))}
        return lambda: C(a, d)
    if k == "seval":
        d = {nm: F(w) for nm, w in zip(NAMES, mk_vals(len(NAMES), q))}
        return lambda: "%.9e" % x.eval(d)
    if k == "sd": return lambda: x.d(NAMES[c["i"] % len(NAMES)])
    if k in ("ip", "bin", "fn2", "fn3"):
        if k == "ip": g = getattr(operator, c["iop"]); return lambda: g(x, y)
        if k == "bin": g = getattr(operator, c["op"]); return lambda: g(x, y)
        if k == "fn2": return (lambda: hj.hypot(x, y)) if c["fn"] == "mhypot" else (lambda: getattr(x, c["fn"])(y))
        return lambda: x.hypot(y, z)
    if k == "data":
        a = L(mk_vals(dlen(order, n), q)); return lambda: C(a)
    if k == "fg":
        if order == 2: k = "fghm"
        else:
            a, g = F(v), L(mk_vals(n, q)); return lambda: C(a, g)
    if k in ("fghm", "sethm"):
        m = [mk_vals(n, q + i) for i in range(n)]
        hm = L(m) if n else np.zeros((0, 0))
        if k == "sethm": return lambda: x.set_hm(hm)
        a, g = F(v), L(mk_vals(n, q)); return lambda: C(a, g, hm)
    if k in ("constant", "ctor"):
        a, b = F(v), I(n)
        return (lambda: C.constant(a, b)) if k == "constant" else (lambda: C(a, b))
    if k == "variable":
        if not n: return lambda: C.constant(v)
        a, b, i = F(v), I(n), I(c["i"] % n)
        return lambda: C.variable(i, a, b)
    if k == "variables": a = L(mk_vals(n, q)); return lambda: C.variables(a)
    if k == "mvars":
        a, o = L(mk_vals(c["m"] + 1, q)), I(c["i"] % 3)
        return lambda: hj.variables(a, o)
    if k == "eval": a = L(mk_vals(n, q)); return lambda: x.eval(a)
    if k in ("seth", "h"):
        if not n: return lambda: x.hm()
        i, j = I(c["i"] % n), I(c["j"] % n)
        if k == "h": return lambda: x.h(i, j)
        a = F(v); return lambda: x.set_h(i, j, a)
    if k == "hm": return lambda: x.hm("full" if q % 2 else "zeros")
    if k == "resize": b = I(c["m"]); return lambda: x.resize(b)
    if k == "pad": b = I(n + c["m"]); return lambda: getattr(x, "pad_left" if q % 2 else "pad_right")(b)
    if k == "zero": b = I(c["m"]); return lambda: C.zero(b)
    raise KeyError(k)


def c14_misfit(c, S, cls, w):
    """(closure, description) of a call whose arguments do not fit, or None"""
    C = getattr(hj, cls)
    x, y = S[c["s"]], S[c["y"]]
    order, st = CLS.get(cls, (1, 0))
    n, q, v, k = x.size, c["q"], c["v"], c["k"]
    bad = WRONG[w % len(WRONG)]
    off = [1, -1, 2, -n, 5, n + 1][w % 6]
    ln = n + off if n + off >= 0 and off else n + 1
    xs = lambda m: mk_vals(m, q)
    if k in ("pow", "logb", "opf", "ropf", "ipf"):
        return {"pow": lambda: x.__pow__(bad), "logb": lambda: x.log(bad), "opf": lambda: getattr(operator, c["op"])(x, bad), "ropf": lambda: getattr(operator, c["op"])(bad, x), "ipf": lambda: getattr(operator, c["iop"])(x, bad)}[k], "number"
    if k == "setf":
        def f(): x.f = bad
        return f, "number"
    if k == "cmpf" and c["cmp"] not in ("eq", "ne"): return lambda: getattr(operator, c["cmp"])(x, bad), "number"
    if k == "sctor": return (lambda: C(v, {"x": bad})) if w % 3 else (lambda: C(v, {1: 2.0})), "names"
    if k == "svar": return (lambda: C.variable(bad, v)) if not isinstance(bad, (str, bytes)) else (lambda: C.variable("x", bad)), "names"
    if k == "sconst": return lambda: C.constant(bad), "number"
    if k == "seval": return lambda: x.eval({"x": bad}), "names"
    if k == "sd": return (lambda: x.d(bad)) if not isinstance(bad, (str, bytes)) else None, "names"
    if cls == "SScalar": return None
    if k in ("ip", "bin", "fn2", "fn3"):
        if w % 2 or st is not None:
            D = getattr(hj, "DD3Scalar" if cls != "DD3Scalar" else "D3Scalar")
            o = D.constant(v)
        else:
            o = C.constant(v, ln)
        return {"ip": lambda: getattr(operator, c["iop"])(x, o), "bin": lambda: getattr(operator, c["op"])(x, o), "fn2": lambda: hj.hypot(x, o) if c["fn"] == "mhypot" else getattr(x, c["fn"])(o), "fn3": lambda: x.hypot(o, y) if q % 2 else x.hypot(y, o)}[k], "operand"
    if k == "eval": a = xs(ln); return lambda: x.eval(a), "length"
    if k == "sethm":
        m = np.zeros([(ln, ln), (n, ln), (ln, n)][q % 3]) + v
        return lambda: x.set_hm(m), "shape"
    if k in ("fghm", "fg") and order == 2:
        m = np.zeros([(ln, ln), (n, ln), (ln, n)][q % 3]) + v
        return lambda: C(v, xs(n), m), "shape"
    if k == "fg":
        return (lambda: C(v, xs(ln))) if st is not None else (lambda: C(v, [[1.0, 2.0], [3.0, 4.0]])), "length"
    if k == "data":
        ok = {dlen(order, m) for m in range(64)} if st is None else {dlen(order, st)}
        m = dlen(order, n) + off
        if m < 0 or m in ok:
            m = next(t for t in range(dlen(order, n) + 1, 10 ** 6) if t not in ok) if st is not None or order == 2 else 0
        return lambda: C(xs(m)), "length"
    if k in ("constant", "ctor", "zero"):
        m = -1 - abs(off) if st is None else ln
        return {"constant": lambda: C.constant(v, m), "ctor": lambda: C(v, m), "zero": lambda: C.zero(m)}[k], "size"
    if k == "variable":
        i = [n, -1, n + 7, -n - 1, 1 << 40, n][w % 6]
        if w % 2 or st is not None: return lambda: C.variable(i, v, n), "index"
        return lambda: C.variable(0, v, -1 - w), "size"
    if k == "variables": return (lambda: C.variables(xs(ln))) if st is not None else (lambda: C.variables([1.0, bad])), "length"
    if k == "mvars": return (lambda: hj.variables(xs(3), 3 + w)) if w % 2 else (lambda: hj.variables(xs(3), -1 - w)), "order"
    if k in ("h", "seth"):
        i, j = [(n, 0), (0, n), (-1, 0), (0, -1), (n + 9, n + 9), (-n - 1, 0)][w % 6]
        return (lambda: x.h(i, j)) if k == "h" else (lambda: x.set_h(i, j, v)), "index"
    if k == "hm": return lambda: x.hm(["bogus", "", "FULL", "zeros ", "full\0"][w % 5]), "mode"
    if k == "resize": return lambda: x.resize(-1 - w), "size"
    if k == "pad":
        return lambda: getattr(x, "pad_left" if q % 2 else "pad_right")(n - 1 - w % 3), "size"
    return None


def c14_gen(r):
    sparse = r.random() < 0.2
    cls, n = ("SScalar", 0) if sparse else draw_kind(r)
    order, st = (1, 0) if sparse else CLS[cls]
    order_dynamic = not sparse and st is None
    ns = r.randrange(2, 5)
    steps = []
    for _ in range(r.randrange(1, 7)):
        c = c14_draw(r, ns, cls, n)
        fault = r.choice(["raise", "raise", "raise_on", "raise_on", "misfit", "misfit", "misfit", "act", "act", "notnum", "lie", "shift"])
        f = {"kind": fault, "frac": r.random(), "exc": r.randrange(len(EXCS)), "w": r.randrange(60), "style": r.choice(["nums", "seqs", "all", "all"])}
        if fault == "shift": f["style"] = "nums"
        if fault == "act":
            while True:
                op = fix_new(draw_op(r, ns, order, st is None, sparse, extra=["new", "copy"] if not sparse else ["new"]), cls, n)
                if op[0] not in ("views", "mf", "np", "state", "size", "repr", "cmp", "get"): break
            # often on the jet the call is about, and often giving its storage back
            if order_dynamic and r.random() < 0.4: op = ["resize", c["s"], r.choice([0, 1, 2, 3, 5, 9, 24])]
            elif isinstance(op[1], int) and r.random() < 0.5 and 0 <= op[1] < ns and op[0] != "new": op[1] = c["s"]
            f["act"] = op
        steps.append([c, f])
    return {"cls": cls, "n": n, "slots": [r.randrange(10 ** 6) for _ in range(ns)], "steps": steps, "fill": r.randrange(5), "quarantine": r.choice([0, 64]), "views": r.random() < 0.6}


def c14_outcome(call):
    try:
        return "ok", call()
    except (Violation, SystemExit):
        raise
    except BaseException as e:
        return "raise", type(e)


def c14_child(P):
    cls, n = P["cls"], P["n"]
    S = [mk(cls, n, s) for s in P["slots"]]
    E = Env(S)
    E.copier = copy_with
    dense = cls != "SScalar"
    owner = S[0]
    views = [S[0].data, S[0].g] if dense and P["views"] else []
    out = {"kinds": {}, "cov": [], "refused": 0, "completed": 0}
    HOST.arm("off", -1)
    for i, (c, f) in enumerate(P["steps"]):
        kind = f["kind"]
        name = "step %d %s under %s" % (i, json.dumps(c), json.dumps(f))
        at(name)
        S = E.S
        touched = [c["s"]] + [a for a in (f.get("act") or [])[1:2]]
        if views and (c["k"] == "resize" or (f.get("act") or [""])[0] == "resize") and any(S[t] is owner for t in touched):
            continue          # views across resize: a known finding of C11
        # the outcome without any fault, on equal operands
        def fresh():
            R = Env(twin(E.S)); R.copier = copy_with; return R
        def outcome_on(R, how, res):
            return [how, state(res) if how == "ok" else "raise", next((j for j, v in enumerate(R.S) if v is res), -1), [state(v) for v in R.S]]
        R = fresh()
        how, res = c14_outcome(c14_call(c, R.S, cls))
        ref = outcome_on(R, how, res)
        del res, R
        before = [state(x) for x in E.S]
        ids = [id(x) for x in E.S]
        vb = [[b64(t) for t in v.tolist()] for v in views]
        rc = [sys.getrefcount(x) for x in E.S]
        def intact(what):
            if [state(x) for x in E.S] != before or [id(x) for x in E.S] != ids:
                violation("changed", "%s: a jet changed: %s" % (what, diff([state(x) for x in E.S], before)))
            if [[b64(t) for t in v.tolist()] for v in views] != vb:
                violation("view-changed", "%s: what a view shows changed" % what)
            LIB.hjs_check_heap()
        if kind == "misfit":
            mf = c14_misfit(c, E.S, cls, f["w"])
            if mf is None or mf[0] is None:
                continue
            call, what = mf
            tag = "misfit_" + what
            must = True
        else:
            # how often the arguments are asked for something
            R = fresh()
            HOST.arm("count", -1)
            how, res = c14_outcome(c14_call(c, R.S, cls, f["style"]))
            nt = HOST.count
            HOST.arm("off", -1)
            if outcome_on(R, how, res) != ref:
                if how == "ok" and ref[0] == "ok":
                    violation("result-differs", "%s: arguments of the same values presented as %s objects give another result: %s" % (json.dumps(c), f["style"], diff(outcome_on(R, how, res), ref)))
                continue      # this kind of argument is not accepted here
            del res, R
            if not nt:
                continue
            k = min(int(f["frac"] * nt), nt - 1)
            tag, must = kind, False
        if kind == "act":
            R = fresh()
            call = c14_call(c, R.S, cls)
            safe(R, f["act"])
            how, res = c14_outcome(call)
            want = outcome_on(R, how, res)
            del res, call, R
            T = E
            HOST.arm("act", k, act=lambda: safe(T, f["act"]))
            call = c14_call(c, E.S, cls, f["style"])
            how, res = c14_outcome(call)
            fired = HOST.fired
            HOST.arm("off", -1)
            got = outcome_on(E, how, res)
            del res, call
            out["kinds"]["reentrant"] = out["kinds"].get("reentrant", 0) + fired
            if got != want:
                violation("not-indivisible", "%s with %s run while the arguments are converted (conversion %d of %d): %s" % (json.dumps(c), json.dumps(f["act"]), k, nt, diff(got, want)))
            LIB.hjs_check_heap()
            note(got)
            continue
        if kind == "shift":
            if c["k"] in ("fg", "fghm", "sethm"):
                continue      # lists of these go to numpy
            w, spare = f["w"], [[HNum(v) for v in mk_vals(40, c["q"] + j)] for j in range(2)]
            def change():
                for a in HOST.lists:
                    if w % 5 == 0: a.clear()
                    elif w % 5 == 1: del a[1 + w // 5 % max(1, len(a)):]
                    elif w % 5 == 2: a.extend(spare[0] * (1 + w))
                    elif w % 5 == 3: a[:] = spare[1][:len(a)]
                    else: a[:1] = []
            HOST.arm("act", k, act=change)
            call = c14_call(c, E.S, cls, "nums")
            how, res = c14_outcome(call)
            fired = HOST.fired
            if how == "ok":
                [state(v) for v in (res if isinstance(res, list) else [res])]
            HOST.arm("off", -1)
            del call
            out["kinds"]["arguments_changed"] = out["kinds"].get("arguments_changed", 0) + fired
            if how == "raise" or c["k"] in ("data", "variables", "mvars", "eval"):
                intact("%s whose list of arguments changed while it was converted" % json.dumps(c))
            for v in jets_in([E.S, res if how == "ok" else None], []):
                c10_wellformed(v)
            del res
            note([how, [state(v) for v in E.S]])
            continue
        lives, blocks, nl, done, fired_any = array.array("q", [0] * 6), array.array("q", [0] * 6), 0, False, False
        for rep in range(6):
            at("%s repetition %d" % (name, rep))
            if kind != "misfit":
                HOST.arm(kind, k, exc=EXCS[f["exc"]]("injected"))
                call = c14_call(c, E.S, cls, f["style"])
            how, res = c14_outcome(call)
            fired, failed = (HOST.fired, HOST.what) if kind != "misfit" else (1, ())
            HOST.arm("off", -1)
            if kind != "misfit":
                del call
            if how == "ok":
                if must:
                    violation("accepted", "a call whose %s does not fit was accepted: %s" % (tag, json.dumps([c, f])))
                got = outcome_on(E, how, res)
                del res
                # numpy takes a sequence that fails for something else: whatever it made of it must be accepted without harm
                if kind == "lie" or ("seq" in failed and c["k"] in ("fg", "fghm", "sethm")):
                    done = "other"
                    break
                if got != ref:
                    violation("partial-result", "%s completed with another result although %d conversions failed: %s" % (json.dumps(c), fired, diff(got, ref)))
                out["completed"] += 1
                done = True
                break
            del res
            if not fired and kind != "lie":
                if ref[0] == "ok":
                    violation("spurious", "%s raised without a failure" % json.dumps(c))
                break
            fired_any = True
            out["refused"] += 1
            intact("a refused or interrupted %s (%s)" % (json.dumps(c), tag))
            lives[nl] = LIB.hjs_live()
            blocks[nl] = sys.getallocatedblocks()
            nl += 1
        if kind == "misfit":
            del call, mf
        if nl == 6:
            if all(a < b for a, b in zip(lives[1:], lives[2:])):
                violation("leak", "each refused %s (%s) leaves native allocations behind: live %s" % (json.dumps(c), tag, list(lives)))
            if all(a < b for a, b in zip(blocks[1:], blocks[2:])):
                at("%s: do Python objects stay behind" % name)
                def again(m):
                    for _ in range(m):
                        if kind != "misfit":
                            HOST.arm(kind, k, exc=EXCS[f["exc"]]("injected"))
                            call = c14_call(c, E.S, cls, f["style"])
                        else:
                            call = c14_misfit(c, E.S, cls, f["w"])[0]
                        c14_outcome(call)
                        HOST.arm("off", -1)
                        call = None
                    gc.collect()
                    return sys.getallocatedblocks()
                again(200)
                grown = [again(100) for _ in range(3)]
                if grown[1] - grown[0] >= 80 and grown[2] - grown[1] >= 80:
                    violation("leak", "each refused %s (%s) leaves Python objects behind: %s blocks after 100 more each" % (json.dumps(c), tag, grown))
            now = [sys.getrefcount(x) for x in E.S]
            if now != rc:
                violation("reference-leak", "refused calls of %s (%s) change the reference counts of the jets: %s then %s" % (json.dumps(c), tag, rc, now))
        if fired_any:
            out["kinds"][tag] = out["kinds"].get(tag, 0) + nl
            out["cov"].append([cls, c["k"], tag, f["style"]])
        if done is False:
            at("%s: repeated with good arguments" % name)
            call = c14_call(c, E.S, cls)
            how, res = c14_outcome(call)
            got = outcome_on(E, how, res)
            del res, call
            if got != ref:
                violation("retry-differs", "repeating %s with good arguments: %s" % (json.dumps(c), diff(got, ref)))
        note([ref, nl])
    LIB.hjs_check_heap()
    return out


def c14_run(P, X):
    m = X.child(lambda send: send(c14_child(P)), P["fill"], P["quarantine"])
    if m is None:
        return
    m = m[0]
    for k, v in m["kinds"].items():
        X.faults[k] = X.faults.get(k, 0) + v
    for k in ("refused", "completed"):
        X.stats[k] = m[k]
    for c in m["cov"]:
        X.cov.add(dig(c))
    X.nontrivial = m["refused"] > 0 or bool(m["kinds"].get("reentrant"))


# ================================================================== C16
class Leave(BaseException):
    """unwinds to the top level of the program, which then runs the job and ends as the interpreter does"""
    def __init__(self, job):
        self.job = job


# what is left in the interpreter while it ends is used only through names bound before
LATE = [
    lambda x: x * x, lambda x: x + 1.5, lambda x: 2.0 / x, lambda x: x.sin(), lambda x: -x, lambda x: x ** 2.0, lambda x: x - x * 0.5, lambda x: x / (x + 3.0), lambda x: 1.0 - x,
    lambda x: x.log(), lambda x: x.log(3.0), lambda x: x.atan2(x), lambda x: x.hypot(x), lambda x: x.hypot(x, x), lambda x: x.exp().sqrt(), lambda x: x.__abs__(), lambda x: x.abs(), lambda x: x.reciprocal(), lambda x: x.cosh(), lambda x: x.acosh(), lambda x: x.arcsinh(), lambda x: x.cbrt(), lambda x: x.log10(), lambda x: x.log2(),
    lambda x: x.__pow__(0.5),
]
LATE_DENSE = [
    lambda x: x.__copy__(), lambda x: x.__deepcopy__({}), lambda x: x.eval([0.5] * x.size), lambda x: x.__getstate__(), lambda x: x.__len__(), lambda x: x.is_dynamic, lambda x: x.constant(2.0, x.size), lambda x: x.zero(x.size), lambda x: x.order,
    lambda x: [x.h(i, 0) for i in (0,)] if x.size and x.order == 2 else None, lambda x: x.variable(0, 1.5, x.size) if x.size else None, lambda x: x.variables([1.5] * x.size) if x.size else None, lambda x: (x == x, x != x, x < 0.5, 0.5 <= x, x > x, x >= x * 2.0),
]
LATE_SPARSE = [lambda x: x.d("x"), lambda x: x.d("w"), lambda x: x.eval({"x": 0.5, "w": 2.0}), lambda x: (x == x, x < 0.5, x >= x * 2.0)]


def lates(x, k):
    """some of what can be done with a jet, by number"""
    L = LATE + (LATE_SPARSE if isinstance(x, hj.SScalar) else LATE_DENSE)
    return rng("late", k).sample(L, 7)


def look_jet(x, what, _sorted=sorted, _join="".join, _hasattr=hasattr):
    r = [x.__repr__(), x.f, x.size]
    for f in what:
        y = f(x)
        r.append(_join(_sorted(y.__repr__())))
        if _hasattr(y, "f"):
            r.append(y.f)
    y = x * 1.0
    y *= x
    y += x
    y -= x * 0.5
    y /= x + 4.0
    r.append(_join(_sorted(y.__repr__())))
    return r.__repr__()


def look_list(L, what, _look=look_jet, _join="; ".join):
    return _join([_look(x, what) for x in L])


def look_view(v, what):
    return v.tolist().__repr__()


def look_call(m, what, _sorted=sorted, _join="".join):
    return _join(_sorted(m().__repr__()))


class Late:
    """something made of jets, looked at when the interpreter gets to drop it"""
    __slots__ = ("v", "look", "want", "name", "job", "what", "__weakref__")

    def __init__(self, v, look, name, job, what):
        self.v, self.look, self.name, self.job, self.what = v, look, name, job, what
        self.want = None

    def check(self, where, _write=os.write, _exit=os._exit, _BE=BaseException):
        if self.want is None:
            return
        try:
            got = self.look(self.v, self.what)
        except _BE as e:
            got = "raises " + e.__repr__()
        if got != self.want:
            m = "V %s: what %s holds, looked at %s, was %.250s and is %.250s\n" % (self.job[0], self.name, where, self.want, got)
            _write(self.job[1], m.encode())
            _exit(78)
        _write(self.job[1], b"L\n")

    def must(self, where, _write=os.write):
        self.check(where)
        _write(self.job[1], ("R %s %s\n" % (self.job[0], self.name)).encode())

    def __del__(self):
        self.check("while it is dropped")


def c16_value(form, E, P, k):
    """(value, how to look at it)"""
    x = E.S[k % len(E.S)]
    dense = not isinstance(x, hj.SScalar)
    if form == "other":
        return mk(P["cls"], P["n"], 77 + k), look_jet
    if form == "list":
        return [x, via_ctor(x), x], look_list
    if form == "objarr":
        a = np.empty(3, object)
        a[0], a[1], a[2] = x, via_ctor(x), x
        return a, look_list
    if form == "bound":
        return x.cos, look_call
    if form == "copyfn":
        return x.__copy__ if hasattr(x, "__copy__") else x.exp, look_call
    if form in ("view", "g") and dense:
        if any(op[0] == "resize" for op in P["ops"] + (P["fork"]["ops"] if P["fork"] else [])):
            x = via_zero(x)                 # views across resize: a known finding of C11
        return (x.data if form == "view" else x.g), look_view
    if form == "lonely" and dense:
        return via_zero(x).data, look_view
    if form == "slice" and dense:
        return via_zero(x).data[:1], look_view
    return x, look_jet


C16_FORMS = ["jet", "jet", "jet", "other", "list", "objarr", "bound", "copyfn", "view", "g", "lonely", "slice"]
C16_PLACES = ["global", "module", "builtins", "hjmodule", "type", "cycle", "atexit", "finalize", "generator", "tls", "daemon", "lasterr", "context", "cached", "stdout", "hook", "afterthread", "slotcycle", "codec", "stack"]


def c16_gen(r):
    sparse = r.random() < 0.2
    cls, n = ("SScalar", 0) if sparse else draw_kind(r)
    order, st = (1, 0) if sparse else CLS[cls]
    ns = r.randrange(2, 5)
    extra = ["new", "np", "vars"] if sparse else ["new", "copy", "mf", "np", "vars", "cvars", "dumps"]
    def ops(a, b):
        out = []
        for _ in range(r.randrange(a, b)):
            if r.random() < 0.12: out.append([r.choice(["reimport", "reimport_thread", "gc", "thread", "reload"])])
            else: out.append(fix_new(draw_op(r, ns, order, st is None, sparse, extra=extra), cls, n))
        return out
    main = ops(0, 14)
    end = lambda: r.choice(["return", "return", "exit0", "exit3", "raise"])
    P = {"cls": cls, "n": n, "slots": [r.randrange(10 ** 6) for _ in range(ns)], "ops": main, "end": end(), "fork": None, "seed": r.randrange(1000)}
    P["anchors"] = [[r.randrange(len(main) + 1), r.choice(C16_PLACES), r.choice(C16_FORMS), r.randrange(1000)] for _ in range(r.randrange(1, 6))]
    if r.random() < 0.4:
        P["fork"] = {"at": r.randrange(len(main) + 1), "order": r.choice(["child", "parent", "gone"]), "ops": ops(0, 8), "end": r.choice([end(), "os._exit"]), "anchors": [[r.choice(C16_PLACES), r.choice(C16_FORMS), r.randrange(1000)] for _ in range(r.randrange(0, 3))]}
    P["fill"], P["quarantine"] = r.randrange(5), r.choice([0, 64])
    return P


def c16_again(how):
    old = sys.modules["hyperjet"]
    if how == "reload":
        importlib.reload(old)
        return
    del sys.modules["hyperjet"]
    def do():
        import hyperjet
        if not all(getattr(hyperjet, c) is getattr(hj, c) for c in CLS):
            violation("import", "a second import of the module gives other classes")
    if how == "reimport":
        do()
    else:
        c16_thread(do)
    sys.modules["hyperjet"] = old


def c16_thread(f):
    bad = []
    def body():
        try:
            f()
        except BaseException as e:
            bad.append(e)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if bad:
        raise bad[0]


def c16_op(E, op):
    """outcome of one step"""
    if op[0] == "gc":
        gc.collect()
        return None
    if op[0] in ("reimport", "reimport_thread", "reload"):
        c16_again(op[0])
        return None
    if op[0] == "thread":                                       # one operation of another thread, which then ends
        E.S[0] = E.S[0]
        c16_thread(lambda: E.S.__setitem__(0, E.S[0] * E.S[-1]) if E.S[0].size == E.S[-1].size else None)
        return None
    return safe(E, op)


def c16_start(P):
    E = Env([mk(P["cls"], P["n"], s) for s in P["slots"]])
    E.copier = copy_with
    return E


def c16_step(E, op, outs):
    at(json.dumps(op))
    o = c16_op(E, op)
    outs.append([dig(o), dig([state(x) for x in E.S])])


def c16_reference(P):
    """the outcomes of both programs, without forks, anchors and ends"""
    E = c16_start(P)
    outs, fouts = [], []
    F = P["fork"]
    for i, op in enumerate(P["ops"]):
        if F and F["at"] == i:
            break
        c16_step(E, op, outs)
    if F:
        G = Env(twin(E.S))
        G.copier = copy_with
        for op in F["ops"]:
            c16_step(G, op, fouts)
        for op in P["ops"][F["at"]:]:
            c16_step(E, op, outs)
    return [outs, fouts]


def c16_anchor(place, form, k, name, E, P, job, keep, threads):
    """puts something made of jets where it stays until the interpreter ends"""
    v, look = c16_value(form, E, P, k)
    L = Late(v, look, "%s (%s in %s)" % (name, form, place), job, lates(E.S[0], k + len(keep)))
    del v
    keep.append(L)
    g = globals()
    if place == "global":
        g["anchor_" + name] = L
    elif place == "module":
        m = types.ModuleType("anchor_" + name)
        m.held = L
        sys.modules["anchor_" + name] = m
    elif place == "builtins":
        setattr(builtins, "anchor_" + name, L)
    elif place == "hjmodule":
        setattr(hj, "anchor_" + name, L)
    elif place == "type":
        setattr(type(E.S[0]), "anchor_" + name, L)
    elif place == "cycle":
        d = {"v": L}
        d["d"] = d
    elif place == "slotcycle":
        a = np.empty(2, object)
        a[0], a[1] = L, [a]
    elif place == "atexit":
        atexit.register(L.must, "at exit")
        return L.name
    elif place == "finalize":
        g["anchor_" + name] = weakref.finalize(sys.modules[__name__].Late, L.must, "at the end")
        return L.name
    elif place == "generator":
        def gen(L):
            try:
                yield L.v
            finally:
                L.check("when a suspended generator is closed")
        h = gen(L)
        next(h)
        g["anchor_" + name] = h
    elif place == "tls":
        t = threading.local()
        t.v = L
        g["anchor_" + name] = t
    elif place == "daemon":
        ready, never = threading.Event(), threading.Lock()
        never.acquire()
        def wait(L, ready, never):
            ready.set()
            never.acquire()
        threading.Thread(target=wait, args=(L, ready, never), daemon=True).start()
        ready.wait()
    elif place == "afterthread":
        ready = threading.Event()
        def after(L, ready, main):
            ready.set()
            main.join()
            L.must("by a thread after the main one")
        threading.Thread(target=after, args=(L, ready, threading.main_thread())).start()
        ready.wait()
        threads.append(L.name)
    elif place == "lasterr":
        try:
            def deep(held):
                raise ValueError(held.v)
            deep(L)
        except ValueError as e:
            sys.last_value = e
    elif place == "context":
        c = contextvars.ContextVar("anchor_" + name)
        c.set(L)
    elif place == "cached":
        f = functools.lru_cache(lambda k: L)
        f(1)
        g["anchor_" + name] = f
    elif place == "codec":
        codecs.register_error("anchor_" + name, lambda e: (L.name, e.end))
    elif place == "stdout":
        class Out(io.StringIO):
            def flush(self):
                L.check("when standard output is flushed")
        sys.stdout = Out()
    elif place == "hook":
        def hook(t, v, tb):
            L.must("by the exception hook")
        sys.excepthook = hook
        return L.name
    elif place == "stack":
        keep[0].append(L)              # stays in the frame that ends
    return None


def c16_job(P, fd):
    """the program: runs at the top level of __main__"""
    LIB.hjs_end()
    job = ["main", fd]
    send = lambda o, _d=json.dumps: os.write(job[1], _d(o).encode() + b"\n")
    E = c16_start(P)
    keep = [[]]
    atend, hooks, threads = [], [], []
    outs = []
    F = P["fork"]
    pid = 0
    ops, i, end = P["ops"], 0, P["end"]
    role = "main"
    anchors = sorted(P["anchors"])
    def put(place, form, k, name):
        m = c16_anchor(place, form, k, name, E, P, job, keep, threads)
        if m:
            if place == "hook":
                hooks[:] = [m]
            else:
                atend.append(m)
    grd = gwr = -1
    while True:
        if role == "main":
            while anchors and anchors[0][0] <= i:
                a = anchors.pop(0)
                put(a[1], a[2], a[3], "m%d" % len(keep))
            if F and F["at"] == i and not pid:
                grd, gwr = os.pipe()
                before = [state(x) for x in E.S]
                at("fork")
                pid = os.fork()
                if pid == 0:
                    os.close(gwr)
                    job[0] = role = "forked"
                    threads.clear()
                    if F["order"] != "child":
                        os.read(grd, 1)         # until the parent is done, or gone
                    signal.alarm(12)
                    if [state(x) for x in E.S] != before:
                        violation("fork", "a jet is not the same in a forked process")
                    ops, i, end, outs = F["ops"], 0, F["end"], []
                    for a in F["anchors"]:
                        put(a[0], a[1], a[2], "f%d" % len(keep))
                    continue
                os.close(grd)
                if F["order"] == "child":
                    c16_reap(pid, F["end"])
                if [state(x) for x in E.S] != before:
                    violation("fork", "a jet changed in the process that forked")
        if i >= len(ops):
            break
        c16_step(E, ops[i], outs)
        i += 1
    at("the end of the %s process (%s)" % (role, end))
    if pid and F["order"] == "parent":
        os.close(gwr)
        c16_reap(pid, F["end"])
    elif pid and F["order"] == "gone":
        send({"forked": pid})
    for L in keep[1:]:
        L.want = L.look(L.v, L.what)
    LIB.hjs_check_heap()
    send({"role": role, "outs": outs, "must": atend + threads + (hooks if end == "raise" else []), "held": len(keep) - 1})
    stay = keep[0]
    L = before = None
    del keep[1:]
    return end, stay


def c16_reap(pid, end):
    want = {"return": 0, "exit0": 0, "exit3": 3, "raise": 1, "os._exit": 0}[end]
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        violation("end", "the forked process died of %s" % signal.Signals(os.WTERMSIG(st)).name)
    if os.WEXITSTATUS(st) in (77, 78):
        os._exit(79)                # it has reported what is wrong
    if os.WEXITSTATUS(st) != want:
        violation("end", "the forked process ended with status %d instead of %d" % (os.WEXITSTATUS(st), want))


def c16_run(P, X):
    ref = X.child(lambda send: send(c16_reference(P)), P["fill"], P["quarantine"])
    if ref is None:
        return
    got = X.leaving(lambda fd: c16_job(P, fd), P["fill"], P["quarantine"], P["end"], (P["fork"] or {}).get("end"))
    if got is None:
        return
    roles, ran = got
    X.stats["processes_ended"] = len(roles)
    for role, m in sorted(roles.items()):
        want = ref[0][0] if role == "main" else ref[0][1]
        X.stats["held_at_end"] = X.stats.get("held_at_end", 0) + m["held"]
        for j, (a, b) in enumerate(zip(m["outs"], want)):
            if a != b:
                return X.fail("history-differs", "step %d of the %s process has another outcome than in a process that neither forks nor holds anything: %s" % (j, role, json.dumps((P["ops"] if role == "main" else P["fork"]["ops"])[j])))
        if len(m["outs"]) != len(want):
            return X.fail("history-differs", "the %s process made %d steps of %d" % (role, len(m["outs"]), len(want)))
        end = P["end"] if role == "main" else P["fork"]["end"]
        must = sorted(m["must"]) if end != "os._exit" else []
        if sorted(ran.get(role, [])) != must:
            return X.fail("end", "the %s process ended without running what was registered: %s of %s" % (role, sorted(ran.get(role, [])), must))
        X.faults["end_" + end] = X.faults.get("end_" + end, 0) + 1
    F = P["fork"]
    if (F is not None) != ("forked" in roles) or "main" not in roles:
        return X.fail("end", "a process left no account: %s" % sorted(roles))
    if F:
        X.faults["fork_" + F["order"]] = 1
    for op in P["ops"] + (F["ops"] if F else []):
        if op[0] in ("reimport", "reimport_thread", "reload", "thread"):
            X.faults[op[0]] = X.faults.get(op[0], 0) + 1
    for a in [a[1:] for a in P["anchors"]] + (F["anchors"] if F else []):
        X.faults["held_in_" + a[0]] = X.faults.get("held_in_" + a[0], 0) + 1
        X.cov.add(dig([P["cls"], a[0], a[1], P["end"]]))
    X.note([[r, m["outs"], m["held"]] for r, m in sorted(roles.items())])
    X.nontrivial = True


GEN = {"C09": c09_gen, "C10": c10_gen, "C11": c11_gen, "C12": c12_gen, "C13": c13_gen, "C14": c14_gen, "C16": c16_gen}
RUN = {"C09": c09_run, "C10": c10_run, "C11": c11_run, "C12": c12_run, "C13": c13_run, "C14": c14_run, "C16": c16_run}


# ================================================================== executing one program
class Exec:
    def __init__(self):
        self.stats, self.faults, self.cov, self.sched = {}, {}, set(), set()
        self.nontrivial = False
        self.verdict = None          # (class, message)
        self.hash = 0
        self.nproc = 0
        self.counters = dict.fromkeys(STATS, 0)

    def fail(self, cls, msg):
        if self.verdict is None:
            self.verdict = (cls, msg)

    def note(self, o):
        self.hash = dig([self.hash, dig(o)])

    def absorb(self):
        for k in STATS:
            self.counters[k] += getattr(SH, k)
        self.hash = dig([self.hash, SH.hash, SH.steps])

    def judge(self, status):
        """verdict of a finished process; True when it ended normally"""
        self.absorb()
        if SH.status == 2:
            self.fail(SH.cls.decode(), "%s (in: %s)" % (SH.msg.decode(errors="replace"), SH.op.decode(errors="replace")))
        elif SH.status == 3:
            self.fail("error", SH.msg.decode(errors="replace"))
        elif os.WIFSIGNALED(status):
            s = os.WTERMSIG(status)
            if s == signal.SIGALRM:
                self.fail("hang", "no end within the time limit (in: %s)" % SH.op.decode(errors="replace"))
            elif s == signal.SIGKILL:
                self.fail("error", "killed")
            else:
                self.fail("crash", "the interpreter died of %s (in: %s; at: %s)" % (signal.Signals(s).name, SH.op.decode(errors="replace"), SH.where.decode(errors="replace")))
        elif os.WEXITSTATUS(status) != 0:
            self.fail("error", "exit status %d (in: %s)" % (os.WEXITSTATUS(status), SH.op.decode(errors="replace")))
        return self.verdict is None

    def child(self, f, fill, quarantine):
        """runs f(send) in a forked process; the messages it sent, or None when the verdict is in"""
        self.nproc += 1
        rd, wr = os.pipe()
        SH.status = 0
        SH.op = b""
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(rd)
                signal.alarm(60)
                err = os.open(os.devnull, os.O_WRONLY)
                os.dup2(err, 2)
                LIB.hjs_begin(12345 + fill, fill, quarantine)
                w = os.fdopen(wr, "wb", buffering=0)
                def send(o):
                    b = json.dumps(o).encode() + b"\n"
                    while b:
                        b = b[os.write(wr, b):]
                try:
                    f(send)
                    code = 0
                except Violation as v:
                    LIB.hjs_violation(v.cls.encode(), v.msg.encode()[:1500])
                except BaseException as e:
                    import traceback
                    SH.status = 3
                    SH.msg = ("harness: " + traceback.format_exc()[-1200:]).encode()[:1500]
            finally:
                os._exit(code)
        os.close(wr)
        chunks = []
        while True:
            b = os.read(rd, 1 << 16)
            if not b:
                break
            chunks.append(b)
        os.close(rd)
        _, status = os.waitpid(pid, 0)
        if not self.judge(status):
            return None
        return [json.loads(l) for l in b"".join(chunks).splitlines()]

    def leaving(self, job, fill, quarantine, end, fend):
        """runs job(fd) at the top level of a forked process that then ends like a program does;
        what each role reported, and which of its registered functions ran; or None when the verdict is in"""
        self.nproc += 1
        rd, wr = os.pipe()
        SH.status = 0
        SH.op = b""
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            signal.alarm(12)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            LIB.hjs_begin(12345 + fill, fill, quarantine)
            gc.unfreeze()
            gc.enable()
            raise Leave(lambda: job(wr))
        os.close(wr)
        chunks = []
        while True:
            b = os.read(rd, 1 << 16)
            if not b:
                break
            chunks.append(b)
        os.close(rd)
        _, status = os.waitpid(pid, 0)
        roles, ran, bad, orphan = {}, {}, None, 0
        for l in b"".join(chunks).decode(errors="replace").splitlines():
            if l.startswith("{"):
                m = json.loads(l)
                if "forked" in m: orphan = m["forked"]
                else: roles[m["role"]] = m
            elif l.startswith("R "):
                _, role, name = l.split(" ", 2)
                ran.setdefault(role, []).append(name)
            elif l == "L":
                self.stats["looks_while_ending"] = self.stats.get("looks_while_ending", 0) + 1
            elif l.startswith("V "):
                bad = bad or l[2:]
        code = {"return": 0, "exit0": 0, "exit3": 3, "raise": 1, "os._exit": 0, None: 0}
        ends = [("main", status, code[end])]
        if orphan:
            try:
                ends.append(("forked", os.waitpid(orphan, 0)[1], code[fend]))
            except ChildProcessError:
                self.fail("error", "cannot wait for the forked process")
                return None
        if bad:
            self.absorb()
            self.fail("late", bad)
            return None
        for role, st, want in ends:
            if not os.WIFSIGNALED(st) and SH.status == 0 and os.WEXITSTATUS(st) != want:
                self.absorb()
                self.fail("end", "the %s process ended with status %d instead of %d (last: %s)" % (role, os.WEXITSTATUS(st), want, SH.op.decode(errors="replace")))
                return None
            if not self.judge(st if os.WIFSIGNALED(st) else 0):
                return None
        return roles, ran

    def fresh_child(self, job, fill, quarantine):
        """the same in a newly started interpreter (C09 lives)"""
        self.nproc += 1
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "life"], input=json.dumps(dict(job, fill=fill, quarantine=quarantine)).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        self.stats["fresh_interpreters"] = self.stats.get("fresh_interpreters", 0) + 1
        if p.returncode < 0:
            self.fail("crash", "a new interpreter died of signal %d" % -p.returncode)
            return None
        if p.returncode == 77:
            o = json.loads(p.stderr.decode().splitlines()[-1])
            self.fail(o[0], o[1])
            return None
        if p.returncode:
            self.fail("error", p.stderr.decode()[-800:])
            return None
        return [json.loads(l) for l in p.stdout.splitlines()]


def life_main():
    global EXT
    job = json.load(sys.stdin)
    LIB.hjs_begin(12345 + job["fill"], job["fill"], job["quarantine"])
    def send(o):
        sys.stdout.write(json.dumps(o) + "\n")
    EXT = job["P"].get("ext", False)
    try:
        c09_life(job["P"], bytes.fromhex(job["disk"]), job["crash"], send)
    except Violation as v:
        sys.stderr.write(json.dumps([v.cls, v.msg]) + "\n")
        os._exit(77)
    sys.stdout.flush()
    os._exit(0)


def execute(prop, P):
    global EXT
    EXT = P.get("ext", False)
    X = Exec()
    RUN[prop](P, X)
    return X


# ================================================================== minimising
def variants(prop, P):
    """smaller programs, most promising first"""
    def without(key, lo=0):
        L = P[key]
        n = len(L)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                if n - size < lo:
                    continue
                Q = copy.deepcopy(P)
                del Q[key][i:i + size]
                yield key, i, size, Q
            size //= 2
    if prop == "C09":
        for key, i, size, Q in without("ops"):
            cr = []
            for c in Q["crashes"]:
                if c[0] < i: cr.append(c)
                elif c[0] >= i + size: cr.append([c[0] - size, c[1]])
            Q["crashes"] = cr
            yield Q
        for *_, Q in without("crashes"):
            yield Q
        if P.get("fresh"):
            yield dict(P, fresh=False)
    if prop == "C10" and P["mode"] == "bytes":
        for *_, Q in without("damage", 1): yield Q
        for *_, Q in without("jets", 1): yield Q
        if P["form"] != "single": yield dict(P, form="single")
    if prop == "C10" and P["mode"] == "state" and P["calls"] > 1:
        yield dict(P, calls=1)
    if prop == "C11":
        for *_, Q in without("ops"): yield Q
    if prop == "C12":
        for t in range(len(P["threads"])):
            for i in range(len(P["threads"][t])):
                for k in range(12):
                    Q = copy.deepcopy(P)
                    del Q["threads"][t][i]
                    if not Q["threads"][t]:
                        if len(Q["threads"]) <= 2: continue
                        del Q["threads"][t]
                    Q["sched"] = None
                    Q["seed"] = P["seed"] + k
                    if k >= 6: Q["pop"], Q["pnat"] = 4, 6
                    yield Q
    if prop in ("C13", "C14"):
        for *_, Q in without("steps", 1): yield Q
    if prop == "C16":
        if P["fork"]: yield dict(P, fork=None)
        for *_, Q in without("anchors"): yield Q
        for key, i, size, Q in without("ops"):
            for a in Q["anchors"]: a[0] = min(a[0], len(Q["ops"]))
            if Q["fork"]: Q["fork"]["at"] = min(Q["fork"]["at"], len(Q["ops"]))
            yield Q
        if P["fork"]:
            for k in ("ops", "anchors"):
                for i in range(len(P["fork"][k])):
                    Q = copy.deepcopy(P)
                    del Q["fork"][k][i]
                    yield Q
        if P["end"] != "return": yield dict(P, end="return")
    if prop in ("C09", "C11", "C12", "C13", "C14", "C16") and P["cls"] in CLS and CLS[P["cls"]][1] is None:
        for n in (0, 1, 2, 3):
            if n < P["n"]:
                Q = copy.deepcopy(P)
                Q["n"] = n
                yield Q


def minimize(prop, P, cls, budget):
    end = time.time() + budget
    progress = True
    while progress and time.time() < end:
        progress = False
        for Q in variants(prop, P):
            if time.time() > end:
                break
            X = execute(prop, Q)
            if X.verdict and X.verdict[0] == cls:
                P = Q
                progress = True
                break
    if prop == "C12":
        X = execute(prop, P)
        if X.verdict and X.verdict[0] == cls:
            Q = dict(P, sched=[[SH.sw[2 * i], SH.sw[2 * i + 1]] for i in range(SH.nsw)])
            Y = execute(prop, Q)
            if Y.verdict and Y.verdict[0] == cls:
                P = Q
                size = max(1, len(P["sched"]) // 2)
                while size >= 1 and time.time() < end:
                    i = 1
                    while i < len(P["sched"]) and time.time() < end:
                        Q = dict(P, sched=P["sched"][:i] + P["sched"][i + size:])
                        Y = execute(prop, Q)
                        if Y.verdict and Y.verdict[0] == cls:
                            P = Q
                        else:
                            i += size
                    size //= 2
    return P


# ================================================================== commands
def arg(name, default=None):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


def warm():
    """everything lazily initialised happens before the first fork"""
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)       # processes whose parent has ended become children of this one
    for c in CLS:
        x = mk(c, 2 if CLS[c][1] is None else CLS[c][1], 5)
        y = copy.deepcopy(x)
        for p in range(6):
            pickle.loads(pickle.dumps([x, y], p))
        state(x), repr(x), x.data, x.g
        E = Env([x, y, via_zero(x)])
        E.copier = copy_with
        r = rng("warm", c)
        for _ in range(40):
            safe(E, draw_op(r, 3, CLS[c][0], CLS[c][1] is None, extra=["copy", "mf", "vars", "cvars", "np"]))
            E.S = [x, y, via_zero(x)]
    s = hj.SScalar(1.5, {"x": 2.0})
    state(s), repr(s * s)
    t = threading.Thread(target=lambda: None)
    t.start()
    t.join()
    json.dumps([1.5, None]), json.loads("[1, 2.5]")
    exclude_registration()
    gc.collect()
    gc.disable()
    gc.freeze()


def sweep():
    global EXT
    prop, seed, lo, hi, cap, out = arg("--prop"), int(arg("--seed")), int(arg("--from")), int(arg("--to")), float(arg("--cap")), arg("--out")
    maxv = int(arg("--max-violations", "4"))
    skip = json.loads(arg("--known", "[]"))      # classes of known findings: kept once, do not use up the limit
    t0 = time.time()
    tot = dict(runs=0, processes=0, error=None, violations=[], samples=[], stats={}, faults={}, counters=dict.fromkeys(STATS, 0), others={}, repeated=0)
    hashes, cov, sched = set(), set(), set()
    nv = 0
    for i in range(lo, hi):
        if time.time() - t0 > cap:
            break
        r = random.Random("%s/%d/%d" % (prop, seed, i))
        EXT = False
        P = json.loads(json.dumps(GEN[prop](r)))
        X = execute(prop, P)
        tot["runs"] += 1
        tot["processes"] += X.nproc
        if i % 64 == 7:
            Y = execute(prop, P)
            tot["repeated"] += 1
            if (X.hash, X.verdict) != (Y.hash, Y.verdict):
                tot["error"] = "run %d is not repeatable: %s / %s" % (i, (X.hash, X.verdict), (Y.hash, Y.verdict))
                tot["unrepeatable"] = tot.get("unrepeatable", 0) + 1
                if tot["unrepeatable"] >= 8:
                    break
                X = X if X.verdict else Y       # a violation seen in one of the two is still a violation to examine
        for d, s in ((tot["stats"], X.stats), (tot["faults"], X.faults), (tot["counters"], X.counters)):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        for o in getattr(X, "others", None) or []:
            tot["others"]["/".join(o)] = tot["others"].get("/".join(o), 0) + 1
        cov |= X.cov
        sched |= X.sched
        if X.verdict:
            if X.verdict[0] == "error":
                tot["error"] = "run %d: %s" % (i, X.verdict[1])
                break
            known = X.verdict[0] in skip
            if known and any(v["class"] == X.verdict[0] for v in tot["violations"]):
                continue
            f = os.path.join(out, "v%d.json" % i)
            save(f, prop, P, X, seed, i)
            tot["violations"].append({"index": i, "class": X.verdict[0], "message": X.verdict[1], "file": f})
            if not known:
                nv += 1
                if nv >= maxv:
                    break
        elif X.nontrivial:
            hashes.add(X.hash)
            if len(tot["samples"]) < 1:
                tot["samples"].append(json.dumps({"seed": seed, "index": i, "program": P})[:1500])
    tot["wall"] = time.time() - t0
    for n, s in (("hashes", hashes), ("cov", cov), ("scheds", sched)):
        with open(os.path.join(out, n + ".bin"), "wb") as f:
            f.write(struct.pack("<%dQ" % len(s), *s))
    json.dump(tot, open(os.path.join(out, "result.json"), "w"))
    return 0


def save(path, prop, P, X, seed, index):
    json.dump({"format": "pysim", "property": prop, "seed": seed, "index": index, "class": X.verdict[0] if X and X.verdict else None, "message": X.verdict[1] if X and X.verdict else None, "program": P}, open(path, "w"), indent=1)


def main():
    cmd = sys.argv[1]
    if cmd == "life":
        return life_main()
    warm()
    if cmd == "sweep":
        return sweep()
    if cmd == "replay":
        d = json.load(open(sys.argv[2]))
        X = execute(d["property"], d["program"])
        v = X.verdict or (None, None)
        print(json.dumps({"status": "violation" if X.verdict else "ok", "class": v[0], "message": v[1], "hash": X.hash}))
        return 1 if X.verdict and v[0] != "error" else 2 if X.verdict else 0
    if cmd == "minimize":
        d = json.load(open(sys.argv[2]))
        P = minimize(d["property"], d["program"], d["class"], float(sys.argv[4]))
        X = execute(d["property"], P)
        if not X.verdict or X.verdict[0] != d["class"]:
            return 1
        save(sys.argv[3], d["property"], P, X, d["seed"], d["index"])
        return 0
    return 2


if __name__ == "__main__":
    libc = ctypes.CDLL(None)
    if not os.environ.get("HJS_FIXED") and libc.personality(0xffffffff) & 0x0040000 == 0:
        os.environ["HJS_FIXED"] = "1"           # once, whether or not it works
        if libc.personality(0x0040000) != -1:   # ADDR_NO_RANDOMIZE
            os.execv(sys.executable, [sys.executable] + sys.argv)
    job = None
    try:
        code = main()
        sys.stdout.flush()
        os._exit(code)
    except Leave as l:
        job = l.job
    # only processes forked by Exec.leaving come here
    try:
        end, stay = job()
    except Violation as v:
        LIB.hjs_violation(v.cls.encode(), v.msg.encode()[:1500])
    except BaseException as e:
        import traceback
        SH.status = 3
        SH.msg = ("harness: " + traceback.format_exc()[-1200:]).encode()[:1500]
        os._exit(3)
    del job
    if end == "exit0":
        sys.exit(0)
    if end == "exit3":
        sys.exit(3)
    if end == "raise":
        raise RuntimeError("a program that fails")
    if end == "os._exit":
        os._exit(0)
