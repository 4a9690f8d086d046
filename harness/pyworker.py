"""Runs calls against the freshly built Python extension and records what is observed.

usage: pyworker.py <build dir> <cases.jsonl> <results.jsonl>
Each line of cases is {"id":.., "ops":[..]}; one result line is appended (and flushed) per case.
An op is {"f": name, ...args}; its record is {"ok": {...}} or {"err": [type, message]}.
"""
import gc, hashlib, json, math, os, sys

bdir, cin, cout = sys.argv[1:4]
sys.path.insert(0, bdir)
sys.dont_write_bytecode = True
import numpy as np
import humanleague as hl

DT = {"i8": np.int64, "i4": np.int32, "i2": np.int16, "u1": np.uint8, "u2": np.uint16, "u4": np.uint32, "f8": np.float64,
      "f4": np.float32, "f2": np.float16, "g": np.longdouble, "u8": np.uint64, "i1": np.int8, ">i4": ">i4", ">u2": ">u2", ">f4": ">f4", "b": np.bool_, "O": object, ">i8": ">i8", ">f8": ">f8"}


def num(x):
    return float(x) if isinstance(x, str) else x


def mk(a):
    """Array argument: {"d":shape,"v":row-major values,"t":type,"lay":layout}; plain JSON lists are passed as lists.
    {"buf":..,"t":..,"shape":..,"strides":[elements],"off":..} is an explicit strided view."""
    if not isinstance(a, dict):
        return a
    if "raw" in a:
        return a["raw"]
    if "tuple" in a:
        return tuple(mk(x) for x in a["tuple"])
    if "buf" in a:
        t = np.dtype(DT[a.get("t", "i8")])
        b = np.array([num(x) for x in a["buf"]], dtype=t)
        if a.get("pad"):    # elements of records with other fields: odd strides, not aligned
            c = np.zeros(len(b), dtype=np.dtype([("q", "u1", (a["pad"],)), ("x", t)]))
            c["x"] = b
            b = c["x"]
        r_base.append(b)
        r = np.lib.stride_tricks.as_strided(b[a["off"]:], shape=a["shape"], strides=[s * b.strides[0] for s in a["strides"]])
        if a.get("aslist"):
            tup = lambda x: tuple(tup(y) for y in x) if isinstance(x, list) else x
            return r.tolist() if a["aslist"] == "list" else tup(r.tolist())
        if a.get("ro"):
            r = r.view(); r.flags.writeable = False
        return r
    x = np.array([num(v) for v in a["v"]], dtype=DT[a.get("t", "i8")]).reshape(a["d"])
    lay = a.get("lay", "C")
    if lay == "F":
        x = np.asfortranarray(x)
    elif lay == "L":
        x = x.tolist()
    return x


r_base = []


def enc(x):
    if isinstance(x, np.ndarray):
        return {"d": list(x.shape), "v": x.ravel(order="C").tolist(), "t": str(x.dtype)}
    if isinstance(x, (np.generic,)):
        return x.item()
    if isinstance(x, (tuple, list)):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    return x


class Env:
    def __init__(self):
        self.gen = {}
        self.arr = {}     # named shared argument arrays
        self.ret = {}     # named results kept alive


def arg(env, a):
    if isinstance(a, dict) and "ref" in a:
        return env.arr[a["ref"]]
    if isinstance(a, dict) and "refs" in a:
        return [env.arr[k] for k in a["refs"]]
    if isinstance(a, dict) and "list" in a:
        return [arg(env, y) for y in a["list"]]
    return mk(a)


def call(env, op):
    f = op["f"]
    A = lambda k: arg(env, op[k])
    L = lambda k: [arg(env, y) for y in op[k]] if isinstance(op[k], list) else arg(env, op[k])
    if f in ("qis", "qisi", "ipf"):
        args = ([A("seed")] if f != "qis" else []) + [L("idx"), L("m")] + ([op["skips"]] if "skips" in op else [])
        r = getattr(hl, f)(*args)
        if "keep" in op:
            env.ret[op["keep"]] = r
        return {"res": enc(r[0]), "st": enc(r[1])}
    if f == "int1":
        r = hl.integerise(A("frac"), op["pop"])
        if "keep" in op:
            env.ret[op["keep"]] = r
        return {"res": enc(r[0]), "st": enc(r[1])}
    if f == "intn":
        r = hl.integerise(A("pop"))
        if "keep" in op:
            env.ret[op["keep"]] = r
        return {"res": enc(r[0]), "st": enc(r[1])}
    if f == "flatten":
        r = hl.flatten(A("pop"))
        if "keep" in op:
            env.ret[op["keep"]] = r
        return {"res": enc(r)}
    if f == "sobol":   # a whole run: dim, skips|None, n
        g = hl.SobolSequence(op["dim"], op["skips"]) if op.get("skips") is not None else hl.SobolSequence(op["dim"])
        pts = []
        for i in range(op["n"]):
            p = next(g)
            pts.append([p[k - 1].item() for k in op["coords"]] if "coords" in op else p.tolist())
        return {"res": pts}
    if f == "gen_new":
        env.gen[op["g"]] = hl.SobolSequence(op["dim"], op["skips"]) if op.get("skips") is not None else hl.SobolSequence(op["dim"])
        return {}
    if f == "gen_iter":
        return {"same": iter(env.gen[op["g"]]) is env.gen[op["g"]]}
    if f == "gen_next":
        p = next(env.gen[op["g"]])
        if "keep" in op:
            env.ret[op["keep"]] = p
        return {"res": p.tolist()}
    if f == "gen_del":
        del env.gen[op["g"]]
        gc.collect()
        return {}
    if f == "arr":
        env.arr[op["name"]] = mk(op["val"])
        return {}
    if f == "mklist":   # a list object holding shared arrays
        env.arr[op["name"]] = [env.arr[k] for k in op["refs"]]
        return {}
    if f == "argset":   # the caller changes an element of an array of its own
        for k, v in op["set"]:
            env.arr[op["name"]].reshape(-1)[k] = v
        return {}
    if f == "peek":     # contents of a shared argument
        return {"res": enc(env.arr[op["name"]])}
    if f == "peekret":
        r = env.ret[op["name"]]
        if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict):
            return {"res": enc(r[0]), "st": enc(r[1])}
        return {"res": r.tolist() if isinstance(r, np.ndarray) else enc(r)}
    if f == "scribble":  # overwrite a kept result in place
        def scr(x):
            if isinstance(x, np.ndarray):
                x[...] = -7
            elif isinstance(x, list):
                for i in range(len(x)):
                    scr(x[i]) if isinstance(x[i], (list, np.ndarray)) else x.__setitem__(i, -7)
            elif isinstance(x, dict):
                for k in list(x):
                    if isinstance(x[k], np.ndarray): scr(x[k])
                    else: x[k] = None
            elif isinstance(x, tuple):
                for y in x: scr(y)
        scr(env.ret.pop(op["name"]))
        return {}
    if f == "nop":
        return {}
    if f == "setenv":
        os.environ[op["name"]] = op["value"]
        return {}
    if f == "unittest":
        import _humanleague
        return {"res": enc(_humanleague._unittest())}
    if f == "threads":
        return threads(op)
    raise KeyError(f)


def threads(op):
    """Several threads at once: programs of steps of generators (shared or not) and of calls from a pool, whose arguments they share."""
    import itertools, threading
    old = sys.getswitchinterval()
    sys.setswitchinterval(op.get("switch", 1e-6))
    gens = {g["g"]: hl.SobolSequence(g["dim"], g["skips"]) if g["skips"] else hl.SobolSequence(g["dim"]) for g in op["gens"]}
    fns = []
    for o in op["pool"]:
        if o["f"] in ("qis", "qisi", "ipf"):
            a = ([mk(o["seed"])] if o["f"] != "qis" else []) + [[mk(x) for x in o["idx"]], [mk(x) for x in o["m"]]] + ([o["skips"]] if "skips" in o else [])
            fns.append((getattr(hl, o["f"]), a))
        elif o["f"] == "int1":
            fns.append((hl.integerise, [mk(o["frac"]), o["pop"]]))
        else:
            fns.append((hl.integerise if o["f"] == "intn" else hl.flatten, [mk(o["pop"])]))
    tick = itertools.count()
    start = threading.Barrier(len(op["progs"]))
    log = [[] for _ in op["progs"]]

    def run(k):
        mine, prog = log[k], op["progs"][k]
        start.wait()
        for o in prog:
            i = next(tick)
            try:
                if "n" in o:
                    r = ("ok", next(gens[o["n"]]))
                elif "c" in o:
                    r = ("ok", fns[o["c"]][0](*fns[o["c"]][1]))
                else:
                    gens[o["new"]] = hl.SobolSequence(o["dim"], o["skips"]) if o["skips"] else hl.SobolSequence(o["dim"])
                    r = ("ok", None)
            except StopIteration:
                r = ("stop", None)
            except Exception as e:
                r = ("err", type(e).__name__)
            mine.append((i, next(tick), r))

    ts = [threading.Thread(target=run, args=(k,)) for k in range(len(log))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.setswitchinterval(old)
    out = []
    for prog, mine in zip(op["progs"], log):
        xs = []
        for o, (i, j, (what, v)) in zip(prog, mine):
            if what == "ok" and "n" in o:
                v = [v[c - 1].item() for c in op["coords"] if c <= len(v)]
            elif what == "ok" and "c" in o:
                v = {"res": enc(v[0]), "st": enc(v[1])} if isinstance(v, tuple) else {"res": enc(v)}
                v = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12]
            xs.append([i, j, what, v])
        out.append(xs)
    return {"logs": out}


with open(cin) as fi, open(cout, "a") as fo:
    for line in fi:
        case = json.loads(line)
        env = Env()
        out = []
        for op in case["ops"]:
            try:
                out.append({"ok": call(env, op)})
            except StopIteration:
                out.append({"err": ["StopIteration", ""]})
            except Exception as e:
                out.append({"err": [type(e).__name__, str(e)[:300]]})
        r_base.clear()
        fo.write(json.dumps({"id": case["id"], "out": out}) + "\n")
        fo.flush()
