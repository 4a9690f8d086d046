"""Cases (calls to make) and the records of what came back, in the form the trace specifications read."""
import copy
import gen as G


def is_ok(out):
    return "ok" in out


def outcome(out):
    return "ok" if "ok" in out else "err" if "err" in out else "crash" if "crash" in out else "hang"


def ints(v):
    """R numbers arrive as strings; what is not an integer becomes -1, which is never right"""
    def one(x):
        f = float("nan") if x in ("NA", None) else float(x)
        return int(f) if f == f and abs(f) < 2**31 and f == int(f) else -1
    return [one(x) for x in v]


def iarr(a):
    return {"d": [int(x) for x in a["d"]], "v": ints(a["v"])}


def qis_case(i, api, p, skips=None, lay=None, extra=None):
    q = G.to_r(p) if api == "r" else p
    m = []
    for k, a in enumerate(q["m"]):
        b = dict(a)
        if lay:
            b.update(lay(k, a))
        m.append(b)
    op = {"f": "qis", "idx": q["idx"], "m": m}
    if skips is not None:
        op["skips"] = skips
    c = {"id": f"{api}{i}", "api": api, "p": q, "skips": skips or 0, "ops": [op]}
    c.update(extra or {})
    return c


def qis_event(c):
    o = c["out"][0]
    e = {"id": c["id"], "api": c["api"], "p": {"idx": c["p"]["idx"], "m": [{"d": a["d"], "v": a["v"]} for a in c["p"]["m"]]},
         "fn": c["ops"][0]["f"], "out": outcome(o), "skips": [c["skips"] >> 16, c["skips"] & 65535]}
    if "ok" in o:
        e["res"] = iarr(o["ok"]["res"])
        e["conv"] = o["ok"]["st"]["conv"]
        e["pop"] = ints([o["ok"]["st"]["pop"]])[0]
    elif "err" in o:
        e["err"] = o["err"][1]
    return e


def corrupt(rng, e, what):
    """a copy of a record with one thing changed"""
    x = copy.deepcopy(e)
    x["id"] = "~" + e["id"] + "-" + what
    v = x.get("res", {}).get("v")
    if what == "conv":
        x["conv"] = not x["conv"]
    elif what == "pop":
        x["pop"] += 1
    elif what == "plus":
        v[rng.randrange(len(v))] += 1
    elif what == "negative":
        i = rng.randrange(len(v))
        v[(i + 1) % len(v)] += v[i] + 1
        v[i] = -1
    elif what == "shape":
        x["res"]["d"] = x["res"]["d"] + [1]
    elif what == "move":       # one individual moves to another cell
        src = [i for i in range(len(v)) if v[i] > 0]
        if not src or len(v) < 2:
            return None
        i = rng.choice(src)
        j = rng.choice([j for j in range(len(v)) if j != i])
        v[i] -= 1
        v[j] += 1
    elif what == "error":
        x["out"] = "err"
        for k in ("res", "conv", "pop"):
            x.pop(k, None)
    return x
