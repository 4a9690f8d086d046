"""C19: every call ends in a result or an error.  Sessions of hostile but well-typed calls against Service.tla."""
import copy, json
import gen as G, events as E
from checks_session import digest, result

FL = ["nan", "inf", "-inf", -1, -1e-300, 5e-324, 1e-310, 0, "-0.0", 1e308, 1e300, 1e19, 9.3e18, .5, 1e-9, 1 + 1e-9]
IN = [-1, -2**31, -2**63, 2**62, 2**63 - 1, 0, 2**31, 7]


def arr(rng, vals, t, shape=None):
    d = shape if shape is not None else [len(vals)]
    return {"d": d, "v": vals, "t": t}


def shapes(rng, n, api):
    """a hostile shape, possibly with another number of elements"""
    s = [[0], [n], [1, n], [n, 1], [1] * 6 + [n], [2, 0], [0, 2], [n + 1], [1], [2, 2, 2], [1] * rng.choice([3, 33, 60])]
    if api == "py":
        s.append([])
    return rng.choice(s)


def tweak(rng, a, t, api, wild=True):
    """one array made hostile"""
    a = copy.deepcopy(a)
    n = G.size(a["d"])
    k = rng.randrange(10)
    pool = FL if t == "f8" else [x for x in IN if api == "py" or -2**31 < x < 2**31]
    if not wild:     # keep the total moderate
        pool = [x for x in pool if x in ("nan", "inf", "-inf") or float(x) <= 8 or float(x) >= 9.2e18]
    if api == "r":
        pool = pool + ["NA"]
    if k < 5 and n:
        for _ in range(rng.choice([1, 1, 2, n])):
            a["v"][rng.randrange(n)] = rng.choice(pool)
    elif k < 8:
        d = shapes(rng, n, api)
        m = G.size(d)
        a["d"], a["v"] = d, ([rng.choice(a["v"] or [1]) for _ in range(m)])
    elif k == 8:
        a["v"] = [0] * n
    else:
        a["v"] = [rng.choice(pool)] * n
    return a


def indices(rng, idx, api):
    idx = copy.deepcopy(idx)
    off = 1 if api == "r" else 0
    big = [-1, 0, 1, 7, 64, 2**31 - 1, -2**31 + 1] + ([2**31, 2**32, 2**62, 2**63 - 1, -2**63] if api == "py" else [])
    k = rng.randrange(7)
    j = rng.randrange(len(idx)) if idx else 0
    if not idx:
        return [[off]]
    if k == 0:
        idx[j] = []
    elif k == 1 and idx[j]:
        idx[j][rng.randrange(len(idx[j]))] = rng.choice(big)
    elif k == 2:
        idx[j] = idx[j] + [rng.choice(idx[j] + big)]
    elif k == 3:
        idx = idx[:j] + idx[j + 1:]
    elif k == 4:
        idx = idx + [[rng.choice(big)]]
    elif k == 5 and idx[j]:
        idx[j] = idx[j] * rng.choice([2, 5])
    elif api == "py":
        idx[j] = rng.choice([{"d": [1, len(idx[j])], "v": idx[j], "t": "i8"}, {"d": [], "v": [0], "t": "i8"}, {"d": [0], "v": [], "t": "i8"}, 0, [[0]], 1.0])
    return idx


def wellposed(rng):
    return G.problem(rng, rng.choice(["disjoint", "rip", "loop", "contradictory"]), cap=40, popcap=20, maxdim=4)


def hostile(rng, api):
    """(operation, heavy)"""
    fn = rng.choice(["qis"] * 4 + ["qisi"] * 4 + ["ipf"] * 4 + ["intn", "intn", "int1", "int1", "flatten", "flatten", "sobol"])
    off = 1 if api == "r" else 0
    ti = "i4" if api == "r" else "i8"
    if fn in ("qis", "qisi", "ipf"):
        p = wellposed(rng)
        d = G.dims_of(p)
        t = "f8" if fn == "ipf" or rng.random() < .2 else ti
        op = {"f": fn, "idx": [[x + off for x in ix] for ix in p["idx"]], "m": [{**m, "t": t} for m in p["m"]]}
        if fn != "qis":
            op["seed"] = {"d": d, "v": [rng.choice([0, 1, 1, 2, .5]) for _ in range(G.size(d))], "t": "f8"}
        style = rng.randrange(12)
        if style == 0:       # many dimensions
            nd, sz = rng.choice([(33, 4), (8, 256), (9, 256), (40, 1), (60, 1), (12, 2), (22, 9)])
            op["idx"], op["m"] = [[i + off] for i in range(nd)], [{"d": [sz], "v": [0] * (sz - 1) + [1], "t": t} for _ in range(nd)]
        elif style == 1:     # totals that wrap around
            v = rng.choice([[[2**62] * 4, [0, 0]], [[2**62] * 2, [2**62] * 2], [[2**63 - 1, 1], [2**63 - 1, 1]], [[2**63 - 1] * 2, [-2] * 1]])
            if api == "r":
                v = [[2**31 - 1] * 4, [0, 0]]
            if t == "f8":
                v = rng.choice([[[1e300, 1e300], [1e299, 1e200]], [[1e19, 0], [0, 1e19]], [[1e308] * 4, [1e308] * 4]])
            op["idx"], op["m"] = [[off], [1 + off]], [{"d": [len(x)], "v": x, "t": t} for x in v]
            if fn != "qis":
                op["seed"] = {"d": [len(x) for x in v], "v": [1] * (len(v[0]) * len(v[1])), "t": "f8"}
        elif style == 2:     # a marginal over everything
            op["idx"].insert(rng.randrange(len(op["idx"]) + 1), [x + off for x in range(len(d))])
            s = sum(p["m"][0]["v"])
            v = [0] * G.size(d)
            for _ in range(s):
                v[rng.randrange(len(v))] += 1
            op["m"].insert(rng.randrange(len(op["m"]) + 1), {"d": d, "v": v, "t": t})
        elif style == 3:     # empty lists
            op["idx"], op["m"] = rng.choice([([], []), ([], op["m"]), (op["idx"], []), (op["idx"][:1], op["m"][:1])])
        else:
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                what = rng.choice(["m", "m", "idx", "seed", "swap"])
                if what == "m" and op["m"]:
                    j = rng.randrange(len(op["m"]))
                    op["m"][j] = tweak(rng, op["m"][j], t, api, wild=fn == "ipf")
                elif what == "idx" and all(isinstance(x, list) and all(isinstance(y, int) for y in x) for x in op["idx"]):
                    op["idx"] = indices(rng, op["idx"], api)
                elif what == "seed" and fn != "qis":
                    op["seed"] = tweak(rng, op["seed"], "f8", api)
                elif what == "swap" and len(op["m"]) > 1:
                    i, j = rng.sample(range(len(op["m"])), 2)
                    op["m"][i], op["m"][j] = op["m"][j], op["m"][i]
        if fn != "ipf" and rng.random() < .3:
            op["skips"] = rng.choice([-1, 0, 1, 2, 3, 1000, 2**16 + 1, -2**31, -2**63, 2**32, 2**33, 2**63 - 1, 2**64] if api == "py" else [-1, 0, 1, 1000, -2**31 + 1])
        return op
    if fn == "intn":
        d = rng.choice([[3], [1], [2, 2], [3, 2], [1, 1], [2, 3, 2], [1] * 5, [2] * 6])
        a = {"d": d, "v": [rng.choice([0, 1, 1, 2, .5, 1.5]) for _ in range(G.size(d))], "t": "f8"}
        if rng.random() < .8:
            a = tweak(rng, a, "f8", api)
        return {"f": "intn", "pop": a}
    if fn == "int1":
        a = {"d": [rng.choice([1, 2, 5, 9])], "t": "f8"}
        a["v"] = [rng.choice([0, 1, 1, 2, .5, 1e-3]) for _ in range(a["d"][0])]
        if rng.random() < .8:
            a = tweak(rng, a, "f8", api)
        pop = rng.choice([0, 1, 10, 10**5, -1, -2**31, 2**31 - 1] + ([2**31, 2**63, -2**63, 2**40] if api == "py" else []))
        if api == "r":
            a["d"], pop = [len(a["v"])], max(pop, -2**31 + 1)
        return {"f": "int1", "frac": a, "pop": pop}
    if fn == "flatten":
        d = rng.choice([[3], [2, 2], [1, 1, 1], [3, 2], [2] * 5, [1] * 30])
        t = "f8" if rng.random() < .3 else ti
        a = {"d": d, "v": [rng.choice([0, 1, 2, 3]) for _ in range(G.size(d))], "t": t}
        if rng.random() < .8:
            a = tweak(rng, a, t, api)
        op = {"f": "flatten", "pop": a}
        if api == "r":
            a["v"] = [x if isinstance(x, str) or abs(x) < 10**5 else 3 for x in a["v"]]
            op["names"] = [f"c{i}" for i in range(max(1, len(a["d"]) + rng.choice([0, 0, 0, -1, 1])))]
        elif t == "f8":      # becomes an integer of any size
            a["v"] = [x if isinstance(x, str) or float(x) < 1e6 else "nan" for x in a["v"]]
        return op
    dim = rng.choice([0, -1, 1, 2, 1111, 1112, 2**31 - 1] + ([2**31, 2**32, 2**32 + 2, 2**63, 2**64 - 1, 2**64] if api == "py" else []))
    sk = rng.choice([None, 0, 1, 2**16, 1000, -1] + ([-2**63, 2**32, 2**64] if api == "py" else []))
    return {"f": "sobol", "dim": dim, "n": rng.choice([0, 1, 3] + ([-1] if api == "r" else [])), "skips": sk}


def heavy(op):
    """may ask for more memory than there is; the sanitizer does not turn that into an exception"""
    if op["f"] == "flatten":
        return any(isinstance(x, (int, float)) and 10**6 < x for x in op["pop"]["v"]) or any(x in ("nan", "inf", "-inf") for x in op["pop"]["v"])
    if op["f"] == "sobol":
        return op["dim"] > 10**6 or op["n"] < 0
    return len(op.get("idx", [])) > 7


PROBES = [
    ("qis", {"f": "qis", "idx": [[0, 1], [1, 2]], "m": [{"d": [2, 3], "v": [3, 1, 2, 0, 4, 1], "t": "i8"}, {"d": [3, 2], "v": [1, 2, 5, 0, 1, 2], "t": "i8"}], "skips": 3}),
    ("qisi", {"f": "qisi", "seed": {"d": [2, 2], "v": [1, 2, .5, 1], "t": "f8"}, "idx": [[0], [1]], "m": [{"d": [2], "v": [5, 6], "t": "i8"}, {"d": [2], "v": [4, 7], "t": "i8"}]}),
    ("ipf", {"f": "ipf", "seed": {"d": [2, 3], "v": [1, 2, .5, 1, 3, 1], "t": "f8"}, "idx": [[0], [1]], "m": [{"d": [2], "v": [5, 6], "t": "f8"}, {"d": [3], "v": [4, 4, 3], "t": "f8"}]}),
    ("intn", {"f": "intn", "pop": {"d": [2, 2], "v": [.5, 1.5, 2.5, .5], "t": "f8"}}),
    ("int1", {"f": "int1", "frac": {"d": [4], "v": [.1, .2, .3, .4], "t": "f8"}, "pop": 17}),
    ("flatten", {"f": "flatten", "pop": {"d": [2, 2], "v": [1, 0, 2, 1], "t": "i8"}}),
    ("sobol", {"f": "sobol", "dim": 3, "n": 4, "skips": 5}),
]


def for_r(op):
    op = copy.deepcopy(op)
    if "idx" in op:
        op["idx"] = [[x + 1 for x in ix] for ix in op["idx"]]
    for a in op.get("m", []) + [op[k] for k in ("pop",) if isinstance(op.get(k), dict)]:
        if a["t"] == "i8":
            a["t"] = "i4"
    if op["f"] == "flatten":
        op["names"] = ["a", "b"]
    return op


def c19(ctx):
    for f in ("none", "wrap", "nosum", "nodims", "unlimited"):
        n = 6 if f == "none" and not ctx.quick else 5 if f == "none" else 3
        inv = "INVARIANTS RankPositive EndsInResultOrError NothingRemains\n" if f == "none" else ""
        ctx.mc("MCService", f'SPECIFICATION Spec\nCONSTANTS Word = {n}\nMaxPop = {n}\nMaxIter = {n}\nMaxCells = 3\nFault = "{f}"\n{inv}'
               f'PROPERTIES Terminates {"RankDecreases" if f == "none" else ""}\nCHECK_DEADLOCK FALSE\n',
               expect_violation=None if f == "none" else "Terminates was", name=f"the loops of the library end; fault: {f}")
    ctx.build("py", "r", "pyasan", "rasan")
    rng = ctx.rng
    cases = []
    for kind, api, num, length in (("py", "py", 150, 14), ("r", "r", 40, 14), ("pyasan", "py", 70, 14), ("rasan", "r", 20, 14)):
        num = num if ctx.quick else num * 60
        probes = [(k, for_r(o) if api == "r" else o) for k, o in PROBES]
        for i in range(num):
            ops, rec = [], []
            while len(ops) < length:
                if rng.random() < .25:
                    k, o = rng.choice(probes)
                    ops.append(o)
                    rec.append(("probe", k))
                else:
                    o = hostile(rng, api)
                    if kind.endswith("asan") and heavy(o):
                        continue
                    ops.append(o)
                    rec.append(("call", o["f"]))
            for k, o in rng.sample(probes, 2):
                ops.append(o)
                rec.append(("probe", k))
            cases.append({"id": f"{kind}{i}", "kind": kind, "api": api, "ops": ops, "rec": rec})
    # the longest way through the sequence
    long = [{"id": "skip", "kind": "py", "api": "py", "ops": [{"f": "sobol", "dim": 1, "n": 1, "skips": 2**32 - 1}], "rec": [("call", "SobolSequence")]}]
    import threading
    th = threading.Thread(target=lambda: ctx.run("py", long, timeout=150, procs=1))
    th.start()
    solo = {}
    for api in ("py", "r"):
        cs = [{"id": k, "ops": [for_r(o) if api == "r" else o]} for k, o in PROBES]
        ctx.run(api, cs, fresh=True, timeout=60)
        for c in cs:
            if "ok" not in c["out"][0]:
                ctx.violation(f"probe {api} {c['id']}: {c['out'][0]}"[:300], c)
        solo[api] = [{"key": c["id"], "res": result(c["out"][0])} for c in cs]
    for kind in ("py", "r", "pyasan", "rasan"):
        cs = [c for c in cases if c["kind"] == kind]
        if any(c["out"] and "hang" in c["out"][0] for c in cases if "out" in c):     # enough seen: more of the same would take too long
            for c in cs:
                c["out"] = [{"hang": 20, "assumed": True}]
            continue
        ctx.run(kind, cs, timeout=20)
        # find the call a session died in
        dead = [c for c in cs if len(c["out"]) != len(c["ops"]) and "assumed" not in c["out"][0]][:2]
        for c in dead:
            one = [{"id": str(i), "ops": [o]} for i, o in enumerate(c["ops"])]
            ctx.run(kind, one, timeout=20, fresh=True)
            c["fatal"], c["solo_out"] = c["out"][0], [x["out"][0] for x in one]
    th.join()
    evs, neg = [], []
    for c in cases + long:
        ops = []
        if len(c["out"]) != len(c["ops"]):
            outs = c.get("solo_out") or []
            mem = c["out"][0].get("memory", "")
            if "failed to allocate" in mem or "out-of-memory" in mem or "allocation-size-too-big" in mem:
                ctx.count("sanitizer out of memory")
                continue
            if "assumed" in c["out"][0]:
                ctx.count("not run: too many hangs")
                continue
            n = next((i for i, o in enumerate(outs) if E.outcome(o) in ("crash", "hang")), None)
            fn = c["rec"][n][1] if n is not None else "session"
            c["detail"] = {"op": c["ops"][n] if n is not None else c["ops"], "out": c["out"][0]}
            ops = [{"f": "call", "fn": fn, "out": E.outcome(c["out"][0])}]
        else:
            for op, (k, name), o in zip(c["ops"], c["rec"], c["out"]):
                r = E.outcome(o)
                ctx.count(f"{c['kind']} {k} {name} {r}")
                ops.append({"f": k, "fn": name, "out": r} if k == "call" else {"f": k, "fn": name, "out": r, "key": name, "res": result(o)})
        e = {"id": c["id"], "ops": ops, "solo": solo[c["api"]]}
        evs.append(e)
        if len(evs) % 6 == 0 and len(ops) > 1:
            x = copy.deepcopy(e)
            x["id"] = "~" + e["id"]
            i = rng.randrange(len(ops))
            if ops[i]["f"] == "probe":
                x["ops"][i]["res"] = "0" * 12
            else:
                x["ops"][i]["out"] = rng.choice(["crash", "hang"])
            neg.append(x)
    bad = ctx.trace("TraceService", evs, neg)
    by = {c["id"]: c for c in cases + long}
    for i, cl in bad.items():
        c = by[i]
        ctx.violation(f"{i}: {' '.join(cl)} {json.dumps(c.get('detail', ''))[:300]}", {"case": c["ops"], "clauses": cl, "detail": c.get("detail"), "api": c["kind"]})
    for c in cases[:4]:
        ctx.sample({"api": c["kind"], "call": c["ops"][0], "outcome": str(c["out"][0])[:200]})
    return ctx.finish(["a call is taken to hang if it takes over 20 s; problems are small where they are well-posed, and populations of accepted ones at most 10^5",
                       "memory errors are looked for in part of the sessions (AddressSanitizer builds of both front ends)"])
