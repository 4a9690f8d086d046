"""C11, C12: the quasirandom sequence and its generators."""
import copy, os
import gen as G, events as E


def word(x):
    try:
        v = float(x) * 4294967296.0
    except ValueError:
        return [-1, 0]
    if not (0 <= v < 4294967296.0) or v != int(v):
        return [-1, 0]
    return [int(v) >> 16, int(v) & 65535]


def w32(n):
    return [n >> 16, n & 65535]


def hookdir(ctx):
    d = ctx.bdirs["py"] + "/hook"
    return d if os.path.isdir(d) else None


def c11(ctx):
    ctx.mc("MCSobol", f"SPECIFICATION Spec\nCONSTANTS NDim = 1111\nMaxK = {4 if ctx.quick else 8}\nINVARIANTS TableOK Triangular Blocks FirstIsHalf StepIsClosedForm\nCHECK_DEADLOCK FALSE\n",
           name="table and sequence, all 1111 coordinates", timeout=800)
    ctx.mc("MCSobol", "SPECIFICATION Spec\nCONSTANTS NDim = 2\nMaxK = 1\nINVARIANT NotOneBlock\nCHECK_DEADLOCK FALSE\n", expect_violation="NotOneBlock", name="control")
    ctx.build()
    rng = ctx.rng
    runs = []     # (api, dim, skips|None, seek, n, hooked)
    full = 1111
    runs.append(("py", full, None, 0, 64 if ctx.quick else 512))
    runs.append(("r", full, None, 0, 12))
    runs.append(("r", full, 100, 0, 3))
    for e in range(0, 15 if ctx.quick else 23):
        runs.append(("py", full, 2**e + 1, 0, 2))
    for e, d in ((16, 200), (18, 100), (20, 40), (22, 24), (24, 8)) if ctx.quick else ((24, 100), (25, 60), (26, 40), (28, 12), (30, 3), (31, 2)):
        runs.append(("py", d, 2**e + rng.randint(1, 2**(e - 1)), 0, 4))
        runs.append(("r", d, min(2**31 - 1, 2**e + rng.randint(1, 2**(e - 1))), 0, 4))
    for d in (1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 64, 100, 200, 333, 512, 777, 1000, 1110):
        runs.append(("py", d, rng.choice([None, 0, 1, 2, 3, 4, 5, rng.randint(0, 3000)]), 0, rng.randint(1, 40)))
        runs.append(("r", d, rng.choice([None, 0, 1, 2, 3, 4, 5, rng.randint(0, 3000)]), 0, rng.randint(1, 20)))
    for s in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 1023, 1024, 1025):
        runs.append(("py", 3, s, 0, 3))
    cases = [{"id": f"{a}{i}", "api": a, "dim": d, "skips": s, "seek": k, "n": n, "ops": [{"f": "sobol", "dim": d, "skips": s, "n": n}]}
             for i, (a, d, s, k, n) in enumerate(runs)]
    ctx.run("py", [c for c in cases if c["api"] == "py"], timeout=600)
    ctx.run("r", [c for c in cases if c["api"] == "r"], timeout=600)
    # positions anywhere, through the hook
    if hookdir(ctx):
        seeks = [2**e - 1 for e in range(1, 33)] + [2**e for e in range(32)] + [rng.randrange(2**32 - 9) for _ in range(10)]
        hooked = []
        for k in seeks:
            if k > 2**32 - 3:
                continue
            hooked.append({"id": f"hook{k}", "api": "py", "dim": full, "skips": None, "seek": k, "n": 2,
                           "ops": [{"f": "setenv", "name": "HUMANLEAGUE_SOBOL_SEEK", "value": str(k)}, {"f": "sobol", "dim": full, "n": 2}]})
        ctx.bdirs["hook"] = hookdir(ctx)
        import run as R
        R.run("py", ctx.bdirs["hook"], hooked, timeout=60, name="C11h")
        for c in hooked:
            if "ok" in c["out"][0]:
                c["out"] = c["out"][1:]
        cases += hooked
    else:
        ctx.count("hook could not be built: far positions not examined")
    # group by coordinates: 28 at a time, plus whole records for the small dimensions
    groups = {}
    for c in cases:
        o = c["out"][0]
        ctx.count(f"{c['api']} runs {E.outcome(o)}")
        if "ok" not in o:
            ctx.violation(f"{c['id']}: sequence in {c['dim']} dimensions, skips {c['skips']}: {o}"[:300], c)
            continue
        pts = o["ok"]["res"]
        if len(pts) != c["n"] or any(len(p) != c["dim"] for p in pts):
            ctx.violation(f"{c['id']}: C11:shape", {k: c[k] for k in ("dim", "skips", "n")})
            continue
        ctx.count("values", c["n"] * c["dim"])
        for lo in range(0, c["dim"], 28):
            hi = min(lo + 28, c["dim"])
            groups.setdefault((lo, hi), []).append(
                {"skips": w32(c["skips"] or 0), "seek": w32(c["seek"]), "pts": [[word(v) for v in p[lo:hi]] for p in pts]})
    evs, neg = [], []
    for (lo, hi), rs in sorted(groups.items()):
        e = {"id": f"g{lo}-{hi}", "coords": list(range(lo + 1, hi + 1)), "runs": rs}
        evs.append(e)
        if len(evs) % 3 == 0:
            x = copy.deepcopy(e)
            x["id"] = "~" + e["id"]
            r = rng.choice(x["runs"])
            p = rng.choice(r["pts"])
            k = rng.randrange(len(p))
            p[k] = [p[k][0] ^ rng.choice([1, 32768]), p[k][1]] if rng.random() < .5 else [p[k][0], p[k][1] ^ 32768]
            neg.append(x)
    bad = ctx.trace("TraceSobol", evs, neg, consts="CONSTANT NDim = 1\n", shards=8, heap="2g")
    by = {e["id"]: e for e in evs}
    for i, cl in bad.items():
        e = by[i]
        ctx.violation(f"coordinates {i}: {' '.join(cl)}", {"coords": e["coords"], "clauses": cl, "runs": e["runs"][:3]})
    for c in cases[:6]:
        if "ok" in c["out"][0]:
            ctx.sample({"api": c["api"], "dim": c["dim"], "skips": c["skips"], "first": [p[:6] for p in c["out"][0]["ok"]["res"][:3]]})
    return ctx.finish(["every coordinate up to 1111; consecutive points from the start, after skips, and (through the hook) from positions 2^e-1 and 2^e for every e",
                       "the table of direction numbers in spec/data was taken from the repository's base revision; its defining properties are model-checked"])


# ------------------------------------------------------------------------------------------------ C12
def call_ops(rng):
    """something else the library can be asked to do"""
    k = rng.randrange(9)
    if k == 0:
        return {"f": "qis", "idx": [[0], [1]], "m": [{"d": [2], "v": [5, 5]}, {"d": [3], "v": [4, 3, 3]}]}
    if k == 1:
        return {"f": "qis", "idx": [[0], [1]], "m": [{"d": [2], "v": [5, 6]}, {"d": [2], "v": [4, 3]}]}    # fails
    if k == 2:
        return {"f": "qisi", "seed": {"d": [2, 3], "v": [1, 1, 1, 1, 2, 1], "t": "f8"}, "idx": [[0], [1]], "m": [{"d": [2], "v": [5, 5]}, {"d": [3], "v": [4, 3, 3]}], "skips": 5}
    if k == 3:
        return {"f": "ipf", "seed": {"d": [2, 2], "v": [1, 2, 3, 4], "t": "f8"}, "idx": [[0], [1]], "m": [{"d": [2], "v": [5, 5], "t": "f8"}, {"d": [2], "v": [4, 6], "t": "f8"}]}
    if k == 4:
        return {"f": "intn", "pop": {"d": [2, 2], "v": [.5, 1.5, 1.5, .5], "t": "f8"}}
    if k == 5:
        return {"f": "flatten", "pop": {"d": [2, 2], "v": [1, 0, 2, 3]}}
    if k == 6:
        return {"f": "sobol", "dim": rng.randint(1, 5), "n": 5, "skips": rng.choice([None, 9])}
    if k == 7:
        return {"f": "qis", "idx": [[0], [1]], "m": [{"d": [2], "v": [5, -5]}, {"d": [2], "v": [0, 0]}]}
    return {"f": "int1", "frac": {"d": [3], "v": [.2, .3, .5], "t": "f8"}, "pop": 7}


NDIM = 120


def skip_count(rng, dim):
    """around every power of two that the library can step over in a moment"""
    e = rng.randint(4, 22 if dim <= 8 else 18)
    return max(0, 2**e + rng.choice([-1, 0, 1, rng.randint(0, 2**e)]))


def history(rng, i, length, seek=0):
    """one process history: operations, and the record skeleton for the specification"""
    ops, rec, live, kept, nk = [], [], {}, [], 0
    if seek is not None:
        ops.append({"f": "setenv", "name": "HUMANLEAGUE_SOBOL_SEEK", "value": str(seek)})
        rec.append(None)
    maxg = rng.choice([1, 2, 3, 5])
    recent = []
    base = w32(seek or 0)
    for _ in range(length):
        r = rng.random()
        if (r < .15 and len(live) < maxg) or not live:
            g = rng.choice([f"g{k}" for k in range(6)])
            dim = rng.choice([1, 1, 2, 3, 5, 8, rng.randint(9, 40), rng.randint(9, NDIM), *recent]) if rng.random() < .93 else rng.choice([0, 1112, -1, 5000, 2**31 - 1])
            if seek and seek > 2**31:
                skips = rng.choice([None, 0, 1, 2])
            else:
                skips = rng.choice([None, None, 0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 100, 1024, 1025, rng.randint(0, 5000), skip_count(rng, dim), skip_count(rng, dim)])
            if rng.random() < .04:
                skips = rng.choice([-1, 2**32, 2**40, -5])
            recent = [dim] * 2
            ops.append({"f": "gen_new", "g": g, "dim": dim, "skips": skips})
            bad = skips is not None and not 0 <= skips < 2**32
            rec.append({"f": "new", "g": g, "dim": dim, "seek": base, "skips": [] if skips is None else [-1, 0] if bad else w32(skips)})
            if 1 <= dim <= 1111 and not bad:
                live[g] = True
        elif r < .72:
            g = rng.choice(sorted(live))
            for _ in range(rng.choice([1, 1, 1, 2, 5])):
                op, e = {"f": "gen_next", "g": g}, {"f": "next", "g": g}
                if rng.random() < .3:
                    nk += 1
                    op["keep"] = e["keep"] = f"a{nk}"
                    kept.append(f"a{nk}")
                ops.append(op)
                rec.append(e)
        elif r < .78:
            g = rng.choice(sorted(live))
            del live[g]
            ops.append({"f": "gen_del", "g": g})
            rec.append({"f": "del", "g": g})
        elif r < .86 and kept and not seek:
            k = rng.choice(kept)
            if rng.random() < .3:
                kept.remove(k)
                ops.append({"f": "scribble", "name": k})
                rec.append({"f": "scribble", "name": k})
            else:
                ops.append({"f": "peekret", "name": k})
                rec.append({"f": "reread", "name": k})
        elif r < .89:
            g = rng.choice(sorted(live))
            ops.append({"f": "gen_iter", "g": g})
            rec.append({"f": "iter"})
        elif not seek:
            ops.append(call_ops(rng))
            rec.append({"f": "other"})
    return {"id": f"h{i}", "ops": ops, "rec": rec, "seek": seek}


def finish_history(c):
    out = []
    dead = set()       # kept names whose point was never produced
    for r, o in zip(c["rec"], c["out"]):
        if r is None:
            continue
        e = dict(r)
        if e["f"] == "new":
            e["out"] = E.outcome(o)
        elif e["f"] == "next":
            e["out"] = "stop" if o.get("err", [""])[0] == "StopIteration" else E.outcome(o)
            if "ok" in o:
                e["pt"] = [word(v) for v in o["ok"]["res"]]
            elif "keep" in e:
                dead.add(e.pop("keep"))
        elif e["f"] == "reread":
            if e["name"] in dead:
                e = {"f": "other"}
            else:
                e["out"] = E.outcome(o)
                e["pt"] = [word(v) for v in o["ok"]["res"]] if "ok" in o else []
        elif e["f"] == "scribble" and e["name"] in dead:
            e = {"f": "other"}
        elif e["f"] == "iter":
            e["same"] = bool(o.get("ok", {}).get("same"))
        out.append(e)
    return {"id": c["id"], "ops": out}


def c12(ctx):
    ctx.mc("MCGenerators", "SPECIFICATION Spec\nCONSTANTS NDim = 2\nNames = {%s}\nMaxDim = 2\nMaxSteps = %d\nINVARIANTS ClosedForm Own Prefix Inside\nCHECK_DEADLOCK FALSE\n"
           % ("a, b", 4 if ctx.quick else 5), name="generators: all interleavings of creating, advancing and destroying", timeout=850)
    ctx.mc("MCGenerators", "SPECIFICATION Spec\nCONSTANTS NDim = 1\nNames = {a}\nMaxDim = 1\nMaxSteps = 5\nINVARIANT NeverExhausted\nCHECK_DEADLOCK FALSE\n",
           expect_violation="NeverExhausted", name="control: exhaustion is reachable")
    ctx.build()
    rng = ctx.rng
    base0 = w32(0)
    hs = [history(rng, i, rng.choice([10, 40, 80]), None) for i in range(140 if ctx.quick else 2000)]
    for i, n in enumerate([2**31, 2**31 + 1, 2**32 - 1] if ctx.quick else [2**30 + 5, 2**31 - 1, 2**31, 2**31 + 1, 3 * 10**9, 2**32 - 1]):
        ops = [{"f": "gen_new", "g": "g", "dim": 1, "skips": n}] + [{"f": "gen_next", "g": "g"}] * 3
        hs.append({"id": f"far{i}", "ops": ops, "rec": [{"f": "new", "g": "g", "dim": 1, "seek": base0, "skips": w32(n)}] + [{"f": "next", "g": "g"}] * 3, "seek": None})
    ctx.run("py", hs, timeout=200)
    hooked = []
    if hookdir(ctx):
        for i in range(40 if ctx.quick else 400):
            hooked.append(history(rng, f"k{i}", rng.choice([15, 40]), rng.choice([2**32 - 1, 2**32 - 2, 2**32 - 4, 2**32 - 7, 2**32 - 20, 2**31 - 3, 2**31 - 1, 2**16 - 2])))
        # a sampler that runs out of points fails cleanly
        for i, f in enumerate(("qis", "qisi")):
            op = {"f": f, "idx": [[0], [1]], "m": [{"d": [2], "v": [5, 5]}, {"d": [2], "v": [4, 6]}]}
            if f == "qisi":
                op["seed"] = {"d": [2, 2], "v": [1, 1, 1, 1], "t": "f8"}
            hooked.append({"id": f"x{i}", "ops": [{"f": "setenv", "name": "HUMANLEAGUE_SOBOL_SEEK", "value": str(2**32 - 6)}, op,
                                                  {"f": "setenv", "name": "HUMANLEAGUE_SOBOL_SEEK", "value": "0"}, op], "rec": None})
        import run as R
        R.run("py", hookdir(ctx), hooked, timeout=60, name="C12h")
    else:
        ctx.count("hook could not be built: exhaustion not examined")
    evs, neg = [], []
    for c in hs + hooked:
        if any(E.outcome(o) in ("crash", "hang") for o in c["out"]):
            ctx.violation(f"{c['id']}: {c['out'][-1]}", c)
            continue
        if c["rec"] is None:
            ctx.count("samplers run out of points")
            if E.outcome(c["out"][1]) != "err" or E.outcome(c["out"][3]) != "ok":
                ctx.violation(f"{c['id']}: C12:sampler out of points", c)
            continue
        e = finish_history(c)
        evs.append(e)
        ctx.count("histories" + (" (from a far position)" if c["seek"] else ""))
        for o in e["ops"]:
            ctx.count("op " + o["f"] + (" " + o["out"] if "out" in o else ""))
        if len(evs) % 3 == 0:
            x = copy.deepcopy(e)
            x["id"] = "~" + e["id"]
            ns = [o for o in x["ops"] if o["f"] == "next" and o["out"] == "ok"]
            rr = [o for o in x["ops"] if o["f"] == "reread"]
            st = [o for o in x["ops"] if o["f"] == "next" and o["out"] == "stop"]
            if st and rng.random() < .6:
                o = rng.choice(st)
                o["out"], o["pt"] = "ok", [[1, 1]]
            elif rr and rng.random() < .5:
                o = rng.choice(rr)
                o["pt"][0] = [o["pt"][0][0] ^ 32768, o["pt"][0][1]]
            elif ns:
                o = rng.choice(ns)
                k = rng.randrange(len(o["pt"]))
                o["pt"][k] = [o["pt"][k][0] ^ 32768, o["pt"][k][1]]
            else:
                continue
            neg.append(x)
    bad = ctx.trace("TraceGen", evs, neg, consts="CONSTANT NDim = 1\n", shards=8, heap="2g")
    by = {c["id"]: c for c in hs + hooked}
    for i, cl in bad.items():
        ctx.violation(f"history {i}: {' '.join(cl)}", {"case": {k: by[i][k] for k in ("id", "ops", "out")}, "clauses": cl})
    for e in evs[:4]:
        ctx.sample({"history": [{k: v for k, v in o.items() if k in ("f", "g", "dim", "skips", "out")} for o in e["ops"][:12]]})
    return ctx.finish(["up to five live generators, histories of up to a few hundred operations",
                       "exhaustion is reached by starting sequences near the end through the hook in SobolImpl.cpp (position and state set from the Gray code)"])
