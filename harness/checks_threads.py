"""C20: threads.  Programs run by several Python threads at once, against Threads.tla."""
import copy
import gen as G, events as E
from checks_session import result
from checks_sobol import word


def pool(rng, big):
    """calls whose arguments all threads share; some take milliseconds, so that they would overlap if they could"""
    ops = []
    fs = ["qis", "qis", "qisi", "ipf", "ipf", "intn", "int1", "flatten", "bad"]
    if rng.random() < .6:       # much of the same
        fs = [rng.choice(fs[:-2])] * 9 + ["bad"]
    for _ in range(rng.randint(3, 6)):
        f = rng.choice(fs)
        if f in ("qis", "qisi", "ipf"):
            k = rng.choice([2, 3])
            cap = {"qis": 400, "qisi": 60, "ipf": 3000}[f] if big else 40
            d = [rng.randint(2, max(2, int(cap ** (1 / k)))) for _ in range(k)]
            n = {"qis": 20000, "qisi": 300, "ipf": 5000}[f] if big else 30
            w = [rng.random() for _ in range(G.size(d))]
            t = [int(n * x / sum(w)) for x in w]
            parts = [[i] for i in range(k)]
            if k == 3 and rng.random() < .7:
                parts = {"qis": [[0, 1], [1, 2]], "qisi": [[0, 1], [2]], "ipf": [[0, 1], [1, 2], [0, 2]]}[f]
                rng.shuffle(parts)
            p = G.from_table(t, d, parts)
            op = {"f": f, "idx": [list(ix) for ix in p["idx"]], "m": [{"d": m["d"], "v": m["v"], "t": "f8" if f == "ipf" else "i8"} for m in p["m"]]}
            if f != "qis":
                op["seed"] = {"d": d, "v": [rng.choice([1, 1, 2, .5, 3]) for _ in range(G.size(d))], "t": "f8"}
            if f != "ipf" and rng.random() < .5:
                op["skips"] = rng.choice([5, 1000, 2**18])
            ops.append(op)
        elif f == "intn":
            a, b = (rng.randint(8, 16), rng.randint(8, 16)) if big else (3, 3)
            z = [float(rng.randint(1, 20)) for _ in range(a * b)]
            for x in range(a - 1):
                for y in range(b - 1):
                    e = rng.choice([0, .25, -.25])
                    for i, j, s in ((x, y, 1), (x + 1, y, -1), (x, y + 1, -1), (x + 1, y + 1, 1)):
                        z[i * b + j] += s * e / 2
            ops.append({"f": "intn", "pop": {"d": [a, b], "v": z, "t": "f8"}})
        elif f == "int1":
            n = rng.choice([5, 2000 if big else 9])
            ops.append({"f": "int1", "frac": {"d": [n], "v": [rng.random() for _ in range(n)], "t": "f8"}, "pop": rng.randint(1, 10 * n)})
        elif f == "flatten":
            d = [rng.randint(2, 6) for _ in range(3)]
            ops.append({"f": "flatten", "pop": {"d": d, "v": [rng.randint(0, 60 if big else 3) for _ in range(G.size(d))], "t": "i8"}})
        else:
            ops.append({"f": "qis", "idx": [[0], [1]], "m": [{"d": [2], "v": [1, 2], "t": "i8"}, {"d": [2], "v": [1, 3], "t": "i8"}]})
    return ops


def case(rng, i):
    kind = ("steps", "calls", "mixed", "calls")[i % 4]
    coords = sorted({1, *rng.sample(range(2, 1112), 2), 1111} if rng.random() < .5 else {1, 2, rng.randint(3, 60)})
    nt = rng.choice([2, 3, 4])
    gens, ops, progs = [], [], [[] for _ in range(nt)]
    if kind != "calls":
        for k in range(rng.choice([1, 1, 2])):
            gens.append({"g": f"s{k}", "dim": rng.choice(coords), "skips": rng.choice([0, 0, 1, 9, 1000, 10**6])})
    if kind != "steps":
        ops = pool(rng, big=rng.random() < .7)
    for t in range(nt):
        own = 0
        for _ in range({"steps": rng.randint(60, 150), "calls": rng.randint(10, 24), "mixed": rng.randint(30, 60)}[kind]):
            r = rng.random()
            if kind == "calls" or (kind == "mixed" and r < .1):
                progs[t].append({"c": rng.randrange(len(ops))})
            elif r < .13:
                own += 1
                progs[t].append({"new": f"t{t}g", "dim": rng.choice(coords), "skips": rng.choice([0, 0, 3, 70])})
            elif r < .3 and own:
                progs[t].append({"n": f"t{t}g"})
            else:
                progs[t].append({"n": rng.choice(gens)["g"]})
    return {"id": f"{kind}{i}", "ops": [{"f": "threads", "gens": gens, "pool": ops, "progs": progs, "coords": coords}],
            "solo": [{"id": f"{kind}{i}-{j}", "ops": [o]} for j, o in enumerate(ops)]}


def hi(n):
    return [n >> 16, n & 65535] if n else []


def event(c):
    op = c["ops"][0]
    cs = op["coords"]
    rank = lambda d: sum(1 for x in cs if x <= d)
    threads = []
    for prog, log in zip(op["progs"], c["out"][0]["ok"]["logs"]):
        ys = []
        for o, (i, j, what, v) in zip(prog, log):
            y = {"inv": i, "res": j}
            if "n" in o:
                y |= {"f": "next", "g": o["n"], "out": what, "pt": [word(x) for x in v] if what == "ok" else []}
            elif "new" in o:
                y |= {"f": "new", "g": o["new"], "dim": rank(o["dim"]), "skips": hi(o["skips"])}
            else:
                y |= {"f": "call", "key": o["c"] + 1, "res0": v if what == "ok" else result({"err": 1}) if what == "err" else what}
            ys.append(y)
        threads.append(ys)
    return {"id": c["id"], "coords": cs, "gens": [{"g": g["g"], "dim": rank(g["dim"]), "skips": hi(g["skips"])} for g in op["gens"]],
            "threads": threads, "alone": [result(s["out"][0]) for s in c["solo"]]}


def c20(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS NDim = 1\nThreads = {%s}\nMaxOps = %d\nFault = \"%s\"\n%sCHECK_DEADLOCK FALSE\n"
    size = ("t1, t2, t3", 2) if ctx.quick else ("t1, t2, t3", 3)
    ctx.mc("MCThreads", cfg % (*size, "none", "INVARIANTS EachOnce Alone\nPROPERTIES Refines Ends\n"), timeout=850, name="threads with a lock refine Threads")
    ctx.mc("MCThreads", cfg % ("t1, t2", 2, "step", "INVARIANT EachOnce\n"), expect_violation="EachOnce", name="control: steps without a lock")
    ctx.mc("MCThreads", cfg % ("t1, t2", 2, "call", "INVARIANT Alone\n"), expect_violation="Alone", name="control: calls without a lock")
    ctx.build("py")
    rng = ctx.rng
    cases = [case(rng, i) for i in range(150 if ctx.quick else 1500)]
    solo = [s for c in cases for s in c["solo"]]
    ctx.run("py", solo, timeout=60)
    # two workers of up to four threads each: they should be able to run at once
    ctx.run("py", cases, timeout=100, procs=2)
    evs, neg = [], []
    for c in cases:
        if any(E.outcome(o) in ("crash", "hang") for o in c["out"]):
            ctx.violation(f"{c['id']}: C20:{E.outcome(c['out'][0])}", {"ops": c["ops"], "out": c["out"]})
            continue
        if "ok" not in c["out"][0]:
            ctx.violation(f"{c['id']}: C20:generator-refused {c['out'][0]}", {"ops": c["ops"]})
            continue
        e = event(c)
        evs.append(e)
        ctx.count("runs of " + c["id"].rstrip("0123456789"))
        for t in e["threads"]:
            for o in t:
                ctx.count("op " + o["f"])
        # how much the threads were interleaved
        order = sorted((o["inv"], k) for k, t in enumerate(e["threads"]) for o in t)
        ctx.count("switches between threads", sum(1 for a, b in zip(order, order[1:]) if a[1] != b[1]))
        x = copy.deepcopy(e)
        ns = [(t, k) for t, th in enumerate(x["threads"]) for k, o in enumerate(th) if o["f"] == "next" and o["out"] == "ok" and o["g"][0] == "s"]
        cl = [o for th in x["threads"] for o in th if o["f"] == "call"]
        how = rng.choice(["twice", "omitted", "order", "call"])
        x["id"] = f"~{e['id']}-{how}"
        if how == "call" and cl:
            rng.choice(cl)["res0"] = "0"
        elif how == "twice" and ns:
            t, k = rng.choice(ns)
            same = [(u, j) for u, j in ns if (u, j) != (t, k) and x["threads"][u][j]["g"] == x["threads"][t][k]["g"]]
            if not same:
                continue
            u, j = rng.choice(same)
            x["threads"][t][k]["pt"] = x["threads"][u][j]["pt"]
        elif how == "omitted" and ns:      # a step nobody recorded, before the last one
            g = rng.choice([x["threads"][t][k]["g"] for t, k in ns])
            mine = sorted((x["threads"][t][k]["res"], t, k) for t, k in ns if x["threads"][t][k]["g"] == g)
            if len(mine) < 2:
                continue
            _, t, k = mine[0]
            del x["threads"][t][k]
        elif how == "order" and ns:
            t = rng.choice([t for t, _ in ns])
            ks = [k for u, k in ns if u == t]
            pairs = [(a, b) for a, b in zip(ks, ks[1:]) if x["threads"][t][a]["g"] == x["threads"][t][b]["g"]]
            if not pairs:
                continue
            a, b = rng.choice(pairs)
            A, B = x["threads"][t][a], x["threads"][t][b]
            A["pt"], B["pt"] = B["pt"], A["pt"]
        else:
            continue
        neg.append(x)
    bad = ctx.trace("TraceThreads", evs, neg, consts="CONSTANT NDim = 1\n", shards=8, heap="2g")
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        ctx.violation(f"run {i}: {' '.join(cl)}", {"case": {"ops": by[i]["ops"], "out": by[i]["out"]}, "clauses": cl})
    for e in evs[:3]:
        ctx.sample({"run": e["id"], "threads": [[{k: v for k, v in o.items() if k != "pt"} for o in t[:6]] for t in e["threads"]]})
    return ctx.finish(["up to four threads; which interleavings occur is up to the machine, but any of them is judged",
                       "Python only: R runs one thread"])
