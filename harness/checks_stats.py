"""C18: the statistics returned by the samplers."""
import copy, json, math
from fractions import Fraction
import gen as G, events as E
from lib import big

# listed in known_findings.txt
KNOWN = [("tail-underflow", [[0, 1], [0, 2]], [([2, 2], [990, 0, 0, 10])] * 2, "qis([[0,1],[0,2]], [[[990,0],[0,10]]]*2)"),
         ("infinite-statistic", [[0, 2], [2, 1], [0, 1]], [([2, 5], [3, 2, 1, 0, 1, 0, 1, 0, 0, 0]), ([5, 4], [2, 1, 0, 0, 0, 2, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]),
                                                           ([2, 4], [2, 4, 0, 1, 0, 0, 1, 0])],
          "qis([[0,2],[2,1],[0,1]], [[[3,2,1,0,1],[0,1,0,0,0]], [[2,1,0,0],[0,2,1,0],[0,1,0,0],[0,0,0,0],[0,0,0,1]], [[2,4,0,1],[0,0,1,0]]]) "
          "(occupies a cell of zero expectation)")]


def f24(x):
    x = float(x)
    if math.isnan(x):
        return {"s": 2, "m": []}
    if math.isinf(x):
        return {"s": 3 if x > 0 else 4, "m": []}
    f = abs(Fraction(x)) * 10**24
    return {"s": 1 if x < 0 else 0, "m": big(f.numerator // f.denominator)}


def event(c, strict=False):
    o = c["out"][0]["ok"]
    ex = [float(v) for v in o["st"]["expectation"]["v"]]
    return {"id": c["id"], "d": [int(x) for x in o["res"]["d"]], "res": E.ints(o["res"]["v"]), "exp": [f24(v)["m"] for v in ex],
            "chi": f24(o["st"]["chiSq"]), "chizero": float(o["st"]["chiSq"]) == 0, "p": f24(o["st"]["pValue"]), "strict": strict}


def c18(ctx):
    maxdof = 8 if ctx.quick else 24
    ctx.mc("MCStats", f"SPECIFICATION Spec\nCONSTANTS MaxX = {40 if ctx.quick else 300}\nMaxDof = {maxdof}\nINVARIANTS Published IsProbability Complement Strict\nCHECK_DEADLOCK FALSE\n",
           name="tail of the chi-squared distribution against published critical values")
    ctx.mc("MCStats", "SPECIFICATION Spec\nCONSTANTS MaxX = 8\nMaxDof = 2\nINVARIANT Control\nCHECK_DEADLOCK FALSE\n", expect_violation="Control", name="control")
    ctx.build()
    rng = ctx.rng
    cases = []

    def add(api, fn, p, seed=None, skips=None):
        op = {"f": fn, "idx": [[x + 1 for x in ix] for ix in p["idx"]] if api == "r" else p["idx"], "m": [{**m, "t": "i8"} for m in p["m"]]}
        if fn == "qisi":
            d = G.dims_of(p)
            op["seed"] = {"d": d, "v": seed or [1] * G.size(d), "t": "f8"}
        if skips is not None:
            op["skips"] = skips
        cases.append({"id": f"{api}{len(cases)}", "api": api, "ops": [op]})
    n = 220 if ctx.quick else 2500
    for i in range(n):
        fam = ["disjoint", "disjoint", "disjoint", "rip", "loop", "rip", "contradictory"][i % 7]
        big_ = i % 11 == 0
        p = G.problem(rng, fam, cap=600 if big_ else 120, popcap=rng.choice([20, 100, 400, 2000]) if fam == "disjoint" else rng.choice([15, 40, 150]), maxdim=5, big=True)
        fn = "qisi" if i % 5 in (1, 3) else "qis"
        seed = None
        if fn == "qisi":
            if fam == "contradictory":
                continue
            d = G.dims_of(p)
            if sum(p["m"][0]["v"]) > 150 and G.size(d) > 100:
                continue
            seed = [rng.choice([1, 1, 2, 3, .5, 7]) for _ in range(G.size(d))]
        add("r" if i % 4 == 3 else "py", fn, p, seed, rng.choice([None, 0, 3, 100, 5000]))
    for i in range(20 if ctx.quick else 200):
        p = G.extreme(rng, 60, 150)
        add("r" if i % 4 == 3 else "py", "qisi" if i % 5 in (1, 3) else "qis", p, None, rng.choice([None, 0, 3, 100]))
    # tables that meet their expectation exactly, and nearly
    for a, b in ((2, 2), (3, 2), (4, 4), (1, 5), (5, 1), (1, 1)):
        for k in (1, 2, 3):
            p = {"idx": [[0], [1]], "m": [{"d": [a], "v": [b * k] * a}, {"d": [b], "v": [a * k] * b}]}
            add("py", "qis", p)
            add("r", "qis", p)
            add("py", "qisi", p)
    # many degrees of freedom
    for a, b, pop in ((12, 12, 300), (20, 16, 500), (30, 8, 900)):
        t = G.table(rng, [a, b], pop)
        add("py", "qis", G.from_table(t, [a, b], [[0], [1]]))
    for k in range(20 if ctx.quick else 120):
        a, b = rng.randint(7, 12), rng.randint(7, 12)
        if k % 5 == 4:
            a, b = rng.choice([(14, 20), (3, 140), (25, 9)] if ctx.quick else [(30, 30), (4, 160), (22, 18)])
        add("py", "qis", G.from_table(G.table(rng, [a, b], rng.choice([2, 3, 5]) * max(a, b)), [a, b], [[0], [1]]), skips=rng.choice([None, 50]))
        cases[-1]["max"] = 420 if ctx.quick else 1400
    # and statistics near them, where the tail is hardest to compute: the most central of many
    for k in range(60 if ctx.quick else 300):
        a = rng.randint(21, 29) if ctx.quick else rng.randint(15, 36)
        t = [[0] * a, [0] * a]
        for m in t:
            for _ in range(rng.choice([4, 5]) * a if not m is t[1] else sum(t[0])):
                m[rng.randrange(a)] += 1
        add("py", "qis", {"idx": [[0], [1]], "m": [{"d": [a], "v": m} for m in t]}, skips=rng.choice([None, 50]))
        cases[-1]["max"], cases[-1]["central"] = 900 if ctx.quick else 1400, True
    # thousands of degrees of freedom
    for k in range(2 if ctx.quick else 8):
        a = rng.randint(52, 56) if ctx.quick else rng.randint(40, 75)
        t = [[0] * a, [0] * a]
        for m in t:
            for _ in range(6 * a):
                m[rng.randrange(a)] += 1
        for m in t:
            for j in range(a):
                m[j] = m[j] or 1
        while sum(t[0]) != sum(t[1]):
            t[0 if sum(t[0]) < sum(t[1]) else 1][rng.randrange(a)] += 1
        add("py", "qis", {"idx": [[0], [1]], "m": [{"d": [a], "v": m} for m in t]}, skips=rng.choice([None, 50]))
        cases[-1]["max"] = 6000
    # almost independent of what it is compared with: skewed shared dimension
    for k in (3, 10, 25, 60):
        p = {"idx": [[0, 1], [0, 2]], "m": [{"d": [3, 2], "v": [k, 0, 1, 1, 0, 1]}, {"d": [3, 2], "v": [k - 1, 1, 1, 1, 1, 0]}]}
        add("py", "qis", p)
        add("r", "qis", p)
    known = [{"id": n, "api": "py", "ops": [{"f": "qis", "idx": ix, "m": [{"d": d, "v": v, "t": "i8"} for d, v in ms]}], "call": call} for n, ix, ms, call in KNOWN]
    ctx.run("py", [c for c in cases if c["api"] == "py"] + known)
    ctx.run("r", [c for c in cases if c["api"] == "r"])
    def excess(c):
        st = c["out"][0]["ok"]
        dof = math.prod(int(x) - 1 for x in st["res"]["d"])
        return (float(st["st"]["chiSq"]) - dof) / dof
    central = sorted((c for c in cases if "central" in c and "ok" in c["out"][0] and excess(c) > 0), key=excess)[:5 if ctx.quick else 60]
    cases = [c for c in cases if "central" not in c or c in central or "ok" not in c["out"][0]]
    evs, neg = [], []
    for c in cases:
        o = c["out"][0]
        ctx.count(f"{c['api']} {c['ops'][0]['f']} {E.outcome(o)}")
        if E.outcome(o) in ("crash", "hang"):
            ctx.violation(f"{c['id']}: {E.outcome(o)}", c)
        if "ok" not in o:
            continue
        if any(not math.isfinite(float(v)) for v in o["ok"]["st"]["expectation"]["v"]):
            ctx.count("expectation not finite")
            continue
        e = event(c)
        e["max"] = c.get("max", 160 if ctx.quick else 700)
        evs.append(e)
        if len(evs) % 4 == 0:
            x = copy.deepcopy(e)
            x["id"] = "~" + e["id"]
            k = rng.randrange(4)
            chi, pv = float(o["ok"]["st"]["chiSq"]), float(o["ok"]["st"]["pValue"])
            if k == 0:
                x["chi"] = f24(chi * 1.0001 + 1e-6)
            elif k == 1 and chi < 160 and 1e-6 < pv < 1:
                x["p"] = f24(pv + 1e-4 if pv < .5 else pv * .999)
            elif k == 2:
                x["p"] = f24(1 + 1e-9)
            else:
                x["chi"], x["chizero"] = (f24(1.0), False) if e["chizero"] else (f24(0), True)
            if x == {**e, "id": x["id"]}:
                continue
            neg.append(x)
    bad = ctx.trace("TraceStats", evs, neg, shards=8)
    for k in ("judged", "vanishing"):
        ctx.count("tails " + k, len(set(l for l in ctx.last_out.splitlines() if l.strip('"').startswith("TAIL " + k) and "~" not in l)))
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        c = by[i]
        st = c["out"][0]["ok"]["st"]
        ctx.violation(f"{i}: {' '.join(cl)} chiSq {st['chiSq']} pValue {st['pValue']} {json.dumps(c['ops'][0])[:250]}", {"case": c, "clauses": cl})
    # the listed ones
    for c in known:
        o = c["out"][0]
        if "ok" not in o or math.isnan(float(o["ok"]["st"]["chiSq"])):
            ctx.violation(f"{c['id']}: {o}"[:200], c)
    kev = [{**event(c, strict=True), "max": 1000} for c in known if "ok" in c["out"][0]]
    bad = ctx.trace("TraceStats", kev, [], shards=2)
    for c in known:
        if c["id"] in bad:
            st = c["out"][0]["ok"]["st"]
            if bad[c["id"]] == ["C18:p-vanishing"] and float(st["pValue"]) == 1.0:
                ctx.known_finding(c["id"], f"{c['id']}: pValue is 1 instead of (nearly) 0 in {c['call']}, chiSq {float(st['chiSq']):.1f}")
            else:
                ctx.violation(f"{c['id']}: {bad[c['id']]} chiSq {st['chiSq']} pValue {st['pValue']}", c)
    for c in cases[:5]:
        if "ok" in c["out"][0]:
            s = c["out"][0]["ok"]["st"]
            ctx.sample({"dims": c["out"][0]["ok"]["res"]["d"], "chiSq": s["chiSq"], "pValue": s["pValue"]})
    return ctx.finish(["recorded doubles enter in units of 10^-24; chiSq to 10^-9 relative, pValue to 10^-6",
                       f"tails are worked out for statistics up to {160 if ctx.quick else 700} ({420 if ctx.quick else 1400} with many degrees of freedom) and where the density is above 10^-33"])
