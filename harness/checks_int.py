"""C09, C10: integerisation of fractional populations."""
import copy, math
from fractions import Fraction
import gen as G, events as E
from lib import big, fx

KF = {"id": "kf-sparse", "d": [2, 2, 2], "v": [0.0, 2.5, 0.5, 0.0, 1.5, 0.0, 0.0, 0.5]}


def exact(vals, limit=120):
    """non-negative doubles as integers over a common power of two; None if not representable as such"""
    fs = []
    for x in vals:
        if not isinstance(x, (int, float)) or isinstance(x, float) and not math.isfinite(x) or x < 0:
            return None
        fs.append(Fraction(x))
    k = max([f.denominator for f in fs], default=1)
    if k > 2**limit:
        return None
    return [big(int(f * k)) for f in fs], big(k)


def event(c):
    o = c["out"][0]
    x = exact(c["vals"])
    e = {"id": c["id"], "kind": c["kind"], "bad": int(x is None), "w": x[0] if x else [], "unit": x[1] if x else [1], "out": E.outcome(o)}
    if c["kind"] != "many":
        e["pop"] = c.get("pop", 0)
    else:
        e["d"] = c["d"]
    if "ok" in o:
        r = o["ok"]["res"]
        if c["kind"] == "many":
            e["res"] = E.iarr(r)
            e["conv"] = o["ok"]["st"]["conv"]
        else:
            e["res"] = E.ints(r["v"])
        e["rmse"] = fx(o["ok"]["st"]["rmse"])
    return e


def weights(rng, n=None):
    n = n or rng.choice([1, 2, 3, 4, 5, 8, 13, 30, 60])
    s = rng.randrange(9)
    if s == 0:
        v = [float(rng.randint(0, 6)) for _ in range(n)]
    elif s == 1:      # ties
        v = [1.0] * n
    elif s == 2:
        v = [rng.randint(0, 40) / 8 for _ in range(n)]
    elif s == 3:
        v = [round(rng.random(), 1) for _ in range(n)]
    elif s == 4:
        v = [rng.random() ** 6 * 1e3 for _ in range(n)]
    elif s == 5:
        v = [rng.random() if rng.random() < .5 else 0.0 for _ in range(n)]
    elif s == 6:      # one entry dwarfs the others
        v = [rng.random() * 1e-3 for _ in range(n)]
        v[rng.randrange(n)] = 5.0
    elif s == 7:
        v = [rng.choice([.5, 1.5, 2.5, .25]) for _ in range(n)]
    else:
        v = [round(rng.random() * 10, 3) for _ in range(n)]
    if not any(v):
        v[rng.randrange(n)] = 1.0
    return v


def fractional_vector(rng, n=None):
    """non-negative values with an integral total (to within rounding)"""
    n = n or rng.choice([1, 2, 3, 5, 8, 20, 50])
    s = rng.randrange(5)
    if s == 0:
        v = [float(rng.randint(0, 9)) for _ in range(n)]
    elif s == 1:
        v = [rng.randint(0, 320) / 32 for _ in range(n)]
        v[-1] += (-sum(v)) % 1.0
    elif s == 2:
        v = [round(rng.random() * 4, 2) for _ in range(n)]
        v[-1] += round((-sum(v)) % 1.0, 2)
    elif s == 3:    # not quite integral, inside and outside the tolerance
        v = [rng.randint(0, 64) / 8 for _ in range(n)]
        v[-1] += (-sum(v)) % 1.0 + rng.choice([3e-5, 9e-5, -9e-5 if v[-1] > .1 else 9e-5, 2e-4, .01, .5])
    else:
        p = rng.randint(1, 60)
        w = weights(rng, n)
        t = sum(w)
        v = [x / t * p for x in w]
    return v


def c09(ctx):
    ctx.mc("MCApportion", "SPECIFICATION Spec\nCONSTANTS Longest = %d\nHeaviest = %d\nMost = %d\nINVARIANTS Bookkeeping Optimal OneStepEach Unchanged BigAgrees Characterised\nCHECK_DEADLOCK FALSE\n"
           % ((3, 3, 4) if ctx.quick else (4, 4, 6)), name="largest remainder is optimal (all small weights)", timeout=800)
    ctx.mc("MCApportion", "SPECIFICATION Spec\nCONSTANTS Longest = 2\nHeaviest = 2\nMost = 2\nINVARIANT NeverLeft\nCHECK_DEADLOCK FALSE\n",
           expect_violation="NeverLeft", name="control: units are left to be given")
    ctx.build()
    rng = ctx.rng
    cases = []
    n = 1 if ctx.quick else 12

    def add(api, kind, vals, pop=None, **kw):
        f = "intn" if kind == "total" else "int1"
        arr = {"d": [len(vals)], "v": [x if math.isfinite(x) else str(x) for x in vals], "t": kw.get("t", "f8"), **({"lay": kw["lay"]} if "lay" in kw else {})}
        op = {"f": f, ("pop" if f == "intn" else "frac"): arr}
        if f == "int1":
            op["pop"] = pop
        cases.append({"id": f"{api}{len(cases)}-{kind}", "api": api, "kind": kind, "vals": vals, "pop": pop or 0, "ops": [op]})

    def popof(v):
        return rng.choice([0, 1, 2, 3, len(v) - 1, len(v), len(v) + 1, rng.randint(0, 50), rng.randint(0, 50), rng.randint(0, 3000), 10**6 + 3,
                           10**9 + 7 if len(v) < 9 else 99])
    for i in range(170 * n):
        v = weights(rng)
        add("py", "one", v, max(0, popof(v)), **({"lay": "L"} if i % 5 == 0 else {}))
    for i in range(20 * n):     # a distribution already integral for this population
        v = [float(rng.randint(0, 30)) for _ in range(rng.randint(1, 20))]
        v[0] += 1
        k = rng.choice([1, 1, 2, 3, 7])
        add("py", "one", [x / k for x in v] if rng.random() < .5 else v, int(sum(v)) * rng.choice([1, 1, 2, 10]))
    for i in range(90 * n):
        add("py" if i % 3 else "r", "total", fractional_vector(rng))
    for i, k in enumerate([100, 128, 200, 256, 257, 300, 512, 700, 1000, 1025] * (1 if ctx.quick else 8)):     # long vectors
        v = weights(rng, k)
        add("py", "one", v, rng.choice([1, k // 2, k, k + 1, 3 * k + 7, 10**6 + 3]), **({"lay": "L"} if i % 5 == 0 else {}))
        add("py" if i % 3 else "r", "total", fractional_vector(rng, k))
        t = math.fsum(v)
        add("r", "prob", [x / t for x in v], rng.choice([1, k, 5 * k]))
    for i in range(60 * n):
        v = weights(rng)
        t = math.fsum(v)
        v = [x / t for x in v]
        if i % 10 == 9:
            v[0] += rng.choice([1e-9, .01, 1e-6, 1e-5, 5e-5, 9e-4])
        if abs(math.fsum(v) - 1) > 1e-13 and abs(math.fsum(v) - 1) < 1e-10:
            continue
        add("r", "prob", v, max(0, popof(v)) if i % 10 != 9 else 10**6 + 3)
    for v in ([], [0.0], [0.0, 0.0, 0.0], [-1.0, 2.0], [1.0, -1e-9], [float("nan"), 1.0], [float("inf"), 1.0], [3.0], [.5, .5], [-2.0, -2.0]):
        add("py", "one", v, 3)
        add("r", "prob", v, 3)
        add("py", "total", v)
        if v:
            add("r", "total", v)
    by_api = {}
    for c in cases:
        by_api.setdefault(c["api"], []).append(c)
    for api, cs in by_api.items():
        ctx.run(api, cs, timeout=30)
    evs, neg = [], []
    for c in cases:
        out = E.outcome(c["out"][0])
        ctx.count(f"{c['api']} {c['kind']} {out}")
        if out in ("crash", "hang"):
            ctx.violation(f"{c['id']}: {out}", c)
            continue
        e = event(c)
        evs.append(e)
        if out != "ok" or not e["res"]:
            continue
        m = len(evs) % 12
        x = copy.deepcopy(e)
        x["id"] = "~" + e["id"]
        if m == 0:
            x["res"][rng.randrange(len(x["res"]))] += 1
        elif m == 3 and len(e["res"]) > 1 and sum(e["res"]):
            # move a unit from an entry rounded down to one rounded up (always worse)
            s = sum(Fraction(v) for v in c["vals"])
            pop = e["pop"] if c["kind"] == "one" else round(float(s))
            t = [Fraction(v) * pop / s for v in c["vals"]] if s else []
            d = [a - b for a, b in zip(e["res"], t)]
            src = [i for i in range(len(d)) if e["res"][i] > 0]
            if not src:
                continue
            i = min(src, key=lambda i: d[i])
            j = max((j for j in range(len(d)) if j != i), key=lambda j: d[j])
            if d[j] - d[i] + 1 < .001:
                continue
            x["res"][i] -= 1
            x["res"][j] += 1
        elif m == 6:
            x["rmse"] = fx(float(c["out"][0]["ok"]["st"]["rmse"]) * 1.01 + .003)
        else:
            continue
        neg.append(x)
    bad = ctx.trace("TraceIntegerise", evs, neg)
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        ctx.violation(f"{i}: {' '.join(cl)}", {"case": by[i], "clauses": cl})
    for c in cases[::max(1, len(cases) // 6)]:
        if "ok" in c["out"][0]:
            ctx.sample({"api": c["api"], "kind": c["kind"], "values": c["vals"][:10], "pop": c["pop"], "result": c["out"][0]["ok"]["res"]["v"][:10],
                        "rmse": c["out"][0]["ok"]["st"]["rmse"]})
    return ctx.finish(["vectors of up to 1025 entries, populations up to 10^9", "ties and sums are judged to within 10^-6 of a person (double rounding)"])


def swaps(rng, d, v, k, step):
    """moves that keep every one-dimensional total"""
    st = G.strides(d)
    for _ in range(k):
        a = [rng.randrange(x) for x in d]
        b = [rng.randrange(x) for x in d]
        j = rng.randrange(len(d))
        a2, b2 = a[:], b[:]
        a2[j], b2[j] = b[j], a[j]
        at = lambda c: sum(x * y for x, y in zip(c, st))
        t = min(v[at(a)], v[at(b)], step())
        if t > 0 and a2 != a:
            v[at(a)] -= t
            v[at(b)] -= t
            v[at(a2)] += t
            v[at(b2)] += t
    return v


def fractional_array(rng, large=False):
    nd = rng.choice([4, 5, 5, 6, 7, 2, 2, 3] if large else [2, 2, 3, 3, 4])
    d = G.sizes(rng, nd, rng.choice([150, 300]) if large else rng.choice([8, 24, 60]))
    if large and nd == 2:
        d = rng.choice([[2, 70], [66, 2], [17, 16], [1, 130], [33, 1]])
    n = G.size(d)
    s = rng.randrange(8)
    pop = rng.randint(1, rng.choice([6, 25, 60]))
    if large and rng.random() < .5:
        pop = rng.randint(200, 900)
    if s == 0:        # already integral
        return "integral", d, [float(x) for x in G.table(rng, d, rng.choice([0, pop]), rng.choice([0, .4]))]
    if s in (1, 2):   # the independent distribution: strictly positive if the marginals are
        t = [[1] * x for x in d]
        tot = max(d) + pop
        for x in t:
            for _ in range(tot - len(x)):
                x[rng.randrange(len(x))] += 1
        v = []
        for k in range(n):
            c = G.coord(d, k)
            p = float(tot)
            for i, ci in enumerate(c):
                p *= t[i][ci] / tot
            v.append(p)
        return "independent", d, v
    if s == 3:        # positive, dyadic
        v = [float(x) for x in G.table(rng, d, n + pop, 0)]
        v = [x + 1 for x in v]
        return "positive", d, swaps(rng, d, v, 3 * n, lambda: rng.randint(1, 63) / 64)if n > 1 else v
    if s in (4, 5):   # some zeros
        v = [float(x) for x in G.table(rng, d, pop, rng.choice([0, .3, .6]))]
        q = rng.choice([64, 8, 2])
        return "swapped", d, swaps(rng, d, v, 2 * n, lambda: rng.randint(1, q) / q)
    if s == 6:        # decimals
        v = [float(x) for x in G.table(rng, d, pop, rng.choice([0, .3]))]
        v = [round(x, 6) for x in swaps(rng, d, v, 2 * n, lambda: rng.randint(1, 99) / 100)]
        return "decimal", d, [max(0.0, x) for x in v]
    v = [rng.randint(0, 32) / 16 for _ in range(n)]
    k = rng.randrange(3)
    if k == 0:      # only the overall total is integral
        v[rng.randrange(n)] += (-sum(v)) % 1.0
    elif k == 1:    # totals off by about the tolerance
        v = [float(x) for x in G.table(rng, d, pop, .2)]
        v[rng.randrange(n)] += rng.choice([5e-5, 9.5e-5, 1.2e-4, 1e-3])
    return "off", d, v


def sparse_array(rng):
    """few individuals spread over an array with many zeros: sampling may overdraw a total"""
    nd = rng.choice([3, 4, 4, 4, 5])
    d = [2] * nd if rng.random() < .7 else [rng.randint(2, 3) for _ in range(nd)]
    v = [float(x) for x in G.table(rng, d, rng.randint(3, 10) if rng.random() < .5 else G.size(d) // 2, 0)]
    q = rng.choice([2, 2, 4, 10])
    return "sparse", d, [max(0.0, round(x, 9)) for x in swaps(rng, d, v, rng.randint(1, 8), lambda: rng.randint(1, q - 1) / q)]


def missed(c):
    """sampled totals are not those of the array (only to choose what to look at; Totals in TraceIntegerise decides)"""
    o = c["out"][0]
    if "ok" not in o or len(o["ok"]["res"]["v"]) != len(c["vals"]):
        return True
    for j in range(len(c["d"])):
        a, b = [0.0] * c["d"][j], [0.0] * c["d"][j]
        for k, (x, y) in enumerate(zip(c["vals"], o["ok"]["res"]["v"])):
            i = G.coord(c["d"], k)[j]
            a[i] += x
            b[i] += float(y)
        if max(abs(x - y) for x, y in zip(a, b)) > .5:
            return True
    return False


def sampling(c):
    """sampling from the array over its one-dimensional totals, as a call of its own"""
    from checks_qisi import qisi_case
    d, n = c["d"], len(c["d"])
    tot = [[0.0] * x for x in d]
    for k, x in enumerate(c["vals"]):
        for j, i in enumerate(G.coord(d, k)):
            tot[j][i] += x
    p = {"idx": [[j] for j in range(n)], "m": [{"d": [len(t)], "v": [math.floor(x + .5) for x in t]} for t in tot]}
    return {**qisi_case(0, c["api"], p, d, c["vals"], None, with_ipf=False), "id": c["id"]}


def c10(ctx):
    from checks_qisi import MCQISI, INV, PROPS
    ctx.mc("MCQisi", MCQISI.format(3 if ctx.quick else 5, "FALSE", INV, PROPS), name="sampling a positive array over its 1-d totals always fits", timeout=800)
    ctx.build()
    rng = ctx.rng
    cases = []
    n = 260 if ctx.quick else 4000

    def add(api, kind, d, v):
        arr = {"d": d, "v": [x if math.isfinite(x) else str(x) for x in v], "t": "f8"}
        cases.append({"id": f"{api}{len(cases)}-{kind}", "api": api, "kind": "many", "style": kind, "d": d, "vals": v, "ops": [{"f": "intn", "pop": arr}]})
    add("py", "kf", KF["d"], KF["v"])
    add("r", "kf", KF["d"], KF["v"])
    for i in range(n):
        k, d, v = fractional_array(rng, i % 5 == 2)
        add("r" if i % 4 == 3 else "py", k, d, v)
    for d, v in (([2, 2], [0.0] * 4), ([2, 2], [1.0, -1.0, 1.0, 1.0]), ([2, 2], [1.0, float("nan"), 1.0, 1.0]), ([2, 2], [float("inf"), 1.0, 1.0, 1.0]),
                 ([2, 2], [.5] * 4), ([1, 1], [2.0]), ([3, 1], [1.0, 2.0, 0.0]), ([2, 2], [1.0, 1e-5, 0.0, 3.0]), ([2, 2], [-.5, .5, 1.5, .5]),
                 ([2, 2, 2], [.25] * 8)):
        add("py", "special", d, v)
        add("r", "special", d, v)
    for i in range(4000 if ctx.quick else 60000):
        add("py" if i % 8 else "r", *sparse_array(rng))
    by_api = {}
    for c in cases:
        by_api.setdefault(c["api"], []).append(c)
    for api, cs in by_api.items():
        ctx.run(api, cs, timeout=60)
    some = [c for c in cases if c["style"] == "sparse"]
    odd = [c for c in some if missed(c) or not c["out"][0]["ok"]["st"]["conv"]]
    ctx.count("sparse arrays sampled", len(some))
    ctx.count("of which overdrawn or stuck", len(odd))
    keep = {c["id"] for c in odd[:120 if ctx.quick else 2000]} | {c["id"] for c in some[::39]}
    cases = [c for c in cases if c["style"] != "sparse" or c["id"] in keep]
    # where it fails on zeros, does the sampler?
    fails = [sampling(c) for c in cases if E.outcome(c["out"][0]) == "err" and all(x >= 0 for x in c["vals"]) and all(math.isfinite(x) for x in c["vals"])]
    for api in ("py", "r"):
        ctx.run(api, [c for c in fails if c["api"] == api], timeout=60)
    sampler = {c["id"]: E.outcome(c["out"][0]) for c in fails}
    evs, neg = [], []
    for c in cases:
        out = E.outcome(c["out"][0])
        ctx.count(f"{c['api']} {c['style']} {out}")
        if out in ("crash", "hang"):
            ctx.violation(f"{c['id']}: {out}", c)
            continue
        e = event(c)
        e["sampler"] = sampler.get(c["id"], "")
        evs.append(e)
        if out != "ok":
            if e["sampler"] == "err" and c["style"] in ("sparse", "kf"):      # a failure that is not the sampler's is not the known one
                neg.append({**copy.deepcopy(e), "id": "~" + e["id"], "sampler": "ok"})
            continue
        m = len(evs) % 14
        if m in (0, 4):
            x = E.corrupt(rng, e, ["plus", "conv"][m // 4])
        elif m == 8 and c["style"] in ("integral", "independent"):
            x = E.corrupt(rng, e, "move")
        elif m == 12:
            x = copy.deepcopy(e)
            x["id"] = "~" + e["id"]
            x["rmse"] = fx(float(c["out"][0]["ok"]["st"]["rmse"]) * 1.01 + .003)
        else:
            continue
        if x:
            neg.append(x)
    bad = ctx.trace("TraceIntegerise", evs, neg)
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        if cl == ["KF:sparse"]:
            ctx.count("known finding observed")
            if by[i]["style"] == "kf":
                ctx.known_finding("sparse-sampling", "integerise fails with 'pick failed' or 'negative value in marginal' on some arrays with zero cells, e.g. "
                                  "[[[0,2.5],[0.5,0]],[[1.5,0],[0,0.5]]], instead of returning an array with conv false")
            continue
        ctx.violation(f"{i}: {' '.join(cl)}", {"case": by[i], "clauses": cl})
    for c in cases[::max(1, len(cases) // 6)]:
        if "ok" in c["out"][0]:
            o = c["out"][0]["ok"]
            ctx.sample({"api": c["api"], "kind": c["style"], "dims": c["d"], "values": c["vals"][:12], "result": o["res"]["v"][:12], **o["st"]})
    return ctx.finish(["arrays of up to 300 cells, 2 to 7 dimensions, populations up to a thousand"])
