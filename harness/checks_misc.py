"""C13: flatten."""
import copy, math
import gen as G, events as E


def c13(ctx):
    ctx.mc("MCFlatten", "SPECIFICATION Spec\nCONSTANTS MaxCount = 2\nShapes <- %s\nINVARIANTS WellFormed Exact Ordered InRange Complete\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n"
           % ("SmallShapes" if ctx.quick else "MoreShapes"), name="flatten lists everyone once, in order (all small arrays)")
    ctx.build()
    rng = ctx.rng
    cases = []

    def add(api, d, v, names=None, **kw):
        op = {"f": "flatten", "pop": {"d": d, "v": v, **kw}}
        if api == "r":
            names = names if names is not None else [f"c{j}" for j in range(len(d))]
            op["names"] = names
        cases.append({"id": f"{api}{len(cases)}", "api": api, "d": d, "v": v, "names": names or [], "ops": [op]})
    for i in range(160 if ctx.quick else 3000):
        nd = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        d = G.sizes(rng, nd, rng.choice([4, 30, 200]), big=True)
        pop = rng.choice([0, 1, 2, 10, 60, 300, 1500])
        v = G.table(rng, d, pop, rng.choice([0, .3, .8]))
        if i % 12 == 11:
            v[rng.randrange(len(v))] = -rng.choice([1, 2, 100])
            if i % 24 == 23:      # the total stays positive, or becomes zero
                v[rng.randrange(len(v))] += 5
        api = "r" if i % 3 == 2 else "py"
        names = None
        if api == "r":
            names = rng.sample(["age", "sex", "zone", "x", "Yz", "a.b", "income", "n"], nd)
            if i % 15 == 14:
                names = rng.choice([names[:-1], names + ["extra"], names[:-1] + [names[0]] if nd > 1 else names + [names[0]]])
        add(api, d, v, names, **({"t": rng.choice(["i4", "i2", "i8", "u2"] if min(v) >= 0 else ["i4", "i8"])} if api == "py" and i % 5 == 0 else {}))
    for d, v in (([1], [0]), ([1], [3]), ([4], [0, 0, 0, 2]), ([2, 2], [-1, 1, 1, -1]), ([2, 2], [0, 0, 0, -1]), ([3, 1, 2], [1, 0, 0, 0, 0, 4]), ([2, 40], [1] * 80),
                 ([1, 1, 1], [5]), ([3], [2500, 0, 1])):
        add("py", d, v)
        add("r", d, v)
    # many categories, many dimensions, crowded cells: beyond what fits in small integers
    def sparse(d, k, most=3):
        v = [0] * math.prod(d)
        for _ in range(k):
            v[rng.randrange(len(v))] += rng.randint(1, most)
        v[-1] += 1
        return v
    for d in ([130], [300], [2, 140], [260, 2], [40, 3, 7], [2] * 8, [1, 2] * 5, [2] * 11, [33000], [2, 66000], [70000, 1], [300, 300]):
        add("py", d, sparse(d, 12))
        add("r", d, sparse(d, 12))
    for d, v in (([3], [1, 130, 300]), ([2, 2], [40000, 1, 0, 2]), ([2, 3], [1, 70000, 2, 0, 1, 3])):
        add("py", d, v)
        add("r", d, v)
    ctx.run("py", [c for c in cases if c["api"] == "py"])
    ctx.run("r", [c for c in cases if c["api"] == "r"])
    evs, neg = [], []
    for c in cases:
        o = c["out"][0]
        out = E.outcome(o)
        ctx.count(f"{c['api']} {out}")
        if out in ("crash", "hang"):
            ctx.violation(f"{c['id']}: {out}", c)
            continue
        e = {"id": c["id"], "api": c["api"], "a": {"d": c["d"], "v": c["v"]}, "names": c["names"], "out": out}
        if len(c["v"]) > 500:
            some = [k for k, n in enumerate(c["v"]) if n]
            e["a"] = {"d": c["d"], "cell": [k + 1 for k in some], "v": [c["v"][k] for k in some]}
        if out == "ok":
            e["cols"] = [E.ints(x) for x in o["ok"]["res"]]
            e["got"] = o["ok"].get("names", [])
        evs.append(e)
        if out == "ok" and len(evs) % 5 == 0 and e["cols"] and e["cols"][0]:
            x = copy.deepcopy(e)
            x["id"] = "~" + e["id"]
            n = len(e["cols"][0])
            k = rng.randrange(4)
            if k == 0:
                for col in x["cols"]:
                    del col[n // 2]
            elif k == 1:
                x["cols"][rng.randrange(len(x["cols"]))][rng.randrange(n)] += 1
            elif k == 2:
                for col in x["cols"]:
                    col.reverse()
                if x["cols"] == e["cols"]:
                    continue
            else:
                x["cols"] = x["cols"][::-1]
                if x["cols"] == e["cols"]:
                    continue
            neg.append(x)
    bad = ctx.trace("TraceFlatten", evs, neg)
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        ctx.violation(f"{i}: {' '.join(cl)}", {"case": by[i], "clauses": cl})
    for c in cases[:6]:
        if "ok" in c["out"][0]:
            ctx.sample({"api": c["api"], "dims": c["d"], "counts": c["v"][:12], "columns": [x[:10] for x in c["out"][0]["ok"]["res"]]})
    return ctx.finish(["arrays of 1 to 11 dimensions, up to 132000 cells and 70000 categories in a dimension, up to 70000 individuals in a cell"])
