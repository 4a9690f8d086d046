"""C17: the R and Python front ends give the same answers."""
import copy, json
import gen as G, events as E
from lib import fx
from checks_sobol import word


def transposed(a):
    d, v = a["d"], a["v"]
    rd = d[::-1]
    s = G.strides(d)
    return {"d": rd, "v": [v[sum(x * y for x, y in zip(G.coord(rd, k)[::-1], s))] for k in range(len(v))]}


def scaled(a):     # values are multiples of 1/4
    return {"d": a["d"], "v": [int(round(x * 4)) for x in a["v"]]}


def fxarr(a):
    return {"d": [int(x) for x in a["d"]], "v": [fx(x) for x in a["v"]]}


INTS = {"pop", "iterations"}


def answer(o):
    a = {"out": E.outcome(o)}
    if a["out"] != "ok":
        return a
    r = o["ok"]
    if "st" in r:
        st = r["st"]
        a["res"] = fxarr(r["res"])
        if "expectation" in st:
            a["exp"] = fxarr(st["expectation"])
        a["conv"] = st.get("conv", True)
        a["int"] = {"none": 0, **{k: E.ints([st[k]])[0] for k in st if k in INTS}}
        a["num"] = {"none": fx(0), **{k: fx(st[k]) for k in st if k not in INTS and k not in ("conv", "expectation", "degeneracy")}}
    return a


def case(rng, i):
    fn = ["qis", "qisi", "ipf", "intn", "qis", "qisi", "ipf", "int1", "flatten", "sobol"][i % 10]
    c = {"id": f"{fn}{i}", "fn": fn}
    if fn in ("qis", "qisi", "ipf"):
        while True:
            p = G.problem(rng, rng.choice(["disjoint", "rip", "rip", "loop", "contradictory"]), cap=150, popcap=60, maxdim=5) if rng.random() < .85 else G.extreme(rng, 30, 300)
            d = G.dims_of(p)
            if len(set(d)) > 1 or rng.random() < .2:
                break
        nd = len(d)
        # p is the question in R; the corresponding one in Python
        ridx = [[x + 1 for x in ix] for ix in p["idx"]]
        pidx = [[nd - x for x in ix] for ix in ridx[::-1]]
        pm = p["m"][::-1]
        t = "f8" if fn == "ipf" else "i8"
        rop = {"f": fn, "idx": ridx, "m": [{**m, "t": rng.choice(["f8", "i4"]), **({"nodim": True} if len(m["d"]) == 1 and rng.random() < .5 else {})} for m in p["m"]]}
        pop = {"f": fn, "idx": pidx, "m": [{**m, "t": t} for m in pm]}
        rq = {"idx": ridx, "m": p["m"]}
        pq = {"idx": pidx, "m": pm}
        if fn != "qis":
            seed = {"d": d, "v": [1] * G.size(d) if rng.random() < .2 else [rng.choice([0, .25, .5, 1, 1, 2, 3, 7.75]) for _ in range(G.size(d))]}
            rop["seed"], pop["seed"] = {**seed, "t": "f8"}, {**transposed(seed), "t": "f8"}
            rq["seed"], pq["seed"] = scaled(seed), scaled(transposed(seed))
        if fn != "ipf" and rng.random() < .7:
            rop["skips"] = pop["skips"] = G.skips(rng)
        c["kind"] = "problem"
    elif fn == "intn":
        d = G.sizes(rng, rng.choice([1, 2, 3, 3, 4]), 60)
        v = [x + .25 for x in G.table(rng, d, rng.randint(0, 60))] if rng.random() < .3 else [rng.choice([1, 2, 3, 1.5, 2.25]) for _ in range(G.size(d))]
        if rng.random() < .7:
            v = [float(x + 1) for x in G.table(rng, d, 30)]
            for _ in range(8):
                a, b = G.coord(d, rng.randrange(len(v))), G.coord(d, rng.randrange(len(v)))
                j = rng.randrange(len(d))
                a2, b2 = a[:], b[:]
                a2[j], b2[j] = b[j], a[j]
                at = lambda x: sum(p * q for p, q in zip(x, G.strides(d)))
                if v[at(a)] > .25 and v[at(b)] > .25:
                    for x, s in ((a, -.25), (b, -.25), (a2, .25), (b2, .25)):
                        v[at(x)] += s
        a = {"d": d, "v": v}
        rop, pop = {"f": "intn", "pop": {**a, "t": "f8"}}, {"f": "intn", "pop": {**transposed(a), "t": "f8"}}
        rq, pq = {"a": scaled(a)}, {"a": scaled(transposed(a))}
        c["kind"] = "array"
    elif fn == "int1":
        n = rng.choice([1, 2, 4, 8, 16])
        w = [1] * n
        for _ in range(n):
            x, y = rng.randrange(n), rng.randrange(n)
            if w[x] > 0:
                w[x] -= .25 if n <= 4 else .5
                w[y] += .25 if n <= 4 else .5
        k = rng.choice([0, 1, 7, 50, 1000, 12345])
        pr = {"d": [n], "v": [x / n for x in w]}
        rop, pop = {"f": "int1", "frac": pr, "pop": k}, {"f": "int1", "frac": {**pr, "t": "f8"}, "pop": k}
        rq = pq = {"a": scaled({"d": [n], "v": w})}
        c["kind"] = "vector"
    elif fn == "flatten":
        d = G.sizes(rng, rng.choice([1, 2, 3, 4]), 60)
        a = {"d": d, "v": G.table(rng, d, rng.randint(0, 80))}
        rop, pop = {"f": "flatten", "pop": a, "names": [f"c{j}" for j in range(len(d))]}, {"f": "flatten", "pop": a}
        rq = pq = {"a": a}
        c["kind"] = "columns"
    else:
        dim, n, sk = rng.choice([1, 2, 3, 10, 100, 1111]), rng.randint(1, 6), G.skips(rng)
        rop, pop = {"f": "sobol", "dim": dim, "n": n, "skips": sk}, {"f": "sobol", "dim": dim, "n": n, "skips": sk}
        rq = pq = {"a": dim}
        c["kind"] = "points"
    c.update(rq=rq, pq=pq, rop=rop, pop=pop)
    return c


def c17(ctx):
    ctx.mc("MCFrontends", "SPECIFICATION Spec\nCONSTANTS Shapes <- %s\nMaxCell = %d\nINVARIANTS AnswersAgree Involution AsksTheSame\nCHECK_DEADLOCK FALSE\n"
           % (("SmallShapes", 1) if ctx.quick else ("MoreShapes", 1)), name="questions in R and Python are about the same table")
    ctx.mc("MCFrontends", "SPECIFICATION Spec\nCONSTANTS Shapes <- SmallShapes\nMaxCell = 1\nINVARIANT Untransposed\nCHECK_DEADLOCK FALSE\n", expect_violation="Untransposed", name="control")
    ctx.build()
    rng = ctx.rng
    cases = [case(rng, i) for i in range(400 if ctx.quick else 6000)]
    pc = [{"id": c["id"], "ops": [c["pop"]]} for c in cases]
    rc = [{"id": c["id"], "ops": [c["rop"]]} for c in cases]
    ctx.run("py", pc)
    ctx.run("r", rc)
    evs, neg = [], []
    for c, p, r in zip(cases, pc, rc):
        po, ro = p["out"][0], r["out"][0]
        ctx.count(f"{c['fn']} R {E.outcome(ro)}, Python {E.outcome(po)}")
        e = {"id": c["id"], "fn": c["fn"], "kind": c["kind"], "r": {**c["rq"], **answer(ro)}, "py": {**c["pq"], **answer(po)}}
        for k, o in (("r", ro), ("py", po)):
            if "ok" in o and c["kind"] == "columns":
                e[k]["cols"] = [E.ints(x) for x in o["ok"]["res"]]
            if "ok" in o and c["kind"] == "points":
                e[k]["pts"] = [[word(x) for x in pt[:60]] for pt in o["ok"]["res"]]
        evs.append(e)
        if e["r"]["out"] == "ok" and len(evs) % 4 == 0:
            x = copy.deepcopy(e)
            x["id"] = "~" + e["id"]
            y = x[rng.choice(["r", "py"])]
            if "res" in y:
                w = rng.choice([k for k in ("res", "exp", "conv", "int", "num") if k in y and (c["kind"] != "vector" or k == "res")])
                if w == "conv":
                    y["conv"] = not y["conv"]
                elif w in ("res", "exp"):
                    if rng.random() < .3 and len(y[w]["d"]) > 1 and y[w]["d"] != y[w]["d"][::-1]:
                        y[w]["d"] = y[w]["d"][::-1]
                    else:
                        k = rng.randrange(len(y[w]["v"]))
                        y[w]["v"][k] = fx(123456.75)
                else:
                    k = rng.choice([k for k in y[w] if k != "none"] or ["none"])
                    if k == "none":
                        continue
                    y[w][k] = 987654 if w == "int" else fx(4321.5)
            elif "cols" in y and y["cols"][0]:
                y["cols"][0][0] += 1
            elif "pts" in y:
                y["pts"][0][0] = [1, 1]
            else:
                continue
            neg.append(x)
    bad = ctx.trace("TraceFrontends", evs, neg)
    by = {c["id"]: (c, p["out"][0], r["out"][0]) for c, p, r in zip(cases, pc, rc)}
    for i, cl in bad.items():
        c, po, ro = by[i]
        ctx.violation(f"{i}: {' '.join(cl)} R: {json.dumps(c['rop'])[:220]} -> {json.dumps(ro)[:90]}; Python {json.dumps(po)[:90]}", {"case": c, "R": ro, "Python": po, "clauses": cl})
    for c in cases[:5]:
        ctx.sample({"fn": c["fn"], "R": c["rop"], "Python": c["pop"]})
    return ctx.finish(["doubles are compared to 10^-9 (relative)", "degeneracy is reported by only one of the two and is not compared"])
