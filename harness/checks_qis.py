"""C01-C04: quasirandom integer sampling."""
import gen as G, events as E
from lib import big, fx

FAMS = ["disjoint", "rip", "loop", "contradictory"]


def edge_problems(rng):
    """hand-picked structures that random choice seldom hits"""
    P = lambda idx, d, pop, z=0.0: G.from_table(G.table(rng, d, pop, z), d, idx)
    out = [
        P([[0], [1]], [1, 1], 5), P([[0], [1]], [1, 7], 9), P([[1], [0]], [9, 1], 9), P([[0], [1]], [2, 2], 0),
        P([[0, 1], [1]], [4, 3], 20, .3), P([[1], [1, 0]], [4, 3], 20), P([[0, 1], [0, 1]], [3, 4], 15),
        P([[0, 1], [1, 0]], [3, 4], 15, .4), P([[0], [0], [1]], [3, 4], 15), P([[1, 0], [0], [1]], [3, 4], 15),
        P([[0], [1], [2], [3], [4], [5], [6], [7]], [2] * 8, 30), P([[i] for i in range(12)], [1, 2, 1, 2, 1, 1, 2, 1, 1, 2, 1, 1], 12),
        P([[2, 1, 0], [3]], [2, 3, 2, 4], 25), P([[3, 1], [0, 2]], [2, 3, 2, 4], 25, .5), P([[0, 1], [1, 2], [2, 3], [3, 4]], [2, 3, 2, 3, 2], 40, .3),
        P([[0, 1, 2], [2, 3], [1, 4]], [2, 3, 2, 3, 2], 40, .3), P([[4, 0], [0, 3], [3, 2, 1]], [2, 2, 3, 2, 3], 33, .2),
        P([[0, 1], [1, 2], [2, 0]], [3, 3, 3], 30, .5), P([[0, 1], [1, 2], [2, 3], [3, 0]], [2, 2, 3, 2], 30, .6),
        P([[0], [1]], [60, 70], 50), P([[0], [1], [2]], [30, 2, 5], 64),
    ]
    for p in out:
        p["fam"] = "edge"
    return out


def trunc_cells(p, cap):
    return G.size(G.dims_of(p)) <= cap


def c01(ctx):
    ctx.mc("MCQis", cfg_mcqis(2 if ctx.quick else 3, not ctx.quick), name="Qis refines Alloc (all small problems)", timeout=800)
    ctx.build()
    rng = ctx.rng
    n = 260 if ctx.quick else 1500
    cases = []
    for p in edge_problems(rng):
        for api in ("py", "r"):
            cases.append(E.qis_case(len(cases), api, p, G.skips(rng)))
    for i in range(n):
        fam = FAMS[i % 4]
        p = G.problem(rng, fam, cap=300, popcap=rng.choice([20, 60, 300]), maxdim=rng.choice([3, 4, 5, 7]))
        cases.append(E.qis_case(len(cases), "r" if i % 5 == 0 else "py", p, G.skips(rng)))
    for i in range(12 if ctx.quick else 60):      # large populations and tables
        p = G.problem(rng, FAMS[i % 4], cap=6000 if i % 2 else 400, popcap=rng.choice([70000, 20000, 3000]), maxdim=4, big=True)
        cases.append(E.qis_case(len(cases), "r" if i % 4 == 3 else "py", p, G.skips(rng)))
    for i in range(45 if ctx.quick else 500):
        p = G.extreme(rng, rng.choice([6, 25, 120]), 1500, agree=False)
        cases.append(E.qis_case(len(cases), "r" if i % 5 == 4 else "py", p, G.skips(rng)))
    for i in range(16 if ctx.quick else 80):      # large populations that do not fit together: overdrawn at the very end
        d = [rng.randint(2, 3) for _ in range(3)]
        w = [rng.choice([0, 0, 1, 1, 3, 20]) if i % 2 else rng.randint(8, 10) for _ in range(G.size(d))]
        w[0] += 1
        t = [0] * len(w)
        for k in rng.choices(range(len(w)), w, k=rng.choice([1500, 5000, 34000, 40000, 68000])):
            t[k] += 1
        p = G.from_table(t, d, [[0, 1], [1, 2], [2, 0]])
        if i % 4 == 3:
            p = G.scramble(rng, p, 3)
        p["fam"] = "late"
        cases.append(E.qis_case(len(cases), "r" if i % 4 == 1 else "py", p, G.skips(rng)))
    for c in exhaustive_problems():
        cases.append(E.qis_case(len(cases), "py", c, 0))
    judge_alloc(ctx, cases, ("C01",))
    return ctx.finish(["marginal totals at most 70000, tables of at most 6000 cells, at most 12 dimensions",
                       "the exhaustive model covers populations up to the stated bound in 8 structures of 2-3 dimensions"])


def exhaustive_problems():
    """every problem of two small structures"""
    out = []
    for t in range(0, 4):
        for a in range(t + 1):
            for b in range(t + 1):
                out.append({"idx": [[0], [1]], "m": [{"d": [2], "v": [a, t - a]}, {"d": [2], "v": [b, t - b]}], "fam": "all"})
    def comps(k, s):
        return [[s]] if k == 1 else [[x] + r for x in range(s + 1) for r in comps(k - 1, s - x)]
    for t in range(1, 4):
        for x in comps(4, t):
            for y in comps(4, t):
                if [x[0] + x[1], x[2] + x[3]] == [y[0] + y[2], y[1] + y[3]] and [x[0] + x[2], x[1] + x[3]] == [y[0] + y[1], y[2] + y[3]]:
                    out.append({"idx": [[0, 1], [1, 0]], "m": [{"d": [2, 2], "v": x}, {"d": [2, 2], "v": y}], "fam": "all"})
    return out


def cfg_mcqis(maxpop, big3):
    return f"""SPECIFICATION Spec
CONSTANTS
  MaxPop = {maxpop}
  Big3 = {'TRUE' if big3 else 'FALSE'}
INVARIANTS TypeOK Total Conservation ConvCriterion OkCriterion Guaranteed
PROPERTIES Refines Terminates
CHECK_DEADLOCK FALSE
"""


def run_both(ctx, cases, timeout=30):
    for api in ("py", "r"):
        cs = [c for c in cases if c["api"] == api]
        if cs:
            ctx.run(api, cs, timeout=timeout)


def judge_alloc(ctx, cases, want):
    rng = ctx.rng
    run_both(ctx, cases)
    evs, neg = [], []
    for c in cases:
        out = E.outcome(c["out"][0])
        ctx.count(f"{c['api']} {c['p'].get('fam', '')} {out}".replace("  ", " "))
        if out in ("crash", "hang"):
            ctx.violation(f"{c['id']}: {out}", c)
            continue
        e = E.qis_event(c)
        evs.append(e)
        if "ok" in c["out"][0]:
            kinds = ["conv", "pop", "plus", "negative", "shape", "move"] if "C01" in want else ["error", "conv"]
            if "C01" in want and len(evs) % 4 == 0:
                k = kinds[(len(evs) // 4) % len(kinds)]
                if k == "move" and not e["conv"]:
                    k = "plus"
                if k == "move" and all(s == 1 for s in e["res"]["d"]):
                    k = "plus"
                x = E.corrupt(rng, e, k)
                if x:
                    neg.append(x)
            elif c.get("dec") and len(evs) % 6 == 0:
                neg.append(E.corrupt(rng, e, kinds[(len(evs) // 6) % 2]))
    bad = ctx.trace("TraceAlloc", evs, neg)
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        mine = [x for x in cl if x.split(":")[0] in want]
        if mine:
            c = by[i]
            ctx.violation(f"{i}: {' '.join(mine)}", {"case": c, "clauses": cl})
    for c in cases[::max(1, len(cases) // 5)]:
        if "ok" in c["out"][0]:
            o = c["out"][0]["ok"]
            ctx.sample({"api": c["api"], "idx": c["p"]["idx"], "marginals": [m["v"][:12] for m in c["p"]["m"]], "skips": c["skips"],
                        "result": o["res"]["v"][:24], "conv": o["st"]["conv"]})


def c02(ctx):
    ctx.mc("MCQis", cfg_mcqis(3, False) if ctx.quick else cfg_mcqis(4, True), name="Qis: decomposable problems never fail", timeout=800)
    ctx.mc("MCQis", cfg_mcqis(2, True).replace("INVARIANTS TypeOK Total Conservation ConvCriterion OkCriterion Guaranteed", "INVARIANTS NoFailure")
           .replace("PROPERTIES Refines Terminates\n", ""), expect_violation="NoFailure", name="Qis control: other problems can fail")
    ctx.build()
    rng = ctx.rng
    cases = []
    for p in edge_problems(rng):
        for api in ("py", "r"):
            cases.append(E.qis_case(len(cases), api, p, G.skips(rng), extra={"dec": api == "py"}))
    n = 320 if ctx.quick else 2500
    for i in range(n):
        fam = "rip" if i % 3 else "disjoint"
        p = G.problem(rng, fam, cap=rng.choice([60, 400]), popcap=rng.choice([15, 60, 500]), maxdim=rng.choice([3, 4, 5, 8]))
        api = "r" if i % 5 == 0 else "py"
        if api == "r":   # R lists marginals in reverse
            p = {"idx": p["idx"][::-1], "m": p["m"][::-1], "fam": p["fam"]}
        cases.append(E.qis_case(len(cases), api, p, G.skips(rng), extra={"dec": True}))
    for i in range(160 if ctx.quick else 1500):
        p = G.problem(rng, "tree", cap=rng.choice([100, 400]), popcap=rng.choice([15, 60, 150]), maxdim=rng.choice([4, 5, 6, 7]))
        if i % 6 == 0:
            p = {"idx": p["idx"][::-1], "m": p["m"][::-1], "fam": p["fam"]}
        cases.append(E.qis_case(len(cases), "r" if i % 6 == 0 else "py", p, G.skips(rng), extra={"dec": True}))
    for i in range(14 if ctx.quick else 80):
        p = G.problem(rng, "rip" if i % 2 else "disjoint", cap=5000 if i % 3 else 400, popcap=rng.choice([70000, 20000, 3000]), maxdim=4, big=True)
        cases.append(E.qis_case(len(cases), "py", p, G.skips(rng), extra={"dec": True}))
    for i in range(60 if ctx.quick else 600):
        p = G.extreme(rng, rng.choice([6, 25, 120]), 1000)
        if i % 5 == 4:
            p = {"idx": p["idx"][::-1], "m": p["m"][::-1], "fam": p["fam"]}
        cases.append(E.qis_case(len(cases), "r" if i % 5 == 4 else "py", p, G.skips(rng)))
    # the edge problems that are not decomposable just make no demand
    for c in cases[:2 * 21]:
        c["dec"] = False
    judge_alloc(ctx, cases, ("C02",))
    return ctx.finish(["marginal totals at most 70000, tables of at most 5000 cells"])


def c03(ctx):
    ctx.mc("MCQis", cfg_mcqis(2, False), name="Qis (all small problems)")
    ctx.build()
    rng = ctx.rng
    cases = []
    for p in edge_problems(rng):
        for api in ("py", "r"):
            cases.append(E.qis_case(len(cases), api, p, G.skips(rng)))
    n = 150 if ctx.quick else 1200
    for i in range(n):
        p = G.problem(rng, FAMS[i % 4], cap=200, popcap=rng.choice([15, 40, 90]), maxdim=rng.choice([3, 4, 5, 7]))
        cases.append(E.qis_case(len(cases), "r" if i % 4 == 0 else "py", p, G.skips(rng) if i % 9 else None))
    for i in range(40 if ctx.quick else 300):
        p = G.extreme(rng, rng.choice([4, 12, 25]), 800, agree=False)
        cases.append(E.qis_case(len(cases), "r" if i % 5 == 4 else "py", p, G.skips(rng) if i % 6 else None))
    for i in range(14 if ctx.quick else 100):
        p = G.dense(rng, rng.choice([64, 101, 128, 150, 256, 257, 300]), rng.randint(1, 3), rng.choice([1, 1, 2]))
        cases.append(E.qis_case(len(cases), "r" if i % 5 == 4 else "py", p, rng.choice([0, 0, 1, 3, 5, 17])))
    for i in range(8 if ctx.quick else 40):     # large skips, in R too
        p = G.problem(rng, FAMS[i % 4], cap=40, popcap=12, maxdim=3)
        cases.append(E.qis_case(len(cases), "r" if i % 2 else "py", p, rng.choice([32769, 65536, 65537, 70000, 131072, 131073, 200000, 300000, 2**19 + 1])))
    p = {"idx": [[1], [0]], "m": [{"d": [3], "v": [2, 3, 3]}, {"d": [2], "v": [4, 4]}], "fam": "far"}
    cases.append(E.qis_case(len(cases), "py", p, 2**31 + 3))
    for i in range(6 if ctx.quick else 30):     # longer runs, huge skips
        p = G.problem(rng, FAMS[i % 4], cap=60, popcap=600, maxdim=3)
        s = rng.choice([0, 2**20, 2**20 + 1, 3000000, 2**22 + 5])
        cases.append(E.qis_case(len(cases), "py", p, s))
    for i in range(8 if ctx.quick else 40):     # long runs
        d = G.sizes(rng, rng.choice([2, 2, 3, 4]), 24)
        pop = 66000 if i < 2 else rng.choice([1025, 2049, 3000, 4100, 5000] if ctx.quick else [4100, 8200, 20000])
        w = [rng.choice([0, 1, 1, 5, 60]) for _ in range(G.size(d))]
        w[-1] += 1
        t = rng.choices(range(len(w)), w, k=pop)
        t = [t.count(k) for k in range(len(w))]
        idx = [[j] for j in range(len(d))] if i % 2 or len(d) < 3 else [[0, 1]] + [[1, j] for j in range(2, len(d))]
        cases.append(E.qis_case(len(cases), "r" if i % 4 == 3 else "py", {**G.from_table(t, d, idx), "fam": "long"}, G.skips(rng)))
    run_both(ctx, cases, timeout=200)
    evs, neg = [], []
    for c in cases:
        out = E.outcome(c["out"][0])
        ctx.count(f"{c['api']} {c['p'].get('fam', '')} {out}".replace("  ", " "))
        if out in ("crash", "hang"):
            ctx.violation(f"{c['id']}: {out}", c)
            continue
        e = E.qis_event(c)
        evs.append(e)
        if out == "ok" and len(evs) % 8 == 0:
            k = ["move", "conv", "error"][(len(evs) // 8) % 3]
            x = E.corrupt(rng, e, k)
            if x:
                neg.append(x)
    bad = ctx.trace("TraceQis", evs, neg, consts="CONSTANT NDim = 12\n")
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        ctx.violation(f"{i}: {' '.join(cl)}", {"case": by[i], "clauses": cl})
    for c in cases[::max(1, len(cases) // 5)]:
        if "ok" in c["out"][0]:
            ctx.sample({"api": c["api"], "idx": c["p"]["idx"], "marginals": [m["v"][:12] for m in c["p"]["m"]], "skips": c["skips"],
                        "result": c["out"][0]["ok"]["res"]["v"][:24]})
    return ctx.finish(["replayed individual by individual for populations up to 600 (66000 in few cells) and up to 12 dimensions"])


def wide_problem(rng, pop):
    """many marginals and a large population in few cells"""
    nd = rng.randint(4, 11)
    d = [rng.choice([1, 2, 2, 3]) if rng.random() < .6 else 1 for _ in range(nd)]
    while G.size(d) > 60:
        d[rng.randrange(nd)] = 1
    idx = [[i] for i in range(nd)]
    if rng.random() < .6:      # overlapping ones as well
        idx += [rng.sample(range(nd), 2) for _ in range(rng.randint(1, 4))]
    rng.shuffle(idx)
    p = G.from_table(G.table(rng, d, rng.randint(pop // 2, pop)), d, idx)
    p["fam"] = "wide"
    return p


def c04(ctx):
    ctx.mc("MCExpect", f"SPECIFICATION Spec\nCONSTANT MaxPop = {4 if ctx.quick else 6}\nINVARIANT MarginalsExact\nCHECK_DEADLOCK FALSE\n",
           name="reference distribution has the marginals it was made from (all small disjoint problems)")
    ctx.build()
    rng = ctx.rng
    cases = []

    def add(p, api):
        sk = [0, G.skips(rng), G.skips(rng)]
        q = G.to_r(p) if api == "r" else p
        cases.append({"id": f"{api}{len(cases)}", "api": api, "p": q, "skips": sk,
                      "ops": [{"f": "qis", "idx": q["idx"], "m": q["m"], "skips": s} for s in sk]})
    for p in edge_problems(rng):
        for api in ("py", "r"):
            add(p, api)
    for i in range(110 if ctx.quick else 900):
        p = G.problem(rng, FAMS[i % 4], cap=rng.choice([60, 200]), popcap=rng.choice([15, 90, 2000]), maxdim=rng.choice([3, 4, 5, 7]))
        add(p, "r" if i % 4 == 1 else "py")
    for i in range(6 if ctx.quick else 40):
        p = G.problem(rng, FAMS[i % 4], cap=1500, popcap=60000, maxdim=4, big=True)
        add(p, "r" if i % 4 == 3 else "py")
    for i in range(24 if ctx.quick else 200):
        add(G.extreme(rng, 40, 500), "r" if i % 4 == 1 else "py")
    for i in range(10 if ctx.quick else 60):    # products of many large values
        add(wide_problem(rng, 30000 if i % 2 else 3000), "r" if i % 5 == 2 else "py")
    for i in range(2 if ctx.quick else 8):       # a single run of a vast population
        n = 2**24 + rng.randrange(1, 5 * 10**5, 2)
        t = [n // 2 - rng.randrange(10**6), rng.choice([1, 3, 77])]
        t += [n - sum(t)]
        p = G.from_table(t, [3], [[0]])
        u = rng.choice([1, 5, 10**6])
        p["idx"], p["m"] = ([[1], [0]], [{"d": [2], "v": [u, n - u]}] + p["m"]) if i % 2 else ([[0], [1]], p["m"] + [{"d": [2], "v": [n - u, u]}])
        cases.append({"id": f"py{len(cases)}-vast", "api": "py", "p": {**p, "fam": "vast"}, "skips": [0], "ops": [{"f": "qis", "idx": p["idx"], "m": p["m"], "skips": 0}]})
    run_both(ctx, cases, timeout=150)
    evs, neg = [], []
    for c in cases:
        outs = [E.outcome(o) for o in c["out"]]
        ctx.count(f"{c['api']} {c['p'].get('fam', '')}")
        if "crash" in outs or "hang" in outs:
            ctx.violation(f"{c['id']}: {outs}", c)
            continue
        runs = [{"exp": {"d": [int(x) for x in o["ok"]["st"]["expectation"]["d"]], "v": [fx(v) for v in o["ok"]["st"]["expectation"]["v"]]},
                 "pop": E.ints([o["ok"]["st"]["pop"]])[0]} for o in c["out"] if "ok" in o]
        if not runs:       # the sample may fail on contradictory problems
            continue
        e = {"id": c["id"], "api": c["api"], "p": {"idx": c["p"]["idx"], "m": [{"d": a["d"], "v": a["v"]} for a in c["p"]["m"]]}, "runs": runs}
        evs.append(e)
        if len(evs) % 5 == 0:
            x = E.copy.deepcopy(e)
            x["id"] = "~" + e["id"]
            r = x["runs"][-1]
            v = r["exp"]["v"]
            pos = [i for i in range(len(v)) if v[i]["m"] and len(v[i]["m"]) >= 3]
            k = len(evs) // 5 % 3
            if k == 0 or not pos:
                r["pop"] += 1
            elif k == 1:   # off by one part in 10^5
                i = rng.choice(pos)
                n = sum(d * 10000**j for j, d in enumerate(v[i]["m"]))
                v[i]["m"] = big(n + n // 100000 + 1)
            else:
                v[rng.choice(pos)] = {"s": 2, "m": []}
            neg.append(x)
    bad = ctx.trace("TraceExpect", evs, neg)
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        ctx.violation(f"{i}: {' '.join(sorted(set(cl)))}", {"case": by[i], "clauses": cl})
    for c in cases[::max(1, len(cases) // 4)]:
        if "ok" in c["out"][0]:
            ctx.sample({"api": c["api"], "idx": c["p"]["idx"], "marginals": [m["v"][:12] for m in c["p"]["m"]], "skips": c["skips"],
                        "expectation": c["out"][0]["ok"]["st"]["expectation"]["v"][:12]})
    return ctx.finish(["doubles compared with the exact fractions to a relative 1e-9 plus an absolute 2e-12",
                       "where no cell is possible at all (all products zero) the expectation is required to be zero"])
