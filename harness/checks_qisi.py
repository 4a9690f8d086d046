"""C07, C08: quasirandom sampling of a fitted distribution."""
import copy
import gen as G, events as E
from lib import big, fx
from checks_qis import FAMS, run_both
from checks_ipf import me24
from checks_int import swaps


def qisi_case(i, api, p, d, seed, skips, with_ipf=True, t="i8"):
    q = G.to_r(p) if api == "r" else p
    op = {"f": "qisi", "seed": {"d": d, "v": seed, "t": "f8"}, "idx": q["idx"], "m": q["m"]}
    if skips is not None:
        op["skips"] = skips
    ops = [op]
    if with_ipf:
        ops.append({"f": "ipf", "seed": {"d": d, "v": seed, "t": "f8"}, "idx": q["idx"], "m": [{**a, "t": "f8"} for a in q["m"]]})
    return {"id": f"{api}{i}", "api": api, "p": q, "skips": skips or 0, "seed": {"d": d, "v": seed}, "ops": ops}


def qisi_event(c, full=True):
    o = c["out"][0]
    e = E.qis_event(c)
    if full:
        e["zero"] = [int(x == 0) for x in c["seed"]["v"]]
        if "ok" in o:
            x = o["ok"]["st"]["expectation"]
            e["exp"] = {"d": [int(y) for y in x["d"]], "v": [fx(y) for y in x["v"]]}
            r = c["out"][1]
            e["ipf"] = [fx(y) for y in r["ok"]["res"]["v"]] if "ok" in r else []
    else:
        e["seed"] = {"d": c["seed"]["d"], "v": [me24(y) for y in c["seed"]["v"]]}
    return e


MCQISI = """SPECIFICATION Spec
CONSTANTS
 MaxPop = {}
 Zeros = {}
INVARIANTS {}
{}CHECK_DEADLOCK FALSE
"""
INV = "TypeOK Total Conservation ConvCriterion FitMatchesResiduals GuaranteedFit ZeroCellsEmpty"
PROPS = "PROPERTIES Refines Terminates\n"


def seeds(rng, d, t, style):
    N = G.size(d)
    if style == 0:
        return [1.0] * N
    if style == 1:
        return [rng.choice([1.0, 2.0, .5, 3.0]) for _ in range(N)]
    if style == 2:
        return [round(rng.random() * 4 + .05, 3) for _ in range(N)]
    if style == 3:   # zero where the table is zero
        return [round(rng.random() * 4 + .05, 3) if x else 0.0 for x in t]
    if style == 4:
        return [0.0 if rng.random() < .3 else round(rng.random() * 4 + .05, 3) for _ in range(N)]
    return [float(x) for x in t]


def qisi_problem(rng, fam, cap, popcap, maxdim):
    p = G.problem(rng, fam, cap=cap, popcap=popcap, maxdim=maxdim)
    return p, G.dims_of(p)


def table_of(rng, p, d):
    # any table will do for placing seed zeros; feasible problems are made separately
    return G.table(rng, d, sum(p["m"][0]["v"]), .3)


def c07(ctx):
    ctx.mc("MCQisi", MCQISI.format(2 if ctx.quick else 3, "TRUE", INV, PROPS), name="Qisi refines Alloc (all small problems)", timeout=800)
    ctx.build()
    rng = ctx.rng
    cases = []
    n = 230 if ctx.quick else 2500
    for i in range(n):
        fam = FAMS[i % 4]
        maxdim = rng.choice([2, 3, 4, 5])
        style = rng.randrange(6)
        if style in (3, 5):    # feasible: marginals of a table, seed positive exactly where the table is
            nd = rng.randint(2, maxdim)
            idx = G.disjoint_structure(rng, nd) if i % 2 else G.loop_structure(rng, max(3, nd))
            nd = max(x for ix in idx for x in ix) + 1
            d = G.sizes(rng, nd, 80)
            t = G.table(rng, d, rng.randint(0, rng.choice([10, 60])), rng.choice([0, .3, .6]))
            p = G.from_table(t, d, idx)
            p["fam"] = "feasible"
            if len(idx) < 2:
                continue
        else:
            p, d = qisi_problem(rng, fam, rng.choice([30, 120]), rng.choice([8, 40, 120]), maxdim)
            t = table_of(rng, p, d)
        s = seeds(rng, d, t, style)
        if not any(s):
            s[0] = 1.0
        cases.append(qisi_case(len(cases), "r" if i % 4 == 0 else "py", p, d, s, G.skips(rng) if i % 7 else None))
    for i in range(40 if ctx.quick else 400):
        p = G.extreme(rng, rng.choice([6, 25, 60]), 500, agree=False)
        d = G.dims_of(p)
        s = seeds(rng, d, [], rng.choice([0, 1, 2, 2, 4]))
        if not any(s):
            s[0] = 1.0
        cases.append(qisi_case(len(cases), "r" if i % 4 == 0 else "py", p, d, s, G.skips(rng) if i % 7 else None))
    for i in range(10 if ctx.quick else 80):      # large populations and tables
        p, d = qisi_problem(rng, FAMS[i % 4], 3000 if i % 2 else 60, rng.choice([300, 600]) if i % 2 else rng.choice([2000, 5000]), 4)
        cases.append(qisi_case(len(cases), "r" if i % 4 == 0 else "py", p, d, seeds(rng, d, [], rng.choice([0, 1, 4])), G.skips(rng) if i % 7 else None))
    run_both(ctx, cases, timeout=100)
    evs, neg = [], []
    kinds = ["conv", "pop", "plus", "negative", "shape", "zero", "exp"]
    for c in cases:
        out = E.outcome(c["out"][0])
        ctx.count(f"{c['api']} {c['p'].get('fam', '')} {out}" + (" conv" if out == "ok" and c["out"][0]["ok"]["st"]["conv"] else ""))
        if out in ("crash", "hang"):
            ctx.violation(f"{c['id']}: {out}", c)
            continue
        e = qisi_event(c)
        evs.append(e)
        if out == "ok" and len(evs) % 4 == 0:
            k = kinds[(len(evs) // 4) % len(kinds)]
            if k == "zero":
                zs = [i for i, z in enumerate(e["zero"]) if z]
                src = [i for i, x in enumerate(e["res"]["v"]) if x > 0]
                if not zs or not src:
                    continue
                x = copy.deepcopy(e)
                x["id"] = "~" + e["id"]
                x["res"]["v"][rng.choice(src)] -= 1
                x["res"]["v"][rng.choice(zs)] += 1
            elif k == "exp":
                x = copy.deepcopy(e)
                x["id"] = "~" + e["id"]
                i = rng.randrange(len(x["exp"]["v"]))
                x["exp"]["v"][i] = {"s": 0, "m": big(sum(q * 10000**j for j, q in enumerate(x["exp"]["v"][i]["m"])) * 2 + 10**9)}
            else:
                x = E.corrupt(rng, e, k)
            if x:
                neg.append(x)
    bad = ctx.trace("TraceAlloc", evs, neg)
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        mine = [x for x in cl if x.startswith("C07")]
        if mine:
            ctx.violation(f"{i}: {' '.join(mine)}", {"case": by[i], "clauses": cl})
    for c in cases[::max(1, len(cases) // 5)]:
        if "ok" in c["out"][0]:
            o = c["out"][0]["ok"]
            ctx.sample({"api": c["api"], "idx": c["p"]["idx"], "marginals": [m["v"][:12] for m in c["p"]["m"]], "seed": c["seed"]["v"][:12],
                        "skips": c["skips"], "result": o["res"]["v"][:24], "conv": o["st"]["conv"]})
    return ctx.finish(["populations up to 5000, tables up to 3000 cells", "expectation compared with what ipf returns on the same input (ipf itself is the subject of C05 and C06)"])


def c08(ctx):
    ctx.mc("MCQisi", MCQISI.format(2 if ctx.quick else 4, "FALSE", INV, PROPS), name="Qisi with positive seed and disjoint marginals never fails", timeout=800)
    ctx.mc("MCQisi", MCQISI.format(1, "TRUE", "AlwaysFits", ""), expect_violation="AlwaysFits", name="control: with zeros in the seed it can")
    ctx.build()
    rng = ctx.rng
    cases, guar = [], []
    n = 130 if ctx.quick else 1200
    for i in range(n):
        fam = "disjoint" if i % 4 else rng.choice(["rip", "loop"])
        p, d = qisi_problem(rng, fam, rng.choice([8, 24]), rng.choice([5, 12, 25]), rng.choice([2, 3, 4]))
        style, t = rng.choice([0, 1, 1, 2, 2, 4, 6, 6]), None
        if style == 6:      # fitted values close to whole individuals: a population with one or two hundredths moved about
            nd = rng.choice([2, 2, 3])
            d = [rng.randint(2, 3) for _ in range(nd)] if nd == 2 or not ctx.quick else rng.choice([[2, 2, 2], [2, 2, 3], [3, 2, 2], [2, 3, 2]])
            t = [x + 1 for x in G.table(rng, d, rng.randint(0, 8), 0)]
            p = {**G.from_table(t, d, [[k] for k in rng.sample(range(nd), nd)]), "fam": "blurred"}
            t = [round(x, 6) for x in swaps(rng, d, [float(x) for x in t], 2 * len(t), lambda: rng.choice([.01, .005]))]
            style = 5
        s = seeds(rng, d, t or table_of(rng, p, d), style)
        if not any(s):
            s[0] = 1.0
        cases.append(qisi_case(len(cases), "r" if i % 4 == 3 else "py", p, d, s, G.skips(rng) if i % 5 else None, with_ipf=False))
    for i in range(8 if ctx.quick else 40):     # large skips, in R too
        p, d = qisi_problem(rng, "disjoint", 12, 10, 3)
        cases.append(qisi_case(len(cases), "r" if i % 2 else "py", p, d, seeds(rng, d, [], rng.choice([0, 1])),
                               rng.choice([32769, 65536, 65537, 70000, 131072, 131073, 200000, 300000, 2**19 + 1]), with_ipf=False))
    for i in range(16 if ctx.quick else 200):
        p = G.extreme(rng, 8, 120, 8)
        d = G.dims_of(p)
        s = seeds(rng, d, [], rng.choice([0, 1, 1, 2]))
        cases.append(qisi_case(len(cases), "r" if i % 4 == 3 else "py", p, d, s, G.skips(rng) if i % 5 else None, with_ipf=False))
    for i in range(5 if ctx.quick else 60):     # long runs in few cells
        nd = rng.choice([2, 2, 3])
        d = [rng.randint(2, 3) for _ in range(nd)] if nd == 2 or not ctx.quick else [2, 2, 2]
        t = G.table(rng, d, rng.choice([130, 260] if ctx.quick else [260, 520, 1100]), rng.choice([0, .3]))
        p = {**G.from_table(t, d, [[k] for k in rng.sample(range(nd), nd)]), "fam": "long"}
        s = seeds(rng, d, t, 2)      # generic: fitted values are seldom whole, and every such tie is followed both ways
        cases.append(qisi_case(len(cases), "r" if i % 4 == 3 else "py", p, d, s, G.skips(rng) if i % 5 else None, with_ipf=False))
    # the guarantee alone, on larger problems
    for i in range(60 if ctx.quick else 600):
        p, d = qisi_problem(rng, "disjoint", rng.choice([60, 200]), rng.choice([40, 150]), rng.choice([3, 4, 5, 6]))
        s = seeds(rng, d, table_of(rng, p, d), rng.choice([0, 1, 2]))
        guar.append(qisi_case(10000 + i, "r" if i % 4 == 3 else "py", p, d, s, G.skips(rng) if i % 5 else None, with_ipf=False))
    run_both(ctx, cases + guar, timeout=60)
    evs, neg = [], []
    for c in cases + guar:
        out = E.outcome(c["out"][0])
        ctx.count(f"{c['api']} {c['p'].get('fam', '')} {out}")
        if out in ("crash", "hang"):
            ctx.violation(f"{c['id']}: {out}", c)
            continue
        if c in guar:
            if out != "ok" or not c["out"][0]["ok"]["st"]["conv"]:
                ctx.violation(f"{c['id']}: C08:positive seed and disjoint marginals, but {out}, conv false", c)
            continue
        e = qisi_event(c, full=False)
        evs.append(e)
        if out == "ok" and len(evs) % 6 == 0:
            x = E.corrupt(rng, e, ["move", "conv"][(len(evs) // 6) % 2])
            if x:
                neg.append(x)
    bad = ctx.trace("TraceQisi", evs, neg, consts="CONSTANT NDim = 8\n", exists="C08:no-behaviour-ends-in-this-result", shards=8)
    for i, note in ctx.accept_notes.items():
        ctx.count("accepted at " + note)
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        ctx.violation(f"{i}: {' '.join(cl)}", {"case": by[i], "clauses": cl})
    for c in cases[::max(1, len(cases) // 5)]:
        if "ok" in c["out"][0]:
            o = c["out"][0]["ok"]
            ctx.sample({"api": c["api"], "idx": c["p"]["idx"], "marginals": [m["v"][:12] for m in c["p"]["m"]], "seed": c["seed"]["v"][:12],
                        "skips": c["skips"], "result": o["res"]["v"][:24], "conv": o["st"]["conv"]})
    return ctx.finish(["a point within 2^-26 of a boundary, or a fitted value within 1e-7 of an integer step, may go either way"])
