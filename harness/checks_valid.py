"""C14: which problems are accepted."""
import copy, json, math, re
import gen as G, events as E
from lib import tlc, Machinery

FNS = ("ipf", "qis", "qisi")
CFG = "SPECIFICATION Spec\nCONSTANTS MaxEdits = %d\nINVARIANTS Reversible BasesFine Emit\nCHECK_DEADLOCK FALSE\n"


def word(n):
    return [n >> 16, n & 65535]


def unword(w):
    return w[0] * 65536 + w[1]


def case(i, api, q, badvalue=0, badseed=0, tags=""):
    idx = [[x + 1 for x in ix] for ix in q["idx"]] if api == "r" else q["idx"]
    ops = []
    for fn in FNS:
        op = {"f": fn, "idx": idx, "m": [{**a, "t": "f8" if fn == "ipf" else "i8"} for a in q["m"]]}
        if q.get("unit", 1) != 1:
            for a in op["m"]:
                a["v"] = [x / q["unit"] if isinstance(x, int) else x for x in a["v"]]
        if "mul" in q:
            for a in op["m"]:
                a["v"] = [x * q["mul"] for x in a["v"]]
        if fn != "qis":
            op["seed"] = {**q["seed"], "t": "f8"}
        if fn != "ipf" and (q["skips"] != [0, 0] or i % 2):
            op["skips"] = unword(q["skips"])
        ops.append(op)
    return {"id": f"{api}{i}{tags}", "api": api, "q": q, "ops": ops, "badvalue": badvalue, "badseed": badseed}


def event(c):
    outs = []
    for fn, o in zip(FNS, c["out"]):
        if o is None:
            continue
        e = {"fn": fn, "out": E.outcome(o)}
        if "ok" in o:
            e["shape"] = [int(x) for x in o["ok"]["res"]["d"]]
        outs.append(e)
    q = c["q"]
    clean = lambda a: {"d": a["d"], "v": [x if isinstance(x, int) else 0 for x in a["v"]]}
    return {"id": c["id"], "api": c["api"], "badvalue": c["badvalue"], "badseed": c["badseed"], "outs": outs,
            "q": {"unit": q.get("unit", 1), "idx": q["idx"], "m": [clean(a) for a in q["m"]], "seed": clean(q["seed"]), "skips": q["skips"]}}


def fault(rng, q):
    """one edit of a larger problem (it may stay well-formed); returns tags for what TLC integers cannot carry"""
    q = copy.deepcopy(q)
    bv = bs = 0
    k = rng.randrange(len(q["m"]))
    m, ix = q["m"][k], q["idx"][k]
    nd = len(q["seed"]["d"])
    r = rng.randrange(17)
    if r == 0:
        m["v"][rng.randrange(len(m["v"]))] += rng.choice([1, -1, 5])
    elif r == 1 and len(m["v"]) > 1:
        i, j = rng.sample(range(len(m["v"])), 2)
        m["v"][i] -= 1
        m["v"][j] += 1
    elif r == 2:
        i = rng.randrange(len(m["v"]))
        m["v"][i] = -1 - rng.randrange(3)
    elif r == 3:
        ix[rng.randrange(len(ix))] = rng.choice([-1, nd, nd + 1, 0, nd - 1, 100])
    elif r == 4:
        rng.shuffle(ix)
    elif r == 5:
        m["d"] = m["d"][::-1]
    elif r == 6:
        m["d"] = m["d"] + [1]
    elif r == 7:
        ix.append(rng.randrange(nd))
    elif r == 15 and rng.random() < .7:      # a dimension repeated, sizes and totals notwithstanding
        wide = [(i, y) for i, y in zip(q["idx"], q["m"]) if len(i) > 1]
        if wide:
            ix, m = rng.choice(wide)
            a, b = rng.sample(range(len(ix)), 2)
            if rng.random() < .5 and len(ix) > 2:
                a, b = 0, len(ix) - 1
            if m["d"][a] == m["d"][b] or rng.random() < .2:
                ix[a] = ix[b]
    elif r == 8:
        q["seed"]["d"] = q["seed"]["d"][::-1]
    elif r == 9:
        q["seed"]["d"] = q["seed"]["d"] + [1]
    elif r == 10:
        q["seed"]["v"][rng.randrange(len(q["seed"]["v"]))] = -1
    elif r == 11:
        q["seed"]["v"][rng.randrange(len(q["seed"]["v"]))] = rng.choice(["nan", "inf", "-inf"])
        bs = 1
    elif r == 12:
        q["skips"] = word(rng.choice([-1, 2**32, -2**20, 2**31 - 1 if False else 7]))
    elif r == 13:
        del q["m"][k]
        if rng.random() < .5:
            del q["idx"][k]
    elif r == 14:       # all dimension numbers shifted: a hole at 0
        q["idx"] = [[x + 1 for x in y] for y in q["idx"]]
    else:
        i = rng.randrange(len(m["v"]))
        m["v"][i] = rng.choice(["nan", "inf", "-inf"])
        bv = 1
    return q, bv, bs


def c14(ctx):
    depth = 2
    r = ctx.mc("MCValidate", CFG % depth, name=f"well-formedness: all problems within {depth} edits of six well-formed ones", timeout=800)
    ctx.mc("MCValidate", "SPECIFICATION Spec\nCONSTANTS MaxEdits = 1\nINVARIANT SomeRefused\nCHECK_DEADLOCK FALSE\n", expect_violation="SomeRefused", name="control")
    qs = [json.loads(json.loads(l)[5:]) for l in r["out"].splitlines() if l.startswith('"CASE ')]
    if len(qs) < 5000:
        raise Machinery("too few problems from the specification")
    qs.sort(key=lambda q: json.dumps(q))
    ctx.build()
    rng = ctx.rng
    cases = []
    py = rng.sample(qs, 2200) if ctx.quick else qs
    r_ = rng.sample(qs, 700) if ctx.quick else qs
    for q in py:
        cases.append(case(len(cases), "py", q))
    for q in r_:
        cases.append(case(len(cases), "r", q))
    # larger problems with zero or one fault
    for i in range(260 if ctx.quick else 4000):
        p = G.problem(rng, ["disjoint", "rip", "loop", "disjoint"][i % 4], cap=100, popcap=30, maxdim=5) if i % 6 else G.extreme(rng, 30, 300)
        d = G.dims_of(p)
        q = {"idx": copy.deepcopy(p["idx"]), "m": [{"d": a["d"][:], "v": a["v"][:]} for a in p["m"]], "seed": {"d": d[:], "v": [rng.randint(1, 3) for _ in range(G.size(d))]},
             "skips": word(rng.choice([0, 0, 5, 70000]))}
        bv = bs = 0
        if i % 3:
            q, bv, bs = fault(rng, q)
        cases.append(case(len(cases), "r" if i % 4 == 1 else "py", q, bv, bs, "-big"))
    # vast populations, and fractional marginals, consistent or wrong by little; sampling them takes too long if they are accepted
    for i in range(150 if ctx.quick else 1500):
        p = G.problem(rng, ["rip", "rip", "loop", "disjoint"][i % 4], cap=24, popcap=20, maxdim=4)
        d = G.dims_of(p)
        nd = len(d)
        top = rng.choice([10**5, 10**6, 10**7, 10**8, 2 * 10**9])
        w = [rng.randint(1, 9) for _ in range(G.size(d))]
        t = [x * (top // sum(w)) for x in w]
        q = {**G.from_table(t, d, copy.deepcopy(p["idx"])), "seed": {"d": d[:], "v": [1] * len(t)}, "skips": [0, 0]}
        q["unit"] = rng.choice([1, 1, 1024]) if i % 3 else 1
        m = rng.choice(q["m"])
        k = rng.randrange(4)
        if k and len(m["v"]) > 1:
            a, b = rng.sample(range(len(m["v"])), 2)
            e = rng.choice([1, 1, 7, 300])
            m["v"][a] -= e
            if k > 1:
                m["v"][b] += e
        if q["unit"] == 1 and i % 4 != 1 and rng.random() < .3:      # verdicts do not depend on the scale
            q["mul"] = rng.choice([2, 5, 100, 1024, 2**20])
        if q["unit"] > 1 and any(2 * (sum(x["v"]) % q["unit"]) == q["unit"] for x in q["m"]):
            continue
        c = case(len(cases), "r" if i % 4 == 1 else "py", q, tags="-vast")
        sums = [G.reduce_(y["v"], y["d"], [x.index(j)]) for j in range(nd) for x, y in zip(q["idx"], q["m"]) if j in x]
        names = [j for j in range(nd) for x in q["idx"] if j in x]
        wrong = len({sum(y["v"]) for y in q["m"]}) > 1 or any(a == b and x != y for a, x in zip(names, sums) for b, y in zip(names, sums))
        if q["unit"] > 1 or not wrong and top > 10**5:
            c["ops"] = c["ops"][:1]
        elif c["api"] == "r" and top > 10**9:
            c["ops"] = c["ops"][:1]
        cases.append(c)
    # a dimension repeated in a marginal of a problem that is otherwise consistent: everything is constant
    for i in range(40 if ctx.quick else 300):
        d = [rng.choice([1, 2, 2, 3, 4]) for _ in range(rng.randint(2, 4))]
        ixs = [rng.sample(range(len(d)), rng.randint(1, min(3, len(d)))) for _ in range(rng.randint(1, 3))]
        k = rng.randrange(len(ixs))
        a = ixs[k][0] if rng.random() < .7 or len(ixs[k]) < 2 else ixs[k][1]
        ixs[k].insert(rng.choice([len(ixs[k]), len(ixs[k]), rng.randint(0, len(ixs[k]))]), a)
        ixs += [[x] for x in range(len(d)) if not any(x in y for y in ixs)]
        rng.shuffle(ixs)
        tot = 1
        for y in ixs:
            tot = math.lcm(tot, math.prod(d[x] for x in y))
        if tot > 5000:
            continue
        q = {"idx": ixs, "m": [{"d": [d[x] for x in y], "v": [tot // math.prod(d[x] for x in y)] * math.prod(d[x] for x in y)} for y in ixs],
             "seed": {"d": d, "v": [1] * math.prod(d)}, "skips": [0, 0]}
        cases.append(case(len(cases), "r" if i % 4 == 1 else "py", q, tags="-again"))
    for c in cases:       # integers cannot be non-finite
        if c["badvalue"]:
            c["ops"] = [c["ops"][0]]
    ctx.run("py", [c for c in cases if c["api"] == "py"])
    ctx.run("r", [c for c in cases if c["api"] == "r"])
    evs, neg = [], []
    for c in cases:
        if any(E.outcome(o) in ("crash", "hang") for o in c["out"]):
            ctx.violation(f"{c['id']}: {E.outcome(c['out'][-1])}", c)
            continue
        e = event(c)
        evs.append(e)
        for o in e["outs"]:
            ctx.count(f"{c['api']} {o['fn']} {o['out']}")
        if len(evs) % 9 == 0:
            x = copy.deepcopy(e)
            x["id"] = "~" + e["id"]
            o = rng.choice(x["outs"])
            if o["out"] == "err":       # refusals that may have been stuck allocations are not certain
                if o["fn"] != "ipf" and not any(y["fn"] == "ipf" and y["out"] == "err" for y in x["outs"]):
                    continue
                if o["fn"] == "qis" and (c["badseed"] or c["q"]["seed"]["d"] != sorted(c["q"]["seed"]["d"])):
                    continue
                if o["fn"] != "ipf":
                    continue
                o["out"], o["shape"] = "ok", c["q"]["seed"]["d"]
            elif o["fn"] == "ipf":
                o["out"] = "err"
                o.pop("shape")
            else:
                o["shape"] = o["shape"] + [1]
            neg.append(x)
    bad = ctx.trace("TraceValidate", evs, neg)
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        ctx.violation(f"{i}: {' '.join(cl)} {json.dumps(by[i]['q'])[:250]}", {"case": by[i], "clauses": cl})
    for e in evs[:6]:
        ctx.sample(e)
    return ctx.finish(["acceptance is demanded of qis and qisi where the allocation cannot get stuck (decomposable; disjoint with positive seed)",
                       "skips above 2^20 are only posed as out-of-range values"])
