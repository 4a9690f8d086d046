"""C05, C06: iterative proportional fitting."""
import copy, math
from fractions import Fraction
import gen as G, events as E
from checks_int import swaps
from lib import big, fx, Machinery


def me24(x):
    """a non-negative double in units of 10^-24"""
    x = float(x)
    if not math.isfinite(x) or x < 0:
        return []
    f = Fraction(x) * 10**24
    return big(f.numerator // f.denominator)


def ipf_case(i, api, idx, m, seed, extra):
    ridx = [[k + 1 for k in ix] for ix in idx] if api == "r" else idx
    c = {"id": f"{api}{i}", "api": api, "idx": ridx, "m": m, "seed": seed,
         "ops": [{"f": "ipf", "seed": {**seed, "t": "f8"}, "idx": ridx, "m": [{**a, "t": "f8"} for a in m]}]}
    c.update(extra)
    return c


def sfx(v, scale=0):
    return fx(v)


def seed24(v):
    """seed values as magnitudes; only the ratios matter to the specification, so units of 10^-24"""
    return {"s": 0, "m": me24(v)}


def ipf_event(c):
    o = c["out"][0]
    e = {"id": c["id"], "api": c["api"], "kind": c["kind"], "idx": c["idx"], "mayfail": False, "out": E.outcome(o),
         "m": [{"d": a["d"], "v": [fx(x) for x in a["v"]]} for a in c["m"]],
         "seed": {"d": c["seed"]["d"], "v": [seed24(x) if math.isfinite(x) and 1e-18 < x < 1e18 else {"s": 0, "m": big(int(x > 0))} for x in c["seed"]["v"]]}}
    for k in ("iseed", "fac", "den"):
        if k in c:
            e[k] = c[k]
    if "ok" in o:
        r, st = o["ok"]["res"], o["ok"]["st"]
        e["res"] = {"d": [int(x) for x in r["d"]], "v": [fx(x) for x in r["v"]]}
        e["conv"] = st["conv"]
        e["pop"] = E.ints([st["pop"]])[0]
        e["iters"] = E.ints([st["iterations"]])[0]
        e["me"] = fx(st["maxError"])
        e["me24"] = me24(st["maxError"])
    return e


def bigint(limbs):
    return sum(d * 10000**j for j, d in enumerate(limbs))


def corrupt_ipf(rng, e, what):
    x = copy.deepcopy(e)
    x["id"] = "~" + e["id"] + "-" + what
    v = x["res"]["v"]
    pos = [i for i in range(len(v)) if len(v[i]["m"]) >= 3]
    if what == "conv":
        x["conv"] = not x["conv"]
    elif what == "pop":
        x["pop"] += 1
    elif what == "iters":
        x["iters"] = 1001
    elif what == "me":
        x["me"] = {"s": 0, "m": big(bigint(x["me"]["m"]) + 10**6)}
    elif what == "nan":
        v[0] = {"s": 2, "m": []}
    elif what == "cell" and pos:
        i = rng.choice(pos)
        n = bigint(v[i]["m"])
        v[i]["m"] = big(n + n // 500 + 10**9)
    elif what == "zero" and pos:
        v[rng.choice(pos)] = {"s": 0, "m": []}
    elif what == "shape":
        x["res"]["d"] = x["res"]["d"] + [1]
    else:
        return None
    return x


def any_structure(rng, maxdim=4):
    fam = rng.choice(["disjoint", "rip", "loop", "any"])
    while True:
        nd = rng.randint(2, maxdim)
        if fam == "disjoint":
            idx = G.disjoint_structure(rng, nd)
        elif fam == "rip":
            idx = G.rip_structure(rng, nd, rng.randint(2, min(4, nd + 1)))
        else:
            nd = max(3, nd) if fam == "loop" else nd
            idx = G.loop_structure(rng, nd)
        if len(idx) >= 2 and {i for ix in idx for i in ix} == set(range(nd)):
            return fam, nd, idx


def float_m(ms, den=1):
    return [{"d": a["d"], "v": [x / den for x in a["v"]]} for a in ms]


def many_structure(rng):
    """seven marginals or more, each indispensable"""
    nd = rng.randint(7, 9)
    d = [2] * rng.randint(4, 7)
    d = (d + [1] * nd)[:nd]
    if rng.random() < .5:
        d[rng.randrange(nd)] = 3
    rng.shuffle(d)
    idx = [[i] for i in rng.sample(range(nd), nd)]
    if nd > 7 and rng.random() < .6:
        idx[-1] = idx[-1] + idx.pop(rng.randrange(nd - 1))
    return "many", idx, d


def witness(rng, cap, zeros, maxdim=4, facmax=4):
    if cap == "many":
        fam, idx, d = many_structure(rng)
        facmax = 3
    elif maxdim:
        fam, nd, idx = any_structure(rng, maxdim)
        d = G.sizes(rng, nd, cap)
    else:
        p = G.extreme(rng, 1, cap)
        fam, idx, d = "extreme", p["idx"], G.dims_of(p)
        facmax = 2 if len(idx) > 6 else facmax
    n = G.size(d)
    while True:
        iseed = [0 if rng.random() < zeros else rng.randint(1, rng.choice([1, 3, 9])) for _ in range(n)]
        if any(iseed):
            break
    fac, x = [], iseed[:]
    for ix in idx:
        sd = [d[i] for i in ix]
        f = [rng.randint(1, facmax) for _ in range(G.size(sd))]
        fac.append(f)
        s = G.strides(sd)
        for c in range(n):
            co = G.coord(d, c)
            x[c] *= f[sum(co[i] * w for i, w in zip(ix, s))]
    den = rng.choice([1, 1, 2, 8, 64])
    if sum(x) % den and rng.random() < .5:
        den = 1
    m = float_m([G.reduce_(x, d, ix) for ix in idx], den)
    return fam, idx, d, iseed, fac, den, m


def relabel(rng, d, idx, iseed, fac, m):
    """the same problem with dimensions renumbered, marginals and their dimensions reordered"""
    nd = len(d)
    perm = list(range(nd))
    rng.shuffle(perm)                 # old dimension i becomes perm[i]
    d2 = [0] * nd
    for i in range(nd):
        d2[perm[i]] = d[i]
    n = G.size(d)
    s2 = G.strides(d2)
    seed2 = [0] * n
    for c in range(n):
        co = G.coord(d, c)
        seed2[sum(co[i] * s2[perm[i]] for i in range(nd))] = iseed[c]
    order = list(range(len(idx)))
    rng.shuffle(order)
    idx2, fac2, m2 = [], [], []
    for j in order:
        ix = idx[j]
        o = list(range(len(ix)))
        rng.shuffle(o)                # position order within the marginal
        sd = [d[i] for i in ix]
        nsd = [sd[p] for p in o]
        ns = G.strides(nsd)
        f, v = [0] * len(fac[j]), [0] * len(fac[j])
        for c in range(len(f)):
            co = G.coord(sd, c)
            t = sum(co[p] * w for p, w in zip(o, ns))
            f[t] = fac[j][c]
            v[t] = m[j]["v"][c]
        idx2.append([perm[ix[p]] for p in o])
        fac2.append(f)
        m2.append({"d": nsd, "v": v})
    return d2, idx2, seed2, fac2, m2


MCIPF = "SPECIFICATION Spec\nCONSTANTS\n SeedMax = {}\n FacMax = {}\n Sweeps = 60\nINVARIANTS ZerosKept JustFitted Converges OddsKept\nCHECK_DEADLOCK FALSE\n"


def judge(ctx, cases, want, kinds, every=5):
    for api in ("py", "r"):
        cs = [c for c in cases if c["api"] == api]
        if cs:
            ctx.run(api, cs)
    evs, neg = [], []
    for c in cases:
        out = E.outcome(c["out"][0])
        st = c["out"][0].get("ok", {}).get("st", {})
        ctx.count(f"{c['api']} {c['kind']} {c['fam']} {out}" + (" conv" if st.get("conv") else ""))
        if out in ("crash", "hang"):
            ctx.violation(f"{c['id']}: {out}", c)
            continue
        e = ipf_event(c)
        if c["kind"] == "replay":
            if out == "ok" and e["iters"] > 40:
                continue
        evs.append(e)
        if out == "ok" and len(evs) % every == 0:
            k = kinds[(len(evs) // every) % len(kinds)]
            if c["kind"] == "replay" and k in ("conv",) and not e["conv"]:
                continue
            if k == "me" and e["me"]["s"] != 0:
                continue
            x = corrupt_ipf(ctx.rng, e, k)
            if x:
                neg.append(x)
    bad = ctx.trace("TraceIpf", evs, neg)
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        if any(x.startswith("GEN") for x in cl):
            raise Machinery(f"the generated solution of {i} is not one")
        ctx.violation(f"{i}: {' '.join(cl)}", {"case": by[i], "clauses": cl})
    for c in cases[::max(1, len(cases) // 5)]:
        if "ok" in c["out"][0]:
            o = c["out"][0]["ok"]
            ctx.sample({"api": c["api"], "kind": c["kind"], "idx": c["idx"], "seed": c["seed"]["v"][:12], "marginals": [m["v"][:8] for m in c["m"]],
                        "result": o["res"]["v"][:12], "conv": o["st"]["conv"], "iterations": o["st"]["iterations"], "maxError": o["st"]["maxError"]})


def c05(ctx):
    ctx.mc("MCIpf", MCIPF.format(1 if ctx.quick else 2, 2), name="Ipf on all small problems with a known solution")
    ctx.build()
    rng = ctx.rng
    cases = []
    n = 240 if ctx.quick else 2500
    for i in range(n):
        fam, nd, idx = any_structure(rng, rng.choice([3, 4, 5]))
        d = G.sizes(rng, nd, rng.choice([20, 80]))
        N = G.size(d)
        style = i % 8
        pop = rng.choice([0, 1, 7, 100, 3000, 100000])
        t = G.table(rng, d, pop, rng.choice([0, 0, .4]))
        seed = [rng.choice([1.0, rng.random() + .05, rng.random() * 10]) for _ in range(N)]
        ms = float_m([G.reduce_(t, d, ix) for ix in idx])
        if style == 1:       # zeros in the seed: often infeasible
            seed = [0.0 if rng.random() < rng.choice([.2, .6]) else s for s in seed]
        elif style == 2:     # fractional marginals
            f = rng.choice([.125, .3, 1.0 / 3, 7.77])
            ms = [{"d": a["d"], "v": [x * f for x in a["v"]]} for a in ms]
            if abs((sum(ms[0]["v"]) % 1) - .5) < 1e-3:
                style = 9
                ms = float_m([G.reduce_(t, d, ix) for ix in idx])
        elif style == 3:     # extreme seeds
            sc = rng.choice([1e-300, 1e-310, 1e300, 1e-8, 1e8])
            seed = [s * sc for s in seed]
            if rng.random() < .4:
                seed = [s if rng.random() < .5 else s / sc for s in seed]
        elif style == 4:     # zeros where the table has them, too (feasible, sparse)
            seed = [s if x else 0.0 for s, x in zip(seed, t)]
        elif style == 5:     # contradictory beyond one dimension
            p = G.scramble(rng, {"idx": idx, "m": [G.reduce_(t, d, ix) for ix in idx]}, nd)
            ms = float_m(p["m"])
        elif style == 6:     # almost converging slowly: nearly decomposed seeds
            seed = [rng.choice([1.0, 1e-4, 1e-7]) for _ in range(N)]
        elif style == 7:     # all-zero seed, or all-zero marginals
            if rng.random() < .5:
                seed = [0.0] * N
        api = "r" if i % 5 == 0 else "py"
        cases.append(ipf_case(len(cases), api, idx, ms, {"d": d, "v": seed}, {"kind": "report", "fam": fam}))
    for i in range(40 if ctx.quick else 400):
        p = G.extreme(rng, rng.choice([30, 1000]), 600)
        d = G.dims_of(p)
        seed = [rng.choice([1.0, rng.random() + .05, rng.random() * 10]) for _ in range(G.size(d))]
        if i % 4 == 1:
            seed = [0.0 if rng.random() < .2 else x for x in seed]
        cases.append(ipf_case(len(cases), "r" if i % 5 == 0 else "py", p["idx"], float_m(p["m"]), {"d": d, "v": seed}, {"kind": "report", "fam": "extreme"}))
    for i in range(40 if ctx.quick else 400):      # many marginals, often contradictory
        p = G.extreme(rng, rng.choice([8, 30, 1000]), 80, kind=3)
        d = G.dims_of(p)
        ms = float_m(p["m"])
        for a in ms:
            if rng.random() < .5 and len(a["d"]) > 1:      # moved about without changing any one-dimensional total
                swaps(rng, a["d"], a["v"], 3, lambda: rng.choice([.5, 1, 4, 25]))
        cases.append(ipf_case(len(cases), "r" if i % 5 == 0 else "py", p["idx"], ms, {"d": d, "v": [rng.choice([1.0, rng.random() + .05]) for _ in range(G.size(d))]},
                              {"kind": "report", "fam": "many"}))
    judge(ctx, cases, ("C05",), ["conv", "pop", "iters", "me", "nan", "shape"])
    return ctx.finish(["maxError is recomputed by the specification to within the rounding of double-precision sums"])


def c06(ctx):
    ctx.mc("MCIpf", MCIPF.format(1 if ctx.quick else 2, 2), name="Ipf converges to the known solution on all small problems")
    ctx.mc("MCUnique", f"SPECIFICATION Spec\nCONSTANTS\n Top2 = {5 if ctx.quick else 8}\n Top3 = {2 if ctx.quick else 3}\nINVARIANT Unique\nCHECK_DEADLOCK FALSE\n",
           name="the fitted array is unique (small tables)")
    ctx.mc("MCUnique", "SPECIFICATION Spec\nCONSTANTS\n Top2 = 3\n Top3 = 2\nINVARIANT Determined\nCHECK_DEADLOCK FALSE\n", expect_violation="Determined",
           name="control: marginals alone do not determine the array")
    ctx.build()
    rng = ctx.rng
    cases = []
    for i in range(70 if ctx.quick else 700):
        fam, idx, d, iseed, fac, den, m = witness(rng, "many" if i % 9 == 4 else rng.choice([12, 60]) if i % 4 else 300, rng.choice([0, 0, .15, .4]), rng.choice([3, 4, 5]) if i % 4 else 0)
        v = [(d, idx, iseed, fac, m, 1.0), (d, idx, iseed, fac, m, rng.choice([2.0**-40, 1e-6, 1e-3, 3.0, 1e6, 2.0**50]))]
        v.append((*relabel(rng, d, idx, iseed, fac, m), rng.choice([1.0, 0.5])))
        for (dd, ii, ss, ff, mm, sc) in v:
            api = "r" if len(cases) % 4 == 0 else "py"
            cases.append(ipf_case(len(cases), api, ii, mm, {"d": dd, "v": [s * sc for s in ss]},
                                  {"kind": "witness", "fam": fam, "iseed": ss, "fac": ff, "den": den}))
    for i in range(60 if ctx.quick else 500):
        fam, nd, idx = any_structure(rng, 3)
        d = G.sizes(rng, nd, 24)
        N = G.size(d)
        t = G.table(rng, d, rng.choice([5, 40, 1000]), rng.choice([0, .3]))
        seed = [round(rng.random() * 5 + .05, 3) for _ in range(N)]
        if i % 3 == 0:
            seed = [s if x or rng.random() < .3 else 0.0 for s, x in zip(seed, t)]
        ms = float_m([G.reduce_(t, d, ix) for ix in idx])
        cases.append(ipf_case(len(cases), "r" if i % 5 == 0 else "py", idx, ms, {"d": d, "v": seed}, {"kind": "replay", "fam": fam}))
    judge(ctx, cases, ("C06",), ["cell", "conv", "zero", "nan", "shape"])
    return ctx.finish(["seeds between 1e-12 and 1e16 with entry ratios up to 10 where a solution is known", "agreement to 1e-5 (1 + value)"])
