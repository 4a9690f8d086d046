"""C16: only the logical contents of array arguments matter."""
import copy, json
import gen as G, events as E
from checks_session import digest

UNIT = 4      # values are multiples of 1/4


def fits(v, t):
    ints = all(float(x) == int(float(x)) for x in v)
    lo, hi = min(v), max(v)
    if t == "b":
        return ints and lo >= 0 and hi <= 1
    rng = {"i1": (-128, 127), "u1": (0, 255), "i2": (-2**15, 2**15 - 1), "u2": (0, 65535), "i4": (-2**31, 2**31 - 1), "u4": (0, 2**32), "u8": (0, 2**53),
           "i8": (-2**53, 2**53), ">i8": (-2**53, 2**53), ">i4": (-2**31, 2**31 - 1), ">u2": (0, 65535)}
    if t in rng:
        return ints and rng[t][0] <= lo and hi <= rng[t][1]
    if t == "f2":
        return all(abs(x) <= 500 for x in v)
    return True


TYPES = ["b", "i1", "u1", "i2", "u2", "i4", "u4", "u8", "i8", "i8", ">i8", ">i4", ">u2", "f2", "f4", "f8", "f8", ">f8", ">f4", "O", "g"]


def view(rng, a, native, canonical=False):
    """the array laid out somehow: returns (python argument, record for the specification)"""
    d, v = a["d"], a["v"]
    nd = len(d)
    if canonical:
        s = G.strides(d)
        return {"buf": v[:], "t": native, "shape": d, "strides": s, "off": 0}, {"d": d, "strides": s, "off": 0, "buf": [int(x * UNIT) for x in v]}
    style = rng.choice(["F", "perm", "perm", "step", "step", "rev", "T", "broadcast", "type", "list", "ro", "pad"])
    t = native
    order = list(range(nd))
    step = [1] * nd
    sign = [1] * nd
    extra = 0
    if style == "F":
        order.reverse()
    elif style in ("perm", "T"):
        rng.shuffle(order)
    elif style == "step":
        step = [rng.choice([1, 2, 3]) for _ in d]
        if all(s == 1 for s in step):
            step[-1] = 2
        if rng.random() < .5:
            rng.shuffle(order)
    elif style == "rev":
        sign = [rng.choice([1, -1]) for _ in d]
        if all(s == 1 for s in sign):
            sign[rng.randrange(nd)] = -1
        if rng.random() < .3:
            rng.shuffle(order)
            step = [rng.choice([1, 2]) for _ in d]
    if style in ("type", "list") or rng.random() < .3:
        ok = [x for x in TYPES if fits(v, x)]
        t = rng.choice(ok)
    if style == "step" and rng.random() < .5:
        extra = rng.randint(1, 3)
    # strides: the last in `order` varies fastest
    st = [0] * nd
    s = 1
    const = [style == "broadcast" and constant_along(a, j) for j in range(nd)]
    for j in reversed(order):
        if const[j]:
            st[j] = 0
            continue
        s *= step[j]
        st[j] = s
        s *= d[j]
        s += extra
    st = [x * y for x, y in zip(st, sign)]
    off = rng.randint(0, 2) + sum(-(n - 1) * x for n, x in zip(d, st) if x < 0)
    hi = off + sum((n - 1) * x for n, x in zip(d, st) if x > 0)
    fill = [x for x in ((1, 0) if t == "b" else (7, 1, 3)) if True]
    buf = [rng.choice(fill) for _ in range(hi + 1 + rng.randint(0, 2))]
    for k, x in enumerate(v):
        buf[off + sum(c * y for c, y in zip(G.coord(d, k), st))] = x
    rec = {"d": d, "strides": st, "off": off, "buf": [int(x * UNIT) for x in buf]}
    py = {"buf": buf, "t": t, "shape": d, "strides": st, "off": off}
    if style == "ro" or rng.random() < .1:
        py["ro"] = 1
    if style == "pad":
        py["pad"] = rng.choice([1, 3, 8])
    if style == "list":
        py["aslist"] = rng.choice(["list", "tuple"])
    return py, rec


def constant_along(a, j):
    d, v = a["d"], a["v"]
    for k, x in enumerate(v):
        c = G.coord(d, k)
        c[j] = 0
        if v[sum(p * q for p, q in zip(c, G.strides(d)))] != x:
            return False
    return True


def rview(rng, a, native, canonical=False):
    """R arrays are always column-major; whole numbers may be stored as integers or doubles, vectors may lack dimensions"""
    d, v = a["d"], a["v"]
    st, s = [], 1
    for n in d:
        st.append(s)
        s *= n
    buf = [0] * len(v)
    for k, x in enumerate(v):
        buf[sum(c * y for c, y in zip(G.coord(d, k), st))] = x
    t = native
    if not canonical and fits(v, "i4"):
        t = rng.choice(["i4", "f8"])
    py = {"colmajor": buf, "d": d, "t": t}
    if len(d) == 1 and not canonical and native != "seed" and rng.random() < .5:
        py["nodim"] = True
    return py, {"d": d, "strides": st, "off": 0, "buf": [int(x * UNIT) for x in buf]}


def base(rng, i, api):
    """a call: (op template, argument arrays in order, how to place them)"""
    fn = ["qis", "ipf", "qisi", "intn", "int1", "flatten"][i % 6]
    off = 1 if api == "r" else 0
    if fn in ("qis", "ipf", "qisi"):
        p = G.problem(rng, rng.choice(["disjoint", "rip", "loop", "contradictory"]), cap=100, popcap=40, maxdim=4) if rng.random() < .85 else G.extreme(rng, 30, 200)
        d = G.dims_of(p)
        arrs, place = [], []
        if fn != "qis":
            sv = [1] * G.size(d) if i % 4 == 0 else [rng.choice([0, .25, .5, 1, 1, 2, 3]) for _ in range(G.size(d))]
            if i % 8 == 1:      # constant along one dimension
                j = rng.randrange(len(d))
                for k in range(len(sv)):
                    c = G.coord(d, k)
                    c[j] = 0
                    sv[k] = sv[sum(x * y for x, y in zip(c, G.strides(d)))]
            arrs.append({"d": d, "v": sv})
            place.append("seed")
        for ix in p["idx"]:
            arrs.append({"d": [len(ix)], "v": [x + off for x in ix]})
            place.append("idx")
        for m in p["m"]:
            arrs.append({"d": m["d"], "v": m["v"]})
            place.append("m")
        op = {"f": fn}
        if fn != "ipf" and rng.random() < .3:
            op["skips"] = rng.choice([1, 10, 100])
        return op, arrs, place
    if fn == "intn":
        d = G.sizes(rng, rng.choice([1, 2, 2, 3]), 40)
        v = [rng.choice([.25, .5, 1, 2, 3, 1.25]) for _ in range(G.size(d))]
        if len(d) > 1 and rng.random() < .7:        # make all margins whole numbers
            v = [int(x + 1) for x in v]
            for _ in range(6):
                a, b = G.coord(d, rng.randrange(len(v))), G.coord(d, rng.randrange(len(v)))
                j = rng.randrange(len(d))
                a2, b2 = a[:], b[:]
                a2[j], b2[j] = b[j], a[j]
                at = lambda c: sum(x * y for x, y in zip(c, G.strides(d)))
                for c, s in ((a, -.25), (b, -.25), (a2, .25), (b2, .25)):
                    v[at(c)] += s
            v = [max(x, 0) for x in v]
        return {"f": "intn"}, [{"d": d, "v": v}], ["pop"]
    if fn == "int1":
        n = rng.randint(1, 9)
        v = [rng.choice([0, .25, .5, 1, 2, 3.75]) for _ in range(n)] + [1]
        if api == "r":      # probabilities
            n = rng.choice([1, 2, 4])
            v = [4 // n / 4] * n
            if n == 2:
                v = [.25, .75]
        return {"f": "int1", "pop": rng.choice([0, 7, 31])}, [{"d": [len(v)], "v": v}], ["frac"]
    d = G.sizes(rng, rng.choice([1, 2, 3, 4]), 60)
    return {"f": "flatten", **({"names": [f"c{j}" for j in range(len(d))]} if api == "r" else {})}, [{"d": d, "v": G.table(rng, d, 30)}], ["pop"]


def assemble(op, place, args):
    op = copy.deepcopy(op)
    for pl, a in zip(place, args):
        if pl in ("idx", "m"):
            op.setdefault(pl, []).append(a)
        else:
            op[pl] = a
    return op


def c16(ctx):
    ctx.mc("MCView", "SPECIFICATION Spec\nCONSTANTS Shapes <- %s\nMaxStride = %d\nBufLen = %d\nINVARIANTS PointerRight CopiedRight Copied\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n"
           % (("SmallShapes", 3, 8) if ctx.quick else ("MoreShapes", 4, 9)), name="reading any strided array")
    ctx.mc("MCView", "SPECIFICATION Spec\nCONSTANTS Shapes <- SmallShapes\nMaxStride = 2\nBufLen = 6\nINVARIANT Contiguous\nCHECK_DEADLOCK FALSE\n", expect_violation="Contiguous", name="control")
    ctx.build()
    rng = ctx.rng
    cases = []
    for i in range(360 if ctx.quick else 2500):
        api = "r" if i % 5 == 4 else "py"
        op, arrs, place = base(rng, i if api == "py" else i // 5, api)
        native = {"seed": "f8", "idx": "i8", "m": "f8" if op["f"] == "ipf" else "i8", "pop": "f8" if op["f"] == "intn" else "i8", "frac": "f8"}
        mk = view if api == "py" else rview
        variants = []
        n = 6 if api == "py" else 4
        for k in range(n):
            views = []
            for j, (a, pl) in enumerate(zip(arrs, place)):
                # the first as plain as possible; then every argument changed, then one at a time
                canonical = k == 0 or (k > 2 and rng.random() < .6)
                nat = native[pl] if api == "py" else "seed" if pl == "seed" or op["f"] == "intn" else "f8"
                views.append(mk(rng, a, nat, canonical))
            variants.append(views)
        cases.append({"id": f"{api}{i}", "api": api, "fn": op["f"], "variants": variants,
                      "ops": [assemble(op, place, [p for p, _ in vs]) for vs in variants]})
    ctx.run("py", [c for c in cases if c["api"] == "py"])
    ctx.run("r", [c for c in cases if c["api"] == "r"])
    evs, neg = [], []
    for c in cases:
        if any(E.outcome(o) in ("crash", "hang") for o in c["out"]):
            ctx.violation(f"{c['id']}: {E.outcome(c['out'][-1])}", c["ops"])
            continue
        for o in c["out"]:
            ctx.count(f"{c['api']} {c['fn']} {E.outcome(o)}")
        res = [digest(["err"]) if "err" in o else digest(o["ok"]) for o in c["out"]]
        e = {"id": c["id"], "fn": c["fn"], "vars": [{"views": [r for _, r in vs], "res": x} for vs, x in zip(c["variants"], res)]}
        evs.append(e)
        if len(evs) % 4 == 0:
            x = copy.deepcopy(e)
            x["id"] = "~" + e["id"]
            x["vars"][rng.randrange(1, len(x["vars"]))]["res"] = "0"
            neg.append(x)
    bad = ctx.trace("TraceView", evs, neg)
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        k = int(cl[0].rsplit("-", 1)[1]) - 1
        ctx.violation(f"{i}: {' '.join(cl)} {json.dumps(by[i]['ops'][k])[:300]} -> {json.dumps(by[i]['out'][k])[:100]}",
                      {"canonical": by[i]["ops"][0], "variant": by[i]["ops"][k], "results": [by[i]["out"][0], by[i]["out"][k]]})
    for c in cases[:4]:
        ctx.sample({"fn": c["fn"], "one variant": c["ops"][1]})
    return ctx.finish(["values are multiples of 1/4 that all the element types used can represent"])
