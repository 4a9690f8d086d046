"""Generators of microsynthesis problems.  A problem is {"idx": [[dims]], "m": [{"d","v"}]}, 0-based, row-major."""
import itertools, random


def size(d):
    n = 1
    for x in d:
        n *= x
    return n


def strides(d):
    s, r = [], 1
    for x in reversed(d):
        s.append(r)
        r *= x
    return s[::-1]


def coord(d, k):
    c = []
    for x in reversed(d):
        c.append(k % x)
        k //= x
    return c[::-1]


def reduce_(t, d, dims):
    """sums of a row-major table over the dimensions not listed; the result's dimensions are in the order listed"""
    rd = [d[i] for i in dims]
    rs = strides(rd)
    out = [0] * size(rd)
    for k, v in enumerate(t):
        if v:
            c = coord(d, k)
            out[sum(c[i] * s for i, s in zip(dims, rs))] += v
    return {"d": rd, "v": out}


def table(rng, d, pop, zeros=0.0):
    """random integer table with the given total: clumpy, with a share of structural zeros"""
    n = size(d)
    cells = [k for k in range(n) if rng.random() >= zeros] or [rng.randrange(n)]
    style = rng.randrange(4)
    t = [0] * n
    if style == 0:      # even
        w = [1.0] * len(cells)
    elif style == 1:    # skewed
        w = [rng.random() ** 4 + 1e-3 for _ in cells]
    elif style == 2:    # few cells dominate
        w = [100.0 if rng.random() < 0.2 else 1.0 for _ in cells]
    else:
        w = [rng.random() + .01 for _ in cells]
    if pop > 20 * len(cells):
        s = sum(w)
        left = pop
        for k, x in zip(cells, w):
            c = min(left, int(pop * x / s))
            t[k] += c
            left -= c
        t[rng.choice(cells)] += left
    else:
        for k in rng.choices(cells, w, k=pop):
            t[k] += 1
    return t


def disjoint_structure(rng, nd):
    """a partition of the dimensions into at least two groups, shuffled throughout"""
    dims = list(range(nd))
    rng.shuffle(dims)
    k = rng.choice([2, nd, rng.randint(2, nd)])
    cuts = sorted(rng.sample(range(1, nd), k - 1))
    parts = [dims[a:b] for a, b in zip([0] + cuts, cuts + [nd])]
    return parts


def rip_structure(rng, nd, k, maxrank=3):
    """k marginals, what each shares with all earlier ones lies inside a single earlier one"""
    dims = list(range(nd))
    rng.shuffle(dims)
    unused = dims[:]
    first = [unused.pop() for _ in range(min(len(unused), rng.randint(1, maxrank)))]
    out = [first]
    for j in range(1, k):
        base = rng.choice(out)
        share = rng.sample(base, rng.randint(0, min(len(base), maxrank)))
        room = maxrank - len(share)
        # everything left goes to the last one, whatever its rank
        take = len(unused) if j == k - 1 else rng.randint(0, min(room, len(unused)))
        new = [unused.pop() for _ in range(take)]
        if not share and not new:
            share = [rng.choice(base)]
        m = share + new
        rng.shuffle(m)
        out.append(m)
    return out


def tree_structure(rng, nd):
    """every marginal but the first shares something with one earlier one and brings something new; ranks vary"""
    dims = list(range(nd))
    rng.shuffle(dims)
    take = lambda n: [dims.pop() for _ in range(min(n, len(dims)))]
    out = [take(rng.randint(1, 3))]
    while dims:
        base = rng.choice(out[-2:])
        m = rng.sample(base, rng.randint(1, min(2, len(base)))) + take(rng.choice([1, 1, 2, 3]))
        rng.shuffle(m)
        out.append(m)
    return out


def loop_structure(rng, nd):
    """no running intersection: cycles, or random overlapping sets"""
    if rng.random() < 0.5:
        dims = list(range(nd))
        rng.shuffle(dims)
        ms = [[dims[i], dims[(i + 1) % nd]] for i in range(nd)]
        for m in ms:
            rng.shuffle(m)
        rng.shuffle(ms)
        return ms
    while True:
        k = rng.randint(2, 5)
        ms = [rng.sample(range(nd), rng.randint(1, min(3, nd))) for _ in range(k)]
        if set(itertools.chain(*ms)) == set(range(nd)):
            return ms


def sizes(rng, nd, cap, big=False):
    """dimension sizes with product at most cap"""
    while True:
        d = [rng.choice([1, 2, 2, 3, 3, 4, 5, 6] + ([7, 9, 13, 20] if big else [])) for _ in range(nd)]
        if nd > 6:
            d = [rng.choice([1, 2, 2, 2, 3]) for _ in range(nd)]
        if size(d) <= cap:
            return d


def from_table(t, d, idx):
    return {"idx": idx, "m": [reduce_(t, d, ix) for ix in idx]}


def scramble(rng, p, nd):
    """keeps every one-dimensional total but (usually) makes marginals disagree on what they share: a swap in one marginal"""
    q = {"idx": p["idx"], "m": [{"d": m["d"][:], "v": m["v"][:]} for m in p["m"]]}
    for _ in range(rng.randint(1, 6)):
        k = rng.randrange(len(q["m"]))
        m = q["m"][k]
        if len(m["d"]) < 2:
            continue
        n = len(m["v"])
        a, b = coord(m["d"], rng.randrange(n)), coord(m["d"], rng.randrange(n))
        j = rng.randrange(len(a))
        a2, b2 = a[:], b[:]
        a2[j], b2[j] = b[j], a[j]
        s = strides(m["d"])
        at = lambda c: sum(x * y for x, y in zip(c, s))
        if m["v"][at(a)] > 0 and m["v"][at(b)] > 0:
            m["v"][at(a)] -= 1
            m["v"][at(b)] -= 1
            m["v"][at(a2)] += 1
            m["v"][at(b2)] += 1
    return q


def problem(rng, family, cap=400, popcap=60, maxdim=5, big=False):
    """family: disjoint | rip | loop | contradictory | overlap"""
    while True:
        nd = rng.randint(2, maxdim)
        if family == "disjoint":
            idx = disjoint_structure(rng, nd)
        elif family == "rip":
            idx = rip_structure(rng, nd, rng.randint(2, min(5, nd + 1)))
        elif family == "tree":
            nd = rng.randint(min(4, maxdim), maxdim)
            idx = tree_structure(rng, nd)
        elif family == "loop":
            idx = loop_structure(rng, max(3, nd))
            nd = max(3, nd)
        else:
            idx = rng.choice([rip_structure(rng, nd, rng.randint(2, 4)), loop_structure(rng, nd)])
        if len(idx) < 2 or set(itertools.chain(*idx)) != set(range(nd)):
            continue
        d = sizes(rng, nd, cap, big)
        break
    pop = rng.choice([0, 1, 2, 3, 5]) if rng.random() < .12 else rng.randint(1, popcap)
    t = table(rng, d, pop, rng.choice([0, 0, .2, .5, .8]) if family != "tree" else rng.choice([0, .5, .8, .9]))
    p = from_table(t, d, idx)
    if family == "contradictory":
        p = scramble(rng, p, nd)
    p["fam"] = family
    return p


def extreme(rng, popcap=25, cap=1200, maxdim=12, agree=True, kind=None):
    """shapes far from the ordinary in one respect: many dimensions, a long one, marginals of high rank, many marginals, repeated ones"""
    while True:
        k = rng.randrange(5) if kind is None else kind
        if k == 0:
            nd = rng.randint(7, maxdim) if maxdim > 7 else maxdim
            d = [rng.choice([1, 2, 2, 3]) for _ in range(nd)]
            idx = rng.choice([lambda: [[i] for i in rng.sample(range(nd), nd)], lambda: disjoint_structure(rng, nd), lambda: tree_structure(rng, nd),
                              lambda: rip_structure(rng, nd, rng.randint(3, 8))])()
        elif k == 1:
            nd = rng.randint(2, 3)
            d = [rng.randint(1, 3) for _ in range(nd)]
            d[rng.randrange(nd)] = rng.randint(60, 400)
            idx = rng.choice([disjoint_structure(rng, nd), rip_structure(rng, nd, 2), [[i] for i in range(nd)]])
        elif k == 2:
            nd = rng.randint(5, min(8, maxdim))
            d = [rng.randint(1, 3) for _ in range(nd)]
            o = rng.sample(range(nd), nd)
            a = rng.randint(3, nd - 1)
            idx = [o[:a], o[a:] + o[:rng.choice([0, 0, 1, 2])]]
            for ix in idx:
                rng.shuffle(ix)
            rng.shuffle(idx)
        elif k == 3:
            nd = rng.randint(3, 5)
            d = [rng.randint(1, 3) for _ in range(nd)]
            idx = [rng.sample(range(nd), rng.randint(1, 3)) for _ in range(rng.randint(7, 16))]
        else:
            nd = rng.randint(2, 4)
            d = [rng.randint(1, 4) for _ in range(nd)]
            base = disjoint_structure(rng, nd)
            idx = base + [rng.sample(ix, rng.randint(1, len(ix))) for ix in rng.choices(base, k=rng.randint(1, 5))]
            if rng.random() < .5:
                rng.shuffle(idx)
        if len(idx) >= 2 and set(itertools.chain(*idx)) == set(range(nd)) and size(d) <= cap:
            break
    t = table(rng, d, rng.randint(1, popcap), rng.choice([0, .3, .7]))
    p = from_table(t, d, idx)
    if not agree and rng.random() < .3:
        p = scramble(rng, p, nd)
    p["fam"] = "extreme"
    return p


def dense(rng, n, m, per):
    """a long dimension whose categories all hold the same few individuals: many points fall exactly on a boundary"""
    a, b = [per] * n, [0] * m
    for i in rng.sample(range(n), rng.choice([0, 0, n // 8])):
        a[i] = rng.choice([0, 2 * per])
    for _ in range(sum(a)):
        b[rng.randrange(m)] += 1
    p = {"idx": [[0], [1]], "m": [{"d": [n], "v": a}, {"d": [m], "v": b}]}
    if rng.random() < .5:
        p = {"idx": [[1], [0]], "m": p["m"]}
    p["fam"] = "dense"
    return p


def ndims(p):
    return len(set(itertools.chain(*p["idx"])))


def dims_of(p):
    d = [None] * ndims(p)
    for ix, m in zip(p["idx"], p["m"]):
        for i, s in zip(ix, m["d"]):
            d[i] = s
    return d


def to_r(p):
    """the problem as posed to R: an arbitrary relabelling, what matters is that the spec maps it back"""
    return {"idx": [[i + 1 for i in ix] for ix in p["idx"]], "m": p["m"]}


def skips(rng):
    return rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024,
                       1025, 4096, 4097, 65535, 65536, 65537, 100000, 131073, rng.randint(0, 300), rng.randint(0, 200000)])
