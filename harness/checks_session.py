"""C15: calls are pure.  Sessions of calls sharing arguments, with results kept, against Session.tla."""
import copy, hashlib, json
import gen as G, events as E
import run as R


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]


def canon(x):
    """contents of an argument, however encoded"""
    if isinstance(x, dict) and "d" in x:
        return ["a", [int(i) for i in x["d"]], [float(v) for v in x["v"]]]
    if isinstance(x, list):
        return [canon(y) for y in x]
    if isinstance(x, str):
        return float(x)
    return float(x)


def result(o):
    return digest(["err"]) if "err" in o else digest(o["ok"])


class Session:
    """builds the operations for a worker together with what the caller knows about its own arguments"""

    def __init__(self, rng, api, i, length):
        self.rng, self.api = rng, api
        self.ops, self.rec = [], []      # operations, and for each what to record
        self.val = {}                    # name -> contents: {"d","v","t"} or list of names (shared arrays) or plain list
        self.kept, self.nk, self.gens, self.ng = {}, 0, {}, 0
        self.solo = {}                   # key -> ops to repeat the call alone
        self.id = f"{api}{i}"
        self.setup()
        for _ in range(length):
            self.step()
        self.look()
        self.reread()

    def emit(self, op, rec):
        self.ops.append(op)
        self.rec.append(rec)

    def contents(self, name):
        v = self.val[name]
        if isinstance(v, list) and v and isinstance(v[0], str):
            return [canon(self.val[k]) for k in v]
        return canon(v)

    def bind(self, name, v):
        v = self.val[name] = copy.deepcopy(v)
        if isinstance(v, list) and v and isinstance(v[0], str):
            self.emit({"f": "mklist", "name": name, "refs": v}, ("bind", name))
        elif isinstance(v, list):
            self.emit({"f": "arr", "name": name, "val": {"raw": copy.deepcopy(v)}}, ("bind", name))
        else:
            self.emit({"f": "arr", "name": name, "val": copy.deepcopy(v)}, ("bind", name))
        self.rec[-1] = ("bind", name, digest(self.contents(name)))

    def setup(self):
        rng, api = self.rng, self.api
        off = 1 if api == "r" else 0
        ti, tf = ("i4", "f8") if api == "r" else ("i8", "f8")
        self.problems = []
        for k in range(2):
            large = rng.random() < .2
            p, d = None, [0]
            while p is None or large and G.size(d) < 200:
                p = G.problem(rng, rng.choice(["disjoint", "rip", "rip", "loop", "contradictory"]), cap=700 if large else 60, popcap=60 if large else 30, maxdim=4, big=large)
                d = G.dims_of(p)
            q = f"q{k}"
            if api == "r" or rng.random() < .5:
                for j, ix in enumerate(p["idx"]):
                    self.bind(f"{q}i{j}", {"d": [len(ix)], "v": [x + off for x in ix], "t": ti, **({"vec": 1} if api == "r" else {})})
                self.bind(q + "I", [f"{q}i{j}" for j in range(len(p["idx"]))])
            else:
                self.bind(q + "I", [list(ix) for ix in p["idx"]])
            for j, m in enumerate(p["m"]):
                self.bind(f"{q}m{j}", {"d": m["d"], "v": m["v"], "t": ti})
                self.bind(f"{q}f{j}", {"d": m["d"], "v": m["v"], "t": tf})
            self.bind(q + "M", [f"{q}m{j}" for j in range(len(p["m"]))])
            self.bind(q + "F", [f"{q}f{j}" for j in range(len(p["m"]))])
            self.bind(q + "S", {"d": d, "v": [rng.choice([0, 1, 1, 2, .5]) for _ in range(G.size(d))], "t": tf})
            self.problems.append((q, p, d))
        d = G.sizes(rng, 2, 20) if rng.random() < .8 else [rng.randint(10, 20), rng.randint(10, 20)]
        t = G.table(rng, d, 12)
        self.bind("C", {"d": d, "v": t, "t": ti})
        # a fractional table with integral margins
        z = [float(x) + 1 for x in t]
        for a in range(0, d[0] - 1):
            for b in range(0, d[1] - 1):
                e = rng.choice([0, .25, -.25])
                for (x, y, s) in ((a, b, 1), (a + 1, b, -1), (a, b + 1, -1), (a + 1, b + 1, 1)):
                    z[x * d[1] + y] += s * e / 2
        self.bind("N", {"d": d, "v": z, "t": tf})
        w = [rng.randint(0, 9) for _ in range(rng.choice([rng.randint(1, 6), rng.randint(1, 6), rng.randint(30, 300)]))] + [1]
        self.bind("P", {"d": [len(w)], "v": [x / sum(w) for x in w], "t": tf})
        self.bind("BAD", {"d": [2], "v": [-1, 2], "t": tf})

    def call(self, op, fn, names):
        keep = ""
        if self.rng.random() < .5:
            keep = f"r{self.nk}"
            self.nk += 1
            op["keep"] = keep
        key = (fn, json.dumps([self.contents(n) for n in names]))
        if key not in self.solo:
            pre = []
            for n in names:
                v = self.val[n]
                if isinstance(v, list) and v and isinstance(v[0], str):
                    pre += [{"f": "arr", "name": k, "val": copy.deepcopy(self.val[k])} for k in v]
                    pre.append({"f": "mklist", "name": n, "refs": v})
                else:
                    pre.append({"f": "arr", "name": n, "val": {"raw": copy.deepcopy(v)} if isinstance(v, list) else copy.deepcopy(v)})
            self.solo[key] = {"ops": pre + [{k: v for k, v in op.items() if k != "keep"}], "fn": fn,
                              "args": [digest(self.contents(n)) for n in names], "at": -1}
        self.emit(op, ("call", fn, names, keep))

    def look(self):
        for n in sorted(self.val):
            if self.rng.random() < .4 or n in "CNP" or n.endswith(("I", "M", "F", "S")):
                self.emit({"f": "peek", "name": n}, ("look", n))

    def reread(self):
        for n in sorted(self.kept):
            self.emit({"f": "peekret", "name": n}, ("reread", n))

    def step(self):
        rng = self.rng
        q, p, d = rng.choice(self.problems)
        r = rng.random()
        fn = rng.choice(["qis", "qis", "qisi", "qisi", "ipf", "ipf", "intn", "int1", "flatten", "gen", "sobol"])
        if r < .62:
            if fn in ("qis", "qisi", "ipf"):
                m = q + ("F" if fn == "ipf" else "M")
                idx, s = q + "I", q + "S"
                if rng.random() < .12:      # arguments that do not belong together
                    idx = rng.choice(self.problems)[0] + "I"
                    s = rng.choice([self.problems[0][0] + "S", self.problems[1][0] + "S", "BAD"])
                op = {"f": fn, "idx": {"ref": idx}, "m": {"ref": m}}
                names = [idx, m]
                tag = fn
                if fn != "qis":
                    op["seed"] = {"ref": s}
                    names = [s] + names
                if fn != "ipf" and rng.random() < .5:
                    op["skips"] = rng.choice([0, 1, 5, 64, 1000])
                    tag += f" skips {op['skips']}"
                self.call(op, tag, names)
            elif fn == "intn":
                n = rng.choice(["N", "N", "N", "BAD", "P"])
                self.call({"f": "intn", "pop": {"ref": n}}, "integerise", [n])
            elif fn == "int1":
                k, n = rng.choice([0, 3, 17, 100]), rng.choice(["P", "P", "P", "BAD"])
                self.call({"f": "int1", "frac": {"ref": n}, "pop": k}, f"integerise to {k}", [n])
            elif fn == "flatten":
                op = {"f": "flatten", "pop": {"ref": "C"}}
                if self.api == "r":
                    op["names"] = ["a", "b"]
                self.call(op, "flatten", ["C"])
            elif self.api == "r":
                dim, n, sk = rng.choice([1, 2, 4, 30]), rng.randint(1, 5), rng.choice([0, 1, 9, 100])
                self.call({"f": "sobol", "dim": dim, "n": n, "skips": sk}, f"sobolSequence {dim} {n} {sk}", [])
            else:
                self.gen_step()
            if rng.random() < .3:
                self.look()
            if rng.random() < .3:
                self.reread()
            if self.rec[-1][0] == "call" and self.rec[-1][3]:
                self.kept[self.rec[-1][3]] = 1
            else:
                for x in self.rec[-40:]:
                    if x[0] == "call" and x[3]:
                        self.kept.setdefault(x[3], 1) if x[3] not in getattr(self, "gone", set()) else None
        elif r < .75 and self.api == "py":
            self.gen_step()
        elif r < .85 and self.api == "py":      # the caller changes an array of its own
            n = rng.choice([x for x in self.val if isinstance(self.val[x], dict)])
            v = self.val[n]
            cells = len(v["v"])
            k = rng.randrange(cells)
            j = rng.randrange(cells)
            if n[0] == "q" and n[2] == "i":
                st = [(k, v["v"][j]), (j, v["v"][k])]
            elif n[0] == "q" and n[2] in "mf" and v["v"][k] > 0 and j != k:
                st = [(k, v["v"][k] - 1), (j, v["v"][j] + 1)]
            elif v["t"] == "f8":
                st = [(k, rng.choice([0, 1, 2.5, v["v"][j]]))]
            else:
                st = [(k, rng.randint(0, 4))]
            for a, b in st:
                v["v"][a] = b
            self.emit({"f": "argset", "name": n, "set": [[a, b] for a, b in st]}, ("change", n, digest(self.contents(n))))
            for m, x in self.val.items():
                if isinstance(x, list) and x and isinstance(x[0], str) and n in x:
                    self.emit({"f": "nop"}, ("change", m, digest(self.contents(m))))
        elif r < .95 and self.kept and self.api == "py":
            n = rng.choice(sorted(self.kept))
            self.emit({"f": "scribble", "name": n}, ("overwrite", n))
            del self.kept[n]
            self.gone = getattr(self, "gone", set()) | {n}
        else:
            self.look()
            self.reread()

    def gen_step(self):
        rng = self.rng
        if len(self.gens) < 3 or rng.random() < .1:
            g, dim, sk = f"g{self.ng}", rng.choice([1, 2, 3, 5, 40]), rng.choice([None, 0, 1, 6, 100, 4096])
            self.ng += 1
            self.gens[g] = [dim, sk, 0]
            self.emit({"f": "gen_new", "g": g, "dim": dim, "skips": sk}, ("other",))
            return
        g = rng.choice(sorted(self.gens))
        if rng.random() < .1:
            del self.gens[g]
            self.emit({"f": "gen_del", "g": g}, ("other",))
            return
        dim, sk, k = self.gens[g]
        self.gens[g][2] += 1
        keep = f"r{self.nk}"
        self.nk += 1
        fn = f"SobolSequence {dim} {sk} point {k}"
        self.emit({"f": "gen_next", "g": g, "keep": keep}, ("call", fn, [], keep))
        self.kept[keep] = 1
        self.solo[(f"SobolSequence {dim} {sk}",)] = {
            "ops": [{"f": "gen_new", "g": "g", "dim": dim, "skips": sk}] + [{"f": "gen_next", "g": "g"}] * (max(k + 1, self.solo.get((f"SobolSequence {dim} {sk}",), {"n": 0})["n"])),
            "n": max(k + 1, self.solo.get((f"SobolSequence {dim} {sk}",), {"n": 0})["n"]), "fn": f"SobolSequence {dim} {sk}", "args": [], "at": -2}


class Family(Session):
    """one call, and calls that differ from it in a single respect, in a random order and repeatedly: what an
    implementation that remembers something under too coarse a key gets wrong"""

    def setup(self):
        rng, api = self.rng, self.api
        ti, tf = ("i4", "f8") if api == "r" else ("i8", "f8")
        off = 1 if api == "r" else 0
        self.fn = rng.choice(["qis", "qisi", "qisi", "ipf", "ipf", "intn", "int1", "flatten"])
        self.variants = []          # name -> contents to rebind, or an option changed
        if self.fn in ("qis", "qisi", "ipf"):
            large = rng.choice([40, 40, 40, 300])
            while True:
                p = G.problem(rng, rng.choice(["disjoint", "disjoint", "rip"]), cap=large, popcap=large // 2, maxdim=6 if large > 40 else 3)
                if len(p["m"]) > 1 and sum(p["m"][0]["v"]) > 1:
                    break
            d = G.dims_of(p)
            t = tf if self.fn == "ipf" else ti
            self.base = {f"m{j}": {"d": m["d"], "v": m["v"], "t": t} for j, m in enumerate(p["m"])}
            self.base |= {f"i{j}": {"d": [len(ix)], "v": [x + off for x in ix], "t": ti, **({"vec": 1} if api == "r" else {})} for j, ix in enumerate(p["idx"])}
            if self.fn != "qis":
                self.base["S"] = {"d": d, "v": [rng.choice([1, 1, 2, .5, 3]) for _ in range(G.size(d))], "t": tf}
            for j, m in enumerate(p["m"]):
                w = m["v"][:]
                for _ in range(5):
                    rng.shuffle(w)
                    if w != m["v"]:
                        break
                self.variants.append({f"m{j}": {"d": m["d"], "v": w, "t": t}})
            # everyone twice
            self.variants.append({f"m{j}": {"d": m["d"], "v": [2 * x for x in m["v"]], "t": t} for j, m in enumerate(p["m"])})
            if "S" in self.base:
                for _ in range(2):
                    w = self.base["S"]["v"][:]
                    w[rng.choice([0, -1, rng.randrange(len(w))])] += rng.choice([1, 1e-3])
                    self.variants.append({"S": {**self.base["S"], "v": w}})
            # the roles of two dimensions of one marginal, or of two marginals of equal shape, exchanged
            for j, ix in enumerate(p["idx"]):
                if len(ix) > 1 and len(set(p["m"][j]["d"])) == 1:
                    self.variants.append({f"i{j}": {**self.base[f"i{j}"], "v": self.base[f"i{j}"]["v"][::-1]}})
            if self.fn != "ipf":
                self.variants += [{"skips": k} for k in rng.sample([1, 5, 64, 700, 5000], 2)]
            self.lists = {"I": [f"i{j}" for j in range(len(p["idx"]))], "M": [f"m{j}" for j in range(len(p["m"]))]}
        elif self.fn == "flatten":
            d = G.sizes(rng, 2, 20)
            t = G.table(rng, d, 12)
            self.base, self.lists = {"C": {"d": d, "v": t, "t": ti}}, {}
            self.variants = [{"C": {"d": d[::-1], "v": t, "t": ti}}, {"C": {"d": d, "v": t[::-1], "t": ti}}, {"C": {"d": d, "v": [0] * len(t), "t": ti}}]
        elif self.fn == "intn":
            d = [2, 3]
            z = [1.25, .75, 1, .75, 1.25, 1]
            self.base, self.lists = {"N": {"d": d, "v": z, "t": tf}}, {}
            self.variants = [{"N": {"d": d, "v": w, "t": tf}} for w in ([.75, 1.25, 1, 1.25, .75, 1], [2.25, .75, 1, .75, 1.25, 1], [1.5, .5, 1, .5, 1.5, 1])]
            self.variants.append({"N": {"d": d[::-1], "v": z, "t": tf}})
        else:
            self.base, self.lists = {"P": {"d": [4], "v": [.1, .2, .3, .4], "t": tf}}, {}
            self.variants = [{"P": {"d": [4], "v": w, "t": tf}} for w in ([.4, .3, .2, .1], [.1, .2, .4, .3], [.1, .2, .3, .3])] + [{"pop": k} for k in (7, 8, 1000)]
        self.now = None
        self.setto({})

    def setto(self, v):
        """the arguments become those of a variant: rebound, or (Python) altered in place"""
        want = {**self.base, **{k: x for k, x in v.items() if k in self.base}}
        for n, x in want.items():
            if n not in self.val:
                self.bind(n, x)
            elif self.val[n] != x:
                old = self.val[n]
                if self.api == "py" and old["d"] == x["d"] and self.rng.random() < .5:
                    st = [[k, b] for k, (a, b) in enumerate(zip(old["v"], x["v"])) if a != b]
                    self.val[n] = copy.deepcopy(x)
                    self.emit({"f": "argset", "name": n, "set": st}, ("change", n, digest(self.contents(n))))
                    for m in self.lists:
                        if n in self.lists[m] and m in self.val:
                            self.emit({"f": "nop"}, ("change", m, digest(self.contents(m))))
                else:
                    self.bind(n, x)
                    for m in self.lists:
                        if n in self.lists[m] and m in self.val:
                            self.bind(m, self.lists[m])
        for m in self.lists:
            if m not in self.val:
                self.bind(m, self.lists[m])
        self.now = v

    def step(self):
        rng = self.rng
        self.setto({} if rng.random() < .4 else rng.choice(self.variants))
        f = self.fn
        if f in ("qis", "qisi", "ipf"):
            op, names, tag = {"f": f, "idx": {"ref": "I"}, "m": {"ref": "M"}}, ["I", "M"], f
            if f != "qis":
                op["seed"], names = {"ref": "S"}, ["S"] + names
            if "skips" in self.now:
                op["skips"] = self.now["skips"]
                tag += f" skips {op['skips']}"
        elif f == "flatten":
            op, names, tag = {"f": f, "pop": {"ref": "C"}}, ["C"], f
            if self.api == "r":
                op["names"] = ["a", "b"]
        elif f == "intn":
            op, names, tag = {"f": f, "pop": {"ref": "N"}}, ["N"], "integerise"
        else:
            k = self.now.get("pop", 10)
            op, names, tag = {"f": f, "frac": {"ref": "P"}, "pop": k}, ["P"], f"integerise to {k}"
        self.call(op, tag, names)


class Repeat(Session):
    """few calls, each made over and over: what an implementation that counts, or wears out, gets wrong"""

    def setup(self):
        rng, api = self.rng, self.api
        ti, tf = ("i4", "f8") if api == "r" else ("i8", "f8")
        off = 1 if api == "r" else 0
        self.recipes = []
        for k, dim in enumerate(rng.sample([1, 2, 3, 4, 5], 3)):
            d = [rng.randint(1, 3) for _ in range(dim)]
            t = G.table(rng, d, rng.randint(3, 12))
            q = f"q{k}"
            p = G.from_table(t, d, [[i] for i in range(dim)])["m"]
            for j, m in enumerate(p):
                self.bind(f"{q}i{j}", {"d": [1], "v": [j + off], "t": ti, **({"vec": 1} if api == "r" else {})})
                self.bind(f"{q}m{j}", {"d": m["d"], "v": m["v"], "t": ti})
                self.bind(f"{q}f{j}", {"d": m["d"], "v": m["v"], "t": tf})
            self.bind(q + "I", [f"{q}i{j}" for j in range(dim)])
            self.bind(q + "M", [f"{q}m{j}" for j in range(dim)])
            self.bind(q + "F", [f"{q}f{j}" for j in range(dim)])
            self.bind(q + "S", {"d": d, "v": [rng.choice([1, 1, 2, .5]) for _ in range(G.size(d))], "t": tf})
            if dim > 1:
                self.recipes.append(({"f": "qis", "idx": {"ref": q + "I"}, "m": {"ref": q + "M"}}, "qis", [q + "I", q + "M"]))
                self.recipes.append(({"f": "qisi", "seed": {"ref": q + "S"}, "idx": {"ref": q + "I"}, "m": {"ref": q + "M"}}, "qisi", [q + "S", q + "I", q + "M"]))
                self.recipes.append(({"f": "ipf", "seed": {"ref": q + "S"}, "idx": {"ref": q + "I"}, "m": {"ref": q + "F"}}, "ipf", [q + "S", q + "I", q + "F"]))
                self.recipes.append(({"f": "intn", "pop": {"ref": q + "S"}}, "integerise", [q + "S"]))
                self.bind(q + "C", {"d": d, "v": t, "t": ti})
                op = {"f": "flatten", "pop": {"ref": q + "C"}}
                if api == "r":
                    op["names"] = list("abcde"[:dim])
                self.recipes.append((op, "flatten", [q + "C"]))
        w = [rng.randint(0, 9) for _ in range(5)] + [1]
        self.bind("P", {"d": [6], "v": [x / sum(w) for x in w], "t": tf})
        self.recipes.append(({"f": "int1", "frac": {"ref": "P"}, "pop": 17}, "integerise to 17", ["P"]))
        if api == "r":
            self.recipes.append(({"f": "sobol", "dim": 4, "n": 2, "skips": 3}, "sobolSequence 4 2 3", []))
        self.recipes = rng.sample(self.recipes, min(len(self.recipes), 6))

    def step(self):
        rng = self.rng
        op, tag, names = rng.choice(self.recipes)
        for _ in range(rng.choice([1, 2, 40, 70] + ([140, 270] if self.api == "py" else []))):
            self.emit(copy.deepcopy(op), ("call", tag, names, ""))
        self.call(copy.deepcopy(op), tag, names)
        if self.rec[-1][3]:
            self.kept[self.rec[-1][3]] = 1


def c15(ctx):
    n = 5
    for f in ("none", "hidden", "argument", "alias"):
        cfg = f'SPECIFICATION Spec\nCONSTANT Fault = "{f}"\nINVARIANTS NothingWrong {"FunctionOfArguments" if f == "none" else ""}\nCHECK_DEADLOCK FALSE\n'
        ctx.mc("MCSession", cfg, expect_violation=None if f == "none" else "NothingWrong", name=f"an implementation with hidden state, fault: {f}")
    ctx.build()
    rng = ctx.rng
    ses = [Session(rng, "py", i, rng.randint(15, 40)) for i in range(16 if ctx.quick else 250)]
    ses += [Session(rng, "r", i, rng.randint(10, 25)) for i in range(6 if ctx.quick else 60)]
    fam = [Family(rng, "py", f"f{i}", rng.randint(9, 14)) for i in range(24 if ctx.quick else 200)]
    fam += [Family(rng, "r", f"f{i}", rng.randint(9, 14)) for i in range(12 if ctx.quick else 60)]
    rep = [Repeat(rng, api, f"r{i}", 8) for api, n in (("py", 10 if ctx.quick else 60), ("r", 4 if ctx.quick else 20)) for i in range(n)]
    ses += fam + rep
    cases = [{"id": s.id, "ops": s.ops, "s": s} for s in ses]
    ctx.run("py", [c for c in cases if c["s"].api == "py"], procs=4, timeout=60)
    ctx.run("r", [c for c in cases if c["s"].api == "r"], procs=4, timeout=60)
    # the same calls, each alone in a process of its own
    alone = {"py": {}, "r": {}}
    for s in ses:
        for k, x in s.solo.items():
            old = alone[s.api].get(k)
            if old is None or len(x["ops"]) > len(old["ops"]):
                alone[s.api][k] = x
    solo = {}
    for api in ("py", "r"):
        keys = sorted(alone[api])
        cap = {"py": 260, "r": 60}[api] if ctx.quick else len(keys)
        first = {k for s in fam + rep if s.api == api for k in s.solo}
        pick = keys if len(keys) <= cap else sorted(first) + rng.sample([k for k in keys if k not in first], max(0, cap - len(first)))
        cs = [{"id": f"s{i}", "ops": alone[api][k]["ops"], "k": k} for i, k in enumerate(pick)]
        ctx.run(api, cs, procs=8, fresh=True, timeout=60, extra={"MALLOC_PERTURB_": "9", "PYTHONHASHSEED": "7"})
        for c in cs:
            x = alone[api][c["k"]]
            if any(E.outcome(o) in ("crash", "hang") for o in c["out"]):
                ctx.violation(f"call alone: {c['out'][-1]}", c["ops"])
            elif x["at"] == -2:
                solo[(api, c["k"])] = [{"fn": f"{x['fn']} point {j}", "args": [], "res": result(o)} for j, o in enumerate(c["out"][1:])]
            else:
                solo[(api, c["k"])] = [{"fn": x["fn"], "args": x["args"], "res": result(c["out"][-1])}]
        ctx.count(f"{api} calls repeated alone", len(cs))
    evs, neg = [], []
    for c in cases:
        s = c["s"]
        if len(c["out"]) != len(s.ops):
            ctx.violation(f"{c['id']}: {c['out']}"[:200], {"ops": s.ops})
            continue
        ops = []
        for op, rec, o in zip(s.ops, s.rec, c["out"]):
            k = rec[0]
            if k in ("bind", "change"):
                ops.append({"f": k, "name": rec[1], "val": rec[2]})
            elif k == "call":
                ops.append({"f": k, "fn": rec[1], "args": rec[2], "res": result(o), "keep": rec[3] if "ok" in o else ""})
                ctx.count(f"{s.api} {rec[1].split()[0]} {E.outcome(o)}")
            elif k == "look":
                ops.append({"f": k, "name": rec[1], "val": digest(canon(o["ok"]["res"])) if "ok" in o else "?"})
            elif k in ("reread", "overwrite"):
                if "ok" not in o:      # the call that should have produced it failed
                    ops.append({"f": "other"})
                elif k == "reread":
                    ops.append({"f": k, "name": rec[1], "val": digest(o["ok"])})
                else:
                    ops.append({"f": k, "name": rec[1]})
            else:
                ops.append({"f": "other"})
        e = {"id": c["id"], "ops": ops, "solo": [y for k in s.solo if (s.api, k) in solo for y in solo[(s.api, k)]]}
        evs.append(e)
        for what in ("call", "look", "reread", "solo"):
            x = copy.deepcopy(e)
            x["id"] = f"~{e['id']}-{what}"
            if what == "solo":
                used = {(o["fn"]) for o in ops if o["f"] == "call"}
                ys = [y for y in x["solo"] if y["fn"] in used]
                if not ys:
                    continue
                rng.choice(ys)["res"] = "0"
            else:
                ks = [o for o in x["ops"] if o["f"] == what]
                if what == "call":      # only calls whose result is known from elsewhere can be judged
                    known = {y["fn"] for y in x["solo"] if y["args"] == []}
                    ks = [o for o in ks if o["fn"] in known and not o["args"]]
                if not ks:
                    continue
                o = rng.choice(ks)
                o["res" if what == "call" else "val"] = "0"
            neg.append(x)
    bad = ctx.trace("TraceSession", evs, neg)
    by = {c["id"]: c for c in cases}
    for i, cl in bad.items():
        s = by[i]["s"]
        at = int(cl[0].rsplit("-", 1)[1]) - 1
        ctx.violation(f"{i}: {' '.join(cl)} {json.dumps(s.ops[at])[:200]}", {"ops": s.ops[:at + 1], "clauses": cl})
    for e in evs[:3]:
        ctx.sample({"id": e["id"], "operations": len(e["ops"]), "repeated alone": len(e["solo"]), "some": e["ops"][-8:]})
    return ctx.finish(["contents and results are compared as digests of their exact values",
                       "the caller overwrites results and changes arguments in place in Python only (R copies on modification)"])
