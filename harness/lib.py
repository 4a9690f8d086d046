"""Common machinery of the checks: TLC runs, trace validation, evidence, verdicts."""
import concurrent.futures as cf, copy, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
import build as B
import run as R

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, ".work")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class Machinery(Exception):
    """The check itself could not work (never reported as a violation)."""


def _tlc_cmd():
    # the installed wrapper knows the class path
    return ["tlc"]


def timed(f):
    def g(*a, **k):
        t = time.time()
        try:
            return f(*a, **k)
        finally:
            if os.environ.get("VERIF_PROF"):
                print(f"   {f.__name__} {[x for x in a if isinstance(x, str)][:1]} {time.time() - t:.1f}s", file=sys.stderr)
    return g


def tlc(module, cfg, env=None, workers=8, timeout=600, heap=None, extra=()):
    """Runs TLC on spec/<module>.tla with the given configuration text. Returns dict(out, ok, generated, distinct)."""
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix="tlc_", dir=WORK)
    try:
        if not cfg.endswith(".cfg"):
            conf = os.path.join(d, module + ".cfg")
            open(conf, "w").write(cfg)
        else:
            conf = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        e.update(env or {})
        if heap:
            e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap}"
        cmd = [*_tlc_cmd(), "-workers", str(workers), "-metadir", d + "/md", "-noGenerateSpecTE", "-config", conf, *extra, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            o = x.stdout or ""
            raise Machinery(f"TLC {module}: no answer in {timeout} s\n" + (o if isinstance(o, str) else o.decode())[-1500:])
        out = p.stdout
        if "conflicts with" in out:
            raise Machinery("conflicting definitions:\n" + out[-3000:])
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        g, s = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return {"out": out, "ok": p.returncode == 0 and "No error has been found" in out, "rc": p.returncode,
                "generated": g, "distinct": s}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def jclean(x):
    """JSON fit for TLC: no nulls, no floats"""
    if isinstance(x, dict):
        return {k: jclean(v) for k, v in x.items() if v is not None}
    if isinstance(x, (list, tuple)):
        return [jclean(v) for v in x]
    if isinstance(x, float):
        raise Machinery(f"float {x} in a record for TLC")
    if isinstance(x, int) and not isinstance(x, bool) and not -2**31 < x < 2**31:
        raise Machinery(f"integer {x} in a record for TLC")
    return x


def big(n):
    """natural number as base-10^4 limbs, little-endian"""
    r = []
    while n:
        r.append(n % 10000)
        n //= 10000
    return r


def fx(x):
    """a recorded double (number or string) as fixed point, units of 10^-12"""
    from fractions import Fraction
    import math
    if isinstance(x, str):
        x = {"nan": math.nan, "NA": math.nan, "inf": math.inf, "-inf": -math.inf}.get(x) if x in ("nan", "NA", "inf", "-inf") else float(x)
    x = float(x)
    if math.isnan(x):
        return {"s": 2, "m": []}
    if math.isinf(x):
        return {"s": 3 if x > 0 else 4, "m": []}
    f = abs(Fraction(x)) * 10**12
    n = f.numerator // f.denominator
    if 2 * (f - n) >= 1:
        n += 1
    return {"s": 1 if x < 0 and n else 0, "m": big(n)}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.rng = random.Random(f"{prop}-{seed}")
        self.states = self.transitions = self.validated = 0
        self.samples, self.violations, self.known, self.notes = [], [], [], []
        self.counts = {}
        self.bdirs = None
        self.negs = 0
        self.models = []

    # ---- time budget
    def left(self, budget):
        return budget - (time.time() - self.t0)

    # ---- model checking of the specification itself
    @timed
    def mc(self, module, cfg, workers=8, timeout=600, expect_violation=None, name=None, heap=None):
        r = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap)
        if expect_violation:
            if f"{expect_violation} is violated" not in r["out"] and f"property {expect_violation}" not in r["out"]:
                raise Machinery(f"TLC {module}: {expect_violation} should be violated (vacuity control)\n" + r["out"][-1500:])
        elif not r["ok"]:
            raise Machinery(f"TLC {module} failed:\n" + r["out"][-3000:])
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"model": name or module, "states": r["distinct"], "transitions": r["generated"],
                            **({"control": f"{expect_violation} violated as it should be"} if expect_violation else {})})
        return r

    # ---- implementation
    @timed
    def build(self, *what):
        try:
            self.bdirs = B.build(what or ("py", "r"))
        except B.BuildError as e:
            raise Machinery("build failed: " + str(e))
        return self.bdirs

    @timed
    def run(self, api, cases, timeout=30, procs=8, **kw):
        return R.run(api.removesuffix("asan"), self.bdirs[api], cases, timeout=timeout, procs=procs, name=self.prop, **kw)

    # ---- trace validation
    @timed
    def trace(self, module, events, negatives=(), cfg=None, consts="", workers=8, timeout=800, shards=None, env=None, heap="3g", exists=None):
        """events: records with a unique string id; negatives: corrupted records (ids starting with ~) that must be rejected.
        Returns {id: [failed clauses]} for the rejected ones."""
        evs, malformed = [], {}
        for e in [*events, *negatives]:
            try:
                evs.append(jclean(e))
            except Machinery as x:      # a value no correct result can have
                if e["id"].startswith("~"):
                    raise
                malformed[e["id"]] = ["malformed:" + str(x).replace(" ", "-")]
        if not evs:
            return malformed
        ids = [e["id"] for e in evs]
        if len(set(ids)) != len(ids):
            raise Machinery("duplicate event ids")
        os.makedirs(WORK, exist_ok=True)
        conf = cfg or f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Sane\n{consts}"
        shards = shards or (4 if len(evs) >= 40 else 1)

        def one(part):
            fd, path = tempfile.mkstemp(prefix="trace_", suffix=".ndjson", dir=WORK)
            try:
                with os.fdopen(fd, "w") as f:
                    for e in part:
                        f.write(json.dumps(e) + "\n")
                return tlc(module, conf, env={"TRACE": path, **(env or {})}, workers=max(1, workers // shards), timeout=timeout, heap=heap)
            finally:
                os.unlink(path)
        budget = [40]

        def judge(part):
            """a record the specification cannot even be evaluated on (wrong shapes) is rejected; it is found by bisection"""
            x = one(part)
            if x["ok"]:
                return [x]
            if not re.search(r"Attempted to|was not in the domain|outside of the domain|evaluating", x["out"]) \
               or re.search(r"OutOfMemory|StackOverflow|Parsing or semantic", x["out"]) or budget[0] <= 0:
                open(WORK + "/failed.out", "w").write(x["out"])
                m = re.search(r"Error: .*", x["out"])
                raise Machinery(f"TLC {module} failed: {m.group(0) if m else ''}\n" + x["out"][-3500:])
            if len(part) == 1:
                if part[0]["id"].startswith("~"):
                    raise Machinery(f"TLC {module} failed:\n" + x["out"][-3500:])
                malformed[part[0]["id"]] = ["malformed:record"]
                return []
            budget[0] -= 1
            h = len(part) // 2
            return judge(part[:h]) + judge(part[h:])
        with cf.ThreadPoolExecutor(shards) as ex:
            rs = [x for l in ex.map(judge, [evs[i::shards] for i in range(shards)]) for x in l]
        if not rs:
            raise Machinery(f"TLC {module}: no record could be judged")
        r = {"out": "", "distinct": 0, "generated": 0}
        for x in rs:
            if not x["ok"]:
                raise Machinery(f"TLC {module} failed:\n" + x["out"][-3500:])
            r["out"] += x["out"] + "\n"
            r["distinct"] += x["distinct"]
            r["generated"] += x["generated"]
        acc, rej, acc_notes = set(), {}, {}
        for line in r["out"].splitlines():
            m = re.match(r'^"?(ACCEPT|REJECT) ([^\s"]+) ?(.*?)"?$', line)
            if m:
                if m.group(1) == "ACCEPT":
                    acc.add(m.group(2))
                    acc_notes.setdefault(m.group(2), m.group(3))
                else:
                    rej.setdefault(m.group(2), []).extend(m.group(3).replace('\\"', '"').strip().split())
        self.accept_notes = acc_notes
        self.last_out = r["out"]
        if exists:     # some behaviour has to accept
            rej = {i: [exists] for i in ids if i not in acc}
            acc = set(acc)
        ids = [i for i in ids if i not in malformed]
        rej.update(malformed)
        for i in ids:
            if (i in acc) == (i in rej) and not (i in acc and i in rej):
                raise Machinery(f"TLC {module}: no verdict on {i}\n" + r["out"][-1500:])
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.validated += len(events)
        bad = {i: c for i, c in rej.items() if not i.startswith("~")}
        undecided = {i for i, x in acc_notes.items() if x in ("unfit", "undecided")}
        missed = [e["id"] for e in negatives if e["id"] not in rej and e["id"] not in undecided]
        self.negs += len(negatives)
        self.models.append({"model": module, "states": r["distinct"], "transitions": r["generated"], "traces": len(events),
                            "corrupted_traces_rejected": len([e for e in negatives if e["id"] in rej])})
        if missed:
            self.missed_negs = getattr(self, "missed_negs", []) + [(module, m) for m in missed]
        return bad

    # ---- verdicts
    def violation(self, what, detail):
        self.violations.append({"what": what, "detail": detail})

    def known_finding(self, key, what):
        """a listed finding was observed; one that is not listed is a violation"""
        if not any(l.startswith(f"known: property={self.prop} id={key} ") for l in open(VERIF + "/known_findings.txt")):
            return self.violation(f"{key}: {what}", {"finding": key})
        if what not in self.known:
            self.known.append(what)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def finish(self, assumptions=()):
        missed = getattr(self, "missed_negs", [])
        if missed and not self.violations:
            raise Machinery(f"corrupted traces were accepted: {missed[:5]}")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated, "samples": self.samples or [{"note": "none"}],
                           "corrupted_traces_rejected": self.negs - len(missed), "cases": self.counts, "models": self.models},
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        if self.violations:
            path = f"{VERIF}/evidence/replay_{self.prop}.json"
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  " + v["what"][:400])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"OK property={self.prop} states={self.states} traces={self.validated} wall={ev['wall_s']}s")
        return 0
