"""Isolated execution of cases in worker processes, with crash and hang detection."""
import json, os, shutil, signal, subprocess, tempfile, time, threading
import concurrent.futures as cf
from build import PY, VERIF

WORK = os.path.join(VERIF, ".work")


def _cmd(api, bdir, cin, cout):
    h = os.path.join(VERIF, "harness")
    if api == "py":
        return [PY, h + "/pyworker.py", bdir, cin, cout]
    return ["Rscript", "--vanilla", h + "/rworker.R", bdir, cin, cout]


def _env(extra=None):
    e = dict(os.environ)
    # freed and fresh memory get scrambled, so reads of stale memory become visible
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
             MALLOC_PERTURB_="165", LC_ALL="C.UTF-8", TZ="UTC")
    e.pop("PYTHONPATH", None)
    e.update(extra or {})
    return e


def _limits(san=False):
    import resource
    lim = 8 << 30
    if not san:     # the sanitizer reserves address space
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (3000, 3060))   # should the check itself be killed


def _batch(api, bdir, cases, timeout, d, tag, extra=None):
    """Runs cases in order; returns {id: out}; a case that kills or stalls its worker gets an outcome of its own."""
    results, start, hangs = {}, 0, 0
    san = bdir.endswith("asan")
    if san:
        lib = lambda n: subprocess.run(["g++", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
        extra = {"ASAN_OPTIONS": "detect_leaks=0:handle_segv=0:allocator_may_return_null=1:max_free_fill_size=4096:max_malloc_fill_size=4096:exitcode=77",
                 "LD_PRELOAD": lib("libasan.so") + " " + lib("libstdc++.so"), "MALLOC_PERTURB_": "0", **(extra or {})}
    cin, cout = f"{d}/{tag}.in", f"{d}/{tag}.out"
    while start < len(cases):
        with open(cin, "w") as f:
            for c in cases[start:]:
                f.write(json.dumps({"id": c["id"], "ops": c["ops"]}) + "\n")
        open(cout, "w").close()
        with open(f"{d}/{tag}.err", "w") as ef:
            p = subprocess.Popen(_cmd(api, bdir, cin, cout), env=_env(extra), preexec_fn=lambda: _limits(san),
                                 stdout=subprocess.DEVNULL, stderr=ef, start_new_session=True)
            size, last, hang = 0, time.time(), False
            grace = 60  # interpreter start-up, before anything was produced
            while p.poll() is None:
                time.sleep(0.02)
                s = os.path.getsize(cout)
                if s != size:
                    size, last = s, time.time()
                elif time.time() - last > (timeout if size or start else max(timeout, grace)):
                    hang = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
            rc = p.returncode
        done = 0
        for line in open(cout):
            if not line.endswith("\n"):
                break
            r = json.loads(line)
            results[r["id"]] = r["out"]
            done += 1
        start += done
        if start < len(cases):
            if done == 0 and not hang and rc not in (None, 0) and rc > 0:
                # the worker failed before (or at) its first case: start-up failure or an exit inside the case
                err = open(f"{d}/{tag}.err").read()[-2000:]
                if ("pyworker" in err or "Error" in err) and "AddressSanitizer" not in err:
                    raise RuntimeError("worker failed: " + err)
            results[cases[start]["id"]] = [{"hang": timeout}] if hang else [{"crash": rc, **({"memory": mem[0]} if (mem := [l for l in open(f"{d}/{tag}.err", errors="replace") if "AddressSanitizer" in l]) else {})}]
            start += 1
            hangs += 6 if hang else 1
            if hangs >= 12:     # enough of that
                for c in cases[start:]:
                    results[c["id"]] = [{**results[cases[start - 1]["id"]][0], "assumed": True}]
                break
    return results


def run(api, bdir, cases, timeout=30, procs=8, name="run", extra=None, fresh=False):
    """fresh: a process of its own for every case; extra: environment.
    cases: [{"id","ops"}]; adds c["out"] to each and returns them."""
    if not cases:
        return cases
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix=name + "_", dir=WORK)
    try:
        n = max(1, min(procs, len(cases)))
        parts = [[c] for c in cases] if fresh else [cases[i::n] for i in range(n)]
        with cf.ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(lambda t: _batch(api, bdir, t[1], timeout, d, f"b{t[0]}", extra), enumerate(parts)))
        res = {}
        for o in outs:
            res.update(o)
        for c in cases:
            c["out"] = res[c["id"]]
        return cases
    finally:
        shutil.rmtree(d, ignore_errors=True)
