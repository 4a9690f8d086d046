"""Builds the Python extension and the R shared object from /repo's working tree.

Nothing is written in /repo: objects and products go to /verif/.build/<hash of the sources>/.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/vp/venv/bin/python"
BUILD = os.path.join(VERIF, ".build")


class BuildError(Exception):
    pass


def _hash(repo):
    h = hashlib.sha256()
    fs = sorted(glob.glob(repo + "/src/**/*", recursive=True) + glob.glob(repo + "/R/*.R")
                + glob.glob(repo + "/humanleague/**/*.py", recursive=True))
    for f in fs + [os.path.abspath(__file__)]:
        if os.path.isfile(f) and not f.endswith((".o", ".so")):
            h.update(os.path.relpath(f, repo).encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stderr[-4000:])


def _compile_all(jobs):
    with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 4)) as ex:
        list(ex.map(_run, jobs))


ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


def _py(repo, out, san=False):
    d = out + ".tmp"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/o")
    inc = subprocess.run([PY, "-c", "import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_paths()['include'])"],
                         capture_output=True, text=True, check=True).stdout.split()
    srcs = [s for s in sorted(glob.glob(repo + "/src/*.cpp")) if os.path.basename(s) not in ("RcppExports.cpp", "rcpp_api.cpp")]
    # slowest first
    srcs.sort(key=lambda s: (os.path.basename(s) != "module.cpp", s))
    opt = ["-O1", "-std=c++20", "-DNDEBUG", "-DPYTHON_MODULE", "-fPIC", "-fvisibility=hidden", "-w",
           "-fno-strict-overflow", "-I" + repo + "/src", "-I" + inc[0], "-I" + inc[1], *(ASAN if san else [])]
    objs = [d + "/o/" + os.path.basename(s) + ".o" for s in srcs]
    _compile_all([["g++", *opt, "-c", s, "-o", o] for s, o in zip(srcs, objs)])
    suffix = subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                            capture_output=True, text=True, check=True).stdout.strip()
    _run(["g++", "-shared", *(ASAN if san else []), *objs, "-o", d + "/_humanleague" + suffix])
    # a second module with the hooks, for checks that start sequences at arbitrary positions; they do without if it cannot be built
    try:
        if san:
            raise BuildError
        hooked = []
        for s, o in zip(srcs, objs):
            if "HUMANLEAGUE_VERIF" in open(s).read():
                _run(["g++", *opt, "-DHUMANLEAGUE_VERIF", "-c", s, "-o", o + ".hook.o"])
                o += ".hook.o"
            hooked.append(o)
        os.makedirs(d + "/hook")
        _run(["g++", "-shared", *hooked, "-o", d + "/hook/_humanleague" + suffix])
    except BuildError:
        shutil.rmtree(d + "/hook", ignore_errors=True)
    shutil.copytree(repo + "/humanleague", d + "/humanleague", ignore=shutil.ignore_patterns("__pycache__"))
    for x in (d, d + "/hook"):
        if os.path.isdir(x):
            if x != d:
                shutil.copytree(d + "/humanleague", x + "/humanleague")
            os.makedirs(x + "/humanleague-0.0.0.dist-info")
            open(x + "/humanleague-0.0.0.dist-info/METADATA", "w").write("Metadata-Version: 2.1\nName: humanleague\nVersion: 0.0.0\n")
    shutil.rmtree(d + "/o")
    shutil.rmtree(out, ignore_errors=True)
    os.rename(d, out)


def _r(repo, out, san=False):
    d = out + ".tmp"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/o")
    rinc = subprocess.run(["R", "RHOME"], capture_output=True, text=True).stdout.strip()
    rcpp = subprocess.run(["Rscript", "--vanilla", "-e", "cat(system.file('include',package='Rcpp'), R.home('include'))"],
                          capture_output=True, text=True, check=True).stdout.split()
    srcs = sorted(glob.glob(repo + "/src/*.cpp"))
    srcs.sort(key=lambda s: (os.path.basename(s) not in ("rcpp_api.cpp", "RcppExports.cpp"), s))
    csrcs = sorted(glob.glob(repo + "/src/*.c"))
    opt = ["-O1", "-DNDEBUG", "-fPIC", "-w", "-I" + repo + "/src", "-I" + rcpp[0], "-I" + rcpp[1], *(ASAN if san else [])]
    jobs, objs = [], []
    for s in srcs:
        o = d + "/o/" + os.path.basename(s) + ".o"
        objs.append(o); jobs.append(["g++", "-std=gnu++17", *opt, "-c", s, "-o", o])
    for s in csrcs:
        o = d + "/o/" + os.path.basename(s) + ".o"
        objs.append(o); jobs.append(["gcc", *opt, "-c", s, "-o", o])
    _compile_all(jobs)
    _run(["g++", "-shared", *(ASAN if san else []), *objs, "-o", d + "/humanleague.so", "-L/usr/lib/R/lib", "-lR"])
    os.makedirs(d + "/R")
    for f in glob.glob(repo + "/R/*.R"):
        shutil.copy(f, d + "/R")
    shutil.rmtree(d + "/o")
    shutil.rmtree(out, ignore_errors=True)
    os.rename(d, out)


def build(what=("py", "r"), repo=None):
    """Returns {"py": dir, "r": dir} of up-to-date products."""
    repo = repo or REPO
    base = os.path.join(BUILD, _hash(repo))
    os.makedirs(base, exist_ok=True)
    with open(base + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        todo = [w for w in what if not os.path.isdir(base + "/" + w)]
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda w: {"py": _py, "r": _r}[w.removesuffix("asan")](repo, base + "/" + w, w.endswith("asan")), todo))
    # keep only the few most recent builds
    olds = sorted((d for d in glob.glob(BUILD + "/*") if os.path.isdir(d) and len(os.path.basename(d)) == 20), key=os.path.getmtime)
    for d in olds[:-14]:
        if d != base:
            shutil.rmtree(d, ignore_errors=True)
    return {w: base + "/" + w for w in what}


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1:] or ("py", "r", "pyasan", "rasan")), round(time.time() - t, 1))
