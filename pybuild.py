"""Builds the Python extension from /repo/bindings with AddressSanitizer, for the Python-driven monitors."""
import hashlib, os, subprocess, sysconfig
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path


def _lib(name):
    return os.path.realpath(subprocess.run(["g++", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True).stdout.strip())


def build(repo, here, Builder, fatal):
    b = Builder(repo, "asan", True)
    # the bindings' own headers and the stand-in solver are part of what is compiled
    h = hashlib.sha256()
    for p in sorted((Path(repo) / "bindings").glob("*")):
        h.update(p.name.encode() + b"\0" + p.read_bytes())
    b.hh_ext = h.hexdigest()[:16]
    inc = ["-I", "/usr/include/python3.12", "-I", "/usr/include/pybind11/..", "-I", str(Path(repo) / "bindings"),
           "-fvisibility=hidden", "-O0", "-DVERIF_EXT_" + b.hh_ext]
    jobs = [(p, tuple(inc)) for p in sorted((Path(repo) / "bindings").glob("*.cpp"))]
    jobs += [(here / "py" / "solver_stub.cpp", ())] + [(s, ()) for s in b.sources()]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: b.compile(*t), jobs))
    for (s, _), (o, err) in zip(jobs, res):
        if err:
            raise fatal("compilation of %s failed:\n%s" % (s, err))
    objs = [str(o) for o, _ in res]
    k = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
    out = b.dir / ("ext-" + k)
    so = out / ("pygsplines" + sysconfig.get_config_var("EXT_SUFFIX"))
    if not so.exists():
        out.mkdir(exist_ok=True)
        r = subprocess.run(["g++", *b.flags, "-shared", *objs, "-o", str(so) + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise fatal("link of the extension failed:\n" + r.stdout[-3000:])
        os.replace(str(so) + ".tmp", so)
    return out


def prepare(a, here, logdir, env, Builder, st, fatal):
    out = build(a.repo, here, Builder, fatal)
    env["LD_PRELOAD"] = _lib("libasan.so") + ":" + _lib("libubsan.so") + ":" + _lib("libstdc++.so.6")
    env["PYTHONPATH"] = "%s:%s:%s" % (Path(a.repo) / "python", out, here / "py")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONMALLOC"] = "malloc"
    env["MPLBACKEND"] = "Agg"
    mpl = logdir / "mpl"
    mpl.mkdir(exist_ok=True)
    env["MPLCONFIGDIR"] = str(mpl)
    env["PYTHONHASHSEED"] = "0"
    # a fill of fresh memory with NaN bytes would slow the interpreter; arrays are judged by value anyway
    env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("max_malloc_fill_size=268435456", "max_malloc_fill_size=65536") + ":allocator_may_return_null=1"
    return here / "py" / st["src"], ["/usr/bin/python3"]
