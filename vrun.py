#!/usr/bin/env python3
"""Runs one property's runtime monitors against the current tree of /repo.

  vrun.py C01 [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE] [--repo DIR]

Exit 0: every monitor quiet.  Exit 1: a violation (line `VIOLATION property=..`).
Anything else: the machinery itself failed (build error, no workload executed...).
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.dont_write_bytecode = True
sys.path.insert(0, str(HERE))
from spec import SPEC  # noqa: E402

NCPU = min(8, os.cpu_count() or 1)
EIGEN = "/usr/include/eigen3"
BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w", "-pipe"]
VARIANTS = {
    "asan": BASE + ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                    "-fsanitize-address-use-after-scope", "-ftrivial-auto-var-init=pattern",
                    "-D_GLIBCXX_ASSERTIONS"],
    "tsan": BASE + ["-O1", "-fsanitize=thread"],
    "plain": BASE + ["-O1", "-D_GLIBCXX_ASSERTIONS"],
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=268435456:"
                    "malloc_fill_byte=255:detect_stack_use_after_return=1:handle_abort=1:"
                    "allocator_may_return_null=0:detect_invalid_pointer_pairs=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4",
    "LC_ALL": "C", "OMP_NUM_THREADS": "1",
}


class Fatal(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(str(x) for x in paths):
        h.update(p.encode()); h.update(b"\0"); h.update(Path(p).read_bytes()); h.update(b"\0")
    return h.hexdigest()


class Builder:
    """Content-addressed incremental build of the library and one harness."""

    def __init__(self, repo, variant, ifopt=False, tag=""):
        self.repo, self.variant, self.ifopt = Path(repo), variant, ifopt
        self.dir = HERE / "build" / (variant + ("-ifopt" if ifopt else "") + tag)
        self.dir.mkdir(parents=True, exist_ok=True)
        self.flags = list(VARIANTS[variant])
        self.inc = ["-I", str(self.repo / "include"), "-I", EIGEN, "-I", str(HERE / "src"),
                    "-I", str(self.repo / "src")]
        if ifopt:
            self.inc += ["-I", str(HERE / "stub")]
        hdrs = [p for p in (self.repo / "include").rglob("*") if p.is_file()]
        hdrs += [p for p in (self.repo / "src").rglob("*") if p.is_file() and p.suffix not in (".cpp", ".cc")]
        hdrs += [p for p in (HERE / "src").glob("*.hpp")]
        if ifopt:
            hdrs += [p for p in (HERE / "stub").rglob("*.h")]
        self.hh = tree_hash(hdrs)

    def sources(self):
        s = sorted(p for p in (self.repo / "src").rglob("*.cpp"))
        if not self.ifopt:
            s = [p for p in s if not self.needs_ifopt(p)]
        return s

    @staticmethod
    def needs_ifopt(p):
        if p.name in ("ipopt_interface.cpp", "ipopt_solver.cpp", "GaussLobattoLagrangeFunctionals.cpp"):
            return True
        return bool(re.search(r"#\s*include\s*<ifopt/|ipopt_interface|LagrangeFunctionals", p.read_text(errors="replace")))

    def obj(self, src, extra=()):
        key = hashlib.sha256((self.hh + str(src) + " ".join(self.flags + list(extra)) + tree_hash([src])).encode()).hexdigest()[:20]
        return self.dir / f"{Path(src).stem}-{key}.o"

    def compile(self, src, extra=()):
        o = self.obj(src, extra)
        if o.exists():
            return o, None
        tmp = o.with_suffix(".tmp%d" % threading.get_ident())
        r = sh(["g++", *self.flags, *extra, *self.inc, "-fPIC", "-c", str(src), "-o", str(tmp)])
        if r.returncode:
            return o, r.stdout[-4000:]
        os.replace(tmp, o)
        return o, None

    def build(self, harness_src, extra_link=(), hflags=()):
        srcs = self.sources()
        if not srcs:
            raise Fatal("no sources in %s" % self.repo)
        order = [(harness_src, tuple(hflags))] + sorted(((s, ()) for s in srcs), key=lambda t: -t[0].stat().st_size)
        order.sort(key=lambda t: 0 if t[0] == harness_src or "Interpolator" in t[0].name else 1)
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda t: self.compile(*t), order))
        for (s, _), (o, err) in zip(order, res):
            if err:
                raise Fatal("compilation of %s failed:\n%s" % (s, err))
        objs = [str(o) for o, _ in res]
        k = hashlib.sha256(" ".join(objs + list(extra_link)).encode()).hexdigest()[:20]
        exe = self.dir / f"{Path(harness_src).stem}-{k}.exe"
        if not exe.exists():
            r = sh(["g++", *self.flags, *objs, "-o", str(exe) + ".tmp", "-lpthread", *extra_link])
            if r.returncode:
                raise Fatal("link failed:\n" + r.stdout[-3000:])
            os.replace(str(exe) + ".tmp", exe)
        # objects of trees that are gone are not kept
        for p in self.dir.glob("*"):
            if p.name.startswith("ext-") and time.time() - p.stat().st_mtime > 6 * 3600:
                shutil.rmtree(p, ignore_errors=True)
            elif p.suffix in (".o", ".exe") and time.time() - p.stat().st_mtime > 6 * 3600:
                p.unlink()
        return exe


class Result:
    def __init__(self):
        self.viol, self.fps, self.samples, self.counters, self.per = [], set(), [], {}, {}
        self.evals = self.checks = self.nontriv = 0
        self.done_cases = set()
        self.lock = threading.Lock()
        self.incomplete = []


def parse_log(path, res, scen):
    last, open_case, finished = None, None, False
    if not path.exists():
        return None, False
    for line in path.read_text(errors="replace").splitlines():
        t = line[:2]
        if t == "B ":
            p = line.split(" ", 2); open_case = (int(p[1]), p[2] if len(p) > 2 else "")
        elif t == "E ":
            p = line.split(" ", 5)
            c = int(p[1]); open_case = None
            with res.lock:
                res.done_cases.add(c); res.evals += 1; res.checks += int(p[4])
                res.per.setdefault(p[5], [0, 0]); res.per[p[5]][0] += 1
                if p[3] == "1":
                    res.nontriv += 1; res.fps.add(p[2]); res.per[p[5]][1] += 1
        elif t == "V ":
            try:
                j = json.loads(line.split(" ", 2)[2])
            except Exception:
                j = {"key": "unparsed", "case": open_case[0] if open_case else -1, "desc": "", "detail": line}
            with res.lock:
                res.viol.append(j)
        elif t == "X ":
            with res.lock:
                if len(res.samples) < 8:
                    res.samples.append(line[2:])
        elif t == "C ":
            p = line[2:].rsplit(" ", 1)
            with res.lock:
                res.counters[p[0]] = res.counters.get(p[0], 0) + int(p[1])
        elif line == "D":
            finished = True
    return open_case, finished


def crash_key(err, rc):
    loc = re.search(r"/repo/[\w/]*?(\w+\.[ch]pp)", err)
    loc = ":" + loc.group(1) if loc else ""
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)", err)
    if m:
        return "crash:%s:%s%s" % (m.group(1), m.group(2), loc)
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "crash:ubsan:" + re.sub(r"[0-9.x]+", "#", m.group(1))[:60]
    m = re.search(r"Assertion", err)
    if m:
        return "crash:assertion"
    return "crash:rc%d" % rc


def run_worker(exe, seed, start, total, step, logdir, wid, res, env, wrap, timeout, stop, hang_ok):
    frm, round_ = start, 0
    while frm < total and not stop.is_set():
        round_ += 1
        log = logdir / f"w{wid}-{round_}.log"
        if log.exists():
            log.unlink()
        errf = logdir / f"w{wid}-{round_}.err"
        cmd = wrap + [str(exe), "--seed", str(seed), "--from", str(frm), "--to", str(total), "--step", str(step),
                      "--out", str(log)]
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, start_new_session=True)
            t0 = time.time()
            why = None
            while p.poll() is None:
                if time.time() - t0 > timeout or stop.is_set():
                    why = "timeout" if not stop.is_set() else "stopped"
                    try:
                        os.killpg(p.pid, 9)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
                time.sleep(0.02)
        open_case, finished = parse_log(log, res, None)
        err = errf.read_text(errors="replace")[-6000:]
        if finished and p.returncode == 0:
            return
        if why == "stopped":
            return
        if why == "timeout":
            with res.lock:
                res.incomplete.append("worker %d timed out in case %s" % (wid, open_case))
            return
        if open_case is None:
            with res.lock:
                if finished:  # all cases ran, but the process did not end well
                    res.viol.append({"key": crash_key(err, p.returncode) + "@exit", "case": -1, "desc": "process end", "detail": err})
                else:
                    res.incomplete.append("worker %d ended with %s outside a case: %s" % (wid, p.returncode, err[-800:]))
            return
        c, name = open_case
        if p.returncode == -14:  # per-case alarm: run it alone once more before calling it a hang
            hl = logdir / f"h{wid}-{round_}.log"
            try:
                e2 = dict(env); e2["VH_ALARM"] = str(max(150, 2 * int(env.get("VH_ALARM", "60"))))
                q = subprocess.run(wrap + [str(exe), "--seed", str(seed), "--from", str(c), "--to", str(c + 1), "--step", "1", "--out", str(hl)],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e2, timeout=420)
                hung = q.returncode == -14
            except subprocess.TimeoutExpired:
                hung = True
            if hung:
                with res.lock:
                    res.viol.append({"key": "hang:" + name, "case": c, "desc": name, "detail": "case never finished"})
                stop.set()  # every further hang would cost minutes
            else:
                parse_log(hl, res, None)
        else:
            with res.lock:
                res.viol.append({"key": crash_key(err, p.returncode), "case": c, "desc": name,
                                 "detail": "rc=%s %s" % (p.returncode, err[-2500:])})
                res.done_cases.add(c); res.evals += 1
        frm = c + step
        with res.lock:
            if len(res.viol) > 60:
                stop.set()


def load_known(pid):
    out = []
    f = HERE / "known-findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    sp = SPEC[a.property]
    os.environ["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    logdir = HERE / "build" / "log" / ("%s-%d" % (a.property, os.getpid()))
    shutil.rmtree(logdir, ignore_errors=True)
    logdir.mkdir(parents=True)
    try:
        rc = check(a, sp, logdir, t0)
    except Fatal as e:
        print("ERROR property=%s %s" % (a.property, e))
        rc = 3
    finally:
        shutil.rmtree(logdir, ignore_errors=True)
    sys.exit(rc)


def check(a, sp, logdir, t0):
    env = dict(os.environ); env.update(ENV); env["VERIF_TIER"] = a.tier; env["VERIF_SEED"] = str(a.seed)
    env["VH_SCRATCH"] = str(logdir)
    res = Result()
    stages = sp["stages"]
    replay = None
    seed = a.seed
    if a.replay:
        replay = json.loads(Path(a.replay).read_text())
        seed = replay["seed"]
    stage_info = {}
    for st in stages:
        if replay and replay.get("stage", st["name"]) != st["name"]:
            continue
        if st.get("tiers") and a.tier not in st["tiers"]:
            continue
        ncases = a.cases or (st["quick"] if a.tier == "quick" else st["thorough"])
        b0, c0, k0 = time.time(), res.evals, res.checks
        v0 = len(res.viol)
        if "pyfunc" in st:
            import importlib
            mod = importlib.import_module(st["pyfunc"])
            exe, wrap = mod.prepare(a, HERE, logdir, env, Builder, st, Fatal)
        else:
            b = Builder(a.repo, st["variant"], st.get("ifopt", False))
            exe = b.build(HERE / "src" / st["src"], st.get("link", ()), st.get("hflags", ()))
            wrap = st.get("wrap", [])
        e2 = dict(env)
        for k, v in st.get("env", {}).items():
            e2[k] = e2.get(k, "") + v if v.startswith(":") else v
        if a.build_only:
            continue
        bt = time.time()
        stop = threading.Event()
        nw = st.get("workers", NCPU)
        per = [(i, ncases, nw) for i in range(min(nw, ncases))]
        if replay:
            per = [(c, c + 1, 1) for c in replay["cases"]]
        timeout = st.get("timeout", 420 if a.tier == "quick" else 7000)
        with ThreadPoolExecutor(nw) as ex:
            futs = [ex.submit(run_worker, exe, seed, s, t, k, logdir, "%s%d" % (st["name"], i) if False else i + 1000 * stages.index(st), res, e2, wrap, timeout, stop, False)
                    for i, (s, t, k) in enumerate(per)]
            for f in futs:
                f.result()
        for v in res.viol[v0:]:
            v["stage"] = st["name"]
        stage_info[st["name"]] = {"build_s": round(bt - b0, 1), "run_s": round(time.time() - bt, 1),
                                  "cases": res.evals - c0, "monitor_checks": res.checks - k0, "instrumentation": st.get("variant", "python")}
    if a.build_only:
        return 0
    known = load_known(a.property)
    new, hit = [], {}
    for v in res.viol:
        for k, d in known:
            if v["key"] == k:
                hit[k] = d
                break
        else:
            new.append(v)
    for k, d in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (a.property, d))
    cov = {
        "evaluations": res.evals,
        "distinct_nontrivial": len(res.fps),
        "rule": sp["rule"],
        "samples": res.samples[:6] or ["(none)"],
        "monitor_checks": res.checks,
        "cases_per_scenario": {k: {"run": v[0], "nontrivial": v[1]} for k, v in sorted(res.per.items())},
        "observed_events": dict(sorted(res.counters.items())),
        "stages": stage_info,
        "exhaustive": False,
    }
    if res.incomplete:
        cov["incomplete"] = res.incomplete[:10]
    ev = {"property": a.property, "tier": a.tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": sp.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if not replay:
        (HERE / "evidence").mkdir(exist_ok=True)
        (HERE / "evidence" / (a.property + ".json")).write_text(json.dumps(ev, indent=1))
    if new:
        (HERE / "replays").mkdir(exist_ok=True)
        st = new[0].get("stage")
        cases = sorted({v["case"] for v in new if v.get("stage") == st and v["case"] >= 0})[:20]
        rp = HERE / "replays" / ("%s-%s-%d.json" % (a.property, a.tier, seed))
        rp.write_text(json.dumps({"property": a.property, "stage": st, "seed": seed, "tier": a.tier, "cases": cases,
                                  "command": "python3 /verif/vrun.py %s --replay %s" % (a.property, rp),
                                  "violations": new[:40]}, indent=1))
        seen = set()
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            print("  %s [case %s] %s | %s" % (v["key"], v["case"], v["desc"][:300], v["detail"][-1500:] if v["key"].startswith("crash") else v["detail"][:500]))
        print("VIOLATION property=%s replay=%s" % (a.property, rp))
        return 1
    if res.incomplete and not replay:
        for s in res.incomplete:
            print("INCOMPLETE " + s)
        if res.evals < 0.5 * max(1, sum((s["quick"] if a.tier == "quick" else s["thorough"]) for s in stages if not s.get("tiers") or a.tier in s["tiers"])):
            raise Fatal("the workload did not run")
    if res.evals == 0 or (not replay and len(res.fps) < max(1, min(3, res.evals))):
        raise Fatal("nothing was observed (%d cases, %d nontrivial)" % (res.evals, len(res.fps)))
    print("OK property=%s cases=%d nontrivial=%d monitor_checks=%d wall=%.1fs" % (a.property, res.evals, len(res.fps), res.checks, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
