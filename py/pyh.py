"""Case loop and event log of the Python-driven monitors (same log format as src/vh.hpp)."""
import argparse, collections, gc, hashlib, json, os, random, signal, sys, traceback


class Case:
    def __init__(self, seed, n, scen):
        self.rng = random.Random("%d/%d/%s" % (seed, n, scen))
        self.n, self.scen, self.checks, self.nontriv = n, scen, 0, False
        self.viol, self.h, self.desc, self.keep = [], hashlib.sha256(), [], []

    def note(self, *a):
        s = " ".join(str(x) for x in a)
        self.h.update(s.encode() + b"\n")
        if sum(map(len, self.desc)) < 1500:
            self.desc.append(s[:300])

    def fail(self, key, detail=""):
        self.viol.append((key, str(detail)[:1500]))

    def check(self, ok, key, detail=""):
        self.checks += 1
        if not ok:
            self.fail(key, detail() if callable(detail) else detail)
        return ok


def run(scenarios, counters=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--from", dest="start", type=int, default=0)
    ap.add_argument("--to", type=int, default=100)
    ap.add_argument("--step", type=int, default=1)
    ap.add_argument("--out", default="/dev/stdout")
    a = ap.parse_args()
    names = [n for n, w, f in scenarios for _ in range(w)]
    fns = {n: f for n, w, f in scenarios}
    out = open(a.out, "a", buffering=1)
    samples = 0
    cnt = collections.Counter()
    for n in range(a.start, a.to, a.step):
        scen = names[random.Random("s%d/%d" % (a.seed, n)).randrange(len(names))]
        out.write("B %d %s\n" % (n, scen))
        signal.alarm(int(os.environ.get("VH_ALARM", "90")))
        c = Case(a.seed, n, scen)
        try:
            fns[scen](c)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            at = [f.name for f in tb if "/py/" in f.filename]
            c.fail("unexpected-%s@%s" % (type(e).__name__, at[-1] if at else "?"), traceback.format_exc()[-1200:])
        signal.alarm(0)
        for key, det in c.viol[:3]:
            out.write("V %d %s\n" % (n, json.dumps({"key": scen + ":" + key, "case": n, "desc": " | ".join(c.desc)[:1500], "detail": det})))
        cnt["scenario_" + scen] += 1
        if samples < 3 and not c.viol:
            samples += 1
            out.write("X %s\n" % (scen + ": " + " | ".join(c.desc))[:600].replace("\n", " "))
        out.write("E %d %s %d %d %s\n" % (n, c.h.hexdigest()[:16], 1 if c.nontriv else 0, c.checks, scen))
        del c
        if n % 8 == 0:
            gc.collect()
    if counters:
        cnt.update(counters)
    for k, v in sorted(cnt.items()):
        out.write("C %s %d\n" % (k, v))
    out.write("D\n")
    out.close()
