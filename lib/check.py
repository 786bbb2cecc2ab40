"""Runs one property's check: collects observations and failures, matches them with
known_findings.json, writes the evidence file and decides the exit code.

exit 0  the property held on everything explored (KNOWN-FINDING lines for listed findings)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the check itself could not be carried out (never a verdict)
"""
import json, os, re, sys, time, traceback, collections, threading
import vb

class Inconclusive(Exception):
    pass

class Ctx:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.stats = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.samples, self.fails, self.assumptions = [], [], []
        self.rule = ""
        self.inconclusive = []
        self.lk = threading.Lock()
        self.extra = {}
        self.broken = False   # something was reported that is no known finding

    def stat(self, k, n=1):
        with self.lk: self.stats[k] += n
    def distinct(self, k, v):
        with self.lk: self.sets[k].add(v)
    def sample(self, s, cap=4):
        with self.lk:
            if len(self.samples) < cap: self.samples.append(s)
    def fail(self, sig, detail, replay=None):
        with self.lk: self.fails.append((sig, detail, replay))
        if not self.broken: self.broken = not any(re.fullmatch(k["match"], sig, re.S) for k in self.known())
    def unclear(self, what):
        with self.lk: self.inconclusive.append(what)
    def elapsed(self): return time.time() - self.t0

    def known(self):
        p = vb.VERIF + "/known_findings.json"
        if not os.path.exists(p): return []
        return [k for k in json.load(open(p)).get("findings", []) if k["property"] == self.pid]

    def finish(self):
        kf = self.known()
        new, seen = [], {}
        for sig, detail, replay in self.fails:
            k = next((k for k in kf if re.fullmatch(k["match"], sig, re.S)), None)
            if k is None: new.append((sig, detail, replay))
            else: seen.setdefault(k["id"], (k, sig))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        cov = {}
        cov["evaluations"] = int(self.stats.get("evaluations", self.stats.get("cases", 0)))
        cov["distinct_nontrivial"] = int(sum(len(v) for k, v in self.sets.items() if k == "history")) or int(sum(len(v) for v in self.sets.values()))
        cov["rule"] = self.rule
        cov["samples"] = self.samples or ["(none)"]
        cov["observed"] = {k: v for k, v in sorted(self.stats.items())}
        cov["distinct_observed"] = {k: len(v) for k, v in sorted(self.sets.items())}
        cov.update(self.extra)
        if self.inconclusive: cov["inconclusive"] = self.inconclusive[:20]
        cov["known_findings_seen"] = sorted(seen)
        ev["coverage"] = cov
        if self.assumptions: ev["assumptions"] = self.assumptions
        d = os.environ.get("VERIF_EVIDENCE") or vb.VERIF + "/evidence"
        os.makedirs(d, exist_ok=True)
        tmp = d + "/.%s.tmp%d" % (self.pid, os.getpid())
        with open(tmp, "w") as f: json.dump(ev, f, indent=1)
        os.replace(tmp, d + "/%s.json" % self.pid)
        for kid, (k, sig) in sorted(seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        # a listed finding that did not show up this time is not an alarm; it is only noted
        for k in kf:
            if k["id"] not in seen: print("note: listed finding %s did not reproduce in this run" % k["id"])
        if new:
            rp = d + "/%s.replay.txt" % self.pid
            with open(rp, "w") as f:
                f.write("property %s, seed %d, tier %s\n" % (self.pid, self.seed, self.tier))
                for sig, detail, replay in new[:40]:
                    f.write("\n=== %s\n%s\n" % (sig, detail))
                    if replay: f.write("--- replay\n%s\n" % replay)
            bysig = collections.Counter(s for s, _, _ in new)
            for s, n in bysig.most_common(12):
                print("violation: %s (%d times): %s" % (s, n, next(d for x, d, _ in new if x == s)[:300].replace("\n", " | ")))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        need = self.extra.get("_minimum", 1)
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs %s" % (self.pid, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"], dict(list(cov["observed"].items())[:14])))
        if self.inconclusive: print("inconclusive parts: %s" % self.inconclusive[:5])
        if cov["evaluations"] < need:
            print("ERROR: nothing was observed")
            return 2
        return 0

def main(registry):
    pid = sys.argv[1]
    ctx = Ctx(pid)
    try:
        registry[pid](ctx)
    except vb.BuildError as e:
        print("ERROR: build failed: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        if not ctx.fails: sys.exit(2)
    sys.exit(ctx.finish())
