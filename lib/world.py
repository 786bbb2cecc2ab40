"""Full-stack scenarios: real servers and real client processes over the stand-in
transport; the driver tells every client rank what to call and keeps the model."""
import os, random, re, select, signal, struct, subprocess, threading, time, concurrent.futures as cf
import vb, cluster

class Died(Exception): pass
class Hung(Exception): pass
class Stop(Exception):
    """the scenario cannot usefully continue"""

_safe = re.compile(r"[A-Za-z0-9_.*=<>/:,|~-]")
def enc(s):
    if isinstance(s, int): return str(s)
    if isinstance(s, bytes): return s.hex() or "-"
    if s == "": return "%"
    return "".join(c if _safe.match(c) else "".join("%%%02x" % b for b in c.encode("latin1")) for c in s)
def dec(w):
    if w == "%": return ""
    if w == "%00": return None
    return re.sub(r"%([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), w)

class Shell:
    def __init__(self, cl, exe, rank, size, mdir, env, log):
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        e = dict(cl.env0, VMPI_RANK=str(rank), VMPI_SIZE=str(size), VMPI_DIR=mdir, PDCSH_IN=str(r1), PDCSH_OUT=str(w2), VHG_AUTO="1")
        e.update(env or {})
        self.log = log
        with open(log, "wb") as f:
            self.p = subprocess.Popen([exe], stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=cl.root, pass_fds=(r1, w2), start_new_session=True)
        os.close(r1); os.close(w2)
        self.w, self.r, self.buf, self.rank, self.watch, self.gone = w1, r2, b"", rank, None, cl.alive
        self.hist = []
    def send(self, *words):
        l = " ".join(enc(x) for x in words)
        self.hist.append(l)
        data = (l + "\n").encode()
        try:
            while data:
                n = os.write(self.w, data); data = data[n:]
        except OSError: raise Died("client %d" % self.rank)
    def recv(self, timeout=60):
        end = time.time() + timeout
        dead = None
        while b"\n" not in self.buf:
            t = end - time.time()
            if self.watch and t > 0:
                # servers may be killed on purpose: a reply then never comes
                if not select.select([self.r], [], [], 0.2)[0]:
                    if not self.watch(): raise Died("server")
                    continue
            elif t <= 0: raise Hung("client %d in: %s" % (self.rank, self.hist[-1][:200]))
            elif not select.select([self.r], [], [], min(t, 1))[0]:
                # the answer of a server that is gone is not waited for long
                if not self.gone():
                    dead = dead or time.time()
                    if time.time() - dead > 5: raise Died("server, while client %d was in: %s" % (self.rank, self.hist[-1][:200]))
                continue
            d = os.read(self.r, 1 << 20)
            if not d: raise Died("client %d during: %s" % (self.rank, self.hist[-1][:200]))
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        l = l.decode()
        self.hist[-1] += " -> " + (l if len(l) < 600 else l[:600] + "...")
        return l.split(" ")
    def __call__(self, *words, **kw):
        self.send(*words)
        return self.recv(**kw)
    def i(self, *words, **kw): return int(self(*words, **kw)[0])
    def close(self):
        for fd in (self.w, self.r):
            try: os.close(fd)
            except OSError: pass

class World:
    """cluster plus shells; one per scenario"""
    def __init__(self, bins, rng, nserver=None, nclient=None, env=None, delay_us=None, start=True, optimeout=60):
        self.rng, self.bins = rng, bins
        self.n = nserver or rng.choice([1, 2, 3, 4])
        self.c = nclient or rng.choice([1, 2, 3])
        self.env = dict(env or {})
        delay = rng.choice([0, 0, 0, 200, 1000]) if delay_us is None else delay_us
        self.cl = cluster.Cluster(bins["server"], bins["close"], self.n, env=self.env, delay_us=delay, seed=rng.randrange(1, 1 << 30), auto=0)
        self.sh, self.job, self.done, self.trace = [], 0, False, []
        if start: self.up()
    def up(self, restart=False):
        if not self.cl.start(restart=restart): raise Died("server start%s" % (" (restart)" if restart else ""))
    def enter(self, n=None, env=None):
        n = n or self.c
        self.job += 1
        d = self.cl._d("sh%d" % self.job)
        self.trace.append("-- %d client ranks start (%d servers)" % (n, self.n))
        self.sh = [Shell(self.cl, self.bins["shell"], r, n, d, env, self.cl.root + "/client.sh%d.%d.out" % (self.job, r)) for r in range(n)]
        self.all("init")
        return self.sh
    def all(self, *words, **kw):
        for s in self.sh: s.send(*words)
        return [s.recv(**kw) for s in self.sh]
    def par(self, cmds, **kw):
        """cmds: {rank: words} issued at once"""
        for r, wds in cmds.items(): self.sh[r].send(*wds)
        return {r: self.sh[r].recv(**kw) for r in cmds}
    def leave(self):
        if not self.sh: return
        self.all("fini")
        for s in self.sh: s.send("quit")
        for s in self.sh:
            s.recv()
            try: s.p.wait(30)
            except subprocess.TimeoutExpired: raise Hung("client %d after its last call" % s.rank)
            if s.p.returncode: raise Died("client %d: exit code %d" % (s.rank, s.p.returncode))
            s.close()
        self.keephist(); self.sh = []
    def drop(self):
        """kill the clients"""
        for s in self.sh:
            self.cl._kill(s.p); s.close()
        self.keephist(); self.sh = []
    def keephist(self):
        for s in self.sh:
            self.trace += ["client %d: %s" % (s.rank, h) for h in s.hist]; s.hist = []
    def down(self, timeout=60, closers=1):
        """orderly close; server exit codes"""
        self.trace.append("-- orderly close (%d ranks)" % closers)
        rc, rcs = self.cl.close(timeout, closers)
        if any(r is None for r in rcs) and not any(rcs): raise Hung("server in orderly close (codes %s)" % rcs)
        if rc != 0 or any(rcs): raise Died("orderly close: close_server %s servers %s" % (rc, rcs))
    def crash(self):
        self.trace.append("-- servers killed")
        self.cl.kill()
    def arm(self, rank, kind, k, flush=0):
        """server `rank` dies at its k-th file call (io) or callback (cb) from now on"""
        self.trace.append("-- server %d will die at %s %d (flush %d)" % (rank, kind, k, flush))
        p = self.cl.root + "/arm"
        with open(p + ".new", "w") as f: f.write("%d %s %d %d\n" % (rank, kind, k, flush))
        os.rename(p + ".new", p)
        for s in self.sh: s.watch = self.cl.alive
    def disarm(self):
        try: os.unlink(self.cl.root + "/arm")
        except OSError: pass
    def checkpoint(self, wait=30):
        """asks for a checkpoint; True once server 0 reports that all have written theirs"""
        out = self.cl.logs[0]
        n = open(out, errors="replace").read().count(": checkpointed ")
        self.sh[0]("checkpoint")
        end = time.time() + wait
        while time.time() < end:
            if open(out, errors="replace").read().count(": checkpointed ") > n: return True
            if not self.cl.alive(): return False
            time.sleep(0.003)
        return False
    def reports(self): return self.cl.san_reports()
    def history(self):
        t = list(self.trace)
        for s in self.sh: t += ["client %d: %s" % (s.rank, h) for h in s.hist]
        return "\n".join(t)
    def close(self):
        for s in self.sh:
            if s.p.poll() is None: self.cl._kill(s.p)
            s.close()
        self.sh = []
        self.cl.cleanup()

class Fails:
    """collects what one scenario observed"""
    def __init__(self): self.l, self.stats, self.sets, self.cut = [], {}, {}, None
    def fail(self, prop, sig, detail): self.l.append((prop, sig, detail))
    def stat(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n
    def distinct(self, k, v): self.sets.setdefault(k, set()).add(v)

def shells_bins(san="asan", which=("server", "close", "shell")):
    jobs = {"server": lambda: vb.server(san), "close": lambda: vb.client(vb.SRC + "/api/close_server.c", san if san in ("asan", "msan") else "plain"), "shell": lambda: vb.client(vb.VERIF + "/harness/pdcsh.c", san if san in ("asan", "msan") else "plain")}
    return {k: jobs[k]() for k in which}

def run_one(fn, bins, seed, idx, pid):
    """one scenario in a fresh world; returns Fails"""
    F = Fails()
    rng = random.Random("%s/%s/%s" % (pid, seed, idx))
    holder = []
    def mk(**kw):
        w = World(bins, rng, start=False, **kw); holder.append(w); w.up(); return w
    try:
        fn(rng, mk, F)
    except Stop: pass
    except Died as e: F.cut = ("died", str(e))
    except Hung as e: F.cut = ("hung", str(e))
    except (ValueError, IndexError) as e:
        import traceback
        F.cut = ("harness", traceback.format_exc())
    F.hist, F.san, F.mon, F.out = "", [], [], ""
    for w in holder:
        if F.cut and F.cut[0] == "hung": F.hist += "servers: %s\n" % [p.poll() for p in w.cl.procs]
        F.hist += "servers=%d clients=%d env=%s delay=%s\n" % (w.n, w.c, w.env, w.cl.env0["VHG_DELAY_US"]) + w.history() + "\n"
        if F.cut: time.sleep(0.3)  # let a dying server finish its report
        for p in w.cl.procs:
            rc = p.poll()
            if rc not in (None, 0) and rc != -9: F.hist += "server exit code %s\n" % rc
        for l in w.cl.all_logs(): F.stat("background_flushes", open(l, errors="replace").read().count("(full/every "))
        F.san += w.reports(); F.mon += w.cl.monitor()
        if F.cut: F.out += w.cl.server_output()[-3000:]
        w.close()
    return F

def crash_sig(F):
    for kind, fr, body in F.san:
        if kind not in ("ubsan", "msan") and not kind.startswith("tsan"): return "crash:%s:%s" % (kind, fr), body
    return None, None

def scenarios(ctx, fn, n, bins, pid=None, par=None, extra=None):
    """run n seeded scenarios; report the failures tagged with the property being checked"""
    pid = pid or ctx.pid
    par = par or 4
    hung, t0, limit = [], time.time(), 1e9 if ctx.thorough else 500
    def one(i):
        if len(hung) > 1 or time.time() - t0 > (min(limit, 150) if ctx.broken else limit): return i, None   # a violation found needs no long search for more
        F = run_one(fn, bins, ctx.seed, i, pid)
        if F.cut and F.cut[0] == "hung" and not crash_sig(F)[0] and ctx.broken:
            hung.append(i); ctx.stat("hangs_beside_other_violations"); F.cut = None
        elif F.cut and F.cut[0] == "hung" and not crash_sig(F)[0]:
            G = run_one(fn, bins, ctx.seed, i, pid)   # once more before calling it a hang
            if not (G.cut and G.cut[0] == "hung"): ctx.stat("hangs_not_reproduced"); F = G
            else: hung.append(i)
        return i, F
    with cf.ThreadPoolExecutor(par) as ex:
        for i, F in ex.map(one, range(n)):
            if F is None: ctx.stat("scenarios_skipped_after_hangs" if len(hung) > 1 else "scenarios_out_of_time"); continue
            ctx.stat("cases")
            for kk, v in F.stats.items(): ctx.stat(kk, v)
            for kk, v in F.sets.items():
                for x in v: ctx.distinct(kk, x)
            ctx.distinct("history", (i, hash(F.hist)))
            if i == 0: ctx.sample(F.hist[:1500])
            rep = "scenario %d (VERIF_SEED=%d)\n%s" % (i, ctx.seed, F.hist[-200000:])
            for prop, sig, det in F.l:
                if prop == pid or (isinstance(prop, (tuple, list)) and pid in prop): ctx.fail(sig, det, rep)
                else: ctx.stat("other_property_failures")
            sig, body = crash_sig(F)
            if sig: ctx.fail(sig, "%s\n%s" % (F.cut, body[:3500]), rep)
            elif F.cut:
                if F.cut[0] == "harness": ctx.unclear("scenario %d: %s" % (i, F.cut[1][-1500:])); ctx.stat("harness_errors")
                else: ctx.fail("%s:%s" % (F.cut[0], re.sub(r"client \d+", "client", F.cut[1])[:60]), "%s\n%s" % (F.cut[1], F.out), rep)
            if extra: extra(ctx, i, F, rep)
