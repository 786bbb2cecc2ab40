"""Starts/stops real PDC servers and client programs over the stand-in transport,
inside a scratch directory."""
import os, signal, subprocess, tempfile, time, shutil, re, glob

ASAN = "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:hard_rss_limit_mb=3000"
UBSAN = "print_stacktrace=1:halt_on_error=0"

class Cluster:
    def __init__(self, server_bin, close_bin, nserver=1, env=None, delay_us=0, seed=1, auto=0, root=None, keep=False, exit_at=0, libfault=None):
        self.root = root or tempfile.mkdtemp(prefix="pv", dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.own = root is None
        self.server_bin, self.close_bin, self.n = server_bin, close_bin, nserver
        self.env0 = dict(os.environ)
        for k in list(self.env0):
            if k.startswith(("PDC_", "VHG_", "VMPI_")): del self.env0[k]
        self.env0.update({"PDC_TMPDIR": self.root + "/t", "PDC_DATA_LOC": self.root + "/d", "VHG_DIR": self.root, "VHG_LOG": self.root + "/vhg.log",
                          "ASAN_OPTIONS": ASAN + ":log_path=" + self.root + "/san", "UBSAN_OPTIONS": UBSAN + ":log_path=" + self.root + "/san",
                          "MSAN_OPTIONS": "exitcode=0:halt_on_error=0:log_path=" + self.root + "/san",
                          "TSAN_OPTIONS": "exitcode=0:halt_on_error=0:history_size=4:log_path=" + self.root + "/san",
                          "VHG_DELAY_US": str(delay_us), "VHG_SEED": str(seed), "VHG_AUTO": str(auto)})
        if env: self.env0.update(env)
        self.procs, self.logs, self.gen = [], [], 0
        os.makedirs(self.root + "/t", exist_ok=True); os.makedirs(self.root + "/d", exist_ok=True)

    def start(self, restart=False, timeout=60, env=None):
        self.gen += 1
        self.procs, self.logs = [], []
        cfg = self.root + "/t/server.cfg"
        if os.path.exists(cfg): os.unlink(cfg)
        for r in range(self.n):
            e = dict(self.env0, VMPI_RANK=str(r), VMPI_SIZE=str(self.n), VMPI_DIR=self._d("sm%d" % self.gen))
            if env: e.update(env)
            lg = self.root + "/server.%d.%d.out" % (self.gen, r)
            self.logs.append(lg)
            with open(lg, "wb") as f:
                self.procs.append(subprocess.Popen([self.server_bin] + (["restart"] if restart else []), stdout=f, stderr=subprocess.STDOUT, env=e, cwd=self.root, start_new_session=True))
        end = time.time() + timeout
        while time.time() < end:
            if all(p.poll() is not None for p in self.procs): return False
            if any(p.poll() not in (None,) for p in self.procs): return False
            try:
                if "Server ready" in open(self.logs[0], errors="replace").read(): return True
            except OSError: pass
            time.sleep(0.01)
        return False

    def _d(self, n):
        d = self.root + "/" + n
        os.makedirs(d, exist_ok=True)
        return d

    def clients(self, prog, args=(), n=1, timeout=120, env=None, tag=None, stdin=None, stop=None):
        """run an n-rank client job; returns list of (rc, output) (rc None: timed out)"""
        self.job = getattr(self, "job", 0) + 1
        d = self._d("cm%d" % self.job)
        ps, lg = [], []
        for r in range(n):
            e = dict(self.env0, VMPI_RANK=str(r), VMPI_SIZE=str(n), VMPI_DIR=d)
            if env: e.update(env)
            p = self.root + "/client.%d.%d.out" % (self.job, r)
            lg.append(p)
            with open(p, "wb") as f:
                ps.append(subprocess.Popen([prog] + [str(a) for a in args], stdout=f, stderr=subprocess.STDOUT, env=e, cwd=self.root, start_new_session=True, stdin=subprocess.DEVNULL))
        end = time.time() + timeout
        if stop:
            while time.time() < end and any(p.poll() is None for p in ps) and not stop(): time.sleep(0.02)
            end = time.time() + (1 if stop() else 0)
        for p in ps:
            try: p.wait(max(0.1, end - time.time()))
            except subprocess.TimeoutExpired: pass
        out = []
        for p, l in zip(ps, lg):
            rc = p.poll()
            if rc is None: self._kill(p)
            out.append((rc, open(l, errors="replace").read()))
        return out

    def _kill(self, p):
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        try: p.wait(5)
        except subprocess.TimeoutExpired: pass

    def close(self, timeout=60, n=1):
        """orderly shutdown via the project's own close_server client; True if every server left with code 0"""
        fell = []
        def stop():  # a server that failed will not let the others finish
            if not fell and any(p.poll() not in (None, 0) for p in self.procs): fell.append(time.time())
            return fell and time.time() - fell[0] > 5
        r = self.clients(self.close_bin, n=n, timeout=timeout, stop=stop)
        end = time.time() + timeout
        while time.time() < end and any(p.poll() is None for p in self.procs) and not stop(): time.sleep(0.01)
        if fell: end = 0
        rcs = []
        for p in self.procs:
            try: p.wait(max(0.1, end - time.time()))
            except subprocess.TimeoutExpired: pass
            rcs.append(p.poll())
            if p.poll() is None: self._kill(p)
        self.procs = []
        return next((x for x, _ in r if x != 0), 0), rcs

    def try_close(self, timeout=60):
        """an orderly close during which a server is going to die"""
        fell = lambda: any(p.poll() not in (None, 0) for p in self.procs)
        self.clients(self.close_bin, n=1, timeout=timeout, stop=fell)
        end = time.time() + timeout
        while time.time() < end and any(p.poll() is None for p in self.procs):
            if fell(): time.sleep(0.3); break
            time.sleep(0.02)

    def kill(self):
        for p in self.procs: self._kill(p)
        self.procs = []

    def alive(self): return all(p.poll() is None for p in self.procs)

    def san_reports(self):
        """[(kind, frames-signature, text)] from every sanitizer log"""
        out = []
        for f in sorted(glob.glob(self.root + "/san.*")):
            out += parse_san(open(f, errors="replace").read())
        return out

    def monitor(self):
        try: return [l.split(" ", 1)[1] for l in open(self.root + "/vhg.log", errors="replace").read().splitlines() if " " in l]
        except OSError: return []

    def all_logs(self): return sorted(glob.glob(self.root + "/server.*.out"))
    def server_output(self): return "".join(open(l, errors="replace").read() for l in sorted(glob.glob(self.root + "/server.*.out")))

    def cleanup(self):
        self.kill()
        if self.own and not os.environ.get("VERIF_KEEP"): shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self): return self
    def __exit__(self, *a): self.cleanup()

def leaks(body, own=False):
    """own: what the harness allocated and handed over counts, too"""
    out = []
    for part in body.split("\n\n"):
        if "Direct leak of" not in part: continue
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", part)
        src = [a for a, b in fr if "/src/" in b][:3]
        if not src and own: src = ["harness"] + [re.sub(r"\(.*", "", a) for a, b in fr if "/harness/" in b and "mb::" not in a][:1]
        if src: out.append(("leak", ">".join(src), part[:2500]))
    return out

def parse_san(t, own=False):
    out = []
    # address/thread sanitizer
    for m in re.finditer(r"==\d+==ERROR: (\w+Sanitizer): ([\w-]+).*?(?=\n==\d+==ABORTING|\Z)", t, re.S):
        body = m.group(0)
        if m.group(1) == "LeakSanitizer":
            if m.group(2) == "detected": out += leaks(body, own)
            continue
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (?:/repo/)?(\S+)", body.split("\n\n")[0])
        fr = [a for a, b in fr if b.startswith("src/")][:3] or [a for a, b in fr][:3]
        out.append((m.group(2), ">".join(fr), body))
    for m in re.finditer(r"^(\S+?):(\d+):(\d+): runtime error: (.*)$", t, re.M):
        f = m.group(1)
        f = f[6:] if f.startswith("/repo/") else f
        tail = t[m.end():m.end() + 2000]
        fm = re.search(r"#0 0x[0-9a-f]+ in (\S+)", tail)
        fn = fm.group(1) if fm else "?"
        out.append(("ubsan", "%s:%s: %s" % (os.path.basename(f), fn, re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(4))[:90]), t[m.start():m.start() + 800]))
    for m in re.finditer(r"WARNING: MemorySanitizer: ([\w-]+).*?(?=\n==\d+==WARNING|\nSUMMARY: |\Z)", t, re.S):
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", m.group(0).split("\n\n")[0])
        out.append(("msan", ">".join(a for a, b in fr[:3]), m.group(0)[:4000]))
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^\n(]+).*?(?=\n==================|\Z)", t, re.S):
        body = m.group(0)
        secs = re.split(r"\n\n", body)
        sig = []
        for s in secs[:2]:
            fr = re.findall(r"#\d+ (\S+) (\S+)", s)
            fr = [a for a, b in fr if "/src/" in b][:1]
            sig += fr
        out.append(("tsan " + m.group(1).strip(), "|".join(sorted(sig)), body))
    return out
