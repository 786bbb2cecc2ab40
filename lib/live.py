"""Liveness: client processes running freely at full speed against each other, then an orderly close at once.
Nothing about results is judged here; every call has to return, every process has to end with success and every server has to leave its state behind."""
import os, threading, time
import data
from world import Died, Hung

def words(x): return "".join("%02x" % (b & 255) for b in x)

class Free:
    """one rank's program; decides each call from its own random stream"""
    def __init__(self, s, rng, shared, solo):
        self.s, self.rng, self.sh, self.solo, self.n = s, rng, shared, solo, 0
        self.conts, self.objs, self.xs, self.nb = [], [], [], 0
    def name(self, k): return "%s%d" % (k, self.rng.randrange(4))
    def run(self, n):
        s, rng = self.s, self.rng
        p = s.i("prop"); s("prop_dims", p, 1, 64); s("prop_type", p, 3)
        self.prop = p
        c = s.i("cont_create", self.name("c"))
        if c: self.conts.append(c)
        for _ in range(n):
            rng.choice(OPS)(self); self.n += 1
        if rng.random() < 0.6: self.settle()
        if rng.random() < 0.5:
            for o in self.objs: s("obj_close", o[0])
            for c in self.conts: s("cont_close", c)
            s("prop_close", p)
    def settle(self):
        """requests outstanding are waited for in one call, one by one, or left to closing"""
        m = self.rng.random()
        if self.xs and m < 0.4: self.s("x_wait_all", *[x for x, st in self.xs if st])
        elif m < 0.8:
            for x, st in self.xs:
                if st: self.s("x_wait", x)
        for x, _ in self.xs: self.s("x_close", x)
        self.xs = []
    # calls
    def o_create(self):
        if not self.conts: return
        nm = self.name("o") if self.rng.random() < 0.6 else "p%d_%d" % (self.s.rank, self.n)
        p = self.prop
        if self.rng.random() < 0.5:
            p = self.s.i("prop_dup", self.prop); self.s("prop_part", p, self.rng.choice([0, 1, 2])); self.s("prop_cons", p, self.rng.choice([0, 1, 2, 3, 4]))
        o = self.s.i("obj_create", self.rng.choice(self.conts), nm, p)
        if o: self.objs.append((o, nm))
    def o_open(self):
        nm = self.name("o"); o = self.s.i("obj_open", nm)
        if o: self.objs.append((o, nm))
    def o_close(self):
        if not self.objs or self.xs: return
        self.s("obj_close", self.objs.pop(self.rng.randrange(len(self.objs)))[0])
    def o_del(self):
        # only what nobody else knows
        mine = [o for o in self.objs if o[1][0] == "p"]
        if mine and not self.xs:
            o = self.rng.choice(mine); self.objs.remove(o); self.s("obj_del", o[0])
    def o_dims(self):
        if self.objs: self.s("get_dims", self.rng.choice(self.objs)[0])
    def c_open(self):
        if self.rng.random() < 0.5: c = self.s.i("cont_create", self.name("c"))
        else: c = self.s.i("cont_open", self.name("c"))
        if c: self.conts.append(c)
    def tag(self):
        if not self.objs: return
        o = self.rng.choice(self.objs)[0]; k = self.rng.random(); t = "t%d" % self.rng.randrange(3)
        if k < 0.5: self.s("tag_put", "o", o, t, 3, words(self.rng.randbytes(self.rng.randint(1, 9))))
        elif k < 0.8: self.s("tag_get", "o", o, t)
        else: self.s("tag_del", "o", o, t)
    def ask(self):
        k = self.rng.random()
        if k < 0.4: self.s("kv", "t%d" % self.rng.randrange(3), 3, words(b"a"))
        elif k < 0.6: self.s("list_all")
        elif k < 0.8: self.s("meta", self.name("o"), 0)
        else: self.s("cont_query", self.name("c"))
    def dart(self):
        k = self.rng.random(); a = self.rng.choice([1, 2, 3])
        key, val = self.name("k"), "v%d" % self.rng.randrange(5)
        if k < 0.5: self.s("dart_ins", a, key, val, self.rng.randrange(1, 1000))
        else: self.s("dart_q", a, "%s=%s" % (key, val))
    def xfer(self):
        if not self.objs: return
        o = self.rng.choice(self.objs)[0]
        if len(self.xs) > 6: return self.settle()
        n = self.rng.randint(1, 3); new = []
        for _ in range(n):
            a = self.rng.randrange(64); k = self.rng.randint(1, 64 - a); b = self.nb; self.nb += 1
            self.s("buf", b, words(self.rng.randbytes(k)))
            l, r = self.s.i("region", 1, 0, k), self.s.i("region", 1, a, k)
            x = self.s.i("x_create", b, self.rng.choice("wr"), o, l, r)
            if x: new.append(x)
        m = self.rng.random()
        if m < 0.4:
            self.s("x_start_all", *new); self.xs += [[x, 1] for x in new]
        else:
            for x in new:
                st = self.rng.random() < 0.9
                if st: self.s("x_start", x)
                self.xs.append([x, st])
        if self.rng.random() < 0.5: self.settle()
    def poll(self):
        if self.xs:
            x = self.rng.choice(self.xs)
            if x[1]: self.s("x_status", x[0])
    def flush(self):
        if self.rng.random() < 0.2: self.s("flush_all")
        elif self.objs: self.s("flush", self.rng.choice(self.objs)[0])
    def blob(self):
        if self.conts: self.s("put_data", "b%d_%d" % (self.s.rank, self.n), self.rng.choice(self.conts), words(self.rng.randbytes(self.rng.randint(1, 40))))
    def ckpt(self):
        if self.rng.random() < 0.3: self.s("checkpoint")
OPS = [Free.o_create] * 3 + [Free.o_open] * 3 + [Free.o_close, Free.o_del, Free.o_dims, Free.c_open] + [Free.tag] * 3 + [Free.ask] * 2 + [Free.dart] + [Free.xfer] * 6 + [Free.poll] * 2 + [Free.flush, Free.blob, Free.ckpt]

def job(w, rng, F, ops):
    """all ranks at once, each at its own pace; the slower ones are still working when the faster ones leave"""
    w.enter(w.c)
    errs, ps = [], [Free(s, rng.__class__(rng.random()), None, False) for s in w.sh]
    lens = [rng.choice([0, 1, ops // 3, ops, ops]) for _ in ps]
    def go(p, n):
        try:
            p.run(n); p.s("fini"); p.s.send("quit"); p.s.recv()
        except (Died, Hung) as e: errs.append(e)
    ts = [threading.Thread(target=go, args=(p, n)) for p, n in zip(ps, lens)]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs: raise next((e for e in errs if isinstance(e, Died)), errs[0])
    for s in w.sh:
        try: s.p.wait(30)
        except Exception: raise Hung("client %d after its last call" % s.rank)
        if s.p.returncode: raise Died("client %d: exit code %d" % (s.rank, s.p.returncode))
    F.stat("calls_returned", sum(len(s.hist) for s in w.sh)); F.stat("processes_ended", len(w.sh))
    for s in w.sh: s.close()
    w.keephist(); w.sh = []

def scenario(ops=25):
    def fn(rng, mk, F):
        e = data.env_of(rng)
        if rng.random() < 0.2: e["PDC_CLIENT_LOOKUP"] = "ALL"
        w = mk(env=e, nclient=rng.choice([1, 2, 3, 4]))
        for gen in range(rng.choice([1, 1, 2, 3])):
            if gen: w.up(restart=rng.random() < 0.8); F.stat("restarts")
            for j in range(rng.choice([0, 1, 1, 1, 2])):
                w.c = rng.choice([1, 2, 3, 4]); job(w, rng, F, ops)
            t0 = time.time()
            old = {}
            for r in range(w.n):
                p = "%s/t/%d/metadata_checkpoint.%d" % (w.cl.root, r, r)
                old[r] = os.stat(p).st_mtime_ns if os.path.exists(p) else None
            w.down(closers=rng.choice([1, 1, w.n, w.n + 1]))
            F.stat("orderly_closes"); F.stat("servers_ended", w.n)
            for r in range(w.n):
                p = "%s/t/%d/metadata_checkpoint.%d" % (w.cl.root, r, r)
                if not os.path.exists(p) or os.stat(p).st_mtime_ns == old[r]: F.fail("P24", "no_state_written", "server %d ended without writing its state" % r)
                elif os.path.exists(p + ".tmp"): F.fail("P24", "state_incomplete", "server %d ended before its state was in place" % r)
                else: F.stat("states_written")
            F.distinct("setup", (w.n, w.c, gen))
    return fn
