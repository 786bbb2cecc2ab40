"""Mapped buffers and region locks: a model of element values and of who holds which lock.

One mapping per region of an object at a time; locks exclude each other when their regions are the same."""
import threading, time, itertools
from world import Died, Hung

TYPES = [(0, 4), (1, 4), (2, 8), (3, 1)]   # enum pdc_var_type_t: int, float, double, char; element size

class Obj:
    def __init__(self, rng, n):
        self.n = "m%d" % n
        self.type, self.unit = rng.choice(TYPES)
        nd = rng.choice([1, 1, 2, 3])
        self.dims = [rng.randint(1, {1: 60, 2: 12, 3: 6}[nd]) for _ in range(nd)]
        self.part = rng.choice([0, 1])   # the whole object on one server (the one mapped buffers use), or spread over the servers
        self.v = {}           # index -> element bytes
        self.h = {}           # rank -> handle
        self.maps = {}        # region -> (rank, handle, buffer number, buffer content)
        self.held = {}        # region -> rank
    def region(self, rng):
        off = [rng.randrange(d) for d in self.dims]
        cnt = [rng.randint(1, d - o) for d, o in zip(self.dims, off)]
        if rng.random() < 0.2: off, cnt = [0] * len(self.dims), list(self.dims)
        return tuple(off), tuple(cnt)
    def cells(self, reg):
        return list(itertools.product(*[range(o, o + c) for o, c in zip(*reg)]))

def overlap(a, b):
    return all(x < y + d and y < x + c for x, c, y, d in zip(a[0], a[1], b[0], b[1]))

class Maps:
    def __init__(self, w, rng, F, pid):
        self.w, self.rng, self.F, self.pid, self.nbuf = w, rng, F, pid, 10
        self.objs = []
    def make(self, n):
        s = self.w.sh[0]
        c = s.i("cont_create", "c")
        for k in range(n):
            o = Obj(self.rng, k)
            p = s.i("prop"); s("prop_dims", p, len(o.dims), *o.dims); s("prop_type", p, o.type); s("prop_part", p, o.part)
            o.h[0] = s.i("obj_create", c, o.n, p)
            for t in self.w.sh[1:]: o.h[t.rank] = t.i("obj_open", o.n)
            if not all(o.h.values()): self.F.fail("P01", "map:open", o.n)
            self.objs.append(o)
    def reg(self, s, reg): return s.i("region", len(reg[0]), *reg[0], *reg[1])
    def do_map(self, s, o, reg, fill=None):
        n = len(o.cells(reg)); b = self.nbuf = self.nbuf + 1
        data = fill if fill is not None else self.rng.randbytes(n * o.unit)
        s("buf", b, data.hex())
        l = s.i("region", len(reg[0]), *[0] * len(reg[0]), *reg[1]); g = self.reg(s, reg)
        if s.i("map", b, o.type, l, o.h[s.rank], g) != 0: self.F.fail(self.pid, "map_refused", repr((o.n, reg))); return False
        o.maps[reg] = [s.rank, g, b, data]
        self.F.stat("buffers_mapped")
        return True
    def unmap(self, o, reg):
        r, g, b, _ = o.maps.pop(reg)
        if self.w.sh[r].i("unmap", o.h[r], g) != 0: self.F.fail(self.pid, "unmap_refused", repr((o.n, reg)))
        self.F.stat("buffers_unmapped")
        d = self.w.sh[r]("dump", b)
        self.w.sh[r]("bfree", b)
    def put(self, o, reg, data):
        for i, c in enumerate(o.cells(reg)): o.v[c] = data[i * o.unit:(i + 1) * o.unit]
    def change(self, o, reg):
        """the buffer changes while it is mapped: what counts is what it holds when the lock is released"""
        m = o.maps[reg]; m[3] = self.rng.randbytes(len(m[3]))
        self.w.sh[m[0]]("buf_set", m[2], m[3].hex())
    def lock(self, s, o, g, rw, mode="n", want=0):
        r = s.i("lock", o.h[s.rank], g, rw, "nb" if mode == "n" else "b")
        if (r == 0) != (want == 0): self.F.fail(self.pid, "lock_granted_twice" if r == 0 else "lock_refused", repr((o.n, s.rank, rw, r)))
        self.F.stat("locks_granted" if r == 0 else "locks_refused")
        return r == 0
    def unlock(self, s, o, g, rw):
        if s.i("unlock", o.h[s.rank], g, rw) != 0: self.F.fail(self.pid, "unlock_refused", repr((o.n, s.rank, rw)))
    def write(self, o, reg):
        r, g, b, data = o.maps[reg]; s = self.w.sh[r]
        if self.rng.random() < 0.5: self.change(o, reg)
        if not self.lock(s, o, g, "w", self.rng.choice("nb")): return
        if self.rng.random() < 0.5: self.change(o, reg)
        self.unlock(s, o, g, "w")
        self.put(o, reg, o.maps[reg][3]); self.F.stat("map_writes")
        self.same(o, reg, "the buffer of a write")
    def read(self, o, reg):
        r, g, b, _ = o.maps[reg]; s = self.w.sh[r]
        mark = bytes([0xA5]) * len(o.maps[reg][3])
        s("buf_set", b, mark.hex())
        if not self.lock(s, o, g, "r", self.rng.choice("nb")): return
        self.unlock(s, o, g, "r")
        got = bytes.fromhex(s("dump", b)[1])
        o.maps[reg][3] = got
        self.check(o, reg, got, "map_read")
    def check(self, o, reg, got, sig):
        bad = [(c, o.v[c].hex(), got[i * o.unit:(i + 1) * o.unit].hex()) for i, c in enumerate(o.cells(reg)) if c in o.v and o.v[c] != got[i * o.unit:(i + 1) * o.unit]]
        self.F.stat("elements_compared", sum(c in o.v for c in o.cells(reg))); self.F.stat(sig + "s")
        if bad: self.F.fail(self.pid, sig, "%s %s %r: %d elements wrong, first %r" % (o.n, o.dims, reg, len(bad), bad[0]))
    def same(self, o, reg, what):
        r, g, b, data = o.maps[reg]
        got = bytes.fromhex(self.w.sh[r]("dump", b)[1])
        if got != data: self.F.fail(self.pid, "buffer_changed", "%s %r: %s changed" % (o.n, reg, what))
    def xread(self, o):
        """what a mapped buffer wrote is what a transfer request reads"""
        if o.part == 1 and self.w.n > 1: return
        s = self.rng.choice(self.w.sh); reg = self.rng.choice(list(o.maps) or [o.region(self.rng)])
        if self.rng.random() < 0.5: reg = o.region(self.rng)
        n = len(o.cells(reg)) * o.unit; b = self.nbuf = self.nbuf + 1
        s("buf", b, "a5" * n)
        x = s.i("x_create", b, "r", o.h[s.rank], s.i("region", 1, 0, len(o.cells(reg))), self.reg(s, reg))
        s("x_start", x); s("x_wait", x); s("x_close", x)
        self.check(o, reg, bytes.fromhex(s("dump", b)[1]), "transfer_read")
        s("bfree", b)
    def xwrite(self, o):
        """and what a transfer request writes is what a mapped buffer reads"""
        if o.part == 1 and self.w.n > 1: return
        s = self.rng.choice(self.w.sh); reg = self.rng.choice(list(o.maps) or [o.region(self.rng)])
        if self.rng.random() < 0.5: reg = o.region(self.rng)
        n = len(o.cells(reg)); b = self.nbuf = self.nbuf + 1
        d = self.rng.randbytes(n * o.unit)
        s("buf", b, d.hex())
        x = s.i("x_create", b, "w", o.h[s.rank], s.i("region", 1, 0, n), self.reg(s, reg))
        s("x_start", x); s("x_wait", x); s("x_close", x); s("bfree", b)
        self.put(o, reg, d); self.F.stat("transfer_writes")
    def contend(self, o):
        """one holder: the others are refused or wait, and get it one after the other"""
        w, rng = self.w, self.rng
        reg = rng.choice(list(o.maps)) if o.maps and rng.random() < 0.4 else o.region(rng)
        m = o.maps.get(reg)
        order = list(w.sh); rng.shuffle(order)
        if m: order = [w.sh[m[0]]] + [s for s in order if s.rank != m[0]]
        gs = {s.rank: m[1] if m and s.rank == m[0] else self.reg(s, reg) for s in order}
        rws = {s.rank: "w" if m and s.rank == m[0] else rng.choice("rw") for s in order}
        s0 = order[0]
        if not self.lock(s0, o, gs[s0.rank], rws[s0.rank]): return
        for s in order[1:] if rng.random() < 0.7 else []:
            self.lock(s, o, gs[s.rank], rng.choice("rw"), "n", -1)
        other = o.region(rng)   # a lock on another region of the object does not matter
        if other != reg and other not in o.maps and rng.random() < 0.5:
            t = rng.choice(order); g = self.reg(t, other)
            if self.lock(t, o, g, "w"): self.unlock(t, o, g, "w")
        waiting = [] if m else [s for s in order[1:] if rng.random() < 0.7]
        for s in waiting: s.send("lock", o.h[s.rank], gs[s.rank], rws[s.rank], "b")
        if waiting:
            time.sleep(0.03)
            for s in waiting:
                if self.ready(s): self.F.fail(self.pid, "lock_granted_twice", "%s rank %d got %r while rank %d held it" % (o.n, s.rank, reg, s0.rank))
        self.unlock(s0, o, gs[s0.rank], rws[s0.rank])
        if m: self.put(o, reg, o.maps[reg][3])
        left = list(waiting)
        while left:
            end = time.time() + 60
            got = []
            while not got and time.time() < end:
                got = [s for s in left if self.ready(s)]
                if not got: time.sleep(0.002)
            if not got: raise Hung("rank %s waits for a lock nobody holds" % [s.rank for s in left])
            time.sleep(0.01)
            got = [s for s in left if self.ready(s)]
            if len(got) > 1: self.F.fail(self.pid, "lock_granted_twice", "%s ranks %r both hold %r" % (o.n, [s.rank for s in got], reg))
            for s in got:
                if int(s.recv()[0]) != 0: self.F.fail(self.pid, "lock_wait_refused", o.n)
                self.unlock(s, o, gs[s.rank], rws[s.rank]); left.remove(s); self.F.stat("locks_waited_for")
        self.F.stat("contentions")
    def ready(self, s):
        import select
        return b"\n" in s.buf or bool(select.select([s.r], [], [], 0)[0])
    def race(self, o):
        """all ranks at once take and release the same lock; who has it when is recorded and checked for overlap"""
        if len(self.w.sh) < 2: return
        reg = o.region(self.rng); log = []; errs = []
        if reg in o.maps: return
        seeds = [self.rng.random() for _ in self.w.sh]
        def go(s, seed):
            rng = self.rng.__class__(seed)
            try:
                g = self.reg(s, reg)
                for _ in range(rng.randint(1, 6)):
                    rw = rng.choice("rw"); blk = rng.choice("nbb")
                    if s.i("lock", o.h[s.rank], g, rw, "nb" if blk == "n" else "b") == 0:
                        a = time.monotonic()
                        if rng.random() < 0.5: time.sleep(rng.random() * 0.004)
                        b = time.monotonic()
                        log.append((a, b, s.rank))
                        if s.i("unlock", o.h[s.rank], g, rw) != 0: errs.append("unlock refused, rank %d" % s.rank)
                    elif blk == "b": errs.append("lock refused, rank %d" % s.rank)
            except (Died, Hung) as e: errs.append(e)
        ts = [threading.Thread(target=go, args=x) for x in zip(self.w.sh, seeds)]
        for t in ts: t.start()
        for t in ts: t.join()
        for e in errs:
            if isinstance(e, Exception): raise e
            self.F.fail(self.pid, "race_refused", e)
        log.sort()
        for x, y in zip(log, log[1:]):
            if y[0] < x[1]: self.F.fail(self.pid, "lock_granted_twice", "ranks %d and %d held %r of %s at once" % (x[2], y[2], reg, o.n))
        self.F.stat("race_holds", len(log))
        self.F.distinct("race_order", "".join(str(x[2]) for x in log))
    def stray(self, o):
        """nobody holds a lock between two steps: its release is refused"""
        s = self.rng.choice(self.w.sh)
        if s.i("unlock", o.h[s.rank], self.reg(s, o.region(self.rng)), self.rng.choice("rw")) == 0: self.F.fail(self.pid, "unlock_unheld", o.n)
        self.F.stat("releases_refused")
    def step(self):
        rng = self.rng; o = rng.choice(self.objs); k = rng.random()
        if rng.random() < 0.04: self.stray(o)
        elif not o.maps and rng.random() < 0.3: self.contend(o)
        elif k < 0.25 or not o.maps:
            reg = o.region(rng)
            if reg not in o.maps: self.do_map(rng.choice(self.w.sh), o, reg) and rng.random() < 0.7 and self.write(o, reg)
        elif k < 0.45: self.write(o, rng.choice(list(o.maps)))
        elif k < 0.62: self.read(o, rng.choice(list(o.maps)))
        elif k < 0.72: self.unmap(o, rng.choice(list(o.maps)))
        elif k < 0.77: self.xread(o)
        elif k < 0.80: self.xwrite(o)
        elif k < 0.93: self.contend(o)
        else: self.race(o)

def scenario(pid="P42"):
    def fn(rng, mk, F):
        env = {}
        if rng.random() < 0.3: env["PDC_SERVER_CACHE_MAX_SIZE"] = rng.choice(["1", "200"])
        if rng.random() < 0.3: env["PDC_SERVER_CACHE_FLUSH_FREQUENCY_S"] = "0"
        w = mk(nserver=rng.choice([1, 1, 2, 3]), nclient=rng.choice([1, 2, 2, 3, 4]), env=env)
        w.enter(w.c)
        m = Maps(w, rng, F, pid); m.make(rng.randint(1, 3))
        for _ in range(rng.randint(5, 40)): m.step()
        for o in m.objs:
            for reg in list(o.maps):
                if rng.random() < 0.7: m.read(o, reg)
                if rng.random() < 0.7: m.unmap(o, reg)
            m.xread(o)
        F.distinct("history", str(hash(tuple(tuple(s.hist) for s in w.sh))))
        w.down()
    return fn
