"""Model of the data path: objects as byte arrays, transfer requests with their life cycle.

One driver issues transfers from every client rank (alone, in batches, at the same time from several
ranks), keeps for every object the bytes each element must hold and who wrote it last, and for every
caller's buffer the bytes it must hold, and compares after every completion."""
import random, time
from world import Stop

ESZ = {0: 4, 1: 4, 2: 8, 3: 1, 5: 1, 6: 2, 7: 4, 8: 8, 9: 8, 10: 2, 11: 1, 12: 1, 13: 2, 14: 4, 15: 4, 16: 8, 17: 8, 18: 8}   # every type of fixed size
COMPLETE, PENDING, NOT_FOUND = 0, 1, 2

def prod(l):
    p = 1
    for x in l: p *= x
    return p

def rows(dims, off, size):
    """(flat start, length) of each contiguous row of a region, in row-major order"""
    if len(dims) == 1: return [(off[0], size[0])]
    if len(dims) == 2: return [((off[0] + i) * dims[1] + off[1], size[1]) for i in range(size[0])]
    return [(((off[0] + i) * dims[1] + off[1] + j) * dims[2] + off[2], size[2]) for i in range(size[0]) for j in range(size[1])]

def overlap(a, b):
    return all(x < y + v and y < x + u for x, u, y, v in zip(a[0], a[1], b[0], b[1]))

class Obj: pass
class Req: pass
class Buf: pass

class DataWorld:
    def __init__(self, w, rng, F, mix=None, opt=None):
        self.w, self.rng, self.F, self.mix, self.o = w, rng, F, mix or {}, opt or {}
        self.objs, self.reqs, self.bufs, self.puts = [], [], {}, []
        self.nbuf, self.nops, self.wid, self.log, self.nname, self.intents = 0, 0, 0, [], 0, []
        self.maxobj = self.o.get("maxobj", rng.choice([1, 2, 3, 5]))
        self.parts = self.o.get("parts", rng.choice([[0], [1], [2], [3], [0, 1, 2, 3], [0, 1, 2, 3]]))
        self.cons = self.o.get("cons", rng.choice([[0], [1], [2], [0, 1, 2, 3, 4]]))
        self.maxcells = self.o.get("maxcells", rng.choice([12, 60, 400, 2500]))
        self.batchy = self.o.get("batchy", 0.4)

    def s(self, r): return self.w.sh[r]
    def bad(self, props, sig, detail): self.F.fail(props if isinstance(props, (list, tuple)) else [props], sig, "op %d: %s" % (self.nops, detail))
    def ok(self, v, props, sig, detail):
        if v < 0: self.bad(props, sig, detail + " -> %d" % v); raise Stop()

    # ---------------------------------------------------------------- jobs
    def begin(self):
        """all ranks open what exists"""
        self.cont = None
        for o in self.objs: o.h = {}
        for p in self.puts: p["h"] = {}
        for r in range(self.w.c):
            if self.objs or self.puts: self.conth[r] = self.s(r).i("cont_open", "dc")
    def first(self):
        self.conth = {}
        a = self.s(0)
        self.conth[0] = a.i("cont_create", "dc")
        for r in range(1, self.w.c): self.conth[r] = self.s(r).i("cont_open", "dc")
        self.props = {}
    def handle(self, o, r):
        if r not in o.h:
            o.h[r] = self.s(r).i("obj_open", o.name)
            if not o.h[r]: self.bad(["P01", "P10", "P14"], "data:open", "object %s cannot be opened by rank %d" % (o.name, r)); raise Stop()
        return o.h[r]

    # ---------------------------------------------------------------- objects
    def dims(self):
        rng, n = self.rng, self.rng.choice([1, 1, 2, 2, 3])
        cap = self.maxcells
        if n == 1: return [rng.choice([1, 2, 3, 5, 7, rng.randint(1, cap), rng.randint(1, cap), cap])]
        for _ in range(50):
            d = [rng.choice([1, 2, 3, 4, 5, 7, 8, rng.randint(1, max(2, int(cap ** 0.5)))]) for _ in range(n)]
            if prod(d) <= max(cap, 4): return d
        return [2] * n
    def op_obj(self, r=None):
        r = self.rng.randrange(self.w.c) if r is None else r
        rng, s = self.rng, self.s(r)
        o = Obj(); o.type = rng.choice([3, 13, 0, 1, 2, 2, 12, 9, rng.choice(sorted(ESZ))]); o.es = ESZ[o.type]
        o.d = self.dims(); o.part = rng.choice(self.parts); o.cons = rng.choice(self.cons)
        self.nname += 1; o.name = "d%d_%s" % (self.nname, rng.choice("ab")); o.n = prod(o.d)
        o.val = bytearray(o.n * o.es); o.who = [0] * o.n; o.h = {}; o.prior = []; o.flushed = 0
        if "setpart" in self.o: o.part = self.o["setpart"](len(self.objs))
        p = s.i("prop"); rc = [s.i("prop_dims", p, len(o.d), *o.d), s.i("prop_type", p, o.type), s.i("prop_part", p, o.part), s.i("prop_cons", p, o.cons)]
        if rng.random() < 0.5: s.i("prop_ts", p, 0)
        h = s.i("obj_create", self.conth[r], o.name, p)
        if not h: self.bad(["P01"], "data:create", "object %s" % o.name); raise Stop()
        s("prop_close", p)
        o.h[r] = h
        self.objs.append(o); self.F.stat("objects"); self.F.distinct("shape", (tuple(o.d), o.es, o.part, o.cons))
        return o

    # ---------------------------------------------------------------- regions
    def region(self, o):
        rng = self.rng
        k = rng.random()
        if k < 0.15: off, sz = [0] * len(o.d), list(o.d)
        elif k < 0.55 and o.prior:
            # related to an earlier region: the same, inside it, around it, beside it, across its end
            b = rng.choice(o.prior[-12:]); off, sz = [], []
            for i, d in enumerate(o.d):
                x, u = b[0][i], b[1][i]; m = rng.random()
                if m < 0.3: a, e = x, x + u
                elif m < 0.5: a = rng.randint(x, x + u - 1); e = rng.randint(a + 1, x + u)
                elif m < 0.65: a = max(0, x - rng.randint(0, 3)); e = min(d, x + u + rng.randint(0, 3))
                elif m < 0.8: a = rng.randint(x, x + u - 1); e = min(d, a + rng.randint(1, u + 2))
                elif m < 0.9 and x + u < d: a = x + u; e = rng.randint(a + 1, d)
                elif x > 0: e = x; a = rng.randint(0, e - 1)
                else: a, e = 0, d
                off.append(a); sz.append(e - a)
        else:
            off, sz = [], []
            for d in o.d:
                m = rng.random()
                if m < 0.25: a, e = 0, d
                elif m < 0.4: a = rng.randrange(d); e = a + 1
                elif m < 0.5: a = 0; e = rng.randint(1, d)
                elif m < 0.6: e = d; a = rng.randrange(d)
                else: a = rng.randrange(d); e = rng.randint(a + 1, d)
                off.append(a); sz.append(e - a)
        o.prior.append((off, sz))
        return off, sz
    def local(self, o, sz):
        """a local region with as many elements: 1D anywhere, or a subarray of an object-shaped buffer"""
        rng, n = self.rng, prod(sz)
        if len(o.d) == 1 or rng.random() < 0.45:
            a = rng.choice([0, 0, 1, 3, rng.randint(0, 20)])
            return [a + n + rng.choice([0, 0, 1, 5])], [a], [n]
        if rng.random() < 0.12:
            alts = []
            for x in range(1, o.d[0] + 1):
                for y in range(1, o.d[1] + 1):
                    if len(o.d) == 2 and x * y == n: alts.append([x, y])
                    if len(o.d) == 3 and n % (x * y) == 0 and 1 <= n // (x * y) <= o.d[2]: alts.append([x, y, n // (x * y)])
                if len(alts) > 20: break
            if alts: sz = rng.choice(alts)
        off = [rng.choice([0, d - u, rng.randint(0, d - u)]) for d, u in zip(o.d, sz)]
        return list(o.d), off, list(sz)

    # ---------------------------------------------------------------- buffers
    def newbuf(self, r, nbytes):
        b = Buf(); self.nbuf += 1; b.id = self.nbuf; b.r = r
        b.exp = bytearray(self.rng.randbytes(nbytes)); b.free = None; b.users = 0
        # bytes whose value the model does not know (elements never written)
        b.unk = set()
        self.s(r).i("buf", b.id, bytes(b.exp))
        return b
    def check(self, b, props, what):
        x = self.s(b.r)("dump", b.id)
        got = bytes.fromhex("" if x[1] == "-" else x[1])
        self.F.stat("buffer_bytes_compared", len(got))
        if len(got) != len(b.exp): self.bad(props, "buffer:size", what); raise Stop()
        if got == b.exp: return got, None
        d = [i for i in range(len(got)) if got[i] != b.exp[i] and i not in b.unk]
        for i in b.unk: b.exp[i] = got[i]
        return got, d
    def drop(self, b):
        self.s(b.r)("bfree", b.id)

    # ---------------------------------------------------------------- requests
    def conflicts(self, o, kind, reg, rank=None):
        return [q for q in self.reqs if q.st == "started" and q.o is o and (kind == "w" or q.kind == "w") and overlap(q.reg, reg)]
    def new(self, r, kind, o, shared=None):
        """create a request (nothing is started)"""
        q = Req(); q.o, q.kind, q.r, q.st = o, kind, r, "new"
        q.reg = self.region(o)
        if kind == "w": self.intents.append((o, q.reg))
        bd, lo, ls = self.local(o, q.reg[1])
        q.b = self.newbuf(r, prod(bd) * o.es); q.bd, q.ls, q.lo = bd, ls, lo
        q.lrows = rows(bd, lo, ls)
        s = self.s(r)
        l = s.i("region", len(lo), *(list(lo) + list(ls))); m = s.i("region", len(o.d), *(list(q.reg[0]) + list(q.reg[1])))
        q.id = s.i("x_create", q.b.id, kind, self.handle(o, r), l, m)
        if not q.id: self.bad(["P12", "P09"], "x:create", "no request"); raise Stop()
        s("region_close", l); s("region_close", m)
        q.batch, q.by, q.par = False, "", False
        self.F.stat("requests"); self.F.distinct("transfer", (kind, tuple(o.d), tuple(q.reg[0]), tuple(q.reg[1]), tuple(lo), tuple(ls), o.es, o.part))
        return q
    def payload(self, q):
        es = q.o.es
        return b"".join(bytes(q.b.exp[a * es:(a + n) * es]) for a, n in q.lrows)
    def store(self, q):
        """the write takes effect in the model"""
        o, es, p = q.o, q.o.es, self.payload(q)
        self.wid += 1; q.wid = self.wid; self.writes[self.wid] = q
        k = 0
        for a, n in rows(o.d, *q.reg):
            o.val[a * es:(a + n) * es] = p[k:k + n * es]; k += n * es
            o.who[a:a + n] = [self.wid] * n
        self.F.stat("elements_written", k // es)
    writes = None
    def begun(self, q, batch=False):
        q.st = "started"; q.batch = q.batch or batch
        self.reqs.append(q)
        if q.kind == "w": self.store(q)
        if q.o.cons == 1: self.finish(q, "start")   # POSIX consistency: the start includes the wait
    def expect_read(self, q):
        """what the buffer must hold now"""
        o, es, b = q.o, q.o.es, q.b
        src = []; srcw = []
        for a, n in rows(o.d, *q.reg):
            src.append(o.val[a * es:(a + n) * es]); srcw += o.who[a:a + n]
        src = b"".join(bytes(x) for x in src); k = 0; q.map = {}
        for a, n in q.lrows:
            b.exp[a * es:(a + n) * es] = src[k * es:(k + n) * es]
            for j in range(n):
                b_unk = srcw[k + j] == 0
                for t in range((a + j) * es, (a + j + 1) * es):
                    if b_unk: b.unk.add(t)
                    else: b.unk.discard(t)
                q.map[a + j] = srcw[k + j]
            k += n
    def finish(self, q, by, batch=False):
        """the request has completed: buffers are what they must be"""
        q.by = by; q.batch = q.batch or batch; q.st = "done"
        if q in self.reqs: self.reqs.remove(q)
        if q.kind == "w":
            got, d = self.check(q.b, ["P12"], "write buffer")
            if d: self.bad(["P12"], "write:buffer_changed", "%s: byte %d of the caller's buffer changed" % (self.desc(q), d[0]))
            q.b.unk.clear()
            return
        self.expect_read(q)
        self.F.stat("elements_read", prod(q.reg[1])); 
        got, d = self.check(q.b, ["P12"], "read buffer")
        self.log.append((q.o.name, [bytes(got[a * q.o.es:(a + n) * q.o.es]) if not any(t in q.b.unk for t in range(a * q.o.es, (a + n) * q.o.es)) else b"" for a, n in q.lrows]))
        q.b.unk.clear()
        if not d: return
        es = q.o.es; inside = [i for i in d if i // es in q.map]; outside = [i for i in d if i // es not in q.map]
        if outside:
            i = outside[0]
            self.bad(["P12", "P09"], "read:outside", "%s: byte %d (element %d) outside the selection changed from %02x to %02x" % (self.desc(q), i, i // es, q.b.exp[i], got[i]))
        if inside:
            i = inside[0]; wq = self.writes[q.map[i // es]]
            props = ["P09"]
            if any(self.writes[q.map[j // es]].r != q.r or self.writes[q.map[j // es]].par for j in inside): props.append("P10")
            if q.batch or any(self.writes[q.map[j // es]].batch for j in inside): props.append("P13")
            if q.by in ("obj_close", "close") or any(self.writes[q.map[j // es]].by in ("obj_close", "close") or q.o.flushed > q.map[j // es] for j in inside): props.append("P14")
            if q.o.part == 0 and self.o.get("restarted"): pass
            if self.o.get("tag"): props += self.o["tag"]
            self.bad(props, "read:value", "%s: %d of %d selected bytes wrong; first at element %d of the buffer: got %s, expected %s, last written by %s" % (self.desc(q), len(inside), len(q.map) * es, i // es, got[i // es * es:i // es * es + es].hex(), q.b.exp[i // es * es:i // es * es + es].hex(), self.desc(wq)))
        for i in d: q.b.exp[i] = got[i]
    def desc(self, q):
        return "%s of %s dims %s esize %d part %d cons %d, region %s+%s, local %s+%s in %s, rank %d%s%s" % ({"w": "write", "r": "read"}[q.kind], q.o.name, q.o.d, q.o.es, q.o.part, q.o.cons, q.reg[0], q.reg[1], q.lo, q.ls, q.bd, q.r, ", batch" if q.batch else "", ", completed by " + q.by if q.by else "")

    def start(self, qs, mode=None):
        """start requests of one rank, in a batch or one by one"""
        rng = self.rng; r = qs[0].r; s = self.s(r)
        mode = mode or ("all" if len(qs) > 1 and rng.random() < 0.7 else "one")
        if mode == "all":
            self.ok(s.i("x_start_all", *[q.id for q in qs]), ["P13"], "start_all:refused", "batch of %d" % len(qs))
            self.F.stat("batches_started")
            for q in qs: self.begun(q, len(qs) > 1)
        else:
            for q in qs:
                self.ok(s.i("x_start", q.id), ["P12"], "start:refused", self.desc(q)); self.begun(q)
    def complete(self, qs, how=None):
        """complete started requests of one rank; how: wait, wait_all, status, close"""
        rng = self.rng
        if not qs: return
        r = qs[0].r; s = self.s(r)
        how = how or rng.choice(["wait", "wait_all", "wait_all", "status", "close"])
        if how == "wait_all":
            ids = [q.id for q in qs]
            self.ok(s.i("x_wait_all", *ids), ["P13"], "wait_all:failed", "batch of %d" % len(ids))
            self.F.stat("batches_waited")
            for q in qs:
                if q.st == "started": self.finish(q, how, len(qs) > 1)
        else:
            for q in qs:
                was = q.st
                if how == "wait": self.ok(s.i("x_wait", q.id), ["P12"], "wait:failed", self.desc(q))
                elif how == "status":
                    t = time.time(); n = 0
                    while True:
                        x = s("x_status", q.id); n += 1
                        if x[0] != "0": self.bad(["P12"], "status:failed", self.desc(q)); raise Stop()
                        if x[1] != str(PENDING): break
                        if n > 5: time.sleep(0.005)
                        if time.time() - t > 40: self.bad(["P12", "P24"], "status:never", "%s still pending after %d polls" % (self.desc(q), n)); raise Stop()
                    self.F.stat("status_polls", n)
                    if n > 1: self.F.stat("status_pending_seen")
                    exp = COMPLETE if was == "started" else NOT_FOUND
                    if int(x[1]) != exp: self.bad(["P12"], "status:value", "%s: status %s, expected %d" % (self.desc(q), x[1], exp)); raise Stop()
                elif how == "close":
                    self.ok(s.i("x_close", q.id), ["P12", "P14"], "close:failed", self.desc(q))
                if was == "started": self.finish(q, how)
                if how == "close": q.st = "closed"; self.drop(q.b)
        for q in qs:
            if q.st == "done" and self.F is not None and rng.random() < 0.15:
                x = s("x_status", q.id)
                if x != ["0", str(NOT_FOUND)]: self.bad(["P12"], "status:after", "%s: status %s after its completion was reported" % (self.desc(q), x))
                if rng.random() < 0.5: self.ok(s.i("x_wait", q.id), ["P12"], "wait:again", self.desc(q))
    def close(self, q):
        if q.st == "closed": return
        if q.st == "started": return self.complete([q], "close")
        self.ok(self.s(q.r).i("x_close", q.id), ["P12"], "close:failed", self.desc(q)); q.st = "closed"; self.drop(q.b)
    def settle(self, o=None):
        """complete everything outstanding (of one object)"""
        for r in range(self.w.c):
            qs = [q for q in self.reqs if q.r == r and (o is None or q.o is o)]
            if qs: self.complete(qs); [self.close(q) for q in qs]

    def clear(self, o, kind, reg):
        """complete what the new request would conflict with"""
        for q in self.conflicts(o, kind, reg):
            if q.st == "started": self.complete([q])
            if q.st == "done": self.close(q)

    # ---------------------------------------------------------------- operations
    def pick(self):
        if not self.objs or (len(self.objs) < self.maxobj and self.rng.random() < 0.3): return self.op_obj()
        return self.rng.choice(self.objs)
    def op_write(self): self.single("w")
    def op_read(self): self.single("r")
    def single(self, kind):
        o = self.pick(); r = self.rng.randrange(self.w.c)
        q = self.new(r, kind, o); self.clear(o, kind, q.reg)
        self.start([q], self.rng.choice(["one", "one", "all"]))
        if self.rng.random() < 0.7:
            if q.st == "started": self.complete([q])
            self.rest(q)
    def rest(self, q):
        """life after completion: start it again, or close it"""
        if q.st == "done" and self.rng.random() < 0.12:
            self.clear(q.o, q.kind, q.reg)
            if q.kind == "w" and self.rng.random() < 0.5: self.refill(q)
            self.start([q]); self.F.stat("restarted_requests")
            if q.st == "started": self.complete([q])
        self.close(q)
    def refill(self, q):
        q.b.exp = bytearray(self.rng.randbytes(len(q.b.exp)))
        self.s(q.r).i("buf_set", q.b.id, bytes(q.b.exp))
    def make(self, r, n, excl=()):
        """requests of one rank that do not conflict with each other or with anything outstanding"""
        qs = []
        for _ in range(n):
            o = self.pick(); kind = self.rng.choice("wwr")
            q = self.new(r, kind, o)
            self.clear(o, kind, q.reg)
            if any(p.o is o and (kind == "w" or p.kind == "w") and overlap(p.reg, q.reg) for p in list(qs) + list(excl)):
                self.close(q); continue
            qs.append(q)
        return qs
    def op_batch(self):
        rng = self.rng; r = rng.randrange(self.w.c)
        qs = self.make(r, rng.choice([2, 3, 4, 8, 16]))
        if not qs: return
        k = rng.randint(0, len(qs)) if rng.random() < 0.3 else len(qs)
        for part in (qs[:k], qs[k:]):
            if part: self.start(part)
        if rng.random() < 0.75: self.split_complete(qs)
    def split_complete(self, qs):
        rng = self.rng
        qs = [q for q in qs if q.st == "started"] + [q for q in qs if q.st == "done"]; rng.shuffle(qs)
        while qs:
            k = rng.randint(1, len(qs)); part, qs = qs[:k], qs[k:]
            self.complete(part)
            for q in part: self.rest(q)
    def op_parallel(self):
        """several ranks at once, on disjoint regions"""
        rng = self.rng
        if self.w.c < 2: return self.op_batch()
        every = []; per = {}
        for r in range(self.w.c):
            qs = self.make(r, rng.choice([1, 2, 3]), every)
            qs = [q for q in qs if q.kind == "w"] or qs
            if qs: per[r] = qs; every += qs
        for q in every: q.par = True
        self.settle_conf(every)
        allm = {r: rng.random() < 0.5 for r in per}
        steps = []
        for r, qs in per.items():
            steps.append((r, [["x_start_all"] + [q.id for q in qs]] if allm[r] else [["x_start", q.id] for q in qs]))
        wsteps = {}
        for r, qs in per.items():
            wsteps[r] = [["x_wait_all"] + [q.id for q in qs]] if rng.random() < 0.5 else [["x_wait", q.id] for q in qs]
        for r, l in steps:
            for c in l + wsteps[r]: self.s(r).send(*c)
        for r, l in steps:
            for c in l + wsteps[r]:
                v = int(self.s(r).recv()[0])
                if v < 0: self.bad(["P10", "P12"], "parallel:failed", "%s -> %d" % (c, v))
        self.F.stat("parallel_rounds")
        for r, qs in per.items():
            for q in qs:
                q.st = "started"; self.reqs.append(q); q.batch = q.batch or allm[r]
                if q.kind == "w": self.store(q)
        for q in every: self.finish(q, "wait")
        for q in every: self.close(q)
    def settle_conf(self, qs):
        for q in qs: self.clear(q.o, q.kind, q.reg)
    def op_illegal(self):
        """calls that must be refused, or have no effect"""
        rng = self.rng; r = rng.randrange(self.w.c); s = self.s(r)
        qs = self.make(r, 3)
        if not qs: return
        x = s("x_status", qs[0].id)
        if x != ["0", str(NOT_FOUND)]: self.bad(["P12"], "status:unstarted", "status %s of a request never started" % x)
        k = rng.random()
        if k < 0.3: s("x_wait", qs[0].id)                # nothing to wait for
        elif k < 0.5: s("x_wait_all", *[q.id for q in qs])
        for q in qs:
            got, d = self.check(q.b, ["P12"], "unstarted")
            if d: self.bad(["P12"], "unstarted:buffer", self.desc(q))
        if qs[0].o.cons != 1:
            self.start([qs[0]], "one")
            if rng.random() < 0.5:
                v = s.i("x_start", qs[0].id)
                if v >= 0: self.bad(["P12"], "start:twice", "%s: a second start is accepted" % self.desc(qs[0]))
            else:
                ids = [q.id for q in qs]; rng.shuffle(ids)
                v = s.i("x_start_all", *ids)
                if v >= 0: self.bad(["P12", "P13"], "start_all:twice", "a batch with a started request is accepted")
                for q in qs[1:]:
                    x = s("x_status", q.id)
                    if x != ["0", str(NOT_FOUND)]: self.bad(["P12", "P13"], "start_all:partial", "status %s of a request in a refused batch" % x)
            self.F.stat("refused_starts")
        rest = [q for q in qs if q.st == "new"]
        if rest: self.start(rest)
        self.split_complete(qs)
    def op_objclose(self):
        """close a handle with transfers outstanding on it"""
        rng = self.rng
        cand = [(o, r) for o in self.objs for r in o.h]
        if not cand: return
        o, r = rng.choice(cand)
        if rng.random() < 0.8:
            for q in self.make(r, rng.choice([1, 2, 4])): self.start([q])
        mine = [q for q in self.reqs if q.o is o and q.r == r]
        self.ok(self.s(r).i("obj_close", o.h[r]), ["P14"], "obj_close:failed", "object %s with %d transfers outstanding" % (o.name, len(mine)))
        del o.h[r]; self.F.stat("objects_closed"); self.F.stat("transfers_outstanding_at_close", len(mine))
        for q in mine:
            self.finish(q, "obj_close")
            self.close(q)
    def op_flush(self):
        rng = self.rng
        if not self.objs: return
        if rng.random() < 0.6:
            o = rng.choice(self.objs); r = rng.randrange(self.w.c); self.s(r)("flush", self.handle(o, r)); o.flushed = self.wid + 1
        else:
            r = rng.randrange(self.w.c); self.s(r)("flush_all")
            for o in self.objs: o.flushed = self.wid + 1
        self.F.stat("flush_requests")
        if rng.random() < 0.3: time.sleep(rng.choice([0.001, 0.01, 0.05]))
    def op_pause(self):
        time.sleep(self.rng.choice([0.001, 0.002, 0.005, 0.02]))
    def op_put(self):
        rng = self.rng; r = rng.randrange(self.w.c); s = self.s(r)
        n = rng.choice([1, 2, 7, 64, 1000, rng.randint(1, 5000)])
        self.nname += 1; p = dict(name="p%d" % self.nname, data=rng.randbytes(n), h={})
        if "cp" not in self.__dict__: self.cp = {}
        h = s.i("put_data", p["name"], self.conth[r], p["data"])
        if not h: self.bad(["P16"], "put:failed", "%d bytes" % n); raise Stop()
        p["h"][r] = h; self.puts.append(p); self.F.stat("puts")
    def op_get(self):
        rng = self.rng
        if not self.puts: return self.op_put()
        self.get(rng.choice(self.puts), rng.randrange(self.w.c))
    def get(self, p, r):
        s = self.s(r)
        if r not in p["h"]:
            p["h"][r] = s.i("obj_open", p["name"])
            if not p["h"][r]: self.bad(["P16"], "get:open", "%s cannot be opened by rank %d" % (p["name"], r)); raise Stop()
        x = s("get_data", p["h"][r], len(p["data"]))
        if x[0] != "0": self.bad(["P16"], "get:failed", p["name"]); return
        got = bytes.fromhex(x[1]) if x[1] != "-" else b""
        self.log.append((p["name"], got)); self.F.stat("gets")
        if got != p["data"]:
            i = [j for j in range(len(p["data"])) if got[j] != p["data"][j]][0]
            self.bad(["P16"] + self.o.get("tag", []), "get:value", "%s (%d bytes): byte %d is %02x, stored %02x" % (p["name"], len(got), i, got[i], p["data"][i]))
        i = s("obj_info", p["h"][r])
        if i[0] != "0" or int(i[4]) != 1 or int(i[5]) != len(p["data"]): self.bad(["P16"], "get:size", "%s stored with %d bytes reads %s" % (p["name"], len(p["data"]), i[:6]))
    def audit(self):
        """read every object whole, from every rank"""
        self.settle()
        for o in self.objs:
            for r in range(self.w.c):
                if self.w.c > 1 and self.rng.random() < 0.4: continue
                q = self.new(r, "r", o); 
                self.s(r)("x_close", q.id); self.drop(q.b)
                q = self.whole(r, o); self.start([q]); 
                if q.st == "started": self.complete([q], "wait")
                self.close(q)
        for p in self.puts: self.get(p, self.rng.randrange(self.w.c))
        self.F.stat("audits")
    def whole(self, r, o):
        q = Req(); q.o, q.kind, q.r, q.st = o, "r", r, "new"
        q.reg = ([0] * len(o.d), list(o.d)); q.bd, q.lo, q.ls = [o.n], [0], [o.n]; q.lrows = [(0, o.n)]
        q.b = self.newbuf(r, o.n * o.es); s = self.s(r)
        l = s.i("region", 1, 0, o.n); m = s.i("region", len(o.d), *([0] * len(o.d) + list(o.d)))
        q.id = s.i("x_create", q.b.id, "r", self.handle(o, r), l, m)
        s("region_close", l); s("region_close", m)
        q.batch, q.by, q.par = False, "", False
        return q

    OPS = dict(write=8, read=6, batch=4, parallel=3, illegal=1, objclose=1, flush=1, pause=0.5, put=0.5, get=1)
    def run(self, n):
        if self.writes is None: self.writes = {}
        wt = dict(self.OPS); wt.update(self.mix)
        ks = list(wt); ws = [wt[k] for k in ks]
        for _ in range(n):
            self.nops += 1
            getattr(self, "op_" + self.rng.choices(ks, ws)[0])()
            self.F.stat("operations")
            if len(self.F.l) > 4: raise Stop()
            if len(self.reqs) > 30: self.settle()

MIX = {
 "P09": dict(write=10, read=8, batch=2),
 "P10": dict(parallel=10, write=6, read=6, flush=2, pause=2),
 "P12": dict(illegal=6, write=6, read=6, batch=4),
 "P13": dict(batch=12, write=3, read=3),
 "P14": dict(objclose=6, flush=5),
 "P16": dict(put=10, get=10, write=2, read=2, batch=1),
}
def env_of(rng, heavy=False):
    e = {}
    if rng.random() < (0.8 if heavy else 0.5): e["PDC_SERVER_CACHE_MAX_SIZE"] = str(rng.choice([1, 64, 500, 5000]))
    if rng.random() < (0.8 if heavy else 0.5): e["PDC_SERVER_CACHE_FLUSH_FREQUENCY_S"] = str(rng.choice([0, 0, 1]))
    if rng.random() < 0.4: e["PDC_DATA_SIEVING"] = rng.choice(["0", "1"])
    return e
def scenario(pid, ops):
    def fn(rng, mk, F):
        w = mk(env=env_of(rng, pid == "P10"), nclient=rng.choice([2, 3]) if pid == "P10" else None)
        F.distinct("settings", (tuple(sorted(w.env.items())), w.n, w.c))
        w.enter()
        m = DataWorld(w, rng, F, MIX.get(pid, {})); m.first()
        for rnd in range(rng.choice([1, 1, 2])):
            if rnd:
                m.settle(); w.leave(); w.c = rng.choice([1, 2, 3]); w.enter(w.c); m.begin()
            m.run(ops); m.audit()
        w.leave(); w.down()
    return fn

def settings(rng, mk, F):
    """the same program under different settings: equal results (P11)"""
    seed = rng.randrange(1 << 40); logs = []
    nset = 3; nc = rng.choice([1, 2, 3]); ops = 25
    mode = rng.choice(["cache", "part", "nserver", "all"])
    for k in range(nset):
        e = env_of(rng, True) if mode in ("cache", "all") and k else {}
        n = rng.choice([1, 2, 3, 4]) if (k and mode in ("nserver", "all")) or k == 0 else n
        part = [rng.randrange(4) for _ in range(8)] if (k and mode in ("part", "all")) or k == 0 else part
        w = mk(env=e, nserver=n, nclient=nc); w.enter()
        F.distinct("settings", (tuple(sorted(e.items())), n, tuple(part)))
        G = type(F)()
        m = DataWorld(w, random.Random(seed), G, {}, dict(setpart=lambda i, p=part: p[i % 8], cons=[0, 2])); m.first()
        try: m.run(ops); m.audit()
        except Stop: F.stat("stopped")
        for kk, v in G.stats.items(): F.stat(kk, v)
        logs.append((m.log, (e, n, part), G.l))
        if w.sh and len(G.l) <= 4: w.leave(); w.down()
    a = logs[0]
    for b in logs[1:]:
        F.stat("result_pairs_compared", min(len(a[0]), len(b[0])))
        for i, (x, y) in enumerate(zip(a[0], b[0])):
            if x != y:
                F.fail(["P11"], "settings:differ", "result %d of the same program differs: %s under %s: %s, under %s: %s; %s" % (i, x[0], a[1], str(x[1])[:300], b[1], str(y[1])[:300], (a[2] + b[2])[:2]))
                break
        if len(a[0]) != len(b[0]): F.fail(["P11"], "settings:length", "%s %s: %s" % (a[1], b[1], (a[2] + b[2])[:3]))
