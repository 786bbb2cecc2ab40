"""Model of the metadata world: property lists, containers, objects, tags, listings and queries.

One driver issues calls from every client rank and keeps the reference model; after each call the
reply is compared with it, and audits read everything back through every door there is."""
import random
from world import dec, Stop

TYPES = [0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15]
SIZE = {0: 4, 1: 4, 2: 8, 3: 1, 8: 8, 9: 8, 10: 2, 11: 1, 12: 1, 13: 2, 14: 4, 15: 4}

def match(s, p):
    a, b = p.startswith("*"), p.endswith("*")
    if a and b: return p[1:-1] in s
    if a: return s.endswith(p[1:])
    if b: return s.startswith(p[:-1])
    return s == p

def djb2(s):
    h = 5381
    for c in s.encode("latin1"): h = (h * 33 + (c - 256 if c > 127 else c)) & 0xffffffff   # char is signed
    return h

class Ent:
    pass

class Prop:
    def __init__(self): self.type, self.dims, self.part, self.cons, self.ts, self.user, self.app, self.tags = None, None, None, None, None, None, None, None
    def copy(self):
        p = Prop(); p.__dict__.update(self.__dict__)
        if p.dims is not None: p.dims = list(p.dims)
        return p

def names(rng, n, special=True):
    """names that collide, share prefixes, differ in one character, or are long or odd"""
    base = ["o", "obj", "obj1", "obj10", "Obj1", "data", "dat", "ab", "bA", "a", "xy", "yX"]
    odd = ["x y", "a%b", "a=b", "a,b", "q?", "tab\tname", "sl/ash", "\xe9t\xe9", "-", "0", "*", "n" * 200, "m" * 500]
    out = []
    while len(out) < n:
        k = rng.random()
        if k < 0.35: c = rng.choice(base)
        elif k < 0.5 and special: c = rng.choice(odd)
        elif k < 0.6:
            # two different names with the same 32-bit hash
            p = "".join(rng.choice("abcdefgh") for _ in range(rng.randint(0, 4)))
            x, y = rng.choice([("ab", "bA"), ("cd", "dC"), ("Zz", "[Y"), ("b1", "aR")])
            for c in (p + x + "q", p + y + "q"):
                if c not in out: out.append(c)
            continue
        else: c = rng.choice(["run", "obj", "v"]) + str(rng.randint(0, 300))
        if c not in out: out.append(c)
    return out[:n]

class MetaWorld:
    def __init__(self, w, rng, F, mix, o=None):
        self.w, self.rng, self.F, self.mix = w, rng, F, mix
        self.opt = o or {}
        self.conts, self.objs, self.dead = {}, [], []
        self.deadc = []
        self.onames = names(rng, rng.choice([3, 6, 12, 25]))
        self.cnames = []
        hs = set()
        for c in names(rng, rng.choice([2, 4, 8])):
            if djb2(c) not in hs: hs.add(djb2(c)); self.cnames.append(c)   # containers with colliding names: see the known finding
        if rng.random() < 0.5:
            # containers and objects with the same name
            self.cnames = self.cnames[:3]; hs = set(djb2(c) for c in self.cnames)
            for n in self.onames[:2]:
                if djb2(n) not in hs: hs.add(djb2(n)); self.cnames.append(n)
        self.users = rng.choice([[0], [7], [1, 2], [1, 2, 1001]])
        self.apps = rng.choice([["app"], ["app", "app2"], [None], ["A", "a", "B b"]])
        self.tss = rng.choice([[0], [0], [0, 1], [0, 1, 2, 3], [0, 5, 100]])
        self.texts = [None, "t1", "t1=5,t2=7", "xyz", "long" * 100]
        self.tnames = rng.sample(["k", "key", "key1", "key10", "Key", "a b", "temp", "x" * 60, "obj", "k=v"], 4)
        self.ids = {}
        self.h, self.via = [], {}
        self.reset_handles()
        self.defaults = None
        self.nops = self.crowds = 0

    def reset_handles(self):
        self.via = {}; self.h = [{} for _ in range(self.w.c)]; self.pr = [{} for _ in range(self.w.c)]

    # ---------------------------------------------------------------- helpers
    def bad(self, props, sig, detail):
        self.F.fail(props if isinstance(props, (list, tuple)) else [props], sig, "op %d: %s" % (self.nops, detail))
    def s(self, r): return self.w.sh[r]
    def live(self): return [o for o in self.objs if o.live]
    def handles(self, r, kind, live=None):
        return [l for l, (k, e) in self.h[r].items() if k == kind and (live is None or e.live == live)]
    def newid(self, mid, what, props):
        if mid in self.ids: self.bad(["P19"] + props, "id:repeated", "%s got id %d, which denotes %s" % (what, mid, self.ids[mid]))
        if mid == 0: self.bad(["P19"] + props, "id:zero", what)
        self.ids[mid] = what
    def addh(self, r, lid, kind, ent, props, via=None):
        self.via[(r, lid)] = via
        if kind == "o": ent.hd.pop((r, lid), None)
        if lid in self.h[r]: self.bad(["P28"] + props, "handle:repeated", "rank %d got handle %d for %s while it denotes %s" % (r, lid, ent.name, self.h[r][lid][1].name))
        self.h[r][lid] = (kind, ent)

    # ---------------------------------------------------------------- property lists
    def p_new(self, r):
        s = self.s(r); lid = s.i("prop")
        if lid == 0: self.bad("P26", "prop:create", "no handle"); raise Stop()
        p = Prop(); got = self.p_read(r, lid)
        if self.defaults is None:
            self.defaults = got
        elif got != self.defaults: self.bad("P26", "prop:defaults", "a fresh property list reads %s, earlier ones %s" % (got, self.defaults))
        for k, v in got.items(): setattr(p, k, v)
        if lid in self.pr[r]: self.bad("P28", "handle:repeated", "property list handle %d" % lid)
        self.pr[r][lid] = p
        for f in self.rng.sample(["dims", "type", "ts", "user", "app", "tags", "part", "cons"], 8):
            if f == "user" and self.users == [0]: continue
            if f in ("part", "cons", "tags") and self.rng.random() < 0.5: continue
            if f == "type" and self.rng.random() < 0.1: continue
            self.p_set(r, lid, f)
        return lid
    def p_read(self, r, lid):
        x = self.s(r)("prop_info", lid)
        if x[0] != "0": self.bad("P26", "prop:info", "cannot read property list: %s" % x); raise Stop()
        nd = int(x[2]); d = [int(v) for v in x[3:3 + nd]]
        i = 3 + nd; i = x.index("P", 3 + len(d)) if "P" in x[3:] else i
        return dict(type=int(x[1]), dims=d, part=int(x[i + 1]), cons=int(x[i + 2]), ts=int(x[i + 4]), user=int(x[i + 5]), app=dec(x[i + 6]), tags=dec(x[i + 7]))
    def p_set(self, r, lid, f):
        s, p, g = self.s(r), self.pr[r][lid], self.rng
        if f == "dims":
            v = [g.choice([1, 2, 3, 7, 64, 1000, 1 << 20]) for _ in range(g.choice([1, 1, 2, 2, 3, 3, 4]))]; rc = s("prop_dims", lid, len(v), *v)
        elif f == "type": v = g.choice(TYPES); rc = s("prop_type", lid, v)
        elif f == "ts": v = g.choice(self.tss); rc = s("prop_ts", lid, v)
        elif f == "user": v = g.choice(self.users); rc = s("prop_user", lid, v)
        elif f == "app":
            v = g.choice(self.apps)
            if v is None: return
            rc = s("prop_app", lid, v)
        elif f == "tags":
            v = g.choice(self.texts)
            if v is None: return
            rc = s("prop_tags", lid, v)
        elif f == "part": v = g.choice([0, 1, 2, 3]); rc = s("prop_part", lid, v)
        else: v = g.choice([0, 1, 2, 3, 4]); rc = s("prop_cons", lid, v)
        if rc[0] != "0": self.bad("P26", "prop:set", "setting %s to %s: %s" % (f, v, rc))
        setattr(p, f, v)
    def p_check(self, r, lid, sig="prop:value"):
        got, p = self.p_read(r, lid), self.pr[r][lid]
        self.F.stat("prop_reads")
        for k, v in got.items():
            if getattr(p, k) != v: self.bad("P26", sig, "%s reads %r, was set to %r" % (k, v, getattr(p, k)))
    def op_prop(self, r):
        pl = list(self.pr[r])
        if not pl or self.rng.random() < 0.3 and len(pl) < 6: lid = self.p_new(r)
        else:
            lid = self.rng.choice(pl); k = self.rng.random()
            if k < 0.4: self.p_set(r, lid, self.rng.choice(["dims", "type", "ts", "user", "app", "tags", "part", "cons"]) if self.users != [0] else "dims")
            elif k < 0.75:
                d = self.s(r).i("prop_dup", lid)
                if d == 0 or d in self.pr[r]: self.bad("P26", "prop:dup_handle", "dup of %d gave %d" % (lid, d)); raise Stop()
                self.pr[r][d] = self.pr[r][lid].copy(); self.p_check(r, d, "prop:dup")
                self.F.stat("prop_dups")
            else:
                rc = self.s(r)("prop_close", lid); del self.pr[r][lid]
                if rc[0] != "0": self.bad("P26", "prop:close", str(rc))
        for l in self.pr[r]: self.p_check(r, l)

    # ---------------------------------------------------------------- containers
    def c_read(self, r, lid, c, props):
        x = self.s(r)("cont_info", lid)
        if x[0] != "0" or dec(x[1]) != c.name or int(x[2]) != c.id: self.bad(["P28"] + props, "cont:info", "handle for container %r (id %d) reads %s" % (c.name, c.id, x))
    def got_cont(self, r, lid, name, props):
        if lid == 0: self.bad(props, "cont:create", "creating container %r gave no handle" % name); raise Stop()
        x = self.s(r)("cont_info", lid); mid = int(x[2]) if x[0] == "0" else -1
        c = self.conts.get(name)
        if c is None:
            c = Ent(); c.name, c.id, c.kv, c.live, c.members = name, mid, {}, True, []
            self.newid(mid, "container %r" % name, props); self.conts[name] = c
        elif mid != c.id: self.bad(["P02", "P19"], "cont:id", "container %r has id %d, a further create gives %s" % (name, c.id, mid))
        self.addh(r, lid, "c", c, props); self.c_read(r, lid, c, props)
        return lid
    def op_cont_create(self, r):
        n = self.rng.choice(self.cnames)
        return self.got_cont(r, self.s(r).i("cont_create", n), n, ["P02"])
    def op_cont_create_col(self, r):
        n = self.rng.choice(self.cnames)
        for q, x in enumerate(self.w.all("cont_create_col", n)): self.got_cont(q, int(x[0]), n, ["P02"])
    def opened_cont(self, r, lid, n):
        c = self.conts.get(n)
        if c is None:
            if lid != 0: self.bad(["P02", "P03"], "cont:opened_missing", "opening %r, which does not exist, gave a handle" % n)
            return
        if lid == 0: self.bad("P02", "cont:open", "container %r exists (id %d) but cannot be opened from rank %d" % (n, c.id, r)); return
        self.addh(r, lid, "c", c, ["P02"]); self.c_read(r, lid, c, ["P02"])
    def op_cont_open(self, r):
        n = self.rng.choice(self.cnames + ["nope"])
        self.opened_cont(r, self.s(r).i("cont_open", n), n)
    def op_cont_open_col(self, r):
        n = self.rng.choice(self.cnames + ["nope"])
        for q, x in enumerate(self.w.all("cont_open_col", n)): self.opened_cont(q, int(x[0]), n)
    def op_cont_close(self, r):
        hs = self.handles(r, "c")
        if len(hs) < 3: return
        l = self.rng.choice(hs); x = self.s(r)("cont_close", l)
        if x[0] != "0": self.bad("P28", "cont:close", str(x))
        del self.h[r][l]
    def op_cont_del(self, r):
        hs = self.handles(r, "c")
        if not hs: return
        l = self.rng.choice(hs); c = self.h[r][l][1]
        x = self.s(r)("cont_del", l)
        if c.live:
            if x[0] != "0": self.bad(["P02", "P03"], "cont:delete", "deleting container %r: %s" % (c.name, x)); return
            c.live = False; del self.conts[c.name]; self.deadc.append(c)
            self.F.stat("cont_deletes"); self.audit(["P03", "P02"])
        elif x[0] == "0" and not (c.name in self.conts): self.bad("P03", "cont:delete_missing", "deleting %r, which does not exist, succeeded" % c.name)
        elif x[0] == "0": self.bad("P03", "cont:delete_other", "deleting %r (id %d, already deleted) removed its successor" % (c.name, c.id)); raise Stop()
    def op_cont_query(self, r):
        n = self.rng.choice(self.cnames + ["nope"]); x = self.s(r)("cont_query", n); c = self.conts.get(n)
        if c is None:
            if x[0] == "0" and x[1] != "0": self.bad("P02", "cont:query_missing", "%r: %s" % (n, x))
        elif x[0] != "0" or int(x[1]) != c.id: self.bad("P02", "cont:query", "%r has id %d: %s" % (n, c.id, x))
    def op_cont_members(self, r):
        hs = self.handles(r, "c", True); os = self.handles(r, "o", True)
        if not hs or not os: return
        l = self.rng.choice(hs); ids = self.rng.sample(os, self.rng.randint(1, len(os)))
        x = self.s(r)("cont_add" if self.rng.random() < 0.6 else "cont_rm", l, *ids)
        if x[0] != "0": self.bad("P02", "cont:members", str(x))
    def op_iter(self, r):
        x = self.s(r)("cont_iter"); got = sorted((int(x[i]), dec(x[i + 1])) for i in range(1, len(x), 2))
        want = sorted((l, e.name) for l, (k, e) in self.h[r].items() if k == "c")
        if got != want: self.bad("P28", "iter:cont", "iterating the open containers gives %s, open are %s" % (got[:40], want[:40]))
        for c in self.rng.sample(self.handles(r, "c"), min(3, len(self.handles(r, "c")))):
            # the objects created through this container handle and still open
            x = self.s(r)("obj_iter", c); got = sorted((int(x[i]), dec(x[i + 1])) for i in range(1, len(x), 2))
            want = sorted((l, e.name) for l, (k, e) in self.h[r].items() if k == "o" and self.via.get((r, l)) == c)
            self.F.stat("iterated_objects", len(want))
            if got != want: self.bad("P28", "iter:obj", "iterating the objects of container handle %d gives %s, open are %s" % (c, got[:40], want[:40]))
        self.F.stat("iterations")

    def op_many(self, r):
        """many handles at once: each is new and leads to its own list or region until it is closed"""
        s, g = self.s(r), self.rng; kind = g.choice(["prop", "prop", "region"]); n = g.choice([30, 80, 80, 150, 400])
        base = s.i("prop") if kind == "prop" else None; have = {base: None} if base else {}
        if base: s("prop_ts", base, 3)
        nr = 0
        def make():
            nonlocal nr
            nr += 1; h = s.i("prop_dup", base) if base else s.i("region", 1, nr, 1 + nr)
            if h in have or h in self.pr[r] or h in self.h[r] or h in (0, 2**64 - 1): self.bad("P28", "handle:repeated", "%s handle %d, the %dth of %d open" % (kind, h, nr, len(have))); raise Stop()
            have[h] = nr
            if base: s("prop_ts", h, nr)
        for _ in range(n): make()
        for _ in range(g.randint(1, 3)):
            for h in g.sample([x for x in have if x != base], g.choice([1, 2, n // 3])):
                if s("prop_close" if base else "region_close", h)[0] != "0": self.bad("P28", "handle:close", "%s handle %d" % (kind, h)); raise Stop()
                del have[h]
            for _ in range(g.choice([1, 2, n // 3])): make()
        for h, v in have.items():
            if base and h != base and self.p_read(r, h)["ts"] != v: self.bad("P28", "handle:leads", "%s handle %d reads %s, was given %s" % (kind, h, self.p_read(r, h)["ts"], v)); raise Stop()
        for h in have: s("prop_close" if base else "region_close", h)
        self.F.stat("many_handles", nr); self.F.stat("many_rounds")

    # ---------------------------------------------------------------- objects
    def o_info(self, r, lid, o, props, mine):
        x = self.s(r)("obj_info", lid)
        if x[0] != "0": self.bad(props, "obj:info", "handle %d for %r: %s" % (lid, o.name, x)); return
        nd = int(x[4]); d = [int(v) for v in x[5:5 + nd]]; y = x[5 + nd:]
        got = dict(name=dec(x[1]), id=int(x[2]), type=int(x[3]), dims=d, part=int(y[1]), cons=int(y[2]), ts=int(y[4]), user=int(y[5]), app=dec(y[6]))
        want = dict(name=o.name, id=o.id, type=o.type, dims=o.hdims(r, lid), part=o.part, cons=o.cons, ts=o.ts, user=o.user, app=o.app)
        if got["app"] is None and o.app == "Noname": got["app"] = "Noname"
        self.F.stat("object_reads")
        for k in want:
            if got[k] != want[k]: self.bad(props + (["P28"] if k in ("name", "id") else ["P26"] if mine else []), "obj:attr:" + k, "%s of %r read by rank %d is %r, created with %r" % (k, o.name, r, got[k], want[k]))
    def clash(self, n, p):
        u = lambda a, b: a == b or a <= 0 or b <= 0
        app = p.app or "Noname"
        return [o for o in self.live() if o.name == n and o.ts == p.ts and u(o.user, p.user) and o.app == app]
    def mkobj(self, n, p, mid, props):
        o = Ent(); o.name, o.id, o.live, o.kv = n, mid, True, {}
        o.type, o.dims, o.part, o.cons, o.ts, o.user, o.app, o.tags = p.type, list(p.dims), p.part, p.cons, p.ts, p.user, p.app or "Noname", p.tags if p.tags is not None else " "
        o.hd, o.cont = {}, None
        o.hdims = lambda r, l, o=o: o.hd.get((r, l), o.dims)
        self.objs.append(o); self.newid(mid, "object %r" % n, props)
        return o
    def metaid(self, r, lid):
        x = self.s(r)("obj_info", lid)
        return int(x[2]) if x[0] == "0" else -1
    def op_obj_create(self, r, name=None):
        cs = self.handles(r, "c", True)
        if not cs: c = self.op_cont_create(r)
        else: c = self.rng.choice(cs)
        if not self.pr[r] or self.rng.random() < 0.5:
            if len(self.pr[r]) > 8:
                l = self.rng.choice(list(self.pr[r])); self.s(r)("prop_close", l); del self.pr[r][l]
            pl = self.p_new(r)
        else: pl = self.rng.choice(list(self.pr[r]))
        p = self.pr[r][pl]; n = name or self.rng.choice(self.onames)
        taken = self.clash(n, p)
        lid = self.s(r).i("obj_create", c, n, pl)
        if taken:
            self.F.stat("creates_refused")
            if lid != 0: self.bad("P01", "obj:duplicate_created", "%r (time step %d, user %d, app %s) exists already, creating it again gave a handle" % (n, p.ts, p.user, p.app)); raise Stop()
            return
        if lid == 0: self.bad(["P01", "P03"], "obj:create", "creating %r (time step %d, user %d, app %s) failed though the name is free" % (n, p.ts, p.user, p.app)); return
        o = self.mkobj(n, p, self.metaid(r, lid), ["P01"]); self.addh(r, lid, "o", o, ["P01"], c); o.cont = self.h[r][c][1].id
        self.o_info(r, lid, o, ["P01"], True); self.F.stat("creates")
        self.p_check(r, pl, "prop:after_create")
        return lid
    def op_obj_create_col(self, r):
        n = self.rng.choice(self.onames); cn = self.rng.choice(self.cnames)
        cs = [self.got_cont(q, int(x[0]), cn, ["P02"]) for q, x in enumerate(self.w.all("cont_create_col", cn))]
        root = self.rng.randrange(self.w.c); pl = []
        p0 = None
        for q in range(self.w.c):
            # the same call on every rank: equal property lists
            l = self.s(q).i("prop"); pl.append(l)
            if p0 is None:
                p0 = Prop()
                for k, v in (self.defaults or self.p_read(q, l)).items(): setattr(p0, k, v)
                p0.dims = [self.rng.randint(1, 50) for _ in range(self.rng.randint(1, 3))]; p0.user = self.rng.choice(self.users); p0.ts = self.rng.choice(self.tss); p0.type = self.rng.choice(TYPES)
                a = self.rng.choice(self.apps); p0.app = a if a is not None else p0.app
            s = self.s(q); s("prop_dims", l, len(p0.dims), *p0.dims); s("prop_type", l, p0.type)
            if p0.user: s("prop_user", l, p0.user)
            s("prop_ts", l, p0.ts)
            if p0.app is not None: s("prop_app", l, p0.app)
        taken = self.clash(n, p0)
        for q in range(self.w.c): self.s(q).send("obj_create_col", cs[q], n, pl[q], root)
        got = [int(self.s(q).recv()[0]) for q in range(self.w.c)]
        for q in range(self.w.c): self.s(q)("prop_close", pl[q])
        if taken:
            if any(got): self.bad("P01", "obj:duplicate_created_col", "%r exists; collective create gave handles %s" % (n, got)); raise Stop()
            return
        if not all(got): self.bad(["P01", "P03"], "obj:create_col", "creating %r collectively (root %d) gave handles %s" % (n, root, got)); raise Stop()
        ids = [self.metaid(q, got[q]) for q in range(self.w.c)]
        if len(set(ids)) != 1: self.bad("P01", "obj:create_col_ids", "ranks see ids %s for %r" % (ids, n))
        o = self.mkobj(n, p0, ids[0], ["P01"]); self.F.stat("collective_creates"); o.cont = self.conts[cn].id
        for q in range(self.w.c): self.addh(q, got[q], "o", o, ["P01"], cs[q]); self.o_info(q, got[q], o, ["P01"], True)
    def opened_obj(self, r, lid, n, props=("P01",)):
        props = list(props)
        cand = [o for o in self.live() if o.name == n and o.ts == 0]
        if not cand:
            if lid != 0: self.bad(props + ["P03"], "obj:opened_missing", "opening %r (time step 0), which does not exist, gave a handle" % n); raise Stop()
            return None
        if lid == 0: self.bad(props, "obj:open", "object %r exists but rank %d cannot open it" % (n, r)); return None
        mid = self.metaid(r, lid); o = next((o for o in cand if o.id == mid), None)
        if o is None: self.bad(props + ["P19"], "obj:open_other", "opening %r gave id %s, it has %s" % (n, mid, [c.id for c in cand])); raise Stop()
        self.addh(r, lid, "o", o, props)
        if o.dims != o.hdims(None, None): pass
        self.o_info(r, lid, o, props, False); self.F.stat("opens")
        return lid
    def op_obj_open(self, r):
        n = self.rng.choice(self.onames + ["nope"])
        return self.opened_obj(r, self.s(r).i("obj_open", n), n)
    def op_obj_open_col(self, r):
        n = self.rng.choice(self.onames + ["nope"])
        for q, x in enumerate(self.w.all("obj_open_col", n)): self.opened_obj(q, int(x[0]), n)
    def op_obj_close(self, r):
        hs = self.handles(r, "o")
        if not hs: return
        l = self.rng.choice(hs); x = self.s(r)("obj_close", l)
        if x[0] != "0": self.bad("P28", "obj:close", str(x))
        del self.h[r][l]
    def op_obj_del(self, r):
        hs = self.handles(r, "o")
        if not hs: return
        l = self.rng.choice(hs); o = self.h[r][l][1]
        x = self.s(r)("obj_del", l)
        # the object's handles on every client stop meaning anything; this client's are gone or stale
        if o.live:
            if x[0] != "0": self.bad("P03", "obj:delete", "deleting %r (id %d): %s" % (o.name, o.id, x)); return
            o.live = False; self.F.stat("deletes"); self.dead.append(o)
            self.audit(["P03"])
        elif x[0] == "0":
            self.bad("P03", "obj:delete_missing", "deleting %r (id %d), which was deleted before, succeeded" % (o.name, o.id)); raise Stop()
        else: self.F.stat("deletes_refused"); self.audit(["P03"])
    def op_set_dims(self, r):
        hs = self.handles(r, "o", True)
        if not hs: return
        l = self.rng.choice(hs); o = self.h[r][l][1]
        if self.rng.random() < 0.1 and o.dims:
            v = [1] * (len(o.dims) % 3 + 1)
            if len(v) != len(o.dims):
                x = self.s(r)("set_dims", l, len(v), *v)
                if x[0] == "0": self.bad("P15", "dims:wrong_count", "object with %d dimensions accepts %d" % (len(o.dims), len(v)))
                self.o_info(r, l, o, ["P15"], False); return
        v = [max(1, d + self.rng.choice([-1, 0, 1, 5, 100])) for d in o.dims]
        if not v: return
        x = self.s(r)("set_dims", l, len(v), *v)
        if x[0] != "0": self.bad("P15", "dims:set", str(x)); return
        # handles opened before keep the extent they were opened with
        for q in range(self.w.c):
            for m, (k, e) in self.h[q].items():
                if e is o and (q, m) != (r, l): o.hd.setdefault((q, m), list(o.dims))
        o.dims = v; o.hd.pop((r, l), None); self.F.stat("resizes")
        x = self.s(r)("get_dims", l)
        if x[0] != "0" or [int(a) for a in x[2:]] != v: self.bad("P15", "dims:get", "set to %s, read %s" % (v, x))
        q = self.rng.randrange(self.w.c)
        if o.ts == 0 and len([c for c in self.live() if c.name == o.name and c.ts == 0]) == 1:
            m = self.opened_obj(q, self.s(q).i("obj_open", o.name), o.name, ["P15", "P01"])
            if m:
                x = self.s(q)("get_dims", m)
                if x[0] != "0" or [int(a) for a in x[2:]] != v: self.bad("P15", "dims:other", "set to %s by rank %d, rank %d opens it and reads %s" % (v, r, q, x))
        if self.rng.random() < 0.5: self.audit(["P15"])

    # ---------------------------------------------------------------- tags
    def tagval(self):
        g = self.rng
        if g.random() < 0.5:
            return 4, g.choice(["v", "value", "value1", "v" * 300, "a b", "val=7", "*x"]).encode() + b"\0"
        t = g.choice(TYPES); n = g.choice([1, 1, 1, 2, 5])
        b = bytes(g.choice([0, 0, 1, 5, 255]) for _ in range(SIZE[t] * n))
        return t, b
    def tprops(self, k): return ["P04"] if k == "o" else ["P05"]
    def op_tag_put(self, r, kind=None):
        kind = kind or self.rng.choice("ooc"); hs = self.handles(r, kind)
        if not hs: return
        l = self.rng.choice(hs); e = self.h[r][l][1]; t = self.rng.choice(self.tnames); ty, v = self.tagval()
        x = self.s(r)("tag_put", kind, l, t, ty, v); ok = x[0] == "0"
        if not e.live:
            if ok and not (kind == "c" and e.name in self.conts): self.bad(self.tprops(kind) + ["P03"], "tag:put_deleted", "putting a tag on %r, which was deleted, succeeded" % e.name)
            if ok and kind == "c" and e.name in self.conts: self.conts[e.name].kv[t] = (ty, v)
            return
        if not ok: self.bad(self.tprops(kind), "tag:put", "tag %r on %r: %s" % (t, e.name, x)); return
        e.kv[t] = (ty, v); self.F.stat("tag_puts")
        if self.rng.random() < 0.3: self.tag_check(self.rng.randrange(self.w.c), kind, e, t)
    def tag_check(self, r, kind, e, t, more=()):
        """read one tag of e from rank r with whatever handle it has"""
        l = next((l for l, (k, x) in self.h[r].items() if x is e), None)
        if l is None: return
        x = self.s(r)("tag_get", kind, l, t); pr = self.tprops(kind) + list(more)
        self.F.stat("tag_gets")
        want = e.kv.get(t)
        if not e.live: return
        if want is None:
            if x[0] == "0" and x[2] != "0": self.bad(pr, "tag:get_missing", "tag %r of %r is not there, get from rank %d gives %s" % (t, e.name, r, x))
        elif x[0] != "0" or int(x[1]) != want[0] or int(x[2]) != len(want[1]) or x[3] != want[1].hex(): self.bad(pr, "tag:get", "tag %r of %s %r: put type %d %s, rank %d gets %s" % (t, "object" if kind == "o" else "container", e.name, want[0], want[1].hex(), r, " ".join(x)))
    def op_tag_get(self, r):
        kind = self.rng.choice("ooc"); hs = self.handles(r, kind)
        if hs: self.tag_check(r, kind, self.h[r][self.rng.choice(hs)][1], self.rng.choice(self.tnames + ["missing"]))
    def op_tag_del(self, r):
        kind = self.rng.choice("ooc"); hs = self.handles(r, kind, True)
        if not hs: return
        l = self.rng.choice(hs); e = self.h[r][l][1]; t = self.rng.choice(self.tnames)
        x = self.s(r)("tag_del", kind, l, t)
        if t in e.kv:
            if x[0] != "0": self.bad(self.tprops(kind), "tag:del", "tag %r of %r is there, deleting it: %s" % (t, e.name, x)); return
            del e.kv[t]; self.F.stat("tag_deletes"); self.tag_check(r, kind, e, t); self.tags_audit(self.rng.randrange(self.w.c), ())
    def tags_audit(self, r, more):
        for l, (k, e) in list(self.h[r].items()):
            if e.live:
                for t in self.tnames: self.tag_check(r, k, e, t, more)

    def op_crowd(self, r):
        """hundreds of objects: under one name (time steps, owners), or with one tag"""
        s, g = self.s(r), self.rng; c = next(iter(self.handles(r, "c", True)), None) or self.op_cont_create(r)
        if not c or self.crowds: return
        self.crowds += 1
        flav = g.choice(["steps", "steps", "owners", "names", "names"]); n = g.choice([70, 130, 200]) if flav != "names" else g.choice([40, 140, 300])
        base = "crowd%d" % self.nops; step = self.w.n if flav == "steps" and g.random() < 0.6 else 1; tag = None
        pl = self.p_new(r); s("prop_user", pl, 5); s("prop_app", pl, "crowd"); p = self.pr[r][pl]; p.user, p.app = 5, "crowd"; made = []
        if g.random() < 0.7: tag = g.choice(self.tnames); ty, v = self.tagval()
        def make(i):
            nm = base
            if flav == "steps": p.ts = 10 + i * step; s("prop_ts", pl, p.ts)
            elif flav == "owners": p.user = 1 + i; s("prop_user", pl, p.user)
            else: nm = base + "_%d" % i
            return nm, s.i("obj_create", c, nm, pl)
        def new(i):
            nm, l = make(i)
            if l == 0: self.bad(["P01", "P03"], "obj:create", "creating %r (time step %d, user %d), the %dth of its kind" % (nm, p.ts, p.user, i)); raise Stop()
            o = self.mkobj(nm, p, self.metaid(r, l), ["P01"])
            if tag:
                if s("tag_put", "o", l, tag, ty, v)[0] != "0": self.bad("P04", "tag:put", "tag %r on %r" % (tag, nm)); raise Stop()
                o.kv[tag] = (ty, v)
            return l, o
        for i in range(n): made.append(new(i))
        def again(k):
            for i in g.sample(range(n), k):
                if made[i][1].live:
                    nm, l = make(i)
                    if l: self.bad("P01", "obj:duplicate_created", "%r (time step %d, user %d) exists already among %d, creating it again gave a handle" % (nm, p.ts, p.user, n)); raise Stop()
        again(6)
        for i in g.sample(range(n), g.choice([3, 10, n - 3])):
            l, o = made[i]; x = s("obj_del", l)
            if x[0] != "0": self.bad("P03", "obj:delete", "deleting %r (id %d), one of %d" % (o.name, o.id, n)); raise Stop()
            o.live = False; self.dead.append(o); made[i] = (None, o)
            if g.random() < 0.1: self.addh(r, l, "o", o, ["P03"], c)
            elif s("obj_close", l)[0] != "0": self.bad("P28", "obj:close", "handle %d of the deleted %r" % (l, o.name))
        again(n // 2)
        for i in g.sample(range(n), 5):
            if not made[i][1].live: made[i] = new(i)
        self.op_list(r, ["P01", "P03"])
        for i, (l, o) in enumerate(made):
            if not l: continue
            if g.random() < 0.05: self.addh(r, l, "o", o, ["P01"], c); self.o_info(r, l, o, ["P01"], True)
            elif s("obj_close", l)[0] != "0": self.bad("P28", "obj:close", "handle %d of %r" % (l, o.name))
        if flav == "names": self.onames += [base + "_%d" % i for i in g.sample(range(n), 4)]
        if tag: self.op_kv(r, (tag, ty, v))
        s("prop_close", pl); del self.pr[r][pl]
        self.F.stat("crowds"); self.F.stat("crowd_objects", n)

    # ---------------------------------------------------------------- queries
    def want_rec(self, o): return (o.name, o.app, o.user, o.ts, o.type, tuple(o.dims), o.tags)
    def recs(self, replies, props, what):
        out = {}
        for r, x in enumerate(replies):
            if x[0] != "0": self.bad(props, "list:rc", "%s on rank %d: %s" % (what, r, x[:3])); continue
            n = int(x[1]); rec = []
            for w in x[2:]:
                if w == "|": rec.append([])
                else: rec[-1].append(w)
            if n != len(rec): self.bad(props, "list:count", "%s rank %d says %d" % (what, r, n))
            for f in rec:
                mid = int(f[0]); nd = int(f[6])
                k = (dec(f[1]), dec(f[2]), int(f[3]), int(f[4]), int(f[5]), tuple(int(v) for v in f[7:7 + nd]), dec(f[7 + nd]))
                if mid in out: self.bad(props, "list:twice", "%s reports object %d (%s) twice" % (what, mid, k[0]))
                out[mid] = k
        return out
    def compare(self, got, want, props, what):
        w = {o.id: self.want_rec(o) for o in want}
        for i in w:
            if i not in got: self.bad(props, "list:missing", "%s does not report object %d %s" % (what, i, w[i]))
            elif got[i] != w[i]: self.bad(props, "list:attrs", "%s reports %s for object %d, created with %s" % (what, got[i], i, w[i]))
        for i in got:
            if i not in w: self.bad(props, "list:extra", "%s reports %d %s, which %s" % (what, i, got[i], "does not match" if any(o.id == i and o.live for o in self.objs) else "was deleted" if any(o.id == i for o in self.objs) else "never existed"))
    def op_list(self, r, more=()):
        self.compare(self.recs(self.w.all("list_all"), ["P06"] + list(more), "list-all"), self.live(), ["P06"] + list(more), "list-all")
        self.F.stat("listings")
    def op_partial(self, r):
        g = self.rng
        u = g.choice([-1] * 4 + self.users); app = g.choice([""] * 4 + ["app", "nonesuch"] + [a for a in self.apps if a]); nm = g.choice(["", g.choice(self.onames)]) if g.random() < .6 else ""
        if nm == "*" or app == " ": return
        ts = g.choice([(-1, -1)] * 4 + [(1, 3), (1, 1), (2, 100), (5, 4)]); nd = g.choice([-1] * 5 + [1, 2, 3]); tx = g.choice([""] * 5 + ["t1", "xyz", "t2=7", "zzz"])
        want = [o for o in self.live() if (u <= 0 or o.user == u) and (not app or o.app == app) and (not nm or o.name == nm) and (ts[0] < 0 or ts[0] <= o.ts <= ts[1]) and (nd < 0 or len(o.dims) == nd) and (not tx or tx in o.tags)]
        what = "query user=%s app=%r name=%r steps=%s ndim=%s tags=%r" % (u, app, nm, ts, nd, tx)
        got = self.recs(self.w.all("partial", u, app, nm, ts[0], ts[1], nd, tx), ["P06"], what)
        self.compare(got, want, ["P06"], what); self.F.stat("attribute_queries"); self.F.stat("attribute_query_hits", len(want))
    def op_meta(self, r):
        o = self.rng.choice(self.live()) if self.live() and self.rng.random() < 0.8 else None
        n, t = (o.name, o.ts) if o else (self.rng.choice(self.onames), self.rng.choice(self.tss))
        x = self.s(r)("meta", n, t); cand = [o for o in self.live() if o.name == n and o.ts == t]
        if not cand:
            if "|" in x: self.bad(["P01", "P03"], "meta:missing", "%r step %d does not exist: %s" % (n, t, x))
            return
        if "|" not in x: self.bad("P01", "meta:none", "%r step %d exists, the query from rank %d gives %s" % (n, t, r, x)); return
        f = x[x.index("|") + 2:]; mid = int(f[0]); o = next((o for o in cand if o.id == mid), None)
        nd = int(f[6]); k = (dec(f[1]), dec(f[2]), int(f[3]), int(f[4]), int(f[5]), tuple(int(v) for v in f[7:7 + nd]), dec(f[7 + nd]))
        if o is None: self.bad("P01", "meta:other", "%r step %d gives id %d, should be one of %s" % (n, t, mid, [c.id for c in cand]))
        elif k != self.want_rec(o): self.bad("P01", "meta:attrs", "%r step %d reads %s, created with %s" % (n, t, k, self.want_rec(o)))
        self.F.stat("name_queries")
    def op_kv(self, r, known=None):
        g = self.rng; t = g.choice(self.tnames); ents = [o for o in self.live() if t in o.kv]
        if ents and g.random() < 0.8: ty, v = g.choice(ents).kv[t]
        else: ty, v = self.tagval()
        if known: t, ty, v = known
        k = g.random(); q = t if k < 0.6 else t[:1] + "*" if k < 0.75 else "*" + t[-1:] if k < 0.9 else "*" + t[len(t) // 2:len(t) // 2 + 1] + "*"
        if ty == 4:
            s = v[:-1].decode(); k = g.random()
            if "*" in s: k = 1.1
            s = s if k < 0.5 else s[:1] + "*" if k < 0.65 else "*" + s[-1:] if k < 0.8 else "*" + s[len(s) // 2:] + "*" if k < 0.9 else s + "z" if k < 1 else "*" + "x"
            pv = s.encode() + b"\0"
        else: pv = v
        def hit(o):
            for n, (ty2, v2) in o.kv.items():
                if match(n, q) and ty2 == ty and (match(v2[:-1].decode(), pv[:-1].decode()) if ty == 4 else v2 == pv): return True
            return False
        want = sorted(o.id for o in self.live() if hit(o)); what = "tag query %r type %d value %s" % (q, ty, pv[:40])
        if g.random() < 0.5: reps = [(r, self.s(r)("kv", q, ty, pv))]
        else: reps = list(enumerate(self.w.all("kv_col", q, ty, pv))); self.F.stat("collective_tag_queries")
        for rr, x in reps:
            got = sorted(int(i) for i in x[2:])
            if x[0] != "0" or int(x[1]) != len(got) or got != want: self.bad("P07", "kv:result" + ("_col" if len(reps) > 1 else ""), "%s on rank %d: %s, matching are %s" % (what, rr, " ".join(x)[:400], want))
        self.F.stat("tag_queries"); self.F.stat("tag_query_hits", len(want))

    # ---------------------------------------------------------------- everything read back
    def audit(self, more=()):
        more = list(more)
        self.op_list(0, more)
        g = self.rng
        for n in g.sample(self.onames, min(len(self.onames), 6)):
            r = g.randrange(self.w.c)
            l = self.opened_obj(r, self.s(r).i("obj_open", n), n, ["P01"] + more)
            if l and g.random() < 0.5 and len(self.h[r]) > 20:
                self.s(r)("obj_close", l); del self.h[r][l]
        for n in self.cnames:
            r = g.randrange(self.w.c); l = self.s(r).i("cont_open", n); c = self.conts.get(n)
            if (l != 0) != (c is not None): self.bad(["P02"] + more, "cont:audit", "container %r %s, opening it from rank %d gives %d" % (n, "exists" if c else "does not exist", r, l)); continue
            if c:
                self.addh(r, l, "c", c, ["P02"]); self.c_read(r, l, c, ["P02"] + more)
                if len(self.h[r]) > 20: self.s(r)("cont_close", l); del self.h[r][l]
        self.tags_audit(g.randrange(self.w.c), more)
        self.F.stat("audits")
    # ---------------------------------------------------------------- rounds in which every rank acts at once
    def op_race(self, r):
        """all ranks create the same object at once: exactly one succeeds"""
        n = self.rng.choice(self.onames + ["race%d" % self.nops]); cs, ps = [], []
        p0 = None
        for q in range(self.w.c):
            hs = self.handles(q, "c", True); cs.append(hs[0] if hs else self.op_cont_create(q))
            l = self.s(q).i("prop"); ps.append(l)
            if p0 is None:
                p0 = Prop()
                for k, v in self.p_read(q, l).items(): setattr(p0, k, v)
                p0.dims = [self.rng.randint(1, 9)]; p0.user = self.rng.choice(self.users)
            self.s(q)("prop_dims", l, 1, *p0.dims)
            if p0.user: self.s(q)("prop_user", l, p0.user)
        if self.apps[0] is not None:
            p0.app = self.apps[0]
            for q in range(self.w.c): self.s(q)("prop_app", ps[q], p0.app)
        taken = self.clash(n, p0)
        got = self.w.par({q: ("obj_create", cs[q], n, ps[q]) for q in range(self.w.c)})
        for q in range(self.w.c): self.s(q)("prop_close", ps[q])
        win = [q for q in range(self.w.c) if got[q][0] != "0"]
        if len(win) != (0 if taken else 1): self.bad("P01", "obj:race", "%d ranks create %r at once (%s): ranks %s succeed" % (self.w.c, n, "taken" if taken else "free", win)); raise Stop()
        if win:
            lid = int(got[win[0]][0]); o = self.mkobj(n, p0, self.metaid(win[0], lid), ["P01"]); self.addh(win[0], lid, "o", o, ["P01"], cs[win[0]]); self.o_info(win[0], lid, o, ["P01"], True)
            if n not in self.onames: self.onames.append(n)
        self.F.stat("create_races")
    def op_parallel(self, r):
        """each rank does something different at the same time; every one must come out as if alone"""
        cmds, exp = {}, {}
        for q in range(self.w.c):
            k = self.rng.random(); g = self.rng
            if k < 0.4:
                hs = self.handles(q, "c", True) or [self.op_cont_create(q)]
                if not self.pr[q]: self.p_new(q)
                pl = g.choice(list(self.pr[q])); p = self.pr[q][pl]; n = "par%d_%d" % (self.nops, q); c = g.choice(hs)
                cmds[q] = ("obj_create", c, n, pl)
                def chk(x, q=q, n=n, p=p, c=c):
                    if x[0] == "0": self.bad("P01", "obj:create_parallel", "creating %r failed" % n); return
                    self.onames.append(n); l = int(x[0]); o = self.mkobj(n, p, self.metaid(q, l), ["P01"]); self.addh(q, l, "o", o, ["P01"], c); self.o_info(q, l, o, ["P01"], True)
                exp[q] = chk
            elif k < 0.7:
                hs = [l for l in self.handles(q, "o", True) + self.handles(q, "c", True) if not any(self.h[q][l][1] is z for z in exp.get("e", []))]
                if not hs: continue
                l = g.choice(hs); kind, e = self.h[q][l]; exp.setdefault("e", []).append(e)
                t = g.choice(self.tnames); ty, v = self.tagval(); cmds[q] = ("tag_put", kind, l, t, ty, v)
                def chk(x, e=e, t=t, ty=ty, v=v, kind=kind):
                    if x[0] != "0": self.bad(self.tprops(kind), "tag:put_parallel", "tag %r on %r: %s" % (t, e.name, x)); return
                    e.kv[t] = (ty, v)
                exp[q] = chk
            else:
                n = "parc%d_%d" % (self.nops, q); cmds[q] = ("cont_create", n)
                def chk(x, q=q, n=n): self.cnames.append(n); self.got_cont(q, int(x[0]), n, ["P02"])
                exp[q] = chk
        exp.pop("e", None)
        if any(djb2(c[1]) in [djb2(z) for z in self.cnames] for c in cmds.values() if c[0] == "cont_create"): return
        rep = self.w.par(cmds)
        for q in rep: exp[q](rep[q])
        self.F.stat("parallel_rounds")
        self.tags_audit(self.rng.randrange(self.w.c), ())

    def op_churn(self, r):
        """one client deletes or creates while the others list and open"""
        if self.w.c < 2: return
        g = self.rng; hs = [l for l in self.handles(r, "o", True)]; vic = None; cmds = {}
        if hs and g.random() < 0.7:
            l = g.choice(hs); vic = self.h[r][l][1]; cmds[r] = ("obj_del", l)
        else:
            cs = self.handles(r, "c", True) or [self.op_cont_create(r)]
            if not cs[0]: return
            if not self.pr[r]: self.p_new(r)
            pl = g.choice(list(self.pr[r])); p = self.pr[r][pl]; n = "churn%d_%d" % (self.nops, r); c = g.choice(cs); cmds[r] = ("obj_create", c, n, pl)
        opened = {}
        for q in range(self.w.c):
            if q == r: continue
            k = g.random(); o = g.choice([x for x in self.live() if x.ts == 0] or [None])
            if o is not None and k < 0.3: cmds[q] = ("obj_open", o.name); opened[q] = o.name
            elif k < 0.8: cmds[q] = ("list_all",)
            else: cmds[q] = ("partial", -1, "", "", -1, -1, -1, "")
        rep = self.w.par(cmds); known = {o.id: self.want_rec(o) for o in self.live()}; x = rep[r]
        if vic is not None:
            if x[0] != "0": self.bad("P03", "obj:delete_parallel", "deleting %r (id %d) while others read: %s" % (vic.name, vic.id, x)); return
            vic.live = False; self.dead.append(vic)
        else:
            if x[0] == "0": self.bad("P01", "obj:create_parallel", "creating %r failed" % n); return
            self.onames.append(n); l = int(x[0]); o = self.mkobj(n, p, self.metaid(r, l), ["P01"]); self.addh(r, l, "o", o, ["P01"], c); known[o.id] = self.want_rec(o)
        for q, x in rep.items():
            if q == r: continue
            if q in opened:
                nm = opened[q]; l = int(x[0])
                # the one being deleted may or may not still be there
                if vic is not None and vic.name == nm and vic.ts == 0:
                    if l:
                        self.s(q)("obj_close", l)
                else: self.opened_obj(q, l, nm, ["P01"])
            else:
                got = self.recs([x], ["P06"], "list-all during a deletion or creation")
                for i, rec in got.items():
                    if known.get(i) != rec: self.bad("P06", "list:churn", "rank %d, while rank %d did %s, is told of object %d %s, which is %s" % (q, r, cmds[r], i, rec, known.get(i)))
        self.F.stat("churn_rounds"); self.audit(["P03"] if vic is not None else [])

    OPS = dict(many=0.05, crowd=0.1, churn=1.5, prop=2, cont_create=3, cont_create_col=1, cont_open=2, cont_open_col=1, cont_close=1, cont_del=0.5, cont_query=1, cont_members=1, iter=1.5,
               obj_create=9, obj_create_col=1.5, obj_open=4, obj_open_col=1, obj_close=2, obj_del=1.5, set_dims=1,
               tag_put=6, tag_get=4, tag_del=2, list=1, partial=2, meta=2, kv=3, race=1, parallel=1.5)
    def run(self, n):
        wt = dict(self.OPS); wt.update(self.mix)
        ks = list(wt); ws = [wt[k] for k in ks]
        for _ in range(n):
            self.nops += 1
            k = self.rng.choices(ks, ws)[0]
            r = self.rng.randrange(self.w.c)
            getattr(self, "op_" + k)(r)
            self.F.stat("operations")
            for q in range(self.w.c):
                while len(self.h[q]) > 40:
                    l = self.rng.choice(list(self.h[q])); kd, e = self.h[q][l]
                    self.s(q)("obj_close" if kd == "o" else "cont_close", l); del self.h[q][l]
            if len(self.F.l) > 5: raise Stop()

MIX = {
 "P01": dict(crowd=0.4, obj_create=14, obj_open=8, meta=4, race=3, tag_put=2, kv=1),
 "P02": dict(cont_create=9, cont_create_col=3, cont_open=8, cont_open_col=3, cont_del=3, cont_query=5, obj_create=3, parallel=3),
 "P03": dict(crowd=0.4, churn=3, obj_del=6, cont_del=2, obj_create=14, tag_put=6, race=0),
 "P04": dict(tag_put=16, tag_get=10, tag_del=6, cont_create=1, list=0.3),
 "P05": dict(tag_put=16, tag_get=10, tag_del=6, cont_create=6, cont_open=6, cont_del=1.5, list=0.3),
 "P06": dict(crowd=0.4, churn=4, list=4, partial=10, obj_create=14, obj_del=2, tag_put=2),
 "P07": dict(crowd=0.4, kv=14, tag_put=16, tag_del=3, obj_create=8),
 "P15": dict(set_dims=10, obj_create=10),
 "P19": dict(crowd=0.4, obj_create=14, parallel=6, race=3, obj_del=3),
 "P26": dict(prop=14, obj_create=10, obj_open=5, tag_put=1, kv=0.5),
 "P28": dict(many=1.2, iter=8, cont_close=4, obj_close=6, obj_open=8, cont_open=5),
}
def scenario(pid, ops):
    def fn(rng, mk, F):
        w = mk(); w.enter()
        m = MetaWorld(w, rng, F, MIX.get(pid, {}))
        for rnd in range(rng.choice([1, 1, 2])):
            if rnd:
                # the job ends, the next one starts on the same servers
                w.leave(); w.c = rng.choice([1, 2, 3]); w.enter(w.c); m.reset_handles(); m.audit()
            m.run(ops)
        m.audit()
        w.leave(); w.down()
    return fn

def collision(rng, mk, F):
    """containers whose names have the same 32-bit hash"""
    w = mk(nserver=rng.choice([1, 2, 3]), nclient=1); a = w.enter()[0]
    p = "".join(rng.choice("abcdefgh") for _ in range(rng.randint(0, 3)))
    x, y = [p + t for t in rng.choice([("ab", "bA"), ("cd", "dC"), ("Zz", "[Y")])]
    F.stat("collisions")
    c, d = a.i("cont_create", x), a.i("cont_create", y)
    ci, di = a("cont_info", c), a("cont_info", d)
    if c and d and ci[2] == di[2]: F.fail(["P02"], "cont:collision:same_id", "containers %r and %r both have id %s" % (x, y, ci[2]))
    elif not c or not d: F.fail(["P02"], "cont:collision:refused", "creating %r and %r gives handles %d and %d" % (x, y, c, d))
    elif not a.i("cont_open", x) or not a.i("cont_open", y): F.fail(["P02"], "cont:collision:open", "%r and %r exist, one cannot be opened" % (x, y))
    w.leave(); w.down()
