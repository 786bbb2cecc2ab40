"""Handles at the interface of the library: a model of which are open and what they lead to, and calls with handles that are not."""
import world

# call with %s where the bad handle goes; other words are handles of that kind which are open; the answer expected
BAD = {
 "C": ["cont_close %s", "cont_del %s", "cont_info %s", "tag_put c %s t 3 41", "tag_get c %s t", "tag_del c %s t", "cont_add %s 1 O", "cont_rm %s 1 O", "obj_create %s zz P", "obj_create_col %s zz P 0", "put_data zz %s 4142", "obj_iter %s"],
 "P": ["prop_dup %s", "prop_close %s", "prop_dims %s 1 4", "prop_type %s 1", "prop_ts %s 1", "prop_user %s 1", "prop_app %s a", "prop_tags %s a", "prop_loc %s a", "prop_part %s 1", "prop_cons %s 1", "prop_info %s", "obj_create C zz %s", "obj_create_col C zz %s 0"],
 "O": ["obj_close %s", "obj_del %s", "obj_info %s", "set_dims %s 1 8", "get_dims %s", "get_data %s 4", "tag_put o %s t 3 41", "tag_get o %s t", "tag_del o %s t", "cont_add C 2 O %s", "cont_rm C 2 O %s", "x_create 1 w %s R R", "map 1 3 R %s R", "unmap %s R", "lock %s R w nb", "unlock %s R w", "flush %s"],
 "R": ["region_close %s", "x_create 1 w O %s R", "x_create 1 w O R %s", "map 1 3 %s O R", "map 1 3 R O %s", "unmap O %s", "lock O %s w nb", "unlock O %s w"],
 "X": ["x_start %s", "x_wait %s", "x_status %s", "x_close %s", "x_start_all %s", "x_start_all X %s", "x_start_all %s X", "x_wait_all %s", "x_wait_all X %s"],
}
ZERO = ("obj_create", "obj_create_col", "put_data", "prop_dup")
ANY = ("x_close", "flush", "obj_iter")   # closing what is closed, flushing and iterating over nothing may succeed: they must do nothing else
KINDS = "CPORX"

class Handles:
    def __init__(self, w, rng, F, s):
        self.w, self.rng, self.F, self.s, self.n = w, rng, F, s, 0
        self.live = {k: {} for k in KINDS}; self.dead = {k: [] for k in KINDS}; self.every = set()
        s("buf", 1, "41" * 16); s("buf", 2, "00" * 16)
        for k in "CPORRX": self.make(k)
    def fail(self, sig, detail): self.F.fail("P44", sig, detail)
    def new(self, k, h, what):
        if h in (0, 2**64 - 1): self.fail("handle_refused", "%s %r" % (k, what)); return 0
        if h in self.every: self.fail("handle_not_new", "%s %d %r" % (k, h, what))
        self.every.add(h); self.live[k][h] = what; self.F.stat("handles_opened")
        return h
    def any(self, k): return self.rng.choice(list(self.live[k]))
    def name(self, p): self.n += 1; return "%s%d.%d" % (p, self.s.rank, self.n)
    def make(self, k):
        s, g = self.s, self.rng
        if k == "C":
            c = g.random() < 0.4 and self.live["C"] and self.live["C"][self.any("C")]
            if c: self.new(k, s.i("cont_open", c), c)
            else: c = self.name("c"); self.new(k, s.i("cont_create", c), c)
        elif k == "P":
            if g.random() < 0.4 and self.live["P"]: b = self.any("P"); self.new(k, s.i("prop_dup", b), list(self.live["P"][b]))
            else: self.new(k, s.i("prop"), [None])
            p = list(self.live["P"])[-1]
            if self.live["P"][p] == [None] or g.random() < 0.5:
                d = g.randint(16, 60); s("prop_dims", p, 1, d); s("prop_type", p, 3); self.live["P"][p] = [d]
        elif k == "O":
            o = g.random() < 0.5 and self.live["O"] and self.live["O"][self.any("O")]
            if o: self.new(k, s.i("obj_open", o["n"]), o)
            else:
                p = self.any("P"); o = {"n": self.name("o"), "d": self.live["P"][p][0], "v": None, "t": None}
                self.new(k, s.i("obj_create", self.any("C"), o["n"], p), o)
        elif k == "R": self.new(k, s.i("region", 1, 0, 16), 16)
        else:
            o = self.any("O"); self.new(k, s.i("x_create", g.choice([1, 1, 2]) , "w", o, self.any("R"), self.any("R")), o)
    def close(self, k):
        if len(self.live[k]) < 2: return
        free = [h for h in self.live[k] if not (k == "O" and h in self.live["X"].values())]
        if not free: return
        h = self.rng.choice(free)
        if self.s.i({"C": "cont_close", "P": "prop_close", "O": "obj_close", "R": "region_close", "X": "x_close"}[k], h) != 0: self.fail("handle_close_refused", "%s %d" % (k, h))
        del self.live[k][h]; self.dead[k].append(h); self.F.stat("handles_closed")
    def bad(self):
        g = self.rng; k = g.choice("CPOORX"); t = g.choice(BAD[k]); dead = self.dead[k]
        how = g.choice(["closed", "closed", "closed", "unknown", "zero"])
        if how == "closed" and not dead: how = "unknown"
        h = g.choice(dead) if how == "closed" else 0 if how == "zero" else self.any(k) + 10**6 + g.randrange(1000)
        ws = [self.any(x) if len(x) == 1 and x in KINDS else str(h) if x == "%s" else x for x in t.split()]
        cmd = ws[0]
        if cmd.endswith("_col") and self.w.c > 1: return
        self.F.distinct("bad_calls", "%s/%s" % (t, how)); self.F.stat("bad_calls")
        r = self.s(*ws)
        ok = r[0] == "0" if cmd in ZERO else r[0] == str(2**64 - 1) if cmd == "x_create" else r[0].startswith("-")
        if not ok and cmd not in ANY: self.fail("bad_handle_accepted", "%s with %s handle answers %r" % (t, how, r[:4]))
    def look(self, k=None):
        """an open handle leads where it did when it was opened"""
        g, s = self.rng, self.s; k = k or g.choice("CPOOO"); h = self.any(k); e = self.live[k][h]
        self.F.stat("handles_followed")
        if k == "C":
            r = s("cont_info", h)
            if r[:2] != ["0", e]: self.fail("handle_leads_elsewhere", "container %r: %r" % (e, r))
        elif k == "P":
            r = s("prop_info", h)
            if r[:4] != ["0", "3", "1", str(e[0])]: self.fail("handle_leads_elsewhere", "property %r: %r" % (e, r))
        else:
            r = s("obj_info", h)
            if r[0] != "0" or r[1] != e["n"] or r[4:6] != ["1", str(e["d"])]: self.fail("handle_leads_elsewhere", "object %r: %r" % (e, r))
            if s("get_dims", h)[:3] != ["0", "1", str(e["d"])]: self.fail("handle_leads_elsewhere", "dims of %r" % e)
            if g.random() < 0.4:
                v = "%02x" % g.randrange(256) * g.randint(1, 9)
                if s.i("tag_put", "o", h, "tt", 3, v) != 0: self.fail("handle_useless", "tag_put %r" % e)
                e["t"] = v
            if e["t"] is not None:
                r = s("tag_get", "o", h, "tt")
                if r[0] != "0" or r[3] != e["t"]: self.fail("handle_leads_elsewhere", "tag of %r: %r" % (e, r))
    def transfer(self):
        """write through one handle of an object, read through another one"""
        g, s = self.rng, self.s
        h = self.any("O"); e = self.live["O"][h]; r = self.any("R")
        if g.random() < 0.6 or e["v"] is None:
            v = g.randbytes(16).hex(); s("buf", 3, v)
            x = s.i("x_create", 3, "w", h, r, self.any("R")); s("x_start", x); s("x_wait", x); s("x_close", x); self.every.add(x); self.dead["X"].append(x)
            e["v"] = v
        h = g.choice([q for q in self.live["O"] if self.live["O"][q] is e])
        s("buf", 4, "ee" * 16); x = s.i("x_create", 4, "r", h, r, self.any("R")); s("x_start", x); s("x_wait", x); s("x_close", x); self.dead["X"].append(x)
        d = s("dump", 4)
        if d[1] != e["v"]: self.fail("handle_leads_elsewhere", "data of %r: %r" % (e, d))
        self.F.stat("handle_transfers")
    def step(self):
        k = self.rng.random()
        if k < 0.3: self.make(self.rng.choice("CPOORX"))
        elif k < 0.5: self.close(self.rng.choice("CPOORX"))
        elif k < 0.78: self.bad()
        elif k < 0.94: self.look()
        else: self.transfer()

def scenario(pid="P44"):
    def fn(rng, mk, F):
        w = mk(nserver=rng.choice([1, 1, 2]), nclient=rng.choice([1, 1, 2])); w.enter(w.c)
        hs = [Handles(w, rng, F, s) for s in w.sh]
        for _ in range(rng.randint(20, 120)):
            h = rng.choice(hs); h.step()
        for h in hs:
            for k in "CPOOO": h.look(k)
            h.transfer()
            for x in list(h.live["X"]): h.s("x_close", x)
        F.distinct("history", str(hash(tuple(tuple(s.hist) for s in w.sh))))
        w.leave(); w.down()
    return fn
