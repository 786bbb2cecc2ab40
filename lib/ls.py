"""pdc_ls: what the tool prints about a directory or file of checkpoints, against the models of what the servers held."""
import json, os, re, shutil, subprocess
import meta, data, vb
from world import Stop
from restart import MMIX

TNAME = ["PDC_INT", "PDC_FLOAT", "PDC_DOUBLE", "PDC_CHAR", "PDC_STRING", "PDC_BOOLEAN", "PDC_SHORT", "PDC_UINT", "PDC_INT64", "PDC_UINT64", "PDC_INT16", "PDC_INT8", "PDC_UINT8", "PDC_UINT16", "PDC_INT32", "PDC_UINT32", "PDC_LONG", "PDC_VOID_PTR", "PDC_SIZE_T"]
def tool(san="asan"):
    o = vb.objs([vb.SRC + "/tools/pdc_ls.c"], san, ["-I" + vb.SRC]) + vb.objs([vb.SRC + "/tools/cjson/cJSON.c"], san)
    return vb.link("pdc_ls", o + vb.client_lib(san), san, libs=["-rdynamic", "-lm", "-luuid", "-lpthread", "-ldl"])

class Dup(Exception): pass
def pairs(l):
    d = dict(l)
    if len(d) != len(l): raise Dup("repeated names among %s" % [k for k, v in l][:12])
    return d

class Ls:
    def __init__(self, exe, w, rng, F):
        self.exe, self.w, self.rng, self.F = exe, w, rng, F
        self.t, self.cmd = w.cl.root + "/t", ""
    def bad(self, sig, det): self.F.fail("P47", sig, "%s: %s" % (self.cmd, det))
    def run(self, path, *args):
        """the parsed output, or nothing if that is already wrong"""
        self.cmd = "pdc_ls %s %s" % (path.replace(self.w.cl.root, ""), " ".join(args).replace(self.w.cl.root, ""))
        self.w.trace.append(self.cmd)
        js = None
        args = list(args)
        if self.rng.random() < 0.35:
            js = self.w.cl.root + "/ls.json"; i = self.rng.choice([0, len(args)]); args[i:i] = ["-json", js]; self.cmd += " -json"
        e = dict(self.w.cl.env0, ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1")
        try: p = subprocess.run([self.exe, path] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=self.w.cl.root, timeout=60)
        except subprocess.TimeoutExpired:
            self.bad("ls:hang", "no end within a minute"); return None
        out, err = p.stdout.decode("latin1"), p.stderr.decode("latin1")
        if "AddressSanitizer" in err or p.returncode < 0 or p.returncode == 99:
            m = re.search(r"AddressSanitizer:? (\S+)", err); fr = re.findall(r"#\d+ \S+ in (\w+)", err)
            self.bad("ls:crash:%s" % (m.group(1) if m else "signal"), "code %d, %s\n%s" % (p.returncode, fr[:4], err[:1500])); return None
        self.F.stat("listings")
        if js:
            self.F.stat("listings_to_file")
            try:
                with open(js, encoding="latin1") as f: text = f.read()
                os.unlink(js)
            except OSError: self.bad("ls:file", "no file is written"); return None
            if "\n{" in out: self.bad("ls:file", "the listing goes to the terminal as well")
        else:
            i = re.search(r"(?:^|\n|open FAILED \[[^\n]*\]!)(?=\{)", out)   # remarks come first
            if not i: self.bad("ls:none", "no listing: %s" % out[-300:]); return None
            text = out[i.end():]
        try: return json.loads(text, object_pairs_hook=pairs)
        except Dup as x: self.bad("ls:json", str(x))
        except ValueError as x: self.bad("ls:json", "%s in %r" % (x, text[-300:]))
        return None
    def want(self, o): return dict(obj_id=o.id, app_name=o.app, obj_name=o.name, user_id=o.user, tags=o.tags, data_type=TNAME[o.type] if o.type >= 0 else "PDC_UNKNOWN", num_dims=len(o.dims), dims=list(o.dims), time_step=o.ts)
    def compare(self, got, objs, extras, nconts=None, nregs=None):
        """the listing holds these objects, each once and under its container, and the fields asked for"""
        if got is None: return
        seen, names, ids = {}, [], []
        for kk, v in got.items():
            if kk in ("all_obj_names", "all_obj_ids", "summary"): continue
            m = re.match(r"cont_id: (\d+)$", kk)
            if not m or not isinstance(v, list): self.bad("ls:field", kk); continue
            for e in v:
                if e["obj_id"] in seen: self.bad("ls:twice", "object %s is listed twice" % e["obj_id"])
                seen[e["obj_id"]] = (int(m.group(1)), e); names.append(e["obj_name"]); ids.append(e["obj_id"])
        for o in objs:
            if o.id not in seen: self.bad("ls:missing", "object %r (id %d, time step %d) is in the checkpoint but not listed" % (o.name, o.id, o.ts)); continue
            c, e = seen.pop(o.id); self.F.stat("objects_listed")
            if o.cont is not None and c != o.cont: self.bad("ls:container", "object %r of container %d is listed under %d" % (o.name, o.cont, c))
            for kk, v in self.want(o).items():
                if e.get(kk) != v: self.bad("ls:attr:" + kk, "%s of %r is listed as %r, not %r" % (kk, o.name, e.get(kk), v))
        for i, (c, e) in seen.items(): self.bad("ls:other", "object %r (id %d) is listed, which is not in the checkpoint or not asked for" % (e["obj_name"], i))
        if ("-ln" in extras) != ("all_obj_names" in got) or "-ln" in extras and sorted(got["all_obj_names"]) != sorted(names): self.bad("ls:names", "all_obj_names is %s" % got.get("all_obj_names"))
        if ("-li" in extras) != ("all_obj_ids" in got) or "-li" in extras and sorted(got["all_obj_ids"]) != sorted(ids): self.bad("ls:ids", "all_obj_ids is %s, not %s" % (got.get("all_obj_ids"), ids))
        if ("-s" in extras) != ("summary" in got): self.bad("ls:summary", "%s" % got.get("summary"))
        elif "-s" in extras and nconts is not None:
            w = "pdc_ls found: %d containers, %d objects, %d regions" % (nconts, len(objs), sum(len(e["region_list_info"]) for e in (e for v in got.values() if isinstance(v, list) and v and isinstance(v[0], dict) for e in v)))
            if got["summary"] != w: self.bad("ls:summary", "%r, not %r" % (got["summary"], w))
    def extras(self): return [x for x in ("-ln", "-li", "-s") if self.rng.random() < 0.4]
    def place(self): return self.t + self.rng.choice(["", "", "/"])
    def pattern(self, texts):
        """a basic regular expression made from one of the texts; how the tool must understand it"""
        g = self.rng; s = g.choice(texts)
        s = re.sub(r"[^A-Za-z0-9_ ]", ".", s)[:60] or "x"
        k = g.random()
        if k < 0.3: return s
        a = g.randrange(len(s)); b = g.randint(a + 1, len(s)); p = s[a:b]
        if k < 0.5: return p
        if k < 0.7: return "^" + s[:b]
        if k < 0.85: return s[a:] + "$"
        return s[:b] + ".*"

    def strays(self):
        """other things that may lie beside checkpoints"""
        g, made = self.rng, []
        r = g.randrange(self.w.n); cp = "%s/%d/metadata_checkpoint.%d" % (self.t, r, r)
        with open(cp, "rb") as f: b = f.read()
        for nm in g.sample(["%d/metadata_checkpoint.%d.tmp" % (r, r), "metadata_checkpoint.0.tmp", "notes.txt", "%d/checkpoint.0" % r, "metadata_checkpoint.", "old_metadata_checkpoint.1"], 2):
            if not os.path.exists(self.t + "/" + nm):
                with open(self.t + "/" + nm, "wb") as f: f.write(b[:g.randrange(len(b))] if g.random() < 0.7 else b)
                made.append(self.t + "/" + nm)
        if g.random() < 0.4:   # one that is there but cannot be opened
            nm = self.t + g.choice(["", "/%d" % r]) + "/metadata_checkpoint.77"
            os.symlink(self.t + "/nowhere", nm); made.append(nm)
        self.F.stat("stray_files", len(made))
        return made
    def check(self, objs, nconts):
        if self.rng.random() < 0.6: return self.check_(objs, nconts)
        made = self.strays()
        try: self.check_(objs, nconts)
        finally:
            for f in made: os.unlink(f)
    def check_(self, objs, nconts):
        """several listings of the servers' checkpoints"""
        g = self.rng
        ex = self.extras(); self.compare(self.run(self.place(), *ex), objs, ex, nconts)
        for _ in range(g.choice([1, 2, 3])):
            k, ex = g.random(), self.extras()
            if k < 0.4:
                p = self.pattern([o.name for o in objs] or ["x"])
                self.compare(self.run(self.place(), "-n", p, *ex), [o for o in objs if re.search(p, o.name, re.S)], ex)
            elif k < 0.7:
                p = self.pattern([str(o.id) for o in objs] or ["1"])
                self.compare(self.run(self.place(), "-i", p, *ex), [o for o in objs if re.search(p, str(o.id))], ex)
            elif k < 0.8:
                p, q = self.pattern([o.name for o in objs] or ["x"]), self.pattern([str(o.id) for o in objs] or ["1"])
                self.compare(self.run(self.place(), "-n", p, "-i", q, *ex), [o for o in objs if re.search(p, o.name, re.S) and re.search(q, str(o.id))], ex)
            else:   # one server's part
                r = g.randrange(self.w.n)
                self.compare(self.run("%s/%d%s" % (self.t, r, g.choice(["", "/", "/metadata_checkpoint.%d" % r])), *ex), [o for o in objs if o.id // 10**9 - 1 == r], ex)
            self.F.stat("filtered_listings")

def metas(exe):
    def fn(rng, mk, F):
        w = mk(); w.enter(); m = meta.MetaWorld(w, rng, F, MMIX); l = Ls(exe, w, rng, F)
        for rnd in range(rng.choice([1, 1, 2])):
            m.run(rng.choice([5, 40, 40]))
            if rng.random() < 0.5:
                if not w.checkpoint(): F.stat("checkpoints_unseen"); return
            elif rnd == 0:
                w.leave(); w.down(); w.up(restart=True); w.enter(w.c); m.reset_handles()
            else: w.leave(); w.down()
            l.check(m.live(), len(m.conts))
            if not w.sh: return
    return fn

def datas(exe):
    """the regions listed say where every element written is stored"""
    def fn(rng, mk, F):
        w = mk(env=data.env_of(rng)); w.enter(); m = data.DataWorld(w, rng, F, {}); m.first(); m.writes = {}; l = Ls(exe, w, rng, F)
        for _ in range(rng.choice([1, 2, 4])): m.op_obj()
        left = {o: None for o in m.objs}
        for o in m.objs:
            cuts = sorted(rng.sample(range(1, o.d[0]), min(o.d[0] - 1, rng.choice([0, 1, 3])))); left[o] = [(a, b) for a, b in zip([0] + cuts, cuts + [o.d[0]]) if rng.random() < 0.8]
        todo = [(o, a, b) for o in m.objs for a, b in left[o]]; rng.shuffle(todo)
        for o, a, b in todo:
            m.region = lambda o, reg=([a] + [0] * (len(o.d) - 1), [b - a] + list(o.d[1:])): reg
            q = m.new(rng.randrange(w.c), "w", o)
            m.start([q]); m.complete([q], "wait"); m.close(q); F.stat("slabs_written")
        ids = {o: int(m.s(0)("obj_info", m.handle(o, 0))[2]) for o in m.objs}
        w.leave(); w.down()
        got = l.run(l.place())
        if got is None: return
        ent = {e["obj_id"]: e for v in got.values() if isinstance(v, list) for e in v}
        for o in m.objs:
            e = ent.get(ids[o])
            if e is None: l.bad("ls:missing", "object %s" % o.name); continue
            seen = set()
            for r in e["region_list_info"]:
                F.stat("regions_listed")
                if r["num_dims"] != len(o.d) or len(r["start"]) != len(o.d) or len(r["count"]) != len(o.d): l.bad("ls:region-dims", "%s of object with dimensions %s" % (r, o.d)); break
                if any(x < 0 or n < 1 or x + n > d for x, n, d in zip(r["start"], r["count"], o.d)): l.bad("ls:region-extent", "%s of object with dimensions %s" % (r, o.d)); break
                if r["unit_size"] != o.es: l.bad("ls:region-unit", "%s, elements have %d bytes" % (r, o.es))
                try:
                    with open(r["storage_loc"], "rb") as f: f.seek(int(r["offset"])); b = f.read(data.prod(r["count"]) * o.es)
                except OSError as x: l.bad("ls:region-file", "%s: %s" % (r, x)); continue
                k = 0
                for a, n in data.rows(o.d, r["start"], r["count"]):
                    if not all(o.who[a:a + n]): l.bad("ls:region-unwritten", "%s holds elements never written" % r); break
                    if b[k:k + n * o.es] != bytes(o.val[a * o.es:(a + n) * o.es]): l.bad("ls:region-data", "the file does not hold the elements of %s there" % r); break
                    k += n * o.es; seen.update(range(a, a + n))
            miss = [i for i in range(o.n) if o.who[i] and i not in seen]
            if miss: l.bad("ls:region-missing", "%d of %d elements of %s (dimensions %s, partition %d), first %d, are in no region listed: %s" % (len(miss), o.n, o.name, o.d, o.part, miss[0], e["region_list_info"]))
            F.stat("elements_located", len(seen))
        F.distinct("shape", str([(o.d, o.es, o.part) for o in m.objs]))
    return fn

def scenario():
    exe = tool()
    a, b = metas(exe), datas(exe)
    def fn(rng, mk, F): (a if rng.random() < 0.65 else b)(rng, mk, F)
    return fn
