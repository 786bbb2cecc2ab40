"""Distributed metadata index: a model of live references, queried with every kind of pattern.

Suffix queries rely on every suffix of a key and of a value being an entry of its own, which cannot be told from a whole key
or value (known findings): `tokens` says which deviations from the statement that one cause explains, nothing else is excused."""

def kinds(x, rng=None):
    """(query text, predicate on the whole string, predicate on an entry)"""
    return {"exact": (x, lambda s: s == x, lambda t: t == x),
            "prefix": (x + "*", lambda s: s.startswith(x), lambda t: t.startswith(x)),
            "suffix": ("*" + x, lambda s: s.endswith(x), lambda t: t == x),
            "infix": ("*" + x + "*", lambda s: x in s, lambda t: t.startswith(x))}

def sfx(s): return [s[i:] for i in range(len(s))]
def tokens(k, v, i): return [(a, b, i) for a in sfx(k) for b in sfx(v)]

class Index:
    def __init__(self, w, rng, F, algo, pid):
        self.w, self.rng, self.F, self.algo, self.pid = w, rng, F, algo, pid
        self.live, self.dead, self.tok, self.nid = set(), set(), set(), 0
        letters = rng.choice(["ab", "abcdefghijklmnopqrstuvwxyz", "abXY019_./-", "aAzZ\x01\x7f", "ab\u00e9\u00ff"])
        stems = [self.word(letters, rng.randint(1, 4)) for _ in range(4)]
        mk = lambda: "".join(rng.choice(stems + list(letters)) for _ in range(rng.randint(1, 4)))[:rng.choice([3, 8, 14])]
        self.keys = sorted({mk() for _ in range(7)} | set(stems[:2])); self.vals = sorted({mk() for _ in range(6)} | {stems[0], mk() + "=" + mk()})
        if rng.random() < 0.15: self.keys.append(self.word(letters, 60)); self.vals.append(self.word(letters, 90))
        self.letters = letters
    def word(self, letters, n): return "".join(self.rng.choice(letters) for _ in range(n))
    def pick(self): return self.rng.choice(self.keys), self.rng.choice(self.vals)
    def ins_words(self):
        k, v = self.pick()
        if self.live and self.rng.random() < 0.25:   # one more key or value for a reference known already
            i = self.rng.choice(sorted(self.live))[2]
        else:
            self.nid += 1
            i = self.rng.choice([self.nid, self.nid + (1 << 33), 1000000000 * self.rng.randint(1, 3) + self.nid])
        return k, v, i
    def did_ins(self, e): self.live.add(e); self.dead.discard(e); self.tok.update(tokens(*e)); self.F.stat("references_inserted")
    def did_del(self, e): self.live.discard(e); self.dead.add(e); self.tok.difference_update(tokens(*e)); self.F.stat("references_deleted")
    def insert(self, s):
        e = self.ins_words()
        if s.i("dart_ins", self.algo, *e) < 0: self.F.fail(self.pid, "insert_refused", repr(e))
        else: self.did_ins(e)
    def delete(self, s):
        r = self.rng.random()
        e = self.rng.choice(sorted(self.live)) if self.live and r < 0.85 else self.pick() + (self.rng.randint(1, self.nid + 1),)
        if e in self.live or r > 0.9:
            if s.i("dart_del", self.algo, *e) < 0: self.F.fail(self.pid, "delete_refused", repr(e))
            self.did_del(e)
    def part(self, words):
        r = self.rng.random(); x = self.rng.choice(words)
        if r < 0.5: return x
        a = self.rng.randrange(len(x)); b = self.rng.randint(a + 1, len(x))
        if r < 0.75: return x[:b]
        if r < 0.95: return x[a:b]
        return self.word(self.letters, self.rng.randint(1, 5))
    def query(self, s, kk=None, vv=None, kx=None, vx=None):
        rng = self.rng
        kk, vv = kk or rng.choice(["exact", "exact", "prefix", "suffix", "infix"]), vv or rng.choice(["exact", "exact", "prefix", "suffix", "infix"])
        kx, vx = kx or self.part(self.keys), vx or self.part(self.vals)
        # in a key, '=' ends it and '*' stands for anything; in a value '~' makes a range
        kx = kx.replace("=", "").replace("*", "") or "a"
        kq, kw, kt = kinds(kx)[kk]; vq, vw, vt = kinds(vx)[vv]
        r = s("dart_q", self.algo, kq + "=" + vq)
        q = "%s=%s (algorithm %d, %d servers)" % (kq, vq, self.algo, self.w.n)
        if int(r[0]) < 0 or int(r[1]) < 0: return self.F.fail(self.pid, "query_refused", q)
        got = [int(x) for x in r[2:]]; have = set(got)
        want = {i for k, v, i in self.live if kw(k) and vw(v)}
        self.F.stat("queries_%s_%s" % (kk, vv)); self.F.stat("references_compared", len(want)); self.F.distinct("answers", (kq, vq, tuple(sorted(have))))
        if len(got) != len(have) or len(got) != int(r[1]): self.F.fail(self.pid, "duplicate:%s_%s" % (kk, vv), "%s answered %s" % (q, got))
        for i in have - want:
            if any(j == i and any(kt(a) for a in sfx(k)) and any(vt(b) for b in sfx(v)) for k, v, j in self.live):
                self.F.fail(self.pid, "suffix_entry_found", "%s answered %d, no whole key and value of which match" % (q, i))
            elif any(j == i and kw(k) and vw(v) for k, v, j in self.dead): self.F.fail(self.pid, "deleted_found:%s_%s" % (kk, vv), "%s still answered %d after its deletion" % (q, i))
            else: self.F.fail(self.pid, "extra:%s_%s" % (kk, vv), "%s answered %d: %s" % (q, i, [e for e in self.live | self.dead if e[2] == i]))
        for i in want - have:
            if any(j == i and kt(a) and vt(b) for a, b, j in self.tok): self.F.fail(self.pid, "missed:%s_%s" % (kk, vv), "%s did not answer %d: %s" % (q, i, [e for e in self.live if e[2] == i]))
            else: self.F.fail(self.pid, "shared_suffix_deleted", "%s did not answer %d, which shares a suffix with a deleted pair" % (q, i))
    def audit(self, s):
        """every live pair by its own key and value in all forms, every deleted one"""
        es = sorted(self.live); self.rng.shuffle(es)
        for k, v, i in es[:25]: self.query(s, self.rng.choice(["exact", "prefix", "suffix", "infix"]), self.rng.choice(["exact", "prefix", "suffix", "infix"]), k, v)
        ds = sorted(self.dead); self.rng.shuffle(ds)
        for k, v, i in ds[:10]: self.query(s, self.rng.choice(["exact", "suffix", "infix"]), "exact", self.rng.choice(sfx(k)), v)

def scenario(ops=45):
    def fn(rng, mk, F):
        w = mk(nclient=rng.choice([1, 1, 2, 3]), nserver=rng.choice([1, 2, 3, 4, 5, 6]))
        w.enter()
        x = Index(w, rng, F, rng.choice([1, 2, 3, 3]), "P08")
        for _ in range(rng.randint(ops // 2, ops)):
            s = rng.choice(w.sh); k = rng.random()
            if k < 0.34: x.insert(s)
            elif k < 0.42 and w.c > 1:     # several ranks insert at once
                es = {r: x.ins_words() for r in range(w.c)}
                w.par({r: ("dart_ins", x.algo) + e for r, e in es.items()})
                for e in es.values(): x.did_ins(e)
                F.stat("insertions_at_once")
            elif k < 0.55: x.delete(s)
            else: x.query(s)
        x.audit(rng.choice(w.sh))
        w.leave()
        if rng.random() < 0.3:             # another job finds what the first one indexed
            w.c = rng.choice([1, 2]); w.enter(); x.audit(w.sh[0]); w.leave()
        F.distinct("setup", (w.n, w.c, x.algo))
        w.down()
    return fn
