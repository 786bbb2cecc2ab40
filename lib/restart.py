"""Restarts: the metadata and data models carried across an orderly close and restart."""
import meta, data
from world import Stop

def tagged(F, props):
    """from now on every failure also counts against props"""
    if not hasattr(F, "_fail"): F._fail = F.fail
    def f(prop, sig, detail):
        prop = list(prop) if isinstance(prop, (list, tuple)) else [prop]
        F._fail(prop + [p for p in props if p not in prop], sig, detail)
    F.fail = f

MMIX = dict(obj_create=10, obj_del=2, tag_put=8, tag_del=2, set_dims=3, cont_create=4, cont_del=1, kv=2, race=0.5, prop=1)
def meta_restart(ops):
    def fn(rng, mk, F):
        w = mk(); w.enter(); m = meta.MetaWorld(w, rng, F, MMIX)
        for rnd in range(rng.choice([1, 1, 2, 3])):
            m.run(rng.choice([0, 3, ops, ops]) if rnd else ops)
            w.leave(); w.down(); w.up(restart=True); F.stat("restarts")
            tagged(F, ["P17"])
            w.c = rng.choice([1, 2, 3]); w.enter(w.c); m.reset_handles(); m.audit(["P17"])
        m.run(ops); m.audit(["P17"])
        w.leave(); w.down()
    return fn

def data_restart(ops):
    def fn(rng, mk, F):
        w = mk(env=data.env_of(rng)); w.enter(); m = data.DataWorld(w, rng, F, {}); m.first()
        for rnd in range(rng.choice([1, 1, 2, 3])):
            m.run(rng.choice([0, 3, ops, ops]) if rnd else ops); m.settle()
            w.leave(); w.down(); w.up(restart=True); F.stat("restarts")
            tagged(F, ["P17"])
            w.c = rng.choice([1, 2, 3]); w.enter(w.c); m.begin(); m.audit()
        m.run(ops); m.audit()
        w.leave(); w.down()
    return fn

def scenario(mops=40, dops=25):
    a, b = meta_restart(mops), data_restart(dops)
    def fn(rng, mk, F): (a if rng.random() < 0.5 else b)(rng, mk, F)
    return fn

# ---- crashes ---------------------------------------------------------------
import os, time
from meta import Ent
from world import Died, Hung, Fails

def home(e):
    """the server that holds an object or container: the one that numbered it"""
    return e.id // 10**9 - 1
def cp(e):
    f = Ent(); f.__dict__.update(e.__dict__); f.kv = dict(e.kv)
    if hasattr(e, "dims"):
        f.dims = list(e.dims); f.hd = {}; f.hdims = lambda r, l, o=f: o.hd.get((r, l), o.dims)
    else: f.members = list(e.members)
    return f
def snap(m): return ({n: cp(c) for n, c in m.conts.items()}, [cp(o) for o in m.objs], list(m.cnames), list(m.onames))
def markers(m, w, k):
    """an object on every server that only states from now on contain"""
    have = {}; i = 0
    while len(have) < w.n and i < 200:
        n = "mk%d_%d" % (k, i); i += 1; before = len(m.objs)
        m.op_obj_create(0, n)
        if len(m.objs) > before: have.setdefault(home(m.objs[-1]), (n, m.objs[-1].ts))
    if len(have) < w.n: raise Stop()
    return have
def drive(m, w, f):
    """runs f while servers may die; what it observes is not judged"""
    keep = m.F; m.F = Fails(); was = [x.watch for x in w.sh]
    for x in w.sh: x.watch = w.cl.alive
    try: f()
    except (Died, Hung, Stop, ValueError, IndexError): pass
    finally: m.F = keep
def crash_restart(w, F, rng):
    # what clients do when a server vanishes under them is not judged
    dead = [x.p.pid for x in w.sh]
    w.crash(); w.drop(); w.disarm(); F.stat("crashes")
    for p in dead:
        try: os.unlink("%s/san.%d" % (w.cl.root, p))
        except OSError: pass
    w.up(restart=True); w.c = rng.choice([1, 2, 3]); w.enter(w.c)

def meta_crash(ops):
    def fn(rng, mk, F):
        w = mk(env={"VHG_ARM": "arm"}, delay_us=rng.choice([0, 0, 200])); w.enter(); m = meta.MetaWorld(w, rng, F, MMIX)
        for rnd in range(rng.choice([1, 1, 2])):
            m.run(ops); mk1 = markers(m, w, 2 * rnd); s1 = snap(m)
            if not w.checkpoint(): raise Died("server during checkpoint")
            F.stat("checkpoints")
            tagged(F, ["P18"])
            k = rng.random(); s2, mk2 = None, {}
            if k < 0.3:
                m.run(rng.choice([0, ops]))
            elif k < 0.5:
                w.arm(rng.randrange(w.n), "cb", rng.randint(1, 120))
                drive(m, w, lambda: m.run(ops)); F.stat("crashes_between_messages", 0 if w.cl.alive() else 1)
            else:
                m.run(rng.choice([0, 5, ops])); mk2 = markers(m, w, 2 * rnd + 1); s2 = snap(m)
                w.arm(rng.randrange(w.n), "io", rng.choice([1, 2, 3, rng.randint(1, 40), rng.randint(1, 200), rng.randint(1, 400)]), rng.choice([0, 0, 1]))
                if rng.random() < 0.3:
                    # the checkpoint of an orderly close
                    drive(m, w, lambda: (w.leave(), w.cl.try_close(20)))
                    F.stat("crashes_during_close")
                else:
                    drive(m, w, lambda: w.checkpoint()); F.stat("crashes_during_checkpoint", 0 if w.cl.alive() else 1)
            crash_restart(w, F, rng); m.reset_handles()
            # which of the two states does each server have?
            got = {}
            for n in list(mk1.values()) + list(mk2.values()):
                got[n] = "|" in w.sh[0]("meta", *n)
            pick = {}
            for sv in range(w.n):
                if not got[mk1[sv]] and not (s2 and got[mk2[sv]]): F.fail(["P18"], "crash:lost", "server %d does not have the object created before the checkpoint completed" % sv); raise Stop()
                pick[sv] = s2 if s2 and got[mk2[sv]] else s1
            F.stat("servers_with_newer_state", sum(1 for v in pick.values() if v is s2)); F.stat("servers_with_covered_state", sum(1 for v in pick.values() if v is s1))
            m.conts, m.objs, m.ids = {}, [], {}
            for sv, st in pick.items():
                for n, c in st[0].items():
                    if home(c) == sv: m.conts[n] = cp(c)
                m.objs += [cp(o) for o in st[1] if home(o) == sv]
            for c in m.conts.values(): m.ids[c.id] = "container %r" % c.name
            for o in m.objs: m.ids[o.id] = "object %r" % o.name
            st = s2 or s1; m.cnames, m.onames = list(st[2]), list(st[3]); m.dead = [o for o in m.objs if not o.live]
            m.audit(["P18"])
        m.run(ops); m.audit(["P18"])
        w.leave(); w.down()
    return fn

def dsnap(m):
    m.intents = []
    return [(o, bytes(o.val), list(o.who)) for o in m.objs], list(m.puts)
def data_crash(ops):
    def fn(rng, mk, F):
        e = data.env_of(rng); e["VHG_ARM"] = "arm"
        w = mk(env=e, delay_us=rng.choice([0, 0, 200])); w.enter(); m = data.DataWorld(w, rng, F, {}); m.first()
        for rnd in range(rng.choice([1, 1, 2])):
            m.run(ops); m.settle()
            w.sh[0]("flush_all"); s1 = dsnap(m)
            if not w.checkpoint(): raise Died("server during checkpoint")
            F.stat("checkpoints")
            tagged(F, ["P18"])
            k = rng.random()
            if k < 0.3:
                m.run(rng.choice([0, ops]))
            elif k < 0.5:
                w.arm(rng.randrange(w.n), "cb", rng.randint(1, 200))
                drive(m, w, lambda: m.run(ops)); F.stat("crashes_between_messages", 0 if w.cl.alive() else 1)
            else:
                m.run(rng.choice([0, 5, ops])); m.settle()
                if rng.random() < 0.5: w.sh[0]("flush_all")
                w.arm(rng.randrange(w.n), "io", rng.choice([1, 2, 3, rng.randint(1, 40), rng.randint(1, 200), rng.randint(1, 400)]), rng.choice([0, 0, 1]))
                if rng.random() < 0.3:
                    drive(m, w, lambda: (w.leave(), w.cl.try_close(20))); F.stat("crashes_during_close")
                else:
                    drive(m, w, lambda: w.checkpoint()); F.stat("crashes_during_checkpoint", 0 if w.cl.alive() else 1)
            m.reqs = []; crash_restart(w, F, rng)
            # covered: every element as it was when the checkpoint completed, unless a later write was aimed at it
            later = {}
            for o, reg in m.intents: later.setdefault(id(o), set()).update(x for a, c in data.rows(o.d, *reg) for x in range(a, a + c))
            m.objs = []
            for o, val, who in s1[0]:
                o.val = bytearray(val); o.who = who
                for x in later.get(id(o), ()): o.who[x] = 0
                F.stat("covered_elements", sum(1 for x in o.who if x)); m.objs.append(o)
            m.puts = s1[1]; m.begin(); m.audit()
        m.run(ops); m.audit()
        w.leave(); w.down()
    return fn

def crash(mops=30, dops=25):
    a, b = meta_crash(mops), data_crash(dops)
    def fn(rng, mk, F): (a if rng.random() < 0.5 else b)(rng, mk, F)
    return fn
