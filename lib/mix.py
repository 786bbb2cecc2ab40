"""Mixtures of all kinds of scenario, for the properties about how things are done rather than what results."""
import re
import maps, meta, data, restart, live

def any_of(mops=45, dops=30, crash=False):
    fs = [meta.scenario("P21", mops), data.scenario("P21", dops), data.scenario("P10", dops), data.settings, restart.meta_restart(25), restart.data_restart(15), live.scenario(), maps.scenario("P21")]
    if crash: fs += [restart.crash(20, 12)]
    def fn(rng, mk, F): rng.choice(fs)(rng, mk, F)
    return fn

def mon_stats(ctx, F, kinds):
    for l in F.mon:
        w = l.split()
        if w[0] == "STAT":
            for x in w[1:]:
                if "=" in x:
                    a, b = x.split("=", 1)
                    if b.isdigit(): ctx.stat("msg_" + a, int(b))
def protocol(ctx, i, F, rep):
    mon_stats(ctx, F, None)
    for l in F.mon:
        if l.startswith("MON "):
            w = l.split()
            ctx.fail("protocol:" + w[1] + ":" + (w[2] if len(w) > 2 else ""), l, rep)
def undefined(ctx, i, F, rep):
    ctx.stat("sanitizer_reports", len(F.san))
    for kind, fr, body in F.san:
        if kind == "ubsan": ctx.fail("ub:" + fr, body, rep)

def leftovers(ctx, i, F, rep):
    """every process that ended in order has released the requests it made or served"""
    for l in F.mon:
        w = l.split()
        if w[0] == "LEFT" and w[1] != "bulk": ctx.fail("left:" + w[1] + ":" + w[2], "%s not released by the end of the process: %s" % (w[1], l), rep)
        elif w[0] == "NOTE" and w[1] == "no_response": ctx.fail("no_response:" + w[2], l, rep)

def uninit(ctx, i, F, rep):
    ctx.stat("msan_scenarios")
    for kind, fr, body in F.san:
        # the client program prints whole buffers, elements never written included
        if kind == "msan" and not fr.startswith("hex>"): ctx.fail("uninitialised:" + fr, body, rep)

def races(ctx, i, F, rep):
    ctx.stat("tsan_reports", sum(1 for x in F.san if x[0].startswith("tsan")))
    for kind, fr, body in F.san:
        if kind.startswith("tsan"): ctx.fail("%s:%s" % (kind, fr), body[:6000], rep)

def threads(dops=30):
    """everything the flusher can meet, with the flusher as busy as it gets"""
    def hot(rng, e):
        if rng.random() < 0.8: e["PDC_SERVER_CACHE_FLUSH_FREQUENCY_S"] = "0"
        return e
    def fn(rng, mk, F):
        mk2 = lambda **kw: mk(**dict(kw, env=hot(rng, dict(kw.get("env") or {}))))
        rng.choice([data.scenario("P10", dops), data.scenario("P10", dops), data.scenario("P14", dops), restart.data_restart(15), restart.data_crash(12), live.scenario()])(rng, mk2, F)
    return fn
