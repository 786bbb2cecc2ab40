"""Component checks: model-based C++ harnesses linked with the project's own objects
under address + undefined-behaviour sanitizers."""
import os, re, subprocess, tempfile, shutil, concurrent.futures as cf
import vb, cluster

ENV = dict(os.environ)
OOM = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"]   # for harnesses that include oom.hpp
UB_IGNORE = re.compile(r"null pointer passed as argument|applying (zero|non-zero) offset")

def build(name, src, csrcs=None, san="asan", defs=(), libs=(), shim=False, commons=True):
    o = vb.objs([vb.VERIF + "/harness/" + src], san, defs)
    o += vb.objs(csrcs or [], san, defs)
    if commons: o += vb.archive(vb.objs(vb.commons_srcs(), san))
    if shim: o += vb.shim_objs(san)
    else: o += []
    return vb.link(name, o, san, libs=["-rdynamic", "-lm", "-luuid", "-lpthread", "-ldl"] + list(libs), cxx=True)

def run_one(exe, args, timeout, env=None, cwd=None, leaks=False):
    d = tempfile.mkdtemp(prefix="pc", dir="/tmp")
    e = dict(ENV, ASAN_OPTIONS=cluster.ASAN + ":log_path=" + d + "/san", UBSAN_OPTIONS=cluster.UBSAN + ":log_path=" + d + "/san",
             TSAN_OPTIONS="exitcode=0:halt_on_error=0:log_path=" + d + "/san", PV_TMP=d)
    if leaks: e["ASAN_OPTIONS"] += ":detect_leaks=1"
    if env: e.update(env)
    try:
        p = subprocess.Popen([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd or d, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, _ = p.communicate()
            rc = None
        san = []
        for f in sorted(os.listdir(d)):
            if f.startswith("san."): san += cluster.parse_san(open(d + "/" + f, errors="replace").read(), own=leaks)
        return rc, out.decode(errors="replace"), san
    finally:
        shutil.rmtree(d, ignore_errors=True)

def absorb(ctx, label, rc, out, san, replay):
    last = ""
    done = False
    for l in out.splitlines():
        if l.startswith("CASE "): last = l
        elif l.startswith("STAT "):
            _, k, n = l.split(" ", 2)
            ctx.stat(k, int(n))
        elif l.startswith("SET "):
            _, k, v = l.split(" ", 2)
            ctx.distinct(k, v)
        elif l.startswith("SAMPLE "): ctx.sample(l[7:])
        elif l.startswith("FAIL "):
            sig, _, det = l[5:].partition(" :: ")
            ctx.fail(sig, det, replay)
        elif l == "DONE": done = True
    seen = set()
    for kind, sig, text in san:
        if kind == "ubsan" and UB_IGNORE.search(sig): continue
        s = "san:%s:%s" % (kind, sig)
        if s in seen: continue
        seen.add(s)
        ctx.fail(s, "%s, %s\n%s" % (label, last, text[:3000]), replay)
    if not done and not san and rc is not None:
        ctx.fail("crash:%s" % label, "%s ended with code %s at %s\n%s" % (label, rc, last, out[-600:]), replay)
    return done, last

def unsynced_writes(san):
    """of ThreadSanitizer's reports, the races of two writes, not to one of the global flags (written from signal handlers and by the owners of several pools);
    reading a flag or count that another thread may just be writing (polling) is the component's design"""
    keep = []
    for k, s, t in san:
        if k.startswith("tsan"):
            acc = re.findall(r"^  (?:Previous )?(atomic )?(write|read) of size", t, re.M | re.I)
            if "data race" not in k or [w.lower() for a, w in acc[:2]] != ["write", "write"]: continue
            if "Location is global '" in t: continue
        keep.append((k, s, t))
    return keep

def shards(ctx, label, exe, nshards, cases, mode="", timeout=300, seed0=None, env=None, par=8, leaks=False, judge=None):
    """run the harness on nshards seeds x cases; a shard that does not end is run once more before it counts"""
    base = ctx.seed * 1000 if seed0 is None else seed0
    hung = []
    def go(i):
        if hung: ctx.stat("shards_skipped_after_hang"); return
        if not ctx.thorough and ctx.elapsed() > 600: ctx.stat("shards_out_of_time"); return
        args = [base + i, cases, mode]
        rc, out, san = run_one(exe, args, timeout, env, leaks=leaks)
        if rc is None and not san:
            m = [l for l in out.splitlines() if l.startswith("CASE ")]
            rc, out, san = run_one(exe, args, timeout, env, leaks=leaks)
            if rc is None:
                m = [l for l in out.splitlines() if l.startswith("CASE ")]
                hung.append(i)
                out += "\nFAIL hang:%s :: case %s did not finish within %ss (twice)\nDONE\n" % (label, m[-1:] or "?", timeout)
        if judge: ctx.stat(label + "_reports_seen", len(san)); san = judge(san)
        absorb(ctx, label, rc, out, san, "%s %s" % (exe, " ".join(map(str, args))))
    with cf.ThreadPoolExecutor(par) as ex: list(ex.map(go, range(nshards)))
