"""Content-addressed builds of /repo's sources (never of a stored copy) with the
Mercury/MPI stand-ins of /verif/shim, in several sanitizer variants."""
import glob, hashlib, os, re, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/build")
SHIM = VERIF + "/shim"

import threading
def _uid():
    return "%d_%d" % (os.getpid(), threading.get_ident())

class BuildError(Exception):
    pass

def _rd(p):
    with open(p, "rb") as f:
        return f.read()

def gen_config():
    d = BUILD + "/config"
    os.makedirs(d, exist_ok=True)
    on = {"ENABLE_MPI": "", "PDC_SERVER_CACHE": "", "PDC_ENABLE_CHECKPOINT": "", "PDC_DART_SFX_TREE": "", "HAVE_ATTRIBUTE": "",
          "VAR_SIZE_FLOAT": 4, "VAR_SIZE_DOUBLE": 8, "VAR_SIZE_CHAR": 1, "VAR_SIZE_SINT": 2, "VAR_SIZE_INT": 4, "VAR_SIZE_LINT": 8,
          "VAR_SIZE_LLINT": 8, "VAR_SIZE_UINT": 4, "VAR_SIZE_ULINT": 8, "VAR_SIZE_ULLINT": 8, "VAR_SIZE_64INT": 8, "VAR_SIZE_U64INT": 8}
    for src, dst in (("pdc_config_sys.h.cmake", "pdc_config_sys.h"), ("pdc_config.h.in", "pdc_config.h")):
        out = []
        for l in _rd(REPO + "/" + src).decode().splitlines():
            m = re.match(r"#cmakedefine\s+(\w+)", l)
            if m:
                k = m.group(1)
                # PDC_TIMING/... stay off, as in the default configuration; -D flags of a variant win
                l = ("#ifndef %s\n#define %s %s\n#endif" % (k, k, on[k])) if k in on else "/* %s */" % k
            out.append(l)
        txt = ("\n".join(out) + "\n").encode()
        p = d + "/" + dst
        if not os.path.exists(p) or _rd(p) != txt:
            with open(p + ".%s" % _uid(), "wb") as f: f.write(txt)
            os.replace(p + ".%s" % _uid(), p)
    return d

def incdirs():
    ds = set()
    for r, d, f in os.walk(SRC):
        if "/tests" in r or "/tools" in r: continue
        if any(x.endswith(".h") for x in f): ds.add(r)
    ds.add(SRC + "/tools/cjson")
    ds.add(SRC + "/server")
    return sorted(ds)

_hh = {}
def header_hash():
    k = (SRC,)
    if k not in _hh:
        h = hashlib.sha256()
        fs = []
        for root in (SRC, SHIM, VERIF + "/harness", VERIF + "/lib"):
            for r, d, f in os.walk(root):
                if "/tests" in r and root == SRC: continue
                fs += [os.path.join(r, x) for x in f if x.endswith((".h", ".hpp", ".inc"))]
        for f in sorted(fs): h.update(f.encode() + b"\0" + _rd(f) + b"\0")
        _hh[k] = h.hexdigest()
    return _hh[k]

WARN = ["-w"]
BASE = ["-std=gnu99", "-fcommon", "-g", "-O1", "-fno-omit-frame-pointer", "-DHAVE_MALLOC_USABLE_SIZE",
        "-DPDC_SERVER_CACHE_MAX_GB=3"]
SAN = {
    "asan": ("clang", ["-fsanitize=address,undefined", "-fno-sanitize=function,alignment,pointer-overflow", "-fno-sanitize-recover=bool", "-fsanitize-recover=undefined"], []),
    "tsan": ("clang", ["-fsanitize=thread"], []),
    "plain": ("clang", [], []),
    "msan": ("clang", ["-fsanitize=memory", "-fsanitize-memory-track-origins", "-fsanitize-recover=memory"], []),
}
COMMON_INC = ["-I" + SHIM + "/include", "-I" + SHIM + "/mpi"]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def obj(src, san, defs=(), extra=()):
    cc, fl, _ = SAN[san]
    if src.endswith((".cpp", ".cc")): cc = "clang++"
    cfg = gen_config()
    flags = list(BASE) + fl + WARN + list(defs) + list(extra) + COMMON_INC + ["-I" + cfg] + ["-I" + d for d in incdirs()] + ["-I" + REPO, "-I" + VERIF + "/harness", "-I" + VERIF + "/lib"]
    if "-DPDC_SERVER_CACHE_FLUSH_TIME" not in " ".join(flags): flags.append("-DPDC_SERVER_CACHE_FLUSH_TIME=30")
    if cc == "clang++": flags = [f for f in flags if f != "-std=gnu99"] + ["-std=gnu++17"]
    body = _rd(src)
    # .c files textually included by harnesses
    h = hashlib.sha256()
    for inc in re.findall(rb'#include\s+"([^"]+\.c)"', body):
        for c in [os.path.join(os.path.dirname(src), inc.decode())] + glob.glob(SRC + "/**/" + os.path.basename(inc.decode()), recursive=True):
            if os.path.exists(c): h.update(_rd(c))
    h.update(body); h.update(header_hash().encode()); h.update(" ".join([cc] + flags).encode()); h.update(_rd(cfg + "/pdc_config.h")); h.update(_rd(cfg + "/pdc_config_sys.h")); h.update(src.encode())
    o = "%s/obj/%s.%s.o" % (BUILD, os.path.basename(src), h.hexdigest()[:24])
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True)
        t = o + ".%s.tmp" % _uid()
        r = run([cc] + flags + ["-c", src, "-o", t])
        if r.returncode: raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-3000:]))
        os.replace(t, o)
    return o

def objs(srcs, san, defs=(), extra=()):
    gen_config(); header_hash()
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: obj(s, san, defs, extra), srcs))

def link(name, objects, san, libs=("-lm", "-luuid", "-lpthread"), cxx=False):
    cc, fl, _ = SAN[san]
    h = hashlib.sha256(" ".join(list(objects) + [san, name] + list(libs)).encode()).hexdigest()[:24]
    out = "%s/bin/%s.%s.%s" % (BUILD, name, san, h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = run(["clang++" if cxx else cc] + fl + list(objects) + ["-o", out + ".%s" % _uid()] + list(libs))
        if r.returncode: raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-3000:]))
        os.replace(out + ".%s" % _uid(), out)
    return out

def g(pat):
    return sorted(glob.glob(SRC + "/" + pat))

def commons_srcs(mercury=True):
    fs = [f for f in sorted(glob.glob(SRC + "/commons/**/*.c", recursive=True)) if "/serde/" not in f and not f.endswith("_test.c")]
    if not mercury: fs = [f for f in fs if os.path.basename(f) not in ("pdc_malloc.c", "pdc_stack_ops.c")]
    return fs

def client_srcs():
    fs = g("api/*.c") + g("api/*/*.c")
    drop = {"close_server.c", "pdc_dt_conv.c"}
    fs = [f for f in fs if os.path.basename(f) not in drop]
    fs += [SRC + "/server/pdc_client_server_common.c"] + [f for f in g("server/pdc_server_region/*.c") if os.path.basename(f) != "pdc_server_data.c"] + g("utils/*.c")
    return fs

def server_srcs():
    fs = [f for f in g("server/*.c") if not f.endswith("_test.c")] + g("server/dablooms/*.c") + g("server/pdc_server_analysis/*.c") + g("server/pdc_server_region/*.c")
    fs = [f for f in fs if os.path.basename(f) not in ("test_dablooms.c",)]
    fs += [SRC + "/utils/pdc_region_utils.c", SRC + "/api/pdc_analysis/pdc_analysis_common.c", SRC + "/api/pdc_analysis/pdc_hist_pkg.c", SRC + "/api/pdc_transform/pdc_transforms_common.c"]
    return fs

def shim_objs(san):
    return objs([SHIM + "/vhg.c", SHIM + "/vmpi.c"], san)

def archive(objects):
    """the commons are a static library in the project; keep archive link semantics"""
    h = hashlib.sha256(" ".join(objects).encode()).hexdigest()[:24]
    a = "%s/obj/libcommons.%s.a" % (BUILD, h)
    if not os.path.exists(a):
        r = run(["ar", "rcs", a + ".%s" % _uid()] + list(objects))
        if r.returncode: raise BuildError(r.stdout)
        os.replace(a + ".%s" % _uid(), a)
    return [a]

def server(san="asan", defs=(), wrap=()):
    d = ["-DIS_PDC_SERVER=1", "-DPDC_LUSTRE_TOTAL_OST=256"] + list(defs)
    o = objs(server_srcs(), san, d) + shim_objs(san) + objs([SHIM + "/vfault.c"], san) + archive(objs(commons_srcs(), san, defs))
    return link("pdc_server", o, san, libs=["-rdynamic", "-lm", "-luuid", "-lpthread", "-ldl", "-Wl,--wrap=fwrite,--wrap=fclose,--wrap=rename"] + list(wrap))

def client_lib(san="asan", defs=()):
    return objs(client_srcs(), san, defs) + shim_objs(san) + archive(objs(commons_srcs(), san, defs))

def client(prog, san="asan", defs=(), name=None, cxx=False):
    """prog: path(s) of C/C++ client program sources"""
    progs = [prog] if isinstance(prog, str) else list(prog)
    o = objs(progs, san, defs) + client_lib(san, defs)
    return link(name or os.path.splitext(os.path.basename(progs[0]))[0], o, san, libs=["-rdynamic", "-lm", "-luuid", "-lpthread", "-ldl"], cxx=cxx)

if __name__ == "__main__":
    import time
    t = time.time()
    print(server(sys.argv[1] if len(sys.argv) > 1 else "asan"), time.time() - t)
    print(client(SRC + "/api/close_server.c", sys.argv[1] if len(sys.argv) > 1 else "asan"), time.time() - t)
