"""Generates, from the project's own headers as the preprocessor sees them, a table of every
structure that has a wire codec (hg_proc_<type>): its fields, where they are and what they are.
The kinds of the fields are settled by the C compiler (_Generic), not by their spelling."""
import os, re, hashlib
import vb

HDRS = ["pdc_config.h", "pdc_client_server_common.h", "pdc_transforms_common.h", "pdc_analysis_and_transforms_common.h"]
# fields whose extent (for a structure: whether it is sent at all) is given by other fields of the same structure
BLOBS = {("pdc_kvtag_t", "value"): "((%s)->size)",
         ("pdc_histogram_t", "range"): "((%s)->nbin > 0 ? (%s)->nbin * 2 * sizeof(double) : 0)",
         ("pdc_histogram_t", "bin"): "((%s)->nbin > 0 ? (%s)->nbin * sizeof(uint64_t) : 0)",
         ("pdc_query_xfer_t", "combine_ops"): "((%s)->n_constraints > 0 ? (%s)->n_combine_ops * sizeof(int) : 0)",
         ("query_storage_region_transfer_t", "hist"): "((%s)->has_hist == 1)",
         ("update_region_loc_in_t", "hist"): "((%s)->has_hist == 1)",
         ("bulk_rpc_in_t", "bulk_handle"): "((%s)->cnt > 0)",
         ("pdc_query_xfer_t", "constraints"): "((%s)->n_constraints > 0 ? (%s)->n_constraints * sizeof(pdc_query_constraint_t) : 0)"}
COUNTS = {("update_region_loc_in_t", "has_hist"): 2, ("query_storage_region_transfer_t", "has_hist"): 2, ("pdc_kvtag_t", "size"): 900, ("pdc_histogram_t", "nbin"): 60, ("pdc_query_xfer_t", "n_constraints"): 5, ("pdc_query_xfer_t", "n_combine_ops"): 5}

def preprocess():
    cfg = vb.gen_config()
    vb.header_hash()
    d = os.path.join(vb.BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    t = os.path.join(d, "codec_in.%d.c" % os.getpid())
    open(t, "w").write("".join('#include "%s"\n' % h for h in HDRS))
    r = vb.run(["clang", "-E", "-P", "-w", "-std=gnu99", "-DIS_PDC_SERVER=1"] + vb.COMMON_INC + ["-I" + cfg] + ["-I" + x for x in vb.incdirs()] + ["-I" + vb.REPO, t])
    os.unlink(t)
    if r.returncode: raise vb.BuildError("preprocessing the message headers failed:\n" + r.stdout[-2000:])
    return r.stdout

def structs(txt):
    """type name -> [(field, declared type, is array)]"""
    out = {}
    tag = {}
    for m in re.finditer(r"\bstruct\s+(\w+)\s*\{([^{}]*)\}\s*;", txt): tag[m.group(1)] = m.group(2)
    body = {m.group(3): m.group(2) for m in re.finditer(r"typedef\s+struct\s*(\w+)?\s*\{([^{}]*)\}\s*(\w+)\s*;", txt)}
    for m in re.finditer(r"typedef\s+struct\s+(\w+)\s+(\w+)\s*;", txt):
        if m.group(1) in tag: body.setdefault(m.group(2), tag[m.group(1)])
    for m in re.finditer(r"typedef\s+(\w+)\s+(\w+)\s*;", txt):
        if m.group(1) in body: body.setdefault(m.group(2), body[m.group(1)])
    for name, b in body.items():
        fs = []
        for decl in b.split(";"):
            decl = " ".join(decl.split())
            if not decl: continue
            m = re.match(r"^((?:const |unsigned |signed |struct |enum |long |short |volatile )*\w+(?: \w+)*?)\s*((?:\**\s*\w+(?:\s*\[[^\]]*\])*\s*,?\s*)+)$", decl)
            if not m: fs = None; break
            for v in m.group(2).split(","):
                v = v.strip()
                mm = re.match(r"^(\**)\s*(\w+)\s*((?:\[[^\]]*\]\s*)*)$", v)
                if not mm: fs = None; break
                fs.append((mm.group(2), m.group(1).strip() + mm.group(1), bool(mm.group(3))))
            if fs is None: break
        if fs is not None: out[name] = fs
    return out

def generate():
    txt = preprocess()
    ty = structs(txt)
    procs = sorted(set(re.findall(r"\bhg_proc_(\w+)\s*\(\s*hg_proc_t\s+\w+\s*,\s*void\s*\*", txt)) - {"memcpy", "raw"})
    # only what can travel: a codec nothing refers to is no message of the system
    rd = lambda f: open(f, encoding="utf-8", errors="replace").read()
    src = "".join(rd(os.path.join(r, f)) for r, d, fs in os.walk(vb.SRC) if "/tests" not in r for f in sorted(fs) if f.endswith((".c", ".h")))
    reg = set(re.findall(r"\w+", " ".join(re.findall(r"REGISTER\w*\s*\(([^()]*)\)", src)))) | set(re.findall(r"\w+", " ".join(re.findall(r"\bMERCURY_REGISTER\s*\(([^;]*);", src))))
    reg |= {w + e for w in reg for e in ("_in_t", "_out_t")}
    used = [p for p in procs if p in reg or len(re.findall(r"\bhg_proc_%s\s*\(" % p, re.sub(r"hg_proc_\w+\s*\(\s*hg_proc_t[^)]*\)", "", src)))]
    dead = [p for p in procs if p not in used and p in ty]
    known = [p for p in procs if p in ty and p not in dead]
    # every structure used by value inside one that has a codec, whether it has a codec of its own or not
    need, seen = list(known), set()
    while need:
        t = need.pop()
        if t in seen: continue
        seen.add(t)
        need += [f[1] for f in ty[t] if f[1] in ty]
    o = ['/* generated by lib/codec_gen.py */', '#include <stddef.h>'] + ['#include "%s"' % h for h in HDRS] + ['#include "codec.h"',
         '#define KIND(x) _Generic(&(x), _Bool *: K_BOOL, char **: K_STR, const char **: K_STR, struct vhg_bulk **: K_BULK, double *: K_DBL, float *: K_FLT, void **: K_PTR, \\',
         '  char *: K_INT, signed char *: K_INT, unsigned char *: K_INT, short *: K_INT, unsigned short *: K_INT, int *: K_INT, unsigned *: K_INT, long *: K_INT, unsigned long *: K_INT, long long *: K_INT, unsigned long long *: K_INT, default: K_OTHER)']
    skipped = []
    for t in sorted(seen):
        rows = []
        for f, ft, arr in ty[t]:
            z = "((%s *)0)->%s" % (t, f)
            if (t, f) in BLOBS:
                e = BLOBS[(t, f)]
                o.append("static unsigned long len_%s_%s(const void *p) { return (unsigned long)%s; }" % (t, f, e.replace("%s", "((const %s *)p)" % t).replace("((%s))", "")))
                rows.append('{"%s", offsetof(%s, %s), sizeof(%s), %s, len_%s_%s, 0}' % (f, t, f, z, 'K_SUB, "%s"' % ft if ft in seen else "K_BULK, 0" if ft == "hg_bulk_t" else "K_BLOB, 0", t, f))
            elif ft in seen and not arr:
                rows.append('{"%s", offsetof(%s, %s), sizeof(%s), K_SUB, "%s", 0, 0}' % (f, t, f, z, ft))
            elif arr:
                rows.append('{"%s", offsetof(%s, %s), sizeof(%s), _Generic(&((%s)[0]), char *: K_CHARS, default: K_RAW), 0, 0, 0}' % (f, t, f, z, z))
            else:
                rows.append('{"%s", offsetof(%s, %s), sizeof(%s), KIND(%s), 0, 0, %d}' % (f, t, f, z, z, COUNTS.get((t, f), 0)))
        o.append("static const struct cfield F_%s[] = { %s };" % (t, ",\n  ".join(rows) if rows else "{0}"))
    o.append("const struct ctype ctypes[] = {")
    for t in sorted(seen):
        o.append('  {"%s", sizeof(%s), F_%s, %d, %s},' % (t, t, t, len(ty[t]), "hg_proc_" + t if t in known else "0"))
    o.append("};\nconst int nctypes = %d;" % len(seen))
    src = "\n".join(o) + "\n"
    d = os.path.join(vb.BUILD, "gen")
    p = os.path.join(d, "codec_tab.%s.c" % hashlib.sha256(src.encode()).hexdigest()[:16])
    if not os.path.exists(p):
        open(p + ".%d" % os.getpid(), "w").write(src)
        os.replace(p + ".%d" % os.getpid(), p)
    return p, known, dead

if __name__ == "__main__":
    p, k, s = generate()
    print(p, len(k), "types;", "not referred to:", s)
