#!/usr/bin/env python3
"""mutate.py PID N FILE[:FN,FN..] ... : sensitivity of a check to small source changes.

Makes N random one-token changes in the given files (below src/) in scratch copies of the tree, runs the quick check of
PID on each, and prints the changes it did not notice. Not used by any check."""
import os, re, sys, random, subprocess, shutil, json, concurrent.futures as cf, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_REPO", "/repo")
W = os.environ.get("MUT_DIR", "/tmp/mut")
NW = int(os.environ.get("MUT_WORKERS", "5"))
SWAP = {"<": ["<=", ">="], "<=": ["<", ">"], ">": [">=", "<="], ">=": [">", "<"], "==": ["!="], "!=": ["=="],
        "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "%": ["/"], "++": ["--"], "--": ["++"],
        "+=": ["-=", "="], "-=": ["+=", "="], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"]}
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\b0x[0-9a-fA-F]+\b|\b\d+\b|\w+|<<=|>>=|\+\+|--|\+=|-=|\*=|/=|->|<<|>>|<=|>=|==|!=|&&|\|\||.')

def strip(text):
    f = lambda m: re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r"/\*.*?\*/|//[^\n]*", f, text, flags=re.S)

def sites(text, fns):
    """(line, start, end, replacement) for every possible change inside function bodies"""
    out = []
    depth, fn = 0, None
    lines = strip(text).split("\n")
    prev = []
    for i, l in enumerate(lines):
        if l.startswith("#"): continue
        s = l.strip()
        inside = depth > 0 and fn and (not fns or fn in fns)
        if inside and not re.match(r"(FUNC_ENTER|FUNC_LEAVE|printf|fprintf|LOG_|PGOTO_|return ret_value;|case |default:|else|\}|\{|#)", s) and "printf" not in s and "LOG_" not in s:
            toks = list(TOK.finditer(l))
            for j, m in enumerate(toks):
                t = m.group(0)
                pt = next((x.group(0) for x in reversed(toks[:j]) if not x.group(0).isspace()), "")
                nt = next((x.group(0) for x in toks[j + 1:] if not x.group(0).isspace()), "")
                if t in SWAP:
                    if t in "*&-+" and (not re.match(r"[\w\)\]]", pt) or pt in ("return", "sizeof") or (t in "*&" and not l[m.start() - 1:m.start()].isspace())): continue
                    if t in "*" and re.match(r"(int|char|void|size_t|uint\w+|int\w+|struct|\w+_t|\w+_s|\w+Entry|const|unsigned|long|double|float|FILE|BULKI|cJSON)$", pt): continue
                    for r in SWAP[t]: out.append((i, m.start(), m.end(), r))
                elif re.match(r"\d+$", t):
                    out.append((i, m.start(), m.end(), str(int(t) + 1)))
                    if int(t): out.append((i, m.start(), m.end(), str(int(t) - 1)))
                elif t in ("break", "continue") and nt == ";": out.append((i, m.start(), m.end(), ""))
            m = re.match(r"\s*(?:\}\s*else\s+)?(if|while) \((.*)\)(\s*\{?)$", l)
            if m and m.group(2).count("(") == m.group(2).count(")"):
                out.append((i, m.start(2), m.end(2), "!(" + m.group(2) + ")"))
                if m.group(1) == "if": out += [(i, m.start(2), m.end(2), "0 && (" + m.group(2) + ")"), (i, m.start(2), m.end(2), "1 || (" + m.group(2) + ")")]
            if re.match(r"[\w\->\.\[\]\*\(\)]+.*;$", s) and not re.match(r"(return|break|continue|goto|typedef|static|const|struct|for|while|if|do)\b", s):
                if re.match(r"[\w\->\.\[\]\*\+]+\s*([-+*/|&]?=|\()", s) or s.endswith("++;") or s.endswith("--;"):
                    st = len(l) - len(l.lstrip())
                    out.append((i, st, len(l.rstrip()), ";"))
        for ch in l:
            if ch == "{":
                if depth == 0:
                    m = re.findall(r"(\w+)\s*\(", " ".join(prev[-6:] + [l]))
                    fn = m[0] if m else None
                depth += 1
            elif ch == "}":
                depth -= 1
                if depth == 0: prev = []
        if depth == 0: prev = (prev + [l]) if l.strip() and not l.rstrip().endswith(";") else []
    return out

def main():
    pid, n = sys.argv[1], int(sys.argv[2])
    files = [(f.split(":")[0], set(filter(None, f.split(":")[1].split(","))) if ":" in f else set()) for f in sys.argv[3:]]
    rng = random.Random(int(os.environ.get("MUT_SEED", "1")))
    all_ = []
    for f, fns in files:
        t = open(SRC + "/src/" + f).read()
        all_ += [(f,) + s for s in sites(t, fns)]
    rng.shuffle(all_)
    all_ = all_[:n]
    q = queue.Queue()
    for w in range(NW):
        d = "%s/w%d" % (W, w)
        if not os.path.exists(d):
            os.makedirs(d)
        shutil.rmtree(d + "/repo", ignore_errors=True)
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "_build", SRC + "/", d + "/repo/"] if shutil.which("rsync") else ["bash", "-c", "mkdir -p %s/repo && cd %s && tar cf - --exclude .git --exclude _build . | tar xf - -C %s/repo" % (d, SRC, d)], check=True)
        q.put(d)
    res = {"killed": 0, "survived": 0, "invalid": 0}
    def go(mu):
        f, i, a, b, r = mu
        d = q.get()
        p = d + "/repo/src/" + f
        orig = open(SRC + "/src/" + f).read()
        try:
            ls = orig.split("\n")
            old = ls[i]
            ls[i] = old[:a] + r + old[b:]
            open(p, "w").write("\n".join(ls))
            e = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_EVIDENCE=d + "/ev")
            pr = subprocess.Popen([sys.executable, V + "/check.py", pid, "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, start_new_session=True)
            try:
                out, _ = pr.communicate(timeout=600)
                rc = pr.returncode
            except subprocess.TimeoutExpired:
                os.killpg(pr.pid, 9)
                pr.communicate()
                out, rc = b"", "timeout"
            k = "killed" if rc == 1 else "survived" if rc == 0 else "invalid"
            if rc == "timeout": k = "survived"
            res[k] += 1
            if k != "killed":
                if k == "survived" or b"error:" not in out:
                    print("%s rc=%s %s:%d: %s\n      ==> %s" % (k, rc, f, i + 1, old.strip(), ls[i].strip()), flush=True)
        finally:
            open(p, "w").write(orig)
            q.put(d)
    with cf.ThreadPoolExecutor(NW) as ex: list(ex.map(go, all_))
    print(pid, json.dumps(res))
main()
