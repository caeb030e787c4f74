"""False-alarm survey of the checks: random behaviour-preserving edits in the functions a property covers, in scratch copies.
usage: refac.py OUT.jsonl N SEED [PID...]      (development aid; not a check)"""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.mut import targets, core, SKIP

LV = r"[A-Za-z_]\w*(?:(?:->|\.)\w+|\[[^\[\]]*\])*"


def split_for(h):
    out, d, cur = [], 0, ""
    for ch in h:
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == ";" and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def match(s, i):
    """index after the bracket closing the one at i"""
    o = s[i]
    c = {"(": ")", "{": "}"}[o]
    d = 0
    while i < len(s):
        if s[i] == o:
            d += 1
        elif s[i] == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return None


def edits(src, lo, hi, rnd, cpp):
    """(kind, start, end, replacement) within the character range"""
    body = src[lo:hi]
    out = []
    # blank out comments and strings so that offsets stay
    t = re.sub(r"/\*.*?\*/|//[^\n]*|\"(?:\\.|[^\"\\\n])*\"", lambda m: re.sub(r"[^\n]", " ", m.group(0)), body, flags=re.S)
    ty = "auto" if cpp else "__typeof__(%s)"

    def lineno(p):
        a = t.rfind("\n", 0, p) + 1
        b = t.find("\n", p)
        return t[a:b if b >= 0 else len(t)]
    for m in re.finditer(r"(?m)^([ \t]+)(%s)[ \t]*([-+*/])=[ \t]*([^=;{}][^;{}]*);" % LV, t):
        if "++" in m.group(0) or "--" in m.group(0) or SKIP.search(lineno(m.start(2))):
            continue
        out.append(("opassign", m.start(), m.end(), "%s%s = %s %s (%s);" % (m.group(1), m.group(2), m.group(2), m.group(3), m.group(4))))
    for m in re.finditer(r"(?m)^([ \t]+)(%s)[ \t]*=[ \t]*([^=;{}][^;{}]*);" % LV, t):
        if "++" in m.group(0) or "--" in m.group(0) or SKIP.search(lineno(m.start(2))) or "NULL" in m.group(3) or m.group(3).strip().startswith("{") or "'" in m.group(3):
            continue
        prev = t[:m.start()].rstrip()
        if not prev.endswith((";", "{", "}")):
            continue
        e = m.group(3)
        if re.search(r"malloc|calloc|realloc", e):
            continue
        tt = ("__typeof__(%s)" % e) if not cpp else "const auto"
        out.append(("temp", m.start(), m.end(), "%s{ %s tmp_v_ = %s; %s = tmp_v_; }" % (m.group(1), tt, e, m.group(2))))
        k = re.search(r" \* ", e)
        if k and e.count("(") == e.count(")") and re.fullmatch(r"[\w\[\]\.\->]+ \* [\w\[\]\.\->]+", e.strip()):
            a, b = e.strip().split(" * ")
            out.append(("swapmul", m.start(), m.end(), "%s%s = %s * %s;" % (m.group(1), m.group(2), b, a)))
    for m in re.finditer(r"(?<![\w#])if[ \t]*\(", t):
        e = match(t, m.end() - 1)
        if not e:
            continue
        c = t[m.end():e - 1]
        prev = t[:m.start()].rstrip()
        if SKIP.search(lineno(m.start())) or "=" in re.sub(r"[=!<>]=", "", c):
            continue
        if prev.endswith((";", "{", "}")):
            bt = "const bool" if cpp else "const int"
            # needs a block of its own, so only when the statement is braced and has no else
            k = e
            while k < len(t) and t[k] in " \t\n":
                k += 1
            if k < len(t) and t[k] == "{":
                be = match(t, k)
                rest = t[be:].lstrip() if be else "else"
                if be and not rest.startswith("else"):
                    out.append(("condvar", m.start(), be, "{ %s cond_v_ = (%s); if (cond_v_) %s }" % (bt, c, body[k:be])))
                elif be and rest.startswith("else"):
                    q = be + (len(t[be:]) - len(rest)) + 4
                    while q < len(t) and t[q] in " \t\n":
                        q += 1
                    if t[q] == "{":
                        ee = match(t, q)
                        if ee:
                            out.append(("invert", m.start(), ee, "if (!(%s)) %s else %s" % (c, body[q:ee], body[k:be])))
    for m in re.finditer(r"(?<![\w#])for[ \t]*\(", t):
        e = match(t, m.end() - 1)
        if not e:
            continue
        h = split_for(t[m.end():e - 1])
        if len(h) != 3 or SKIP.search(lineno(m.start())):
            continue
        k = e
        while k < len(t) and t[k] in " \t\n":
            k += 1
        if k >= len(t) or t[k] != "{":
            continue
        be = match(t, k)
        if not be:
            continue
        inner = body[k + 1:be - 1]
        if not re.search(r"\bcontinue\b", t[k:be]) and h[1].strip():
            out.append(("while", m.start(), be, "{ %s; while (%s) {%s %s; } }" % (h[0], h[1], inner, h[2])))
        mm = re.fullmatch(r"\s*(.+?) (<|>) (.+?)\s*", h[1])
        if mm and "&&" not in h[1] and "||" not in h[1]:
            out.append(("flip", m.start(), k, "for (%s; %s %s %s;%s) " % (h[0], mm.group(3), {"<": ">", ">": "<"}[mm.group(2)], mm.group(1), h[2])))
        mm = re.fullmatch(r"\s*(?:\+\+(\w+)|(\w+)\+\+)\s*", h[2])
        if mm:
            v = mm.group(1) or mm.group(2)
            out.append(("inc", m.start(), k, "for (%s;%s; %s += 1) " % (h[0], h[1], v)))
            m2 = re.fullmatch(r"\s*(\w+) < (.+?)\s*", h[1])
            if m2 and m2.group(1) == v and not re.search(r"\b%s\b|&&|\|\|" % v, m2.group(2)):
                out.append(("ne", m.start(), k, "for (%s; !(%s >= %s);%s) " % (h[0], v, m2.group(2), h[2])))
    # swap adjacent simple assignments to different plain targets with no mention of one another
    A = re.compile(r"(?m)^([ \t]+)(%s)[ \t]*=[ \t]*([^=;{}()][^;{}()]*);[ \t]*\n([ \t]+)(%s)[ \t]*=[ \t]*([^=;{}()][^;{}()]*);" % (LV, LV))
    for m in A.finditer(t):
        x, e1, y, e2 = m.group(2), m.group(3), m.group(5), m.group(6)
        prev = t[:m.start()].rstrip()
        if not prev.endswith((";", "{", "}")) or m.group(1) != m.group(4) or "++" in m.group(0) or "--" in m.group(0):
            continue
        bx, by = re.match(r"\w+", x).group(0), re.match(r"\w+", y).group(0)
        ids = lambda s: set(re.findall(r"[A-Za-z_]\w*", s))
        lx, ly = ids(x), ids(y)
        if x == y or re.split(r"\[", x)[0] == re.split(r"\[", y)[0]:
            continue
        last = lambda s: re.findall(r"[A-Za-z_]\w*", re.sub(r"\[.*", "", s))[-1]
        if last(x) in ids(e2) | ly or last(y) in ids(e1) | lx:
            continue
        if "*" in x + y:
            continue
        out.append(("swap", m.start(), m.end(), "%s%s = %s;\n%s%s = %s;" % (m.group(1), y, e2, m.group(1), x, e1)))
    # rename a local variable
    for m in re.finditer(r"(?m)^[ \t]+(?:const )?(?:int|double|bool|size_t|std::size_t)[ \t]+(\w+)[ \t]*=", t):
        v = m.group(1)
        if len(re.findall(r"(?:\.|->)%s\b" % v, t)) or v in ("this",):
            continue
        nb = re.sub(r"\b%s\b" % v, v + "_rn", body) if not re.search(r"//.*\b%s\b" % v, body) else None
        if nb:
            out.append(("rename", 0, hi - lo, nb))
    # a returned expression through a temporary
    for m in re.finditer(r"(?m)^([ \t]+)return[ \t]+([^;{}]+);", t):
        prev = t[:m.start()].rstrip()
        if not prev.endswith((";", "{", "}")) or "NULL" in m.group(2) or SKIP.search(lineno(m.start())) or "*this" in m.group(2):
            continue
        tt = ("__typeof__(%s)" % m.group(2)) if not cpp else "const auto&"
        out.append(("rettemp", m.start(), m.end(), "%s{ %s ret_v_ = %s; return ret_v_; }" % (m.group(1), tt, m.group(2))))
    return [(k, lo + a, lo + b, r) for k, a, b, r in out]


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    core.load_props()
    pids = sys.argv[4:] or sorted(core.REG)
    rnd = random.Random(seed)
    jobs = []
    for pid in pids:
        pool = []
        for f in targets(pid):
            path = os.path.join("/repo", f.file)
            if not os.path.exists(path):
                continue
            src = open(path, errors="surrogateescape").read()
            L = src.splitlines(True)
            lo = sum(len(x) for x in L[:f.d["l"] - 1])
            hi = sum(len(x) for x in L[:f.d["el"]])
            b = src.find("{", lo, hi)
            if b < 0:
                continue
            ms = edits(src, b, hi, rnd, not f.file.endswith(".c"))
            rnd.shuffle(ms)
            pool += [(pid, f.q, f.file, k, a, e, r) for k, a, e, r in ms[:max(2, len(ms) // 3)]]
        rnd.shuffle(pool)
        # favour variety of kinds
        seen = {}
        pool.sort(key=lambda j: seen.setdefault(j[3], []).append(1) or len(seen[j[3]]))
        jobs += pool[:n]
    W = int(os.environ.get("MUT_W", "4"))
    import queue
    Q = queue.Queue()
    for w in range(W):
        d = "/tmp/rf%d" % w
        subprocess.call("mkdir -p %s && rsync -a --delete --exclude .git --exclude _build /repo/ %s/ && rsync -a /repo/_build %s/" % (d, d, d), shell=True)
        Q.put(d)
    fo = open(out, "a")

    def run(j):
        pid, q, file, k, a, e, r = j
        d = Q.get()
        try:
            p = os.path.join(d, file)
            src = open(p, errors="surrogateescape").read()
            open(p, "w", errors="surrogateescape").write(src[:a] + r + src[e:])
            try:
                x = subprocess.run(["timeout", "900", "python3", os.path.join(V, "check.py"), pid, "-v"], capture_output=True, text=True, env=dict(os.environ, SA_REPO=d, VERIF_OUT="/tmp/rf.ev%s" % d[-1]), cwd=V)
                rc, o = x.returncode, x.stdout
            finally:
                open(p, "w", errors="surrogateescape").write(src)
            und = [l.strip()[:200] for l in o.splitlines() if l.startswith("  undecided")]
            dif = [l.strip()[:600] for l in o.splitlines() if l.startswith("  differs")]
            last = [l for l in o.splitlines() if re.match(r"^P\d+:", l)]
            rec = dict(pid=pid, fn=q, file=file, kind=k, a=a, e=e, r=r, rc=rc, sum=last[-1] if last else o[-300:], und=und[:6], dif=dif[:3])
            fo.write(json.dumps(rec) + "\n")
            fo.flush()
            print(rc, pid, k, q, "|", rec["sum"][-100:], "| und", len(und), flush=True)
        finally:
            Q.put(d)
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(run, jobs))


if __name__ == "__main__":
    main()
