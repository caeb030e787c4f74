"""Mutation survey of the checks: random small edits in the functions a property covers, in scratch copies.
usage: mut.py OUT.jsonl N SEED [PID...]      (development aid; not a check)"""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import core, base
import fnmatch

OPS = [(r"(?<![+\w])\+(?![+=])", "-"), (r"(?<=[\w\])] )-(?= )", "+"), (r"(?<=[\w\])])\*(?=[\w(])", "/"), (r"(?<=[\w\])] )\*(?= [\w(])", "/"), (r"(?<=[\w\])])/(?=[\w(])", "*"), (r"(?<=[\w\])] )/(?= [\w(])", "*"),
       (r"(?<= )<(?= )", "<="), (r"(?<= )<=(?= )", "<"), (r"(?<= )>(?= )", ">="), (r"(?<= )>=(?= )", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\+=", "-="), (r"-=", "+="), (r"\+=", "="), (r"\*=", "/="), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b2\b(?!\.)", "1"), (r"\b3\b(?!\.)", "2"), (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "2.0"), (r"\b2\.0\b", "3.0"), (r"\b0\.5\b", "1.0"),
       (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\bmax\b", "min"), (r"\bmin\b", "max"), (r"(?<=[\w\])])(?=\])", " + 1"), (r"!(?=[\w(])", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true")]
SKIP = re.compile(r"assert|ASSERT|THROW|throw|cout|cerr|MESSAGE|printf|^\s*(//|\*|/\*|#|case|default|template|typedef|using|class|struct|public|private|@|\\)")


def mutants(lines, lo, hi, rnd):
    out = []
    for i in range(lo, hi):
        s = lines[i]
        if SKIP.search(s) or not s.strip():
            continue
        code = s.split("//")[0]
        code = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group(0)), code)
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if code.count('"', 0, m.start()) % 2:
                    continue
                out.append((i, code[:m.start()] + rep + code[m.end():] + s[len(code):]))
        if re.match(r"^\s+[\w\->.\[\]]+(\[.*\])?\s*[-+*/]?=[^=].*;\s*$", code) and not re.match(r"^\s*(const|int|double|bool|struct|unsigned|size_t|std::)\b", code):
            out.append((i, re.match(r"^\s*", s).group(0) + ";\n"))
    return out


def targets(pid):
    """functions compared by the property and the helpers in the same files"""
    core.load_props()
    B = base.reviewed()
    P = core.Program()
    ctx = core.Ctx(P, pid, "quick", 1)
    core.REG[pid][0](ctx)
    fs = {}
    for u in ctx.scope:
        for x in B.clo.members(u):
            if x in B.raw["F"]:
                f = B.fn_by_usr(x)
                if f.file in ctx.scopefiles and f.d.get("el"):
                    fs[x] = f
    return sorted(fs.values(), key=lambda f: (f.file, f.d["l"]))


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    core.load_props()
    pids = sys.argv[4:] or sorted(core.REG)
    rnd = random.Random(seed)
    jobs = []
    for pid in pids:
        fs = targets(pid)
        pool = []
        for f in fs:
            path = os.path.join("/repo", f.file)
            if not os.path.exists(path):
                continue
            L = open(path, errors="replace").read().splitlines(True)
            ms = mutants(L, f.d["l"], f.d["el"], rnd)
            rnd.shuffle(ms)
            pool += [(pid, f.q, f.file, i, s) for i, s in ms[:max(2, len(ms) // 3)]]
        rnd.shuffle(pool)
        jobs += pool[:n]
    W = int(os.environ.get("MUT_W", "4"))
    dirs = []
    for w in range(W):
        d = "/tmp/mut%d" % w
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/tmp/scr", d])
        subprocess.call("git -C %s checkout -q -f . ; rsync -a --delete /repo/opm/ %s/opm/" % (d, d), shell=True)
        subprocess.call("grep -rlI /tmp/scr %s/_build --include=*.ninja --include=CMakeCache.txt | xargs sed -i 's#/tmp/scr#%s#g'" % (d, d), shell=True)
        dirs.append(d)
    import queue
    Q = queue.Queue()
    for d in dirs:
        Q.put(d)
    fo = open(out, "a")

    def run(j):
        pid, q, file, i, s = j
        d = Q.get()
        try:
            p = os.path.join(d, file)
            src = open(p, errors="surrogateescape").read()
            L = src.splitlines(True)
            old = L[i]
            L[i] = s
            open(p, "w", errors="surrogateescape").write("".join(L))
            try:
                r = subprocess.run(["timeout", "400", "python3", os.path.join(V, "check.py"), pid, "-v"], capture_output=True, text=True, env=dict(os.environ, SA_REPO=d, VERIF_OUT="/tmp/mut.ev"), cwd=V)
                rc, o = r.returncode, r.stdout
            finally:
                open(p, "w", errors="surrogateescape").write(src)
            und = [l.strip()[:200] for l in o.splitlines() if l.startswith("  undecided")]
            last = [l for l in o.splitlines() if re.match(r"^P\d+:", l)]
            rec = dict(pid=pid, fn=q, file=file, line=i + 1, old=old.strip(), new=s.strip(), rc=rc, sum=last[-1] if last else o[-300:], und=und[:6])
            fo.write(json.dumps(rec) + "\n")
            fo.flush()
            print(rc, pid, q, "%s:%d" % (file, i + 1), old.strip(), "=>", s.strip(), "|", rec["sum"][-90:], flush=True)
        finally:
            Q.put(d)
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(run, jobs))


if __name__ == "__main__":
    main()
