"""Statement regions: the smallest differing parts of two versions of a function, compared as functions of their live-ins.

Blocks are aligned by common prefix and suffix of structurally equal statements; the differing middle is a region. A region is
summarised like a function: locals declared outside it are inputs, those that may be read afterwards are outputs, together with
memory, the returned value and how control leaves. Regions with equal summaries make the functions equal by congruence."""
import hashlib
import json
import re
from .terms import *
from . import terms as TM
from .ses import SES, Frame, State, LoopFrame, Summary, ctype, is_vec

_chr = re.compile(r"char\[\d+\]")


class Canon:
    """structural hash of syntax trees, independent of lines, type tables and declaration numbers"""

    def __init__(self, fn):
        self.fn = fn
        self.T = fn.T
        self.parm = {p["d"]: "$%d" % i for i, p in enumerate(fn.params)}
        self.memo = {}

    def h(self, n):
        r = self.memo.get(id(n))
        if r is None:
            r = (hashlib.md5(repr(self.c(n)).encode()).hexdigest(), n)
            self.memo[id(n)] = r
        return r[0]

    def c(self, n):
        if isinstance(n, dict):
            out = []
            for k in sorted(n):
                v = n[k]
                if k in ("l", "el"):
                    continue
                if k in ("t", "ct") and isinstance(v, int):
                    v = _chr.sub("char[]", self.T[v])
                elif k == "pt":
                    v = tuple(self.T[i] if isinstance(i, int) else i for i in v)
                elif k == "d" and isinstance(v, int):
                    v = self.parm.get(v, "")
                elif k == "n" and n.get("d") in self.parm and n.get("k") == "ref":
                    v = ""
                elif isinstance(v, (dict, list)):
                    v = self.h(v) if isinstance(v, dict) else tuple(self.h(x) if isinstance(x, dict) else str(x) for x in v)
                out.append((k, v))
            return tuple(out)
        return n


class Region:
    def __init__(self, a, b, tail, facts, ca, cb, pa=(), pb=()):
        self.a, self.b, self.tail, self.facts, self.ca, self.cb = a, b, tail, facts, ca, cb
        self.pa, self.pb = pa, pb       # what is executed before: [("seq", statements) | ("loop", node) | ("if", node, polarity) | ("switch", node)]

    def lines(self, side):
        ls = [s.get("l") for s in (self.a if side == 0 else self.b) if isinstance(s, dict) and s.get("l")]
        return ls[0] if ls else None


def stmts(s):
    if s is None:
        return []
    if s.get("k") == "block":
        return s["b"]
    return [s]


def has_case(ss):
    return any(isinstance(x, dict) and x.get("k") in ("case", "default") for x in ss)


def has_kind(n, kinds):
    if isinstance(n, dict):
        if n.get("k") in kinds:
            return True
        return any(has_kind(v, kinds) for v in n.values() if isinstance(v, (dict, list)))
    if isinstance(n, list):
        return any(has_kind(x, kinds) for x in n)
    return False


def regions(fa, fb):
    """differing regions of two definitions, outermost first; None when parameters or initialisers differ"""
    A, B = Canon(fa), Canon(fb)
    if [fa.T[p["t"]] for p in fa.params] != [fb.T[p["t"]] for p in fb.params] or fa.T[fa.d["ret"]] != fb.T[fb.d["ret"]]:
        return None
    for k in ("inits", "cls", "ctor", "static"):
        if (A.h({"x": fa.d.get(k)}) if fa.d.get(k) is not None else None) != (B.h({"x": fb.d.get(k)}) if fb.d.get(k) is not None else None):
            return None
    out = []
    ba, bb = fa.d.get("body"), fb.d.get("body")
    if ba is None or bb is None or has_kind(ba, ("goto",)) or has_kind(bb, ("goto",)):
        return None
    void = fa.T[fa.d["ret"]] == "void"

    def block(sa, sb, tail, facts, ca, cb, pa, pb):
        ha, hb = [A.h(x) for x in sa], [B.h(x) for x in sb]
        p = 0
        while p < len(ha) and p < len(hb) and ha[p] == hb[p]:
            p += 1
        q = 0
        while q < len(ha) - p and q < len(hb) - p and ha[-1 - q] == hb[-1 - q]:
            q += 1
        ma, mb = sa[p:len(sa) - q], sb[p:len(sb) - q]
        if not ma and not mb:
            return
        # facts survive only when nothing before the region assigns their variables
        fs = [f for f in facts if not assigns(sa[:p], f[2]) and not assigns(sb[:p], f[2])]
        na, nb = ca + [("seq", sa[len(sa) - q:])], cb + [("seq", sb[len(sb) - q:])]
        t = tail if q == 0 else None
        if has_case(ma) or has_case(mb):
            if len(ma) == len(mb) == 1 and ma[0]["k"] == mb[0]["k"] and (ma[0]["k"] == "default" or A.h(ma[0]["v"]) == B.h(mb[0]["v"])):
                block([ma[0]["s"]], [mb[0]["s"]], t, fs, na, nb, pa, pb)
            return
        pa, pb = pa + [("seq", sa[:p])], pb + [("seq", sb[:p])]
        out.append(Region(ma, mb, t, fs, na, nb, pa, pb))
        if len(ma) == len(mb) == 1 and ma[0] and mb[0] and ma[0]["k"] == mb[0]["k"]:
            stmt(ma[0], mb[0], t, fs, na, nb, pa, pb)

    def same(a, b, k):
        x, y = a.get(k), b.get(k)
        if x is None or y is None:
            return x is None and y is None
        return A.h(x) == B.h(y)

    def stmt(a, b, tail, facts, ca, cb, pa, pb):
        k = a["k"]
        if k == "block":
            block(a["b"], b["b"], tail, facts, ca, cb, pa, pb)
        elif k == "if":
            if not (same(a, b, "c") and same(a, b, "init") and same(a, b, "cvar")):
                return
            for x, pol in (("a", True), ("b", False)):
                if same(a, b, "b" if x == "a" else "a"):
                    if a.get(x) is None and b.get(x) is None:
                        continue
                    f = [] if a.get("init") or a.get("cvar") else fact(a["c"], b["c"], pol)
                    block(stmts(a.get(x)), stmts(b.get(x)), tail, facts + f, ca, cb, pa + [("if", a, pol)], pb + [("if", b, pol)])
        elif k in ("for", "while"):
            if same(a, b, "init") and same(a, b, "c") and same(a, b, "inc") and same(a, b, "cvar"):
                f = fact(a["c"], b["c"], True) if a.get("c") else []
                keep = [x for x in facts if not assigns([a], x[2]) and not assigns([b], x[2])]
                block(stmts(a["b"]), stmts(b["b"]), "cont", keep + f, ca + [("loop", a)], cb + [("loop", b)], pa + [("loop", a)], pb + [("loop", b)])
        elif k == "do":
            if same(a, b, "c"):
                keep = [x for x in facts if not assigns([a], x[2]) and not assigns([b], x[2])]
                block(stmts(a["b"]), stmts(b["b"]), "cont", keep, ca + [("loop", a)], cb + [("loop", b)], pa + [("loop", a)], pb + [("loop", b)])
        elif k == "rangefor":
            if same(a, b, "v") and same(a, b, "r"):
                keep = [x for x in facts if not assigns([a], x[2]) and not assigns([b], x[2])]
                block(stmts(a["b"]), stmts(b["b"]), "cont", keep, ca + [("loop", a)], cb + [("loop", b)], pa + [("loop", a)], pb + [("loop", b)])
        elif k == "switch":
            if same(a, b, "c") and a["b"]["k"] == "block" and b["b"]["k"] == "block":
                block(a["b"]["b"], b["b"]["b"], None, facts, ca + [("switch", a)], cb + [("switch", b)], pa + [("switch", a)], pb + [("switch", b)])
        elif k == "label":
            block([a["s"]], [b["s"]], tail, facts, ca, cb, pa, pb)
        elif k == "try":
            if same(a, b, "h") and same(a, b, "handlers"):
                block(stmts(a["b"]), stmts(b["b"]), None, facts, ca, cb, pa, pb)

    block(ba["b"] if ba["k"] == "block" else [ba], bb["b"] if bb["k"] == "block" else [bb], "ret" if void else None, [], [], [], [], [])
    return out


def fact(a, b, pol):
    """a dominating condition usable as a fact: no calls, no side effects"""
    if has_kind(a, ("call", "asg", "new", "delete", "lambda", "throw", "ctor")) or has_kind(b, ("call", "asg", "new", "delete", "lambda", "throw", "ctor")):
        return []
    if any(x.get("k") == "un" and x.get("op") in ("++", "--", "p++", "p--") for x in nodes(a)):
        return []
    return [(a, b, vars_of(a) | {("mem",)} if has_kind(a, ("mem", "idx")) or any(x.get("k") == "un" and x.get("op") in ("*", "d*", "deref") for x in nodes(a)) else vars_of(a), pol)]


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from nodes(v)
    elif isinstance(n, list):
        for x in n:
            yield from nodes(x)


def vars_of(n):
    return {x.get("n") for x in nodes(n) if x.get("k") == "ref" and "d" in x}


def assigns(ss, vs):
    """may the statements change one of the variables (or, for conditions reading memory, any memory)?"""
    mem = ("mem",) in vs
    for x in nodes(ss):
        k = x.get("k")
        if k == "asg" or k == "un" and x.get("op") in ("++", "--", "p++", "p--"):
            t = x.get("a") if k == "asg" else x.get("e")
            if mem and t.get("k") != "ref":
                return True
            if vars_of(t) & vs:
                return True
        elif k == "un" and x.get("op") == "&":
            if vars_of(x) & vs:
                return True
        elif k in ("call", "new", "ctor"):
            if mem or vars_of(x) & vs:
                return True
        elif k == "decl":
            if any(v.get("n") in vs for v in x["v"]):
                return True
    return False


# ---------------------------------------------------------------- liveness
def first(n, d):
    """first access of variable d when n is executed: 'r', 'w' (on every path) or 'n'"""
    if n is None:
        return "n"
    if isinstance(n, list):
        for x in n:
            r = first(x, d)
            if r != "n":
                return r
            if isinstance(x, dict) and x.get("k") in ("break", "continue"):
                return "n"
        return "n"
    if not isinstance(n, dict):
        return "n"
    k = n.get("k")
    if k == "ref":
        return "r" if n.get("d") == d else "n"
    if k == "asg":
        a = n["a"]
        if a.get("k") == "ref" and a.get("d") == d:
            if n.get("op", "=") != "=":
                return "r"
            r = first(n.get("b"), d)
            return r if r == "r" else "w"
        r = first(n.get("b"), d)
        return r if r != "n" else first(a, d)
    if k == "decl":
        for v in n["v"]:
            r = first(v.get("init"), d)
            if r == "r":
                return r
            if v.get("d") == d:
                return "w"
        return "n"
    if k == "if":
        for x in ("init", "cvar", "c"):
            r = first(n.get(x), d)
            if r != "n":
                return r
        ra, rb = first(n.get("a"), d), first(n.get("b"), d)
        if "r" in (ra, rb):
            return "r"
        return "w" if ra == rb == "w" else "n"
    if k in ("cond",):
        r = first(n["c"], d)
        if r != "n":
            return r
        ra, rb = first(n.get("a"), d), first(n.get("b"), d)
        if "r" in (ra, rb):
            return "r"
        return "w" if ra == rb == "w" else "n"
    if k == "bin" and n.get("op") in ("&&", "||"):
        r = first(n.get("a"), d)
        if r != "n":
            return r
        return "r" if first(n.get("b"), d) == "r" else "n"
    if k in ("for", "while"):
        for x in ("init", "cvar", "c"):
            r = first(n.get(x), d)
            if r != "n":
                return r
        rb = first(n.get("b"), d)
        if rb == "r":
            return "r"
        if rb == "n" and first(n.get("inc"), d) == "r":
            return "r"
        if rb == "w" and has_kind(n.get("b"), ("continue",)) and first(n.get("inc"), d) == "r":
            return "r"
        return "n"
    if k == "do":
        r = first(n.get("b"), d)
        return r if r != "n" else first(n.get("c"), d)
    if k == "rangefor":
        r = first(n.get("r"), d)
        if r != "n":
            return r
        return "r" if first(n.get("b"), d) == "r" else "n"
    if k == "switch":
        r = first(n.get("c"), d)
        if r != "n":
            return r
        return "r" if any(first(x, d) == "r" for x in stmts(n.get("b"))) else "n"
    if k == "block":
        return first(n["b"], d)
    if k == "return":
        r = first(n.get("e"), d)
        return "r" if r == "r" else "w"
    if k == "throw":
        return "r" if any(first(v, d) == "r" for v in n.values() if isinstance(v, (dict, list))) else "w"
    if k == "lambda":
        return "r" if any(c.get("d") == d for c in n.get("caps", n.get("captures", []))) or any(x.get("d") == d and x.get("k") == "ref" for x in nodes(n)) else "n"
    res = "n"
    for kk, v in n.items():
        if isinstance(v, (dict, list)):
            r = first(v, d)
            if r == "r":
                return "r"
            if r == "w":
                res = "w"
    return res


def live(cont, d, exits):
    """may the variable be read after the region whose continuation is cont (innermost last)?"""
    starts = [len(cont) - 1]
    if exits:
        for i, (k, x) in enumerate(cont):
            if k == "loop":
                starts += [i, i - 1]
            elif k == "switch":
                starts.append(i - 1)
    return any(live1(cont, i, d) for i in starts)


def live1(cont, i, d):
    while i >= 0:
        k, x = cont[i]
        i -= 1
        if k == "seq":
            stop = False
            for s in x:
                r = first(s, d)
                if r == "r":
                    return True
                if r == "w":
                    return False
                if s.get("k") in ("break", "continue"):
                    stop = True
                    break
            if stop:
                while i >= 0 and cont[i][0] == "seq":
                    i -= 1
        elif k == "loop":
            done = False
            for y in (x.get("inc"), x.get("c")):
                r = first(y, d)
                if r == "r":
                    return True
                if r == "w":
                    return False
            r = first(x.get("v"), d) if x["k"] == "rangefor" else "n"
            if x["k"] == "rangefor" and x["v"].get("d") == d:
                continue
            if first(x.get("b"), d) == "r":
                return True
    return False


# ---------------------------------------------------------------- declarations outside the region
def outer_decls(fn, region):
    """(d, name, type) of the variables declared outside the region, in order"""
    inside = {id(x) for s in region for x in nodes(s)}
    out = []
    for i, p in enumerate(fn.params):
        out.append((p["d"], "$%d" % i, fn.T[p["t"]], p["n"]))
    cnt = {}

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
            return
        if not isinstance(n, dict) or id(n) in inside:
            return
        vs = []
        if n.get("k") == "decl":
            vs = n["v"]
        elif n.get("k") == "rangefor":
            vs = [n["v"]]
        elif n.get("cvar"):
            vs = [n["cvar"]]
        for v in vs:
            if not isinstance(v, dict) or "d" not in v:
                continue
            c = cnt[v["n"]] = cnt.get(v["n"], 0) + 1
            out.append((v["d"], "@" + v["n"] + ("#%d" % c if c > 1 else ""), fn.T[v["t"]], v["n"]))
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v)
    walk(fn.d["body"])
    return out


def top_decls(fn, region, outer):
    """variables declared by the region itself that stay in scope after it"""
    cnt = {}
    for _, nm, _, _ in outer:
        if nm.startswith("@"):
            b = nm[1:].split("#")[0]
            cnt[b] = cnt.get(b, 0) + 1
    out = []
    for s in region:
        if isinstance(s, dict) and s.get("k") == "decl":
            for v in s["v"]:
                if "d" in v:
                    c = cnt[v["n"]] = cnt.get(v["n"], 0) + 1
                    out.append((v["d"], "@" + v["n"] + ("#%d" % c if c > 1 else ""), fn.T[v["t"]], v["n"]))
    return out


EXIT = (mk("lv", "exit", "exit"), ())


SIZEOK = {"size", "empty", "operator[]", "at", "begin", "end", "front", "back", "c_str", "data", "rbegin", "rend", "get", "operator->", "operator*", "find", "count"}


def root_var(n):
    while isinstance(n, dict):
        k = n.get("k")
        if k == "ref":
            return n.get("d")
        if k == "call":
            n = n.get("obj")
        elif k == "idx":
            n = n.get("a") if "a" in n else n.get("b")
        elif k == "asg":
            n = n.get("a")
        else:
            n = n.get("e") or n.get("a") or n.get("obj") or n.get("b")
            if not isinstance(n, dict):
                return None
    return None


def mutated(loop, T):
    """variables a loop may change: {d: 'value' (wholly) | 'content' (elements only)}, and whether it may change other memory"""
    out, mem = {}, False

    def put(d, w):
        if d is not None and out.get(d) != "value":
            out[d] = w
    for x in nodes(loop):
        k = x.get("k")
        if k == "asg" or k == "un" and x.get("op") in ("++", "--", "p++", "p--", "&"):
            t = x.get("a") if k == "asg" else x.get("e")
            direct = isinstance(t, dict) and t.get("k") == "ref"
            put(root_var(t), "value" if direct else "content")
            if not direct:
                mem = True
        elif k in ("call", "ctor", "new"):
            q = ((x.get("f") or {}).get("q") or "").split("::")[-1]
            pt = (x.get("f") or {}).get("pt") or x.get("pt") or []
            if x.get("obj") is not None:
                put(root_var(x["obj"]), "content" if q in SIZEOK else "value")
            if q not in SIZEOK:
                mem = True
            for i, a in enumerate(x.get("args", ())):
                t = T[pt[i]] if i < len(pt) and isinstance(pt[i], int) else "?&"
                if t.endswith("&") and not t.startswith("const "):
                    put(root_var(a), "value")
                elif isinstance(a, dict) and a.get("k") == "ref" and not t.endswith("&"):
                    put(root_var(a), "content")
        elif k == "lambda":
            for y in nodes(x):
                if y.get("k") == "ref" and "d" in y:
                    put(y["d"], "value")
    return out, mem


def names_of(t, lvs):
    return atoms(t, lambda z: z in lvs)


def prefix(ses, fr, st, steps, decls):
    """execute what comes before the region; memory and variables a surrounding loop may have changed keep their names as values"""
    byd = {d: (nm, nn, t) for d, nm, t, nn in decls}
    lvs = {ses.lvbase(fr, d, nn): d for d, nm, t, nn in decls}
    objs = {sym(nm, "p"): d for d, nm, t, nn in decls}

    def forget(key):
        base = key[0]
        if base in lvs and not key[1]:
            d = lvs[base]
            st.env[key] = sym(byd[d][0], st_kind(ses, byd[d][2]))
        else:
            st.env.pop(key, None)

    def rootof(b):
        while b.op in ("arr", "vec", "sub", "ptr", "load"):
            b = b.a[0]
        return b
    for s in steps:
        if s[0] == "seq":
            for x in s[1]:
                ses.exec(x, st)
                if st.dead:
                    raise ValueError("does not reach the region")
        elif s[0] == "if":
            n = s[1]
            if n.get("init"):
                ses.exec(n["init"], st)
            if n.get("cvar"):
                ses.declare(n["cvar"], st)
            c = tob(ses.rv(n["c"], st))
            c = c if s[2] else bnot(c)
            if not has_unk(c):
                st.pc = band(st.pc, c)
        elif s[0] == "switch":
            ses.rv(s[1]["c"], st)
        else:
            n = s[1]
            if n.get("init"):
                ses.exec(n["init"], st)
            mut, mem = mutated({k: v for k, v in n.items() if k != "init"}, fr.T)
            for x in nodes(n):
                if x.get("k") == "decl":
                    for v in x["v"]:
                        if isinstance(v, dict) and "d" in v and not (n.get("init") and any(y is v for y in nodes(n["init"]))):
                            mut[v["d"]] = "value"
            for key in list(st.env):
                base = key[0]
                d = lvs.get(base)
                if d is None:
                    d = objs.get(rootof(base))
                    if d is None:
                        drop = mem
                    elif key[1] and key[1][-1] == "#size":
                        drop = mut.get(d) == "value"
                    else:
                        drop = d in mut
                else:
                    drop = d in mut
                if drop:
                    forget(key)
            for key in list(st.logs):
                d = objs.get(rootof(key[0]))
                if d is None and mem or d is not None and d in mut:
                    del st.logs[key]
            if mem:
                st.lifted = ()
            pc = st.pc
            # conditions remembered so far spoke of earlier values, which keep their terms
            if n["k"] in ("for", "while") and n.get("c"):
                if n.get("cvar"):
                    ses.declare(n["cvar"], st)
                c = tob(ses.rv(n["c"], st))
                if not has_unk(c):
                    st.pc = band(pc, c)
    # what could not be followed becomes arbitrary
    for key, v in list(st.env.items()):
        if has_unk(v) or key[0].op == "glob" or key[1] and key[1][-1].startswith(("#io", "#tr")):
            forget(key)
    for key, log in list(st.logs.items()):
        if key[0].op == "glob" or any(e.kind == "hav" or has_unk(e.off) or has_unk(e.guard) or isinstance(e.val, T) and has_unk(e.val) for e in log):
            del st.logs[key]
    st.hav = {}
    st.lifted = ()
    for d, nm, t, nn in decls:
        r = fr.refs.get(d)
        if r is None and t.endswith("&") or isinstance(r, T) and has_unk(r):
            fr.refs[d] = sym(nm, "p")
        elif r is None and (ses.kind(t) == "o" or ses.kind(t) == "arr" and not nm.startswith("$")):
            fr.refs[d] = sym(nm, "p")
        elif r is None and (ses.lvbase(fr, d, nn), ()) not in st.env:
            st.env[(ses.lvbase(fr, d, nn), ())] = sym(nm, st_kind(ses, t))
    pc = st.pc
    st.pc = TRUE
    fr.returns.clear()
    ses.throws.clear()
    return TRUE if has_unk(pc) else pc


def st_kind(ses, t):
    k = ses.kind(t)
    return "p" if k in ("p", "arr") else k


def run_region(ses, fn, region, decls, facts, tail, before=None):
    ses.copies, ses.lams, ses.nested, ses.zeroed = {}, {}, {}, set()
    st = State()
    ses.nf += 1
    fr = Frame(fn, ses.nf, None)
    ses.frames = [fr]
    if fn.d.get("cls") and not fn.d.get("static"):
        fr.this = sym("this", "p")
    for d, nm, t, nn in decls:
        fr.vartype[d] = t
        if t.endswith("&"):
            fr.refs[d] = sym(nm, "p")
            continue
        k = ses.kind(t)
        if k == "o" or k == "arr" and not nm.startswith("$"):
            fr.refs[d] = sym(nm, "p")
            if k == "arr":
                ses.arrs.add(fr.refs[d])
        else:
            st.env[(ses.lvbase(fr, d, nn), ())] = sym(nm, "p" if k in ("p", "arr") else k)
    fs = []
    if before is not None:
        # objects declared on the way live at their own names
        fr.prebase = {d: sym(nm, "p") for d, nm, t, nn in decls if not nm.startswith("$") and not t.endswith("&") and ses.kind(t) in ("o", "arr")}
        for d, nm, t, nn in decls:
            if not nm.startswith("$"):
                st.env.pop((ses.lvbase(fr, d, nn), ()), None)
        lf = LoopFrame()
        fr.loops.append(lf)
        pc = prefix(ses, fr, st, before, decls)
        fr.loops.pop()
        fr.prebase = {}
        if pc is not TRUE:
            fs.append(pc)
        facts = []
    for node, pol in facts:
        try:
            c = tob(ses.rv(node, st))
        except Exception:
            continue
        if not pol:
            c = bnot(c)
        if not has_unk(c):
            fs.append(c)
    for c in fs:
        st.asm = st.asm.plus(c)
    st.env[EXIT] = ZERO
    lf = LoopFrame()
    fr.loops.append(lf)
    ses.exec({"k": "block", "b": region}, st)
    fr.loops.pop()
    if st.dead == "goto":
        raise ValueError("goto")

    def code(env, c):
        e = dict(env)
        e[EXIT] = num(c)
        return e
    void = fn.T[fn.d["ret"]] == "void"
    ex = [(pc, v, code(e, 0 if tail == "ret" and void else 1), asm) for pc, v, e, asm in fr.returns]
    ex += [(pc, None, code(e, 2), asm) for pc, e, asm in lf.breaks]
    ex += [(pc, None, code(e, 0 if tail == "cont" else 3), asm) for pc, e, asm in lf.conts]
    fr.returns[:] = ex
    rets = len(ex)
    v = ses.finish_returns(fr, st, TRUE, fn.T[fn.d["ret"]]) if ex else None
    return Summary(ses, fn, st, v, {}, fr.this), fs
