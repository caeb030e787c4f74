import re
"""Program database: runs the vx exporter over every translation unit of /repo
(and over our own template-instantiation units), with a content-hash cache,
and gives lazy access to functions, records, enums and globals."""
import hashlib, json, os, re, shlex, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
VX = os.path.join(BUILD, "vx")
INST = os.path.join(VERIF, "sa", "inst")

VXFLAGS = ("-std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS "
           "-D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS").split()
VXLIBS = "-L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib".split()


class ToolError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def fhash(path, memo={}):
    v = memo.get(path)
    if v is None:
        try:
            with open(path, "rb") as f:
                v = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            v = "missing"
        memo[path] = v
    return v


def build_tool():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, "vx", "vx.cpp")
    stamp = os.path.join(BUILD, "vx.stamp")
    want = fhash(src)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(VX) and os.path.exists(stamp) and open(stamp).read() == want:
            return
        tmp = VX + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++"] + VXFLAGS + [src, "-o", tmp] + VXLIBS, capture_output=True, text=True)
        if r.returncode:
            raise ToolError("cannot build vx: " + r.stderr[-2000:])
        os.replace(tmp, VX)
        with open(stamp, "w") as f:
            f.write(want)


CXX_DEF = ["-DHAVE_CONFIG_H=1", "-I%B", "-I%R", "-I/usr/include/suitesparse", "-std=c++11", "-DDEBUG"]
C_DEF = ["-DHAVE_CONFIG_H=1", "-I%B", "-I%R", "-I/usr/include/suitesparse", "-DUF_long=long", "-std=c99", "-DDEBUG"]


def config_dir():
    """directory holding config.h: the repository's own build tree, or one we configure."""
    b = os.path.join(REPO, "_build")
    if os.path.exists(os.path.join(b, "config.h")):
        return b
    c = os.path.join(BUILD, "cmk")
    if not os.path.exists(os.path.join(c, "config.h")):
        os.makedirs(c, exist_ok=True)
        subprocess.run(["cmake", "-G", "Ninja", REPO], cwd=c, capture_output=True, text=True)
        if not os.path.exists(os.path.join(c, "config.h")):
            raise ToolError("no config.h and cmake configure failed")
    return c


BASE = os.path.join(VERIF, "ref", "base")      # the reviewed revision
TMPL = os.path.join(VERIF, "sa", "tmpl")       # template instantiations, parsed against both trees


def tmpl_units(inc):
    out = []
    for n in sorted(os.listdir(TMPL)) if os.path.isdir(TMPL) else []:
        if n.endswith(".cpp"):
            out.append((os.path.join(TMPL, n), ["-DHAVE_CONFIG_H=1"] + inc + ["-I/usr/include/suitesparse", "-std=c++11", "-DDEBUG", "-fno-access-control"]))
    return out


def base_units():
    """the library sources of the reviewed revision"""
    out = []
    for d, _, fs in os.walk(os.path.join(BASE, "opm")):
        for n in fs:
            f = os.path.join(d, n)
            if n.endswith((".c", ".cpp")) and not re.search(r"Istl|AGMG|xmltest", f):
                fl = C_DEF if n.endswith(".c") else CXX_DEF
                out.append((f, [x.replace("%B", BASE).replace("%R", BASE) for x in fl]))
    return sorted(out) + tmpl_units(["-I" + BASE])


def units():
    """[(source, flags)] for everything the repository builds, plus our instantiation units."""
    b = config_dir()
    out = {}
    try:
        r = subprocess.run(["ninja", "-C", b, "-t", "compdb"], capture_output=True, text=True)
        db = json.loads(r.stdout)
    except Exception:
        db = []
    for e in db:
        f = e["file"]
        if " -c " not in e["command"] or not f.startswith(REPO + "/") or f.startswith(b):
            continue
        if not os.path.exists(f):
            continue
        toks = shlex.split(e["command"])
        fl = [t for t in toks if t.startswith(("-D", "-I", "-std="))]
        out[f] = fl
    # sources named in the build list but not in a (possibly stale) compilation database
    lst = os.path.join(REPO, "CMakeLists_files.cmake")
    if os.path.exists(lst):
        txt = open(lst, errors="replace").read()
        for m in re.findall(r"[\w./-]+\.(?:cpp|c)\b", re.sub(r"#.*", "", txt)):
            f = os.path.join(REPO, m)
            if f in out or not os.path.exists(f) or not m.startswith("opm/"):
                continue
            if re.search(r"Istl|AGMG|xmltest", m):
                continue
            fl = C_DEF if f.endswith(".c") else CXX_DEF
            out[f] = [x.replace("%B", b).replace("%R", REPO) for x in fl]
    for n in sorted(os.listdir(INST)) if os.path.isdir(INST) else []:  # our own reference units
        if n.endswith((".cpp", ".c")):
            fl = C_DEF if n.endswith(".c") else CXX_DEF
            out[os.path.join(INST, n)] = [x.replace("%B", b).replace("%R", REPO) for x in fl] + ["-fno-access-control"]
    return sorted(out.items()) + tmpl_units(["-I" + b, "-I" + REPO])


def extract(src, flags, vxh, root):
    """returns path of the .jl for this unit (cached on the content of everything it includes)."""
    key = _sha(vxh + "2", src, "\n".join(flags))[:32]
    meta = os.path.join(CACHE, key + ".deps")
    out = os.path.join(CACHE, key + ".jl")
    if os.path.exists(meta) and os.path.exists(out):
        try:
            with open(meta) as f:
                deps = json.load(f)
            if all(fhash(p) == h for p, h in deps.items()):
                return out, True
        except Exception:
            pass
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run([VX, tmp, root + "/", (INST if src.startswith(INST) else TMPL) + "/", src, "--"] + flags + ["-w", "-fmacro-prefix-map=%s/=" % root], capture_output=True, text=True)
    deps = {}
    ok = False
    try:
        with open(tmp) as f:
            for ln in f:
                if ln.startswith("D\t"):
                    for p in json.loads(ln.split("\t", 2)[2]):
                        if p.startswith(REPO + "/") or p.startswith(VERIF):
                            deps[p] = fhash(p)
                elif ln.startswith("Z\t"):
                    ok = ln.strip().endswith("\t0")
    except OSError:
        pass
    if r.returncode or not ok:
        try:
            os.unlink(tmp)
        except OSError:
            pass
        if src.startswith((INST + "/", TMPL + "/")):
            # a reference unit that does not fit the current headers leaves its properties undecided
            return None, r.stderr[-600:]
        raise ToolError("vx failed on %s: %s" % (src, r.stderr[-1500:]))
    os.replace(tmp, out)
    mt = meta + ".tmp%d" % os.getpid()
    with open(mt, "w") as f:
        json.dump(deps, f)
    os.replace(mt, meta)
    return out, False


class Fn:
    """one function; d is the exported JSON"""
    __slots__ = ("d", "q", "n", "u", "file", "T")

    def __init__(self, d):
        self.d = d
        self.q = d["q"]
        self.n = d["n"]
        self.u = d["u"]
        self.T = d["T"]
        f = d["file"]
        self.file = f[len(REPO) + 1:] if f.startswith(REPO + "/") else f[len(BASE) + 1:] if f.startswith(BASE + "/") else f

    @property
    def params(self):
        return self.d["params"]

    @property
    def line(self):
        return self.d["l"]

    def loc(self, l=None):
        return "%s:%d" % (self.file, l if l else self.d["l"])

    def __repr__(self):
        return "<Fn %s>" % self.q


_unn = re.compile(r"(\(unnamed [a-z]+ at [^:)\"]*):\d+:\d+\)")


class Program:
    def __init__(self, only=None, base=False):
        build_tool()
        vxh = fhash(VX)
        us = base_units() if base else units()
        root = BASE if base else REPO
        if only:
            us = [u for u in us if only(u[0])]
        if not us:
            raise ToolError("no translation units found")
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda u: extract(u[0], u[1], vxh, root), us))
        self.units = [u[0] for u in us]
        self.cached = sum(1 for r in res if r[1] is True)
        self.conflicts = {os.path.basename(u[0]): ["does not compile: " + r[1]] for u, r in zip(us, res) if r[0] is None}
        self.raw = {"F": {}, "R": {}, "E": {}, "G": {}}
        self.tests = set()
        for (src, _), (path, _) in zip(us, res):
            if path is None:
                continue
            with open(path) as f:
                for ln in f:
                    k = ln[0]
                    if k in self.raw:
                        if root + "/" in ln:
                            ln = _unn.sub(r"\1)", ln.replace(root + "/", ""))
                        a = ln.find("\t", 2)
                        key = ln[2:a]
                        d = self.raw[k]
                        if key not in d:
                            d[key] = ln[a + 1:]
                        elif k == "R" and "/sa/inst/" in src and d[key] != ln[a + 1:]:
                            x, y = json.loads(d[key]), json.loads(ln[a + 1:])
                            if [f["n"] for f in x.get("fields", [])] != [f["n"] for f in y.get("fields", [])]:
                                # a private structure mirrored by a reference formulation has changed
                                self.conflicts.setdefault(os.path.basename(src), []).append(x.get("q", key))
        self._F = {}
        self._byq = None
        self._R = None
        self._E = None
        self._G = None

    # functions
    def fn_by_usr(self, u):
        f = self._F.get(u)
        if f is None:
            r = self.raw["F"].get(u)
            if r is None:
                return None
            f = self._F[u] = Fn(json.loads(r))
        return f

    _q_re = re.compile(r'"q":"((?:[^"\\]|\\.)*)"')

    def _index(self):
        if self._byq is None:
            self._byq = {}
            for u in self.raw["F"]:
                f = self.fn_by_usr(u)
                self._byq.setdefault(f.q, []).append(f)

    def fns(self, q):
        """all functions with this qualified name (template arguments may be left out)"""
        self._index()
        r = self._byq.get(q)
        if r:
            return r
        r = []
        for k, v in self._byq.items():
            if strip_targs(k) == q:
                r += v
        self._byq[q] = r
        return r

    def fn(self, q, nparams=None, pred=None, file=None):
        c = self.fns(q)
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if file:
            c = [f for f in c if f.file.endswith(file)]
        if pred:
            c = [f for f in c if pred(f)]
        return c[0] if c else None

    def all_fns(self, pred=None):
        self._index()
        for u in self.raw["F"]:
            f = self._F[u]
            if pred is None or pred(f):
                yield f

    @property
    def records(self):
        if self._R is None:
            self._R = {}
            for r in self.raw["R"].values():
                d = json.loads(r)
                self._R.setdefault(d["q"], d)
                self._R.setdefault(d["t"], d)
        return self._R

    @property
    def enums(self):
        if self._E is None:
            self._E = {}
            for r in self.raw["E"].values():
                d = json.loads(r)
                self._E[d["q"]] = d
        return self._E

    @property
    def globals(self):
        if self._G is None:
            self._G = {}
            for u, r in self.raw["G"].items():
                d = json.loads(r)
                self._G[u] = d
        return self._G

    def global_by_q(self, q):
        for d in self.globals.values():
            if d["q"] == q:
                return d
        return None


OPNAME = re.compile(r"operator(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)")


def strip_targs(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "o" and d == 0:
            m = OPNAME.match(s, i)
            if m:
                out.append(m.group(0))
                i = m.end()
                continue
        if c == "<":
            d += 1
        elif c == ">" and d > 0 and s[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)



if __name__ == "__main__":
    import time
    t = time.time()
    P = Program()
    print("units %d cached %d functions %d records %d enums %d globals %d  %.1fs" % (
        len(P.units), P.cached, len(P.raw["F"]), len(P.raw["R"]), len(P.raw["E"]), len(P.raw["G"]), time.time() - t))
    B = Program(base=True)
    print("reviewed revision: units %d cached %d functions %d  %.1fs" % (len(B.units), B.cached, len(B.raw["F"]), time.time() - t))
    for k, v in sorted(P.conflicts.items()) + sorted(B.conflicts.items()):
        print('reference unit %s: %s' % (k, v))
