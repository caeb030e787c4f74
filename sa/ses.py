"""Structured dataflow over the exported AST: computes, for a function, the gated
value of every scalar and an effect log for every array (what is stored where, under
which merge condition, for which loop range).  Calls with known bodies are summarised
in place; counted loops become Sum / closed-form terms; everything that is not
understood becomes an explicit unknown, so that clients can stay silent about it."""
import re
import sys
from collections import namedtuple
from fractions import Fraction as Fr
from .terms import *
from . import terms as TM
from .load import strip_targs

sys.setrecursionlimit(20000)

Entry = namedtuple("Entry", "seq kind off val binders guard ty line")
CallRec = namedtuple("CallRec", "q args obj pc binders line fn seq node u", defaults=(None,))


class Unknowns(list):
    """what the summary does not know, and the functions it arose in"""

    def __init__(self, ses):
        self.ses = ses
        self.blame = set()

    def append(self, x):
        if not x[0].startswith(("uninitialised", "vector element", "missing arg", "lost")):
            self.blame |= {fr.fn.u for fr in self.ses.frames[1:] if fr.fn}
        if len(self) < 400:
            list.append(self, x)


CSR0 = {"cell_facepos", "face_nodepos", "well_connpos", "cond_pos", "ia", "row_start_", "pos", "connpos",
        "face_pos", "blkdof_pos", "basis_pos", "cell_ip_pos", "dof_pos", "pdof", "p2", "pb2"}

SIZES = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "char": 1, "bool": 1, "long": 8, "unsigned long": 8,
         "short": 2, "signed char": 1, "unsigned char": 1}
INTS = {"int", "unsigned int", "char", "bool", "long", "unsigned long", "short", "unsigned short", "signed char",
        "unsigned char", "long long", "unsigned long long"}
READER = "Opm::parameter::ParameterGroup"
PURE_MATH = {"sqrt", "exp", "log", "pow", "sin", "cos", "tan", "atan", "acos", "asin", "atan2", "log10", "ceil", "floor", "cosh", "sinh", "tanh", "fmod", "cbrt"}


def ctype(s):
    s = s.strip()
    while True:
        if s.startswith("const "):
            s = s[6:]
        elif s.startswith("volatile "):
            s = s[9:]
        elif s.endswith(" const"):
            s = s[:-6]
        else:
            return s


def is_iter(s):
    return "__normal_iterator<" in s[:40] or is_mapiter(s)


def is_mapiter(s):
    return "_Rb_tree_iterator<" in s[:30] or "_Rb_tree_const_iterator<" in s[:36]


def is_map(t):
    return ctype(t).startswith(("std::map<", "std::set<"))


def deref_ty(s):
    s = ctype(s)
    if s.endswith("*const"):
        s = s[:-5].strip()
    if s.endswith("*"):
        return s[:-1].strip()
    if s.endswith("]"):
        m = re.match(r"^(.*?)\s*\[[^\]]*\](.*)$", s)
        return (m.group(1) + m.group(2)).strip()
    if is_mapiter(s):
        return vec_elem(s[s.index("_Rb_tree"):])
    if is_iter(s):
        m = re.search(r"__normal_iterator<(.*?)\s*\*", s)
        return m.group(1) if m else "?"
    return "?"


# algorithms that only look at their ranges, and all that are recognised
LOOKALG = {"accumulate", "inner_product", "max_element", "min_element", "count", "count_if", "find", "find_if", "find_if_not", "distance", "next", "prev", "equal", "lower_bound",
           "upper_bound", "equal_range", "binary_search", "is_sorted", "any_of", "all_of", "none_of", "mismatch", "search", "adjacent_find", "find_first_of", "includes",
           "lexicographical_compare", "minmax_element"}
ALGOS = LOOKALG | {"fill", "fill_n", "copy", "copy_n", "copy_if", "copy_backward", "transform", "partial_sum", "adjacent_difference", "iota", "sort", "stable_sort", "advance",
                   "reverse", "reverse_copy", "rotate", "replace", "replace_if", "swap_ranges", "generate", "generate_n", "for_each", "unique", "remove", "remove_if", "partition",
                   "nth_element", "partial_sort", "set_difference", "set_union", "set_intersection", "merge", "random_shuffle", "iter_swap"}


class State:
    __slots__ = ("env", "logs", "hav", "lifted", "pc", "asm", "dead", "_f")

    def __init__(self):
        self.env = {}
        self.logs = {}
        self.hav = {}
        self.lifted = ()
        self.pc = TRUE
        self.asm = Facts()
        self.dead = None
        self._f = None

    def clone(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.logs = dict(self.logs)
        s.hav = dict(self.hav)
        s.lifted = self.lifted
        s.pc = self.pc
        s.asm = self.asm
        s.dead = self.dead
        s._f = None
        return s

    def under(self, pc, asm):
        s = self.clone()
        s.pc, s.asm = pc, asm
        return s

    def facts(self):
        if self._f is None or self._f[0] is not self.pc or self._f[1] is not self.asm:
            self._f = (self.pc, self.asm, self.asm.plus(self.pc))
        return self._f[2]

    def take(self, o):
        for k in ("env", "logs", "hav", "lifted", "pc", "asm", "dead"):
            setattr(self, k, getattr(o, k))


def truth(t):
    """zero or one"""
    return t is ZERO or t is ONE or t.op == "ite" and truth(t.a[1]) and truth(t.a[2])


class Frame:
    def __init__(self, fn, fid, this):
        self.fn = fn
        self.T = fn.T if fn else []
        self.id = fid
        self.this = this
        self.returns = []
        self.loops = []
        self.vartype = {}
        self.refs = {}
        self.lambdas = {}
        self.prebase = {}


class MuRecs(dict):
    """marks the barrier of a loop kept as a recursive term: mem maps memory keys to their state symbols"""
    mem = None


class LoopFrame:
    def __init__(self):
        self.breaks = []
        self.conts = []


class Budget(Exception):
    pass


SLOTS = 1000000      # more than any slot number
SLOT0 = 100          # slots of constant keys start here
SLOTNO = {}
IO = ("#io",)
FILES = mk("glob", "#files")
TRACE = mk("glob", "#trace")
CONSOLE = ("std::cout", "std::cerr", "std::clog", "std::wcout", "std::wcerr", "stdout", "stderr")
# library calls that only look, although they are not declared const
LOOK = {"operator[]", "find", "begin", "end", "rbegin", "rend", "at", "front", "back", "c_str", "data", "get", "operator*", "operator->", "lower_bound", "upper_bound",
        "equal_range", "size", "count", "empty", "operator()", "rdbuf", "key_comp"}
# library calls without arguments to change that nevertheless change the outside world
OUTSIDE = re.compile(r"(^|::)(create_director|remove|rename|unlink|mkdir|system|fclose|setenv|srand|srand48|MPI_)")


def is_stream(t):
    return t.startswith("std::") and "stream" in t and "streambuf" not in t and "streamsize" not in t and "iterator" not in t or t in ("std::ios", "std::ios_base") or t.startswith("std::basic_ios")


def is_instream(t):
    return t.startswith(("std::basic_istream", "std::basic_ifstream", "std::basic_istringstream", "std::istream", "std::ifstream", "std::istringstream"))


def tr(h, tok):
    """log h followed by tok; adjacent literal text is joined"""
    if h.op == "unk":
        return h
    if tok.op == "unk":
        return tok
    if tok.op == "str" and tok.a[0] == "":
        return h
    if tok.op == "str" and h.op == "app" and h.a[0] == "tr" and h.a[2].op == "str":
        return mk("app", "tr", h.a[1], mk("str", h.a[2].a[0] + tok.a[0]))
    return mk("app", "tr", h, tok)


def ptr_leaves(v):
    return ptr_leaves(v.a[1]) + ptr_leaves(v.a[2]) if v.op == "ite" else [v]


class SES:
    def __init__(self, prog, opaque=(), budget=60000, devirt=True, maxdepth=14, fails=False):
        self.arrs = set()       # local variables that are arrays
        self.fails = fails      # may allocation requests of grown blocks fail?
        self.P = prog
        self.opaque = set(opaque)
        self.budget = budget
        self.steps = 0
        self.frames = []
        self.nf = 0
        self.seq = 0
        self.calls = []
        self.asize, self.calloced = {}, {}
        self.throws = []
        self.binders = []
        self.loadlog = None
        self.tainted = [set()]
        self.maxdepth = maxdepth
        self.devirt = devirt
        self.assumptions = set()
        self.unknowns = Unknowns(self)
        self.retref = {}
        self.inlined = set()
        self.iov = {}
        self.brange = {}
        self.apartm = {}

    # ------------------------------------------------------------ helpers
    def unk(self, why, n=None):
        ln = n.get("l") if isinstance(n, dict) else None
        u = unk(why + (":%s" % ln if ln else ""))
        self.unknowns.append((why, ln, self.frames[-1].fn.q if self.frames and self.frames[-1].fn else ""))
        return u

    def nseq(self):
        self.seq += 1
        return self.seq

    @property
    def fr(self):
        return self.frames[-1]

    def ty(self, n):
        t = n.get("t")
        return self.fr.T[t] if t is not None else ""

    def kind(self, s):
        s = ctype(s)
        if s.endswith("&"):
            s = ctype(s[:-1])
        if s in ("double", "float", "long double"):
            return "d"
        if s in INTS:
            return "i"
        if s.endswith("*") or s.endswith("*const") or is_iter(s) or s in ("std::nullptr_t",):
            return "p"
        if s.endswith("]"):
            return "arr"
        if s in self.P.enums or s.startswith("std::_Ios_") or "::(unnamed" in s or s.startswith("(unnamed enum") or s.startswith("(anonymous"):
            if s in self.P.records:
                return "o"
            return "i"
        if "(*)" in s or "(" in s and s.endswith(")"):
            return "p"
        return "o"

    # ------------------------------------------------------------ locations
    # location: (base, off, path)
    def addr(self, loc):
        base, off, path = loc
        if not path:
            return padd(base, off)
        return mk("sub", base, off, path)

    def loc_of(self, p):
        """location a pointer term points to"""
        b, off = ptr_parts(p)
        if b.op == "sub" and off is ZERO:
            return (b.a[0], b.a[1], b.a[2])
        return (b, off, ())

    def member(self, loc, name):
        base, off, path = loc
        return (base, off, path + (name,))

    def decay(self, loc):
        """pointer to the first element of an array object"""
        base, off, path = loc
        if base.op == "lv" and not path and off is ZERO:
            return base
        return mk("arr", base, off, path)

    def envkey(self, loc):
        base, off, path = loc
        if off is ZERO:
            if base.op == "lv" and base not in self.arrs or (path and path[-1].startswith("#")):
                return (base, path)
            if path and not self.has_binder(base) and base.op not in ("arr", "vec") and base not in self.arrs:
                return (base, path)
        return None

    def has_binder(self, t):
        return any(occurs(b[0], t) for b in self.binders)

    def default(self, key, ty, st=None):
        base, path = key
        if base.op == "lv" and not (path and path[-1].startswith("#")):
            c = self.copies.get(base)
            if c is not None:
                return self.query(c[1], c[0][0], c[0][2] + path, c[0][1], ty)
            return self.unk("uninitialised %s" % base.a[-1])
        return mk("load", base, path, ZERO, ty)

    copies = None
    liftlim = None      # the lifted effects still to be consulted, while one of them is

    def read(self, st, loc, ty):
        base, off, path = loc
        if base.op == "unk" or off.op == "unk":
            return base if base.op == "unk" else off
        if base.op == "ite":
            r = [self.read(st, (x, add(o, off), path), ty) for x, o in (ptr_parts(base.a[1]), ptr_parts(base.a[2]))]
            if any(isinstance(x, tuple) for x in r):
                r = [self.addr(x) if isinstance(x, tuple) else x for x in r]
            return ite(base.a[0], *r)
        if ty == "o":
            return self.addr(loc)
        if ty == "arr":
            return self.decay(loc)
        k = self.envkey(loc)
        if k is not None:
            v = st.env.get(k)
            if v is None:
                v = self.query(st, base, path, off, ty)
                if v.op == "load" and base.op == "lv" and not path:
                    v = self.default(k, ty)
            return v
        return self.query(st, base, path, off, ty)

    def query(self, st, base, path, off, ty, upto=None):
        """value of base[off].path as determined by the effect log"""
        log = st.logs.get((base, path), ())
        hav = st.hav.get(base, ())
        if st.hav and base.op in ("vec", "arr", "sub"):
            x = self.outer_hav(st, base)
            if x:
                hav = hav + x
        ents = [e for e in log if upto is None or e.seq < upto] + [e for e in hav if upto is None or e.seq < upto]
        if len(hav):
            ents.sort(key=lambda e: e.seq)
        f = st.facts()
        for c in self.xfacts:
            f = f.plus(c)
        barrier = self.loadlog
        r = self._resolve(st, ents, len(ents) - 1, base, path, off, ty, f, barrier)
        return r

    def outer_hav(self, st, base):
        """what opaque calls did to the objects this memory is part of"""
        out = ()
        for a in ancestors(base):
            for e in st.hav.get(a, ()):
                if e.off is ZERO and not (e.ty and e.ty.startswith("mem:")):
                    out += (Entry(e.seq, "hav", ZERO, e.val if e.val.op == "unk" else renest(base, a, e.val), e.binders, e.guard, None, e.line),)
        return out

    def _resolve(self, st, ents, i, base, path, off, ty, f, barrier):
        adds = []
        conds = []
        result = None
        while True:
            if i < 0:
                result = self._initial(st, base, path, off, ty)
                break
            e = ents[i]
            while barrier is not None and e.seq < barrier[0]:
                barrier[1].append(((base, path), off, [g for g in conds]))
                if (base, path) in barrier[2]:
                    result = self.rec_sym(barrier, base, path, off, ty)
                    break
                barrier = barrier[4]
            if result is not None:
                break
            hit = self._match(e, off, f)
            if hit is None:
                i -= 1
                continue
            g, val, kind = hit
            g = f.simp(g) if g is not TRUE else g
            if g is FALSE:
                i -= 1
                continue
            if e.kind == "add":
                adds.append(ite(g, val, ZERO) if kind == "one" else val)
                i -= 1
                continue
            if e.kind == "hav":
                if e.ty and e.ty.startswith("mem:"):
                    v = mk("mget", e.val, off, ty)
                else:
                    v = e.val if e.val.op == "unk" else mk("load", e.val, path, sub(off, e.off) if not path or off is not ZERO else off, ty)
                if ty == "o":
                    v = self.unk("object havoc")
            elif kind == "scat":
                if g is not TRUE:
                    pass
                rest = self._resolve(st, ents, i - 1, base, path, off, ty, f, barrier)
                v0 = quant("scat", val[0], val[1], val[2], val[3], val[4], rest)
                result = v0
                break
            else:
                v = val
            if g is TRUE:
                result = v
                break
            f2 = f.plus(bnot(g))
            rest = self._resolve(st, ents, i - 1, base, path, off, ty, f2, barrier)
            result = ite(g, v, rest)
            break
        while barrier is not None and i < 0:
            barrier[1].append(((base, path), off, list(conds)))
            if (base, path) in barrier[2]:
                result = self.rec_sym(barrier, base, path, off, ty)
                break
            barrier = barrier[4]
        for a in reversed(adds):
            result = add(result, a)
        return result

    def rec_sym(self, barrier, base, path, off, ty):
        """value carried from the previous iteration of a loop at base[off].path"""
        if isinstance(barrier[3], MuRecs):
            return mk("mget", barrier[3].mem[(base, path)], off, ty)
        d = barrier[3].setdefault((base, path), {})
        r = d.get(off)
        if r is None:
            r = d[off] = mk("sym", "%%rec%d" % TM._fresh(), ty if ty in "di" else "d")
        return r

    def _initial(self, st, base, path, off, ty):
        n = len(st.lifted) if self.liftlim is None or self.liftlim[0] is not st else self.liftlim[1]
        for j in range(n - 1, -1, -1):
            kb, kp, b, lo, hi, ents = st.lifted[j]
            if kp == path:
                s = match_base(kb, base, b)
                if s is not None:
                    rng = band(le(lo, s), lt(s, hi)) if lo.op != "unk" and hi.op != "unk" else mk("bapp", "unk", unk("range"))
                    es = [Entry(e.seq, e.kind, subst(e.off, {b: s}), subst(e.val, {b: s}), e.binders, band(subst(e.guard, {b: s}), rng), e.ty, e.line) for e in ents]
                    old, self.liftlim = self.liftlim, (st, j)
                    try:
                        return self._resolve(st, es, len(es) - 1, base, path, off, ty, st.facts(), None)
                    finally:
                        self.liftlim = old
        if base.op == "lv":
            c = self.copies.get(base)
            if c is not None:
                return self.query(c[1], c[0][0], c[0][2] + path, add(c[0][1], off), ty)
            return self.unk("uninitialised %s" % base.a[-1])
        if path and path[-1] == "#freed":
            return ZERO
        if base.op in ("alloc",):
            return self.unk("uninitialised memory")
        if base.op == "arr" and base.a[0].op == "lv":
            c = self.copies.get(base.a[0])
            if c is not None:
                l = c[0]
                return self.query(c[1], mk("arr", l[0], l[1], l[2] + base.a[2]), path, off, ty)
            return self.unk("uninitialised array")
        if base.op == "vec":
            o = base.a[0]
            c = self.copies.get(o)
            if c is not None:
                return self.query(c[1], mk("vec", self.addr(c[0])), path, off, ty)
            if o.op == "lv":
                return self.unk("vector element beyond size")
        if ty == "o":
            return self.addr((base, off, path))
        return mk("load", base, path, off, ty)

    def _match(self, e, off, f):
        """None: certainly not this entry; else (guard, value, kind)"""
        if e.kind == "hav":
            return (e.guard, e.val, "one")
        if not e.binders:
            d = sub(e.off, off)
            if d is ZERO:
                return (e.guard, e.val, "one")
            v = nval(d)
            if v is not None:
                return None
            c = f.simp(eq0(d))
            if c is FALSE:
                return None
            return (band(e.guard, c), e.val, "one")
        sol = solve_binders(e.off, off, e.binders, f)
        if sol is FALSE:
            return None
        if sol is not None:
            m, left = sol
            conds = []
            for (b, lo, hi) in e.binders:
                if b in m:
                    x = m[b]
                    lo2, hi2 = subst(lo, m), subst(hi, m)
                    if lo2.op == "unk" or hi2.op == "unk":
                        conds.append(mk("bapp", "unk", unk("range")))
                    else:
                        conds += [le(lo2, x), lt(x, hi2)]
            g = band(subst(e.guard, m), *conds)
            v = subst(e.val, m)
            if not left:
                return (g, v, "one")
            if e.kind == "add":
                # sum over the binders the offset does not determine
                gg = f.simp(g) if not any(occurs(b, g) for b, _, _ in left) else g
                s = ite(gg, v, ZERO)
                for (b, lo, hi) in reversed(left):
                    s = tsum(b, subst(lo, m), subst(hi, m), s)
                return (TRUE, s, "many")
            # several iterations write the same place: the last one wins
            if not any(occurs(b, g) for b, _, _ in left):
                mm = {}
                conds = []
                for (b, lo, hi) in left:
                    lo2, hi2 = subst(subst(lo, m), mm), subst(subst(hi, m), mm)
                    conds.append(lt(lo2, hi2))
                    mm[b] = sub(hi2, ONE)
                return (band(g, *conds), subst(v, mm), "one")
            if len(left) == 1:
                b, lo, hi = left[0]
                lo, hi = subst(lo, m), subst(hi, m)
                row = None
                for (x, xlo, xhi) in e.binders:
                    if x in m and occurs(b, xlo) and subst(xlo, {b: add(b, ONE)}) is xhi:
                        row = (subst(xlo, m), subst(xhi, m), m[x])
                if row is not None:
                    c = self.row_of(b, row, f)
                    if c is not None:
                        return (band(subst(g, {b: c}), le(lo, c), lt(c, hi)), subst(v, {b: c}), "one")
                    c = quant("first", b, lo, hi, band(le(row[0], row[2]), lt(row[2], row[1])))
                    return (band(texists(b, lo, hi, band(le(row[0], row[2]), lt(row[2], row[1]))), subst(g, {b: c})), subst(v, {b: c}), "one")
                return (TRUE, (b, lo, hi, g, v), "scat")
            return self.scatter(left, m, g, v)
        # unsolved offset
        c = eq(e.off, off)
        if e.kind == "add":
            s = ite(band(c, e.guard), e.val, ZERO)
            for (b, lo, hi) in reversed(e.binders):
                s = tsum(b, lo, hi, s)
            return (TRUE, s, "many")
        return self.scatter(e.binders, {}, band(c, e.guard), e.val)

    def scatter(self, bs, m, g, v):
        """several iterations may store here: the last one that does wins"""
        for i in range(len(bs) - 1, -1, -1):
            b, lo, hi = bs[i]
            lo, hi = subst(lo, m), subst(hi, m)
            if i == 0:
                return (TRUE, (b, lo, hi, g, v), "scat")
            v = quant("scat", b, lo, hi, g, v, ZERO)
            g = texists(b, lo, hi, g)

    def row_of(self, b, row, f):
        """c with pos[c] <= i < pos[c+1] among the facts"""
        lo, hi, i = row
        la = atoms(lo, lambda t: t.op == "load" and occurs(b, t))
        if len(la) != 1:
            return None
        pat = list(la)[0]
        cands = []
        for p in list(f.les) + [c.a[0] for c in f.s if c.op in ("le", "lt")]:
            for a in atoms(p, lambda t: t.op == "load"):
                m = match_base(pat, a, b)
                if m is not None:
                    for c in (m, sub(m, ONE)):
                        if c not in cands:
                            cands.append(c)
        for c in cands:
            if f.implies(le(subst(lo, {b: c}), i)) and f.implies(lt(i, subst(hi, {b: c}))):
                return c
        return None

    def write(self, st, loc, val, ty, node=None, kind="set"):
        base, off, path = loc
        ln = node.get("l") if isinstance(node, dict) else None
        if st.dead:
            return
        if base.op == "ite":
            c = st.facts().simp(base.a[0])
            (x, ox), (y, oy) = ptr_parts(base.a[1]), ptr_parts(base.a[2])
            if c is TRUE or y.op == "null":
                return self.write(st, (x, add(ox, off), path), val, ty, node, kind)
            if c is FALSE or x.op == "null":
                return self.write(st, (y, add(oy, off), path), val, ty, node, kind)
            s1, s2 = st.clone(), st.clone()
            s1.pc = band(st.pc, c)
            s2.pc = band(st.pc, bnot(c))
            self.write(s1, (x, add(ox, off), path), val, ty, node, kind)
            self.write(s2, (y, add(oy, off), path), val, ty, node, kind)
            self.merge(st, c, s1, s2)
            return
        if base.op == "unk":
            self.unknowns.append(("store through unknown pointer", ln, ""))
            st.lifted = st.lifted
            self.wild = True
            return
        if is_bool(val) and ty in ("d", "i"):
            val = b2i(val)
        c = self.handed(base)
        if c is not None:
            v = self.read(st, loc, ty) if kind == "add" else val
            self.trace(st, "store", next((x for x in (v, val, off) if x.op == "unk"), None) or mk("app", "call:store" + "".join("." + x for x in path) + kind, base, off, val))
        k = self.envkey(loc)
        if k is not None:
            if kind == "add":
                old = st.env.get(k)
                if old is None:
                    old = self.read(st, loc, ty)
                val = add(old, val)
            st.env[k] = val
            return
        e = Entry(self.nseq(), kind, off, val, (), st.pc, ty, ln)
        st.logs[(base, path)] = st.logs.get((base, path), ()) + (e,)

    wild = False
    lift_bad = False

    def handed(self, base):
        """an opaque call on an object others can see, whose result leads to this memory"""
        b = base
        while b.op in ("arr", "vec", "sub", "load", "ptr"):
            b = b.a[0]
        if b.op == "app" and str(b.a[0]).startswith("call:") and any(isinstance(x, T) and isptrish(x) and self.outside(x) for x in b.a[1:2]):
            return b
        return None

    def fill(self, st, base, lo, hi, fval, ty, node=None, path=()):
        """for k in [lo,hi): base[k] = fval(k)"""
        b = mk("sym", "%%k%d" % TM._fresh(), "i")
        for x in (base, lo, hi):
            if x.op == "unk":
                return self.havoc_base(st, base, self.unk("fill"))
        nl, nh = ival(lo), ival(hi)
        ln = node.get("l") if isinstance(node, dict) else None
        if base.op == "ite":
            c = base.a[0]
            s1, s2 = st.clone(), st.clone()
            s1.pc = band(st.pc, c)
            s2.pc = band(st.pc, bnot(c))
            for s, p in ((s1, base.a[1]), (s2, base.a[2])):
                x, o = ptr_parts(p)
                if x.op != "null":
                    self.fill(s, x, add(o, lo), add(o, hi), lambda i, o=o: fval(sub(i, o)), ty, node, path)
            self.merge(st, c, s1, s2)
            return
        if nl is not None and nh is not None and nh - nl <= 16:
            vals = [fval(num(i)) for i in range(nl, nh)]
            for i, v in zip(range(nl, nh), vals):
                self.write(st, (base, num(i), path), v, ty, node)
            return
        v = self.under(st, (le(lo, b), lt(b, hi)), fval, b)
        e = Entry(self.nseq(), "set", b, v, ((b, lo, hi),), st.pc, ty, ln)
        st.logs[(base, path)] = st.logs.get((base, path), ()) + (e,)

    xfacts = ()

    def tsumf(self, j, lo, hi, f):
        return tsum(j, lo, hi, self.under(None, (le(lo, j), lt(j, hi)), lambda x: f(), None))

    def under(self, st, facts, fval, b):
        """fval(b) with the range of b known"""
        old = self.xfacts
        self.xfacts = tuple(old) + tuple(facts)
        try:
            return fval(b)
        finally:
            self.xfacts = old

    def havoc_base(self, st, base, tag, off=ZERO):
        for k in list(st.env):
            if k[0] is not base and nested(k[0], base) and off is ZERO:
                old = st.env[k]
                ty = "i" if is_int(old) else "p" if isptrish(old) else "d"
                st.env[k] = tag if tag.op == "unk" else mk("load", renest(k[0], base, tag), k[1], ZERO, ty)
        if base.op == "sub":
            b, o, p = base.a
            for k in list(st.env):
                if k[0] is b and o is ZERO and off is ZERO and k[1][:len(p)] == p and len(k[1]) > len(p):
                    old = st.env[k]
                    ty = "i" if is_int(old) else "p" if isptrish(old) else "d"
                    st.env[k] = tag if tag.op == "unk" else mk("load", tag, k[1][len(p):], ZERO, ty)
        if base.op == "ite":
            for p in base.a[1:]:
                x, o = ptr_parts(p)
                if x.op != "null":
                    self.havoc_base(st, x, tag, add(off, o))
            return
        for k in list(st.env):
            if k[0] is base:
                old = st.env[k]
                ty = "i" if is_int(old) else "p" if isptrish(old) else "d"
                nv = tag if tag.op == "unk" else mk("load", tag, k[1], ZERO, ty)
                st.env[k] = ite(st.pc, nv, old) if False else nv
        e = Entry(self.nseq(), "hav", off, tag, (), st.pc, None, None)
        st.hav[base] = st.hav.get(base, ()) + (e,)

    # ------------------------------------------------------------ merging
    def merge(self, st, c, s1, s2):
        """st <- merge of the two successors of condition c"""
        pc0 = st.pc
        asm0 = st.asm
        d1, d2 = s1.dead, s2.dead
        # logs: common prefix + both extensions (guards are disjoint)
        logs = dict(st.logs)
        for k in set(s1.logs) | set(s2.logs):
            b = st.logs.get(k, ())
            x = s1.logs.get(k, ())[len(b):]
            y = s2.logs.get(k, ())[len(b):]
            if x or y:
                logs[k] = b + tuple(sorted(x + y, key=lambda e: e.seq))
        hav = dict(st.hav)
        for k in set(s1.hav) | set(s2.hav):
            b = st.hav.get(k, ())
            x = s1.hav.get(k, ())[len(b):]
            y = s2.hav.get(k, ())[len(b):]
            if x or y:
                hav[k] = b + tuple(sorted(x + y, key=lambda e: e.seq))
        lifted = st.lifted + s1.lifted[len(st.lifted):] + s2.lifted[len(st.lifted):]
        if d1 and d2:
            st.dead = d1 if d1 == d2 else "mix"
            st.logs, st.hav, st.lifted = logs, hav, lifted
            st.env = s2.env
            return
        if d1 or d2:
            live, cond = (s2, bnot(c)) if d1 else (s1, c)
            dd = d1 or d2
            st.env = live.env
            st.pc = live.pc
            st.asm = live.asm
            if dd == "thr":
                if live.pc is band(pc0, cond):
                    st.pc = pc0
                st.asm = live.asm.plus(cond)
            st.logs, st.hav, st.lifted = logs, hav, lifted
            return
        env = {}
        e1, e2 = s1.env, s2.env
        for k in set(e1) | set(e2):
            v1, v2 = e1.get(k), e2.get(k)
            if v1 is v2:
                env[k] = v1
                continue
            if v1 is None:
                v1 = self.default_env(st, k, v2)
            if v2 is None:
                v2 = self.default_env(st, k, v1)
            if v1 is None or v2 is None:
                continue
            env[k] = self.vmerge(c, v1, v2)
        st.env = env
        if s1.pc is band(pc0, c) and s2.pc is band(pc0, bnot(c)):
            st.pc = pc0
        else:
            st.pc = bor(s1.pc, s2.pc)
        st.asm = Facts(s1.asm.s & s2.asm.s, tuple(p for p in s1.asm.les if p in s2.asm.les))
        st.logs, st.hav, st.lifted = logs, hav, lifted

    def default_env(self, st, k, other):
        base, path = k
        if base.op == "lv":
            if self.copies.get(base) is None and not path:
                return None
        ty = self.path_ty(k) or ("i" if is_int(other) or is_bool(other) else "p" if isptrish(other) else "d")
        return self.query(st, base, path, ZERO, ty)

    def vmerge(self, c, a, b):
        if a.op == "unk" or b.op == "unk":
            if a is b:
                return a
        if is_bool(a) != is_bool(b):
            a, b = b2i(a), b2i(b)
        return ite(c, a, b)

    # ------------------------------------------------------------ expressions
    def rv(self, n, st):
        """value of an expression"""
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        if n is None:
            return self.unk("null expr")
        k = n["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            return self.unk("expr " + k, n)
        v = m(n, st)
        return v

    def val_of_loc(self, n, st):
        loc = self.lv(n, st)
        if loc is None:
            return self.unk("lvalue", n)
        return self.read(st, loc, self.kind(self.ty(n)))

    def x_int(self, n, st):
        return num(n["cv"]) if "cv" in n else self.unk("int", n)

    def x_flt(self, n, st):
        s = n.get("s", "")
        try:
            s2 = s.rstrip("fFlL")
            return num(Fr(s2))
        except Exception:
            try:
                return num(Fr(n["v"]))
            except Exception:
                return self.unk("float", n)

    def x_str(self, n, st):
        return mk("str", n.get("v", ""))

    def x_null(self, n, st):
        return NULL

    def x_zero(self, n, st):
        k = self.kind(self.ty(n))
        return NULL if k == "p" else ZERO if k in "di" else self.temp_object(n, st, zero=True)

    def x_this(self, n, st):
        return self.fr.this if self.fr.this is not None else self.unk("this", n)

    def x_ref(self, n, st):
        if "cv" in n and n.get("dk") in ("enum", "global"):
            return num(n["cv"])
        if n.get("dk") == "func":
            return mk("glob", n["q"])
        return self.val_of_loc(n, st)

    def x_mem(self, n, st):
        return self.val_of_loc(n, st)

    def x_idx(self, n, st):
        return self.val_of_loc(n, st)

    def x_sizeof(self, n, st):
        return num(n["cv"]) if "cv" in n else self.unk("sizeof", n)

    def x_cast(self, n, st):
        ck = n.get("ck")
        v = self.rv(n["e"], st)
        if ck == "2b":
            return tob(v)
        if ck == "f2i":
            if is_bool(v):
                return v
            if v.op == "num":
                q = v.a[0]
                return num(int(q))
            if is_int(v):
                return v
            return app("i:trunc", v)
        if ck == "i2i" and n.get("x") and self.ty(n) == "bool":
            return tob(v)
        if ck == "void":
            return ZERO
        return v

    def x_cond(self, n, st):
        c = st.facts().simp(tob(self.rv(n["c"], st)))
        if c is TRUE:
            return self.rv(n["a"], st)
        if c is FALSE:
            return self.rv(n["b"], st)
        s1, s2 = st.clone(), st.clone()
        s1.pc, s2.pc = band(st.pc, c), band(st.pc, bnot(c))
        a = self.rv(n["a"], s1)
        b = self.rv(n["b"], s2)
        self.merge(st, c, s1, s2)
        if s1.dead:
            return b
        if s2.dead:
            return a
        return self.vmerge(c, a, b)

    def x_un(self, n, st):
        op = n["op"]
        if op == "*":
            return self.val_of_loc(n, st)
        if op == "&":
            e = n["e"]
            if e["k"] == "ref" and e.get("dk") == "func":
                return mk("glob", e["q"])
            loc = self.lv(e, st)
            if loc is None:
                return self.unk("addrof", n)
            if self.kind(self.ty(e)) == "arr":
                return self.decay(loc)
            return self.addr(loc)
        if op in ("++", "--", "p++", "p--"):
            loc = self.lv(n["e"], st)
            if loc is None:
                return self.unk("incr", n)
            ty = self.kind(self.ty(n["e"]))
            old = self.read(st, loc, ty)
            one = ONE if "+" in op else num(-1)
            if ty == "p":
                new = padd(old, one)
                self.write(st, loc, new, ty, n)
            else:
                new = add(old, one)
                if self.envkey(loc) is None:
                    self.write(st, loc, one, ty, n, "add")
                else:
                    self.write(st, loc, new, ty, n)
            return old if op[0] == "p" else new
        v = self.rv(n["e"], st)
        if op == "-":
            return neg(b2i(v))
        if op == "!":
            return bnot(tob(v))
        if op == "~":
            if "unsigned" not in self.ty(n) and "size_t" not in self.ty(n):
                return sub(num(-1), b2i(v))     # two's complement
            return app("i:compl", v)
        return self.unk("unary " + op, n)

    def arith(self, op, a, b, isint, n):
        a, b = b2i(a), b2i(b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            return idiv(a, b) if isint else div(a, b)
        if op == "%":
            return imod(a, b)
        x, y = ival(a), ival(b)
        if op == "<<" and y is not None:
            return mul(a, num(2 ** y))
        if op == ">>" and x is not None and y is not None:
            return num(x >> y)
        if op in ("&", "|", "^") and x is not None and y is not None:
            return num({"&": x & y, "|": x | y, "^": x ^ y}[op])
        if op == "^" and truth(a) and truth(b):
            p, q = tob(a), tob(b)
            return b2i(bor(band(p, bnot(q)), band(bnot(p), q)))
        if op == "&" and truth(a) and truth(b):
            p, q = tob(a), tob(b)
            return b2i(band(p, q))
        if op == "|" and truth(a) and truth(b):
            return b2i(bor(tob(a), tob(b)))
        return app("i:" + op, a, b)

    def x_bin(self, n, st):
        op = n["op"]
        if op == ",":
            self.rv(n["a"], st)
            return self.rv(n["b"], st)
        if op in ("&&", "||"):
            a = st.facts().simp(tob(self.rv(n["a"], st)))
            if op == "&&":
                if a is FALSE:
                    return FALSE
                if a is TRUE:
                    return tob(self.rv(n["b"], st))
                s1, s2 = st.clone(), st.clone()
                s1.pc, s2.pc = band(st.pc, a), band(st.pc, bnot(a))
                b = tob(self.rv(n["b"], s1))
                self.merge(st, a, s1, s2)
                return band(a, b)
            if a is TRUE:
                return TRUE
            if a is FALSE:
                return tob(self.rv(n["b"], st))
            s1, s2 = st.clone(), st.clone()
            s1.pc, s2.pc = band(st.pc, a), band(st.pc, bnot(a))
            b = tob(self.rv(n["b"], s2))
            self.merge(st, a, s1, s2)
            return bor(a, b)
        if "cv" in n and n["cv"] is not None:
            return num(n["cv"])
        a = self.rv(n["a"], st)
        b = self.rv(n["b"], st)
        ka, kb = self.kind(self.ty(n["a"])), self.kind(self.ty(n["b"]))
        pa, pb = ka in ("p", "arr"), kb in ("p", "arr")
        if op in ("+", "-") and (pa or pb):
            if pa and pb:
                x, ox = ptr_parts(a)
                y, oy = ptr_parts(b)
                if x is y:
                    return sub(ox, oy)
                for u, w, flip in ((a, b, False), (b, a, True)):
                    if u.op == "ite":
                        one = lambda z: (lambda zb, zo: (sub(zo, ptr_parts(w)[1]) if not flip else sub(ptr_parts(w)[1], zo)) if zb is ptr_parts(w)[0]
                                         else app("i:pdiff", *((z, w) if not flip else (w, z))))(*ptr_parts(z))
                        return ite(u.a[0], one(u.a[1]), one(u.a[2]))
                return app("i:pdiff", a, b)
            if pa:
                return padd(a, b2i(b) if op == "+" else neg(b2i(b)))
            return padd(b, b2i(a))
        if op in ("==", "!="):
            if pa or pb:
                if a.op == "num" and a.a[0] == 0:
                    a = NULL
                if b.op == "num" and b.a[0] == 0:
                    b = NULL
                r = peq(a, b)
            elif is_bool(a) and is_bool(b):
                r = bor(band(a, b), band(bnot(a), bnot(b)))
            else:
                r = eq(b2i(a), b2i(b))
            return r if op == "==" else bnot(r)
        if op in ("<", "<=", ">", ">="):
            if pa and pb:
                x, ox = ptr_parts(a)
                y, oy = ptr_parts(b)
                if x is not y:
                    return mk("bapp", "pcmp" + op, a, b)
                a, b = ox, oy
            a, b = b2i(a), b2i(b)
            if op == "<":
                return lt(a, b)
            if op == "<=":
                return le(a, b)
            if op == ">":
                return lt(b, a)
            return le(b, a)
        return self.arith(op, a, b, ka == "i" and kb == "i", n)

    def same_loc_expr(self, n, loc, st):
        while n["k"] == "cast" and n.get("ck") in ("i2f", "f2f", "i2i"):
            n = n["e"]
        if n["k"] not in ("ref", "mem", "idx", "un"):
            if not (n["k"] == "call" and n.get("oper") in ("[]", "*")):
                return False
        if n["k"] == "un" and n["op"] != "*" or sidefx(n):
            return False
        if n["k"] == "ref" and n.get("dk") == "enum":
            return False
        try:
            l = self.lv(n, st)
        except RecursionError:
            return False
        return l is not None and l[0] is loc[0] and l[1] is loc[1] and l[2] == loc[2]

    def x_asg(self, n, st):
        op = n["op"]
        kt = self.kind(self.ty(n["a"]))
        if kt == "o":
            loc = self.lv(n["a"], st)
            v = self.rv(n["b"], st)
            if loc is not None:
                self.copy_object(st, loc, v, self.ty(n["a"]), n)
            return self.addr(loc) if loc else self.unk("asg", n)
        if op == "=":
            b = n["b"]
            loc = None
            if kt in "di" and b["k"] == "bin" and b["op"] in ("+", "-") and not sidefx(n["a"]):
                loc = self.lv(n["a"], st)
                if loc is not None and self.envkey(loc) is None:
                    if self.same_loc_expr(b["a"], loc, st):
                        d = b2i(self.rv(b["b"], st))
                        self.write(st, loc, d if b["op"] == "+" else neg(d), kt, n, "add")
                        return self.unk("value of assignment", n)
                    if b["op"] == "+" and self.same_loc_expr(b["b"], loc, st):
                        d = b2i(self.rv(b["a"], st))
                        self.write(st, loc, d, kt, n, "add")
                        return self.unk("value of assignment", n)
            v = self.rv(b, st)
            loc = self.lv(n["a"], st)
            if loc is None:
                return self.unk("store", n)
            if kt == "p" and v.op == "num" and v.a[0] == 0:
                v = NULL
            self.write(st, loc, v, kt, n)
            return v
        o = op[:-1]
        v = self.rv(n["b"], st)
        loc = self.lv(n["a"], st)
        if loc is None:
            return self.unk("store", n)
        if kt == "p":
            old = self.read(st, loc, kt)
            new = padd(old, b2i(v) if o == "+" else neg(b2i(v)))
            self.write(st, loc, new, kt, n)
            return new
        v = b2i(v)
        if o in ("+", "-") and self.envkey(loc) is None:
            self.write(st, loc, v if o == "+" else neg(v), kt, n, "add")
            return self.unk("value of compound assignment", n)
        old = b2i(self.read(st, loc, kt))
        ib = self.kind(self.ty(n["b"])) == "i"
        new = self.arith(o, old, v, kt == "i" and ib, n)
        if kt == "i" and not ib and not is_int(new) and new.op != "unk":
            new = app("i:trunc", new)
        self.write(st, loc, new, kt, n)
        return new

    def x_stmtexpr(self, n, st):
        b = n["s"]["b"]
        for s in b[:-1]:
            self.exec(s, st)
        if b and b[-1]["k"] == "expr":
            return self.rv(b[-1]["e"], st)
        if b:
            self.exec(b[-1], st)
        return ZERO

    def x_throw(self, n, st):
        self.do_throw(st, n)
        return ZERO

    def do_throw(self, st, n):
        if not st.dead:
            self.throws.append((st.pc, tuple(self.binders), n.get("l"), self.fr.fn, "throw" if n.get("k") == "throw" else "abort"))
            st.dead = "thr"

    def x_init(self, n, st):
        k = self.kind(self.ty(n))
        if k in "dip" and len(n["args"]) == 1:
            return self.rv(n["args"][0], st)
        return self.temp_object(n, st)

    def temp_object(self, n, st, zero=False):
        self.nf += 1
        base = mk("lv", "tmp%d" % self.nf, "temporary")
        if zero:
            self.zeroed.add(base)
            return base
        self.init_object(st, (base, ZERO, ()), n, self.ty(n))
        return base

    zeroed = set()

    def x_new(self, n, st):
        self.nf += 1
        a = mk("alloc", self.nf, n.get("l"))
        if n.get("array") and n.get("n") is not None:
            self.asize[a] = b2i(self.rv(n["n"], st))
        elif n.get("init"):
            k = self.kind(self.fr.T[n["of"]])
            if k == "o":
                self.init_object(st, (a, ZERO, ()), n["init"], self.fr.T[n["of"]])
            else:
                self.write(st, (a, ZERO, ()), self.rv(n["init"], st), k, n)
        return a

    def x_delete(self, n, st):
        v = self.rv(n["e"], st)
        if isinstance(v, T):
            self.release(st, v, n)
        return ZERO

    def release(self, st, p, n):
        """a block is given back: visible to everybody who still holds it"""
        if p.op == "unk" and str(p.a[0]).startswith("uninitialised"):
            self.misuse(st, st.pc, "frees an uninitialised pointer", n)
        if st.dead or p.op in ("null", "num", "unk"):
            return
        if p.op == "ite":
            c = p.a[0]
            pc = st.pc
            for x, g in ((p.a[1], c), (p.a[2], bnot(c))):
                st.pc = band(pc, g)
                if st.pc is not FALSE:
                    self.release(st, x, n)
            st.pc = pc
            return
        if has_unk(p):
            return
        base, off = ptr_parts(p)
        g = band(st.pc, bnot(eq(p, NULL)))
        if g is FALSE:
            return
        ln = n.get("l")
        if base.op == "load" and base.a[0].op == "alloc":
            # the pointer itself was never written
            self.misuse(st, g, "frees an uninitialised pointer", n)
            return
        old = self.query(st, base, ("#freed",), off, "i")
        if old.op != "unk":
            old = subst(old, {mk("load", base, ("#freed",), off, "i"): ZERO})
            self.misuse(st, band(g, eq(old, ONE)), "frees a block twice", n)
        key = (base, ("#freed",))
        st.logs[key] = st.logs.get(key, ()) + (Entry(self.nseq(), "set", off, ONE, (), g, "i", ln),)

    def misuse(self, st, g, what, n):
        if g is not FALSE and not has_unk(g) and not st.dead:
            self.throws.append((g, tuple(self.binders), n.get("l"), self.fr.fn, what))

    def x_lambda(self, n, st):
        self.nf += 1
        b = mk("lv", "lam%d" % self.nf, "lambda")
        self.lams[b] = (n, self.fr)
        return b

    lams = None

    def x_ctor(self, n, st):
        k = self.kind(self.ty(n))
        if k in ("d", "i", "p") and len(n["args"]) >= 1:
            return self.rv(n["args"][0], st)
        return self.temp_object(n, st)

    def x_unk(self, n, st):
        for a in n.get("args", []):
            self.rv(a, st)
        return self.unk("expr " + n.get("cls", "?"), n)

    def x_typeid(self, n, st):
        return self.unk("typeid", n)

    x_va_arg = x_typeid

    # ------------------------------------------------------------ lvalues
    def lv(self, n, st):
        k = n["k"]
        if k == "ref":
            dk = n["dk"]
            if dk in ("local", "parm", "slocal"):
                d = n["d"]
                fr = self.fr
                if d in fr.refs:
                    p = fr.refs[d]
                    return self.loc_of(p)
                return (self.lvbase(fr, d, n["n"]), ZERO, ())
            if dk == "global":
                return (mk("glob", n["q"]), ZERO, ())
            return None
        if k == "mem":
            b = n["b"]
            if n.get("arrow"):
                p = self.rv(b, st)
                if p.op == "unk":
                    return (p, ZERO, ())
                if p.op == "ite":
                    return self.ite_loc(p, n["n"])
                return self.member(self.loc_of(p), n["n"])
            loc = self.lv_obj(b, st)
            if loc is None:
                return None
            return self.member(loc, n["n"])
        if k == "idx":
            p = self.rv(n["b"], st)
            i = b2i(self.rv(n["i"], st))
            if p.op == "unk":
                return (p, ZERO, ())
            if p.op == "num" or (p.op not in ("ptr",) and self.kind(self.ty(n["b"])) == "i"):
                p, i = i, p
            q = padd(p, i)
            if q.op == "unk":
                return (q, ZERO, ())
            if q.op == "ite":
                return (q, ZERO, ())
            b, off = ptr_parts(q)
            if b.op == "sub" and off is not ZERO:
                return (b, off, ())
            if b.op == "sub":
                return (b.a[0], b.a[1], b.a[2])
            return (b, off, ())
        if k == "un" and n["op"] == "*":
            p = self.rv(n["e"], st)
            if p.op == "unk":
                return (p, ZERO, ())
            return self.loc_of(p)
        if k == "un" and n["op"] in ("++", "--"):
            self.rv(n, st)
            return self.lv(n["e"], st)
        if k == "asg":
            self.rv(n, st)
            return self.lv(n["a"], st)
        if k == "cast":
            return self.lv(n["e"], st)
        if k == "call":
            v = self.rv_call(n, st, want_lv=True)
            if isinstance(v, tuple):
                return v
            if v is None:
                return None
            if self.kind(self.ty(n)) in ("o", "arr"):
                return self.loc_of(v)
            # prvalue bound to a reference: materialise
            return self.temp_scalar(st, v, self.kind(self.ty(n)))
        if k == "cond":
            c = st.facts().simp(tob(self.rv(n["c"], st)))
            if c is TRUE:
                return self.lv(n["a"], st)
            if c is FALSE:
                return self.lv(n["b"], st)
            a, b = self.lv(n["a"], st), self.lv(n["b"], st)
            if a is None or b is None:
                return None
            if a == b:
                return a
            return (ite(c, self.addr(a), self.addr(b)), ZERO, ())
        if k == "bin" and n["op"] == ",":
            self.rv(n["a"], st)
            return self.lv(n["b"], st)
        if self.kind(self.ty(n)) in ("o",):
            v = self.rv(n, st)
            if v.op == "unk":
                return (v, ZERO, ())
            return self.loc_of(v)
        if k in ("str",):
            return (mk("str", n.get("v", "")), ZERO, ())
        return self.temp_scalar(st, self.rv(n, st), self.kind(self.ty(n)))

    def ite_loc(self, p, name):
        if p.op == "ite":
            a = self.ite_loc(p.a[1], name)
            b = self.ite_loc(p.a[2], name)
            return (ite(p.a[0], self.addr(a), self.addr(b)), ZERO, ())
        if p.op == "unk":
            return (p, ZERO, ())
        return self.member(self.loc_of(p), name)

    def temp_scalar(self, st, v, kind):
        self.nf += 1
        b = mk("lv", "t%d" % self.nf, "tmp")
        st.env[(b, ())] = v
        return (b, ZERO, ())

    def lv_obj(self, n, st):
        """location of an object-valued expression"""
        loc = self.lv(n, st)
        return loc

    def lvbase(self, fr, d, name):
        return mk("lv", "f%d_%d" % (fr.id, d), name)

    # ------------------------------------------------------------ objects
    def vec(self, addr):
        return mk("vec", addr)

    def vsize(self, st, addr):
        if addr.op == "ite":
            return ite(addr.a[0], self.vsize(st, addr.a[1]), self.vsize(st, addr.a[2]))
        k = (self.vec(addr), ("#size",))
        v = st.env.get(k)
        if v is None:
            c = self.copies.get(addr)
            if c is not None:
                v = self.vsize(c[1], self.addr(c[0]))
            else:
                v = self.query(st, k[0], k[1], ZERO, "i")
                if v.op == "load" and addr.op == "lv":
                    v = self.unk("size")
            st.env[k] = v
        return v

    def set_vsize(self, st, addr, v):
        st.env[(self.vec(addr), ("#size",))] = v

    def copy_object(self, st, loc, src, tys, n):
        """*loc = *src for class types"""
        dst = self.addr(loc)
        if src.op == "unk":
            self.havoc_base(st, dst, src)
            self.havoc_base(st, self.vec(dst), src)
            return
        if src is dst:
            return
        t = ctype(tys)
        if is_vec(t):
            self.vec_copy(st, dst, src, t, n)
            return
        sl = self.loc_of(src)
        rec = self.P.records.get(t) or self.P.records.get(strip_cv(t))
        if rec is None:
            if loc[0].op == "lv" and not loc[2]:
                lit = self.literal(st, src) if "basic_string" in t else None
                self.clear_local(st, loc[0])
                self.copies[loc[0]] = (sl, self.snap(st))
                if lit is not None:
                    self.copies.pop(loc[0])
                    st.env[(loc[0], ("#str",))] = lit
                return
            self.havoc_base(st, dst, self.callterm("copyof", [src], st))
            return
        for r in self.all_fields(rec):
            fl, ft = r
            k = self.kind(ft)
            if k == "o":
                self.copy_object(st, self.member(loc, fl), self.addr(self.member(sl, fl)), ft, n)
            elif k == "arr":
                m = re.search(r"\[(\d+)\]", ft)
                cnt = num(int(m.group(1))) if m else self.unk("arr")
                sb, db = self.decay(self.member(sl, fl)), self.decay(self.member(loc, fl))
                ek = self.kind(deref_ty(ft))
                self.fill(st, db, ZERO, cnt, lambda i: self.query(st, sb, (), i, ek), ek, n)
            else:
                self.write(st, self.member(loc, fl), self.read(st, self.member(sl, fl), k), k, n)

    def all_fields(self, rec):
        out = []
        for b in rec.get("bases", []):
            br = self.P.records.get(b.get("q")) or self.P.records.get(b["t"])
            if br:
                out += self.all_fields(br)
        return out + [(f["n"], f["t"]) for f in rec["fields"]]

    def clear_local(self, st, base):
        for k in list(st.env):
            if k[0] is base or (k[0].op == "vec" and k[0].a[0] is base):
                del st.env[k]
        for k in list(st.logs):
            if k[0] is base or (k[0].op in ("vec",) and k[0].a[0] is base):
                del st.logs[k]

    def snap(self, st):
        s = st.clone()
        s.dead = None
        return s

    def vec_copy(self, st, dst, src, t, n):
        ek = self.kind(vec_elem(t))
        sz = self.vsize(st, src)
        if is_map(t):
            sb, db = self.vec(src), self.vec(dst)
            for path, k in self.mapcells(t):
                self.fill(st, db, ZERO, num(SLOTS), lambda i: self.query(st, sb, path, i, k), k, n, path)
            if len(targs(ctype(t))) > 1 and self.kind(targs(ctype(t))[1]) == "o" and t.startswith("std::map<"):
                self.havoc_base(st, db, self.callterm("copyof", [src], st))
                self.fill(st, db, ZERO, num(SLOTS), lambda i: self.query(st, sb, ("!has",), i, "i"), "i", n, ("!has",))
            self.set_vsize(st, dst, sz)
            return
        if ek == "o":
            self.havoc_base(st, self.vec(dst), self.callterm("copyof", [src], st))
        else:
            sb = self.vec(src)
            self.fill(st, self.vec(dst), ZERO, sz, lambda i: self.query(st, sb, (), i, ek), ek, n)
        self.set_vsize(st, dst, sz)

    def init_object(self, st, loc, n, tys):
        """initialise the object at loc from an initialiser expression"""
        t = ctype(tys)
        k = n["k"]
        dst = self.addr(loc)
        if k == "cast" and self.kind(self.ty(n)) == "o":
            n = n["e"]
            k = n["k"]
        if k == "init":
            rec = self.P.records.get(t)
            ek = self.kind(t)
            if ek == "arr":
                et = deref_ty(t)
                kk = self.kind(et)
                b = self.decay(loc)
                for i, a in enumerate(n["args"]):
                    if kk == "o":
                        self.init_object(st, (b, num(i), ()), a, et)
                    elif kk == "arr":
                        self.init_object(st, (b, num(i), ()), a, et)
                    else:
                        self.write(st, (b, num(i), ()), self.rv(a, st), kk, n)
                m = re.search(r"\[(\d+)\]", t)
                if m and kk in "dip":
                    for i in range(len(n["args"]), min(int(m.group(1)), 64)):
                        self.write(st, (b, num(i), ()), NULL if kk == "p" else ZERO, kk, n)
                return
            if is_vec(t) and "array<" in t[:20]:
                # std::array: its only member holds the elements
                el = n["args"]
                if len(el) == 1 and el[0]["k"] in ("init", "zero"):
                    el = el[0].get("args", [])
                m = re.search(r",\s*(\d+)", t)
                cnt = int(m.group(1)) if m else len(el)
                kk = self.kind(vec_elem(t))
                for i in range(min(cnt, 64)):
                    at = (self.vec(dst), num(i), ())
                    if i < len(el):
                        if kk in "dip":
                            self.write(st, at, self.rv(el[i], st), kk, n)
                        else:
                            self.init_object(st, at, el[i], vec_elem(t))
                    elif kk in "dip":
                        self.write(st, at, NULL if kk == "p" else ZERO, kk, n)
                return
            for fn, a in zip(n.get("fields", []), n["args"]):
                f = self.member(loc, fn)
                kk = self.kind(self.ty(a))
                if kk in ("o", "arr"):
                    self.init_object(st, f, a, self.ty(a))
                else:
                    self.write(st, f, self.rv(a, st), kk, n)
            if not n.get("fields") and is_vec(t):
                self.havoc_base(st, self.vec(dst), self.unk("init list"))
                self.set_vsize(st, dst, num(len(n["args"])))
            return
        if k == "ctor":
            return self.construct(st, loc, n, t)
        if k == "zero":
            if is_vec(t):
                self.set_vsize(st, dst, ZERO)
            elif loc[0].op == "lv":
                self.zeroed.add(loc[0])
            return
        if k == "str":
            return
        v = self.rv(n, st)
        if isinstance(v, tuple):
            v = self.addr(v)
        self.copy_object(st, loc, v, t, n)

    def construct(self, st, loc, n, t):
        f = n.get("f", {})
        dst = self.addr(loc)
        args = n["args"]
        if is_vec(t):
            return self.vec_ctor(st, dst, args, t, n)
        if is_stream(t):
            return self.stream_ctor(st, loc, n, t)
        if "iterator_range<" in t and len(args) == 2:
            a, b = self.rv(args[0], st), self.rv(args[1], st)
            st.env[(dst, ("#b",))] = a
            st.env[(dst, ("#e",))] = b
            return
        if t.startswith("std::pair<") and len(args) == 2:
            for nm, a in (("first", args[0]), ("second", args[1])):
                kk = self.kind(self.ty(a))
                if kk in "dip":
                    self.write(st, self.member(loc, nm), self.rv(a, st), kk, n)
                else:
                    self.init_object(st, self.member(loc, nm), a, self.ty(a))
            return
        if re.match(r"(std|std::tr1|boost)::(shared|scoped|unique)_ptr<", t) and len(args) <= 1:
            v = self.rv(args[0], st) if args else NULL
            if isinstance(v, tuple):
                v = self.addr(v)
            if args and self.kind(self.ty(args[0])) == "o" and v.op != "unk":
                v = self.read(st, self.member(self.loc_of(v), "#ptr"), "p")
            return self.write(st, self.member(loc, "#ptr"), v, "p", n)
        if n.get("cctor") and args:
            v = self.rv(args[0], st)
            self.copy_object(st, loc, v, t, n)
            return
        fn = self.P.fn_by_usr(f.get("u", ""))
        if fn is None or self.skip_inline(fn):
            av = [self.rv(a, st) if self.kind(self.ty(a)) != "o" else self.arg_obj(a, st) for a in args]
            self.calls.append(CallRec(f.get("q", ""), tuple(av), dst, st.pc, tuple(self.binders), n.get("l"), self.fr.fn, self.nseq(), n))
            rec = self.P.records.get(t)
            if rec is not None and not args:
                for fl, ft in self.all_fields(rec):
                    if is_vec(ctype(ft)):
                        self.set_vsize(st, self.addr(self.member(loc, fl)), ZERO)
                return
            if rec is None and "basic_string" in t:
                use = [(a, x) for a, x in zip(args, av) if "allocator" not in ctype(self.ty(a)) and a.get("k") != "DefArg"]
                if not use:
                    st.env[(dst, ("#str",))] = mk("str", "")
                elif len(use) == 1 and "basic_string" in ctype(self.ty(use[0][0])) and isptrish(use[0][1]):
                    self.copy_object(st, loc, use[0][1], t, n)
                elif len(use) == 1 and not isinstance(use[0][1], tuple):
                    st.env[(dst, ("#str",))] = use[0][1]
                else:
                    self.havoc_base(st, dst, self.callterm(f.get("q", "?"), [x for _, x in use], st))
                return
            if args:
                tag = self.callterm(f.get("q", "?"), av, st)
                self.havoc_base(st, dst, tag)
            return
        av = self.eval_args(fn, args, st)
        self.inline(fn, dst, av, st, n, ctor_loc=loc)

    def vec_ctor(self, st, dst, args, t, n):
        ek = self.kind(vec_elem(t))
        args = [a for a in args if not (a["k"] == "ctor" and "allocator" in self.ty(a))]
        vb = self.vec(dst)
        if is_map(t) and (not args or self.kind(self.ty(args[0])) != "o" or ctype(self.ty(args[0]).rstrip("& ")) != ctype(t)):
            for a in args:
                self.rv(a, st)
            if len(args) > 1:
                self.havoc_base(st, vb, self.unk("map ctor"))
                self.set_vsize(st, dst, self.unk("map ctor"))
                return
            return self.map_clear(st, dst, n)
        if not args:
            if "array<" in t[:20]:
                return
            self.set_vsize(st, dst, ZERO)
            return
        k0 = self.kind(self.ty(args[0]))
        if len(args) == 2 and self.reverse_range(st, dst, args, ek, n):
            return
        if len(args) == 1 and k0 == "o":
            return self.copy_object(st, (dst, ZERO, ()) if dst.op != "sub" else (dst.a[0], dst.a[1], dst.a[2]), self.rv(args[0], st), t, n)
        if k0 in ("i", "d"):
            sz = b2i(self.rv(args[0], st))
            if ek == "o":
                if len(args) == 2:
                    v = self.rv(args[1], st)
                    self.fill_objects(st, vb, sz, v, vec_elem(t), n)
                else:
                    self.zero_objects(st, vb, sz, vec_elem(t), n)
                self.set_vsize(st, dst, sz)
                return
            v = self.rv(args[1], st) if len(args) > 1 else (NULL if ek == "p" else ZERO)
            self.fill(st, vb, ZERO, sz, lambda i: v, ek, n)
            self.set_vsize(st, dst, sz)
            return
        if len(args) >= 2:
            a, b = self.rv(args[0], st), self.rv(args[1], st)
            self.vec_assign_range(st, dst, a, b, ek, n)
            return
        self.set_vsize(st, dst, self.unk("vector ctor", n))

    def fill_objects(self, st, vb, sz, v, et, n):
        if is_vec(et) and v.op != "unk":
            ek = self.kind(vec_elem(et))
            inner = self.vsize(st, v)
            b = mk("sym", "%%k%d" % TM._fresh(), "i")
            # element i is a vector with the same size and content
            self.nested[vb] = (inner, v, self.snap(st))
            return
        self.havoc_base(st, vb, mk("app", "fillof", v) if v.op != "unk" else v)

    nested = {}

    def zero_objects(self, st, vb, sz, et, n):
        return

    def reverse_range(self, st, dst, args, ek, n):
        """assignment from v.rbegin(), v.rend()"""
        if "reverse_iterator<" not in self.ty(args[0]):
            return False

        def src(a, name):
            while a.get("k") in ("ctor", "cast", "copy") and len(a.get("args", ())) == 1:
                a = a["args"][0]
            if a.get("k") == "call" and (a.get("f") or {}).get("q", "").split("::")[-1] in (name, "c" + name) and a.get("obj") is not None:
                l = self.lv(a["obj"], st) if not a.get("arrow") else None
                return self.addr(l) if l is not None else None
            return None
        x, y = src(args[0], "rbegin"), src(args[1], "rend")
        if x is None or x is not y or x.op in ("unk", "ite") or ek not in ("d", "i", "p"):
            u = self.unk("range", n)
            self.havoc_base(st, self.vec(dst), u)
            self.set_vsize(st, dst, u)
            return True
        sz = self.vsize(st, x)
        s0 = self.snap(st)
        self.fill(st, self.vec(dst), ZERO, sz, lambda i: self.query(s0, self.vec(x), (), sub(sz, add(i, ONE)), ek), ek, n)
        self.set_vsize(st, dst, sz)
        return True

    def vec_assign_range(self, st, dst, a, b, ek, n):
        if isinstance(a, tuple) or isinstance(b, tuple) or a is None or b is None:
            a = b = self.unk("range", n)
        x, ox = ptr_parts(a)
        y, oy = ptr_parts(b)
        if x is not y or x.op == "unk":
            u = self.unk("range", n)
            self.havoc_base(st, self.vec(dst), u)
            self.set_vsize(st, dst, u)
            return
        sz = sub(oy, ox)
        s0 = self.snap(st)
        self.fill(st, self.vec(dst), ZERO, sz, lambda i: self.query(s0, x, (), add(ox, i), ek), ek, n)
        self.set_vsize(st, dst, sz)

    # ------------------------------------------------------------ calls
    def x_call(self, n, st):
        v = self.rv_call(n, st)
        if isinstance(v, tuple):
            return self.read(st, v, self.kind(self.ty(n)))
        if v is None:
            return ZERO
        return v

    def arg_obj(self, a, st):
        v = self.rv(a, st)
        return v

    def rv_call(self, n, st, want_lv=False):
        """returns a value term, a location tuple (reference results), or None (void)"""
        f = n.get("f")
        if f is None:
            fe = n.get("fe")
            if fe is not None:
                self.rv(fe, st)
            for a in n.get("args", []):
                self.rv(a, st)
            return self.unk("indirect call", n)
        q = strip_targs(f["q"])
        r = self.model(q, f, n, st)
        if r is not NotImplemented:
            return r
        if q in ("std::operator&", "std::operator|", "std::operator^") and len(n["args"]) == 2 and all(self.kind(self.ty(a)) == "i" for a in n["args"]):
            return self.arith(q[-1], self.rv(n["args"][0], st), self.rv(n["args"][1], st), True, n)
        fn = self.P.fn_by_usr(f["u"])
        obj = None
        if "obj" in n:
            o = n["obj"]
            if n.get("arrow"):
                obj = self.rv(o, st)
            else:
                l = self.lv(o, st)
                obj = self.addr(l) if l is not None else self.unk("object", n)
        if f.get("virt") and not n.get("qualified"):
            fn = self.devirtualise(fn, f)
        if fn is None and obj is not None and q.endswith("::operator=") and len(n["args"]) == 1 and obj.op not in ("unk", "ite"):
            t = self.memberwise(f["u"])
            if t is not None:
                v = self.rv(n["args"][0], st)
                v = self.addr(v) if isinstance(v, tuple) else v
                self.copy_object(st, self.loc_of(obj), v, t, n)
                return self.loc_of(obj)
        if obj is not None and obj in (self.lams or {}) and f.get("op") == "()":
            return self.call_lambda(obj, n, st)
        if fn is not None and not self.skip_inline(fn):
            if obj is not None and fn.d.get("cls") == READER and self.frames[0].fn.file != fn.file and fn.n in ("has", "get", "getDefault") and self.reader(fn):
                r = self.read_parameter(fn, obj, n, st)
                if r is not None:
                    return r
            av = self.eval_args(fn, n["args"], st)
            if fn.n == "upcase" and len(av) == 1 and isinstance(av[0], tuple) and isinstance(av[0][1], T) and self.same(fn):
                # the reviewed conversion, applied to a constant
                lit = self.literal(st, av[0][1])
                if lit is not None and "basic_string" in fn.T[fn.d["ret"]]:
                    self.nf += 1
                    b = mk("lv", "tmp%d" % self.nf, "temporary")
                    st.env[(b, ("#str",))] = mk("str", lit.a[0].upper())
                    return (b, ZERO, ())
            return self.inline(fn, obj, av, st, n)
        return self.opaque_call(f, obj, n, st)

    def literal(self, st, v):
        """the text of a string object that is known to hold a constant"""
        if isinstance(v, T) and v.op == "lv":
            x = st.env.get((v, ("#str",)))
            if x is not None and x.op == "str" and isinstance(x.a[0], str):
                return x
        return None

    def same(self, fn):
        return fn.u in getattr(self.P, "same_fns", ())

    def reader(self, fn):
        return getattr(self.P, "same_readers", False)

    def read_parameter(self, fn, obj, n, st):
        """reading a named parameter, outside the parameter classes themselves: the value belongs to the name"""
        t = fn.T[fn.d["ret"]]
        k = self.kind(ctype(t)) if fn.n != "has" else "i"
        if k not in ("d", "i") or len(n["args"]) not in (1, 2) or len(n["args"]) == 2 and fn.n != "getDefault":
            return None
        key = self.eval_arg(fn.T[fn.params[0]["t"]], n["args"][0], st)[1]
        d = self.rv(n["args"][1], st) if len(n["args"]) == 2 else None
        if isinstance(d, tuple) or isinstance(key, tuple):
            return self.unk("parameter", n)
        who = self.callterm("parameter", [obj, key], st)
        if who.op == "unk":
            return who
        has = mk("load", who, ("#has",), ZERO, "i")
        self.calls.append(CallRec(fn.q, (key,), obj, st.pc, tuple(self.binders), n.get("l"), self.fr.fn, self.nseq(), n))
        if fn.n == "has":
            return bnot(eq(has, ZERO))
        v = mk("load", who, ("#" + ctype(t),), ZERO, k)
        if ctype(t) == "bool":
            v = b2i(bnot(eq(v, ZERO)))
        if d is None:
            return v
        if is_bool(d):
            d = b2i(d)
        return ite(bnot(eq(has, ZERO)), v, d)

    def memberwise(self, u):
        """the class whose compiler-generated assignment this is"""
        m = getattr(self.P, "casg", None)
        if m is None:
            m = {}
            for t in self.P.raw["R"]:
                r = self.P.records.get(t)
                for x in (r or {}).get("methods", []):
                    if x["n"] == "operator=" and x.get("implicit"):
                        m[x["u"]] = t
            for t, r in list(self.P.records.items()):
                for x in r.get("methods", []):
                    if x["n"] == "operator=" and x.get("implicit"):
                        m.setdefault(x["u"], t)
            self.P.casg = m
        return m.get(u)

    def devirtualise(self, fn, f):
        if not self.devirt:
            return None
        ov = self.overriders(f["u"])
        if fn is not None and not ov:
            return fn
        if fn is None and len(ov) == 1:
            return self.P.fn_by_usr(ov[0])
        return None

    def overriders(self, u):
        m = getattr(self.P, "_ovr", None)
        if m is None:
            m = {}
            for raw in self.P.raw["F"]:
                g = self.P.fn_by_usr(raw)
                for o in g.d.get("overrides", []):
                    m.setdefault(o, []).append(raw)
            self.P._ovr = m
        return m.get(u, [])

    def skip_inline(self, fn):
        if self.opaque and (fn.u in self.opaque or fn.q in self.opaque or strip_targs(fn.q) in self.opaque or fn.n in self.opaque):
            return True
        if len(self.frames) > self.maxdepth:
            return True
        if sum(1 for fr in self.frames if fr.fn is fn) > 0:
            return True
        if "tinyxml" in fn.file:
            return True
        return False

    def eval_args(self, fn, args, st):
        out = []
        for p, a in zip(fn.params, args):
            t = fn.T[p["t"]]
            out.append(self.eval_arg(t, a, st))
        return out

    def eval_arg(self, t, a, st):
        if t.endswith("&"):
            l = self.lv(a, st)
            if l is None:
                return ("ref", self.unk("ref arg", a))
            return ("ref", self.addr(l))
        k = self.kind(t)
        if k == "o":
            v = self.rv(a, st)
            return ("obj", v, t)
        v = self.rv(a, st)
        if k == "p" and v.op == "num" and v.a[0] == 0:
            v = NULL
        if k == "d" and is_bool(v):
            v = b2i(v)
        return ("val", v)

    def call_lambda(self, obj, n, st):
        ln, fr0 = self.lams[obj]
        fr = self.fr
        if fr is not fr0:
            return self.unk("lambda", n)
        vals = [self.rv(a, st) for a in n["args"]]
        for d, v in zip(ln["params"], vals):
            st.env[(mk("lv", "f%d_%d" % (fr.id, d), "lp"), ())] = v
        saved, fr.returns = fr.returns, []
        pc0 = st.pc
        self.exec(ln["body"], st)
        v = self.finish_returns(fr, st, pc0, "d")
        fr.returns = saved
        return v

    def inline(self, fn, obj, av, st, n, ctor_loc=None):
        if st.dead:
            return self.unk("dead")
        self.inlined.add(fn.u)
        self.calls.append(CallRec(fn.q, tuple(x[1] for x in av), obj, st.pc, tuple(self.binders), n.get("l") if n else None,
                                  self.fr.fn if self.frames else None, self.nseq(), n))
        self.nf += 1
        fr = Frame(fn, self.nf, obj)
        for p, a in zip(fn.params, av):
            t = fn.T[p["t"]]
            fr.vartype[p["d"]] = t
            if a[0] == "ref":
                fr.refs[p["d"]] = a[1]
            elif a[0] == "obj":
                b = self.lvbase(fr, p["d"], p["n"])
                self.frames.append(fr)
                self.copy_object(st, (b, ZERO, ()), a[1], t, n)
                self.frames.pop()
            else:
                st.env[(self.lvbase(fr, p["d"], p["n"]), ())] = a[1]
        for p in fn.params[len(av):]:
            fr.vartype[p["d"]] = fn.T[p["t"]]
            st.env[(self.lvbase(fr, p["d"], p["n"]), ())] = self.unk("missing arg")
        self.frames.append(fr)
        pc0 = st.pc
        try:
            if fn.d.get("ctor"):
                self.ctor_inits(fn, obj, st)
            rt = fn.T[fn.d["ret"]]
            self.exec(fn.d["body"], st)
            v = self.finish_returns(fr, st, pc0, rt)
        finally:
            self.frames.pop()
        pre = "f%d_" % fr.id
        for k in [k for k in st.env if k[0].op == "lv" and k[0].a[0].startswith(pre)]:
            if v is not None and not isinstance(v, tuple) and v is k[0]:
                continue
            if k[0].op == "lv" and self.kind_keep(v, k[0]):
                continue
            del st.env[k]
        return v

    def kind_keep(self, v, base):
        return isinstance(v, T) and occurs(base, v)

    def ctor_inits(self, fn, obj, st):
        loc = self.loc_of(obj)
        rec = self.P.records.get(fn.d.get("cls"))
        done = set()
        for i in fn.d.get("inits", []):
            if "n" in i:
                done.add(i["n"])
                m = self.member(loc, i["n"])
                e = i["e"]
                if e is None:
                    continue
                k = self.kind(self.ty(e))
                ft = None
                if rec:
                    for x in rec["fields"]:
                        if x["n"] == i["n"]:
                            ft = x["t"]
                if ft and ft.endswith("&"):
                    l = self.lv(e, st)
                    self.write(st, m, self.addr(l) if l else self.unk("ref init"), "p", e)
                    continue
                if ft:
                    k = self.kind(ft)
                if k in ("o", "arr"):
                    self.init_object(st, m, e, ft or self.ty(e))
                else:
                    v = self.rv(e, st)
                    if k == "p" and v.op == "num":
                        v = NULL
                    self.write(st, m, v, k, e)
            elif "base" in i:
                e = i["e"]
                if e and e["k"] == "ctor":
                    f = self.P.fn_by_usr(e.get("f", {}).get("u", ""))
                    if f is not None and not self.skip_inline(f):
                        av = self.eval_args(f, e["args"], st)
                        self.inline(f, obj, av, st, e)

    def finish_returns(self, fr, st, pc0, rt):
        rets = fr.returns
        live = not st.dead or st.dead == "never"
        isref = rt.endswith("&")
        if not rets:
            if st.dead == "thr":
                return self.unk("throws")
            if not st.dead:
                st.pc = pc0 if True else st.pc
            return None
        f0 = Facts().plus(pc0)

        def rel(pc):
            cs = pc.a[0] if pc.op == "and" else (pc,)
            return band(*[c for c in cs if not f0.implies(c)])
        if not live and len(rets) == 1:
            pc, v, env, asm = rets[0]
            st.env = dict(env)
            st.asm = asm
            st.dead = None
            st.pc = pc0
            # exits by throw/return elsewhere are recorded as assumptions
            return v
        # merge all exits
        if live:
            env, val, asms = dict(st.env), None, [st.asm]
            was = st.pc
        else:
            pc, val, env, asm = rets[-1]
            was = pc
            env = dict(env)
            asms = [asm]
            rets = rets[:-1]
        held = asms[0]
        for (pc, v, e2, asm) in reversed(rets):
            c = rel(pc)
            asms.append(asm)
            for k in set(env) | set(e2):
                a, b = e2.get(k), env.get(k)
                if a is b:
                    continue
                if a is None:
                    a = self.default_env(st.under(pc, asm), k, b)
                if b is None:
                    b = self.default_env(st.under(was, held), k, a)
                if a is None or b is None:
                    env.pop(k, None)
                    continue
                env[k] = self.vmerge(c, a, b)
            was = bor(was, pc)
            held = Facts(held.s & asm.s, tuple(p for p in held.les if p in asm.les))
            if v is not None:
                if val is None:
                    val = v
                elif isinstance(v, tuple) or isinstance(val, tuple):
                    a1 = self.addr(v) if isinstance(v, tuple) else v
                    a2 = self.addr(val) if isinstance(val, tuple) else val
                    val = a1 if a1 is a2 else (ite(c, a1, a2), ZERO, ())
                    if isinstance(val, T):
                        val = self.loc_of(val)
                else:
                    val = self.vmerge(c, v, val)
        st.env = env
        s = asms[0].s
        for a in asms[1:]:
            s = s & a.s
        st.asm = Facts()
        for c in s:
            st.asm = st.asm.plus(c)
        st.dead = None
        st.pc = pc0
        return val

    def callterm(self, q, av, st):
        parts = []
        for a in av:
            if isinstance(a, tuple):
                a = a[1] if a[0] in ("ref", "val", "obj") else self.addr(a)
            if a is None:
                continue
            if a.op == "unk":
                parts.append(a)
                continue
            d = self.descr(st, a)
            if isptrish(a) and a.op not in ("null", "ite") and self.is_local(ptr_parts(a)[0]):
                # the identity of a local buffer is irrelevant, its contents are not
                a = mk("buf", ptr_parts(a)[1])
            parts.append(a)
            if d is not None:
                parts.append(d)
        for p in parts:
            if p.op == "unk":
                return p
        return mk("app", "call:" + q, *parts)

    def is_local(self, b):
        while b.op in ("arr", "vec", "sub"):
            b = b.a[0]
        return b.op == "lv"

    def descr(self, st, a):
        """what is known about the memory an argument points to"""
        if a.op == "ite" and isptrish(a.a[1]):
            if any(x.op != "null" and x.op != "unk" and self.is_local(ptr_parts(x)[0]) for x in ptr_leaves(a)):
                return mk("content", mk("fld", ("#of",), self.nameless(st, a)))
            return None
        if a.op in ("num", "null") or not isptrish(a):
            return None
        b, off = ptr_parts(a)
        out = []
        root = b.a[0] if b.op == "arr" else b
        if root.op in ("lv", "sub", "load", "sym"):
            flds = [(k[1], v) for k, v in st.env.items() if k[0] is root and k[1] != () and not (k[1] and k[1][-1].startswith("#cap"))]
            v = st.env.get((root, ()))
            if v is not None and b.op == "lv":
                out.append(v)
            for p, v in sorted(flds, key=lambda x: x[0]):
                out.append(mk("fld", p, v))
            if root.op == "lv":
                # objects in a local array: the one meant may depend on the offset
                els = [(k, v) for k, v in st.env.items() if k[0].op == "ptr" and (k[0].a[0] is root or k[0].a[0].op == "arr" and k[0].a[0].a[0] is root) and k[0].a[1].op == "num"]
                for k, v in sorted(els, key=lambda x: (x[0][0].a[1].a[0], x[0][1])):
                    out.append(mk("fld", ("@%d" % k[0].a[1].a[0],) + tuple(k[1]), v))
        saved, self.loadlog = self.loadlog, None
        mub = saved
        while mub is not None and not isinstance(mub[3], MuRecs):
            mub = mub[4]
        try:
            for base in (b, mk("vec", b)):
                keys = sorted({k[1] for k in st.logs if k[0] is base})
                hav = st.hav.get(base, ())
                if hav and () not in keys:
                    keys = [()] + keys
                for path in keys:
                    log = st.logs.get((base, path), ())
                    ents = sorted(list(log) + list(hav), key=lambda e: e.seq)
                    if not ents:
                        continue
                    if mub is not None and (base, path) in mub[2]:
                        pass
                    elif saved is not None and self.is_local(base):
                        cur = [e for e in ents if e.seq >= saved[0]]
                        ents = cur or ents
                    ty = next((ety(e) for e in log if ety(e)), "d")
                    k = mk("sym", "%%q%d" % TM._fresh(), "i")
                    f = st.facts()
                    if base.op == "vec":
                        sz = self.vsize(st, base.a[0])
                        if sz.op != "unk":
                            f = f.plus(le(ZERO, k)).plus(lt(k, sz))
                    v = self._resolve(st, ents, len(ents) - 1, base, path, k, ty, f, mub if mub is not None and (base, path) in mub[2] else None)
                    un = {u: sym("undef", u.a[0] if u.a and u.a[0] in ("d", "i") else "d") for u in atoms(v, lambda z: z.op == "unk")
                          if any(str(x).startswith(("uninit", "vector element")) for x in u.a)}
                    if un:
                        v = subst(v, un)
                    if v.op == "sym" and v.a[0] == "undef":
                        continue
                    if not self.is_local(base) and v is self._initial(st, base, path, k, ty):
                        continue        # written on other paths only
                    if base.op == "vec" and sz.op != "unk":
                        v = ite(lt(k, sz), v, mk("null") if isptrish(v) else ZERO)
                    out.append(mk("lam", path, subst(v, {k: mk("bv", 1000)})))
            if off is ZERO or b.op == "lv":
                out += self.descr_parts(st, b)
            if b.op == "sub" and self.is_local(b):
                out += self.descr_outer(st, b)
        finally:
            self.loadlog = saved
        if out:
            return mk("content", *out)
        return None

    def nameless(self, st, v):
        """local objects by what they hold"""
        if v.op == "ite":
            return ite(v.a[0], self.nameless(st, v.a[1]), self.nameless(st, v.a[2]))
        if isptrish(v) and v.op != "null" and self.is_local(ptr_parts(v)[0]):
            d = self.descr(st, v)
            return mk("app", "call:#made", mk("buf", ptr_parts(v)[1]), *([d] if d is not None else []))
        return v

    def descr_outer(self, st, b):
        """a member of a local object that was made as a whole"""
        out, path = [], ()
        while b.op == "sub":
            path = b.a[2] + path
            b = b.a[0]
            for e in st.hav.get(b, ()):
                g = e.guard if isinstance(e.guard, T) else TRUE
                if e.val.op != "unk" and not has_unk(g):
                    v = self.nameless(st, e.val)
                    out.append(mk("fld", ("#of",) + path, v if g is TRUE or g is st.pc else ite(g, v, NULL)))
            c = self.copies.get(b)
            if c is not None:
                a = self.addr(c[0])
                if a.op != "unk" and not self.is_local(c[0][0]):
                    out.append(mk("fld", ("#of",) + path, self.nameless(c[1], a)))
                d = self.descr(c[1], a)
                if d is not None:
                    out.append(mk("fld", ("#of",) + path, d))
        return out

    def descr_parts(self, st, b):
        """the same for the members of an object and the elements of their containers"""
        out = []
        here = mk("buf", ZERO)
        seen = {}
        for kb, path in list(st.logs) + list(st.env):
            if kb is not b and kb.op in ("vec", "arr", "sub") and not (kb.op == "vec" and kb.a[0] is b and (kb, path) in st.logs) and nested(kb, b) \
                    and not (path and path[-1].startswith("#cap")):
                seen[(kb, path)] = renest(kb, b, here)
        if b.op == "sub" and b.a[1] is ZERO:
            for kb, path in st.env:
                if kb is b.a[0] and path[:len(b.a[2])] == b.a[2] and len(path) > len(b.a[2]) and not path[-1].startswith("#cap"):
                    out.append(mk("fld", path[len(b.a[2]):], st.env[(kb, path)]))
        for (kb, path), lab in sorted(seen.items(), key=lambda x: (show(x[1]), x[0][1])):
            if (kb, path) in st.env:
                v = st.env[(kb, path)]
                if v.op == "load" and v.a[0] is kb and v.a[1] == path:
                    continue
                if v.op == "unk" and any(str(x).startswith(("uninit", "size")) for x in v.a):
                    continue
                out.append(mk("part", lab, mk("fld", path, v)))
                continue
            log = st.logs[(kb, path)]
            ty = next((ety(e) for e in log if ety(e)), "d")
            k = mk("sym", "%%q%d" % TM._fresh(), "i")
            f = st.facts()
            if kb.op == "vec":
                sz = self.vsize(st, kb.a[0])
                if sz.op != "unk":
                    f = f.plus(le(ZERO, k)).plus(lt(k, sz))
            ents = sorted(list(log) + list(st.hav.get(kb, ())) + list(self.outer_hav(st, kb)), key=lambda e: e.seq)
            v = self._resolve(st, ents, len(ents) - 1, kb, path, k, ty, f, None)
            un = {u: sym("undef", u.a[0] if u.a and u.a[0] in ("d", "i") else "d") for u in atoms(v, lambda z: z.op == "unk")
                  if any(str(x).startswith(("uninit", "vector element")) for x in u.a)}
            if un:
                v = subst(v, un)
            if v.op == "sym" and v.a[0] == "undef":
                continue
            if kb.op == "vec" and sz.op != "unk":
                v = ite(lt(k, sz), v, mk("null") if isptrish(v) else ZERO)
            out.append(mk("part", lab, mk("lam", path, subst(v, {k: mk("bv", 1000)}))))
        if self.is_local(b):
            for kb, es in sorted(((kb, es) for kb, es in st.hav.items() if kb is not b and kb.op == "sub" and nested(kb, b)), key=lambda x: show(renest(x[0], b, here))):
                for e in es:
                    g = e.guard if isinstance(e.guard, T) else TRUE
                    if e.val.op != "unk" and not has_unk(g):
                        v = self.nameless(st, e.val)
                        out.append(mk("part", renest(kb, b, here), mk("fld", ("#all",), v if g is TRUE or g is st.pc else ite(g, v, NULL))))
        c = self.copies.get(b)
        if c is not None and not self.is_local(c[0][0]):
            a = self.addr(c[0])
            d = self.descr(c[1], a)
            out.append(mk("fld", ("#copy",), a))
            if d is not None:
                out.append(d)
        elif c is not None:
            d = self.descr(c[1], self.addr(c[0]))
            if d is not None:
                out.append(d)
        return out

    def string_fact(self, q, obj, vals, st):
        """length, emptiness and equality of strings, however they are asked for"""
        m = re.match(r"std::basic_string<char[^>]*>::(size|length|empty|compare)$", q)
        if m and obj is not None and m.group(1) != "compare":
            c = self.callterm("std::basic_string<char>::size", [obj], st)
            if c.op == "unk":
                return c
            z = mk("load", c, ("#size",), ZERO, "i")
            return eq0(z) if m.group(1) == "empty" else z
        if m and obj is not None and len(vals) == 1:
            c = self.callterm("std::basic_string<char>::compare", [obj, vals[0]], st)
            return c if c.op == "unk" else mk("load", c, ("#ret",), ZERO, "i")
        if q in ("std::operator==", "std::operator!=") and len(vals) == 2:
            for a, b in ((vals[0], vals[1]), (vals[1], vals[0])):
                if isinstance(b, T) and b.op == "str" and b.a[0] == "":
                    r = self.string_fact("std::basic_string<char>::empty", a, [], st)
                    return r if r.op == "unk" or q[-2] == "=" else bnot(r)
        return None

    def opaque_call(self, f, obj, n, st):
        q = f["q"]
        pts = [self.fr.T[i] for i in f.get("pt", [])]
        av = []
        for i, a in enumerate(n["args"]):
            t = pts[i] if i < len(pts) else self.ty(a)
            av.append(self.eval_arg(t, a, st))
        vals = [x[1] for x in av]
        self.calls.append(CallRec(q, tuple(vals), obj, st.pc, tuple(self.binders), n.get("l"), self.fr.fn, self.nseq(), n, f.get("u")))
        r = self.string_fact(q, obj, vals, st)
        if r is not None:
            return r
        if f.get("nr"):
            self.do_throw(st, n)
            return ZERO
        allv = ([obj] if obj is not None else []) + vals
        # arguments that are outputs only should not influence the identity of the result
        ins, outs = [], []
        for i, (x, v) in enumerate(zip(av, vals)):
            t = pts[i] if i < len(pts) else ""
            if (t.endswith("&") or t.endswith("*")) and not is_const_ptr(t) and not t.endswith("&&"):
                outs.append((i, v, t))
            ins.append(v)
        ct = self.callterm(q, ([obj] if obj is not None else []) + ins, st)
        lib = q.startswith(("std::", "boost::", "__gnu_cxx::"))
        look = lib and strip_targs(q).split("::")[-1] in LOOK
        method = obj is not None and f.get("cls") and not f.get("const") and not f.get("static") and not look
        if OUTSIDE.search(q) or method and self.outside(obj) or any(self.outside(v) for _, v, _ in outs) and not look or obj is None and not lib and self.ty(n) == "void" and not outs:
            self.trace(st, strip_targs(q), ct)
        for i, v, t in outs:
            tag = ct if ct.op == "unk" else mk("out", ct, i)
            if v.op in ("null", "num", "unk"):
                continue
            b, off = ptr_parts(v)
            self.havoc_ptr(st, v, tag, t)
        if method:
            self.havoc_ptr(st, obj, ct if ct.op == "unk" else mk("out", ct, "this"), f["cls"] + " *")
        rt = self.ty(n)
        k = self.kind(rt)
        if rt == "void":
            return None
        if ct.op == "unk":
            return ct
        if k == "o":
            return ct
        ret = mk("load", ct, ("#ret",), ZERO, k if k != "arr" else "p")
        return ret

    def havoc_ptr(self, st, v, tag, t):
        if v.op == "ite":
            self.havoc_ptr(st, v.a[1], tag, t)
            self.havoc_ptr(st, v.a[2], tag, t)
            return
        loc = self.loc_of(v)
        base, off, path = loc
        if t.endswith("&") and self.kind(ctype(t.rstrip("& "))) in ("d", "i", "p") and v.op != "unk":
            # a scalar passed by reference: exactly this location is set
            ty = self.kind(ctype(t.rstrip("& ")))
            self.write(st, loc, tag if tag.op == "unk" else mk("load", tag, (), ZERO, ty), ty)
            return
        if v.op == "sub":
            # pointer to a member
            k = (base, path)
            old = st.env.get(k)
            ty = self.kind(deref_ty(t)) if t.endswith("*") else self.kind(t)
            if ty in ("d", "i", "p"):
                self.write(st, loc, tag if tag.op == "unk" else mk("load", tag, (), ZERO, ty), ty)
            for kk in list(st.env):
                if kk[0] is base and kk[1][:len(path)] == path and len(kk[1]) > len(path):
                    st.env[kk] = tag if tag.op == "unk" else mk("load", tag, kk[1][len(path):], ZERO, "i" if is_int(st.env[kk]) else "d")
            self.havoc_base(st, v, tag)
            self.havoc_vec(st, v, tag)
            return
        if base.op == "lv" and off is ZERO:
            tt = deref_ty(t) if t.endswith("*") else ctype(t.rstrip("& "))
            ty = self.kind(tt)
            if ty in ("d", "i", "p") and (base, ()) in st.env:
                st.env[(base, ())] = tag if tag.op == "unk" else mk("load", tag, (), ZERO, ty)
                return
        self.havoc_base(st, base, tag, off)
        self.havoc_vec(st, v, tag)

    def havoc_vec(self, st, addr, tag):
        vb = self.vec(addr)
        self.havoc_base(st, vb, tag)
        st.env[(vb, ("#size",))] = tag if tag.op == "unk" else mk("load", tag, ("#size",), ZERO, "i")

    # ------------------------------------------------------------ library models
    def model(self, q, f, n, st):
        args = n["args"]
        name = q.split("::")[-1]
        cls = strip_targs(f.get("cls", ""))
        T0 = lambda i: self.ty(args[i])
        R = lambda i: self.rv(args[i], st)
        if "obj" in n:
            ot = self.ty(n["obj"])
            if n.get("arrow"):
                ot = deref_ty(ot)
            ot = ctype(ot)
            if is_map(ot) and cls.startswith("std::"):
                return self.map_method(name, f, n, st, ot)
            if is_vec(ot) and cls.startswith("std::"):
                return self.vec_method(name, n, st, ot)
            if is_iter(ot):
                return self.iter_method(f, name, n, st, ot)
            if "iterator_range" in cls:
                return self.range_method(name, n, st)
            if "shared_ptr" in cls or "scoped_ptr" in cls or "unique_ptr" in cls or "auto_ptr" in cls:
                return self.smart_ptr(name, f, n, st, ot)
            if is_stream(ot) or cls.startswith("std::basic_") and ("stream" in cls or "ios" in cls) or cls in ("std::ios_base",):
                return self.stream_method(name, n, st, ot)
            return NotImplemented
        if q.startswith("std::") or q.startswith("boost::") or q.startswith("__gnu_cxx::") or "::" not in q:
            b = name
            if b in ("max", "min") and len(args) == 2:
                k = self.kind(self.ty(n))
                if k in "di":
                    x, y = b2i(R(0)), b2i(R(1))
                    return (tmax if b == "max" else tmin)(x, y)
            if b in ("fabs", "abs") and len(args) == 1:
                return tabs(b2i(R(0)))
            if b in ("fmax", "fmin") and len(args) == 2:
                return (tmax if b == "fmax" else tmin)(b2i(R(0)), b2i(R(1)))
            if b in PURE_MATH and (q == b or q == "std::" + b):
                xs = [b2i(R(i)) for i in range(len(args))]
                if b == "pow":
                    e = ival(xs[1])
                    if e is not None and abs(e) <= 6:
                        return powi(xs[0], e)
                return app(b, *xs)
            if b in ("isnan", "isinf", "isfinite", "__isnan", "__isinf") and len(args) == 1:
                return mk("bapp", b, b2i(R(0)))
            if q in ("std::operator<<", "std::operator>>") and len(args) == 2 and is_stream(ctype(T0(0).rstrip("& "))):
                return self.stream_op(name, args[0], args[1], n, st)
            if q in ("std::endl", "std::flush", "std::ends", "std::ws") and len(args) == 1:
                return self.stream_op("operator<<" if b != "ws" else "operator>>", args[0], n, n, st, manip=b)
            if q == "std::getline" and len(args) >= 2:
                return self.getline(args, n, st)
            if q in ("std::setw", "std::setprecision", "std::setfill", "std::setbase", "std::setiosflags", "std::resetiosflags"):
                v = self.rv(args[0], st)
                return v if v.op == "unk" else mk("app", "call:" + q, b2i(v))
            if q.startswith("__gnu_cxx::operator") and len(args) == 2:
                a, c = R(0), R(1)
                return self.ptr_cmp(name[8:], a, c, n)
            if q in ("std::operator==", "std::operator!=") and len(args) == 2 and is_mapiter(ctype(T0(0).rstrip("& "))):
                a, c = R(0), R(1)
                if a.op == "unk" or c.op == "unk":
                    return mk("bapp", "unk", a if a.op == "unk" else c)
                e = self.iter_eq(a, c)
                return e if name == "operator==" else bnot(e)
            if q == "std::make_pair" and len(args) == 2:
                self.nf += 1
                tmp = mk("lv", "tmp%d" % self.nf, "temporary")
                for nm, a in (("first", args[0]), ("second", args[1])):
                    kk = self.kind(ctype(self.ty(a).rstrip("& ")))
                    if kk in "dip":
                        self.write(st, (tmp, ZERO, (nm,)), self.rv(a, st), kk, n)
                    else:
                        v = self.rv(a, st)
                        self.copy_object(st, (tmp, ZERO, (nm,)), self.addr(v) if isinstance(v, tuple) else v, ctype(self.ty(a).rstrip("& ")), n)
                return tmp
            if b == "swap" and len(args) == 2:
                return self.do_swap(args, st, n)
            if q == "std::" + b and (b in ALGOS or args and is_iter(ctype(self.ty(args[0])))):
                return self.algorithm(b, n, st)
            if b in ("malloc", "calloc") and q == b:
                xs = [b2i(R(i)) for i in range(len(args))]
                self.nf += 1
                a = mk("alloc", self.nf, n.get("l"))
                self.calls.append(CallRec(q, tuple(xs), None, st.pc, tuple(self.binders), n.get("l"), self.fr.fn, self.nseq(), n))
                self.asize[a] = xs[0] if b == "malloc" else mul(xs[0], xs[1])
                if b == "calloc":
                    self.calloced[a] = True
                    self.zero_alloc(st, a, xs[0])
                return a
            if b == "realloc" and q == b:
                p, sz = R(0), b2i(R(1))
                self.calls.append(CallRec(q, (p, sz), None, st.pc, tuple(self.binders), n.get("l"), self.fr.fn, self.nseq(), n))
                if p is NULL:
                    self.nf += 1
                    a = mk("alloc", self.nf, n.get("l"))
                    self.asize[a] = sz
                    return a
                if p.op == "load":
                    # the block grows in place, or the call fails and leaves it as it is
                    ok = bnot(eq(mk("load", mk("app", "call:realloc", p), ("#grown",), ZERO, "p"), NULL)) if self.fails else TRUE
                    self.asize[p] = ite(band(st.pc, ok), sz, self.asize.get(p, ZERO))
                    return ite(ok, p, NULL)
                if p.op == "alloc":
                    self.asize[p] = ite(st.pc, sz, self.asize.get(p, ZERO))
                return p
            if b == "free" and q == b:
                p = R(0)
                self.release(st, p, n)
                self.calls.append(CallRec(q, (p,), None, st.pc, tuple(self.binders), n.get("l"), self.fr.fn, self.nseq(), n))
                return None
            if b in ("memcpy", "memmove") and q in (b, "std::" + b):
                return self.do_memcpy(args, st, n)
            if b == "bsearch" and len(args) == 5:
                return self.do_bsearch(args, st, n)
            if b == "qsort" and len(args) == 4:
                return self.do_qsort(args, st, n)
            if b == "memset" and q in (b, "std::" + b):
                return self.do_memset(args, st, n)
            if b in ("fopen", "fprintf", "fscanf", "fputs", "fputc", "putc", "fwrite", "fread", "fgets", "fgetc", "getc", "feof", "ferror", "fclose", "rewind", "ungetc", "fflush") and q in (b, "std::" + b):
                return self.stdio(b, args, n, st)
            if b in ("printf", "puts", "fflush", "putchar", "perror") and q in (b, "std::" + b):
                for a in args:
                    if a["k"] in ("call", "un", "asg"):
                        self.rv(a, st)
                return self.unk("io", n)
            if b in ("__assert_fail", "abort", "exit", "terminate", "__throw_"):
                self.do_throw(st, n)
                return ZERO
            if b in ("make_pair",):
                return NotImplemented
            if q in ("dgemv_", "dgemm_"):
                r = self.blas(q, n, st)
                if r is not NotImplemented:
                    return r
        return NotImplemented


    # ------------------------------------------------------------ streams
    def io_key(self, st, sid):
        """where the log of a stream is kept: (key, None) or (None, why)"""
        if sid.op in ("unk", "ite", "null", "num"):
            return FILES, IO
        b, off, path = self.loc_of(sid)
        r = b.a[0] if b.op == "load" else b
        if r.op == "glob" and (r.a[0] in CONSOLE or r.a[0].split("::")[-1] in ("cout", "cerr", "clog")):
            return None
        if b.op == "lv" and st.env.get((b, path + ("#file",))) is not None:
            return FILES, IO
        if off is not ZERO or self.has_binder(b) or any(x.op == "app" for x in atoms(b, lambda z: z.op == "app")):
            return FILES, IO
        return b, path + IO

    def io_get(self, st, k):
        v = st.env.get(k)
        if v is None:
            v = mk("str", "") if k[0].op == "lv" else mk("load", k[0], k[1], ZERO, "d")
        return v

    def io_put(self, st, sid, *toks):
        if st.dead:
            return
        k = self.io_key(st, sid)
        if k is None:
            return
        v = self.io_get(st, k)
        if sid.op in ("unk", "ite"):
            v = self.unk("output to an unknown stream")
        for t in toks:
            v = tr(v, t)
        st.env[k] = v

    def sid(self, a, st):
        l = self.lv(a, st)
        return self.addr(l) if l is not None else self.unk("stream")

    def io_value(self, a, st):
        """what inserting this expression writes"""
        t = ctype(self.ty(a))
        v = self.rv(a, st)
        if isinstance(v, tuple):
            v = self.addr(v)
        if v is None:
            return self.unk("value")
        if v.op == "glob" and str(v.a[0]).startswith("std::"):
            m = v.a[0].split("::")[-1]
            return mk("str", {"endl": "\n", "flush": "", "ends": "\0"}[m]) if m in ("endl", "flush", "ends") else mk("app", "call:" + m)
        if v.op in ("unk", "str") or v.op == "app" and str(v.a[0]).startswith("call:std::set"):
            return v
        if t.rstrip("& ") in ("char", "const char", "unsigned char", "signed char"):
            return mk("str", chr(int(v.a[0]))) if v.op == "num" else mk("app", "call:chr", b2i(v))
        if isptrish(v):
            b = ptr_parts(v)[0]
            if b.op == "lv" and "basic_string" in t:
                x = st.env.get((b, ("#str",)))
                if x is not None and x.op == "str":
                    return x
            return self.callterm("fmt", [v], st)
        return b2i(v)

    def stream_op(self, op, sa, va, n, st, manip=None):
        sid = self.sid(sa, st)
        if op == "operator<<":
            tok = mk("str", {"endl": "\n", "ends": "\0"}.get(manip, "")) if manip else self.io_value(va, st)
            self.io_put(st, sid, tok)
        elif manip or va["k"] == "ref" and va.get("dk") == "func":
            self.io_put(st, sid, mk("str", "ws"))
        else:
            self.io_get_into(st, sid, va, n)
        return self.loc_of(sid) if sid.op != "unk" else (sid, ZERO, ())

    def io_read(self, st, sid, what, *args):
        """(term standing for what is read, log advanced)"""
        k = self.io_key(st, sid)
        if k is None:
            k = (FILES, IO)
        h = self.io_get(st, k)
        if sid.op in ("unk", "ite"):
            h = self.unk("input from an unknown stream")
        for a in args:
            if a.op == "unk":
                h = a
        if h.op == "unk":
            st.env[k] = h
            return h
        r = mk("app", "call:" + what, h, *args)
        st.env[k] = tr(h, mk("app", "call:" + what, *args))
        return r

    def io_get_into(self, st, sid, va, n):
        t = ctype(self.ty(va).rstrip("& "))
        k = self.kind(t)
        l = self.lv(va, st)
        r = self.io_read(st, sid, "in:" + ("real" if k == "d" else "char" if t == "char" else "int" if k == "i" else "text"))
        if l is None:
            return
        if k in "di":
            self.write(st, l, r if r.op == "unk" else mk("load", r, ("#val",), ZERO, k), k, n)
        else:
            self.havoc_ptr(st, self.addr(l), r if r.op == "unk" else mk("out", r, 0), t + " *" if k == "o" else t)

    def getline(self, args, n, st):
        sid = self.sid(args[0], st)
        ex = [b2i(self.rv(a, st)) for a in args[2:]]
        ex = [x for x in ex if x is not num(10)]
        r = self.io_read(st, sid, "getline", *ex)
        l = self.lv(args[1], st)
        if l is not None:
            self.havoc_ptr(st, self.addr(l), r if r.op == "unk" else mk("out", r, 0), "std::string *")
        return self.loc_of(sid) if sid.op != "unk" else (sid, ZERO, ())

    def stream_method(self, name, n, st, ot):
        args = n["args"]
        o = n["obj"]
        sid = self.rv(o, st) if n.get("arrow") else self.sid(o, st)
        if name in ("operator<<", "operator>>") and len(args) == 1:
            if name == "operator<<":
                self.io_put(st, sid, self.io_value(args[0], st))
            elif args[0]["k"] == "ref" and args[0].get("dk") == "func":
                self.io_put(st, sid, mk("str", "ws"))
            else:
                self.io_get_into(st, sid, args[0], n)
            return self.loc_of(sid) if sid.op != "unk" else (sid, ZERO, ())
        k = self.io_key(st, sid)
        h = self.io_get(st, k) if k is not None else mk("str", "console")
        inp = is_instream(ot)
        if name in ("good", "fail", "eof", "bad", "operator!", "operator bool", "operator void *", "is_open", "operator void*"):
            for a in args:
                self.rv(a, st)
            if sid.op in ("unk", "ite") or h.op == "unk":
                return mk("bapp", "unk", sid if sid.op == "unk" else self.unk("stream state"))
            what = {"operator!": "fail", "operator bool": "fail", "operator void *": "fail", "operator void*": "fail", "bad": "fail", "is_open": "open"}.get(name, name)
            c = mk("bapp", what, h if inp else mk("str", "out"))
            return bnot(c) if name in ("operator bool", "operator void *", "operator void*") else c
        if name in ("close", "flush", "tie", "sync_with_stdio"):
            for a in args:
                self.rv(a, st)
            return self.loc_of(sid) if name == "flush" and sid.op != "unk" else None
        toks, outs = [], []
        for i, a in enumerate(args):
            v = self.rv(a, st)
            v = self.addr(v) if isinstance(v, tuple) else v
            if v is None:
                v = self.unk("argument")
            if isptrish(v) and name in ("read", "get", "getline", "readsome"):
                outs.append(v)
                continue
            if isptrish(v) and v.op != "str":
                v = self.callterm("arg", [v], st)
            toks.append(b2i(v) if is_bool(v) else v)
        rt = self.ty(n)
        kk = self.kind(ctype(rt.rstrip("& "))) if rt != "void" else "v"
        if name == "open":
            if inp:
                if k is not None:
                    v = mk("str", "open")
                    for t in toks[:1]:
                        v = tr(v, t)
                    st.env[k] = v
            else:
                b, off, path = self.loc_of(sid) if sid.op != "unk" else (sid, ZERO, ())
                if b.op == "lv":
                    st.env[(b, path + ("#file",))] = ONE
                self.io_put(st, sid, mk("str", "<open>"), *toks[:1])
            return None
        if name == "str" and not args:
            return h if h.op == "unk" else mk("app", "call:str", h)
        if name in ("peek", "tellg", "tellp", "rdstate", "precision", "width", "fill", "flags", "gcount") and not args:
            return h if h.op == "unk" else mk("load", mk("app", "call:" + name, h if inp else mk("str", "out")), ("#ret",), ZERO, "i")
        if name == "put" and len(toks) == 1:
            t = toks[0]
            toks = [mk("str", chr(int(t.a[0])))] if t.op == "num" else [t if t.op == "unk" else mk("app", "call:chr", t)]
            self.io_put(st, sid, *toks)
            return self.loc_of(sid) if sid.op != "unk" else (sid, ZERO, ())
        r = self.io_read(st, sid, "." + name, *toks) if inp else None
        if r is None:
            bad = next((t for t in toks if t.op == "unk"), None)
            r = bad if bad is not None else mk("app", "call:." + name, *toks)
            self.io_put(st, sid, r)
            r = bad if bad is not None else mk("app", "call:." + name, mk("str", "out"), *toks)
        if name in ("get", "read", "getline", "readsome") and args and len(args) == 1 and args[0]["k"] in ("ref", "mem", "idx") and self.kind(self.ty(args[0])) == "i":
            l = self.lv(args[0], st)
            if l is not None:
                self.write(st, l, r if r.op == "unk" else mk("load", r, ("#val",), ZERO, "i"), "i", n)
        for i, v in enumerate(outs):
            if v.op not in ("unk", "null", "num"):
                self.havoc_ptr(st, v, r if r.op == "unk" else mk("out", r, i), "char *")
        if kk == "o":
            return self.loc_of(sid) if sid.op != "unk" else (sid, ZERO, ())
        if kk == "v":
            return None
        return r if r.op == "unk" else mk("load", r, ("#ret",), ZERO, kk if kk in "dip" else "i")

    def stream_ctor(self, st, loc, n, t):
        """a stream variable comes into being"""
        args = n.get("args", [])
        base, off, path = loc
        av = []
        for a in args:
            v = self.rv(a, st)
            v = self.addr(v) if isinstance(v, tuple) else v
            av.append(v if v is not None else self.unk("argument"))
        toks = [v if v.op in ("str", "unk") or not isptrish(v) else self.callterm("fmt", [v], st) for v in av[:1]]
        toks = [b2i(v) if is_bool(v) else v for v in toks]
        if "fstream" in t and not is_instream(t):
            if base.op == "lv":
                st.env[(base, path + ("#file",))] = ONE
            if toks:
                self.io_put(st, self.addr(loc), mk("str", "<open>"), *toks)
            return
        v = mk("str", "open" if "fstream" in t else "")
        for x in toks:
            v = tr(v, x) if v.op != "str" or v.a[0] or x.op != "str" else x
        st.env[(base, path + IO)] = v

    FMT = re.compile(r"%[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?(?:hh|h|ll|l|z|j|t|L)?[a-zA-Z%]")

    def stdio(self, b, args, n, st):
        pos = {"fopen": None, "fprintf": 0, "fscanf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3, "fread": 3, "fgets": 2, "fgetc": 0, "getc": 0, "feof": 0, "ferror": 0,
               "fclose": 0, "rewind": 0, "ungetc": 1, "fflush": 0}[b]
        vs = []
        for a in args:
            v = self.rv(a, st)
            v = self.addr(v) if isinstance(v, tuple) else v
            vs.append(self.unk("argument") if v is None else b2i(v) if is_bool(v) else v)

        def tok(v):
            return v if v.op in ("str", "unk") or not isptrish(v) else self.callterm("fmt", [v], st)
        if b == "fopen":
            ts = [tok(v) for v in vs]
            u = next((t for t in ts if t.op == "unk"), None)
            self.io_put(st, FILES, mk("str", "<open>"), *ts)
            return u if u is not None else mk("load", mk("app", "call:fopen", *ts), ("#ret",), ZERO, "p")
        if pos >= len(vs):
            return self.unk("io", n)
        fp = vs[pos]
        if b != "fflush" and isptrish(fp) and fp.op != "unk":
            self.misuse(st, band(st.pc, eq(fp, NULL)), "uses a stream that was not opened", n)
        if b in ("fclose", "fflush"):
            return ZERO
        if b in ("feof", "ferror"):
            k = self.io_key(st, fp)
            h = self.io_get(st, k) if k is not None else mk("str", "console")
            return h if h.op == "unk" else mk("load", mk("app", "call:" + b, h), ("#ret",), ZERO, "i")
        if b == "fprintf" and vs[1].op == "str":
            f, ts, i, last = vs[1].a[0], [], 2, 0
            for m in self.FMT.finditer(f):
                ts.append(mk("str", f[last:m.start()]))
                last = m.end()
                sp = m.group(0)
                if sp == "%%":
                    ts.append(mk("str", "%"))
                    continue
                xs = []
                for _ in range(sp.count("*") + 1):
                    xs.append(tok(vs[i]) if i < len(vs) else self.unk("argument"))
                    i += 1
                u = next((x for x in xs if x.op == "unk"), None)
                if sp == "%s" and xs[0].op == "str":
                    ts.append(xs[0])
                else:
                    ts.append(u if u is not None else mk("app", "call:" + sp, *xs))
            ts.append(mk("str", f[last:]))
            self.io_put(st, fp, *ts)
            return mk("load", mk("app", "call:fprintf"), ("#ret",), ZERO, "i")
        if b in ("fputs",):
            self.io_put(st, fp, tok(vs[0]))
            return ZERO
        if b in ("fputc", "putc"):
            v = vs[0]
            self.io_put(st, fp, mk("str", chr(int(v.a[0]))) if v.op == "num" else v if v.op == "unk" else mk("app", "call:chr", v))
            return ZERO
        if b in ("fprintf", "fwrite", "rewind", "ungetc"):
            ts = [tok(v) for i, v in enumerate(vs) if i != pos]
            u = next((t for t in ts if t.op == "unk"), None)
            self.io_put(st, fp, u if u is not None else mk("app", "call:" + b, *ts))
            return self.unk("io", n) if u is not None else mk("load", mk("app", "call:" + b, *ts), ("#ret",), ZERO, "i")
        # input
        ins = [tok(v) for i, v in enumerate(vs) if i != pos and (b != "fscanf" or i == 1) and not (b in ("fgets", "fread") and i == 0)]
        r = self.io_read(st, fp, b, *ins)
        outs = [v for i, v in enumerate(vs) if b == "fscanf" and i > 1 or b in ("fgets", "fread") and i == 0]
        for i, v in enumerate(outs):
            if v.op in ("unk", "null", "num", "ite"):
                if v.op in ("unk", "ite"):
                    self.wild = True
                continue
            tag = r if r.op == "unk" else mk("out", r, i)
            a = args[i + 2] if b == "fscanf" else args[0]
            et = deref_ty(self.ty(a)) if self.ty(a).rstrip("& ").endswith("*") else "char"
            if b == "fscanf" and self.kind(et) in "di" and et != "char":
                kk = self.kind(et)
                self.write(st, self.loc_of(v), tag if tag.op == "unk" else mk("load", tag, ("#val",), ZERO, kk), kk, n)
            else:
                self.havoc_ptr(st, v, tag, "char *")
        return r if r.op == "unk" else mk("load", r, ("#ret",), ZERO, "p" if b == "fgets" else "i")

    # ------------------------------------------------------------ what opaque calls do to the outside world
    def trace(self, st, q, ct):
        if st.dead:
            return
        k = (TRACE, ("#tr:" + q,))
        old = st.env.get(k)
        if old is None:
            old = mk("load", TRACE, k[1], ZERO, "d")
        st.env[k] = ct if ct.op == "unk" else old if old.op == "unk" else add(old, mk("app", "sig", ct))

    def outside(self, v):
        """does this pointer lead to memory others can see?"""
        if v is None or v.op in ("null", "num", "unk", "str"):
            return False
        if v.op == "ite":
            return self.outside(v.a[1]) or self.outside(v.a[2])
        b = ptr_parts(v)[0]
        while b.op in ("arr", "vec", "sub", "ptr", "load"):
            b = b.a[0]
        return b.op in ("sym", "glob") and not (b.op == "sym" and b.a[0].startswith("%"))

    def zero_alloc(self, st, a, cnt):
        b = mk("sym", "%%k%d" % TM._fresh(), "i")
        if cnt.op == "unk":
            return
        e = Entry(self.nseq(), "set", b, ZERO, ((b, ZERO, cnt),), st.pc, "d", None)
        st.logs[(a, ())] = st.logs.get((a, ()), ()) + (e,)

    def blas(self, q, n, st):
        """dgemv_/dgemm_ with literal 'No Transpose' flags, as sums"""
        a = n["args"]

        def ptr(i):
            return self.rv(a[i], st)

        def deref(i, k):
            p = ptr(i)
            if p.op == "unk":
                return p
            return self.read(st, self.loc_of(p), k)
        fl = [x for x in a if x["k"] == "str"]
        nt = q == "dgemv_" and 1 or 2
        if len(fl) < nt or any(not x.get("v", "").upper().startswith(("N", "T")) for x in fl[:nt]):
            return NotImplemented
        tr = [x["v"].upper().startswith("T") for x in fl[:nt]]
        try:
            if q == "dgemv_":
                m, k, alpha = deref(1, "i"), deref(2, "i"), deref(3, "d")
                A, lda, x, incx, beta, y, incy = ptr(4), deref(5, "i"), ptr(6), deref(7, "i"), deref(8, "d"), ptr(9), deref(10, "i")
                vs = [m, k, alpha, A, lda, x, incx, beta, y, incy]
                if any(v.op == "unk" for v in vs):
                    raise ValueError
                rows, cols = (k, m) if tr[0] else (m, k)
                Ab, Ao = ptr_parts(A)
                xb, xo = ptr_parts(x)
                yb, yo = ptr_parts(y)
                s0 = self.snap(st)
                j = mk("sym", "%%j%d" % TM._fresh(), "i")

                def val(i):
                    ai = add(Ao, add(mul(i, lda), j) if tr[0] else add(i, mul(j, lda)))
                    t = self.tsumf(j, ZERO, cols, lambda: mul(self.query(s0, Ab, (), ai, "d"), self.query(s0, xb, (), add(xo, mul(j, incx)), "d")))
                    t = mul(alpha, t)
                    if beta is not ZERO:
                        t = add(t, mul(beta, self.query(s0, yb, (), add(yo, mul(i, incy)), "d")))
                    return t
                if incy is not ONE:
                    raise ValueError
                self.fill_at(st, yb, yo, rows, val, "d", n)
                return None
            m, nn, k, alpha = deref(2, "i"), deref(3, "i"), deref(4, "i"), deref(5, "d")
            A, lda, B, ldb, beta, Cc, ldc = ptr(6), deref(7, "i"), ptr(8), deref(9, "i"), deref(10, "d"), ptr(11), deref(12, "i")
            vs = [m, nn, k, alpha, A, lda, B, ldb, beta, Cc, ldc]
            if any(v.op == "unk" for v in vs):
                raise ValueError
            Ab, Ao = ptr_parts(A)
            Bb, Bo = ptr_parts(B)
            Cb, Co = ptr_parts(Cc)
            s0 = self.snap(st)
            l = mk("sym", "%%l%d" % TM._fresh(), "i")
            bi = mk("sym", "%%i%d" % TM._fresh(), "i")
            bj = mk("sym", "%%j%d" % TM._fresh(), "i")

            def el(i, jx):
                ai = add(Ao, add(mul(i, lda), l) if tr[0] else add(i, mul(l, lda)))
                bo = add(Bo, add(mul(l, ldb), jx) if tr[1] else add(l, mul(jx, ldb)))
                t = mul(alpha, self.tsumf(l, ZERO, k, lambda: mul(self.query(s0, Ab, (), ai, "d"), self.query(s0, Bb, (), bo, "d"))))
                if beta is not ZERO:
                    t = add(t, mul(beta, self.query(s0, Cb, (), add(Co, add(i, mul(jx, ldc))), "d")))
                return t
            nj = ival(nn)
            if nj is not None and nj <= 8:
                for jj in range(nj):
                    self.fill_at(st, Cb, add(Co, mul(num(jj), ldc)), m, lambda i: el(i, num(jj)), "d", n)
                return None
            v = self.under(st, (le(ZERO, bi), lt(bi, m), le(ZERO, bj), lt(bj, nn)), lambda x: el(bi, bj), None)
            e = Entry(self.nseq(), "set", add(Co, add(bi, mul(bj, ldc))), v, ((bj, ZERO, nn), (bi, ZERO, m)), st.pc, "d", n.get("l"))
            st.logs[(Cb, ())] = st.logs.get((Cb, ()), ()) + (e,)
            return None
        except ValueError:
            return NotImplemented

    def fill_at(self, st, base, off, cnt, fval, ty, n):
        """for k in [0,cnt): base[off+k] = fval(k)"""
        if off.op == "unk" or cnt.op == "unk" or base.op == "unk":
            return self.havoc_base(st, base, self.unk("fill", n))
        if off is ZERO:
            return self.fill(st, base, ZERO, cnt, fval, ty, n)
        c = ival(cnt)
        if c is not None and c <= 16:
            vals = [fval(num(i)) for i in range(c)]
            for i, v in enumerate(vals):
                self.write(st, (base, add(off, num(i)), ()), v, ty, n)
            return
        b = mk("sym", "%%k%d" % TM._fresh(), "i")
        v = self.under(st, (le(ZERO, b), lt(b, cnt)), fval, b)
        e = Entry(self.nseq(), "set", add(off, b), v, ((b, ZERO, cnt),), st.pc, ty, n.get("l") if n else None)
        st.logs[(base, ())] = st.logs.get((base, ()), ()) + (e,)

    def do_memcpy(self, args, st, n):
        d, s, sz = self.rv(args[0], st), self.rv(args[1], st), b2i(self.rv(args[2], st))
        et = ctype(deref_ty(strip_cast_ty(self, args[0])))
        es = SIZES.get(et) or (8 if et.endswith("*") else None)
        if es is None:
            et = ctype(deref_ty(strip_cast_ty(self, args[1])))
            es = SIZES.get(et) or (8 if et.endswith("*") else None)
        if es is None and et in self.P.enums:
            es = 4
        if d.op == "unk" or s.op == "unk" or sz.op == "unk" or es is None:
            u = self.unk("memcpy", n)
            if d.op != "unk":
                self.havoc_ptr(st, d, u, "void *")
            return d
        cnt = idiv(sz, num(es))
        k = self.kind(et)
        db, do = ptr_parts(d)
        sb, so = ptr_parts(s)
        s0 = self.snap(st)
        if db.op == "lv" and do is ZERO and ival(cnt) == 1 and (db, ()) in st.env:
            st.env[(db, ())] = self.read(st, self.loc_of(s), k)
            return d
        self.fill_at(st, db, do, cnt, lambda i: self.query(s0, sb, (), add(so, i), k), k, n)
        return d

    def sort_range(self, st, base, off, cnt, sign, ty, n):
        s0 = self.snap(st)
        j = mk("sym", "%%j%d" % TM._fresh(), "i")
        x = self.under(st, (le(ZERO, j), lt(j, cnt)), lambda _: self.query(s0, base, (), add(off, j), ty), None)
        if x.op == "unk" or cnt.op == "unk":
            return self.havoc_base(st, base, self.unk("sort", n))

        def at(i):
            k = i if sign > 0 else sub(sub(cnt, ONE), i)
            return quant("kth", j, ZERO, cnt, x, k)
        b = mk("sym", "%%k%d" % TM._fresh(), "i")
        e = Entry(self.nseq(), "set", add(off, b), at(b), ((b, ZERO, cnt),), st.pc, ty, n.get("l") if n else None)
        st.logs[(base, ())] = st.logs.get((base, ()), ()) + (e,)

    def fnarg(self, a):
        while a["k"] in ("cast", "un") and isinstance(a.get("a") or a.get("e"), dict):
            a = a.get("a") or a.get("e")
        if a["k"] == "ref" and a.get("dk") == "func":
            return self.P.fn_by_usr(a.get("u")) or self.P.fn(a["q"])
        return None

    def call_fn(self, fn, ptrs, st, n):
        return self.inline(fn, None, [("val", p) for p in ptrs], st, n)

    def cmp_sign(self, fn, ty, n):
        """+1 / -1 if the three-way comparator orders numbers ascending / descending, else 0"""
        from .interp import Model, Skip, Stop
        st = State()
        x, y = sym("cmp$x", "p"), sym("cmp$y", "p")
        v = b2i(self.call_fn(fn, [x, y], st, n))
        sg = None
        vals = (-3, 0, 2, 5) if ty == "i" else (-2.5, 0.25, 1.75, 4.5)
        for a in vals:
            for c in vals:
                try:
                    r = Model(1, {"cmp$x": [a], "cmp$y": [c]}).ev(v)
                except (Skip, Stop):
                    return 0
                s = (r > 0) - (r < 0)
                t = (a > c) - (a < c)
                if t == 0:
                    if s:
                        return 0
                    continue
                if s == 0 or (sg is not None and sg != s * t):
                    return 0
                sg = s * t
        return sg or 0

    def elem_ty(self, a):
        return self.kind(ctype(deref_ty(strip_cast_ty(self, a))))

    def do_bsearch(self, args, st, n):
        key, base, cnt = self.rv(args[0], st), self.rv(args[1], st), b2i(self.rv(args[2], st))
        fn = self.fnarg(args[4])
        if fn is None or any(x.op == "unk" for x in (key, base, cnt)):
            return self.unk("bsearch", n)
        j = mk("sym", "%%j%d" % TM._fresh(), "i")
        s2 = st.clone()
        s2.asm = s2.asm.plus(le(ZERO, j)).plus(lt(j, cnt))
        v = b2i(self.call_fn(fn, [key, padd(base, j)], s2, n))
        if v.op == "unk":
            return v
        hit = eq0(v)
        i = quant("first", j, ZERO, cnt, hit)
        if i.op == "unk":
            return i
        return ite(texists(j, ZERO, cnt, hit), padd(base, i), NULL)

    def do_qsort(self, args, st, n):
        base, cnt = self.rv(args[0], st), b2i(self.rv(args[1], st))
        fn = self.fnarg(args[3])
        ty = self.elem_ty(args[0])
        sg = self.cmp_sign(fn, ty, n) if fn is not None and ty in "di" else 0
        if base.op == "unk":
            return self.unk("qsort", n)
        b, off = ptr_parts(base)
        if not sg:
            self.havoc_base(st, b, self.unk("qsort", n), off)
            return None
        self.sort_range(st, b, off, cnt, sg, ty, n)
        return None

    def do_memset(self, args, st, n):
        d, v, sz = self.rv(args[0], st), self.rv(args[1], st), b2i(self.rv(args[2], st))
        et = ctype(deref_ty(strip_cast_ty(self, args[0])))
        es = SIZES.get(et) or (8 if et.endswith("*") else None) or (4 if et in self.P.enums else None)
        if d.op == "unk" or sz.op == "unk" or es is None or ival(v) != 0:
            if d.op != "unk":
                self.havoc_ptr(st, d, self.unk("memset", n), "void *")
            return d
        db, do = ptr_parts(d)
        k = self.kind(et)
        self.fill_at(st, db, do, idiv(sz, num(es)), lambda i: NULL if k == "p" else ZERO, k, n)
        return d

    def do_swap(self, args, st, n):
        k = self.kind(self.ty(args[0]))
        a, b = self.lv(args[0], st), self.lv(args[1], st)
        if a is None or b is None:
            return None
        if k in "dip":
            x, y = self.read(st, a, k), self.read(st, b, k)
            self.write(st, a, y, k, n)
            self.write(st, b, x, k, n)
        else:
            self.swap_vec(st, self.addr(a), self.addr(b), self.ty(args[0]), n)
        return None

    def swap_vec(self, st, a, b, t, n):
        t = ctype(t)
        if not is_vec(t):
            u = self.unk("swap", n)
            self.havoc_base(st, a, u)
            self.havoc_base(st, b, u)
            return
        ek = self.kind(vec_elem(t))
        s0 = self.snap(st)
        sa, sb = self.vsize(st, a), self.vsize(st, b)
        if ek == "o":
            self.havoc_base(st, self.vec(a), self.unk("swap", n))
            self.havoc_base(st, self.vec(b), self.unk("swap", n))
        else:
            self.fill(st, self.vec(a), ZERO, sb, lambda i: self.query(s0, self.vec(b), (), i, ek), ek, n)
            if b.op != "lv":
                self.fill(st, self.vec(b), ZERO, sa, lambda i: self.query(s0, self.vec(a), (), i, ek), ek, n)
        self.set_vsize(st, a, sb)
        self.set_vsize(st, b, sa)

    def ptr_cmp(self, op, a, b, n):
        if a.op == "unk" or b.op == "unk":
            return mk("bapp", "unk", a if a.op == "unk" else b)
        x, ox = ptr_parts(a)
        y, oy = ptr_parts(b)
        if op == "==":
            return peq(a, b)
        if op == "!=":
            return bnot(peq(a, b))
        if op == "-":
            return sub(ox, oy) if x is y else app("i:pdiff", a, b)
        if x is y:
            return {"<": lt, "<=": le, ">": lambda p, q: lt(q, p), ">=": lambda p, q: le(q, p)}[op](ox, oy)
        return mk("bapp", "pcmp" + op, a, b)

    def iter_method(self, f, name, n, st, ot):
        args = n["args"]
        op = f.get("op")
        o = n["obj"]
        if op is None:
            if name == "base":
                return self.rv(o, st)
            return NotImplemented
        if op == "*":
            p = self.rv(o, st)
            return self.loc_of(p) if p.op != "unk" else (p, ZERO, ())
        if op == "[]":
            p = padd(self.rv(o, st), b2i(self.rv(args[0], st)))
            return self.loc_of(p) if p.op != "unk" else (p, ZERO, ())
        if op == "->":
            return self.rv(o, st)
        if op in ("++", "--"):
            loc = self.lv(o, st)
            old = self.read(st, loc, "p")
            new = padd(old, ONE if op == "++" else num(-1))
            self.write(st, loc, new, "p", n)
            return old if args else new
        if op in ("+", "-"):
            p = self.rv(o, st)
            v = self.rv(args[0], st)
            if self.kind(self.ty(args[0])) == "p":
                return self.ptr_cmp("-", p, v, n)
            return padd(p, b2i(v) if op == "+" else neg(b2i(v)))
        if op in ("+=", "-="):
            loc = self.lv(o, st)
            v = b2i(self.rv(args[0], st))
            self.write(st, loc, padd(self.read(st, loc, "p"), v if op == "+=" else neg(v)), "p", n)
            return loc
        if op == "=":
            loc = self.lv(o, st)
            self.write(st, loc, self.rv(args[0], st), "p", n)
            return loc
        return NotImplemented

    def range_method(self, name, n, st):
        l = self.lv(n["obj"], st)
        if l is None:
            return NotImplemented
        a = self.addr(l)
        b, e = st.env.get((a, ("#b",))), st.env.get((a, ("#e",)))
        if b is None:
            return NotImplemented
        if name == "begin":
            return b
        if name == "end":
            return e
        if name == "size":
            return self.ptr_cmp("-", e, b, n)
        if name == "empty":
            return peq(b, e)
        if name == "operator[]":
            p = padd(b, b2i(self.rv(n["args"][0], st)))
            return self.loc_of(p) if p.op != "unk" else (p, ZERO, ())
        return NotImplemented

    def smart_ptr(self, name, f, n, st, ot):
        l = self.lv(n["obj"], st)
        if l is None:
            return NotImplemented
        loc = self.member(l, "#ptr")
        if name in ("operator*",):
            p = self.read(st, loc, "p")
            return self.loc_of(p) if p.op != "unk" else (p, ZERO, ())
        if name in ("operator->", "get"):
            return self.read(st, loc, "p")
        if name == "reset":
            v = self.rv(n["args"][0], st) if n["args"] else NULL
            self.write(st, loc, v, "p", n)
            return None
        if name in ("operator bool", "operator!"):
            v = peq(self.read(st, loc, "p"), NULL)
            return v if name == "operator!" else bnot(v)
        if name == "operator=":
            v = self.rv(n["args"][0], st)
            if v.op == "unk":
                self.write(st, loc, v, "p", n)
            else:
                sl = self.member(self.loc_of(v), "#ptr")
                self.write(st, loc, self.read(st, sl, "p"), "p", n)
            return l
        return NotImplemented

    # ------------------------------------------------------------ maps and sets
    # Every key has a slot; a container is an array over slots with a presence mark and a count. Iteration runs over positions 0..size-1.
    def mapcells(self, t):
        a = targs(ctype(t))
        out = [(("!has",), "i")]
        if t.startswith("std::map<"):
            for nm, x in (("first", a[0]), ("second", a[1])):
                k = self.kind(x)
                if k in "dip":
                    out.append(((nm,), k))
        elif self.kind(a[0]) in "dip":
            out.append(((), self.kind(a[0])))
        return out

    def slot(self, st, addr, v):
        if v.op == "lv" or v.op in ("sub", "ptr") and False:
            x = st.env.get((v, ("#str",)))
            if x is not None and x.op == "str":
                v = x
        if v.op == "str":
            return num(SLOT0 + SLOTNO.setdefault(v.a[0], len(SLOTNO)))
        if v.op == "num":
            return num(SLOT0 + SLOTNO.setdefault(str(v.a[0]), len(SLOTNO)))
        t = self.callterm("slot", [v], st)
        return t if t.op == "unk" else mk("load", t, ("#ret",), ZERO, "i")

    def iter_eq(self, a, b):
        if a.op == "ite":
            return bor(band(a.a[0], self.iter_eq(a.a[1], b)), band(bnot(a.a[0]), self.iter_eq(a.a[2], b)))
        if b.op == "ite":
            return self.iter_eq(b, a)
        x, ox = ptr_parts(a)
        y, oy = ptr_parts(b)
        if x is y:
            for o, q in ((ox, oy), (oy, ox)):
                if self.is_slot(o) and not self.is_slot(q) and q.op != "num":
                    return FALSE        # the slot of a key that is present is not the end
        return peq(a, b)

    def is_slot(self, o):
        return o.op == "num" and o.a[0] >= SLOT0 or o.op == "load" and o.a[1] == ("#ret",) and o.a[0].op == "app" and o.a[0].a[0] == "call:slot"

    def map_clear(self, st, addr, n):
        vb = self.vec(addr)
        self.fill(st, vb, ZERO, num(SLOTS), lambda i: ZERO, "i", n, ("!has",))
        self.set_vsize(st, addr, ZERO)

    def map_add(self, st, addr, sl, key, kt, n, vt=None):
        """make the slot present; returns the condition that it was not"""
        vb = self.vec(addr)
        has = self.read(st, (vb, sl, ("!has",)), "i")
        new = mk("bapp", "unk", has) if has.op == "unk" else eq0(has)
        self.set_vsize(st, addr, add(self.vsize(st, addr), b2i(new)))
        kk = self.kind(kt)
        if kk in "dip":
            self.write(st, (vb, sl, ("first",) if vt else ()), key, kk, n)
        if vt and self.kind(vt) in "dip" and new is not FALSE:
            k = self.kind(vt)
            old = self.read(st, (vb, sl, ("second",)), k) if new is not TRUE else None
            z = NULL if k == "p" else ZERO
            self.write(st, (vb, sl, ("second",)), z if old is None else ite(new, z, old), k, n)
        self.write(st, (vb, sl, ("!has",)), ONE, "i", n)
        return new

    def map_method(self, name, f, n, st, ot):
        args = n["args"]
        o = n["obj"]
        if n.get("arrow"):
            addr = self.rv(o, st)
        else:
            l = self.lv(o, st)
            addr = self.addr(l) if l is not None else self.unk("map", n)
        ta = targs(ot)
        ismap = ot.startswith("std::map<")
        kt, vt = ta[0], (ta[1] if ismap else None)
        vals = []
        for a in args:
            v = self.rv(a, st)
            v = self.addr(v) if isinstance(v, tuple) else v
            vals.append(self.unk("argument") if v is None else b2i(v) if is_bool(v) else v)
        if addr.op in ("unk", "ite") or any(v.op == "unk" for v in vals):
            u = next((v for v in [addr] + vals if v.op == "unk"), None) or self.unk("choice of map", n)
            if not f.get("const") and name not in LOOK and addr.op not in ("unk", "ite"):
                self.havoc_base(st, self.vec(addr), u)
                self.set_vsize(st, addr, u)
            elif not f.get("const") and name not in LOOK:
                self.wild = True
            return (u, ZERO, ()) if name in ("operator[]", "at") else u
        vb = self.vec(addr)
        if name in ("size", "empty"):
            z = self.vsize(st, addr)
            return z if name == "size" else mk("bapp", "unk", z) if z.op == "unk" else eq0(z)
        if name in ("begin", "cbegin"):
            return vb
        if name in ("end", "cend"):
            return padd(vb, self.vsize(st, addr))
        if name == "clear":
            self.map_clear(st, addr, n)
            return None
        if name in ("operator[]", "at", "find", "count", "erase") and len(args) == 1 and not is_mapiter(ctype(self.ty(args[0]).rstrip("& "))):
            sl = self.slot(st, addr, vals[0])
            if sl.op == "unk":
                if name in ("operator[]", "erase"):
                    self.havoc_base(st, vb, sl)
                return (sl, ZERO, ()) if name in ("operator[]", "at") else sl
            if name == "operator[]":
                self.map_add(st, addr, sl, vals[0], kt, n, vt)
                return (vb, sl, ("second",))
            has = self.read(st, (vb, sl, ("!has",)), "i")
            c = mk("bapp", "unk", has) if has.op == "unk" else bnot(eq0(has))
            if name == "at":
                s2 = st.clone()
                s2.pc = band(st.pc, bnot(c))
                if s2.pc is not FALSE:
                    self.do_throw(s2, n)
                return (vb, sl, ("second",))
            if name == "find":
                z = self.vsize(st, addr)
                return z if z.op == "unk" else has if has.op == "unk" else ite(c, padd(vb, sl), padd(vb, z))
            if name == "count":
                return has if has.op == "unk" else b2i(c)
            self.set_vsize(st, addr, sub(self.vsize(st, addr), b2i(c)))
            self.write(st, (vb, sl, ("!has",)), ZERO, "i", n)
            return b2i(c)
        if name == "insert" and len(args) == 1:
            v = vals[0]
            self.nf += 1
            res = mk("lv", "tmp%d" % self.nf, "temporary")
            if ismap:
                l = self.loc_of(v)
                kk = self.kind(kt)
                fl = self.member(l, "first")
                key = self.read(st, fl, kk) if kk in "dip" else self.addr(fl)
            else:
                key = v
            if key.op == "unk":
                sl = key
            else:
                sl = self.slot(st, addr, key)
            if sl.op == "unk":
                self.havoc_base(st, vb, sl)
                self.set_vsize(st, addr, sl)
                st.env[(res, ("first",))] = sl
                st.env[(res, ("second",))] = sl
                return res
            kv = self.kind(vt) if ismap else None
            old = None
            if ismap and kv in "dip":
                old = self.read(st, (vb, sl, ("second",)), kv)
                val = self.read(st, self.member(l, "second"), kv)
            new = self.map_add(st, addr, sl, key, kt, n, None if not ismap else "void")
            if ismap and kv in "dip":
                self.write(st, (vb, sl, ("second",)), ite(new, val, old), kv, n)
            elif ismap:
                s1, s2 = st.clone(), st.clone()
                s1.pc = band(st.pc, new)
                s2.pc = band(st.pc, bnot(new))
                src = self.addr(self.member(l, "second"))
                self.havoc_base(s1, vb, self.callterm("inserted", [src], st), sl)
                self.merge(st, new, s1, s2)
            st.env[(res, ("first",))] = padd(vb, sl)
            st.env[(res, ("second",))] = b2i(new)
            return res
        if name == "operator=" and len(args) == 1:
            self.vec_copy(st, addr, vals[0], ot, n)
            return self.loc_of(addr)
        return NotImplemented

    def vec_method(self, name, n, st, ot):
        args = n["args"]
        o = n["obj"]
        if n.get("arrow"):
            addr = self.rv(o, st)
        else:
            l = self.lv(o, st)
            addr = self.addr(l) if l is not None else self.unk("vec", n)
        if addr.op == "unk":
            for a in args:
                self.rv(a, st)
            return (addr, ZERO, ()) if name in ("operator[]", "at", "front", "back") else addr
        ek = self.kind(vec_elem(ot))
        if addr.op == "ite" and name in ("operator[]", "at", "front", "data", "begin"):
            vb = ite(addr.a[0], self.vec(addr.a[1]), self.vec(addr.a[2]))
        else:
            vb = self.vec(addr)
        R = lambda i: self.rv(args[i], st)
        if name in ("operator[]", "at"):
            i = b2i(R(0))
            if i.op == "unk":
                return (i, ZERO, ())
            return (vb, i, ())
        if name == "size":
            if "array<" in ot[:20]:
                m = re.search(r",\s*(\d+)", ot)
                return num(int(m.group(1))) if m else self.unk("array size", n)
            return self.vsize(st, addr)
        if name == "empty":
            return eq0(self.vsize(st, addr))
        if name in ("begin", "data", "cbegin"):
            return vb
        if name in ("end", "cend"):
            if "array<" in ot[:20]:
                m = re.search(r",\s*(\d+)", ot)
                return padd(vb, num(int(m.group(1))))
            return padd(vb, self.vsize(st, addr))
        if name == "front":
            return (vb, ZERO, ())
        if name == "back":
            return (vb, sub(self.vsize(st, addr), ONE), ())
        if name in ("reserve", "shrink_to_fit"):
            for a in args:
                self.rv(a, st)
            return None
        if name == "clear":
            self.set_vsize(st, addr, ZERO)
            return None
        if name == "resize":
            sz = b2i(R(0))
            old = self.vsize(st, addr)
            if ek in "dip":
                v = R(1) if len(args) > 1 and not args[1].get("dflt") else (NULL if ek == "p" else ZERO)
                self.fill(st, vb, old, sz, lambda i: v, ek, n)
            self.set_vsize(st, addr, sz)
            return None
        if name == "assign":
            k0 = self.kind(self.ty(args[0]))
            if k0 in "di":
                sz = b2i(R(0))
                v = R(1)
                if ek in "dip":
                    self.fill(st, vb, ZERO, sz, lambda i: v, ek, n)
                else:
                    self.havoc_base(st, vb, self.unk("assign", n))
                self.set_vsize(st, addr, sz)
            elif not self.reverse_range(st, addr, args, ek, n):
                self.vec_assign_range(st, addr, R(0), R(1), ek, n)
            return None
        if name in ("push_back", "emplace_back"):
            sz = self.vsize(st, addr)
            v = R(0)
            if sz.op == "unk":
                self.havoc_base(st, vb, sz)
            elif ek in "dip":
                self.write(st, (vb, sz, ()), v, ek, n)
            else:
                if not is_vec(vec_elem(ot)) and v.op != "unk" and self.P.records.get(ctype(vec_elem(ot))):
                    self.copy_object(st, (vb, sz, ()), v, vec_elem(ot), n)
                else:
                    self.havoc_base(st, vb, self.unk("push_back object", n))
            self.set_vsize(st, addr, add(sz, ONE))
            return None
        if name == "pop_back":
            self.set_vsize(st, addr, sub(self.vsize(st, addr), ONE))
            return None
        if name == "operator=":
            v = R(0)
            self.copy_object(st, self.loc_of(addr), v, ot, n)
            return self.loc_of(addr)
        if name == "swap":
            l2 = self.lv(args[0], st)
            if l2 is None:
                return None
            self.swap_vec(st, addr, self.addr(l2), ot, n)
            return None
        if name == "insert" and len(args) in (2, 3) and ek in "dip":
            pos = R(0)
            p, op_ = ptr_parts(pos)
            sz = self.vsize(st, addr)
            s0 = self.snap(st)
            cnt = None
            if len(args) == 2 and self.kind(self.ty(args[1])) == ek:
                v = R(1)
                cnt, val = ONE, lambda i: v
            elif len(args) == 3 and self.kind(self.ty(args[1])) in "id" and not self.ty(args[1]).rstrip().endswith("*"):
                c, v = b2i(R(1)), R(2)
                cnt, val = c, lambda i: v          # counts are taken to be non-negative, as in loops
            elif len(args) == 3:
                a, b = R(1), R(2)
                if isptrish(a) and isptrish(b):
                    x, ox = ptr_parts(a)
                    y, oy = ptr_parts(b)
                    if x is y and x is not vb:
                        cnt, val = sub(oy, ox), lambda i: self.query(s0, x, (), add(ox, i), ek)
            if cnt is not None and cnt.op != "unk" and sz.op != "unk" and pos.op != "unk" and p is vb:
                if op_ is not sz:
                    self.fill_at(st, vb, add(op_, cnt), sub(sz, op_), lambda i: self.query(s0, vb, (), add(op_, i), ek), ek, n)
                self.fill_at(st, vb, op_, cnt, val, ek, n)
                self.set_vsize(st, addr, add(sz, cnt))
                return pos
            u = self.unk("vector::insert", n)
            self.havoc_base(st, vb, u)
            self.set_vsize(st, addr, u)
            return u
        if name == "rbegin" or name == "rend":
            return self.unk("reverse iterator", n)
        for a in args:
            self.rv(a, st)
        u = self.unk("vector::" + name, n)
        self.havoc_base(st, vb, u)
        self.set_vsize(st, addr, u)
        return u

    def algorithm(self, b, n, st):
        args = n["args"]
        R = lambda i: self.rv(args[i], st)
        k = self.kind(deref_ty(self.ty(args[0]))) if args else "d"

        def rng(i, j):
            a, c = R(i), R(j)
            x, ox = ptr_parts(a)
            y, oy = ptr_parts(c)
            if a.op == "unk" or c.op == "unk" or x is not y:
                return None
            return x, ox, sub(oy, ox)
        if b == "fill":
            r = rng(0, 1)
            v = R(2)
            if r is None:
                return self.wildcard(args[0], st, n)
            self.fill_at(st, r[0], r[1], r[2], lambda i: b2i(v) if k in "di" else v, k, n)
            return None
        if b == "fill_n":
            p, c, v = R(0), b2i(R(1)), R(2)
            x, ox = ptr_parts(p)
            if p.op == "unk":
                return p
            self.fill_at(st, x, ox, c, lambda i: v, k, n)
            return padd(p, c)
        if b == "copy":
            r = rng(0, 1)
            if self.kind(self.ty(args[2])) != "p":
                return self.unk("io", n)
            d = R(2)
            if r is None or d.op == "unk":
                return self.wildcard(args[2], st, n)
            y, oy = ptr_parts(d)
            s0 = self.snap(st)
            self.fill_at(st, y, oy, r[2], lambda i: self.query(s0, r[0], (), add(r[1], i), k), k, n)
            return padd(d, r[2])
        if b == "transform":
            r = rng(0, 1)
            bin_ = len(args) == 5
            q = R(2)
            d = R(3) if bin_ else q
            fo = args[-1]
            ft = self.ty(fo)
            fnn = next((nm for nm in ("multiplies", "divides", "plus", "minus", "negate") if "std::" + nm + "<" in ft), None)
            if r is None or d.op == "unk" or q.op == "unk" or fnn is None:
                return self.wildcard(args[3] if bin_ else args[2], st, n)
            y, oy = ptr_parts(d)
            z, oz = ptr_parts(q)
            s0 = self.snap(st)

            def fv(i):
                u = self.query(s0, r[0], (), add(r[1], i), k)
                if not bin_:
                    return neg(u)
                w = self.query(s0, z, (), add(oz, i), k)
                return {"multiplies": mul, "divides": div, "plus": add, "minus": sub}[fnn](u, w)
            self.fill_at(st, y, oy, r[2], fv, k, n)
            return padd(d, r[2])
        if b in ("accumulate", "inner_product"):
            r = rng(0, 1)
            if r is None or len(args) > (3 if b == "accumulate" else 4):
                for a in args[2:]:
                    self.rv(a, st)
                return self.unk(b, n)
            j = mk("sym", "%%j%d" % TM._fresh(), "i")
            if b == "accumulate":
                v0 = b2i(R(2))
                if self.kind(self.ty(args[2])) == "i" and k == "d":
                    return app("i:intaccumulate", self.tsumf(j, ZERO, r[2], lambda: self.query(st, r[0], (), add(r[1], j), k)))
                return add(v0, self.tsumf(j, ZERO, r[2], lambda: self.query(st, r[0], (), add(r[1], j), k)))
            q, v0 = R(2), b2i(R(3))
            if q.op == "unk":
                return q
            z, oz = ptr_parts(q)
            return add(v0, self.tsumf(j, ZERO, r[2], lambda: mul(self.query(st, r[0], (), add(r[1], j), k), self.query(st, z, (), add(oz, j), k))))
        if b == "partial_sum" and len(args) == 3:
            r = rng(0, 1)
            d = R(2)
            if r is None or d.op == "unk":
                return self.wildcard(args[2], st, n)
            y, oy = ptr_parts(d)
            s0 = self.snap(st)
            j = mk("sym", "%%j%d" % TM._fresh(), "i")
            self.fill_at(st, y, oy, r[2], lambda i: self.tsumf(j, ZERO, add(i, ONE), lambda: self.query(s0, r[0], (), add(r[1], j), k)), k, n)
            return padd(d, r[2])
        if b in ("max_element", "min_element") and len(args) == 2:
            r = rng(0, 1)
            if r is None:
                return self.unk(b, n)
            j = mk("sym", "%%j%d" % TM._fresh(), "i")
            body = self.under(st, (le(ZERO, j), lt(j, r[2])), lambda x: self.query(st, r[0], (), add(r[1], j), k), None)
            i = quant("argmax" if b == "max_element" else "argmin", j, ZERO, r[2], body)
            if i.op == "unk":
                return i
            return padd(r[0], add(r[1], i))
        if b in ("lower_bound", "upper_bound") and len(args) == 3 and k in "di":
            r = rng(0, 1)
            v = b2i(R(2))
            if r is None or v.op == "unk":
                return self.unk(b, n)
            j = mk("sym", "%%j%d" % TM._fresh(), "i")
            test = (lambda x: le(v, x)) if b == "lower_bound" else (lambda x: lt(v, x))
            body = self.under(st, (le(ZERO, j), lt(j, r[2])), lambda x: test(self.query(st, r[0], (), add(r[1], j), k)), None)
            i = quant("first", j, ZERO, r[2], body)
            return i if i.op == "unk" else padd(r[0], add(r[1], i))
        if b == "sort" and len(args) == 2 and k in "di":
            r = rng(0, 1)
            if r is not None:
                self.sort_range(st, r[0], r[1], r[2], 1, k, n)
                return None
        if b == "reverse" and k in "dip":
            r = rng(0, 1)
            if r is not None:
                s0 = self.snap(st)
                self.fill_at(st, r[0], r[1], r[2], lambda i: self.query(s0, r[0], (), sub(add(r[1], r[2]), add(i, ONE)), k), k, n)
                return None
        if b == "iota" and k == "i":
            r = rng(0, 1)
            v = b2i(R(2))
            if r is not None:
                self.fill_at(st, r[0], r[1], r[2], lambda i: add(v, i), k, n)
                return None
        if b == "copy_n" and k in "dip":
            p, c, d = R(0), b2i(R(1)), R(2)
            if p.op != "unk" and d.op != "unk" and self.kind(self.ty(args[2])) == "p":
                x, ox = ptr_parts(p)
                y, oy = ptr_parts(d)
                s0 = self.snap(st)
                self.fill_at(st, y, oy, c, lambda i: self.query(s0, x, (), add(ox, i), k), k, n)
                return padd(d, c)
        if b in ("distance",) and len(args) == 2:
            r = rng(0, 1)
            if r is not None:
                return r[2]
        if b in ("next", "prev") and self.kind(self.ty(args[0])) == "p":
            p = R(0)
            d = b2i(R(1)) if len(args) > 1 and not args[1].get("dflt") else ONE
            if p.op != "unk":
                return padd(p, d if b == "next" else neg(d))
        if b in ("find", "count") and len(args) == 3 and k in "di":
            r = rng(0, 1)
            v = b2i(R(2))
            if r is not None and v.op != "unk":
                j = mk("sym", "%%j%d" % TM._fresh(), "i")
                test = lambda: eq(self.query(st, r[0], (), add(r[1], j), k), v)
                if b == "count":
                    return self.tsumf(j, ZERO, r[2], lambda: b2i(test()))
                body = self.under(st, (le(ZERO, j), lt(j, r[2])), lambda x: test(), None)
                i = quant("first", j, ZERO, r[2], body)
                return i if i.op == "unk" else padd(r[0], add(r[1], i))
        if b == "equal" and len(args) == 3 and k in "di":
            r = rng(0, 1)
            q = R(2)
            if r is not None and q.op != "unk":
                z, oz = ptr_parts(q)
                j = mk("sym", "%%j%d" % TM._fresh(), "i")
                return bnot(texists(j, ZERO, r[2], bnot(eq(self.query(st, r[0], (), add(r[1], j), k), self.query(st, z, (), add(oz, j), k)))))
        for a in args:
            self.rv(a, st)
        if b not in LOOKALG:
            for a in args:
                if self.kind(self.ty(a)) in ("p", "arr"):
                    self.wildcard(a, st, n)
                elif a.get("k") == "lambda" or "reverse_iterator" in self.ty(a) or "insert_iterator" in self.ty(a):
                    self.wild = True
        return self.unk("std::" + b, n)

    def wildcard(self, a, st, n):
        v = self.rv(a, st)
        u = self.unk("algorithm", n)
        if v.op != "unk":
            self.havoc_ptr(st, v, u, "void *")
        return u

    # ------------------------------------------------------------ statements
    def exec(self, s, st):
        if s is None or st.dead:
            return
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        getattr(self, "s_" + s["k"], self.s_unknown)(s, st)

    def s_unknown(self, s, st):
        self.unknowns.append(("stmt " + s["k"], s.get("l"), ""))
        self.clobber_all(st, s)

    def clobber_all(self, st, s):
        for d in self.assigned(s):
            for k in list(st.env):
                if k[0].op == "lv" and k[0].a[0] == "f%d_%d" % (self.fr.id, d):
                    st.env[k] = self.unk("unknown statement")

    def s_null(self, s, st):
        pass

    def s_expr(self, s, st):
        self.rv(s["e"], st)

    def s_block(self, s, st):
        for x in s["b"]:
            if st.dead:
                # labels would be reachable by goto only
                return
            self.exec(x, st)

    def s_decl(self, s, st):
        for v in s["v"]:
            self.declare(v, st)

    def declare(self, v, st):
        fr = self.fr
        t = fr.T[v["t"]]
        d = v["d"]
        fr.vartype[d] = t
        fr.refs.pop(d, None)
        b = self.lvbase(fr, d, v["n"])
        if d in fr.prebase:
            b = fr.refs[d] = fr.prebase[d]
        init = v.get("init")
        if t.endswith("&"):
            if init is None:
                return
            l = self.lv(init, st)
            fr.refs[d] = self.addr(l) if l is not None else self.unk("ref", v)
            return
        if v.get("static"):
            # value set at first execution only; constants are usable
            pass
        k = self.kind(t)
        if k == "arr":
            self.arrs.add(b)
        # a fresh object each time the declaration is reached
        self.clear_local(st, b)
        self.copies.pop(b, None)
        if self.loadlog is not None and (k == "arr" or k == "o" and is_vec(ctype(t))):
            vb = b if k == "arr" else mk("vec", b)
            st.logs[(vb, ())] = (Entry(self.nseq(), "hav", ZERO, unk("uninitialised %s" % v["n"]), (), TRUE, None, v.get("l")),)
        if k == "o":
            if init is not None:
                self.init_object(st, (b, ZERO, ()), init, t)
            return
        if k == "arr":
            if init is not None and init["k"] == "init":
                self.init_object(st, (b, ZERO, ()), init, t)
            elif init is not None:
                self.rv(init, st)
            return
        if init is not None:
            x = self.rv(init, st)
            if k == "p" and x.op == "num" and x.a[0] == 0:
                x = NULL
            if k in "d" and is_bool(x):
                x = b2i(x)
            if k == "i" and t != "bool" and is_bool(x):
                x = b2i(x)
            st.env[(b, ())] = x

    def s_if(self, s, st):
        if s.get("init"):
            self.exec(s["init"], st)
        if s.get("cvar"):
            self.declare(s["cvar"], st)
        c = tob(self.rv(s["c"], st))
        if st.dead:
            return
        c = st.facts().simp(c)
        if c is TRUE:
            return self.exec(s["a"], st)
        if c is FALSE:
            return self.exec(s.get("b"), st)
        s1, s2 = st.clone(), st.clone()
        s1.pc, s2.pc = band(st.pc, c), band(st.pc, bnot(c))
        self.exec(s["a"], s1)
        self.exec(s.get("b"), s2)
        self.merge(st, c, s1, s2)

    def s_return(self, s, st):
        fr = self.fr
        v = None
        if s.get("e") is not None:
            rt = fr.T[fr.fn.d["ret"]] if fr.fn else ""
            if rt.endswith("&"):
                l = self.lv(s["e"], st)
                v = l if l is not None else self.unk("ref return", s)
            elif self.kind(rt) == "o":
                v = self.rv(s["e"], st)
            else:
                v = self.rv(s["e"], st)
                if isinstance(v, T) and self.kind(rt) == "p" and v.op == "num" and v.a[0] == 0:
                    v = NULL
        if not st.dead:
            fr.returns.append((st.pc, v, dict(st.env), st.asm))
            st.dead = "ret"

    def s_break(self, s, st):
        self.fr.loops[-1].breaks.append((st.pc, dict(st.env), st.asm))
        st.dead = "brk"

    def s_continue(self, s, st):
        for lf in reversed(self.fr.loops):
            if isinstance(lf, LoopFrame):
                if getattr(lf, "switch", False):
                    continue
                lf.conts.append((st.pc, dict(st.env), st.asm))
                break
        st.dead = "cont"

    def s_goto(self, s, st):
        self.unknowns.append(("goto", s.get("l"), ""))
        st.dead = "goto"

    def s_label(self, s, st):
        self.exec(s["s"], st)

    def s_case(self, s, st):
        self.exec(s["s"], st)

    s_default = s_case

    def s_try(self, s, st):
        self.exec(s["b"], st)

    def s_switch(self, s, st):
        v = b2i(self.rv(s["c"], st))
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        flat = []       # (labels, stmt)
        for x in body:
            labs = []
            while x is not None and x["k"] in ("case", "default"):
                labs.append(x)
                x = x["s"]
            flat.append((labs, x))
        entries = []
        default = None
        for i, (labs, _) in enumerate(flat):
            for l in labs:
                if l["k"] == "default":
                    default = i
                else:
                    entries.append((self.rv(l["v"], st), i))
        self._switch(v, entries, default, flat, st)

    def _switch(self, v, entries, default, flat, st):
        def run(i, s):
            lf = LoopFrame()
            lf.switch = True
            self.fr.loops.append(lf)
            pc0 = s.pc
            for labs, x in flat[i:]:
                if s.dead:
                    break
                self.exec(x, s)
            self.fr.loops.pop()
            self.join_exits(s, lf.breaks, "brk", pc0)
        if not entries:
            if default is not None:
                run(default, st)
            return
        # group consecutive labels with the same target
        (val, i) = entries[0]
        c = st.facts().simp(eq(v, val))
        rest = entries[1:]
        same = [e for e in rest if e[1] == i]
        if same:
            c = st.facts().simp(bor(c, *[eq(v, e[0]) for e in same]))
            rest = [e for e in rest if e[1] != i]
        if c is TRUE:
            return run(i, st)
        if c is FALSE:
            return self._switch(v, rest, default, flat, st)
        s1, s2 = st.clone(), st.clone()
        s1.pc, s2.pc = band(st.pc, c), band(st.pc, bnot(c))
        run(i, s1)
        self._switch(v, rest, default, flat, s2)
        self.merge(st, c, s1, s2)

    def join_exits(self, st, exits, why, pc0):
        """merge break/continue exits back into st"""
        if not exits:
            return
        f0 = Facts().plus(pc0)

        def rel(pc):
            cs = pc.a[0] if pc.op == "and" else (pc,)
            return band(*[c for c in cs if not f0.implies(c)])
        if st.dead:
            pc, env, asm = exits[-1]
            st.env = dict(env)
            st.asm = asm
            st.pc = pc
            rest = exits[:-1]
            st.dead = None
        else:
            rest = exits
        for pc, env, asm in reversed(rest):
            c = rel(pc)
            new = {}
            for k in set(env) | set(st.env):
                a, b = env.get(k), st.env.get(k)
                if a is b:
                    new[k] = a
                    continue
                if a is None:
                    a = self.default_env(st.under(pc, asm), k, b)
                if b is None:
                    b = self.default_env(st, k, a)
                if a is None or b is None:
                    continue
                new[k] = self.vmerge(c, a, b)
            st.env = new
            st.pc = bor(st.pc, pc)
            st.asm = Facts(st.asm.s & asm.s, tuple(p for p in st.asm.les if p in asm.les))
        if f0.plus(TRUE).implies(st.pc) or bnot(st.pc) is FALSE:
            st.pc = pc0

    # ------------------------------------------------------------ loops
    def assigned(self, s, out=None):
        """local variable ids that the statement may modify in this frame"""
        if out is None:
            out = set()
        if isinstance(s, list):
            for x in s:
                self.assigned(x, out)
            return out
        if not isinstance(s, dict):
            return out
        k = s.get("k")
        if k == "asg":
            self._root(s["a"], out)
        elif k == "un" and s["op"] in ("++", "--", "p++", "p--", "&"):
            self._root(s["e"], out)
        elif k == "call":
            f = s.get("f", {})
            pts = f.get("pt", [])
            for i, a in enumerate(s.get("args", [])):
                t = self.fr.T[pts[i]] if i < len(pts) else ""
                if t.endswith("&") and not t.startswith("const "):
                    self._root(a, out)
            if "obj" in s and not f.get("const") and f.get("cls"):
                self._root(s["obj"], out)
        for v in s.values():
            if isinstance(v, (dict, list)):
                self.assigned(v, out)
        return out

    def _root(self, n, out):
        while n is not None:
            k = n["k"]
            if k == "ref":
                if "d" in n:
                    out.add(n["d"])
                return
            if k == "mem" and not n.get("arrow"):
                n = n["b"]
            elif k == "idx":
                bt = ctype(self.ty(n["b"])) if n["b"].get("t") is not None else "*"
                if n["b"]["k"] == "cast" and self.ty(n["b"]["e"]).endswith("]"):
                    bt = "]"
                if bt.endswith("*"):
                    return
                n = n["b"]
            elif k in ("cast",):
                n = n["e"]
            elif k == "call" and n.get("oper") == "[]":
                n = n.get("obj") or (n["args"][0] if n["args"] else None)
            elif k == "un":
                if n["op"] in ("*", "d*", "deref"):
                    return
                n = n["e"]
            elif k == "cond":
                self._root(n["a"], out)
                n = n["b"]
            else:
                return

    def s_while(self, s, st):
        if s.get("cvar"):
            self.declare(s["cvar"], st)
        self.loop(s, st, s["c"], s["b"], None)

    def s_for(self, s, st):
        if s.get("init"):
            self.exec(s["init"], st)
        self.loop(s, st, s.get("c"), s["b"], s.get("inc"))

    def s_do(self, s, st):
        s0 = st.clone()
        n0, t0, r0 = len(self.calls), len(self.throws), len(self.fr.returns)
        r = self.do_once(s, st)
        if r is None:
            return
        # the body may run again: start over as a general loop
        del self.calls[n0:]
        del self.throws[t0:]
        del self.fr.returns[r0:]
        st.take(s0)
        st.dead = None
        self.nf += 1
        go = (mk("lv", "go%d" % self.nf, "go"), ())
        st.env[go] = ONE
        self.loop(s, st, None, s["b"], None, opaque=True, extra=[go], dowhile=(go, s["c"]))

    def do_once(self, s, st):
        lf = LoopFrame()
        self.fr.loops.append(lf)
        pc0 = st.pc
        self.exec(s["b"], st)
        self.fr.loops.pop()
        self.join_exits(st, lf.conts, "cont", pc0)
        if st.dead:
            if lf.breaks:
                self.join_exits(st, lf.breaks, "brk", pc0)
            return
        snap, seq0 = None, self.seq
        c = st.facts().simp(tob(self.rv(s["c"], st)))
        if c is not FALSE:
            return "again", lf
        if lf.breaks:
            self.join_exits(st, lf.breaks, "brk", pc0)

    def s_rangefor(self, s, st):
        rt = ctype(self.ty(s["r"]))
        l = self.lv(s["r"], st)
        if l is None or not is_vec(rt):
            self.unknowns.append(("range for", s.get("l"), ""))
            return self.loop(s, st, None, s["b"], None, opaque=True)
        addr = self.addr(l)
        sz = self.vsize(st, addr)
        self.nf += 1
        it = mk("lv", "it%d" % self.nf, "it")
        st.env[(it, ())] = ZERO
        v = s["v"]
        fr = self.fr
        vt = fr.T[v["t"]]

        def pre(s2):
            i = s2.env[(it, ())]
            loc = (self.vec(addr), i, ()) if i.op != "unk" else (i, ZERO, ())
            if vt.endswith("&"):
                fr.refs[v["d"]] = self.addr(loc)
            else:
                b = self.lvbase(fr, v["d"], v["n"])
                k = self.kind(vt)
                if k == "o":
                    self.copy_object(s2, (b, ZERO, ()), self.addr(loc), vt, s)
                else:
                    s2.env[(b, ())] = self.read(s2, loc, k)

        def cond(s2):
            return lt(s2.env[(it, ())], sz)

        def inc(s2):
            s2.env[(it, ())] = add(s2.env[(it, ())], ONE)
        self.loop(s, st, None, s["b"], None, hooks=(cond, pre, inc), extra=[(it, ())])

    def late_keys(self, st, env0, R2, phis, b):
        """scalars changed by the body with the closed forms in place that pass A did not see"""
        out = []
        for e in [R2["env"]] + [x[1] for x in R2["breaks"]]:
            for k, v in e.items():
                if k in phis or k in out or occurs(b, k[0]):
                    continue
                if k in env0:
                    if v is not env0[k] and st.env.get(k) is not None:
                        out.append(k)
                elif self._outer_key(k, st):
                    out.append(k)
        return out

    def loop(self, s, st, cond, body, inc, opaque=False, hooks=None, extra=(), depth=0, dowhile=None):
        if st.dead:
            return
        fr = self.fr
        # constant-false condition
        env0 = dict(st.env)
        ids = self.assigned([cond, body, inc])
        names = {"f%d_%d" % (fr.id, d) for d in ids}
        refbases = {fr.refs[d] for d in ids if d in fr.refs}
        keys = [k for k in st.env if (k[0].op == "lv" and k[0].a[0] in names) or (k[0].op == "vec" and k[0].a[0].op == "lv" and k[0].a[0].a[0] in names)
                or k[0] in refbases or (k[0].op == "vec" and k[0].a[0] in refbases)]
        keys += list(extra)
        keys = list(dict.fromkeys(keys))
        if not opaque and hooks is None and cond is not None:
            if self.try_unroll(s, st, cond, body, inc):
                return
        ncalls0, nthrows0 = len(self.calls), len(self.throws)
        frret = len(fr.returns)
        wild0 = self.wild

        def opaque_(kk):
            # what the exploratory passes recorded is not part of the result
            del self.calls[ncalls0:]
            del self.throws[nthrows0:]
            del fr.returns[frret:]
            self.wild = wild0
            return self.opaque_loop(s, st, cond, body, inc, hooks, kk, phis, R, dowhile)
        for attempt in range(5):
            self.wild = wild0
            # pass A: symbolic recurrence variables
            phis = {}
            sA = st.clone()
            for k in keys:
                v0 = st.env.get(k)
                if v0 is None:
                    v0 = self.default_env(st, k, ZERO) or self.unk("phi")
                if is_bool(v0):
                    v0 = b2i(v0)
                ty = "p" if isptrish(v0) else "i" if (is_int(v0) or v0.op == "unk" and False) else "d"
                vt = self.fr.vartype.get(self._keyid(k))
                if vt and not k[1]:
                    kk = self.kind(vt)
                    ty = kk if kk in "dip" else ty
                p = mk("sym", "%%phi%d" % TM._fresh(), "i" if ty == "p" else ty)
                phis[k] = (p, v0, ty)
                if ty == "p" and v0.op != "unk":
                    sA.env[k] = padd(ptr_parts(v0)[0], p)
                elif ty == "p":
                    sA.env[k] = mk("sym", "%%phi%d" % TM._fresh(), "p")
                    phis[k] = (sA.env[k], v0, "P")
                else:
                    sA.env[k] = p
            R = self.run_body(sA, cond, body, inc, hooks, set())
            del self.calls[ncalls0:]
            del self.throws[nthrows0:]
            rets = fr.returns[frret:]
            del fr.returns[frret:]
            newk = [k for k, v in R["env"].items() if k not in phis and k in sA.env and st.env.get(k) is not None and v is not sA.env.get(k)]
            newk += [k for k in R["env"] if k not in phis and k not in sA.env and self._outer_key(k, st) and k not in newk]
            brk_envs = [e for _, e, _ in R["breaks"]]
            for e in brk_envs:
                newk += [k for k, v in e.items() if k in sA.env and k not in phis and v is not sA.env[k] and k not in newk]
            if not newk:
                break
            for k in newk:
                if k not in st.env:
                    v = self.default_env(st, k, R["env"][k])
                    if v is not None:
                        st.env[k] = v
                    else:
                        continue
                keys.append(k)
        # --- recognise the counter
        prim = None
        c = R["c"]
        if opaque:
            c = None
        extra_stop = None
        if c is not None:
            cand = c.a[0] if c.op == "and" else (c,)
            for cc in cand:
                prim = self.find_counter(cc, phis, R)
                if prim:
                    others = [x for x in cand if x is not cc]
                    extra_stop = band(*others) if others else None
                    break
        if prim is None or (R["dead"] and not R["breaks"] and not rets):
            return opaque_(keys)
        pk, step, hi, desc = prim
        p, v0, ty = phis[pk]
        lo = ptr_parts(v0)[1] if ty == "p" else v0
        if hi.op == "unk" or lo.op == "unk":
            return opaque_(keys)
        b = mk("sym", "%%b%d" % TM._fresh(), "i")
        if step == 1:
            blo, bhi, cval = lo, hi, b
        elif step == -1:
            # b runs over the values lo..hi+1 downwards
            blo, bhi, cval = add(hi, ONE), add(lo, ONE), b
        else:
            cnt = app("ceildiv", sub(hi, lo), num(step)) if step > 0 else app("ceildiv", sub(lo, hi), num(-step))
            d = sub(hi, lo) if step > 0 else sub(lo, hi)
            q = pd(d)
            if all(v.denominator == 1 and v % abs(step) == 0 for v in q.values()):
                cnt = fp({m: v / abs(step) for m, v in q.items()})
            blo, bhi, cval = ZERO, cnt, add(lo, mul(num(step), b))
        itn = sub(b, blo) if step != -1 else sub(sub(bhi, ONE), b)      # iteration number at b
        total = count(sub(bhi, blo), st.facts())
        desc = step == -1
        # --- solve the recurrences
        closed, exitv, hopeless = {}, {}, False
        closed[pk] = cval
        exitv[pk] = hi if abs(step) == 1 and total is sub(bhi, blo) else add(lo, mul(num(step), total))
        pend = [k for k in keys if k != pk]
        sub_m = {p: cval}
        allphi = {phis[k][0]: k for k in keys}
        endv = {}
        for k in keys:
            v = R["env"].get(k)
            ph, vv0, ty2 = phis[k]
            if v is None:
                v = self.unk("lost")
            if ty2 == "p":
                bb = ptr_parts(vv0)[0]
                x, o = ptr_parts(v)
                v = o if x is bb else self.unk("pointer changes base") if v.op != "unk" else v
                vv0 = ptr_parts(vv0)[1]
            if is_bool(v):
                v = b2i(v)
            endv[k] = (ph, vv0, v, ty2)
        progress = True
        while pend and progress:
            progress = False
            for k in list(pend):
                ph, v0k, v, ty2 = endv[k]
                v2 = subst(v, sub_m)
                others = [x for x in allphi if x is not ph and x not in sub_m and occurs(x, v2)]
                if others:
                    continue
                r = self.solve_rec(ph, v0k, v2, b, blo, bhi, itn, total, desc, k)
                if r is None:
                    closed[k] = self.unk("recurrence")
                    exitv[k] = self.unk("recurrence")
                else:
                    closed[k], exitv[k] = r
                sub_m[ph] = closed[k]
                pend.remove(k)
                progress = True
        for k in pend:
            closed[k] = self.unk("mutual recurrence")
            exitv[k] = self.unk("mutual recurrence")
        # --- pass B with closed forms
        tainted = set()
        for attempt in range(2):
            self.wild = wild0
            del self.calls[ncalls0:]
            del self.throws[nthrows0:]
            del fr.returns[frret:]
            sB = st.clone()
            for k in keys:
                ph, v0k, ty2 = phis[k]
                cv = closed[k]
                if ty2 == "p":
                    cv = padd(ptr_parts(v0k)[0], cv)
                sB.env[k] = cv
            sB.asm = sB.asm.plus(le(blo, b)).plus(lt(b, bhi))
            self.binders.append((b, blo, bhi))
            self.brange[b] = (b, blo, bhi)
            sB0 = dict(sB.env)
            R2 = self.run_body(sB, cond, body, inc, hooks, tainted, skipcond=True)
            self.binders.pop()
            late = self.late_keys(st, sB0, R2, phis, b)
            if late:
                del self.calls[ncalls0:]
                del self.throws[nthrows0:]
                del fr.returns[frret:]
                for k in late:
                    if k not in st.env:
                        v = self.default_env(st, k, R2["env"].get(k, ZERO))
                        if v is None:
                            return opaque_(keys)
                        st.env[k] = v
                if depth > 3:
                    return opaque_(keys + late)
                return self.loop(s, st, cond, body, inc, opaque, hooks, tuple(keys) + tuple(late), depth + 1, dowhile)
            hz = self.hazards(st, R2, b, tainted)
            if not hz:
                break
            tainted |= hz
        if tainted:
            if not self.solve_mem(st, R2, b, blo, bhi, desc, closed, phis, pk, keys):
                return opaque_(keys)
        rets = fr.returns[frret:]
        del fr.returns[frret:]
        if not self.nomu and self.loop_bad(R2, closed, exitv, rets, keys):
            s0, c1, t1, w1, u1 = st.clone(), list(self.calls), list(self.throws), self.wild, len(self.unknowns)
            del self.calls[ncalls0:]
            del self.throws[nthrows0:]
            self.wild = wild0
            if self.mu_loop(s, st, cond, body, inc, hooks, keys, R, dowhile, strict=True):
                return
            st.take(s0)
            st.dead = None
            self.calls[:], self.throws[:], self.wild = c1, t1, w1
            del fr.returns[frret:]
        # --- early exits
        stop = None
        bc = FALSE
        f0 = Facts().plus(st.pc)

        def rel(pc):
            cs = pc.a[0] if pc.op == "and" else (pc,)
            return band(*[x for x in cs if not f0.implies(x)])
        if R2["breaks"] or rets or extra_stop is not None:
            bcs = [rel(x[0]) for x in R2["breaks"]]
            rcs = [rel(x[0]) for x in rets]
            allc = bor(*bcs, *rcs)
            if extra_stop is not None:
                es = subst(extra_stop, {ph: closed[k] for k, (ph, _, t2) in phis.items() if t2 != "p"})
                es = bnot(es)
                allc = bor(es, allc)
                if any(occurs(ph, es) for ph in allphi):
                    allc = mk("bapp", "unk", unk("exit condition"))
            if has_unk(allc) or desc:
                return opaque_(keys)
            found = texists(b, blo, bhi, allc)
            if nbinder(allc, b):
                stop = quant("first", b, blo, bhi, allc)
                stop = mk("app", "stop", stop) if stop.op != "unk" else stop
            else:
                stop = ite(allc, blo, bhi)
        # --- lift the effects
        extra_g = TRUE
        if stop is not None:
            extra_g = le(b, stop)
            if extra_stop is not None and not R2["breaks"] and not rets:
                extra_g = lt(b, stop)
        try0 = st.clone() if not self.nomu else None
        self.lift_bad = False
        self.lift(st, R2, b, blo, bhi, extra_g, desc)
        if self.lift_bad and try0 is not None:
            # effects without a closed form: keep the loop as a recursive term
            s0, c1, t1, w1, r1 = st.clone(), list(self.calls), list(self.throws), self.wild, list(fr.returns)
            st.take(try0)
            del self.calls[ncalls0:]
            del self.throws[nthrows0:]
            del fr.returns[frret:]
            self.wild = wild0
            if self.mu_loop(s, st, cond, body, inc, hooks, keys, R, dowhile, strict=True):
                return
            st.take(s0)
            st.dead = None
            self.calls[:], self.throws[:], self.wild, fr.returns[:] = c1, t1, w1, r1
        self.lift_bad = False
        # --- exit values
        env = dict(st.env)
        for k in keys:
            ph, v0k, ty2 = phis[k]
            x = exitv[k]
            if stop is not None and x.op != "unk":
                fall = subst(closed[k], {b: stop}) if closed[k].op != "unk" else closed[k]
                # value on entry of the stopping iteration, or at the end
                x = ite(found, fall, x) if closed[k].op != "unk" else closed[k]
            if ty2 == "p":
                x = padd(ptr_parts(v0k)[0], x)
            if ty2 == "P":
                x = x
            env[k] = x
        if R2["breaks"]:
            for pc, e, asm in reversed(R2["breaks"]):
                g = band(found, subst(rel(pc), {b: stop}))
                for k in keys:
                    if k in e:
                        v = e[k]
                        vb = subst(v, {b: stop}) if v.op != "unk" else v
                        env[k] = self.vmerge(g, vb, env[k]) if env.get(k) is not None else vb
        st.env = env
        if rets:
            for pc, v, e, asm in rets:
                g = band(found, subst(rel(pc), {b: stop}))
                if isinstance(v, tuple):
                    v2 = tuple(subst(x, {b: stop}) if isinstance(x, T) else x for x in v)
                else:
                    v2 = subst(v, {b: stop}) if v is not None and v.op != "unk" else v
                e2 = dict(st.env)
                for k in keys:
                    if k in e and e[k].op != "unk":
                        e2[k] = subst(e[k], {b: stop})
                fr.returns.append((band(st.pc, g), v2, e2, st.asm))
                st.pc = band(st.pc, bnot(g))

    def loop_bad(self, R2, closed, exitv, rets, keys):
        """are results of this loop unknown because a recurrence has no closed form?"""
        U = {v for v in list(closed.values()) + list(exitv.values()) if v.op == "unk"}
        isu = lambda z: z.op == "unk" and (z in U or any(str(x).startswith(("loop recurrence", "loop in loop", "mixed loop", "store at unknown")) for x in z.a)) \
            or z.op == "sym" and z.a[0].startswith("%rec")
        if any(exitv[k].op == "unk" for k in keys):
            return True
        for key, es in R2["ents"].items():
            for e in es:
                if any(isinstance(x, T) and atoms(x, isu) for x in (e.off, e.val, e.guard)):
                    return True
                if e.kind != "hav" and e.off.op == "unk":
                    return True
                if e.ty and e.ty.startswith("mem:"):
                    return True
        for pc, e, asm in R2["breaks"]:
            if atoms(pc, isu):
                return True
        for pc, v, e, asm in rets:
            if atoms(pc, isu) or isinstance(v, T) and atoms(v, isu):
                return True
        return False

    def try_unroll(self, s, st, cond, body, inc):
        """fully unroll loops with a small constant trip count"""
        if s["k"] not in ("for", "while"):
            return False
        ids = self.assigned([cond, inc])
        probe = st.clone()
        save = (len(self.calls), len(self.throws), self.seq)
        c = st.facts().simp(tob(self.rv(cond, probe)))
        if c is FALSE:
            st.take(probe)
            return True
        if c is not TRUE:
            return False
        # does the counter depend only on constants?  simulate condition/increment
        cnt = 0
        sim = st.clone()
        bodyids = self.assigned(body)
        if bodyids & set(self._condvars(cond)):
            return False
        while cnt <= 12:
            c = sim.facts().simp(tob(self.rv(cond, sim)))
            if c is FALSE:
                break
            if c is not TRUE or inc is None:
                return False
            self.rv(inc, sim)
            cnt += 1
        else:
            return False
        if cnt > 12:
            return False
        fr = self.fr
        lf0 = LoopFrame()
        outs = []
        pc00 = st.pc
        for i in range(cnt):
            self.rv(cond, st)
            lf = LoopFrame()
            fr.loops.append(lf)
            pc0 = st.pc
            self.exec(body, st)
            fr.loops.pop()
            self.join_exits(st, lf.conts, "cont", pc0)
            outs += lf.breaks
            if st.dead:
                break
            if inc is not None:
                self.rv(inc, st)
        if outs:
            self.join_exits(st, outs, "brk", pc00)
        return True

    def _condvars(self, n, out=None):
        if out is None:
            out = set()
        if isinstance(n, dict):
            if n.get("k") == "ref" and "d" in n:
                out.add(n["d"])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self._condvars(v, out)
        elif isinstance(n, list):
            for v in n:
                self._condvars(v, out)
        return out

    def _keyid(self, k):
        if k[0].op == "lv":
            m = re.match(r"f%d_(\d+)$" % self.fr.id, k[0].a[0])
            if m:
                return int(m.group(1))
        return None

    def _outer_key(self, k, st):
        b = k[0]
        if b.op == "lv":
            return False
        if b.op == "vec" and b.a[0].op == "lv":
            return False
        if any(x.op == "lv" for x in atoms(b, lambda z: z.op == "lv")):
            return False
        if atoms(b, lambda z: z.op == "sym" and z.a[0].startswith("%phi")):
            return False
        return True

    def run_body(self, s, cond, body, inc, hooks, tainted, skipcond=False, recs=None, late=None):
        fr = self.fr
        lf = LoopFrame()
        fr.loops.append(lf)
        pc0 = s.pc
        logs0 = {k: len(v) for k, v in s.logs.items()}
        hav0 = {k: len(v) for k, v in s.hav.items()}
        lift0 = len(s.lifted)
        saved = self.loadlog
        recs = {} if recs is None else recs
        envc = None
        barrier = (self.seq + 1, [], tainted, recs, saved)
        self.seq += 1
        self.loadlog = barrier
        try:
            if hooks:
                c = hooks[0](s)
            elif cond is not None:
                c = tob(self.rv(cond, s))
            else:
                c = None
            if not skipcond and c is not None:
                c_s = c
                if not has_unk(c):
                    s.asm = s.asm.plus(c)
            envc = dict(s.env)
            condents = any(len(v) > logs0.get(k, 0) for k, v in s.logs.items())
            if hooks:
                hooks[1](s)
            self.exec(body, s)
            self.join_exits(s, lf.conts, "cont", pc0)
            dead = s.dead
            if not s.dead:
                if inc is not None:
                    self.rv(inc, s)
                if hooks:
                    hooks[2](s)
                if late:
                    late(s)
        finally:
            self.loadlog = saved
            fr.loops.pop()
        ents = {k: v[logs0.get(k, 0):] for k, v in s.logs.items() if len(v) > logs0.get(k, 0)}
        havs = {k: v[hav0.get(k, 0):] for k, v in s.hav.items() if len(v) > hav0.get(k, 0)}
        return {"c": c, "env": s.env, "dead": dead, "breaks": lf.breaks, "ents": ents, "havs": havs, "lifted": s.lifted[lift0:],
                "loads": barrier[1], "st": s, "recs": recs, "envc": envc, "condents": condents, "barrier": barrier}

    def find_counter(self, c, phis, R):
        """(key, step, hi, desc) if c bounds an arithmetic counter"""
        if c.op == "peq" or (c.op == "not" and c.a[0].op == "peq"):
            return None
        neg_ = False
        if c.op in ("ne",):
            pass
        elif c.op not in ("le", "lt"):
            return None
        poly = c.a[0]
        for k, (ph, v0, ty) in phis.items():
            if ty == "P":
                continue
            if not occurs(ph, poly):
                continue
            d = pd(poly)
            co = d.get(((ph, 1),))
            if co is None or any(occurs(ph, x) for m in d if m != ((ph, 1),) for x, _ in m):
                continue
            rest = fp({m: v for m, v in d.items() if m != ((ph, 1),)})
            if any(occurs(p2, rest) for p2, _, _ in phis.values()):
                continue
            v = R["env"].get(k)
            if v is None or v.op == "unk":
                continue
            if ty == "p":
                x, o = ptr_parts(v)
                if x is not ptr_parts(v0)[0]:
                    continue
                v = o
            step = ival(sub(b2i(v), ph))
            if not step:
                continue
            if c.op == "ne":
                if abs(step) != 1 or abs(co) != 1:
                    continue
                hi = mul(num(-1 / co), rest)
                return (k, step, hi, step < 0)
            # co*ph + rest <= 0
            if co > 0 and step > 0:
                if co != 1:
                    continue
                hi = neg(rest)
                hi = add(hi, ONE) if c.op == "le" else hi
                if c.op == "lt" and not is_int(rest):
                    continue
                return (k, step, hi, False)
            if co < 0 and step < 0:
                if co != -1:
                    continue
                # ph >= rest  (le)
                lo = rest if c.op == "le" else add(rest, ONE)
                return (k, step, sub(lo, ONE), True)
        return None

    def solve_rec(self, ph, v0, v, b, blo, bhi, itn, total, desc, key):
        """closed form at iteration b, value after the loop; None if not solvable"""
        if v.op == "unk":
            return None
        if v is ph:
            return v0, v0
        if v0.op == "unk" and occurs(ph, v):
            return None
        d = sub(v, ph)
        if not desc and d.op == "app" and d.a[0] == "max" and ZERO in d.a:
            # a cursor moving to the next entry of a position array
            L = [add(x, ph) for x in d.a[1:] if x is not ZERO]
            if len(L) == 1 and not occurs(ph, L[0]) and occurs(b, L[0]):
                first = subst(L[0], {b: sub(blo, ONE)})
                if (v0 is ZERO and self.csr0(first)) or (first is v0 and v0.op == "load"):
                    self.assumptions.add("position arrays do not decrease: %s" % show(first))
                    v, d = L[0], sub(L[0], ph)
        if d.op != "unk" and not occurs(ph, d):
            # additive
            if not occurs(b, d):
                return add(v0, mul(d, itn)), add(v0, mul(d, total))
            b2 = mk("sym", "%%s%d" % TM._fresh(), "i")
            g = subst(d, {b: b2})
            if desc:
                part = tsum(b2, add(b, ONE), bhi, g)
            else:
                part = tsum(b2, blo, b, g)
            return add(v0, part), add(v0, tsum(b2, blo, bhi, g))
        if not occurs(ph, v):
            # value of the previous iteration
            if desc:
                return None
            prev = subst(v, {b: sub(b, ONE)})
            first = subst(v, {b: sub(blo, ONE)})
            if first is v0 or (v0 is ZERO and self.csr0(first)):
                if first is not v0:
                    self.assumptions.add("position arrays start at 0: %s" % show(first))
                last = subst(v, {b: sub(bhi, ONE)})
                return prev, last if total is sub(bhi, blo) else ite(lt(blo, bhi), last, v0)
            if not occurs(b, v):
                if v0.op == "unk":
                    return v0, self.scratch(v, v0, blo, bhi)
                return ite(le(b, blo), v0, v), ite(lt(blo, bhi), v, v0)
            if v0.op == "unk":
                # scratch variable: written before it is read in every iteration
                return v0, self.scratch(subst(v, {b: sub(bhi, ONE)}), v0, blo, bhi)
            return ite(le(b, blo), v0, prev), ite(lt(blo, bhi), subst(v, {b: sub(bhi, ONE)}), v0)
        if desc:
            return None
        # flag updates: ite(c(b), k, ph) with k independent of ph and b
        if v.op == "ite":
            c0, x, y = v.a
            if x is ph:
                c0, x, y = bnot(c0), y, x
            if y is ph and not occurs(ph, c0) and not occurs(ph, x) and not occurs(b, x):
                b2 = mk("sym", "%%s%d" % TM._fresh(), "i")
                cc = subst(c0, {b: b2})
                return (ite(texists(b2, blo, b, cc), x, v0), ite(texists(b2, blo, bhi, cc), x, v0))
        if v.op == "app" and v.a[0] in ("max", "min") and ph in v.a[1:]:
            rest = [x for x in v.a[1:] if x is not ph]
            if not any(occurs(ph, x) for x in rest):
                body = (tmax if v.a[0] == "max" else tmin)(*rest)
                op = "maxr" if v.a[0] == "max" else "minr"
                b2 = mk("sym", "%%s%d" % TM._fresh(), "i")
                g = subst(body, {b: b2})
                return quant(op, b2, blo, b, g, v0), quant(op, b2, blo, bhi, g, v0)
        # generic first-order recurrence, kept as a fold term
        if occurs(b, v0) or has_unk(v):
            return None
        b2 = mk("sym", "%%s%d" % TM._fresh(), "i")
        g = subst(v, {b: b2})
        f1 = self.fold(ph, b2, blo, b, g, v0)
        f2 = self.fold(ph, b2, blo, bhi, g, v0)
        return f1, f2

    def scratch(self, v, v0, blo, bhi):
        """value after the loop of a variable that had no known value before"""
        if v0.a and str(v0.a[0]).startswith("uninit") or Facts().simp(lt(blo, bhi)) is TRUE:
            return v
        return v0

    def fold(self, ph, b, lo, hi, body, v0):
        n = 2 + level(body)
        m = {b: bvar(n), ph: mk("bv", n - 1) if True else None}
        # the accumulator is a typed variable of its own
        acc = mk("sym", "%%acc%d" % n, ph.a[1])
        m = {b: bvar(n), ph: acc}
        return mk("fold", n, lo, hi, subst(body, m), v0)

    def solve_mem(self, st, R2, b, blo, bhi, desc, closed, phis, pk, keys):
        """closed forms for values carried between iterations through memory"""
        sol = {}
        pend = {}
        used = set()
        isrec = lambda z: z.op == "sym" and z.a[0].startswith("%rec")
        for es in R2["ents"].values():
            for e in es:
                for x in (e.off, e.val, e.guard):
                    if isinstance(x, T):
                        used |= atoms(x, isrec)
                for _, l, h in e.binders:
                    used |= atoms(l, isrec) | atoms(h, isrec)
        for v in R2["env"].values():
            used |= atoms(v, isrec)
        for pc, e, asm in R2["breaks"]:
            used |= atoms(pc, isrec)
        for key, d in R2["recs"].items():
            d = {o: r for o, r in d.items() if r in used}
            if not d:
                continue
            if len(d) != 1:
                for off, r in d.items():
                    sol[r] = self.unk("loop recurrence on %s" % show(key[0]))
                continue
            (off, r), = d.items()
            pend[r] = (key, off)
        allrec = set(pend)
        for _ in range(len(pend) + 1):
            for r, (key, off) in list(pend.items()):
                base, path = key
                x = self.solve_mem1(st, R2, b, blo, bhi, desc, r, base, path, off, sol, allrec)
                if x == "wait":
                    continue
                sol[r] = x if x is not None else self.unk("loop recurrence on %s" % show(base))
                del pend[r]
        for r, (key, off) in pend.items():
            sol[r] = self.unk("loop recurrence on %s" % show(key[0]))
        if sol:
            for key, es in R2["ents"].items():
                R2["ents"][key] = tuple(self.ent_subst(e, sol) for e in es)
            env = R2["env"]
            for k in keys:
                v = env.get(k)
                if v is not None and v.op != "unk" and any(occurs(r, v) for r in sol):
                    env[k] = subst(v, sol)
            R2["breaks"] = [(subst(pc, sol), e, asm) for pc, e, asm in R2["breaks"]]
        # the register recurrences were solved without the memory recurrences: re-check them
        for k in keys:
            if k == pk:
                continue
            v = R2["env"].get(k)
            c = closed[k]
            if v is None or c.op == "unk":
                continue
            if phis[k][2] in ("p", "P"):
                continue
            if c is phis[k][1] and not any(occurs(r, v) for r in sol):
                # scratch variable written before it is read
                continue
            if desc or v.op == "unk":
                return False
            nxt = subst(c, {b: add(b, ONE)})
            if nxt is not b2i(v) and not zero(sub(nxt, b2i(v)), Facts().plus(le(blo, b)).plus(lt(b, bhi))):
                return False
        return True

    def ent_subst(self, e, m):
        if e.kind == "hav":
            if e.ty and e.ty.startswith("mem:"):
                return Entry(e.seq, e.kind, e.off, subst(e.val, m), e.binders, subst(e.guard, m), e.ty, e.line)
            return e
        return Entry(e.seq, e.kind, subst(e.off, m), subst(e.val, m), tuple((x, subst(l, m), subst(h, m)) for x, l, h in e.binders), subst(e.guard, m), e.ty, e.line)

    def solve_mem1(self, st, R2, b, blo, bhi, desc, r, base, path, off, sol, allrec):
        if any(x.op == "sym" and x in self.brange and x is not b and x not in [y[0] for y in self.binders] for x in atoms(off, lambda z: z.op == "sym")):
            return None      # offset depends on an inner counter
        es = R2["ents"].get((base, path), ())
        if any(e.kind == "hav" for e in es) or not es:
            return None
        nb = add(b, ONE) if not desc else sub(b, ONE)
        nxt = subst(off, {b: nb})
        f = st.facts().plus(le(blo, b)).plus(lt(b, bhi))
        hv = R2["havs"].get(base)
        if hv:
            return None
        mark = mk("sym", "%%old%d" % TM._fresh(), "d")
        sv = self._initial
        self._initial = lambda *a: mark
        try:
            v = self._resolve(st, es, len(es) - 1, base, path, nxt, es[-1].ty, f, None)
        finally:
            self._initial = sv
        if off is nxt:
            v = subst(v, {mark: r})
        if occurs(mark, v):
            # cells not yet touched still hold their value from before the loop
            if not self.untouched(es, nxt, b, blo, bhi, desc, st):
                return None
            o0 = self.query(st, base, path, nxt, es[-1].ty)
            v = subst(v, {mark: o0})
        if sol:
            v = subst(v, sol)
        if any(x is not r and x in allrec and x not in sol and occurs(x, v) for x in allrec):
            return "wait"
        if v.op == "unk" or has_unk(v):
            return None
        init = self.query(st, base, path, subst(off, {b: blo if not desc else sub(bhi, ONE)}), es[-1].ty)
        if init.op == "unk":
            return None
        d = sub(v, r)
        if not occurs(r, d):
            b2 = mk("sym", "%%s%d" % TM._fresh(), "i")
            g = subst(d, {b: b2})
            part = tsum(b2, blo, b, g) if not desc else tsum(b2, add(b, ONE), bhi, g)
            return add(init, part)
        if not occurs(r, v):
            if desc:
                return None
            prev = subst(v, {b: sub(b, ONE)})
            return ite(le(b, blo), init, prev)
        if desc:
            return None
        b2 = mk("sym", "%%s%d" % TM._fresh(), "i")
        return self.fold(r, b2, blo, b, subst(v, {b: b2}), init)

    def untouched(self, es, nxt, b, blo, bhi, desc, st):
        """no iteration before the current one writes the cell nxt"""
        for e in es:
            j = mk("sym", "%%j%d" % TM._fresh(), "i")
            f = st.facts().plus(le(blo, j)).plus(lt(j, bhi)).plus(le(blo, b)).plus(lt(b, bhi))
            f = f.plus(lt(b, j) if desc else lt(j, b))
            m = {b: j}
            for x, l, h in e.binders:
                y = mk("sym", "%%j%d" % TM._fresh(), "i")
                f = f.plus(le(subst(l, m), y)).plus(lt(y, subst(h, m)))
                m[x] = y
            off = subst(e.off, m)
            c = f.simp(eq(off, nxt))
            if c is FALSE:
                continue
            d = sub(nxt, off)
            if f.simp(lt(d, ZERO)) is TRUE or f.simp(lt(ZERO, d)) is TRUE:
                continue
            if e.guard is not None and isinstance(e.guard, T) and f.plus(subst(e.guard, m)).simp(eq(off, nxt)) is FALSE:
                continue
            return False
        return True

    def csr0(self, t):
        if t.op == "load" and t.a[2] is ZERO:
            b, path = t.a[0], t.a[1]
            nm = None
            if path:
                nm = path[-1]
            elif b.op == "load" and b.a[1]:
                nm = b.a[1][-1]
            elif b.op == "sym":
                nm = b.a[0]
                if nm.startswith("$") and nm[1:].isdigit() and self.frames:
                    ps = self.frames[0].fn.params if self.frames[0].fn else []
                    nm = ps[int(nm[1:])]["n"] if int(nm[1:]) < len(ps) else nm
            elif b.op == "vec" and b.a[0].op in ("sub",):
                nm = b.a[0].a[2][-1]
            if nm and (nm in CSR0 or nm.endswith(("pos", "_start", "pos_"))):
                return True
        return False

    def hazards(self, st, R, b, tainted):
        hz = set()
        ents = R["ents"]
        for (key, off, conds) in R["loads"]:
            es = ents.get(key)
            if es is None:
                if key[0] in R["havs"]:
                    pass
                continue
            if key in tainted or off.op == "unk":
                continue
            for e in es:
                if not self.safe_pair(e, off, b):
                    hz.add(key)
                    break
        return hz

    def safe_pair(self, e, off, b):
        """the load at iteration b cannot see the store of an earlier iteration"""
        if e.kind == "hav":
            return False
        b1 = mk("sym", b.a[0] + "'", "i")
        w = subst(e.off, {b: b1})
        inner = {}
        for (x, lo, hi) in e.binders:
            pass
        d = sub(off, w)
        # injective and same index in the same iteration
        dd = pd(d)
        cb = dd.get(((b, 1),), 0)
        c1 = dd.get(((b1, 1),), 0)
        rest = fp({m: v for m, v in dd.items() if m not in (((b, 1),), ((b1, 1),))})
        if not occurs(b, rest) and not occurs(b1, rest) and cb and c1 and cb == -c1:
            v = nval(rest)
            if v is not None:
                k = v / cb        # b' = b + k
                if k >= 0 or k.denominator != 1:
                    return True
                return False
            if not e.binders and not occurs(b, rest):
                return False
        # stride-form: off = b*S + r, w = b'*S + r'
        s_off = coeff_of(off, b)
        s_w = coeff_of(w, b1)
        if s_off is not None and s_w is not None and s_off[0] is s_w[0] and s_off[0] is not ZERO:
            # equality of rows implies equality of b when remainders are in range (mixed radix)
            r1, r2 = s_off[1], s_w[1]
            if self.in_row(r1, s_off[0], e) and self.in_row(r2, s_off[0], e):
                return True
        return False

    def in_row(self, r, stride, e):
        """is the remainder a within-row index (0 <= r < stride)?"""
        if r is ZERO:
            return True
        v, s = nval(r), nval(stride)
        if v is not None and s is not None:
            return 0 <= v < abs(s)
        if v is not None:
            return v >= 0 and v <= 3
        bs = {x[0]: x for x in list(e.binders) + list(self.binders)}
        for x in atoms(r, lambda z: z.op == "sym" and z in self.brange):
            bs.setdefault(x, self.brange[x])
        f = Facts()
        for x in bs.values():
            if x[1].op != "unk" and x[2].op != "unk":
                f = f.plus(le(x[1], x[0])).plus(lt(x[0], x[2]))
        if f.implies(le(ZERO, r)) and f.implies(lt(r, stride)):
            return True
        # r = r0*s0 + r1 nested rows: stride = n*s0, r0 < n, r1 < s0
        for m, c in pd(stride).items():
            for x, ex in m:
                q = exact_quot(stride, x)
                if q is None:
                    continue
                cf = coeff_of(r, None, x)
                if cf is not None:
                    a, bb = cf
                    if f.implies(le(ZERO, a)) and f.implies(lt(a, q)) and (bb is ZERO or (f.implies(le(ZERO, bb)) and f.implies(lt(bb, x)))):
                        return True
        if r.op == "sym" and r in bs:
            return bs[r][2] is stride
        return False

    def lift(self, st, R, b, lo, hi, extra, desc):
        logs = st.logs
        for key, es in R["ents"].items():
            base, path = key
            if occurs(b, base):
                st.lifted = st.lifted + ((base, path, b, lo, hi, tuple(es)),)
                continue
            if self.local_to_body(base, st):
                continue
            if not self.ordered(es, st, b, lo, hi, desc):
                self.havoc_key(st, key, "mixed loop stores")
                continue
            if desc and not all(self.apart(e, e, st, b, lo, hi) for e in es if e.kind == "set"):
                # the last store wins: count the iterations upwards
                m = {b: sub(sub(add(lo, hi), ONE), b)}
                es = tuple(self.ent_subst(e, m) for e in es)
            out = []
            sets = [e for e in es if e.kind == "set"]
            noninj = [e for e in sets if not occurs(b, e.off) and e.off.op != "unk" and not self.row_inj(e, b)]
            if noninj and (len(es) > len(noninj) or any(e.guard is not st.pc for e in noninj)):
                # mixture of per-iteration resets and other updates of the same cells
                adds = [e for e in es if e.kind == "add"]
                if all(not occurs(b, e.off) for e in es) and noninj and es[0].kind == "set" and es[0].guard is st.pc \
                        and not desc and es[0].off.op != "unk" and extra is TRUE and all(self.covered(es[0], e, st, b, lo, hi) for e in es[1:]):
                    # everything is overwritten at the start of each iteration: last iteration remains
                    last = {b: sub(hi, ONE)}
                    for e in es:
                        out.append(Entry(self.nseq(), e.kind, subst(e.off, last), subst(e.val, last), tuple((x, subst(l2, last), subst(h2, last)) for x, l2, h2 in e.binders),
                                         band(subst(e.guard, last), lt(lo, hi)), e.ty, e.line))
                    logs[key] = logs.get(key, ()) + tuple(out)
                    continue
                if not adds and all(e.guard is not st.pc or True for e in es):
                    ok = all(not occurs(b, e.val) and not occurs(b, e.off) for e in es)
                    if ok and len({(e.off, e.val) for e in es}) == 1:
                        e = es[0]
                        g = texists(b, lo, hi, band(extra, bor(*[x.guard for x in es])))
                        logs[key] = logs.get(key, ()) + (Entry(self.nseq(), "set", e.off, e.val, e.binders, g, e.ty, e.line),)
                        continue
                    if len(es) == 1:
                        pass
                    elif self.lift_last(st, key, es, b, lo, hi, extra):
                        continue
                    else:
                        self.havoc_key(st, key, "mixed loop stores")
                        continue
                elif self.lift_last(st, key, es, b, lo, hi, extra):
                    continue
                else:
                    self.havoc_key(st, key, "mixed loop stores")
                    continue
            for e in es:
                if e.kind == "hav":
                    if e.ty and e.ty.startswith("mem:"):
                        # every iteration rewrites the area as a whole: only the last one is visible
                        last = {b: sub(hi, ONE)}
                        g = subst(band(e.guard, extra), last)
                        if extra is not TRUE or desc or e.binders or occurs(b, e.guard) or occurs(b, e.val) and len(es) > 1:
                            self.lift_bad = True
                            out.append(Entry(self.nseq(), "hav", ZERO, self.unk("loop in loop"), (), TRUE, None, e.line))
                        else:
                            out.append(Entry(self.nseq(), "hav", ZERO, subst(e.val, last), (), band(g, lt(lo, hi)), e.ty, e.line))
                        continue
                    out.append(e)
                    continue
                if e.off.op == "unk" or (e.kind == "add" and e.val.op == "unk"):
                    out.append(Entry(self.nseq(), "hav", ZERO, self.unk("store at unknown offset"), (), e.guard if not occurs(b, e.guard) else st.pc, None, e.line))
                    continue
                out.append(Entry(self.nseq(), e.kind, e.off, e.val, ((b, lo, hi),) + e.binders, band(e.guard, extra), e.ty, e.line))
            logs[key] = logs.get(key, ()) + tuple(out)
        for base, es in R["havs"].items():
            if occurs(b, base):
                continue
            if self.local_to_body(base, st):
                continue
            # opaque effect repeated: only the last one is visible, as an unknown of its own
            e = es[-1]
            tag = e.val
            if tag.op != "unk":
                if occurs(b, e.off):
                    tag = self.unk("call in loop")
                elif occurs(b, tag):
                    tag = subst(tag, {b: sub(hi, ONE)})
            self.havoc_base(st, base, tag if not has_unk(tag) else self.unk("call in loop"))
        for (kb, kp, bb, l2, h2, es) in R["lifted"]:
            if occurs(b, kb):
                st.lifted = st.lifted + ((kb, kp, bb, self.unk("nested"), self.unk("nested"), es),)
            else:
                st.lifted = st.lifted + ((kb, kp, bb, l2, h2, tuple(Entry(e.seq, e.kind, e.off, e.val, ((b, lo, hi),) + e.binders, e.guard, e.ty, e.line) for e in es)),)

    def lift_last(self, st, key, es, b, lo, hi, extra):
        """scratch area rewritten by every iteration that touches it: the last such iteration remains"""
        base, path = key
        first = es[0]
        if any(e.kind == "hav" or e.off.op == "unk" or occurs(b, e.off) for e in es):
            return False
        regs = []
        for e in es:
            regs.append((e.off, e.binders))
        # regions: constants, or one binder with unit coefficient
        out = []
        seen = set()
        for e in es:
            if len(e.binders) > 1:
                # multi-dimensional region: only if some single-binder region covers it
                continue
            r = (e.off if not e.binders else (subst(e.off, {e.binders[0][0]: ZERO}), e.binders[0][1], e.binders[0][2]))
            if r in seen:
                continue
            seen.add(r)
            if e.binders and any(occurs(b, z) for z in e.binders[0][1:]):
                return False
            x = mk("sym", "%%k%d" % TM._fresh(), "i") if e.binders else None
            off = subst(e.off, {e.binders[0][0]: x}) if e.binders else e.off
            f = st.facts().plus(le(lo, b)).plus(lt(b, hi))
            if x is not None:
                f = f.plus(le(e.binders[0][1], x)).plus(lt(x, e.binders[0][2]))
            mark = mk("sym", "%%old%d" % TM._fresh(), "d")
            sv = self._initial
            self._initial = lambda *a: mark
            try:
                v = self._resolve(st, es, len(es) - 1, base, path, off, first.ty, f, None)
            finally:
                self._initial = sv
            g = TRUE
            if v.op == "ite" and (v.a[1] is mark or v.a[2] is mark):
                g, v = (v.a[0], v.a[1]) if v.a[2] is mark else (bnot(v.a[0]), v.a[2])
            if occurs(mark, v):
                return False
            bs = ((b, lo, hi),) + (((x, e.binders[0][1], e.binders[0][2]),) if x is not None else ())
            out.append(Entry(self.nseq(), "set", off, v, bs, band(st.pc, g, extra), first.ty, e.line))
        if not out:
            return False
        st.logs[key] = st.logs.get(key, ()) + tuple(out)
        return True

    def ordered(self, es, st, b, lo, hi, desc):
        """can the stores of all iterations be taken statement by statement?"""
        if len(es) < 2 or len(es) > 40 or any(e.kind == "hav" for e in es):
            return True
        if es[0].kind == "set" and es[0].guard is st.pc and all(not occurs(b, e.off) and self.covered(es[0], e, st, b, lo, hi) for e in es[1:]) and not occurs(b, es[0].off):
            return True
        for i, e in enumerate(es):
            for e2 in es[i + 1:]:
                if e.kind == "add" and e2.kind == "add" or e.off.op == "unk" or e2.off.op == "unk":
                    continue
                if not occurs(b, e.off) and not occurs(b, e2.off):
                    continue        # scratch cells are handled by the lifting itself
                # a later iteration of e against an earlier one of e2
                if not (self.apart(e2, e, st, b, lo, hi) if not desc else self.apart(e, e2, st, b, lo, hi)):
                    return False
        return True

    def apart(self, e, e2, st, b, lo, hi):
        """e at an iteration j and e2 at an iteration after j touch different cells"""
        if e.off is e2.off and self.row_inj(e, b) and self.row_inj(e2, b):
            return True
        key = (e.off, e2.off, e.binders, e2.binders, lo, hi, st.pc)
        r = self.apartm.get(key)
        if r is not None:
            return r
        r = self.apart0(e, e2, st, b, lo, hi)
        self.apartm[key] = r
        return r

    def apart0(self, e, e2, st, b, lo, hi):
        j = mk("sym", "%%j%d" % TM._fresh(), "i")
        g = mk("sym", "%%j%d" % TM._fresh(), "i")
        j2 = add(add(j, ONE), g)
        f = st.facts().plus(le(lo, j)).plus(lt(j, hi)).plus(le(lo, j2)).plus(lt(j2, hi)).plus(le(ZERO, g))
        offs = []
        for x, at in ((e, j), (e2, j2)):
            m = {b: at}
            for y, l, h in x.binders:
                z = mk("sym", "%%j%d" % TM._fresh(), "i")
                f = f.plus(le(subst(l, m), z)).plus(lt(z, subst(h, m)))
                m = dict(m)
                m[y] = z
            offs.append(subst(x.off, m))
        d = sub(offs[1], offs[0])
        if d.op == "unk" or f.simp(eq(d, ZERO)) is FALSE:
            return d.op != "unk"
        for s in (1, -1):
            # terms with the distance g only move the cells further apart
            q = {m: c * s for m, c in pd(d).items()}
            if all(c > 0 for m, c in q.items() if any(x is g for x, _ in m)) and not any(occurs(g, x) and x is not g for m in q for x, _ in m):
                rest = fp({m: c for m, c in q.items() if not any(x is g for x, _ in m)})
                if f.implies(le(ONE, rest)) or f.simp(lt(ZERO, rest)) is TRUE:
                    return True
        return False

    def covered(self, e0, e, st, b, lo, hi):
        """does the store e0 touch every cell the store e touches (same iteration of b)?"""
        if e.kind == "hav" or e.off.op == "unk":
            return False
        if not e0.binders:
            return e.off is e0.off
        if len(e0.binders) == len(e.binders):
            m = {x: y[0] for (x, _, _), y in zip(e0.binders, e.binders)}
            if subst(e0.off, m) is e.off and all(subst(x[1], m) is y[1] and subst(x[2], m) is y[2] for x, y in zip(e0.binders, e.binders)):
                return True
        if len(e0.binders) == 1:
            x, l, h = e0.binders[0]
            k = sub(e0.off, x)
            if not occurs(x, k):
                f = st.facts().plus(le(lo, b)).plus(lt(b, hi))
                for y, l2, h2 in e.binders:
                    f = f.plus(le(l2, y)).plus(lt(y, h2))
                pos = sub(e.off, k)
                return f.implies(le(l, pos)) and f.implies(lt(pos, h))
        return False

    def row_inj(self, e, b):
        """the offset runs over [pos[b], pos[b+1]): different iterations store to different rows"""
        for (x, lo, hi) in e.binders:
            if occurs(b, lo) and occurs(x, e.off):
                if subst(lo, {b: add(b, ONE)}) is hi:
                    return True
        return False

    def havoc_key(self, st, key, why):
        self.lift_bad = True
        e = Entry(self.nseq(), "hav", ZERO, self.unk(why), (), TRUE, None, None)
        st.logs[key] = st.logs.get(key, ()) + (e,)

    def local_to_body(self, base, st):
        """objects declared inside the loop body do not survive the iteration"""
        return False

    def opaque_loop(self, s, st, cond, body, inc, hooks, keys, phis, R, dowhile=None):
        w0, c0, t0 = self.wild, len(self.calls), len(self.throws)
        if not self.nomu and self.mu_loop(s, st, cond, body, inc, hooks, keys, R, dowhile):
            return
        self.wild = w0
        del self.calls[c0:]
        del self.throws[t0:]
        self.unknowns.append(("loop not understood", s.get("l"), self.fr.fn.q if self.fr.fn else ""))
        sB = st.clone()
        for k in keys:
            sB.env[k] = self.unk("loop variable")
        b = mk("sym", "%%w%d" % TM._fresh(), "i")
        self.binders.append((b, ZERO, unk("trips")))
        frret = len(self.fr.returns)
        R2 = self.run_body(sB, cond, body, inc, hooks, set(R["ents"]))
        self.binders.pop()
        rets = self.fr.returns[frret:]
        del self.fr.returns[frret:]
        for key, es in R2["ents"].items():
            if occurs(b, key[0]):
                continue
            self.havoc_key(st, key, "loop not understood")
            st.logs[key] = st.logs[key]
        for base, es in R2["havs"].items():
            self.havoc_base(st, base, self.unk("loop not understood"))
        for k in keys:
            st.env[k] = self.unk("loop variable")
        for k, v in R2["env"].items():
            if k in st.env and k not in keys and v is not st.env[k]:
                st.env[k] = self.unk("loop variable")
        if rets:
            u = mk("bapp", "unk", unk("return in loop"))
            for pc, v, e, asm in rets:
                e2 = dict(st.env)
                self.fr.returns.append((band(st.pc, u), self.unk("return in loop") if v is not None and not isinstance(v, tuple) else v, e2, st.asm))
            st.pc = band(st.pc, mk("not", u))

    nomu = False

    def mu_loop(self, s, st, cond, body, inc, hooks, keys, R, dowhile, strict=False):
        """keep the loop as a recursive (mu) term: state vector, continuation condition, one-step transformer"""
        fr = self.fr
        keys = list(dict.fromkeys(keys))
        memkeys = [k for k in R["ents"] if not self.inner_base(k[0], st)]
        for base in R["havs"]:
            if not self.inner_base(base, st):
                memkeys += self.hav_keys(base, st, R)
        memkeys = list(dict.fromkeys(memkeys))
        frret = len(fr.returns)
        c0, t0 = len(self.calls), len(self.throws)
        w0 = self.wild
        asP = set()
        late = None
        if dowhile:
            def late(s2):
                s2.env[dowhile[0]] = b2i(tob(self.rv(dowhile[1], s2)))
        for attempt in range(7):
            self.wild = w0
            del self.calls[c0:]
            del self.throws[t0:]
            comps = {}           # key -> (symbol, type, init)
            sB = st.clone()
            for k in keys:
                v0 = st.env.get(k)
                if v0 is None:
                    v0 = self.default_env(st, k, R["env"].get(k, ZERO))
                if v0 is None:
                    v0 = self.unk("uninitialised")
                if is_bool(v0):
                    v0 = b2i(v0)
                ty = "p" if isptrish(v0) else "i" if is_int(v0) else "d"
                if v0.op == "ite" and vty0(v0) == "p":
                    ty = "p"
                vt = fr.vartype.get(self._keyid(k))
                if vt and not k[1]:
                    kk = self.kind(vt)
                    ty = kk if kk in "dip" else ty
                elif k[1] and k[1][-1].startswith("#") and not k[1][-1].startswith(("#io", "#tr")):
                    ty = "i"
                elif self.path_ty(k):
                    ty = self.path_ty(k)
                elif v0.op == "unk":
                    w = R["env"].get(k)
                    ty = "d" if w is None or w.op == "unk" else vty0(w)
                if ty == "p" and (v0.op in ("unk", "ite") or k in asP):
                    ty = "P"
                p = mk("sym", "%%phi%d" % TM._fresh(), {"p": "i", "P": "p"}.get(ty, ty))
                if ty == "p":
                    b0, o0 = ptr_parts(v0)
                    sB.env[k] = padd(b0, p)
                    comps[k] = (p, ty, o0, b0)
                else:
                    sB.env[k] = p
                    if v0.op == "unk":
                        why = str(v0.a[1]) if len(v0.a) > 1 else ""
                        v0 = sym("undef", "p" if ty == "P" else ty) if why.startswith("uninit") or why.startswith("phi") else v0
                    comps[k] = (p, ty, v0, None)
            recs = MuRecs()
            recs.mem = {k: mk("sym", "%%M%d" % TM._fresh(), "m") for k in memkeys}
            bw = mk("sym", "%%w%d" % TM._fresh(), "i")
            self.binders.append((bw, ZERO, unk("trips")))
            try:
                R2 = self.run_body(sB, cond, body, inc, hooks, set(memkeys), recs=recs, late=late)
            finally:
                self.binders.pop()
            rets = fr.returns[frret:]
            del fr.returns[frret:]
            mine = {v[0] for v in comps.values()} | set(recs.mem.values())
            # discover further state
            nm = []
            lost = bool(R2["lifted"])
            for k in R2["ents"]:
                if k in recs.mem:
                    continue
                if self.inner_base(k[0], st) or any(occurs(x, k[0]) for x in mine):
                    if not self.body_local(k[0], st):
                        lost = True
                    continue
                nm.append(k)
            for base in R2["havs"]:
                if self.inner_base(base, st) or any(occurs(x, base) for x in mine):
                    if not self.body_local(base, st):
                        lost = True
                    continue
                nm += [k for k in self.hav_keys(base, st, R2) if k not in recs.mem and k not in nm]
            nk = []
            envs = [R2["env"]] + [x[1] for x in R2["breaks"]] + [x[2] for x in rets] + ([R2["envc"]] if R2["envc"] else [])
            for e in envs:
                for k, v in e.items():
                    if k in comps or k in nk:
                        continue
                    if any(occurs(x, k[0]) for x in mine):
                        if not self.body_local(k[0], st):
                            lost = True
                        continue
                    if k in st.env:
                        if v is not sB.env.get(k):
                            nk.append(k)
                    elif self._outer_key(k, st) and not self.inner_base(k[0], st):
                        nk.append(k)
            np_ = []
            for k, (p, ty, v0, b0) in comps.items():
                if ty == "p":
                    for e in envs:
                        v = e.get(k)
                        if v is not None and v.op != "unk" and (v.op == "ite" or ptr_parts(v)[0] is not b0):
                            np_.append(k)
                            break
            if not nm and not nk and not np_:
                break
            memkeys += nm
            keys += nk
            asP.update(np_)
        else:
            return False
        if len(R2["breaks"]) + len(rets) > 12 or len(comps) > 80:
            return False
        if any(isinstance(v, tuple) for _, v, _, _ in rets):
            return False
        f0 = Facts().plus(st.pc)

        def rel(pc):
            cs = pc.a[0] if pc.op == "and" else (pc,)
            return band(*[x for x in cs if not f0.implies(x)])
        exits = [(rel(pc), e, None, False) for pc, e, asm in R2["breaks"]] + [(rel(pc), e, v, True) for pc, v, e, asm in rets]
        c = R2["c"] if R2["c"] is not None else TRUE
        if dowhile:
            c = bnot(eq0(comps[dowhile[0]][0]))
        C = {}
        exs = mk("sym", "%%phi%d" % TM._fresh(), "i")
        step = ZERO
        for i in range(len(exits) - 1, -1, -1):
            step = ite(exits[i][0], num(i + 1), step)
        if R2["dead"] and exits:
            step = num(len(exits))
            for i in range(len(exits) - 2, -1, -1):
                step = ite(exits[i][0], num(i + 1), step)
        if exits:
            C["exit"] = (exs, "i", ZERO, step)
            c = band(eq0(exs), c)
        for k, (p, ty, v0, b0) in comps.items():
            def val(e):
                v = e.get(k)
                if v is None:
                    return p
                if ty == "p":
                    return v if v.op == "unk" else ptr_parts(v)[1]
                return b2i(v) if is_bool(v) else v
            v = val(R2["env"]) if not R2["dead"] else p
            for pc, e, rv_, isret in reversed(exits):
                v = self.vmerge(pc, val(e), v)
            if v.op == "unk" and str(v.a[-1]).startswith("uninit"):
                v = sym("undef", "p" if ty == "P" else "i" if ty == "p" else ty)
            C[k] = (p, {"p": "i", "P": "p"}.get(ty, ty), v0, v)
        for i, (pc, e, v, isret) in enumerate(exits):
            if isret and v is not None:
                ty = vty0(b2i(v) if is_bool(v) else v)
                C["ret%d" % i] = (mk("sym", "%%phi%d" % TM._fresh(), ty), ty, sym("undef", ty), b2i(v) if is_bool(v) else v)
        kk = mk("sym", "%%q%d" % TM._fresh(), "i")
        stq = R2["st"].clone()
        stq.pc, stq.dead = st.pc, None
        stq.asm = st.asm
        saved = self.loadlog
        mty = {}
        for key in memkeys:
            log = tuple(R2["ents"].get(key, ())) + tuple(st.logs.get(key, ()))
            ty = next((ety(e) for e in log if ety(e)), None) or self.path_ty(key) or "d"
            mty[key] = ty
            old = self.query(st, key[0], key[1], kk, ty)
            if old.op == "unk" and str(old.a[-1]).startswith(("uninit", "vector element")):
                old = sym("undef", ty)
            old = subst_undef(old)
            self.loadlog = R2["barrier"]
            try:
                v = self.query(stq, key[0], key[1], kk, ty)
            finally:
                self.loadlog = saved
            v = subst_undef(v)
            C[key] = (recs.mem[key], "m", old, v)
        if lost:
            self.wild = True
        if has_unk(c) or (exits and has_unk(step)):
            self.mu_why(s, c, step)
            return False
        # ---- outputs
        bysym = {v[0]: k for k, v in C.items()}
        issym = lambda z: z.op == "sym" and z in bysym
        order_memo = {}

        def deps(t):
            r = order_memo.get(t)
            if r is None:
                r = order_memo[t] = syms_in_order(t, bysym)
            return r
        base_order = []

        def dfs(t, order):
            for y in deps(t):
                k = bysym[y]
                if k not in order:
                    order.append(k)
                    dfs(C[k][3], order)
        dfs(c, base_order)
        if exits and "exit" not in base_order:
            base_order.append("exit")
            dfs(step, base_order)
        outs = {}

        def out(k):
            if k in outs:
                return outs[k]
            order = list(base_order)
            if k not in order:
                order.append(k)
                dfs(C[k][3], order)
            bad = next((x for x in order if has_unk(C[x][3]) or has_unk(C[x][2])), None)
            if bad is not None:
                u = why_unk(C[bad][3]) or why_unk(C[bad][2])
                r = self.unk("loop state: %s" % (u[0] if u else ""))
            else:
                n = 1 + max([level(c)] + [level(C[x][2]) for x in order] + [level(C[x][3]) for x in order])
                m = {C[x][0]: mk("sym", "%%mu%d.%d" % (n, i), C[x][1]) for i, x in enumerate(order)}
                mk_ = dict(m)
                mk_[kk] = mk("sym", "%%mk%d" % n, "i")
                km = {kk: mk_[kk]}
                mu = mk("mu", n, tuple(C[x][1] for x in order), tuple(subst(C[x][2], km) for x in order), subst(c, m), tuple(subst(C[x][3], mk_) for x in order))
                r = mk("muout", mu, order.index(k), C[k][1])
            outs[k] = r
            return r

        def full(k):
            o = out(k)
            if comps[k][1] == "p":
                return o if o.op == "unk" else padd(comps[k][3], o)
            return o
        allm = None
        env = dict(st.env)
        ex = out("exit") if exits else None
        if ex is not None and ex.op == "unk":
            return False
        if strict and (any(out(k).op == "unk" for k in memkeys) or lost):
            return False
        for k in keys:
            v = full(k)
            if R2["envc"] is not None and v.op != "unk":
                w = R2["envc"].get(k)
                w0 = sB.env[k]
                if w is not None and w is not w0:
                    if allm is None:
                        allm = {C[x][0]: out(x) for x in C}
                    w2 = subst(w, allm)
                    v = ite(eq0(ex), w2, v) if ex is not None else w2
            env[k] = v
        st.env = env
        for base in R2["havs"]:
            if not self.inner_base(base, st) and not any(occurs(x, base) for x in mine):
                env0 = dict(st.env)
                self.havoc_base(st, base, self.unk("call in loop"))
                for k in keys:
                    if k[0] is base:
                        st.env[k] = env0[k]
        for key in memkeys:
            o = out(key)
            ln = next((e.line for e in reversed(R2["ents"].get(key, ())) if e.line), s.get("l"))
            e = Entry(self.nseq(), "hav", ZERO, o, (), st.pc, "mem:" + mty[key] if o.op != "unk" else None, ln)
            st.logs[key] = st.logs.get(key, ()) + (e,)
        if rets:
            pc0 = st.pc
            for i, (pc, e, v, isret) in enumerate(exits):
                if not isret:
                    continue
                g = eq0(sub(ex, num(i + 1)))
                fr.returns.append((band(pc0, g), out("ret%d" % i) if v is not None else None, dict(st.env), st.asm))
                st.pc = band(st.pc, bnot(g))
            if not R2["breaks"] and (R2["c"] is None and not dowhile or R2["c"] is TRUE):
                st.dead = "ret"
        return True

    def mu_why(self, s, c, step):
        self.unknowns.append(("loop condition", s.get("l"), str(why_unk(c)[:2]) + str(why_unk(step)[:2])))

    def path_ty(self, key):
        """kind of the member a key names, when every member of that name has the same kind"""
        path = key[1]
        if not path or path[-1].startswith("#"):
            return None
        m = getattr(self.P, "fkinds", None)
        if m is None:
            m = {}
            for r in list(self.P.records.values()):
                for f in r.get("fields", []):
                    k = self.kind(f["t"])
                    if k in ("d", "i", "p"):
                        m.setdefault(f["n"], set()).add(k)
            m = self.P.fkinds = {n: next(iter(s)) for n, s in m.items() if len(s) == 1}
            for n in ("first", "second", "!has"):
                m.pop(n, None)
        k = m.get(path[-1])
        return k if k in ("d", "i", "p") else None

    def inner_base(self, base, st):
        """does the base mention a variable of the loop (or of an iteration in progress)?"""
        return bool(atoms(base, lambda z: z.op == "sym" and (z.a[0].startswith("%phi") or z.a[0].startswith("%w") or z.a[0].startswith("%M"))
                          and z not in self.livephi)) or base.op == "unk"

    livephi = frozenset()

    def body_local(self, base, st):
        r = base
        while r.op in ("arr", "vec", "sub", "ptr"):
            r = r.a[0]
        return r.op == "lv"

    def hav_keys(self, base, st, R):
        ks = [k for k in list(st.logs) + list(R["ents"]) if k[0] is base]
        if (base, ()) not in ks and base.op in ("vec", "arr", "lv", "alloc"):
            ks.append((base, ()))
        return [k for k in ks]

    # ------------------------------------------------------------ entry point
    def run(self, fn, this=None, args=None, facts=(), pre=None):
        """summarise fn; returns Summary"""
        self.copies = {}
        self.lams = {}
        self.nested = {}
        self.zeroed = set()
        st = State()
        self.nf += 1
        fr = Frame(fn, self.nf, None)
        self.frames = [fr]
        if fn.d.get("cls") and not fn.d.get("static"):
            fr.this = this if this is not None else sym("this", "p")
        params = {}
        for i, p in enumerate(fn.params):
            t = fn.T[p["t"]]
            nm = p["n"] or "arg%d" % i
            fr.vartype[p["d"]] = t
            v = None
            if args and i in args:
                v = args[i]
            elif args and nm in args:
                v = args[nm]
            canon = "$%d" % i
            if t.endswith("&"):
                v = v if v is not None else sym(canon, "p")
                fr.refs[p["d"]] = v
            else:
                k = self.kind(t)
                if k == "o":
                    v = v if v is not None else sym(canon, "p")
                    b = self.lvbase(fr, p["d"], nm)
                    fr.refs[p["d"]] = v
                else:
                    v = v if v is not None else sym(canon, "p" if k in ("p", "arr") else k)
                    st.env[(self.lvbase(fr, p["d"], nm), ())] = v
            params[nm] = v
        for c in facts:
            st.asm = st.asm.plus(c)
        if pre:
            pre(self, st)
        if fn.d.get("ctor"):
            self.ctor_inits(fn, fr.this, st)
        self.exec(fn.d["body"], st)
        v = self.finish_returns(fr, st, TRUE, fn.T[fn.d["ret"]])
        return Summary(self, fn, st, v, params, fr.this)


def vty0(v):
    if v.op == "ite":
        a = vty0(v.a[1])
        return a if a == "p" or v.a[1].op not in ("num", "null") else vty0(v.a[2])
    if isptrish(v):
        return "p"
    return "i" if is_int(v) else "d"


def ety(e):
    if e.ty and e.ty.startswith("mem:"):
        return e.ty[4:]
    return e.ty


def sidefx(n):
    """may evaluating the expression change something?"""
    if isinstance(n, list):
        return any(sidefx(x) for x in n)
    if not isinstance(n, dict):
        return False
    k = n.get("k")
    if k == "asg" or k == "un" and n.get("op") in ("++", "--", "p++", "p--"):
        return True
    if k == "call" and n.get("oper") in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<", ">>"):
        return True
    if k == "call" and not n.get("oper"):
        return True
    return any(sidefx(v) for x, v in n.items() if isinstance(v, (dict, list)))


def subst_undef(v):
    un = {u: sym("undef", u.a[0] if u.a and u.a[0] in ("d", "i") else "d") for u in atoms(v, lambda z: z.op == "unk")
          if any(str(x).startswith(("uninit", "vector element")) for x in u.a)}
    return subst(v, un) if un else v


def syms_in_order(t, syms):
    out, seen = [], set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(reversed(x))
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "sym":
            if x in syms:
                out.append(x)
            continue
        stack.extend(reversed(x.a))
    return out


class Summary:
    def __init__(self, ses, fn, st, ret, params, this):
        self.ses = ses
        self.fn = fn
        self.st = st
        self.ret = ret
        self.params = params
        self.this = this

    def content(self, ptr, off, ty="d", facts=()):
        """value stored at ptr[off] when the function returns"""
        st = self.st.clone()
        for c in facts:
            st.asm = st.asm.plus(c)
        p = padd(ptr, off)
        if p.op == "unk":
            return p
        loc = self.ses.loc_of(p)
        return self.ses.read(st, loc, ty)

    def member(self, ptr, name, ty):
        return self.ses.read(self.st, self.ses.member(self.ses.loc_of(ptr), name), ty)

    def vec_at(self, addr, off, ty="d", facts=()):
        st = self.st.clone()
        for c in facts:
            st.asm = st.asm.plus(c)
        return self.ses.query(st, mk("vec", addr), (), off, ty)

    def vsize(self, addr):
        return self.ses.vsize(self.st, addr)

    def entries(self, base, path=()):
        return self.st.logs.get((base, path), ())


# ---------------------------------------------------------------- utilities
def ancestors(b):
    """the memory b is part of, innermost first"""
    while b.op in ("vec", "arr", "sub"):
        if b.op == "vec":
            b = b.a[0]
        else:
            o, p = b.a[1], b.a[2]
            for i in range(len(p) - (b.op == "sub"), 0, -1):
                yield mk("sub", b.a[0], o, p[:i])
            b = padd(b.a[0], o)
            if b.op == "ptr":
                b = b.a[0]
        yield b


def nested(b, a):
    return b.op in ("vec", "arr", "sub") and any(x is a for x in ancestors(b))


def renest(b, a, t):
    """b with its part a replaced by t"""
    if b is a:
        return t
    if b.op == "vec":
        return mk("vec", renest(b.a[0], a, t))
    if b.op in ("arr", "sub"):
        o, p = b.a[1], b.a[2]
        for i in range(len(p), 0, -1):
            if mk("sub", b.a[0], o, p[:i]) is a:
                return mk(b.op, t, ZERO, p[i:]) if p[i:] or b.op == "arr" else t
        if b.a[0] is a or padd(b.a[0], o) is a:
            return mk(b.op, t, o, p)
        return mk(b.op, renest(b.a[0], a, t), o, p)
    return b


def is_vec(t):
    t = ctype(t)
    return is_map(t) or t.startswith("std::vector<") or t.startswith("std::tr1::array<") or t.startswith("std::array<") or t.startswith("boost::array<")


def vec_elem(t):
    t = ctype(t)
    if t.startswith("std::map<"):
        a = targs(t)
        return "std::pair<const %s, %s>" % (a[0], a[1]) if len(a) > 1 else "?"
    return targs(t)[0]


def targs(t):
    """template arguments of a type name"""
    out, d, b = [], 0, t.index("<") + 1
    for j in range(b, len(t)):
        c = t[j]
        if c == "<":
            d += 1
        elif c == ">" and d == 0:
            return out + [t[b:j].strip()]
        elif c == ">":
            d -= 1
        elif c == "," and d == 0:
            out.append(t[b:j].strip())
            b = j + 1
    return out or ["?"]


def strip_cv(t):
    return ctype(t)


def is_const_ptr(t):
    """pointer/reference to const data"""
    t = t.strip()
    if t.startswith("const "):
        return True
    if is_iter(t):
        return False
    return False


def strip_cast_ty(self, n):
    while n["k"] == "cast" and n.get("ck") == "bit":
        n = n["e"]
    return self.ty(n)


def nbinder(t, b):
    return occurs(b, t)


def coeff_of(t, b, x=None):
    """t = S*b + r with S,r free of b  ->  (S, r);  with x given: coefficient of atom x"""
    y = b if x is None else x
    s, r = {}, {}
    for m, c in pd(t).items():
        e = dict(m).get(y, 0)
        if e == 0:
            if any(occurs(y, z) for z, _ in m):
                return None
            r[m] = c
        elif e == 1:
            mm = tuple((z, k) for z, k in m if z is not y)
            if any(occurs(y, z) for z, _ in mm):
                return None
            s[mm] = c
        else:
            return None
    return fp(s), fp(r)


def match_base(pat, t, b):
    """value of b making pat identical to t, or None"""
    if pat is b:
        return t
    if pat is t:
        return None
    if pat.op != t.op:
        if pat.op == "poly" or t.op == "poly":
            s = solve_lin(sub(pat, t), b)
            return s
        return None
    if pat.op == "poly":
        return solve_lin(sub(pat, t), b)
    if len(pat.a) != len(t.a):
        return None
    r = None
    for x, y in zip(pat.a, t.a):
        if isinstance(x, T) and isinstance(y, T):
            if x is y:
                continue
            if not occurs(b, x):
                return None
            s = match_base(x, y, b)
            if s is None or (r is not None and s is not r):
                return None
            r = s
        elif x != y:
            return None
    return r


def solve_binders(pat, off, binders, f):
    """find values of the binders with pat == off.
    returns (assignment, undetermined binders) | FALSE (impossible) | None (unknown)"""
    bs = [x[0] for x in binders]
    dep = [b for b in bs if occurs(b, pat)]
    left = [x for x in binders if x[0] not in dep]
    if not dep:
        d = sub(pat, off)
        if d is ZERO:
            return {}, left
        if nval(d) is not None:
            return FALSE
        return None
    if len(dep) == 1:
        b = dep[0]
        cf = coeff_of(pat, b)
        if cf is None:
            return None
        s, r = cf
        q = sub(off, r)
        sv = nval(s)
        if sv is not None:
            d = pd(q)
            if all((c / sv).denominator == 1 for c in d.values()):
                return {b: fp({m: c / sv for m, c in d.items()})}, left
            non = {m: c for m, c in d.items() if (c / sv).denominator != 1}
            if set(non) == {()} and int_poly(q):
                return FALSE
            # integer part unknown
            if int_poly(q):
                return None
            return None
        # symbolic stride
        cq = split_stride(q, s)
        if cq is not None and cq[1] is ZERO:
            return {b: cq[0]}, left
        if cq is not None:
            fb = f
            if fb.implies(le(ZERO, cq[1])) and fb.implies(lt(cq[1], s)) and not fb.implies(eq0(cq[1])):
                v = nval(cq[1])
                if v is not None and v > 0:
                    return FALSE
        return None
    # mixed radix: peel the binder with the largest stride first
    cfs = []
    for b in dep:
        cf = coeff_of(pat, b)
        if cf is None or any(occurs(x, cf[0]) for x in dep):
            return None
        cfs.append((b, cf[0]))
    # order: unit-coefficient binder last
    def rank(x):
        s = x[1]
        v = nval(s)
        if v is not None:
            return (0, abs(v))
        return (1 + sum(e for m in pd(s) for _, e in m), 0)
    cfs.sort(key=rank, reverse=True)
    rngs = {x[0]: x for x in binders}
    fb = Facts()
    for b, lo, hi in binders:
        if lo.op != "unk" and hi.op != "unk":
            fb = fb.plus(le(lo, b)).plus(lt(b, hi))
    rest = off
    # constant part of the pattern
    m0 = {b: ZERO for b in dep}
    const = subst(pat, m0)
    rest = sub(rest, const)
    out = {}
    for i, (b, s) in enumerate(cfs):
        if i == len(cfs) - 1 and nval(s) is not None and abs(nval(s)) == 1:
            out[b] = mul(rest, num(1 / nval(s)))
            continue
        c = split_stride(rest, s)
        if c is None:
            return None
        out[b], rest = c
        # unique only if the low-order part of both sides stays within one row of length |s|
        if i < len(cfs) - 1:
            low = ZERO
            for b2, s2 in cfs[i + 1:]:
                low = add(low, mul(b2, s2))
            if not (in_range(low, s, fb) and in_range(rest, s, f)):
                return None
        if i == len(cfs) - 1 and rest is not ZERO:
            return None
    # uniqueness of the decomposition: the low-order parts must lie in their rows
    return out, left


def in_range(x, s, f):
    """0 <= x < s under the facts (also for nested rows x = a*u + v with s = n*u)"""
    v, sv = nval(x), nval(s)
    if v is not None and sv is not None:
        return 0 <= v < abs(sv)
    if f.implies(le(ZERO, x)) and f.implies(lt(x, s)):
        return True
    if v is not None and v == 0:
        return True
    if v is not None:
        return False
    for m, c in pd(s).items():
        for u, ex in m:
            q = exact_quot(s, u)
            if q is None:
                continue
            cf = split_stride(x, u)
            if cf is None or cf[0] is ZERO:
                continue
            if f.implies(le(ZERO, cf[0])) and f.implies(lt(cf[0], q)) and in_range(cf[1], u, f):
                return True
    # s is a polynomial (1+n)*m..., x = a*u + v
    return False


def split_stride(q, s):
    """q = A*s + B with B free of the stride symbols"""
    sv = nval(s)
    if sv is not None:
        A, B = {}, {}
        for m, c in pd(q).items():
            if m == () or (c / sv).denominator != 1:
                if m == ():
                    k = c // sv if sv > 0 else -(c // -sv)
                    A[m] = k
                    B[m] = c - k * sv
                else:
                    B[m] = c
            else:
                A[m] = c / sv
        return fp(A), fp(B)
    ds = pd(s)
    if len(ds) != 1:
        return None
    (ms, cs), = ds.items()
    A, B = {}, {}
    for m, c in pd(q).items():
        md = dict(m)
        ok = all(md.get(x, 0) >= e for x, e in ms)
        if ok and (c / cs).denominator == 1:
            mm = mmul(m, tuple((x, -e) for x, e in ms))
            A[mm] = c / cs
        else:
            B[m] = c
    return fp(A), fp(B)
