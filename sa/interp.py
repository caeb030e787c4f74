"""Random interpretation of summary terms (Gulwani & Necula, POPL 2003).

Used in one direction only: two terms whose normal forms differ but which agree under every
sampled interpretation of their uninterpreted symbols are *not* reported.  The interpretation
gives structures (grids, well sets, sparse patterns) values that satisfy the documented
representation invariants, so that terms are compared only where the API is defined.
Nothing of the analysed program is executed."""
import hashlib
from fractions import Fraction
import math
import struct
from .terms import *
from . import terms as TM

import sys
sys.setrecursionlimit(20000)


class Skip(Exception):
    pass


class Trap(Skip):
    """an operation without defined behaviour: null read, integer division by zero, index outside its array"""


class Stop(Exception):
    pass


def h64(*a):
    return struct.unpack("<Q", hashlib.blake2b(repr(a).encode(), digest_size=8).digest())[0]


POSITIONS = {"ia", "row_start_", "pdof", "p2", "pb2", "cond_pos"}


class Model:
    """one interpretation; tables maps a trailing field name (or '$3', '$3.#size') to a list / number / callable"""

    def __init__(self, seed, tables=None, ints=(0, 3), npnull=0.0, signed=True):
        self.seed = seed
        self.t = dict(tables or {})
        self.ints = ints
        self.npnull = npnull
        self.signed = signed
        self.memo = {}
        self.steps = 0
        self.nullable = ()      # pointers the programs test against null
        self.hints = {}         # constants the programs compare a name with
        self.sm = None
        self.xm = None
        self.dm = None
        self.forced = {}        # values chosen for single names
        self.rec = None         # names read, while recording
        self.positive = ()      # counts of at least one
        self.csr = ()           # parameters holding positions
        self.cums = {}
        self.noundef = False    # memory nobody wrote has no value
        self.exact = False      # rational arithmetic
        self.strict = False     # indices are checked against the extent of their arrays

    table_driven = True

    def checked(self):
        """the same interpretation with extents checked"""
        if self.sm is None:
            self.sm = Model(self.seed, self.t, self.ints, self.npnull, self.signed)
            self.sm.positive = self.positive
            self.sm.csr = self.csr
            self.sm.nullable, self.sm.hints, self.sm.strict, self.sm.forced = self.nullable, self.hints, True, self.forced
        return self.sm

    def rational(self):
        """the same interpretation in rational arithmetic"""
        if self.xm is None:
            self.xm = Model(self.seed, self.t, self.ints, self.npnull, self.signed)
            self.xm.positive = self.positive
            self.xm.csr = self.csr
            self.xm.nullable, self.xm.hints, self.xm.exact, self.xm.forced = self.nullable, self.hints, True, self.forced
        return self.xm

    def defined(self):
        """the rational interpretation, where reading memory nobody wrote gives no value"""
        if self.dm is None:
            self.dm = Model(self.seed, self.t, self.ints, self.npnull, self.signed)
            self.dm.positive = self.positive
            self.dm.csr = self.csr
            self.dm.nullable, self.dm.hints, self.dm.exact, self.dm.noundef, self.dm.forced = self.nullable, self.hints, True, True, self.forced
        return self.dm

    def isnull(self, t, *k):
        if (t.a[0] if t.op == "sym" else t.a[1]) in self.nullable:
            v = self.chosen(("n",) + k, None)
            if v is not None:
                return v
        return self.seed % 2 == 1 and (t.a[0] if t.op == "sym" else t.a[1]) in self.nullable and h64(self.seed, "null", *k) % 100 < 40

    def real(self, *k, hint=None):
        v = self.real0(*k, hint=hint)
        return Fraction(v) if self.exact else v

    def chosen(self, key, hint):
        if self.rec is not None:
            self.rec.append((key, hint))
        return self.forced.get(key)

    def real0(self, *k, hint=None):
        v = self.chosen(("d",) + k, hint)
        if v is not None:
            return v
        h = h64(self.seed, "d", *k)
        c = self.hints.get(hint) if hint is not None else None
        if c and h // 1024 % 100 < 35:
            return float(c[h // 131072 % len(c)])
        if self.seed % 4 == 2:
            # few distinct values with exact sums and products, so that comparisons can tie
            return (0.25, 0.5, 1.0, 1.0, 2.0, 4.0)[h % 6]
        v = 0.25 + 1.75 * (h / 2.0 ** 64)
        if self.signed and self.seed % 2:
            # every other interpretation mixes signs and contains exact zeros and ones
            s = h % 24
            if s < 7:
                return -v
            if s < 9:
                return 0.0
            if s < 10:
                return 1.0
        return v

    def int(self, *k, hint=None):
        v = self.int0(*k, hint=hint)
        return max(v, 1) if hint in self.positive else v

    def cumulative(self, b, o):
        """positions into another array: they start at zero and never decrease"""
        c = self.cums.setdefault(b, [0])
        while len(c) <= o:
            c.append(c[-1] + (0, 1, 1, 2, 2, 3)[h64(self.seed, "cum", b, len(c)) % 6])
        return c[o]

    def int0(self, *k, hint=None):
        v = self.chosen(("i",) + k, hint)
        if v is not None:
            return v
        lo, hi = self.ints
        c = self.hints.get(hint) if hint is not None else None
        if c:
            h = h64(self.seed, "h", *k)
            if h % 100 < 60:
                return c[h // 1024 % len(c)]
        return lo + h64(self.seed, "i", *k) % (hi - lo + 1)

    # -- names
    def lookup(self, names, off, ty):
        v = self.lookup0(names, off, ty)
        return Fraction(v) if self.exact and isinstance(v, float) and math.isfinite(v) else v

    def lookup0(self, names, off, ty):
        for n in names:
            if n in self.t:
                v = self.t[n]
                if callable(v):
                    v = v(off)
                if isinstance(v, (list, tuple)):
                    if isinstance(off, int) and 0 <= off < len(v):
                        return v[off]
                    if self.strict:
                        raise Trap("reads element %s of the %d of %s" % (off, len(v), n))
                    return 0 if ty == "i" else self.real(n, off)
                if v is not None:
                    return v
        return None

    def ev(self, t, env=()):
        """env: dict binder level -> value (only bound variables)"""
        self.steps = 0
        return Eval(self).ev(t, dict(env))


class Eval:
    def __init__(self, m):
        self.m = m
        self.memo = m.memo
        self.steps = 0

    def ev(self, t, env):
        op = t.op
        if op == "num":
            return self.e_num(t, env)
        if op == "bv" or op == "sym":
            return self.e_bv(t, env) if op == "bv" else self.e_sym(t, env)
        fv = fvs(t)
        key = t if not fv else (t,) + tuple([env.get(v) for v in fv])
        r = self.memo.get(key)
        if r is not None:
            return r
        self.m.steps += 1
        if self.m.steps > 600000:
            raise Skip("too large")
        r = getattr(self, "e_" + op, self.e_other)(t, env)
        self.memo[key] = r
        return r

    # values: int, float, bool, or tuple keys for pointers/objects
    def e_num(self, t, env):
        v = t.a[0]
        return int(v) if v.denominator == 1 else v if self.m.exact else float(v)

    def e_true(self, t, env):
        return True

    def e_false(self, t, env):
        return False

    def e_null(self, t, env):
        return ("null",)

    def e_bv(self, t, env):
        if t.a[0] in env:
            return env[t.a[0]]
        raise Stop("bound variable outside its binder")

    def e_sym(self, t, env):
        n, ty = t.a[0], t.a[1]
        if n == "undef" and self.m.noundef:
            raise Skip("undefined value")
        if n in env:
            v = env[n]
            if isinstance(v, Exception):
                raise v
            return v
        if n[0] == "%":
            raise Stop("loop variable outside its loop")
        if ty == "p":
            if n in self.m.t and self.m.t[n] is None:
                return ("null",)
            if n not in self.m.t and self.m.isnull(t, n):
                return ("null",)
            return ("sym", n)
        v = self.m.lookup((n,), None, ty)
        if v is not None:
            return v
        if ty == "i":
            return self.m.int("sym", n, hint=n)
        return self.m.real("sym", n, hint=n)

    def e_poly(self, t, env):
        s = 0
        for m, c in t.a[0]:
            p = int(c) if c.denominator == 1 else c if self.m.exact else float(c)
            for x, e in m:
                v = self.num(self.ev(x, env))
                if e < 0:
                    if v == 0:
                        raise Skip("division by zero")
                    p = p / ((Fraction(v) if self.m.exact else float(v)) ** (-e))
                else:
                    p = p * v ** e
            s += p
        if isinstance(s, Fraction):
            if s.denominator.bit_length() + s.numerator.bit_length() > 40000:
                raise Skip("digits")
            return s
        if isinstance(s, complex) or s != s or s in (math.inf, -math.inf):
            raise Skip("nan")
        return s

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, tuple):
            # a pointer used as a number: only its hash matters
            return 1.0 + h64("p", v) / 2.0 ** 64
        return v

    def i(self, v):
        v = self.num(v)
        if isinstance(v, float):
            if abs(v - round(v)) < 1e-9:
                return int(round(v))
            raise Skip("non-integer")
        if isinstance(v, Fraction):
            if v.denominator == 1:
                return int(v)
            raise Skip("non-integer")
        return v

    # ---- memory
    def path_names(self, b):
        """names under which a location may be listed in the model"""
        if b[0] == "sym":
            return (b[1],)
        if b[0] in ("load",):
            # ("load", basekey, path, off)
            last = b[2][-1] if b[2] else None
            out = []
            for n in self.path_names(b[1]):
                out.append(n + "".join("." + x for x in b[2]))
            if last:
                out.append(last)
            return tuple(out)
        if b[0] in ("sub", "arr"):
            out = []
            for n in self.path_names(b[1]):
                out.append(n + "".join("." + x for x in b[3]))
            if b[3]:
                out.append(b[3][-1])
            return tuple(out)
        if b[0] == "vec":
            return self.path_names(b[1])
        if b[0] == "glob":
            return ("::" + str(b[1]),)
        return ()

    def e_load(self, t, env):
        base, path, off, ty = t.a
        b = self.ev(base, env)
        o = self.i(self.ev(off, env))
        # pointer arithmetic inside key
        if isinstance(b, tuple) and b and b[0] == "ptr":
            o += b[2]
            b = b[1]
        names = []
        if b == ("null",):
            raise Trap("reads through a null pointer")
        if self.m.noundef and o < 0 and not (path and path[-1][:1] in "!#"):
            raise Skip("element %s of an array" % o)
        if isinstance(b, tuple):
            if path:
                for n in self.path_names(b):
                    names.append(n + "".join("." + x for x in path))
                names.append(".".join(path))
                if not path[-1].startswith("#"):
                    names.append(path[-1])
            else:
                names = list(self.path_names(b))
        if ty in ("i", "d", "b"):
            v = self.m.lookup(names, o, ty)
            if v is not None:
                return v
            k = (b, path, o)
            if self.m.noundef and isinstance(b, tuple) and b[0] in ("alloc", "lv"):
                raise Skip("undefined value %s" % t)
            if self.m.strict and isinstance(b, tuple) and b[0] == "vec" and not (path and path[-1].startswith("#")):
                self.bounds(b, o)
            if ty == "i":
                if path and path[-1] == "!has":
                    # presence of an entry: sparse in some interpretations, dense in others
                    v = self.m.chosen(("h",) + k, None)
                    if v is not None:
                        return v
                    sd = self.m.seed
                    p = (12, 25, 40, 55, 90)[h64(sd, "hasp") % 5]
                    if h64(sd, "hasm") % 4 and h64(sd, "hasm", b) % 3:
                        p = 1       # few maps hold most entries
                    return int(h64(sd, "has", *k) % 100 < p)
                hint = ((b[1],) + path if isinstance(b, tuple) and b and b[0] == "call" else path) or self.key(b)
                if 0 <= o < 200 and self.positions(hint):
                    return self.m.cumulative(b, o)
                return self.m.int(*k, hint=hint)
            return self.m.real(*k, hint=((b[1],) + path if isinstance(b, tuple) and b and b[0] == "call" else path) or self.key(b))
        if ty == "p":
            for n in names:
                if n in self.m.t and self.m.t[n] is None:
                    return ("null",)
            if self.m.npnull and h64(self.m.seed, "null", b, path) / 2.0 ** 64 < self.m.npnull and not any(n in self.m.t for n in names):
                return ("null",)
            if not any(n in self.m.t for n in names) and self.m.isnull(t, b, path, o):
                return ("null",)
            return ("load", b, path, o)
        return ("obj", b, path, o)

    def positions(self, hint):
        if isinstance(hint, tuple):
            hint = hint[-1] if hint else None
        return isinstance(hint, str) and (hint in POSITIONS or hint.endswith("pos") or hint in self.m.csr)

    @staticmethod
    def key(b):
        """the member an unnamed element belongs to"""
        while isinstance(b, tuple) and b and b[0] in ("vec", "ptr"):
            b = b[1]
        if isinstance(b, tuple) and b:
            if b[0] == "sym":
                return b[1]
            if b[0] == "load":
                return b[2]
            if b[0] in ("sub", "arr"):
                return b[3] if len(b) > 3 else b[2]
        return None

    def bounds(self, b, o):
        names = [n + ".#size" for n in self.path_names(b)] + ["#size"]
        n = self.m.lookup(names, 0, "i")
        if n is None:
            n = self.m.int(b, ("#size",), 0, hint=("#size",))
        if not 0 <= o < n:
            raise Trap("reads element %d of a container with %d" % (o, n))

    def e_ptr(self, t, env):
        b = self.ev(t.a[0], env)
        o = self.i(self.ev(t.a[1], env))
        if isinstance(b, tuple) and b and b[0] == "ptr":
            o += b[2]
            b = b[1]
        return ("ptr", b, o) if o else b

    def e_sub(self, t, env):
        return ("sub", self.ev(t.a[0], env), self.ev(t.a[1], env), t.a[2])

    def e_arr(self, t, env):
        return ("arr", self.ev(t.a[0], env), self.ev(t.a[1], env), t.a[2])

    def e_vec(self, t, env):
        return ("vec", self.ev(t.a[0], env))

    def e_glob(self, t, env):
        return ("glob",) + tuple(self.ev(x, env) if isinstance(x, T) else x for x in t.a)

    def e_unk(self, t, env):
        raise Stop("unknown: %s" % (t.a[1] if len(t.a) > 1 else ""))

    # ---- booleans
    def e_ite(self, t, env):
        return self.ev(t.a[1] if self.ev(t.a[0], env) else t.a[2], env)

    def cmpv(self, t, env):
        v = self.num(self.ev(t.a[0], env))
        return v

    def e_le(self, t, env):
        v = self.cmpv(t, env)
        if isinstance(v, float) and v != 0 and abs(v) < 1e-9 or isinstance(v, Fraction) and v != 0 and abs(v) < 1e-13:
            raise Skip("tie")
        return v <= 0

    def e_lt(self, t, env):
        v = self.cmpv(t, env)
        if isinstance(v, float) and v != 0 and abs(v) < 1e-9 or isinstance(v, Fraction) and v != 0 and abs(v) < 1e-13:
            raise Skip("tie")
        return v < 0

    def e_eq(self, t, env):
        v = self.cmpv(t, env)
        return v == 0 or (isinstance(v, float) and abs(v) < 1e-12)

    def e_ne(self, t, env):
        return not self.e_eq(t, env)

    def e_and(self, t, env):
        # the conjuncts carry no order: one that is false settles it whatever the others do
        bad = None
        for x in t.a[0]:
            try:
                if not self.ev(x, env):
                    return False
            except (Skip, Stop) as e:
                bad = bad or e
        if bad:
            raise bad
        return True

    def e_or(self, t, env):
        bad = None
        for x in t.a[0]:
            try:
                if self.ev(x, env):
                    return True
            except (Skip, Stop) as e:
                bad = bad or e
        if bad:
            raise bad
        return False

    def e_not(self, t, env):
        return not self.ev(t.a[0], env)

    def e_peq(self, t, env):
        return self.ev(t.a[0], env) == self.ev(t.a[1], env)

    def e_bapp(self, t, env):
        if t.a[0] == "unk":
            raise Stop("unknown condition")
        return bool(h64(self.m.seed, "b", t.a[0], [self.ev(x, env) for x in t.a[1:]]) & 1)

    # ---- binders
    def rng(self, t, env):
        lo, hi = self.i(self.ev(t.a[1], env)), self.i(self.ev(t.a[2], env))
        if hi - lo > 400:
            raise Skip("range")
        return range(lo, hi)

    def e_sum(self, t, env):
        s = 0
        e = dict(env)
        for i in self.rng(t, env):
            e[t.a[0]] = i
            s += self.num(self.ev(t.a[3], e))
        return s

    def e_exists(self, t, env):
        e = dict(env)
        for i in self.rng(t, env):
            e[t.a[0]] = i
            if self.ev(t.a[3], e):
                return True
        return False

    def e_first(self, t, env):
        e = dict(env)
        r = self.rng(t, env)
        for i in r:
            e[t.a[0]] = i
            if self.ev(t.a[3], e):
                return i
        return r.stop

    def e_scat(self, t, env):
        e = dict(env)
        for i in reversed(self.rng(t, env)):
            e[t.a[0]] = i
            if self.ev(t.a[3], e):
                return self.ev(t.a[4], e)
        return self.ev(t.a[5], env)

    def _mr(self, t, env, f):
        v = self.num(self.ev(t.a[4], env))
        e = dict(env)
        for i in self.rng(t, env):
            e[t.a[0]] = i
            v = f(v, self.num(self.ev(t.a[3], e)))
        return v

    def e_maxr(self, t, env):
        return self._mr(t, env, max)

    def e_minr(self, t, env):
        return self._mr(t, env, min)

    def _am(self, t, env, sg):
        best, bi = None, None
        e = dict(env)
        r = self.rng(t, env)
        for i in r:
            e[t.a[0]] = i
            v = sg * self.num(self.ev(t.a[3], e))
            if best is None or v > best:
                best, bi = v, i
        return bi if bi is not None else r.stop

    def e_argmax(self, t, env):
        return self._am(t, env, 1)

    def e_argmin(self, t, env):
        return self._am(t, env, -1)

    def e_fold(self, t, env):
        n = t.a[0]
        e = dict(env)
        v = self.later(t.a[4], env)
        for i in self.rng(t, env):
            e[n] = i
            e["%%acc%d" % n] = v
            v = self.later(t.a[3], e)
        if isinstance(v, Exception):
            raise v
        return v

    def later(self, t, env):
        try:
            return self.ev(t, env)
        except (Skip, Stop) as e:
            return e

    def e_mu(self, t, env):
        return MuRun(self, t, env)

    def e_muout(self, t, env):
        v = self.ev(t.a[0], env).final[t.a[1]]
        if isinstance(v, Exception):
            raise v
        return v

    def e_mget(self, t, env):
        m = self.ev(t.a[0], env)
        o = self.i(self.ev(t.a[1], env))
        if not isinstance(m, MemFn):
            raise Skip("memory")
        return m.get(o)

    def e_kth(self, t, env):
        e = dict(env)
        vs = []
        for i in self.rng(t, env):
            e[t.a[0]] = i
            vs.append(self.num(self.ev(t.a[3], e)))
        vs.sort()
        k = self.i(self.ev(t.a[4], env))
        if not 0 <= k < len(vs):
            raise Skip("order statistic")
        return vs[k]

    # ---- applications
    def e_app(self, t, env):
        f = t.a[0]
        if f.startswith("call:"):
            return ("call", f, tuple(self.arg(x, env) for x in t.a[1:]))
        if f == "tr" or f == "sig":
            return 1 + h64(self.m.seed, f, [self.arg(x, env) for x in t.a[1:]]) / 2.0 ** 64
        a = [self.ev(x, env) if isinstance(x, T) else x for x in t.a[1:]]
        n = [self.num(x) for x in a]
        if self.m.exact and f not in ("max", "min", "abs", "stop", "idiv", "imod", "ceildiv", "trunc", "toint", "int"):
            try:
                r = self.fapp(f, [float(x) if isinstance(x, Fraction) else x for x in n], a)
            except OverflowError:
                raise Skip("domain")
            return Fraction(r) if isinstance(r, float) and math.isfinite(r) else r
        return self.fapp(f, n, a)

    def fapp(self, f, n, a):
        try:
            if f == "max":
                return max(n)
            if f == "min":
                return min(n)
            if f == "abs":
                return abs(n[0])
            if f == "stop":
                return n[0]
            if f == "idiv":
                if n[1] == 0:
                    raise Trap("integer division by zero")
                q = abs(n[0]) // abs(n[1])
                return q if (n[0] >= 0) == (n[1] > 0) else -q
            if f == "imod":
                if n[1] == 0:
                    raise Trap("integer division by zero")
                q = abs(n[0]) % abs(n[1])
                return q if n[0] >= 0 else -q
            if f == "ceildiv":
                return -((-n[0]) // n[1])
            if f == "sqrt":
                if n[0] < 0:
                    raise Skip("sqrt")
                return math.sqrt(n[0])
            if f in ("exp", "log", "sin", "cos", "tan", "atan", "acos", "asin", "floor", "ceil", "log10"):
                return getattr(math, f)(n[0])
            if f == "pow":
                return float(n[0]) ** n[1]
            if f in ("trunc", "toint", "int"):
                return int(n[0])
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            raise Skip("domain")
        if f in ("i:&", "i:|", "i:^", "i:<<", "i:>>") and all(isinstance(x, int) for x in n[:2]):
            x, y = n[0], n[1]
            if f in ("i:&", "i:|", "i:^"):
                return x & y if f == "i:&" else x | y if f == "i:|" else x ^ y
            if not 0 <= y < 64:
                raise Skip("shift")
            return x << y if f == "i:<<" else x >> y
        if f == "i:trunc" and isinstance(n[0], (int, float, Fraction)) and abs(n[0]) < 2 ** 53:
            return int(n[0])
        if f.startswith("i:"):
            return -1000000 - h64(self.m.seed, f, [self.q(x) for x in a]) % 1000
        return self.m.real("app", f, *[self.q(x) for x in a])

    def q(self, v):
        """quantised for hashing"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (float, Fraction)):
            if abs(v - round(v)) < 1e-9:
                return int(round(v))
            return "%.7e" % v
        if isinstance(v, tuple):
            return tuple(self.q(x) for x in v)
        return v

    def arg(self, x, env):
        if not isinstance(x, T):
            return x
        if x.op == "content":
            return ("content",) + tuple(self.arg(y, env) for y in x.a)
        if x.op == "lam":
            vals = []
            for k in range(4):
                e = dict(env)
                e[1000] = k
                try:
                    vals.append(self.q(self.ev(x.a[1], e)))
                except Skip:
                    vals.append("skip")
            return ("lam", x.a[0], tuple(vals))
        if x.op == "fld":
            return ("fld", x.a[0], self.arg(x.a[1], env))
        return self.q(self.ev(x, env))

    def e_out(self, t, env):
        return ("out", self.ev(t.a[0], env), t.a[1])

    def e_other(self, t, env):
        return (t.op,) + tuple(self.arg(x, env) if isinstance(x, T) else self.tup(x, env) if isinstance(x, tuple) else x for x in t.a)

    def tup(self, x, env):
        return tuple(self.arg(y, env) if isinstance(y, T) else self.tup(y, env) if isinstance(y, tuple) else y for y in x)


class MemFn:
    """memory after some iterations of a mu loop, read on demand"""

    def __init__(self, E, t, env, kname):
        self.E, self.t, self.env, self.kname = E, t, env, kname
        self.memo = {}

    def get(self, o):
        if o not in self.memo:
            e = dict(self.env)
            e[self.kname] = o
            try:
                self.memo[o] = self.E.ev(self.t, e)
            except (Skip, Stop) as x:
                self.memo[o] = x
        v = self.memo[o]
        if isinstance(v, Exception):
            raise v
        return v


class MuRun:
    """evaluation of a recursive term: state vector, continuation condition, one-step transformer"""

    def __init__(self, E, t, env, cap=150):
        n, types, inits, cond, steps = t.a
        kn = "%%mk%d" % n
        names = ["%%mu%d.%d" % (n, i) for i in range(len(types))]

        def val(x, ty, e):
            if ty == "m":
                return MemFn(E, x, e, kn)
            try:
                return E.ev(x, e)
            except (Skip, Stop) as ex:
                return ex
        cur = [val(x, ty, env) for x, ty in zip(inits, types)]
        for it in range(cap + 1):
            e = dict(env)
            e.update(zip(names, cur))
            if not E.ev(cond, e):
                self.final = cur
                return
            cur = [val(x, ty, e) for x, ty in zip(steps, types)]
        raise Skip("loop runs too long under this interpretation")


_fv = {}


def fvs(t):
    r = _fv.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        r = frozenset((t.a[0],))
    elif t.op == "sym":
        r = frozenset((t.a[0],)) if t.a[0].startswith("%") else frozenset()
    else:
        s = set()
        _fva(t.a, s)
        if t.op in ("sum", "exists", "first", "maxr", "minr", "scat", "fold", "argmax", "argmin"):
            s.discard(t.a[0])
            s.discard("%%acc%d" % t.a[0])
        if t.op == "kth":
            s.discard(t.a[0])
        if t.op == "mu":
            pre = "%%mu%d." % t.a[0]
            s = {x for x in s if not (isinstance(x, str) and (x.startswith(pre) or x == "%%mk%d" % t.a[0]))}
        if t.op == "lam":
            s.discard(1000)
        r = frozenset(s)
    _fv[t] = r
    return r


def _fva(a, s):
    for x in a:
        if isinstance(x, T):
            s |= fvs(x)
        elif isinstance(x, tuple):
            _fva(x, s)


def same(a, b, pairs=None):
    if isinstance(a, tuple) or isinstance(b, tuple):
        x, y = sig(a), sig(b)
        if x == y:
            if pairs is not None and isinstance(x, tuple):
                for l in allocs(x):
                    pairs.add((l, l))
            return True
        # freshly allocated blocks have no identity: equal up to renaming
        la, lb = allocs(x), allocs(y)
        if not la or len(la) != len(lb) or anon(x) != anon(y):
            return False
        if pairs is not None:
            pairs.update(zip(la, lb))
        return True
    a, b = float(a), float(b)
    return abs(a - b) <= 1e-6 * max(1e-3, abs(a), abs(b))


def allocs(v):
    if not isinstance(v, tuple):
        return []
    if v and v[0] == "alloc":
        return [v]
    return [y for x in v for y in allocs(x)]


def anon(v):
    if not isinstance(v, tuple):
        return v
    if v and v[0] == "alloc":
        return ("alloc",)
    return tuple(anon(x) for x in v)


def sig(v):
    if isinstance(v, float):
        return "%.6e" % v if abs(v - round(v)) > 1e-9 else int(round(v))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, tuple):
        return tuple(sig(x) for x in v)
    return v


# ------------------------------------------------------------ structured models
import random


def grid_model(seed):
    """a small grid satisfying the invariants documented in opm/core/grid.h"""
    r = random.Random(seed * 7919 + 13)
    dims = r.choice((2, 3))
    nc = r.choice((2, 3, 4))
    faces = []
    for c in range(nc):
        for c2 in range(c + 1, nc):
            if r.random() < 0.7 or c2 == c + 1:
                p = [c, c2]
                if r.random() < 0.5:
                    p.reverse()
                faces.append(tuple(p))
    for c in range(nc):
        for _ in range(r.choice((1, 2))):
            faces.append((c, -1) if r.random() < 0.5 else (-1, c))
    r.shuffle(faces)
    nf = len(faces)
    cf, pos = [], [0]
    tag = []
    for c in range(nc):
        mine = [f for f in range(nf) if c in faces[f]]
        r.shuffle(mine)
        cf += mine
        tag += [r.randrange(2 * dims) for _ in mine]
        pos.append(len(cf))
    nn = nf + 2
    fnp, fn = [0], []
    for f in range(nf):
        k = 2 if dims == 2 else r.choice((3, 4))
        fn += r.sample(range(nn), k)
        fnp.append(len(fn))
    fc = [x for p in faces for x in p]
    t = {
        "dimensions": dims, "number_of_cells": nc, "number_of_faces": nf, "number_of_nodes": nn,
        "cell_facepos": pos, "cell_faces": cf, "face_cells": fc, "face_nodepos": fnp, "face_nodes": fn,
        "cell_facetag": tag, "global_cell": sorted(r.sample(range(2 * nc), nc)),
    }
    return t


def wells_model(seed, nc=None, np_=None):
    r = random.Random(seed * 104729 + 7)
    nw = r.choice((1, 2, 3))
    np_ = np_ or r.choice((2, 3))
    nc = nc or 4
    pos, cells = [0], []
    for w in range(nw):
        k = r.choice((1, 2))
        cells += [r.randrange(nc) for _ in range(k)]
        pos.append(len(cells))
    return {"number_of_wells": nw, "number_of_phases": np_, "well_connpos": pos, "well_cells": cells,
            "distr": lambda o: 1.0 if h64(seed, "distr", o) % 8 else 0.5}


def bc_tables(t, r, pre="bc."):
    """boundary conditions on distinct exterior faces; prescribed fluxes name one face each (opm/core/pressure/flow_bc.h)"""
    nf = t["number_of_faces"]
    fc = t["face_cells"]
    ext = [f for f in range(nf) if fc[2 * f] < 0 or fc[2 * f + 1] < 0]
    r.shuffle(ext)
    pos, face, typ = [0], [], []
    while ext and r.random() < 0.75:
        ty = r.choice((0, 1, 2))
        k = 1 if ty != 1 else r.choice((1, 2))
        for _ in range(min(k, len(ext))):
            face.append(ext.pop())
        pos.append(len(face))
        typ.append(ty)
    return {pre + "nbc": len(typ), pre + "type": typ, pre + "cond_pos": pos, pre + "face": face}


def tpfa_rows(t, extra=()):
    """sorted row patterns of the two-point matrix, wells appended"""
    nc, nw = t["number_of_cells"], t.get("number_of_wells", 0)
    rows = [{c} for c in range(nc)]
    fc = t["face_cells"]
    for f in range(t["number_of_faces"]):
        a, b = fc[2 * f], fc[2 * f + 1]
        if a >= 0 and b >= 0:
            rows[a].add(b)
            rows[b].add(a)
    for w in range(nw):
        rows.append({nc + w})
        for i in range(t["well_connpos"][w], t["well_connpos"][w + 1]):
            c = t["well_cells"][i]
            rows[c].add(nc + w)
            rows[nc + w].add(c)
    return [sorted(x) for x in rows]


def csr(rows):
    ia, ja = [0], []
    for x in rows:
        ja += x
        ia.append(len(ja))
    return ia, ja


def fv_model(seed, wells=True):
    """grid, optional wells, boundary conditions and the two-point system matrix"""
    r = random.Random(seed * 31337 + 5)
    t = grid_model(seed)
    if wells and r.random() < 0.8:
        t.update(wells_model(seed, nc=t["number_of_cells"]))
    else:
        t["number_of_wells"] = 0
        t["W"] = None
        t["wells"] = None
    rows = tpfa_rows(t)
    ia, ja = csr(rows)
    t.update({"A.m": len(rows), "A.ia": ia, "A.ja": ja, "A.nnz": len(ja), "m": len(rows), "ia": ia, "ja": ja})
    if r.random() < 0.8:
        t.update(bc_tables(t, r))
    else:
        t["bc"] = None
        t.update({"bc.nbc": 0})
    return t
