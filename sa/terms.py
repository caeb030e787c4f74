"""Hash-consed value terms with an algebraic normal form (value numbering domain).

Arithmetic is kept as polynomials with rational coefficients over opaque atoms
(negative exponents allowed), comparisons as sign conditions on such polynomials,
control-flow merges as gated (ite) terms and counted loops as Sum/fold terms."""
import hashlib
from fractions import Fraction as Fr
from functools import lru_cache

_tab = {}


class T:
    __slots__ = ("op", "a", "_k", "_l", "_s", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.key() < o.key()

    def key(self):
        if self._k is None:
            h = hashlib.md5()
            h.update(self.op.encode())
            _feed(h, self.a)
            self._k = h.digest()
        return self._k


def _feed(h, a):
    for x in a:
        if isinstance(x, T):
            h.update(b"T" + x.key())
        elif isinstance(x, tuple):
            h.update(b"(")
            _feed(h, x)
            h.update(b")")
        else:
            h.update(repr(x).encode() + b";")


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t._k = None
        t._l = None
        t._s = None
        _tab[k] = t
    return t


def num(x):
    return mk("num", Fr(x))


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk("true"), mk("false")
NULL = mk("null")


def sym(name, ty="d"):
    return mk("sym", name, ty)


_unk = [0]


def unk(why=""):
    _unk[0] += 1
    return mk("unk", _unk[0], why)


BOOLOPS = {"le", "lt", "eq", "ne", "and", "or", "not", "true", "false", "exists", "bapp", "peq"}


def is_bool(t):
    return t.op in BOOLOPS or (t.op == "ite" and is_bool(t.a[1]) and is_bool(t.a[2]))


# ---------------------------------------------------------------- polynomials
def pd(t):
    """polynomial dictionary of an arithmetic term"""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a[0])
    if is_bool(t):
        t = b2i(t)
        if t.op in ("num", "poly"):
            return pd(t)
    if t.op == "null":
        return {}
    return {((t, 1),): Fr(1)}


def _mkey(m):
    return tuple((x.key(), e) for x, e in m)


def fp(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda x: _mkey(x[0]))))


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: p[0].key()))


_addc = {}


def add(a, b):
    if a.op == "unk":
        return a if True else b
    if b.op == "unk":
        return b
    k = (a, b)
    r = _addc.get(k)
    if r is None:
        d = dict(pd(a))
        for m, c in pd(b).items():
            d[m] = d.get(m, 0) + c
        r = _addc[k] = fp(d)
    return r


def neg(a):
    if a.op == "unk":
        return a
    return fp({m: -c for m, c in pd(a).items()})


def sub(a, b):
    return add(a, neg(b))


_mulc = {}
MAXTERMS = 4000


def mul(a, b):
    if a.op == "unk":
        return a
    if b.op == "unk":
        return b
    k = (a, b)
    r = _mulc.get(k)
    if r is None:
        pa, pb = pd(a), pd(b)
        if len(pa) * len(pb) > MAXTERMS:
            r = unk("poly too large")
        else:
            d = {}
            poly_pos = False
            for m1, c1 in pa.items():
                for m2, c2 in pb.items():
                    m = mmul(m1, m2)
                    d[m] = d.get(m, 0) + c1 * c2
                    if any(e > 0 and x.op == "poly" for x, e in m):
                        poly_pos = True
            r = fp(d)
            if poly_pos:
                # expand positive powers of sums that met their inverse
                s = ZERO
                for m, c in pd(r).items():
                    t = num(c)
                    rest = []
                    for x, e in m:
                        if x.op == "poly" and e > 0:
                            for _ in range(e):
                                t = mul(t, x)
                        else:
                            rest.append((x, e))
                    s = add(s, mul(t, fp({tuple(rest): Fr(1)})))
                r = s
        _mulc[k] = r
    return r


def content(d):
    """positive rational c such that d/c has coprime integer coefficients"""
    from math import gcd
    n, q = 0, 1
    for c in d.values():
        n = gcd(n, abs(c.numerator))
        q = q * c.denominator // gcd(q, c.denominator)
    return Fr(n, q) if n else Fr(1)


def inv(b):
    if b.op == "unk":
        return b
    d = pd(b)
    if not d:
        return mk("app", "inv0")
    if len(d) == 1:
        (m, c), = d.items()
        return fp({tuple((x, -e) for x, e in m): 1 / c})
    # factor out the common monomial and the content
    common = None
    for m in d:
        md = dict(m)
        if common is None:
            common = md
        else:
            common = {x: (min(e, md[x]) if e > 0 and md[x] > 0 else max(e, md[x]) if e < 0 and md[x] < 0 else 0)
                      for x, e in common.items() if x in md}
    common = tuple(sorted(((x, e) for x, e in (common or {}).items() if e), key=lambda p: p[0].key()))
    c = content(d)
    items = sorted(d.items(), key=lambda x: _mkey(x[0]))
    if items[0][1] < 0:
        c = -c
    icom = tuple((x, -e) for x, e in common)
    prim = fp({mmul(m, icom): v / c for m, v in d.items()})
    if prim.op == "num":
        return fp({icom: 1 / (c * prim.a[0])})
    return fp({mmul(icom, ((prim, -1),)): 1 / c})


def div(a, b):
    if a is b and a.op != "unk":
        return ONE
    return mul(a, inv(b))


def powi(a, n):
    if n < 0:
        return powi(inv(a), -n)
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def nval(t):
    """Fraction if t is a numeric constant"""
    return t.a[0] if t.op == "num" else None


def ival(t):
    v = nval(t)
    return int(v) if v is not None and v.denominator == 1 else None


# ---------------------------------------------------------------- booleans
def b2i(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    if is_bool(t):
        return ite(t, ONE, ZERO)
    return t


def _normp(p, signed):
    d = pd(p)
    c = content(d)
    if signed:
        items = sorted(d.items(), key=lambda x: _mkey(x[0]))
        if items and items[0][1] < 0:
            c = -c
    return fp({m: v / c for m, v in d.items()})


def le0(p):
    v = nval(p)
    if v is not None:
        return TRUE if v <= 0 else FALSE
    if p.op == "unk":
        return mk("bapp", "unk", p)
    return mk("le", _normp(p, False))


def lt0(p):
    v = nval(p)
    if v is not None:
        return TRUE if v < 0 else FALSE
    if p.op == "unk":
        return mk("bapp", "unk", p)
    return mk("lt", _normp(p, False))


def eq0(p):
    v = nval(p)
    if v is not None:
        return TRUE if v == 0 else FALSE
    if p.op == "unk":
        return mk("bapp", "unk", p)
    return mk("eq", _normp(p, True))


def isptrish(t):
    return t.op in ("ptr", "null", "sub", "arr", "lv", "vec", "alloc", "glob", "str") or \
        (t.op == "load" and t.a[3] == "p") or (t.op in ("mget", "muout") and t.a[2] == "p") or (t.op == "sym" and t.a[1] == "p") or (t.op == "app" and t.a[0] == "ptr")


NONNULL = ("sub", "arr", "lv", "vec", "alloc", "glob", "str")


def ptr_parts(t):
    if t.op == "ptr":
        return t.a[0], t.a[1]
    return t, ZERO


def peq(a, b):
    if a is b:
        return TRUE
    if a.op == "unk" or b.op == "unk":
        return mk("bapp", "unk", a if a.op == "unk" else b)
    if a.op == "ite":
        return ite(a.a[0], peq(a.a[1], b), peq(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], peq(a, b.a[1]), peq(a, b.a[2]))
    ba, oa = ptr_parts(a)
    bb, ob = ptr_parts(b)
    if ba is bb:
        return eq0(sub(oa, ob))
    if a is NULL and (bb.op in NONNULL):
        return FALSE
    if b is NULL and (ba.op in NONNULL):
        return FALSE
    if (a is NULL and b.op == "ptr") or (b is NULL and a.op == "ptr"):
        return FALSE
    x, y = (a, b) if a.key() < b.key() else (b, a)
    return mk("peq", x, y)


def eq(a, b):
    if isptrish(a) or isptrish(b):
        if a.op == "num" and a.a[0] == 0:
            a = NULL
        if b.op == "num" and b.a[0] == 0:
            b = NULL
        return peq(a, b)
    return eq0(sub(a, b))


def bnot(t):
    o = t.op
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if o == "not":
        return t.a[0]
    if o == "le":
        return lt0(neg(t.a[0])) if not int_poly(t.a[0]) else le0(add(neg(t.a[0]), ONE))
    if o == "lt":
        return le0(neg(t.a[0]))
    if o == "eq":
        return mk("ne", t.a[0])
    if o == "ne":
        return mk("eq", t.a[0])
    if o == "and":
        return bor(*[bnot(x) for x in t.a[0]])
    if o == "or":
        return band(*[bnot(x) for x in t.a[0]])
    if o == "ite":
        return ite(t.a[0], bnot(t.a[1]), bnot(t.a[2]))
    return mk("not", t)


def band(*ts):
    s = set()
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == "and":
            s |= set(t.a[0])
        else:
            s.add(t)
    for t in s:
        if bnot(t) in s:
            return FALSE
    # absorption and unit resolution
    ch = True
    while ch:
        ch = False
        for t in list(s):
            if t.op == "or":
                parts = t.a[0]
                if any(p in s for p in parts):
                    s.discard(t)
                    ch = True
                    break
                keep = [p for p in parts if bnot(p) not in s]
                if len(keep) < len(parts):
                    s.discard(t)
                    r = bor(*keep)
                    if r is FALSE:
                        return FALSE
                    if r.op == "and":
                        s |= set(r.a[0])
                    elif r is not TRUE:
                        s.add(r)
                    ch = True
                    break
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", tuple(sorted(s, key=T.key)))


def bor(*ts):
    s = set()
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == "or":
            s |= set(t.a[0])
        else:
            s.add(t)
    for t in s:
        if bnot(t) in s:
            return TRUE
    ch = True
    while ch:
        ch = False
        for t in list(s):
            if t.op == "and":
                parts = t.a[0]
                if any(p in s for p in parts):
                    s.discard(t)
                    ch = True
                    break
                keep = [p for p in parts if bnot(p) not in s]
                if len(keep) < len(parts):
                    s.discard(t)
                    r = band(*keep)
                    if r is TRUE:
                        return TRUE
                    if r.op == "or":
                        s |= set(r.a[0])
                    elif r is not FALSE:
                        s.add(r)
                    ch = True
                    break
    # factor: (a & b) | (a & !b) = a
    l = sorted(s, key=T.key)
    if len(l) == 2 and l[0].op == "and" and l[1].op == "and":
        x, y = set(l[0].a[0]), set(l[1].a[0])
        com = x & y
        if com:
            return band(*com, bor(band(*(x - com)), band(*(y - com))))
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mk("or", tuple(l))


def tob(t):
    """truth value of a scalar term"""
    if is_bool(t):
        return t
    if t.op == "num":
        return TRUE if t.a[0] else FALSE
    if t.op == "unk":
        return mk("bapp", "unk", t)
    if t.op == "ite":
        return ite(t.a[0], tob(t.a[1]), tob(t.a[2]))
    if isptrish(t):
        return bnot(peq(t, NULL))
    return bnot(eq0(t))


_ty = {}


def is_int(t):
    """is the term integer valued?"""
    r = _ty.get(t)
    if r is not None:
        return r
    o = t.op
    if o == "num":
        r = t.a[0].denominator == 1
    elif o == "sym":
        r = t.a[1] == "i"
    elif o == "bv":
        r = True
    elif o == "load":
        r = t.a[3] == "i"
    elif o in ("mget", "muout"):
        r = t.a[2] == "i"
    elif o == "poly":
        r = int_poly(t)
    elif o == "ite":
        r = is_int(t.a[1]) and is_int(t.a[2])
    elif o == "app":
        r = t.a[0] in ("idiv", "imod", "floor_i", "size", "stop", "ceildiv", "psize") or t.a[0].startswith("i:") or \
            (t.a[0] in ("min", "max", "abs") and all(is_int(x) for x in t.a[1:]))
    elif o in ("sum",):
        r = is_int(t.a[3])
    elif o in ("maxr", "minr", "fold", "kth"):
        r = is_int(t.a[3]) and is_int(t.a[4])
    elif o in ("first", "argmax", "argmin"):
        r = True
    elif o == "scat":
        r = is_int(t.a[4]) and is_int(t.a[5])
    elif is_bool(t):
        r = True
    else:
        r = False
    _ty[t] = r
    return r


def int_poly(t):
    for m, c in pd(t).items():
        if c.denominator != 1:
            return False
        for x, e in m:
            if e < 0 or (x is not t and not is_int(x)):
                return False
            if x is t and not (x.op in ("sym", "load", "bv", "app", "ite", "sum", "mget", "muout", "maxr", "minr", "fold", "kth", "first", "argmax", "argmin", "scat") and is_int(x)):
                return False
    return True


def lt(a, b):
    p = sub(a, b)
    if p.op != "unk" and int_poly(p):
        return le0(add(p, ONE))
    return lt0(p)


def le(a, b):
    return le0(sub(a, b))


# ---------------------------------------------------------------- gated merge
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if c.op == "ne":
        return ite(mk("eq", c.a[0]), b, a)
    if c.op in ("le", "lt"):
        n = bnot(c)
        if n.key() < c.key():
            c, a, b = n, b, a
    if c.op in ("or", "and"):
        n = bnot(c)
        if n.key() < c.key():
            c, a, b = n, b, a
    ba, bb = is_bool(a), is_bool(b)
    if ba and bb:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        if a is TRUE:
            return bor(c, b)
        if b is FALSE:
            return band(c, a)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if isptrish(a) and isptrish(b):
        pa, oa = ptr_parts(a)
        pb, ob = ptr_parts(b)
        if pa is pb and pa.op not in ("null", "ite"):
            # one base, two positions
            return padd(pa, ite(c, oa, ob))
    if c.op in ("le", "lt") and not isptrish(a) and not isptrish(b) and not (ba or bb) and a.op != "unk" and b.op != "unk":
        d = sub(a, b)
        if d.op not in ("num", "unk"):
            p = c.a[0]
            # integer 'a < b' is stored as a-b+1 <= 0
            cands = [p] if c.op == "lt" or not int_poly(p) else [p, sub(p, ONE)]
            n1, n2 = _normp(d, False), _normp(neg(d), False)
            if n1 in cands:
                return tmin(a, b)
            if n2 in cands:
                return tmax(a, b)
    if c.op == "eq" and a.op != "unk" and b.op != "unk" and not isptrish(a) and not isptrish(b) and not (ba or bb):
        # ite(x==y, f(x), f(y)) : the two sides agree where the guard holds
        if eq_under(c, a, b):
            return b
    # nested: ite(c, ite(d,x,y), y) -> ite(c&d, x, y)
    if a.op == "ite" and a.a[2] is b and not is_bool(a):
        return ite(band(c, a.a[0]), a.a[1], b)
    if a.op == "ite" and a.a[1] is b and not is_bool(a):
        return ite(band(c, bnot(a.a[0])), a.a[2], b)
    if b.op == "ite" and b.a[1] is a and not is_bool(b):
        return ite(bor(c, b.a[0]), a, b.a[2])
    if b.op == "ite" and b.a[2] is a and not is_bool(b):
        return ite(bor(c, bnot(b.a[0])), a, b.a[1])
    return mk("ite", c, a, b)


def eq_under(c, a, b):
    """a==b wherever the linear equation c holds (substituting one atom)"""
    p = pd(c.a[0])
    for m, co in p.items():
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if any(x is y for mm in p if mm is not m for y, _ in mm):
                continue
            if any(occurs(x, y) for mm in p if mm is not m for y, _ in mm):
                continue
            rest = fp({mm: -cc / co for mm, cc in p.items() if mm is not m})
            if subst(a, {x: rest}) is subst(b, {x: rest}):
                return True
    return False


def _flat(op, ts):
    s = set()
    for t in ts:
        if t.op == "app" and t.a[0] == op:
            s |= set(t.a[1:])
        else:
            s.add(t)
    return s


def _mm(op, ts, f):
    s = _flat(op, ts)
    nums = [t for t in s if t.op == "num"]
    if len(nums) > 1:
        best = f(nums, key=lambda t: t.a[0])
        s = (s - set(nums)) | {best}
    # drop elements that differ by a constant from another one
    l = sorted(s, key=T.key)
    out = []
    for t in l:
        dom = False
        for u in l:
            if u is t:
                continue
            v = nval(sub(t, u))
            if v is not None and ((v > 0) if op == "min" else (v < 0)):
                dom = True
                break
        if not dom:
            out.append(t)
    l = out
    if len(l) == 1:
        return l[0]
    if op == "max" and len(l) == 2 and add(l[0], l[1]) is ZERO:
        return tabs(l[0])
    if op == "min" and len(l) == 2 and add(l[0], l[1]) is ZERO:
        return neg(tabs(l[0]))
    return mk("app", op, *l)


def tmin(*ts):
    for t in ts:
        if t.op == "unk":
            return t
    return _mm("min", ts, min)


def tmax(*ts):
    for t in ts:
        if t.op == "unk":
            return t
    return _mm("max", ts, max)


def tabs(a):
    if a.op == "unk":
        return a
    v = nval(a)
    if v is not None:
        return num(abs(v))
    d = pd(a)
    c = content(d)
    items = sorted(d.items(), key=lambda x: _mkey(x[0]))
    s = -1 if items[0][1] < 0 else 1
    p = fp({m: v / (c * s) for m, v in d.items()})
    return mul(num(c), mk("app", "abs", p))


def app(f, *a):
    for x in a:
        if isinstance(x, T) and x.op == "unk":
            return x
    if f == "sqrt":
        d = pd(a[0])
        if len(d) == 1:
            (m, c), = d.items()
            v = nval(a[0])
            if v is not None:
                from math import isqrt
                n, q = v.numerator, v.denominator
                if n >= 0 and isqrt(n) ** 2 == n and isqrt(q) ** 2 == q:
                    return num(Fr(isqrt(n), isqrt(q)))
    return mk("app", f, *a)


def idiv(a, b):
    x, y = nval(a), nval(b)
    if y is not None and y != 0:
        if x is not None:
            q = abs(x) // abs(y)
            return num(q if (x >= 0) == (y > 0) else -q)
        if y == 1:
            return a
        d = pd(a)
        if d and all(c.denominator == 1 and c % y == 0 for c in d.values()) and int_poly(a):
            return fp({m: c / y for m, c in d.items()})
    elif y is None:
        q = exact_quot(a, b)
        if q is not None:
            return q
    return app("idiv", a, b)


def exact_quot(a, b):
    """a/b if it is a polynomial (single-monomial b)"""
    db = pd(b)
    if len(db) != 1:
        return None
    (mb, cb), = db.items()
    imb = tuple((x, -e) for x, e in mb)
    out = {}
    for m, c in pd(a).items():
        q = mmul(m, imb)
        if any(e < 0 for _, e in q) or (c / cb).denominator != 1:
            return None
        out[q] = c / cb
    return fp(out)


def imod(a, b):
    x, y = nval(a), nval(b)
    if y is not None and y != 0:
        if x is not None:
            q = abs(x) % abs(y)
            return num(q if x >= 0 else -q)
        if y == 1:
            return ZERO
        d = pd(a)
        if d and all(c.denominator == 1 and c % y == 0 for c in d.values()) and int_poly(a):
            return ZERO
    elif y is None and exact_quot(a, b) is not None:
        return ZERO
    return app("imod", a, b)


# ---------------------------------------------------------------- binders
def level(t):
    """1 + highest binder level occurring bound inside t"""
    if t._l is None:
        r = 0
        for x in t.a:
            r = max(r, _lv(x))
        if t.op in ("sum", "fold", "exists", "first", "maxr", "minr", "scat", "prod", "argmax", "argmin", "mu", "kth"):
            r = max(r, t.a[0])
        t._l = r
    return t._l


def _lv(x):
    if isinstance(x, T):
        return level(x)
    if isinstance(x, tuple):
        return max([_lv(y) for y in x] or [0])
    return 0


def bvar(n):
    return mk("bv", n)


def occurs(x, t, memo=None):
    if memo is None:
        memo = {}
    if t is x:
        return True
    r = memo.get(t)
    if r is None:
        r = memo[t] = _occ(x, t.a, memo)
    return r


def _occ(x, a, memo):
    for y in a:
        if isinstance(y, T):
            if occurs(x, y, memo):
                return True
        elif isinstance(y, tuple):
            if _occ(x, y, memo):
                return True
    return False


def atoms(t, pred, out=None, seen=None):
    """all subterms satisfying pred"""
    if out is None:
        out, seen = set(), set()
    if t in seen:
        return out
    seen.add(t)
    if pred(t):
        out.add(t)
    _at(t.a, pred, out, seen)
    return out


def _at(a, pred, out, seen):
    for y in a:
        if isinstance(y, T):
            atoms(y, pred, out, seen)
        elif isinstance(y, tuple):
            _at(y, pred, out, seen)


def has_unk(t):
    return bool(atoms(t, lambda x: x.op == "unk" or (x.op == "bapp" and x.a[0] == "unk")))


def why_unk(t):
    return sorted({x.a[1] for x in atoms(t, lambda x: x.op == "unk")})


def rebuild(op, a):
    """re-normalise a node from new children"""
    if op == "poly":
        s = ZERO
        for m, c in a[0]:
            t = num(c)
            for x, e in m:
                t = mul(t, powi(x, e) if e >= 0 else inv(powi(x, -e)))
            s = add(s, t)
        return s
    if op == "ite":
        return ite(*a)
    if op == "le":
        return le0(a[0])
    if op == "lt":
        return lt0(a[0])
    if op == "eq":
        return eq0(a[0])
    if op == "ne":
        return bnot(eq0(a[0]))
    if op == "and":
        return band(*a[0])
    if op == "or":
        return bor(*a[0])
    if op == "not":
        return bnot(a[0])
    if op == "peq":
        return peq(*a)
    if op == "ptr":
        return padd(a[0], a[1])
    if op == "app":
        f = a[0]
        if f == "min":
            return tmin(*a[1:])
        if f == "max":
            return tmax(*a[1:])
        if f == "abs":
            return tabs(a[1])
        if f == "idiv":
            return idiv(a[1], a[2])
        if f == "imod":
            return imod(a[1], a[2])
        return app(*a)
    if op == "sum":
        return tsum_raw(*a)
    if op == "load" and isinstance(a[0], T) and a[0].op == "ite" and REBASE:
        c, x, y = a[0].a
        return ite(c, rebuild("load", (x,) + a[1:]), rebuild("load", (y,) + a[1:]))
    if op == "load" and isinstance(a[0], T) and a[0].op == "ptr":
        return mk("load", a[0].a[0], a[1], add(a[0].a[1], a[2]), a[3])
    return mk(op, *a)


REBASE = True


def padd(p, o):
    if p.op == "unk":
        return p
    if o.op == "unk":
        return o
    if p.op == "ite":
        return ite(p.a[0], padd(p.a[1], o), padd(p.a[2], o))
    b, off = ptr_parts(p)
    off = add(off, o)
    if off is ZERO:
        return b
    return mk("ptr", b, off)


def subst(t, m, memo=None):
    """simultaneous substitution with re-normalisation"""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    na = _sub(t.a, m, memo)
    r = t if na is t.a else rebuild(t.op, na)
    memo[t] = r
    return r


def _sub(a, m, memo):
    ch = False
    out = []
    for x in a:
        if isinstance(x, T):
            y = subst(x, m, memo)
        elif isinstance(x, tuple):
            y = _sub(x, m, memo)
        else:
            y = x
        if y is not x:
            ch = True
        out.append(y)
    return tuple(out) if ch else a


def tsum(b, lo, hi, body):
    """sum over b in [lo,hi) of body (b is a free symbol)"""
    for x in (lo, hi, body):
        if x.op == "unk":
            return x
    if body is ZERO:
        return ZERO
    nl, nh = ival(lo), ival(hi)
    if nl is not None and nh is not None and nh - nl <= 9:
        s = ZERO
        for i in range(nl, nh):
            s = add(s, subst(body, {b: num(i)}))
        return s
    if nl is not None and nl != 0:
        body = subst(body, {b: add(b, lo)})
        hi = sub(hi, lo)
        lo = ZERO
    out = ZERO
    groups = {}
    for m, c in pd(body).items():
        dep = tuple((x, e) for x, e in m if occurs(b, x))
        ind = tuple((x, e) for x, e in m if not occurs(b, x))
        groups.setdefault(dep, {})
        groups[dep][ind] = groups[dep].get(ind, 0) + c
    for dep, ind in groups.items():
        f = fp(ind)
        if not dep:
            out = add(out, mul(f, count(sub(hi, lo))))
            continue
        g = fp({dep: Fr(1)})
        out = add(out, mul(f, _sum1(b, lo, hi, g)))
    return out


def count(total, facts=None):
    """number of iterations of a loop over `total` consecutive values (none when negative)"""
    if total.op == "unk":
        return total
    v = ival(total)
    if v is not None:
        return num(max(0, v))
    d = pd(total)
    neg_ = [m for m, c in d.items() if c < 0]
    if not neg_ or facts is not None and facts.implies(le(ZERO, total)):
        return total
    if total.op == "app" and total.a[0] == "max" and ZERO in total.a:
        return total
    if len(neg_) == 1 and len(neg_[0]) == 1:
        x = neg_[0][0][0]
        if x.op == "load":
            # extent of a row: positions do not decrease
            for m, c in d.items():
                if c > 0 and len(m) == 1 and m[0][0].op == "load" and m[0][0].a[0] is x.a[0] and m[0][0].a[1] == x.a[1]:
                    return total
    return tmax(ZERO, total)


def _sum1(b, lo, hi, g):
    # single Iverson atom: pick the one index
    if g.op == "ite":
        c, x, y = g.a
        if not occurs(b, c):
            return ite(c, tsum(b, lo, hi, x), tsum(b, lo, hi, y))
        if y is ZERO or x is ZERO:
            cc = c if y is ZERO else bnot(c)
            v = x if y is ZERO else y
            conj = list(cc.a[0]) if cc.op == "and" else [cc]
            outer = [k for k in conj if not occurs(b, k)]
            inner = [k for k in conj if occurs(b, k)]
            if outer:
                return ite(band(*outer), _sumv(b, lo, hi, ite(band(*inner), v, ZERO)), ZERO)
            for k in inner:
                if k.op == "eq":
                    sol = solve_lin(k.a[0], b)
                    if sol is not None and is_int(sol):
                        rest = band(*[z for z in inner if z is not k])
                        rng = band(le(lo, sol), lt(sol, hi), subst(rest, {b: sol}))
                        return ite(rng, subst(v, {b: sol}), ZERO)
    n = 1 + level(g)
    return mk("sum", n, lo, hi, subst(g, {b: bvar(n)}))


def _sumv(b, lo, hi, g):
    return tsum(b, lo, hi, g)


def tsum_raw(n, lo, hi, body):
    b = mk("sym", "%%t%d_%d" % (n, _fresh()), "i")
    return tsum(b, lo, hi, subst(body, {bvar(n): b}))


_fc = [0]


def _fresh():
    _fc[0] += 1
    return _fc[0]


def solve_lin(p, x):
    """s with p==0 <=> x==s, when p is linear in x with coefficient +-1"""
    d = pd(p)
    co = None
    rest = {}
    for m, c in d.items():
        if m == ((x, 1),):
            co = c
        elif any(occurs(x, y) for y, _ in m):
            return None
        else:
            rest[m] = c
    if co is None or abs(co) != 1:
        return None
    return fp({m: -c / co for m, c in rest.items()})


def quant(op, b, lo, hi, body, *extra):
    for x in (lo, hi, body) + (() if op == "scat" else extra):
        if isinstance(x, T) and x.op == "unk":
            return x if op not in ("exists",) else mk("bapp", "unk", x)
    n = 1 + max([level(body)] + [level(x) for x in extra if isinstance(x, T)])
    m = {b: bvar(n)}
    return mk(op, n, lo, hi, subst(body, m), *[subst(x, m) if isinstance(x, T) else x for x in extra])


def texists(b, lo, hi, body):
    if body is FALSE:
        return FALSE
    nl, nh = ival(lo), ival(hi)
    if nl is not None and nh is not None and nh - nl <= 6:
        return bor(*[subst(body, {b: num(i)}) for i in range(nl, nh)])
    if not occurs(b, body):
        return band(body, lt(lo, hi))
    if nl is not None and nl != 0:
        body = subst(body, {b: add(b, lo)})
        hi = sub(hi, lo)
        lo = ZERO
    return quant("exists", b, lo, hi, body)


# ---------------------------------------------------------------- facts
class Facts:
    """conjunction of known conditions with a small linear entailment test"""
    __slots__ = ("s", "les")

    def __init__(self, s=frozenset(), les=()):
        self.s = s
        self.les = les

    def plus(self, c):
        if c is TRUE or c in self.s:
            return self
        s = set(self.s)
        les = list(self.les)
        todo = [c]
        while todo:
            x = todo.pop()
            if x.op == "and":
                todo += x.a[0]
                continue
            s.add(x)
            if x.op == "le":
                les.append(x.a[0])
            elif x.op == "lt":
                les.append(x.a[0])
            elif x.op == "eq":
                les += [x.a[0], neg(x.a[0])]
        return Facts(frozenset(s), tuple(les))

    def implies(self, c):
        if c is TRUE:
            return True
        if c in self.s:
            return True
        if c.op == "and":
            return all(self.implies(x) for x in c.a[0])
        if c.op == "or":
            return any(self.implies(x) for x in c.a[0])
        if c.op == "le":
            p = c.a[0]
            for q in self.les:
                v = nval(sub(p, q))
                if v is not None and v <= 0:
                    return True
            n = len(self.les)
            if n <= 40:
                for i in range(n):
                    r = sub(p, self.les[i])
                    for j in range(i, n):
                        v = nval(sub(r, self.les[j]))
                        if v is not None and v <= 0:
                            return True
        if c.op == "ne":
            p = c.a[0]
            return self.implies(le0(add(p, ONE))) or self.implies(le0(add(neg(p), ONE))) if int_poly(p) else False
        return False

    def simp(self, c):
        """simplify a condition under the facts"""
        if c is TRUE or c is FALSE:
            return c
        if c.op == "and":
            return band(*[self.simp(x) for x in c.a[0]])
        if c.op == "or":
            return bor(*[self.simp(x) for x in c.a[0]])
        if self.implies(c):
            return TRUE
        n = bnot(c)
        if n.op not in ("not",) and self.implies(n):
            return FALSE
        if n in self.s:
            return FALSE
        return c

    def simp_term(self, t, memo=None):
        if memo is None:
            memo = {}
        r = memo.get(t)
        if r is not None:
            return r
        if is_bool(t) and t.op != "ite":
            r = self.simp(t)
        elif t.op == "ite":
            c = self.simp(t.a[0])
            if c is TRUE:
                r = self.simp_term(t.a[1], memo)
            elif c is FALSE:
                r = self.simp_term(t.a[2], memo)
            else:
                a = self.plus(c).simp_term(t.a[1])
                b = self.plus(bnot(c)).simp_term(t.a[2])
                r = ite(c, a, b)
        elif t.op in ("sum", "fold", "exists", "scat", "maxr", "minr", "first", "argmax", "argmin", "mu", "kth"):
            r = t
        elif t.op in ("num", "sym", "bv", "unk"):
            r = t
        else:
            na = self._st(t.a, memo)
            r = t if na is t.a else rebuild(t.op, na)
        memo[t] = r
        return r

    def _st(self, a, memo):
        ch = False
        out = []
        for x in a:
            if isinstance(x, T):
                y = self.simp_term(x, memo)
            elif isinstance(x, tuple):
                y = self._st(x, memo)
            else:
                y = x
            ch |= y is not x
            out.append(y)
        return tuple(out) if ch else a


# ---------------------------------------------------------------- equality
def clear_den(t):
    """multiply by the denominators; result zero iff t is (where defined)"""
    for _ in range(6):
        d = pd(t)
        mx = {}
        for m in d:
            for x, e in m:
                if e < 0:
                    mx[x] = max(mx.get(x, 0), -e)
        if not mx:
            return t
        r = ZERO
        for m, c in d.items():
            u = num(c)
            md = dict(m)
            for x, e in mx.items():
                k = md.pop(x, 0) + e
                if k:
                    u = mul(u, powi(x, k))
            rest = fp({tuple(sorted(md.items(), key=lambda p: p[0].key())): Fr(1)})
            u = mul(u, rest)
            r = add(r, u)
            if r.op == "unk":
                return r
        t = r
    return t


def ite_conds(t):
    """conditions of merge atoms in arithmetic position"""
    out = []
    for m in pd(t):
        for x, e in m:
            for y in _arith_ites(x):
                if y not in out:
                    out.append(y)
    return out


def _arith_ites(x, depth=0):
    if x.op == "ite":
        return [x.a[0]]
    if x.op == "app" and x.a[0] in ("min", "max", "abs", "sqrt", "exp", "log", "pow"):
        r = []
        for y in x.a[1:]:
            for m in pd(y):
                for z, e in m:
                    r += _arith_ites(z)
        return r
    if x.op == "poly":
        r = []
        for m in pd(x):
            for z, e in m:
                r += _arith_ites(z)
        return r
    if x.op == "load":
        return [y.a[0] for y in sorted(atoms(x, lambda z: z.op == "ite"), key=T.key)][:1]
    return []


def zero(t, facts=None, depth=0):
    """normal-form test for t == 0; True only if proved"""
    facts = facts or Facts()
    t = facts.simp_term(t)
    if t is ZERO:
        return True
    if t.op == "unk" or has_unk(t):
        return False
    t2 = clear_den(t)
    if t2 is ZERO:
        return True
    if depth > 12:
        return False
    cs = ite_conds(t2)
    if not cs:
        return False
    c = cs[0]
    return zero(assume(t2, c, True), facts.plus(c), depth + 1) and zero(assume(t2, c, False), facts.plus(bnot(c)), depth + 1)


def assume(t, c, val, memo=None):
    """replace the condition c by a truth value"""
    m = {c: TRUE if val else FALSE, bnot(c): FALSE if val else TRUE}
    if c.op == "and" and val:
        for x in c.a[0]:
            m[x] = TRUE
            m[bnot(x)] = FALSE
    if c.op == "or" and not val:
        for x in c.a[0]:
            m[x] = FALSE
            m[bnot(x)] = TRUE
    return subst(t, m)


# ---------------------------------------------------------------- derivative
def deriv(t, x):
    """formal derivative w.r.t. an atom x; None where not differentiable in closed form.
    Merge conditions are treated as locally constant."""
    if not occurs(x, t):
        return ZERO
    if t is x:
        return ONE
    if t.op == "poly":
        s = ZERO
        for m, c in t.a[0]:
            for i, (y, e) in enumerate(m):
                dy = deriv(y, x)
                if dy is None:
                    return None
                if dy is ZERO:
                    continue
                rest = m[:i] + m[i + 1:]
                r = mul(num(c * e), mul(powi(y, e - 1), fp({rest: Fr(1)})))
                s = add(s, mul(r, dy))
        return s
    if t.op == "ite":
        a, b = deriv(t.a[1], x), deriv(t.a[2], x)
        if a is None or b is None:
            return None
        return ite(t.a[0], a, b)
    if t.op == "app":
        f = t.a[0]
        if f in ("min", "max") and len(t.a) == 3:
            a, b = t.a[1], t.a[2]
            da, db = deriv(a, x), deriv(b, x)
            if da is None or db is None:
                return None
            c = lt(a, b)
            return ite(c, da, db) if f == "min" else ite(c, db, da)
        if len(t.a) == 2:
            d = deriv(t.a[1], x)
            if d is None:
                return None
            u = t.a[1]
            g = {"exp": lambda: t, "log": lambda: inv(u),
                 "sqrt": lambda: div(num(Fr(1, 2)), t),
                 "sin": lambda: app("cos", u), "cos": lambda: neg(app("sin", u))}.get(f)
            if g:
                return mul(g(), d)
            if f == "abs":
                return mul(ite(lt0(u), num(-1), ONE), d)
        if f.startswith("fun:"):
            # f(u) with declared derivative f'(u)
            s = ZERO
            for i, u in enumerate(t.a[1:]):
                d = deriv(u, x)
                if d is None:
                    return None
                if d is not ZERO:
                    s = add(s, mul(app("d%d:" % i + f, *t.a[1:]), d))
            return s
        return None
    if t.op == "sum":
        n, lo, hi, body = t.a
        if occurs(x, lo) or occurs(x, hi):
            return None
        b = mk("sym", "%%d%d" % _fresh(), "i")
        g = deriv(subst(body, {bvar(n): b}), x)
        if g is None:
            return None
        return tsum(b, lo, hi, g)
    return None


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if t._s is not None:
        return t._s
    if d > 40:
        return "..."
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == "num":
        r = str(a[0])
    elif o == "sym":
        r = a[0]
    elif o == "bv":
        r = "%%%d" % a[0]
    elif o == "poly":
        out = []
        for m, c in a[0]:
            fs = []
            for x, e in m:
                xs = s(x) if x.op != "poly" else "(%s)" % s(x)
                fs.append(xs if e == 1 else "%s^%d" % (xs, e))
            b = "*".join(fs)
            if not b:
                out.append(str(c))
            elif c == 1:
                out.append(b)
            elif c == -1:
                out.append("-" + b)
            else:
                out.append("%s*%s" % (c, b))
        r = " + ".join(out).replace("+ -", "- ")
        if len(out) > 1:
            r = "(" + r + ")"
    elif o == "load":
        p = "".join("." + x for x in a[1])
        r = "%s%s%s" % (s(a[0]), p, "" if (a[2] is ZERO and p) else "[%s]" % s(a[2]))
    elif o in ("sub", "arr"):
        p = "".join("." + x for x in a[2])
        r = "&%s%s%s" % (s(a[0]), "" if a[1] is ZERO else "[%s]" % s(a[1]), p)
    elif o == "ptr":
        r = "(%s+%s)" % (s(a[0]), s(a[1]))
    elif o == "vec":
        r = s(a[0])
    elif o == "app":
        r = "%s(%s)" % (a[0], ", ".join(s(x) if isinstance(x, T) else str(x) for x in a[1:]))
    elif o == "ite":
        r = "(%s ? %s : %s)" % tuple(map(s, a))
    elif o in ("le", "lt", "eq", "ne"):
        r = "%s %s 0" % (s(a[0]), {"le": "<=", "lt": "<", "eq": "==", "ne": "!="}[o])
    elif o in ("and", "or"):
        r = "(" + (" && " if o == "and" else " || ").join(map(s, a[0])) + ")"
    elif o == "not":
        r = "!" + s(a[0])
    elif o == "peq":
        r = "%s == %s" % (s(a[0]), s(a[1]))
    elif o == "sum":
        r = "Sum(%%%d=%s..%s: %s)" % (a[0], s(a[1]), s(a[2]), s(a[3]))
    elif o in ("true", "false", "null"):
        r = o
    else:
        r = "%s(%s)" % (o, ", ".join(show(x, d + 1) if isinstance(x, T) else _tup(x, d) for x in a))
    if len(r) < 400:
        t._s = r
    return r


def _tup(x, d):
    if isinstance(x, tuple):
        return "[" + ",".join(show(y, d + 1) if isinstance(y, T) else _tup(y, d) for y in x) + "]"
    return str(x)
