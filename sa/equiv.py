"""Comparison of two effect summaries (code against reference formulation, or two siblings)."""
import os
import random
import time
from .terms import *
from . import terms as TM
from .ses import ety, SES, Summary, Budget, is_int, isptrish, ptr_parts, ctype
from .base import newfields
from .interp import fvs, h64, Model, Eval, Skip, Stop, Trap, same, grid_model, wells_model, fv_model


MADE = "object made in different ways"
UNREACHED = "no interpretation reaches the statements"


class Res:
    __slots__ = ("loc", "verdict", "detail", "line", "n", "why")

    def __init__(self, loc, verdict, detail="", line=None, n=0, why=""):
        self.loc, self.verdict, self.detail, self.line, self.n, self.why = loc, verdict, detail, line, n, why

    def __repr__(self):
        return "%-10s %s %s" % (self.verdict, self.loc, self.detail)


def root(b):
    while True:
        if b.op in ("arr", "vec", "sub"):
            b = b.a[0]
        elif b.op == "ptr":
            b = b.a[0]
        else:
            return b


def islocal(b):
    r = root(b)
    if r.op in ("lv", "alloc", "unk", "ite"):
        return True
    if r.op == "load":
        return islocal(r.a[0])
    if r.op == "app" or r.op == "out":
        return True
    if r.op == "sym" and r.a[0].startswith("%"):
        return True
    return False


def observables(S):
    """{(base,path): (type, line)} of non-local memory the function may have changed"""
    st = S.st
    out = {}
    for (base, path), log in st.logs.items():
        if islocal(base):
            continue
        ty = next((e.ty for e in log if e.ty and e.kind != "hav"), "d")
        ln = next((e.line for e in reversed(log) if e.line), None)
        out[(base, path)] = (ty, ln)
    for base, es in st.hav.items():
        if not islocal(base):
            out.setdefault((base, ()), ("d", None))
    for (base, path), v in st.env.items():
        if islocal(base) or (path and path[-1].startswith("#cap")):
            continue
        if base.op in ("lv",):
            continue
        init = mk("load", base, path, ZERO, vty(v))
        if v is init:
            continue
        out[(base, path)] = (vty(v), None)
    for (kb, kp, b, lo, hi, es) in st.lifted:
        if islocal(subst(kb, {b: ZERO})):
            continue
        ty = next((ety(e) for e in es if ety(e)), "d")
        out[("lift", kb, kp, b)] = (ty, es[-1].line if es else None)
    return out


def elements(S, r):
    """what is known about single objects in an array of objects"""
    return {(b.a[1], path): v for (b, path), v in S.st.env.items() if b.op == "ptr" and (b.a[0] is r or b.a[0].op == "arr" and b.a[0].a[0] is r)}


def leaves(v):
    if v.op == "ite":
        return leaves(v.a[1]) + leaves(v.a[2])
    return [ptr_parts(v)[0] if isptrish(v) else v]


def vty(v):
    if isptrish(v):
        return "p"
    if is_int(v) or is_bool(v):
        return "i"
    if v.op == "ite":
        a = vty(v.a[1])
        return a if a != "i" or v.a[1].op not in ("num",) else vty(v.a[2])
    return "d"


def scalar(key):
    base, path = key
    return bool(path) and path[-1].startswith("#")


class Cmp:
    def __init__(self, A, B, models, kmax=24, k2max=6, facts=(), ignore=(), only=None, atleast=(), names=None):
        self.A, self.B = A, B          # code, reference
        self.models = models
        self.kmax, self.k2max = kmax, k2max
        self.facts = tuple(facts)
        self.ignore = ignore
        self.atleast = atleast
        self.names = names      # fields the reviewed tree knows; private state added since is not comparable
        self.only = only
        self.reach = None
        self.guard = None       # condition under which values matter (regions)
        self.errors = thrown(A) + thrown(B)     # conditions under which an error is raised instead
        self.skiproots = ()     # variables nobody reads afterwards (regions)
        self.res = []
        self.pairs = {}
        # blocks that were resized successfully are there
        models.denied |= {k for S in (A, B) for p in S.ses.asize for k in nullkey(p)}

    def reached(self):
        """do interpretations satisfy the conditions the statements are under?"""
        if self.reach is None:
            c, n = self.guard, 0
            self.models.learn(c)
            for m in self.models:
                try:
                    n += bool(m.ev(c, {"%K": 0, "%L": 0}))
                except (Skip, Stop, OverflowError, ZeroDivisionError):
                    pass
                if n >= 3:
                    break
            if n < 3:
                r, never, t0 = random.Random(7), {}, time.time()
                for i in range(60):
                    m = self.models.fresh(9000 + i)
                    if n >= 3 or time.time() - t0 > 4:
                        break
                    if satisfy(m, ((c, True),), {"%K": 0, "%L": 0}, r, False, 1, 1, t0 + 4, never):
                        n += 1
                        self.models.made.append(m)
            self.reach = n >= 1
        return self.reach

    def run(self):
        oa, ob = observables(self.A), observables(self.B)
        done = set()
        keys = [k for k in list(ob) + list(oa)]
        for k in keys:
            lift = k[0] == "lift"
            if lift:
                kk = ("lift", subst(k[1], {k[3]: sym("%L", "i")}), k[2])
            else:
                kk = k
            if kk in done:
                continue
            done.add(kk)
            if self.skiproots and root(kk[1] if lift else kk[0]) in self.skiproots:
                continue
            name = show(kk[1] if lift else kk[0]) + "".join("." + x for x in (kk[2] if lift else kk[1]))
            if any(name == i or (i.endswith("*") and name.startswith(i[:-1])) for i in self.ignore):
                continue
            if self.only and not any(name == i or (i.endswith("*") and name.startswith(i[:-1])) for i in self.only):
                continue
            if self.names is not None and any(x not in self.names for x in (kk[2] if lift else kk[1]) if x and (x[0].isalpha() or x[0] == "_")):
                self.res.append(Res(name, "undecided", "state the reviewed revision does not have"))
                continue
            ty = (ob.get(k) or oa.get(k))[0]
            ln = (oa.get(k) or (None, None))[1]
            if lift:
                self.cmp_loc(kk[1], kk[2], ty, ln, name, two=True)
            else:
                self.cmp_loc(kk[0], kk[1], ty, ln, name)
        za, zb = self.A.ses.asize, self.B.ses.asize
        for p in zb:
            if p.op == "load" and not (za.get(p) is zb[p]):
                r = agree(b2i(lt(za.get(p, ZERO), zb[p])), ZERO, show(p) + " capacity", None, self.models, errors=self.errors)
                if r.verdict == "differs":
                    r.detail = "block resized to less than the data it must hold: %s < %s" % (show(za.get(p, ZERO)), show(zb[p]))
                self.res.append(r)
        for a, b in ((self.A.ret, self.B.ret),):
            if a is None and b is None:
                continue
            self.ret(a, b)
        return self.res

    def ret(self, a, b):
        if isinstance(a, T) and isinstance(b, T):
            # returned objects: compare what they hold
            if isptrish(a) and isptrish(b) and islocal(ptr_parts(a)[0]) and islocal(ptr_parts(b)[0]):
                self.cmp_objects(a, b, "return")
                return
            if any(y.op == "lv" for x in (a, b) for y in leaves(x)):
                self.res.append(Res("return", "undecided", MADE))
                return
            self.cmp_vals(a, b, "return", None)
        elif isinstance(a, tuple) and isinstance(b, tuple):
            if a and b and isinstance(a[0], T) and isinstance(b[0], T):
                self.cmp_objects(mkaddr(self.A, a), mkaddr(self.B, b), "return")
            else:
                self.res.append(Res("return", "undecided", "object"))

    # -- two distinct objects (returned or allocated), compared field by field
    def cmp_objects(self, a, b, name, depth=0):
        ra, rb = ptr_parts(a)[0], ptr_parts(b)[0]
        oa, ob = ptr_parts(a)[1], ptr_parts(b)[1]
        if oa is not ob and (ra, rb, oa, ob) not in self.pairs:
            self.pairs[(ra, rb, oa, ob)] = 1
            self.cmp_vals(oa, ob, name + " position", None)
        if (ra, rb) in self.pairs or depth > 4:
            return
        self.pairs[(ra, rb)] = 1
        ka = self.obj_keys(self.A, ra)
        kb = self.obj_keys(self.B, rb)
        za, zb = self.A.ses.asize.get(ra), self.B.ses.asize.get(rb)
        if za is not None and zb is not None and za is not zb:
            r = agree(b2i(lt(za, zb)), ZERO, name + " size of block", None, self.models, errors=self.errors)
            if r.verdict == "differs":
                r.detail = "allocated block smaller than the data it must hold: %s < %s" % (show(za), show(zb))
            self.res.append(r)
        elif za is not None and zb is not None:
            self.res.append(Res(name + " size of block", "proved"))
        ea, eb = elements(self.A, ra), elements(self.B, rb)
        for o, p in sorted(set(ea) | set(eb), key=str):
            nm = "%s[%s]%s" % (name, show(o), "".join("." + x for x in p))
            if (o, p) not in ea or (o, p) not in eb:
                self.res.append(Res(nm, "undecided", "element made on one side only"))
                continue
            self.cmp_vals(ea[(o, p)], eb[(o, p)], nm, None)
        for p, isvec in sorted(set(ka) | set(kb), key=str):
            ty = (kb.get((p, isvec)) or ka.get((p, isvec)))[0]
            ln = (ka.get((p, isvec)) or (None, None))[1]
            nm = name + ("[]" if not p else "".join("." + x for x in p))
            k = sym("%K", "i")
            isscalar = bool(p) and p[-1].startswith("#")
            ba = mk("vec", ra) if isvec else ra
            bb = mk("vec", rb) if isvec else rb
            off = ZERO if isscalar or (p and not isvec and not self.arrayish(ra, rb)) else k
            va = self.value(self.A, ba, p, off, ty)
            vb = self.value(self.B, bb, p, off, ty)
            if ty == "p" and isptrish(va) and isptrish(vb) and islocal(ptr_parts(va)[0]) and islocal(ptr_parts(vb)[0]) and va.op not in ("ite", "unk") and vb.op not in ("ite", "unk"):
                self.cmp_objects(va, vb, nm, depth + 1)
                continue
            self.cmp_vals(va, vb, nm, ln, k if off is k else None)

    def arrayish(self, ra, rb):
        return False

    def obj_keys(self, S, r):
        out = {}
        for (base, path), log in S.st.logs.items():
            if base is r:
                out[(path, False)] = (next((ety(e) for e in log if ety(e)), "d"), next((e.line for e in reversed(log) if e.line), None))
            elif base.op == "vec" and base.a[0] is r:
                out[(path, True)] = (next((ety(e) for e in log if ety(e)), "d"), next((e.line for e in reversed(log) if e.line), None))
        for (base, path), v in S.st.env.items():
            if base is r and not (path and path[-1].startswith("#cap")):
                out[(path, False)] = (vty(v), None)
            elif base.op == "vec" and base.a[0] is r and not (path and path[-1].startswith("#cap")):
                out[(path, True)] = (vty(v), None)
        for base in S.st.hav:
            # whole objects made by code out of reach
            if base is r:
                out.setdefault(((), False), ("d", None))
            elif base.op == "vec" and base.a[0] is r:
                out.setdefault(((), True), ("d", None))
        return out

    def value(self, S, base, path, off, ty):
        st = S.st.clone()
        for c in self.facts:
            st.asm = st.asm.plus(c)
        return S.ses.read(st, (base, off, path), ty)

    def cmp_loc(self, base, path, ty, ln, name, two=False):
        k = sym("%K", "i")
        sc = scalar((base, path)) or (base.op in ("sym", "load", "sub", "glob") and path and not two and self.only_zero(base, path))
        if sc:
            va = self.value(self.A, base, path, ZERO, ty)
            vb = self.value(self.B, base, path, ZERO, ty)
            self.cmp_vals(va, vb, name, ln)
            return
        va = self.value(self.A, base, path, k, ty)
        vb = self.value(self.B, base, path, k, ty)
        if ty == "p" and isptrish(va) and isptrish(vb) and islocal(ptr_parts(va)[0]) and islocal(ptr_parts(vb)[0]) and va.op not in ("ite", "unk") and vb.op not in ("ite", "unk"):
            self.cmp_objects(va, vb, name)
            return
        self.cmp_vals(va, vb, name, ln, k, two)

    def only_zero(self, base, path):
        for S in (self.A, self.B):
            for e in S.st.logs.get((base, path), ()):
                if e.off is not ZERO:
                    return False
        return True

    def cmp_vals(self, va, vb, name, ln, k=None, two=False):
        if name in self.atleast and isinstance(va, T) and isinstance(vb, T):
            # a capacity: the code may reserve more than the reference formulation needs
            va, vb = b2i(lt(va, vb)), ZERO
        if va is None or vb is None:
            self.res.append(Res(name, "undecided", "no value", ln))
            return
        if va is vb and not (holds_ptr(va) and atoms(va, lambda x: x.op == "alloc")):
            if has_unk(va):
                self.res.append(Res(name, "undecided", "unknown on both sides", ln))
            else:
                self.res.append(Res(name, "proved", "", ln))
            return
        f = Facts()
        for c in self.facts:
            f = f.plus(c)
        if not has_unk(va) and not has_unk(vb):
            try:
                if not holds_ptr(va) and not holds_ptr(vb):
                    d = sub(b2i(va), b2i(vb))
                    if zero(d, f):
                        self.res.append(Res(name, "proved", "", ln))
                        return
            except RecursionError:
                pass
        pairs = set()
        if self.guard is not None and not holds_ptr(va) and not holds_ptr(vb) and not has_unk(self.guard):
            va, vb = ite(self.guard, b2i(va), ZERO), ite(self.guard, b2i(vb), ZERO)
            if not self.reached():
                self.res.append(Res(name, "undecided", UNREACHED, ln))
                return
        r = agree(va, vb, name, ln, self.models, k, self.kmax, two, self.k2max, pairs, self.errors)
        if r.verdict == "differs":
            la, lb = locals_in(va), locals_in(vb)
            if set(la) != set(lb):
                # which number a local object or block got says nothing
                r = agree(subst(va, {x: mk(x.op, -1 - i, x.a[-1]) for i, x in enumerate(la)}), subst(vb, {x: mk(x.op, -1 - i, la[i].a[-1] if i < len(la) else x.a[-1]) for i, x in enumerate(lb)}),
                          name, ln, self.models, k, self.kmax, two, self.k2max, pairs, self.errors)
                if r.verdict == "differs":
                    r.verdict, r.detail = "undecided", MADE
        if r.verdict == "differs" and (self.A.ses.wild or self.B.ses.wild):
            r.verdict = "undecided"
        if r.verdict == "differs" and self.names is not None and newfields(va, self.names, {}):
            r.verdict, r.detail = "undecided", "reads state the reviewed revision does not have"
        self.res.append(r)
        if r.verdict == "agree":
            for x, y in sorted(pairs):
                self.cmp_objects(mk("alloc", *x[1:]), mk("alloc", *y[1:]), name)


def locals_in(v):
    """local objects and blocks whose identity enters a value, in the order they occur"""
    out, seen, todo = [], set(), [v]
    while todo:
        t = todo.pop()
        if isinstance(t, T):
            if t in seen:
                continue
            seen.add(t)
            if t.op == "alloc" or t.op == "lv":
                out.append(t)
                continue
            todo.extend(reversed(t.a))
        elif isinstance(t, (tuple, list)):
            todo.extend(reversed(t))
        elif isinstance(t, frozenset):
            todo.extend(sorted((x for x in t if isinstance(x, T)), key=show, reverse=True))
    return out


def thrown(S):
    """conditions under which the function raises an error"""
    out = []
    for pc, binders, ln, fn, kind in S.ses.throws:
        if kind == "throw":
            for b, lo, hi in reversed(binders):
                pc = texists(b, lo, hi, pc)
            out.append(pc)
    return out


def misused(S):
    """conditions under which the function releases or uses what it must not"""
    out = {}
    for pc, binders, ln, fn, kind in S.ses.throws:
        if kind not in ("throw", "abort"):
            for b, lo, hi in reversed(binders):
                pc = texists(b, lo, hi, pc)
            out.setdefault(kind, []).append(pc)
    return out


def raised(m, errors, env):
    """is an error raised under this interpretation (unknown conditions are taken not to hold)?"""
    for c in errors:
        try:
            if m.ev(c, env):
                return True
        except (Skip, Stop, OverflowError, ZeroDivisionError):
            pass
    return False


def mkaddr(S, loc):
    return S.ses.addr(loc) if len(loc) == 3 else loc[0]


DBG = os.environ.get("SA_DBG")


def agree(va, vb, name, ln, models, k=None, kmax=24, two=False, k2max=6, pairs=None, errors=()):
    """normal forms differ: compare under random interpretations"""
    n = 0
    stop = ""
    skips = {}
    t0 = time.time()
    models.learn(va, vb, *errors)
    limit = (2.0 if k is None else 3.0) * models.slow
    nstrict = 0

    def report(m, i, l, what):
        w = "interpretation #%d%s: %s" % (m.seed, (" at index %d" % i if k is not None else "") + (" row %d" % l if two else ""), what)
        return Res(name, "differs", "%s\n        code      = %s\n        reference = %s" % (w, show(va)[:600], show(vb)[:600]), ln, n)
    xk = sorted({v for h in (hints(va), hints(vb)) for v in h.get("%K", ()) if kmax <= v < 100000})[:40] if k is not None else []
    for mi, m in enumerate(models):
        el = time.time() - t0
        if n and mi >= 10 and el > limit or el > 12 * models.slow:
            break
        ks = list(range(kmax)) + xk if k is not None else (0,)
        k2s = range(k2max) if two else (0,)
        if mi >= 16 and k is not None:
            ks = [h64(mi, "k") % kmax, h64(mi, "k2") % min(6, kmax), h64(mi, "k3") % min(3, kmax)] + xk[mi % 7::7]
        if mi >= 16 and two:
            k2s = [h64(mi, "l") % k2max, h64(mi, "l2") % min(3, k2max)]
        strict = nstrict < 12 and m.table_driven
        for l in k2s:
            for i in ks:
                env = {"%K": i, "%L": l}
                try:
                    y = m.ev(vb, env)
                    try:
                        x = m.ev(va, env)
                    except Trap as e:
                        if raised(m, errors, env) or not isdefined(m, vb, env):
                            continue
                        return report(m, i, l, "the code %s, the reference value is %s" % (e, fmt(y)))
                except Skip as e:
                    skips[str(e)] = skips.get(str(e), 0) + 1
                    continue
                except Stop as e:
                    stop = str(e)
                    continue
                except (OverflowError, ZeroDivisionError):
                    continue
                n += 1
                if DBG and not same(x, y, pairs):
                    print("DBG", name, i, fmt(x), fmt(y), "raised" if raised(m, errors, env) else "", "" if confirmed(m, va, vb, env, pairs) else "unconfirmed")
                if not same(x, y, pairs) and not raised(m, errors, env) and confirmed(m, va, vb, env, pairs):
                    return report(m, i, l, "code value %s, reference value %s" % (fmt(x), fmt(y)))
                if strict:
                    sm = m.checked()
                    try:
                        sm.ev(vb, env)
                        nstrict += 1
                        try:
                            sm.ev(va, env)
                        except Trap as e:
                            if raised(m, errors, env):
                                continue
                            return report(m, i, l, "the code %s, which the reference does not" % e)
                    except (Skip, Stop, OverflowError, ZeroDivisionError):
                        pass
    r = directed(va, vb, name, models, k, kmax, k2max if two else 1, pairs, errors, report)
    if r is not None:
        return r
    if n == 0 or (stop and n < 4):
        return Res(name, "undecided", stop or "no valid interpretation %s" % skips, ln, n, "; ".join(str(x) for x in why_unk(va)[:3]))
    return Res(name, "agree", "%d interpretations%s%s" % (n, " (partly unknown: %s)" % stop if stop else "", " skipped %s" % skips if skips else ""), ln, n)


BINDERS = ("sum", "exists", "first", "maxr", "minr", "scat", "fold", "argmax", "argmin", "kth", "mu", "lam", "muout", "mget")


def subterms(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            todo.extend(x.a)
    return seen


def literals(c, pol):
    """what certainly holds when c has the given truth value"""
    out = []
    todo = [(c, pol)]
    while todo:
        c, pol = todo.pop()
        if c.op == "not":
            todo.append((c.a[0], not pol))
        elif c.op in ("and", "or"):
            if (c.op == "and") is pol:
                todo += [(x, pol) for x in c.a[0]]
        else:
            out.append((c, pol))
            n = bnot(c)
            if n.op != "not":
                out.append((n, not pol))
    return out


def targets(t, other, r, never, limit=14):
    """conditions under which the parts of t that do not occur in the other term are used"""
    out = []
    visits = {}
    left = [3000]

    def parts(x):
        todo = list(x.a)
        while todo:
            y = todo.pop()
            if isinstance(y, tuple):
                todo.extend(y)
            elif isinstance(y, T):
                yield y

    def extend(path, facts, c, pol):
        if not fvs(c) <= {"%K", "%L"}:
            return path, facts
        f = None
        for l, p in literals(c, pol):
            if never.get((l, p), 0) >= 4:
                return None
            q = facts.get(l)
            if q is None:
                f = f or dict(facts)
                f[l] = p
            elif q is not p:
                return None
        return path + ((c, pol),), f or facts

    def walk(x, path, facts):
        if x in other or len(out) >= limit or left[0] < 0 or visits.get(x, 0) >= 3:
            return
        visits[x] = visits.get(x, 0) + 1
        left[0] -= 1
        if x.op == "ite":
            c, a, b = x.a
            before = len(out)
            steps = [(c, None), (a, True), (b, False)]
            r.shuffle(steps)
            for y, pol in steps:
                e = (path, facts) if pol is None else extend(path, facts, c, pol)
                if e is not None:
                    walk(y, *e)
            if len(out) == before:
                for pol in (True, False):
                    e = extend(path, facts, c, pol)
                    if e is not None:
                        out.append(e[0])
            return
        below = False
        if x.op in ("and", "or"):
            cs = list(x.a[0])
            r.shuffle(cs)
            for y in cs:
                if y not in other:
                    below = True
                    e = (path, facts)
                    for z in cs:
                        if z is not y and e is not None:
                            e = extend(e[0], e[1], z, x.op == "and")
                    if e is not None:
                        walk(y, *e)
        else:
            ys = [y for y in parts(x) if y not in other]
            r.shuffle(ys)
            for y in ys:
                below = True
                walk(y, path, facts)
        if not below:
            if x.op in ("le", "lt", "eq", "ne", "peq"):
                for pol in (True, False):
                    e = extend(path, facts, x, pol)
                    if e is not None:
                        out.append(e[0])
            else:
                out.append(path)
    walk(t, (), {})
    return [p for p in dict.fromkeys(out) if p]


def directed(va, vb, name, models, k, kmax, k2max, pairs, errors, report):
    """interpretations adjusted until the parts that differ are the ones used"""
    sa, sb = subterms(va), subterms(vb)
    if len(sa) + len(sb) > 30000:
        return None
    errs = tuple((e, False) for e in errors if fvs(e) <= {"%K", "%L"} and not has_unk(e))
    t0 = time.time()
    limit = 2.5 * models.slow
    r = random.Random(h64(len(sa), len(sb), name))
    never = {}
    for rnd in range(40 * models.slow):
        tg = targets(va, sb, r, never) + targets(vb, sa, r, never)
        r.shuffle(tg)
        if not tg:
            return None
        for ti, path in enumerate(tg):
            if time.time() - t0 > limit:
                return None
            m = models.fresh(5000 + rnd * 50 + ti)
            env = {"%K": r.randrange(kmax) if k is not None else 0, "%L": r.randrange(k2max)}
            if k is not None and r.random() < 0.6:
                env["%K"] %= 5
            if not satisfy(m, path + errs, env, r, k is not None, kmax, k2max, t0 + limit, never):
                continue
            try:
                y = m.ev(vb, env)
                x = m.ev(va, env)
            except (Skip, Stop, OverflowError, ZeroDivisionError):
                continue
            if not same(x, y, pairs) and not raised(m, errors, env) and confirmed(m, va, vb, env, pairs):
                return report(m, env["%K"], env["%L"], "code value %s, reference value %s" % (fmt(x), fmt(y)))
    return None


def prefix(m, path, env):
    """how many of the conditions hold, in order"""
    m.memo.clear()
    for i, (c, pol) in enumerate(path):
        try:
            if bool(m.ev(c, env)) is not pol:
                return i
        except (Skip, Stop, OverflowError, ZeroDivisionError):
            return i
    return len(path)


def flat(path, r):
    """single conditions; one member of each disjunction is chosen"""
    facts = {}
    out = []
    alts = []

    def put(c, pol):
        todo = [(c, pol)]
        while todo:
            c, pol = todo.pop(0)
            if c.op == "not":
                todo.insert(0, (c.a[0], not pol))
            elif c.op in ("and", "or"):
                if (c.op == "and") is pol:
                    todo = [(x, pol) for x in c.a[0]] + todo
                else:
                    alts.append((c, pol))
            elif c is TRUE or c is FALSE:
                if (c is TRUE) is not pol:
                    return False
            else:
                v = facts.get(c)
                if v is None:
                    facts[c] = pol
                    n = bnot(c)
                    if n.op != "not":
                        facts[n] = not pol
                    out.append((c, pol))
                elif v is not pol:
                    return False
        return True

    def known(c):
        if c.op == "not":
            v = known(c.a[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [known(x) for x in c.a[0]]
            z = c.op == "or"
            return z if z in vs else None if None in vs else not z
        return facts.get(c)
    for c, pol in path:
        if not put(c, pol):
            return None
    n = 0
    while alts and n < 200:
        n += 1
        c, pol = alts.pop(0)
        cs = [(x, known(x)) for x in c.a[0]]
        if any(v is pol for x, v in cs):
            continue
        cs = [x for x, v in cs if v is None]
        if not cs or not put(cs[r.randrange(len(cs))], pol):
            return None
    # what reads little is settled first
    return sorted(out, key=lambda x: min(len(subterms(x[0])), 40) // 8)


def satisfy(m, path, env, r, kvar, kmax, k2max, deadline, never, tries=150):
    path = flat(path, r)
    if path is None:
        return False
    score = prefix(m, path, env)
    for x in path[:score]:
        if never.get(x, 0) >= 0:
            never[x] = -1000
    stuck = 0
    best = score
    for flip in range(tries):
        stuck = 0 if score > best else stuck + 1
        best = max(best, score)
        if stuck > 36:
            return False
        if score == len(path):
            m.memo.clear()
            return True
        if flip % 16 == 0 and time.time() > deadline:
            return False
        bad = path[score][0]
        m.memo.clear()
        m.rec = []
        try:
            m.ev(bad, env)
        except (Skip, Stop, OverflowError, ZeroDivisionError):
            pass
        rec, m.rec = m.rec, None
        fv = fvs(bad)
        if kvar and fv and (not rec or r.random() < 0.4):
            old = dict(env)
            env["%K"] = r.randrange(kmax)
            env["%L"] = r.randrange(k2max)
            new = prefix(m, path, env)
            if new < score and r.random() < 0.9:
                env.update(old)
            else:
                score = new
            continue
        if not rec:
            if not fv:
                never[path[score]] = never.get(path[score], 0) + 1
            return False
        key, hint = rec[r.randrange(len(rec))]
        h = m.hints.get(hint) if hint is not None else None
        was = m.forced.get(key)
        if key[0] == "n":
            m.forced[key] = not was
        elif key[0] == "h":
            m.forced[key] = 1 - (was or 0)
        elif key[0] == "i":
            lo, hi = m.ints
            m.forced[key] = h[r.randrange(len(h))] if h and r.random() < 0.6 else r.randint(lo, hi)
        else:
            m.forced[key] = float(h[r.randrange(len(h))]) if h and r.random() < 0.3 else r.choice((0.0, 1.0, 0.5, 2.0)) if r.random() < 0.25 else r.uniform(-2, 2) if m.signed and r.random() < 0.4 else r.uniform(0.05, 2)
        new = prefix(m, path, env)
        if new < score and r.random() < 0.93:
            if was is None:
                del m.forced[key]
            else:
                m.forced[key] = was
        else:
            score = new
    m.memo.clear()
    return score == len(path)


def confirmed(m, va, vb, env, pairs):
    """does a numerical difference persist in rational arithmetic?"""
    try:
        return not same(m.rational().ev(va, env), m.defined().ev(vb, env), pairs)
    except (Skip, Stop, OverflowError, ZeroDivisionError) as e:
        if DBG:
            print('DBG not confirmed', repr(e))
        return False


def isdefined(m, vb, env):
    try:
        m.defined().ev(vb, env)
        return True
    except (Skip, Stop, OverflowError, ZeroDivisionError):
        return False


def hints(t):
    """constants a named value is compared with"""
    out = {}
    for x in atoms(t, lambda x: x.op in ("le", "lt", "eq", "ne")):
        p = x.a[0]
        if p.op == "poly":
            c0, at = 0, []
            for m, c in p.a[0]:
                if not m:
                    c0 = c
                else:
                    at.append((m, c))
            if len(at) != 1 or len(at[0][0]) != 1 or at[0][0][0][1] != 1:
                continue
            y, r = at[0][0][0][0], -c0 / at[0][1]
        else:
            y, r = p, 0
        k = hintkey(y)
        if k is None or abs(r) > 10 ** 6:
            continue
        vs = out.setdefault(k, set())
        if is_int(y):
            if r == int(r):
                vs.add(int(r))
                if x.op in ("le", "lt"):
                    vs.add(int(r) + 1)
                elif r == 0:
                    vs.add(1)
        else:
            vs.add(float(r))
    return out


def hintkey(y):
    if y.op == "sym":
        return y.a[0]
    if y.op == "app" and y.a[0] in ("i:&", "i:|", "i:^"):
        return hintkey(y.a[1])
    if y.op == "load":
        if y.a[0].op == "app":
            return (y.a[0].a[0],) + y.a[1]
        if y.a[1]:
            return y.a[1]
        b = y.a[0]
        while b.op in ("vec", "ptr"):
            b = b.a[0]
        if b.op == "sym":
            return b.a[0]
        if b.op == "load":
            return b.a[1]
        if b.op in ("sub", "arr"):
            return b.a[2]
    return None


def nulls(t):
    """pointers the term tests against null: symbol names and load paths"""
    out = set()
    for x in atoms(t, lambda x: x.op == "peq"):
        for y in x.a:
            out |= nullkey(y)
    return out


def holds_ptr(v):
    while v.op == "ite":
        if isptrish(v.a[1]):
            return True
        v = v.a[2]
    return isptrish(v)


def nullkey(y):
    if y.op == "sym" and y.a[0] != "this":
        return {y.a[0]}
    if y.op == "load":
        return {y.a[1]}
    return set()


def fmt(x):
    if isinstance(x, float):
        return "%.8g" % x
    return str(x)[:120]
