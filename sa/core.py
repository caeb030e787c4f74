"""Check runner: obligations, verdicts, evidence, known findings."""
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback

from .load import Program, ToolError, REPO, BASE
from .equiv import *
from .base import reviewed, Closure, same_types, same_readers, public_functions, changed, dominators
from .region import regions, Region, run_region, outer_decls, top_decls, live, has_kind, EXIT

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REG = {}
META = {}
EVID = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "evidence")
GVN = ("effect summaries by global value numbering (gated single assignment, summed and recursive loop terms) compared with a reference formulation; "
       "random interpretation of the terms filters normal-form incompleteness")
WHY = "the stable tests do not reach this code, and sampling could not cover the input space"
RULE = ("For each entry point, the value of every memory location it may change and its result, expressed over its inputs for all inputs at once, "
        "must equal that of the reference formulation in sa/inst.")
BVN = ("effect summaries by global value numbering (gated single assignment, summed and recursive loop terms) of every public function, compared with its summary in the reviewed revision; "
       "random interpretation of the terms filters normal-form incompleteness")
BRULE = ("For every public function of the listed files, the final value of every observable location (outputs, object state, return value, raised errors, as a function of the inputs) must agree with "
         "the summary of the same function in the reviewed revision (ref/base); functions whose definition and callees are unchanged since that review are not re-derived in the quick tier.")
BNOTE = ("The oracle is the reviewed revision of this repository (ref/base), read against the documentation, with repairs of genuine defects included: what is decided is that every observable effect is still the reviewed one, whatever the code looks like now. "
         "Deviations are reported only with two effect summaries whose normal forms differ and an interpretation of their inputs under which they evaluate differently, never for a textual difference. Trusts: the review, clang's AST, the extractor and summariser in /verif, "
         "real-number arithmetic in place of rounding, allocation succeeding. Locations whose value the analysis cannot express are reported as undecided and claim nothing.")
NOTE = ("Deviations are reported only with two effect summaries of the source whose normal forms differ and an interpretation of their inputs under which they evaluate differently; "
        "agreement is by identical normal form (proved, for real arithmetic) or by no difference under the sampled interpretations of the terms (counted separately in the evidence). "
        "Trusts: clang's AST, the extractor and summariser in /verif, the reference formulations, real-number arithmetic in place of rounding, allocation succeeding. "
        "Locations whose value the analysis cannot express are reported as undecided and claim nothing.")


class Ob:
    """one obligation: thunk(ctx) -> list of Res"""

    def __init__(self, name, fn, limit=100):
        self.name, self.fn, self.limit = name, fn, limit


class Timeout(BaseException):
    pass


LOCAL = {}      # (property, function) -> results of comparing one changed function by itself


COUNTS = ("nx", "ny", "nz", ("cartdims",))      # a Cartesian grid has at least one cell in each direction


class Models:
    """interpretations, made on demand"""

    def __init__(self, seed0, n, gen, kw, slow):
        self.seed0, self.n, self.gen, self.kw, self.slow = seed0, n, gen, kw, slow
        self.made = []
        self.nullable = set()
        self.hints = {}
        self.denied = set()
        self.positive = set(COUNTS)
        self.csr = set()

    def learn(self, *ts):
        """what the programs test: pointers that may be null, constants values are compared with"""
        grown = False
        for t in ts:
            keys = nulls(t) - self.denied
            if not keys <= self.nullable:
                self.nullable |= keys
                grown = True
            for k, vs in hints(t).items():
                old = self.hints.setdefault(k, [])
                new = sorted(v for v in vs if v not in old)
                if new and len(old) < 24:
                    old.extend(new[:24])
                    grown = True
        if grown:
            # earlier evaluations did not know
            for m in self.made:
                m.memo.clear()
                m.sm = None

    def fresh(self, s):
        s += self.seed0
        m = Model(s, dict(phase_model(s), **self.gen(s)), **self.kw)
        m.nullable = self.nullable
        m.hints = self.hints
        m.positive = self.positive
        m.csr = self.csr
        return m

    def __iter__(self):
        yield from self.made[self.n:]       # those made to reach particular statements
        for i in range(self.n):
            if i == len(self.made):
                self.made.append(self.fresh(i))
            yield self.made[i]


class Ctx:
    def __init__(self, P, pid, tier, seed):
        self.P, self.pid, self.tier, self.seed = P, pid, tier, seed
        self.obs = []
        self.scope, self.scopefiles = [], set()
        self.rules = []
        self.notes = []
        self.assumptions = []

    # ------------------------------------------------------------ obligations
    def ob(self, name, fn, limit=100):
        self.obs.append(Ob(name, fn, limit))

    def rule(self, s):
        self.rules.append(s)

    def models(self, kind=None, n=None, **kw):
        n = n or (160 if self.tier == "quick" else 800)
        if callable(kind):
            gen = kind
        elif kind is None:
            gen = lambda s: {}
        else:
            gen = MODELS[kind]
        return Models(self.seed * 1000, n, gen, kw, 1 if self.tier == "quick" else 10)

    def find(self, q, np=None, file=None, pred=None):
        f = self.P.fn(q, np, pred, file)
        return f

    def spec(self, q, spec=None, np=None, file=None, pred=None, models=None, ignore=(), atleast=(), only=None, kmax=24, k2max=6, opaque=(),
             facts=(), name=None, limit=100, nmodels=None, ints=(0, 3), npnull=0.0, signed=True, args=None, sargs=None, throws=None, budget=150000, snp=None, setup=None, ssetup=None, extra=None):
        """q's effect summary must agree with that of the reference formulation"""
        sq = spec or "vspec::" + q.split("::")[-1]

        def thunk(ctx):
            P = ctx.P
            f = ctx.find(q, np, file, pred)
            g = P.fn(sq, snp)
            if g is None:
                if P.conflicts:
                    return [Res(name or q, "missing", "reference unit does not fit the current headers")]
                raise ToolError("reference %s missing" % sq)
            if f is None:
                return [Res(name or q, "missing", "function not found")]
            cf = P.conflicts.get(os.path.basename(g.file))
            if cf:
                return [Res(name or q, "missing", "private structure changed: %s" % cf)]
            return ctx.compare(f, g, name or q, models, ignore, only, kmax, k2max, opaque, facts, nmodels, ints, npnull, signed, args, sargs, throws, budget, setup, ssetup, extra, atleast)
        self.ob(name or q, thunk, limit)

    def compare(self, f, g, name, models=None, ignore=(), only=None, kmax=24, k2max=6, opaque=(), facts=(), nmodels=None, ints=(0, 3), npnull=0.0, signed=True,
                args=None, sargs=None, throws=None, budget=150000, setup=None, ssetup=None, extra=None, atleast=(), Q=None, newfields=None):
        P = self.P
        sa = SES(P, opaque=opaque, budget=budget, fails=Q is not None)
        A = sa.run(f, args=args, facts=facts, pre=setup)
        method = bool(f.d.get("cls")) and not f.d.get("static")
        if sargs is None and Q is None and method and not (bool(g.d.get("cls"))):
            # the reference takes the object as its first parameter
            sargs = {0: sym("this", "p")}
            for i in range(len(f.params)):
                t = f.T[f.params[i]["t"]]
                k = sa.kind(t) if not t.endswith("&") else "p"
                sargs[i + 1] = sym("$%d" % i, "p" if k in ("p", "arr", "o") else k)
                if args and i in args:
                    sargs[i + 1] = args[i]
        elif sargs is None and args:
            sargs = args
        sb = SES(Q or P, opaque=opaque, budget=budget, fails=Q is not None)
        B = sb.run(g, args=sargs, facts=facts, pre=ssetup or setup)
        ms = self.models(models, nmodels, ints=ints, npnull=npnull, signed=signed)
        ms.csr.update("$%d" % i for i, p in enumerate(f.params) if p["n"].endswith("pos") or p["n"] in ("ia", "pconn"))
        ms.positive.update("$%d" % i for i, p in enumerate(f.params) if p["n"] in COUNTS)
        c = Cmp(A, B, ms, kmax=kmax, k2max=k2max, facts=facts, ignore=ignore, only=only, atleast=atleast, names=newfields)
        res = c.run()
        if throws:
            res.append(self.cmp_throws(A, B, ms))
            res += self.cmp_misuse(A, B, ms)
        if Q is not None and weak(res):
            res += self.recount(sa, sb, ms, lambda ops: (SES(P, opaque=ops, budget=budget, fails=True).run(f, args=args, facts=facts, pre=setup),
                                                         SES(Q, opaque=ops, budget=budget, fails=True).run(g, args=sargs, facts=facts, pre=ssetup or setup)))
        if extra:
            extra(c, A, B)
        for r in res:
            r.loc = "%s: %s" % (name, pretty(r.loc, f))
            r.line = f.loc(r.line) if r.line else f.loc()
        if not res:
            res = [Res(name, "proved", "no observable effect on either side")]
        self.inl = sorted(x.q if hasattr(x, "q") else str(x) for x in sa.inlined)
        return res

    # ------------------------------------------------------------ the reviewed revision as reference
    def base(self, files, exclude=(), private=(), models="fv", limit=150, budget=400000, per=None, **kw):
        """every public function of the files keeps the effect summary it has in the reviewed revision"""
        B = reviewed()
        P = self.P
        if not hasattr(P, "clo"):
            P.clo = Closure(P)
        same_types(P, B)
        fs = public_functions(B, files, exclude, private)
        if not fs:
            raise ToolError("no reviewed functions in %s" % (files,))
        self.scope += [g.u for g in fs]
        self.scopefiles |= {g.file for g in fs}
        for g in fs:
            o = dict(kw)
            o["models"] = models
            for k, v in (per or {}).items():
                if g.n == k or g.q == k:
                    o.update(v)
            self.ob(g.q, self._base(g, o, budget), limit)
            self.obs[-1].opts = (o, budget)
        hs = sorted({g.file for g in fs})
        self.ob("includes of %d files" % len(hs), lambda ctx: unresolved(hs), 20)

    def _base(self, g, o, budget):
        def thunk(ctx):
            P, B = ctx.P, reviewed()
            f = P.fn_by_usr(g.u)
            if f is None:
                return [Res(g.q, "missing", "function not found", None)]
            ha, hb = P.clo.hash(g.u), B.clo.hash(g.u)
            same = ha[0] == hb[0]
            if same and ctx.tier == "quick" and not os.environ.get("SA_FULL"):
                return [Res(g.q, "identical", "definition and %d callees as reviewed" % (hb[1] - 1), f.loc(), hb[1])]
            if same:
                rs = ctx.pair(g, o, budget)
                for r in rs:
                    if r.verdict == "differs":
                        raise ToolError("%s differs from its own definition: %s" % (r.loc, r.detail))
                return rs
            return ctx.localised(g, o, budget)
        thunk.usr = g.u
        return thunk

    def localised(self, g, o, budget):
        """decide a changed function by the functions below it whose definitions changed, by itself, or by what lies between"""
        P, B = self.P, reviewed()
        same_readers(P, B)
        C, ma, mb = changed(P.clo, B.clo, g.u)
        left = set()
        bad = {}
        for c in sorted(C - {g.u}, key=lambda x: (len(B.clo.members(x)), x)):
            rs = self.local(c, o, budget)
            if not equal(rs):
                left.add(c)
                bad[c] = rs
        if g.u in C:
            if not left:
                return self.decide(g, o, budget)
            left.add(g.u)
        if not left and C:
            # everything below that changed still has its reviewed summary: the function is the reviewed one by congruence
            return [Res(g.q, "proved", "%d changed callees keep their summaries" % len(C), P.fn_by_usr(g.u).loc(), len(C))]
        rs = self.guarded(g.q, lambda: self.pair(g, o, budget), 0)
        if g.u not in C and any(r.verdict == "differs" for r in rs) and bad and all(r.verdict != "differs" for x in bad.values() for r in x) and any(r.detail == MADE for x in bad.values() for r in x):
            for r in rs:
                if r.verdict == "differs":
                    r.verdict, r.detail = "undecided", MADE
        sampled = equal(rs) and any(r.verdict == "agree" for r in rs)
        if any(r.verdict == "differs" for r in rs) or equal(rs) and not sampled or g.u in left:
            return rs
        for d in dominators(P.clo, B.clo, g.u, left):
            r2 = bad.get(d)
            if r2 is None and d not in bad:
                r2 = self.guarded(g.q, lambda: self.local(d, o, budget), 60)
            if not r2:
                continue
            if any(r.verdict == "differs" for r in r2):
                return [r for r in rs if r.verdict != "undecided"] + r2
            if equal(r2):
                return [r for r in rs if r.verdict != "undecided"] + [Res(g.q, "proved", "by congruence with " + P.fn_by_usr(d).q)]
        return rs

    def decide(self, g, o, budget):
        """one changed definition: its smallest differing statements, the whole function, then the regions in between"""
        P, B = self.P, reviewed()
        f = P.fn_by_usr(g.u)
        regs = self.guarded(g.q, lambda: regions(f, g), 20)
        if not regs or not isinstance(regs[0], Region):
            regs = []
        inner = None
        if regs:
            inner = self.guarded(g.q, lambda: self.region(f, g, regs[-1], o, budget), 30)
            if equal(inner):
                return [Res(g.q, "proved", "the %d statements that differ have equal effects" % max(len(regs[-1].a), len(regs[-1].b)), f.loc(regs[-1].lines(0)), len(inner))]
        rs = self.guarded(g.q, lambda: self.pair(g, o, budget), 100)
        if any(r.verdict == "differs" for r in rs) or equal(rs):
            if inner and stores_only(inner) and equal(rs) and any(r.verdict == "agree" for r in rs):
                # sampling the whole function may never have come to the statements that differ; what they store wrongly
                # must still be there when the loop they are in has done a round
                for reg in reversed(regs[:-1]):
                    r2 = self.guarded(g.q, lambda: self.region(f, g, reg, o, budget), 30)
                    if equal(r2):
                        if len(reg.a) == 1 and isinstance(reg.a[0], dict) and reg.a[0].get("k") in ("for", "while", "do") and not all(r.verdict == "proved" for r in r2):
                            return rs + inner
                        return rs
                return rs
            return rs
        for reg in regs:
            r2 = inner if reg is regs[-1] else self.guarded(g.q, lambda: self.region(f, g, reg, o, budget), 30)
            if any(r.verdict == "differs" for r in r2):
                return [r for r in rs if r.verdict != "undecided"] + r2
            if equal(r2):
                return [r for r in rs if r.verdict != "undecided"] + [Res(g.q, "proved", "the statements that differ have equal effects", f.loc(reg.lines(0)))]
        return rs

    def region(self, f, g, reg, o, budget):
        """one differing region: over all values of the variables alive before it; a difference must persist when what is executed before constrains them"""
        rs = self.region1(f, g, reg, o, budget)
        if any(r.verdict == "differs" for r in rs):
            left = signal.alarm(0)
            r2 = self.guarded(g.q, lambda: self.region1(f, g, reg, o, budget, True), 60)
            if left:
                signal.alarm(max(5, left))
            if any(r.verdict == "differs" for r in r2) or equal(r2):
                return r2
            names = {r.loc for r in r2 if r.verdict in ("proved", "agree")}
            missed = {r.loc for r in r2 if r.detail == UNREACHED}
            for r in rs:
                if r.verdict == "differs" and r.loc in missed:
                    r.verdict, r.detail = "undecided", UNREACHED
                if r.verdict == "differs" and r.loc in names:
                    r.verdict, r.detail = "agree", "for the values it is reached with (partly unknown)"
        return rs

    def region1(self, f, g, reg, o, budget, ctx=False):
        """compare the effects of one differing statement region over all values of the variables alive before it"""
        P, B = self.P, reviewed()
        da, db = outer_decls(f, reg.a), outer_decls(g, reg.b)
        names = {x[1] for x in da} & {x[1] for x in db}
        ta, tb = top_decls(f, reg.a, da), top_decls(g, reg.b, db)
        if [x[1:3] for x in da if x[1] in names] != [x[1:3] for x in db if x[1] in names]:
            return [Res(g.q, "undecided", "declarations around the region differ")]
        sa = SES(P, budget=budget, fails=True)
        A, fa = run_region(sa, f, reg.a, da, [(x[0], x[3]) for x in reg.facts], reg.tail, reg.pa if ctx else None)
        sb = SES(B, budget=budget, fails=True)
        Bs, fb = run_region(sb, g, reg.b, db, [(x[1], x[3]) for x in reg.facts], reg.tail, reg.pb if ctx else None)
        ms = self.models(o.get("models"))
        ex = has_kind(reg.a, ("break", "continue")) or has_kind(reg.b, ("break", "continue"))
        ida, idb = {x[1]: x[0] for x in da}, {x[1]: x[0] for x in db}
        nna = {x[1]: x[3] for x in da}
        lv = {n for n in names if live(reg.ca, ida[n], ex) or live(reg.cb, idb[n], ex)}
        c = Cmp(A, Bs, ms, facts=tuple(fb), names=B.fieldnames)
        c.guard = band(*fb) if fb else None
        own = {x[1] for x in db if not x[2].rstrip().endswith("&") and sb.kind(x[2]) in ("o", "arr")}      # variables that are memory, not paths to other memory
        own_ = {sym(n, "p") for n in own}
        c.skiproots = {sym(n, "p") for n in names & own if n not in lv and not n.startswith("$")}
        A.ret0, Bs.ret0 = A.ret, Bs.ret
        A.ret = Bs.ret = None
        res = c.run()
        EA, EB = A.st.env.get(EXIT, ZERO), Bs.st.env.get(EXIT, ZERO)
        c.res = []
        c.cmp_vals(EA, EB, "way out", None)
        # leaving the loop or returning at once may come to the same
        vague = any(r.verdict == "differs" and re.match(r"interpretation #\d+: code value (1, reference value 2|2, reference value 1)\b", r.detail) for r in c.res)
        if A.ret0 is not None or Bs.ret0 is not None:
            ra, rb = A.ret0, Bs.ret0
            mine = [{y for y in leaves(x) if y.op == "lv" or y.op == "sym" and y.a[0].startswith("@") and y in own_} if isinstance(x, T) else None for x in (ra, rb)]
            if None not in mine and mine[0] != mine[1]:
                c.res.append(Res("return", "undecided", MADE))
            elif isinstance(ra, T) and isinstance(rb, T) and not isptrish(ra) and not isptrish(rb):
                c.cmp_vals(ite(eq0(sub(EA, ONE)), b2i(ra), ZERO), ite(eq0(sub(EB, ONE)), b2i(rb), ZERO), "return", None)
            elif ra is None or rb is None:
                if not has_unk(EA) and EA is not EB:
                    c.res.append(Res("return", "undecided", "returns on one side only"))
            else:
                c.ret(ra, rb)
        va, vb = {x[1]: x for x in da + ta}, {x[1]: x for x in db + tb}
        dl = {n for n, x in va.items() if live(reg.ca, x[0], ex)} | {n for n, x in vb.items() if live(reg.cb, x[0], ex)}
        for n in sorted(dl):
            if n not in va or n not in vb:
                c.res.append(Res(n, "undecided", "variable of one side only"))
                continue
            (d1, _, t1, n1), (d2, _, t2, n2) = va[n], vb[n]
            inner = n not in names
            if not inner and t2.endswith("&"):
                continue
            if t1.endswith("&") != t2.endswith("&"):
                c.res.append(Res(n, "undecided", "declared differently"))
                continue
            nm = "variable " + n.lstrip("@")
            if t1.endswith("&"):
                x, y = A.ses.frames[0].refs.get(d1), Bs.ses.frames[0].refs.get(d2)
                if x is None or y is None or islocal(ptr_parts(x)[0]) or islocal(ptr_parts(y)[0]):
                    c.res.append(Res(n, "undecided", "reference to a local"))
                else:
                    c.cmp_vals(x, y, nm, None)
                continue
            k = sb.kind(t2)
            la, lb = mk("lv", "f1_%d" % d1, n1), mk("lv", "f1_%d" % d2, n2)
            if k == "o" or k == "arr" and not n.startswith("$"):
                if inner:
                    c.cmp_objects(la, lb, nm)
                continue
            x, y = A.st.env.get((la, ())), Bs.st.env.get((lb, ()))
            if x is None and y is None:
                continue        # still uninitialised on both sides
            if x is None or y is None:
                x, y = (sym("%poison", k) if z is None else z for z in (x, y))
            c.cmp_vals(b2i(x) if is_bool(x) else x, b2i(y) if is_bool(y) else y, nm, None)
        if sa.wild or sb.wild:
            c.res.append(Res("memory", "undecided", "store through an unknown pointer"))
        res += c.res
        res.append(self.cmp_throws(A, Bs, ms, c.guard))
        res += self.cmp_misuse(A, Bs, ms, c.guard)
        if vague:
            for r in res:
                if r.verdict == "differs":
                    r.verdict, r.detail = "undecided", "leaves another way: " + r.detail[:200]
        if weak(res):
            res += self.recount(sa, sb, ms, lambda ops: (run_region(SES(P, opaque=ops, budget=budget, fails=True), f, reg.a, da, [(x[0], x[3]) for x in reg.facts], reg.tail, reg.pa if ctx else None)[0],
                                                         run_region(SES(B, opaque=ops, budget=budget, fails=True), g, reg.b, db, [(x[1], x[3]) for x in reg.facts], reg.tail, reg.pb if ctx else None)[0]), c.guard)
        ln = reg.lines(0) or f.d["l"]
        for r in res:
            r.loc = "%s (statements at line %s): %s" % (g.q, ln, pretty(r.loc, f))
            r.line = f.loc(r.line) if r.line else f.loc(ln)
        return res

    def guarded(self, name, fn, limit):
        if limit:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(limit)
        try:
            return fn()
        except Timeout:
            return [Res(name, "undecided", "analysis time limit")]
        except Budget:
            return [Res(name, "undecided", "analysis step budget")]
        except RecursionError:
            return [Res(name, "undecided", "term too deep")]
        except ToolError:
            raise
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            return [Res(name, "undecided", "internal: %r" % e)]

    def local(self, u, o, budget):
        """summary comparison of one changed function by itself (shared between the roots above it)"""
        r = LOCAL.get((self.pid, u))
        if r is None:
            try:
                r = self.decide(reviewed().fn_by_usr(u), o, budget)
            except (Budget, RecursionError):
                r = []
            LOCAL[(self.pid, u)] = r
        return r

    def pair(self, g, o, budget):
        P, B = self.P, reviewed()
        f = P.fn_by_usr(g.u)
        same_readers(P, B)
        return self.compare(f, g, g.q, throws=True, Q=B, budget=budget, newfields=B.fieldnames, **o)

    def census_ops(self, *sess):
        """unchanged functions whose summaries were not complete"""
        P, B = self.P, reviewed()
        out = set()
        for u in set().union(*(s.unknowns.blame for s in sess)):
            if u in P.raw["F"] and u in B.raw["F"] and P.clo.hash(u)[0] == B.clo.hash(u)[0]:
                out.add(u)
        return out

    def recount(self, sa, sb, ms, again, guard=None):
        ops = self.census_ops(sa, sb)
        if not ops:
            return []
        A, B = again(ops)
        return self.census(A, B, ops, ms, guard)

    def census(self, A, B, ops, ms, guard=None):
        """calls of unchanged functions with effects: how often, and with which numbers"""
        out = []

        def recs(S):
            r = {}
            for c in S.ses.calls:
                if c.u in ops:
                    r.setdefault(c.u, []).append(c)
            return r
        ra, rb = recs(A), recs(B)
        (la, ca), (lb, cb) = bulk(self.P, reviewed())
        d = {u: len(ra.get(u, ())) - len(rb.get(u, ())) for u in set(ra) | set(rb)}
        more, less = any(v > 0 for v in d.values()), any(v < 0 for v in d.values())
        for u in sorted(d):
            # another function, or statements written in place, may do the same
            if d[u] < 0 and (more or la > lb or ca >= cb) or d[u] > 0 and (less or lb > la or cb >= ca):
                continue
            f = reviewed().fn_by_usr(u)
            pts = [f.T[p["t"]] for p in f.params]
            if f.T[f.d["ret"]] != "void" and not any((t.endswith("&") or t.endswith("*")) and not t.startswith("const ") for t in pts) \
                    and not (f.d.get("cls") and not f.d.get("const") and not f.d.get("static")):
                continue        # a pure function: it may be called as often as one likes
            a, b = ra.get(u, []), rb.get(u, [])

            def total(cs, j):
                t = ZERO
                for c in cs:
                    v = ONE
                    if j is not None:
                        if j >= len(c.args):
                            return None
                        v = c.args[j]
                        if not isinstance(v, T):
                            return None
                        v = b2i(v) if is_bool(v) else v
                    if has_unk(c.pc) or has_unk(v) or isptrish(v) or late(v) or late(c.pc):
                        return None
                    w = ite(c.pc, v, ZERO)
                    for x, lo, hi in reversed(c.binders):
                        if has_unk(lo) or has_unk(hi) or late(lo) or late(hi):
                            return None
                        w = tsum(x, lo, hi, w)
                    t = add(t, w)
                return t
            for j in [None] + list(range(len(pts))):
                if j is not None and pts[j].rstrip("& ").endswith("*"):
                    continue
                x, y = total(a, j), total(b, j)
                if x is None or y is None:
                    continue
                if guard is not None:
                    x, y = ite(guard, x, ZERO), ite(guard, y, ZERO)
                nm = "calls of %s%s" % (f.q, "" if j is None else " (argument %s)" % f.params[j]["n"])
                r = Res(nm, "proved") if x is y else agree(x, y, nm, None, ms, errors=thrown(B) + thrown(A))
                if r.verdict == "differs":
                    c = (a or b)[0]
                    r.line = c.line if a else None
                    out.append(r)
        return out

    def cmp_misuse(self, A, B, ms, guard=None):
        a, b = misused(A), misused(B)
        out = []
        for k in sorted(a):
            x, y = bor(*a[k]), bor(*b.get(k, [FALSE]))
            if guard is not None:
                x, y = band(guard, x), band(guard, y)
            if x is not y:
                # nothing the reviewed code does not do, either
                x = band(x, bnot(y))
                r = agree(b2i(x), ZERO, "the code " + k, None, ms, errors=thrown(B))
                if r.verdict == "differs":
                    out.append(r)
        return out

    def cmp_throws(self, A, B, ms, guard=None):
        a, b = (bor(*cs) if cs else FALSE for cs in (thrown(A), thrown(B)))
        if a is b and not has_unk(a):
            return Res("raised errors", "proved")
        if guard is not None:
            a, b = band(guard, a), band(guard, b)
        return agree(b2i(a) if a.op in ("true", "false") else a, b2i(b) if b.op in ("true", "false") else b, "raised errors", None, ms)


BULK = None


def bulk(P, B):
    """loops and calls in the definitions that are not the same on both sides"""
    global BULK
    if BULK is None:
        def count(A, o):
            n, m = 0, 0
            for u, x in A.raw["F"].items():
                if u not in o.raw["F"] or A.clo.own_hash(u) != o.clo.own_hash(u):
                    n += len(re.findall(r'"k":"(?:for|while|do)"', x))
                    m += len(re.findall(r'"k":"(?:call|ctor|new)"', x))
            return n, m
        BULK = count(P, B), count(B, P)
    return BULK


def unresolved(files):
    """every file named by an include directive of these files, and of what they include, exists"""
    inc = re.compile(r'^[ \t]*#[ \t]*include[ \t]*["<](opm/[^">]+|\.{1,2}/[^">]+)[">]', re.M)

    def scan(root):
        bad, seen, todo = {}, set(), [f for f in files]
        while todo:
            f = todo.pop()
            p = os.path.join(root, f)
            if f in seen or not os.path.isfile(p):
                continue
            seen.add(f)
            with open(p, errors="replace") as h:
                txt = h.read()
            for m in inc.finditer(re.sub(r"/\*.*?\*/", lambda m: "\n" * m.group().count("\n"), txt, flags=re.S)):
                t = m.group(1)
                c = os.path.normpath(t if t.startswith("opm/") else os.path.join(os.path.dirname(f), t))
                if os.path.isfile(os.path.join(root, c)):
                    todo.append(c)
                else:
                    bad[(f, t)] = txt.count("\n", 0, m.start()) + 1
        return bad, len(seen)
    (a, n), (b, _) = scan(REPO), scan(BASE)
    out = [Res("%s: include of %s" % k, "differs", "there is no such file", "%s:%d" % (k[0], ln)) for k, ln in sorted(a.items()) if k not in b]
    return out or [Res("included files", "identical", "every include of %d files names a file" % n, None, n)]


def weak(rs):
    return not any(r.verdict == "differs" for r in rs) and not equal(rs)


def stores_only(rs):
    """the statements leave every variable as reviewed and go the same way, but store something else"""
    bad = [r for r in rs if r.verdict == "differs"]
    flow = [r for r in rs if ": variable " in r.loc or ": way out" in r.loc]
    return bool(bad) and all(r.verdict == "proved" for r in flow)


def late(t):
    """does the value depend on what an opaque call left behind"""
    return bool(atoms(t, lambda x: x.op == "out" or x.op == "app" and str(x.a[0]).startswith("call:") or x.op in ("mu", "muout")))


def equal(rs):
    """every observable was compared and none differs"""
    return bool(rs) and all(r.verdict == "proved" or r.verdict == "agree" and "partly unknown" not in r.detail for r in rs)


def B_refs(S):
    return S.ses.frames[0].refs if S.ses.frames else {}


def pretty(s, f):
    for i, p in reversed(list(enumerate(f.params))):
        s = s.replace("$%d" % i, p["n"] or "arg%d" % i)
    return s.replace("&this", "this")


def phase_model(seed):
    """two or three active phases, numbered in order (opm/core/props/phaseUsageFromDeck.hpp)"""
    used = ((1, 1, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1), (1, 0, 1))[seed % 5]
    return {"phase_used": list(used), "phase_pos": [0, used[0], used[0] + used[1]], "num_phases": sum(used)}


def gw_model(seed):
    t = grid_model(seed)
    t.update(wells_model(seed, nc=t["number_of_cells"]))
    return t


MODELS = {"grid": grid_model, "wells": wells_model, "gridwells": gw_model, "fv": fv_model}


def prop(pid, technique, level="other", min_decided=1, title="", statement="", over=("inputs",), text="", why="", files=(), mech=(), note=""):
    def deco(fn):
        REG[pid] = (fn, technique, level, min_decided)
        META[pid] = {"id": pid, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": list(over), "text": " ".join(text.split())},
                     "why_tests_cant": " ".join(why.split()), "note": " ".join(note.split()),
                     "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech]}}
        return fn
    return deco


def load_props():
    d = os.path.join(VERIF, "sa", "props")
    for n in sorted(os.listdir(d)):
        if n.endswith(".py") and n != "__init__.py":
            __import__("sa.props." + n[:-3])


_CTX = None


def _alarm(*a):
    raise Timeout()


def _run(i):
    ob = _CTX.obs[i]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(ob.limit if _CTX.tier == "quick" else ob.limit * 5)
    t = time.time()
    try:
        r = ob.fn(_CTX)
        out = [(x.loc, x.verdict, x.detail, x.line, x.n, x.why) for x in r]
    except Timeout:
        out = [(ob.name, "undecided", "analysis time limit", None, 0, "")]
    except Budget:
        out = [(ob.name, "undecided", "analysis step budget", None, 0, "")]
    except RecursionError:
        out = [(ob.name, "undecided", "term too deep", None, 0, "")]
    except ToolError as e:
        out = [(ob.name, "broken", str(e), None, 0, "")]
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        out = [(ob.name, "undecided", "internal: %r %s" % (e, traceback.format_exc()[-400:]), None, 0, "")]
    finally:
        signal.alarm(0)
    return i, out, time.time() - t


def prelocal(ctx, t0, tier):
    """compare the changed functions below the roots by themselves, once"""
    P = ctx.P
    if not hasattr(P, "clo"):
        return
    B = reviewed()
    us = {}
    for ob in ctx.obs:
        u = getattr(ob.fn, "usr", None)
        if u is None or P.fn_by_usr(u) is None or P.clo.hash(u)[0] == B.clo.hash(u)[0]:
            continue
        for c in changed(P.clo, B.clo, u)[0] - {u}:
            us.setdefault(c, ob.opts)
    if not us:
        return
    global _LOC
    _LOC = sorted(us.items())
    if os.environ.get("SA_SERIAL"):
        for i in range(len(_LOC)):
            LOCAL[(ctx.pid, _LOC[i][0])] = _runlocal(i)
        return
    left = max(30, (330 if tier == "quick" else 7200) - (time.time() - t0))
    with mp.get_context("fork").Pool(min(8, len(_LOC))) as pool:
        hs = [pool.apply_async(_runlocal, (i,)) for i in range(len(_LOC))]
        for i, h in enumerate(hs):
            try:
                LOCAL[(ctx.pid, _LOC[i][0])] = h.get(timeout=max(0.1, t0 + left - time.time()))
            except mp.TimeoutError:
                LOCAL[(ctx.pid, _LOC[i][0])] = []
        pool.terminate()


_LOC = []


def _runlocal(i):
    u, o = _LOC[i]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(300 if _CTX.tier == "quick" else 900)
    try:
        return _CTX.decide(reviewed().fn_by_usr(u), dict(o[0]), o[1])
    except Timeout:
        return []
    except Exception:
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        return []
    finally:
        signal.alarm(0)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def check(pid, tier, seed, P=None, verbose=False, only=None):
    global _CTX
    t0 = time.time()
    if not REG:
        load_props()
    if pid not in REG:
        print("unknown property", pid)
        return 2
    fn, technique, level, min_decided = REG[pid]
    try:
        P = P or Program()
    except ToolError as e:
        print("ERROR: %s" % e)
        return 2
    ctx = Ctx(P, pid, tier, seed)
    _CTX = ctx
    fn(ctx)
    if only:
        ctx.obs = [o for o in ctx.obs if only in o.name]
    P._index()
    sys.setrecursionlimit(9000)
    prelocal(ctx, t0, tier)
    rs = [None] * len(ctx.obs)
    order = list(range(len(ctx.obs)))
    if len(ctx.obs) > 1 and not os.environ.get("SA_SERIAL"):
        with mp.get_context("fork").Pool(min(8, len(ctx.obs))) as pool:
            it = pool.imap_unordered(_run, order, chunksize=1)
            for _ in order:
                try:
                    i, out, dt = it.next(timeout=max(1, t0 + (700 if tier == "quick" else 6 * 3600) - time.time()))
                except mp.TimeoutError:
                    pool.terminate()
                    break
                rs[i] = (out, dt)
        for i, ob in enumerate(ctx.obs):
            if rs[i] is None:
                rs[i] = ([(ob.name, "undecided", "out of time", None, 0, "")], 0)
    else:
        for i in range(len(ctx.obs)):
            _, out, dt = _run(i)
            rs[i] = (out, dt)
    counts = {}
    viol, und, broken, missing, samples = [], [], [], [], []
    known = [k for k in known_findings() if k["property"] == pid and k.get("status", "open") == "open"]
    hitk = []
    for ob, (out, dt) in zip(ctx.obs, rs):
        for loc, v, detail, line, n, why in out:
            if v == "differs":
                k = next((k for k in known if k["key"] == loc), None)
                if k is not None:
                    hitk.append((k, loc))
                    v = "known"
                else:
                    viol.append((loc, detail, line))
            counts[v] = counts.get(v, 0) + 1
            if v == "undecided":
                und.append("%s: %s" % (loc, (detail or why)[:160]))
            elif v == "broken":
                broken.append("%s: %s" % (loc, detail))
            elif v == "missing":
                missing.append(loc)
            if len(samples) < 400:
                samples.append("%s -> %s%s" % (loc, v, " [%d]" % n if n else ""))
            if verbose:
                print("  %-9s %s (%s) %s %s" % (v, loc, line or "", detail[:1500] if v in ("differs", "undecided", "broken") else detail[:180], why if v == "undecided" else ""))
        if verbose:
            print("    -- %s %.1fs" % (ob.name, dt))
    decided = counts.get("proved", 0) + counts.get("agree", 0) + counts.get("differs", 0) + counts.get("known", 0) + counts.get("identical", 0)
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": technique + ". " + " ".join(ctx.rules),
            "obligations": len(samples), "discharged": counts.get("proved", 0) + counts.get("agree", 0) + counts.get("identical", 0),
            "unchanged_since_review": counts.get("identical", 0),
            "discharged_by_normal_form": counts.get("proved", 0), "no_difference_under_random_interpretation": counts.get("agree", 0),
            "undecided": und[:60], "not_found": missing, "known_findings": counts.get("known", 0),
            "units_analysed": len(P.units), "functions_in_program": len(P.raw["F"]),
            "rule": ctx.rules, "samples": samples,
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - t0, 2),
    }
    if viol:
        ev["violations"] = len(viol)
        ev["coverage"]["violation_constructs"] = [{"construct": l, "where": ln, "detail": d[:2000]} for l, d, ln in viol]
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, loc in hitk:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s: %s in %.1fs" % (pid, ", ".join("%s=%d" % kv for kv in sorted(counts.items())), time.time() - t0))
    if viol:
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, pid + ".txt")
        with open(rp, "w") as f:
            for l, dd, ln in viol:
                f.write("%s\n   at %s\n   %s\n\n" % (l, ln, dd))
        for l, dd, ln in viol:
            print("  %s  [%s]\n      %s" % (l, ln, dd[:1200]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken:
        print("ERROR: analysis broken: %s" % broken[:5])
        return 2
    if decided < min_decided:
        # nothing was found, but much of the code has a form the analysis does not follow: say so
        print("INCOMPLETE: only %d obligations decided (%d on the reviewed revision); undecided %s; not found %s" % (decided, min_decided, und[:5], missing[:5]))
    return 0
