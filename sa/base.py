"""The reviewed revision as reference: same-name functions of the reviewed tree, compared by effect summary.

A function whose definition and whose callees' definitions are unchanged needs no comparison (same program, same
summary). Everything else is summarised on both sides and compared like any reference formulation."""
import hashlib
import json
import re
from .load import Program, Fn, REPO, BASE
from .terms import T

_strip = re.compile(r'"(?:l|el|file)":(?:\d+|"[^"]*"),?|char\[\d+\]')
_usr = re.compile(r'"u":"((?:[^"\\]|\\.)*)"')


class Closure:
    """content hash of a function together with everything it can call"""

    def __init__(self, P):
        self.P = P
        self.own = {}
        self.env = hashlib.sha256()
        for k in ("R", "E", "G"):
            for u in sorted(P.raw[k]):
                if k == "G" or k == "E" or k == "R":
                    pass
        self.ovr = None
        self.memo = {}
        self.sc = {}

    def text(self, u):
        r = self.own.get(u)
        if r is None:
            s = self.P.raw["F"].get(u)
            if s is None:
                r = (b"", ())
            else:
                r = (hashlib.sha256(_strip.sub("", s).encode()).digest(), tuple(sorted(set(_usr.findall(s)))))
            self.own[u] = r
        return r

    def overriders(self, u):
        if self.ovr is None:
            self.ovr = {}
            for raw, s in self.P.raw["F"].items():
                if '"overrides"' in s:
                    g = self.P.fn_by_usr(raw)
                    if g.file.startswith(("opm/", "/verif")):
                        for o in g.d.get("overrides", []):
                            self.ovr.setdefault(o, []).append(raw)
        return self.ovr.get(u, ())

    def members(self, u):
        seen, todo = set(), [u]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in self.text(x)[1]:
                if y in self.P.raw["F"] or y in self.P.raw["G"]:
                    todo.append(y)
                todo.extend(self.overriders(y))
        return seen

    def succ(self, u):
        r = self.sc.get(u)
        if r is None:
            r = []
            for y in self.text(u)[1]:
                if y in self.P.raw["F"]:
                    r.append(y)
                r.extend(x for x in self.overriders(y) if x in self.P.raw["F"])
            r = self.sc[u] = sorted(set(r))
        return r

    def own_hash(self, u):
        """content of the definition itself and of the constants it names"""
        h = hashlib.sha256(self.text(u)[0])
        for y in self.text(u)[1]:
            if y in self.P.raw["G"]:
                h.update(_strip.sub("", self.P.raw["G"][y]).encode())
        return h.digest()

    def hash(self, u):
        m = self.memo.get(u)
        if m is None:
            h = hashlib.sha256()
            n = 0
            for x in sorted(self.members(u)):
                if x in self.P.raw["F"]:
                    h.update(x.encode() + self.text(x)[0])
                    n += 1
                elif x in self.P.raw["G"]:
                    h.update(x.encode() + _strip.sub("", self.P.raw["G"][x]).encode())
            m = self.memo[u] = (h.hexdigest(), n)
        return m


def changed(A, B, u):
    """functions below u, present on both sides, whose own definition is not the reviewed one"""
    ma = {x for x in A.members(u) if x in A.P.raw["F"]}
    mb = {x for x in B.members(u) if x in B.P.raw["F"]}
    return {x for x in ma & mb if A.own_hash(x) != B.own_hash(x)}, ma, mb


def dominators(A, B, u, targets):
    """functions through which every call path from u to the targets leads, innermost first (u itself last)"""
    ma = {x for x in A.members(u) if x in A.P.raw["F"]}
    mb = {x for x in B.members(u) if x in B.P.raw["F"]}
    out = []

    def reaches(C, skip):
        seen, todo = {u}, [u]
        if u == skip:
            return False
        while todo:
            x = todo.pop()
            if x in targets:
                return True
            for y in C.succ(x):
                if y not in seen and y != skip:
                    seen.add(y)
                    todo.append(y)
        return False
    for d in ma & mb:
        if d == u or not targets <= (A.members(d) | B.members(d)):
            continue
        if not reaches(A, d) and not reaches(B, d):
            out.append(d)
    out.sort(key=lambda d: (len(B.members(d)), d))
    return out


_B = None
_same_types = None


def reviewed():
    global _B
    if _B is None:
        _B = Program(base=True)
        _B._index()
        _B.clo = Closure(_B)
        names = {"first", "second", "!has"}
        for r in _B.raw["R"].values():
            for f in json.loads(r).get("fields", []):
                names.add(f["n"])
        _B.fieldnames = names
    return _B


def same_types(P, B):
    """are all record layouts, enumerations the reviewed ones?"""
    global _same_types
    if _same_types is None:
        bad = set()
        for k in ("R", "E"):
            for u, s in B.raw[k].items():
                t = P.raw[k].get(u)
                if t is None or layout(t) != layout(s):
                    bad.add(json.loads(s)["q"])
        _same_types = bad
    return _same_types


def same_readers(P, B):
    """are the functions that read named parameters the reviewed ones?"""
    if hasattr(P, "same_readers"):
        return P.same_readers
    if not hasattr(P, "clo"):
        P.clo = Closure(P)
    if not hasattr(B, "clo"):
        B.clo = Closure(B)
    us = [u for u in B.raw["F"] if "ParameterGroup@" in u and B.fn_by_usr(u).n in ("has", "get", "getDefault")]
    P.same_readers = B.same_readers = bool(us) and all(u not in P.raw["F"] or P.clo.hash(u)[0] == B.clo.hash(u)[0] for u in us)
    P.same_fns = B.same_fns = {u for u in B.raw["F"] if "upcase" in u and u in P.raw["F"] and P.clo.hash(u)[0] == B.clo.hash(u)[0]}
    return P.same_readers


def layout(s):
    d = json.loads(s)
    return ([(f["n"], f.get("ty", f.get("t"))) for f in d.get("fields", [])], [(c.get("n"), c.get("v")) for c in d.get("consts", [])], d.get("bases"))


def newfields(t, names, memo):
    """does the term read a field the reviewed tree does not have"""
    if t in memo:
        return memo[t]
    memo[t] = False
    r = False
    for x in t.a:
        if isinstance(x, T):
            if newfields(x, names, memo):
                r = True
                break
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    if newfields(y, names, memo):
                        r = True
                        break
                elif isinstance(y, str) and y and (y[0].isalpha() or y[0] == "_") and t.op in ("load", "sub", "arr", "lv") and y not in names:
                    r = True
                    break
    memo[t] = r
    return r


def public_functions(B, files, exclude=(), private=()):
    out = []
    for f in B.all_fns():
        if not any(f.file == x or (x.endswith("/") and f.file.startswith(x)) or (x.endswith("*") and f.file.startswith(x[:-1])) for x in files):
            continue
        d = f.d
        sq = re.sub(r"<.*?>", "", f.q)
        if any(f.n == e or f.q == e or sq == e or (e.endswith("*") and f.q.startswith(e[:-1])) for e in exclude):
            continue
        ok = any(f.n == e or f.q == e for e in private)
        if not ok:
            if d.get("anon") or d.get("internal") or d.get("implicit") or d.get("dtor"):
                continue
            if d.get("cls") and d.get("access") == "private" and not d.get("virt"):
                continue
            if not d.get("cls") and not d.get("hdr"):
                continue
        out.append(f)
    out.sort(key=lambda f: (f.file, f.d["l"], f.u))
    return out
