"""Refusal predicates: the condition under which a function throws, as a formula over its inputs, and its evaluation
over finite abstractions of the inputs (NaN / below / at / above every constant the formulas mention, every ordering
of the operands, every enumerator, set or unset)."""
import itertools
import math
import random
import re

from common import *
from rules.c03 import strip_copy

INF = float("inf")
NAN = float("nan")


def refusals(e, skip=()):
    """[(event, [(condition, polarity)])] of the refusals of a summary."""
    memo = {}
    out = []
    for ev in e.events:
        if ev.k == "throw":
            out.append((ev, [(canon(c, memo), q) for c, q in ev.g]))
    return out


CMP = {"<": "<", ">": ">", "<=": "<=", ">=": ">=", "==": "==", "!=": "!="}
ISO = {"isless": "<", "islessequal": "<=", "isgreater": ">", "isgreaterequal": ">="}


def num(v):
    if v is None or isinstance(v, str):
        return NAN
    return v


def _lt(a, op, b):
    if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)) or a is None or b is None:
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        return False
    if op == "<":
        return a < b
    if op == ">":
        return a > b
    if op == "<=":
        return a <= b
    if op == ">=":
        return a >= b
    if op == "==":
        return a == b
    return a != b


def _isnan(x):
    return isinstance(x, float) and x != x


def _bool(x):
    """Value of a condition: unset is false, anything held (even zero, in an optional) is true."""
    if x is None or x is False:
        return False
    return True


def _abs(x):
    return abs(num(x))


class Formula:
    """Compiles nodes into Python functions of an environment; what it cannot interpret is an input (leaf)."""

    def __init__(self, p, cid=None, types=None):
        self.p = p
        self.cid = cid
        self.types = types or {}
        self.leaves = {}      # node -> index
        self.use = {}         # node -> set of usage tags
        self.consts = set()
        self.enums = {}       # leaf -> enumeration name
        self.memo = {}

    def type_of(self, n):
        t = self.types.get(n)
        if t is None and self.cid:
            t = field_type(self.p, self.cid, n)
        if t is None and n.op == "call":
            if mname(n.a[0]) == "size":
                t = "unsigned long"
            elif n.a[0] in self.p.funcs:
                t = self.p.funcs[n.a[0]]["rt"]
        return t

    def leaf(self, n, tag):
        if n not in self.leaves:
            self.leaves[n] = len(self.leaves)
        self.use.setdefault(n, set()).add(tag)
        return "E[%d]" % self.leaves[n]

    def tag(self, n, tag):
        n = self.norm(n)
        if n in self.leaves:
            self.use.setdefault(n, set()).add(tag)

    def norm(self, n):
        while True:
            m = strip_copy(n)
            if m.op == "val":
                m = m.a[0]
            elif m.op == "un" and m.a[0] in ("*", "deref"):
                m = m.a[1]
            elif m.op == "call" and m.a[1] is not None and mname(m.a[0]) in ("get", "value", "operator*", "value_or") and not m.a[2]:
                m = m.a[1]
            if m is n:
                return n
            n = m

    def x(self, n, tag="any"):
        n = self.norm(n)
        r = self.memo.get(n)
        if r is None:
            r = self._x(n, tag)
            if not r.startswith("E["):
                self.memo[n] = r
        if n in self.leaves:
            self.use[n].add(tag)
        return r

    def _x(self, n, tag):
        o = n.op
        if o == "int":
            self.consts.add(n.a[0])
            return repr(n.a[0])
        if o == "float":
            self.consts.add(n.a[0])
            v = n.a[0]
            return "NAN" if v != v else ("INF" if v == INF else "-INF" if v == -INF else repr(float(v)))
        if o == "bool":
            return "True" if n is TRUE else "False"
        if o == "str":
            return repr(n.a[0])
        if o == "null":
            return "None"
        if o == "enum":
            return repr(n.a[1])
        if o == "un":
            if n.a[0] == "bool":
                a = self.norm(n.a[1])
                if a.op not in ("op", "un", "ite", "imp", "bool") and "optional<" in (self.type_of(a) or ""):
                    return "(%s is not None)" % self.leaf(a, "opt")
                return "B(%s)" % self.x(n.a[1], "bool")
            if n.a[0] == "!":
                return "(not B(%s))" % self.x(n.a[1], "bool")
            if n.a[0] == "-":
                return "(-N(%s))" % self.x(n.a[1], "num")
            if n.a[0] == "+":
                return self.x(n.a[1], "num")
        if o == "op":
            k, a, b = n.a[0], n.a[1], n.a[2]
            if k == "&&":
                return "(B(%s) and B(%s))" % (self.x(a, "bool"), self.x(b, "bool"))
            if k == "||":
                return "(B(%s) or B(%s))" % (self.x(a, "bool"), self.x(b, "bool"))
            if k in CMP:
                na, nb = self.norm(a), self.norm(b)
                t = "cmp"
                for u, w in ((na, nb), (nb, na)):
                    if w.op == "enum":
                        self.enums[u] = w.a[0]
                        t = "enum"
                    elif w.op == "str":
                        t = "str"
                    elif w.op == "null":
                        t = "bool"
                    elif w.op == "float":
                        t = "num"
                    elif w.op == "bool":
                        t = "bool"
                if t == "bool" and NULL in (na, nb):
                    u = na if nb is NULL else nb
                    s = "B(%s)" % self.x(u, "bool")
                    return ("(not %s)" % s) if k == "==" else s
                if t == "bool":
                    return "(B(%s) %s B(%s))" % (self.x(a, t), k, self.x(b, t))
                if t == "cmp" and k in ("==", "!=") and not any(self.type_of(u) or u.op in ("op", "un", "ite", "imp") for u in (na, nb)):
                    t = "eq"
                return "C(%s, %r, %s)" % (self.x(a, t), k, self.x(b, t))
            if k in ("+", "-", "*"):
                return "(N(%s) %s N(%s))" % (self.x(a, "num"), k, self.x(b, "num"))
        if o == "ite":
            return "(%s if B(%s) else %s)" % (self.x(n.a[1], tag), self.x(n.a[0], "bool"), self.x(n.a[2], tag))
        if o == "imp":
            c, q, d, r = n.a[0], n.a[1], n.a[2], n.a[3]
            q = q is TRUE or q is True
            r = r is TRUE or r is True
            return "(B(%s) is not %s or B(%s) is %s)" % (self.x(c, "bool"), q, self.x(d, "bool"), r)
        if o == "in":
            vs = [v.a[1] if v.op == "enum" else v.a[0] for v in n.a[1]]
            x = self.norm(n.a[0])
            for v in n.a[1]:
                if v.op == "enum":
                    self.enums[x] = v.a[0]
            return "(%s in %r)" % (self.x(x, "enum"), tuple(vs))
        if o == "call":
            f = mname(n.a[0])
            a = n.a[2]
            if f == "isnan" and len(a) == 1:
                return "ISNAN(%s)" % self.x(a[0], "num")
            if f in ISO and len(a) == 2:
                return "C(N(%s), %r, N(%s))" % (self.x(a[0], "num"), ISO[f], self.x(a[1], "num"))
            if f == "isfinite" and len(a) == 1:
                return "(abs(N(%s)) < INF)" % self.x(a[0], "num")
            if "numeric_limits" in n.a[0] and f in ("max", "lowest", "infinity", "quiet_NaN") and not a and n.a[1] is None:
                return {"max": "1.7976931348623157e308", "lowest": "-1.7976931348623157e308", "infinity": "INF", "quiet_NaN": "NAN"}[f]
            if f in ("abs", "fabs") and len(a) == 1:
                return "ABS(%s)" % self.x(a[0], "num")
            if f == "empty" and n.a[1] is not None and not a:
                return "(%s == '')" % self.x(n.a[1], "str")
            if f in ("is_initialized", "has_value", "operator bool") and n.a[1] is not None:
                return "B(%s)" % self.x(n.a[1], "bool")
            if f == "operator!" and n.a[1] is not None:
                return "(not B(%s))" % self.x(n.a[1], "bool")
        return self.leaf(n, tag)

    def cond(self, gs):
        parts = [("B(%s)" if q else "(not B(%s))") % self.x(c, "bool") for c, q in gs]
        return " and ".join(parts) if parts else "True"

    def compile(self, src):
        return eval("lambda E: " + src, {"B": _bool, "C": _lt, "N": num, "ISNAN": _isnan, "ABS": _abs, "NAN": NAN, "INF": INF})


def field_type(p, cid, loc, fid=None):
    """Declared type of a location, when it can be told."""
    if loc.op == "lparam" or loc.op == "param":
        return None
    while loc.op in ("at", "elem"):
        t = field_type(p, cid, loc.a[0], fid)
        if t is None:
            return None
        m = re.search(r"(?:vector|deque|array|VariantArray)<(.*?)(?:, std::allocator.*)?>$", t.strip())
        return m.group(1) if m else t
    if loc.op == "fld":
        fn = loc.a[1]
        cands = set()
        cs = p.bases(cid) if loc.a[0] is THIS else None
        for c in (cs if cs is not None else p.classes):
            for fl in p.classes.get(c, {}).get("fields", []):
                if fl["n"] == fn:
                    cands.add(fl["t"])
        if len(cands) == 1:
            return next(iter(cands))
        if cands and all("double" in c for c in cands):
            return "double"
        if not cands and cs is not None:
            return field_type(p, cid, N("fld", N("other"), fn))
    return None


def enumerators(p, en):
    r = p.enums.get(en) or next((p.enums[k] for k in sorted(p.enums) if k.endswith("::" + en)), None)
    return [v["n"] for v in r["v"]] if r else None


def domain(F, n, t, consts, rich=True, given=False):
    """Finite abstraction of the values of an input (given: the value cannot be left out)."""
    u = F.use.get(n, set())
    t = t or ""
    opt = "optional<" in t or "opt" in u or ("bool" in u and ("num" in u or "cmp" in u) and not t)
    if n in F.enums:
        vals = list(enumerators(F.p, F.enums[n]) or ["?"])
    elif "str" in u or ("basic_string" in t and "vector" not in t):
        vals = ["", "a"]
    elif not t and u <= {"eq", "bool", "any"} and "eq" in u:
        vals = ["o1", "o2"]
    elif "double" in t or (not re.search(r"\b(int|long|short|unsigned|size_t|bool)\b", t) and ("num" in u or "cmp" in u)):
        ks = sorted({float(c) for c in consts if c == c and abs(c) < 1e6} | {0.0})
        s = {-INF, INF}
        d = 0.25
        for c in ks:
            s |= {c - 2 * d, c - d, c, c + d, c + 2 * d} if rich else {c - d, c, c + d}
        vals = [NAN] + sorted(s)
    elif re.search(r"\b(int|long|short|unsigned|size_t)\b", t):
        lo = 0 if "unsigned" in t or "size_t" in t else -2
        ks = sorted({int(c) for c in consts if c == c and abs(c) < 1000} | {0})
        s = set()
        for c in ks:
            s |= {c - 1, c, c + 1, c + 2}
        vals = sorted(v for v in s if v >= lo)
    elif "bool" in t or not opt:
        vals = [True, False]
    else:
        vals = [True]
    return ([None] if opt and not given else []) + vals


class Pred:
    """The refusal predicate of one function."""

    def __init__(self, p, e, cid, types=None):
        self.p, self.e, self.cid = p, e, cid
        self.F = Formula(p, cid, types)
        self.items = []
        for ev, gs in refusals(e):
            self.items.append((ev, gs, self.F.compile(self.F.cond(gs))))

    def type_of(self, n):
        return self.F.type_of(n)

    def leaves(self):
        return list(self.F.leaves)

    def fires(self, E):
        """The first refusal that fires, or None."""
        for ev, gs, fn in self.items:
            if fn(E):
                return ev
        return None


def find_base(rnd, nleaves, doms, preds, tries=4000):
    """An assignment that nothing refuses (local search), or None. preds: list of (function, leaf indexes, those decisive)."""
    for attempt in range(6):
        E = [rnd.choice(d) for d in doms]
        if attempt == 0:
            for i, d in enumerate(doms):
                # prefer ordinary values first
                good = [v for v in d if isinstance(v, float) and 0 < v < 1e5] or [v for v in d if v is True or (isinstance(v, int) and not isinstance(v, bool) and v > 0)] or [v for v in d if v not in (None, "")]
                if good:
                    E[i] = good[len(good) // 2]
        for _ in range(tries):
            bad = next(((ls, near) for fn, ls, near in preds if fn(E)), None)
            if bad is None:
                return E
            if not bad[0]:
                return None
            i = rnd.choice(sorted(bad[1] if bad[1] and rnd.random() < 0.9 else bad[0]))
            E[i] = rnd.choice(doms[i])
    return None


def leaf_set(F, gs):
    """Indexes of the inputs occurring in guards."""
    out = set()
    for c, q in gs:
        for m in re.findall(r"E\[(\d+)\]", F.x(c, "bool")):
            out.add(int(m))
    return out
