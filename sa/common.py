"""Shared vocabulary of the rules: run context, model queries over the program, value predicates."""
import engine
from engine import Engine, N, Node, THIS, NULL, TRUE, FALSE, show, short, subnodes, rewrite, contains
from facts import AnalysisError

ASSUMPTIONS = [
    "the facts come from clang 18's resolved syntax trees of every library source file and header, built with the build's own include paths and defines; test sources are not analysed",
    "value-flow summaries visit loop bodies once with symbolic elements, and do not model aliasing between different access paths",
]

I = "powsybl::iidm::"
X = I + "converter::xml::"


class Ctx:
    def __init__(self, prog, pid, tier):
        self.p = prog
        self.pid = pid
        self.tier = tier
        self.violations = []
        self.counts = {}
        self.needs = {}
        self.undet = []
        self.samples = []
        self.passed = 0
        self.seen = set()
        self.notes = []
        self._sum = {}

    # -- bookkeeping
    def inst(self, rule, what=None, n=1):
        """One rule instance (an obligation) is being examined."""
        self.counts[rule] = self.counts.get(rule, 0) + n
        if what and len([s for s in self.samples if s.startswith(rule + ":")]) < 6:
            self.samples.append("%s: %s" % (rule, what))

    def viol(self, rule, instance, loc, msg):
        k = (rule, instance)
        if k in self.seen:
            return
        self.seen.add(k)
        self.violations.append({"property": self.pid, "rule": rule, "instance": instance, "loc": loc, "msg": msg})

    def undecided(self, rule, instance, why):
        self.undet.append("%s %s: %s" % (rule, instance, why))

    def need(self, rule, n):
        """The rule must have at least n instances, otherwise the analysis is broken."""
        self.needs[rule] = n

    def finish_checks(self):
        for r, n in self.needs.items():
            c = self.counts.get(r, 0)
            if c < n and not self.violations:
                raise AnalysisError("rule %s examined %d instance(s), at least %d expected: its anchors vanished" % (r, c, n))

    def coverage(self):
        tot = sum(self.counts.values())
        return {"explanation": "%d obligations over %d rules; %d functions, %d classes, %d translation units analysed; %d instance(s) not decided, %d violated" % (
            tot, len(self.counts), len(self.p.funcs), len(self.p.classes), len(self.p.units), len(self.undet), len(self.violations)),
            "evaluations": tot, "distinct_nontrivial": max(0, tot - len(self.undet)),
            "rule": "every instance of the rule templates found in the current source; non-trivial: decided by the analysis",
            "rules": dict(self.counts), "samples": self.samples[:60], "undecided": self.undet[:200], "notes": self.notes}

    # -- analysis
    def summary(self, fid, policy=None, key=None, **kw):
        """Effect summary of a function (cached per policy key)."""
        k = (fid, key if key is not None else id(policy), tuple(sorted(kw.items())) if all(isinstance(v, (str, int, bool, type(None))) for v in kw.values()) else None)
        r = self._sum.get(k)
        if r is None:
            e = Engine(self.p, policy or (lambda *a: True), **{a: b for a, b in kw.items() if a in ("maxdepth", "heap", "maxevents", "cha")})
            e.run(fid, **{a: b for a, b in kw.items() if a in ("dyn", "args", "this")})
            r = e
            self._sum[k] = r
        return r

    def methods(self, cid):
        r = self.p.classes.get(cid)
        return [m["f"] for m in r["methods"]] if r else []

    def method(self, cid, name, inherit=True):
        """Function ids of the methods called name, nearest class first."""
        for b in (self.p.bases(cid) if inherit else [cid]):
            r = self.p.classes.get(b)
            if not r:
                continue
            fs = [m["f"] for m in r["methods"] if mname(m["f"]) == name]
            if fs:
                return fs
        return []

    def loc(self, fid):
        r = self.p.funcs.get(fid)
        return "%s:%s" % (r["file"], r.get("line", r.get("l", "?"))) if r else "?"


def strip_tpl(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == "<" and not s[max(0, i - 8):i].endswith("operator"):
            d += 1
        elif ch == ">" and d:
            d -= 1
        elif not d:
            out.append(ch)
        i += 1
    return "".join(out)


_mn = {}


def mname(fid):
    """Unqualified function name."""
    r = _mn.get(fid)
    if r is None:
        s = strip_tpl(fid)
        i = s.find("(")
        if i >= 0 and not s.endswith("operator()"):
            j = s.find("operator()(")
            s = "operator()" if j >= 0 else s[:i]
        r = s.split("::")[-1]
        _mn[fid] = r
    return r


def cname(fid):
    """Qualified name of the enclosing scope."""
    s = strip_tpl(fid)
    i = s.find("(")
    s = s[:i] if i >= 0 else s
    return "::".join(s.split("::")[:-1])


def root(n):
    while isinstance(n, Node) and n.op in ("fld", "at", "elem", "found"):
        n = n.a[0]
    return n


def guard_nodes(ev):
    return [c for c, p in ev.g]


def strip_bool(n):
    if n.op == "un" and n.a[0] == "bool":
        return n.a[1]
    return n


VIDX = N("vidx")


def _canon(m):
    if m.op == "call":
        if mname(m.a[0]) == "getVariantIndex" and not m.a[2]:
            return VIDX
        f = m.a[0]
        if f.endswith(" const"):
            return N("call", f[:-6], *m.a[1:])
    if m.op == "un" and m.a[0] == "bool" and m.a[1].op in ("bool",):
        return m.a[1]
    return m


def canon(n, memo=None):
    """Normal form: constness of callees dropped, every reading of the working variant's index identified."""
    return rewrite(n, _canon, memo if memo is not None else {})


def public_ids(cid):
    return cid.startswith(I)


def mentions(p):
    """function -> ids of the functions its body and initialisers mention (calls, references, constructions)."""
    r = getattr(p, "_mentions", None)
    if r is None:
        r = {}
        for f, rec in p.funcs.items():
            out = set()
            todo = [rec.get("body"), rec.get("inits")]
            while todo:
                x = todo.pop()
                if isinstance(x, str):
                    if x in p.funcs:
                        out.add(x)
                elif isinstance(x, dict):
                    todo.extend(x.values())
                elif isinstance(x, (list, tuple)):
                    todo.extend(x)
            r[f] = out
        p._mentions = r
    return r


def callers(p):
    """function -> functions whose body mentions it."""
    r = getattr(p, "_callers", None)
    if r is None:
        r = {}
        for f, cs in mentions(p).items():
            for c in cs:
                r.setdefault(c, set()).add(f)
        p._callers = r
    return r
