"""C20: every accessor offered for constant and for mutable access gives the same objects, values and refusals."""
import re
from common import *
from common import _canon
from engine import Frame, State, TRUE, FALSE

RULE = "same-access"


def unconst(s):
    """Spelling of types and functions, constness dropped."""
    s = s.replace("const_range", "range").replace("CReference", "Reference")
    s = re.sub(r"(?<![A-Za-z_:])const(?![A-Za-z_])", "", s)
    s = re.sub(r"(std|stdcxx)::cref\b", r"\1::ref", s)
    s = re.sub(r"\b(c)(begin|end)\b", r"\2", s)
    return s.replace(" ", "")


ANY = re.compile(r"any_range<")


class Norm:
    """Normal form of what a function does, constness, names of locals and textual form of lambdas abstracted."""

    def __init__(self, e):
        self.e = e
        self.memo = {}
        self.depth = 0
        self.st = e.rets[0][0].copy() if e.rets else State({}, {}, ())

    def t(self, n):
        if isinstance(n, str):
            return unconst(n)
        if isinstance(n, tuple):
            return tuple(self.t(x) for x in n)
        if not isinstance(n, Node):
            return n
        k = self.memo.get(id(n))
        if k is None:
            k = self.memo[id(n)] = (n, self.t1(n))
        return k[1]

    def t1(self, n):
        if n.op == "lam":
            if self.depth > 6:
                return ("lam",)
            e = self.e
            self.depth += 1
            args = [N("lp", self.depth, i) for i in range(len(e.lams[n.a[0]][0]["p"]))]
            k0 = len(e.events)
            v = e.call_lam(n, args, [None] * len(args), Frame("<norm>", THIS, None, None, 0), self.st.copy(), 0)
            evs = e.events[k0:]
            del e.events[k0:]
            r = ("lam", self.t(v), frozenset(self.event(x) for x in evs if relevant(x)))
            self.depth -= 1
            return r
        if n.op == "local":
            return ("local", self.t(n.a[2]) if len(n.a) > 2 and isinstance(n.a[2], str) else None)
        if n.op == "lv":
            return ("lv", self.t(n.a[2]))
        n = _canon(n)
        if n.op == "obj" and isinstance(n.a[0], str) and len(n.a) > 2 and len(n.a[2]) == 1:
            # a range of a range, a copy of a copy
            x = n.a[2][0]
            if isinstance(x, Node) and x.op == "obj" and unconst(x.a[0]) == unconst(n.a[0]) and ANY.search(n.a[0]):
                return self.t(x)
        if n.op == "op" and n.a[0] in ("&&", "||"):
            # the test of a test, and the choice it stands for
            return self.choice(self.t(n.a[1]), self.t(n.a[2]) if n.a[0] == "&&" else self.t(TRUE), self.t(n.a[2]) if n.a[0] == "||" else self.t(FALSE))
        if n.op == "un" and n.a[0] == "bool":
            return self.t(n.a[1])
        if n.op == "ite":
            return self.choice(*(self.t(x) for x in n.a))
        pr = presence(n)
        if pr:
            r = ("has", self.t(pr[0]), self.t(pr[1]))
            return r if pr[2] else ("un", "!", r)
        return (n.op,) + tuple(self.t(x) for x in n.a)

    @staticmethod
    def choice(c, a, b):
        while isinstance(c, tuple) and c[:2] == ("un", "!"):
            c, a, b = c[2], b, a
        return ("ite", c, a, b)

    def guards(self, ev):
        return frozenset((self.t(c), q) for c, q in ev.g)

    def event(self, ev):
        return (ev.k, self.t(tuple(ev.d)), self.guards(ev), tuple((lp[0], self.t(lp[1]) if isinstance(lp[1], Node) else None) for lp in ev.loops))


def presence(n):
    """(container, key, polarity) when n asks whether a key is in a container."""
    if n.op != "op" or n.a[0] not in ("==", "!=", ">"):
        return None
    a, b = n.a[1], n.a[2]
    if not (isinstance(a, Node) and isinstance(b, Node)):
        return None
    if a.op == "call" and b.op == "call" and mname(b.a[0]) in ("find",) and mname(a.a[0]) in ("end", "cend"):
        a, b = b, a
    if a.op == "call" and b.op == "call" and mname(a.a[0]) == "find" and mname(b.a[0]) in ("end", "cend") and len(a.a[2]) == 1:
        return a.a[1], a.a[2][0], n.a[0] == "!="
    if a.op == "call" and mname(a.a[0]) == "count" and len(a.a[2]) == 1 and b.op == "int" and b.a[0] == 0:
        return a.a[1], a.a[2][0], n.a[0] != "=="
    return None


def relevant(ev):
    return ev.k in ("throw", "store", "call")


def observe(ctx, f, c):
    e = Engine(ctx.p, lambda *a: True, maxdepth=8)
    e.run(f, dyn=c if not ctx.p.classes.get(c, {}).get("abstract") else None)
    nm = Norm(e)
    out = {("ret", nm.t(e.retvalue()) if e.rets else None)}
    for x in list(e.events):
        if relevant(x):
            out.add(nm.event(x))
    return out


ALGOS = ("find_if", "for_each", "any_of", "all_of", "none_of", "count_if", "find", "copy_if", "transform", "operator|", "next", "accumulate")


def shape(o):
    """How the function iterates: the loops and algorithms it is made of."""
    out = set()
    todo = list(o)
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and len(x) == 4 and x[0] in ("throw", "store", "call") and isinstance(x[3], tuple):
                for lp in x[3]:
                    out.add(("loop", lp[0]))
            if isinstance(x, tuple) and len(x) > 1 and x[0] in ("call", "op") and isinstance(x[1], str):
                m = mname(x[1]) if x[0] == "call" else "operator|" if x[1] == "|" else ""
                if m in ALGOS:
                    out.add(("algo", m))
            if isinstance(x, tuple) and x and x[0] in ("phi", "elem", "lam"):
                out.add(x[0])
            todo.extend(x)
    return out


def atoms(o):
    """What the function looks at: fields, parameters, constants, types asked, project functions, exceptions."""
    out = set()
    todo = list(o)
    while todo:
        x = todo.pop()
        if isinstance(x, frozenset):
            todo.extend(x)
            continue
        if not isinstance(x, tuple) or not x:
            continue
        k = x[0]
        if k == "fld":
            out.add(("field", x[2]))
        elif k in ("enum", "str", "int", "float", "param", "fref", "typeid", "isa"):
            if not (k == "int" and x[1] in (0, 1)):
                out.add(x)
        elif k == "dyn":
            out.add(("kind", x[1]))
        elif k == "call" and isinstance(x[1], str) and x[1].startswith("powsybl::"):
            out.add(("calls", mname(x[1])))
        elif k == "throw":
            out.add(("throws",) + tuple(y[1] for y in x[1][:1] if isinstance(y, tuple) and len(y) > 1 and isinstance(y[1], str)))
        todo.extend(y for y in x[1:] if isinstance(y, (tuple, frozenset)))
    return out


def diff(a, b):
    """A short account of the first difference."""
    x = sorted((str(y) for y in a - b), key=len)
    y = sorted((str(z) for z in b - a), key=len)
    return x[:1], y[:1]


def first_difference(x, y):
    """The smallest differing parts of two normal forms."""
    while isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        d = [(i, j) for i, j in zip(x, y) if i != j]
        if len(d) != 1 or not isinstance(d[0][0], tuple) or not isinstance(d[0][1], tuple):
            if len(d) == 1:
                return x, y
            break
        x, y = d[0]
    return x, y


def text(n):
    if isinstance(n, frozenset):
        return "{" + ", ".join(sorted(text(x) for x in n)) + "}"
    if not isinstance(n, tuple):
        return str(n)
    if not n:
        return ""
    k = n[0]
    if k == "fld":
        return "%s.%s" % (text(n[1]), n[2])
    if k == "this":
        return "this"
    if k == "param":
        return "$" + str(n[1])
    if k == "enum":
        return "%s::%s" % (str(n[1]).split("::")[-1], n[2])
    if k in ("str", "int", "float", "bool") and len(n) == 2:
        return repr(n[1])
    if k == "call" and isinstance(n[1], str):
        return "%s%s(%s)" % (text(n[2]) + "." if len(n) > 2 and n[2] else "", mname(n[1]), ", ".join(text(x) for x in n[3]) if len(n) > 3 and isinstance(n[3], tuple) else "")
    if k == "un":
        return "%s(%s)" % (n[1], text(n[2])) if len(n) > 2 else str(n[1:])
    if k == "op" and len(n) == 4:
        return "(%s %s %s)" % (text(n[2]), n[1], text(n[3]))
    if k == "ite":
        return "(%s ? %s : %s)" % tuple(text(x) for x in n[1:4])
    return "%s(%s)" % (k, ", ".join(text(x) for x in n[1:]))


def check(ctx):
    p = ctx.p
    groups = {}
    for f, r in p.funcs.items():
        if not f.startswith("powsybl::") or not r.get("c") or not r.get("body") or r.get("kind") in ("ctor", "dtor"):
            continue
        groups.setdefault((r["c"], f[:-6] if f.endswith(" const") else f), []).append(f)
    for (c, g), v in sorted(groups.items()):
        if len(v) != 2:
            continue
        a, b = sorted(v, key=lambda f: f.endswith(" const"))
        if not b.endswith(" const"):
            continue
        inst = short(a) + "(" + ",".join(unconst(x["t"]).split("::")[-1] for x in p.funcs[a].get("p", ())) + ")" + ("<%s>" % g.split("<", 1)[1].split(">")[0].split("::")[-1] if "<" in g.split("(")[0] else "")
        ctx.inst(RULE, inst)
        A, B = observe(ctx, a, c), observe(ctx, b, c)
        if A == B:
            continue
        fa, fb = atoms(A), atoms(B)
        if shape(A) != shape(B) and fa == fb:
            # the two forms iterate in different ways over the same things
            ctx.undecided(RULE, inst, "the two forms are written differently")
            continue
        if fa != fb:
            x, y = sorted(map(text, fa - fb)), sorted(map(text, fb - fa))
        else:
            x, y = sorted((text(z) for z in A - B), key=len)[:1], sorted((text(z) for z in B - A), key=len)[:1]
            for z in A - B:
                for w in B - A:
                    if z[0] == w[0]:
                        i, j = first_difference(z, w)
                        x, y = [text(i)], [text(j)]
        ctx.viol(RULE, inst, ctx.loc(a), "constant and mutable access differ in %s: mutable %s, constant %s" % (inst, clip(x), clip(y)))
    ctx.need(RULE, 200)


def clip(xs):
    s = ", ".join(xs[:3]) or "nothing more"
    return s if len(s) < 300 else s[:300] + "…"
