"""C27: ranges, references and callbacks handed out refer to things that outlive them, and can be used more than once."""
import re

from common import *
import effects
from rules.c16 import nodes_of

VIEW = re.compile(r"any_range|iterator_range|_range<|\bReference<|reference_wrapper|[Ii]terator|std::function<|\(lambda|indirect_holder|filter_holder|transform_holder|range_holder|_forwarder|\(anonymous class\)")
ADAPT = ("boost::adaptors::", "boost::range_detail::")
KEEP = ("operator*", "operator->", "get", "value", "front", "back", "at", "operator[]", "data", "c_str", "begin", "end", "cbegin", "cend",
        "rbegin", "rend", "find", "lower_bound", "upper_bound", "first", "second", "operator=", "operator+=", "operator<<", "str", "unwrap")
OVER = ("make_iterator_range", "make_transform_iterator", "make_filter_iterator", "begin", "end", "cbegin", "cend", "find_if", "find", "max_element", "min_element", "next", "prev", "make_pair",
        "lower_bound", "upper_bound", "advance", "search", "bind", "adaptors")
SCALAR = re.compile(r"^const (bool|int|unsigned|long|short|char|double|float|std::basic_string<|std::string|powsybl::.*::)")


def check(ctx):
    m = Life(ctx)
    check_outlives(ctx, m)
    check_local(ctx, m)
    check_stateless(ctx, m)
    check_stable(ctx, m)


def is_view(t):
    t = t or ""
    return t.rstrip().endswith("*") and "char *" not in t or bool(VIEW.search(t.split("(")[0] if t.startswith("std::function") else t)) and not is_owner(t)


def is_owner(t):
    """A container of references keeps the references, not what holds them."""
    t = re.sub(r"^const ", "", t or "").rstrip("& ")
    return bool(re.match(r"std::(__cxx11::)?(vector|list|set|map|unordered_map|unordered_set|deque|unique_ptr|shared_ptr|basic_string|pair|array|initializer_list)\b", t)) or t.startswith("boost::optional")


class Life:
    """What the places and views a function computes refer to: ("this",), ("param", d), ("local", d), ("temp", line)."""

    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.eff = effects.Effects(ctx.p)
        self.memo = {}
        self.decls = {}
        self.stack = []

    def locals(self, f):
        if f not in self.decls:
            r = self.p.funcs[f]
            a = {}
            for y in nodes_of([r.get("body"), r.get("inits")]):
                if y.get("k") == "decl":
                    for v in y.get("v") or []:
                        a[v["d"]] = (v.get("t") or "", v.get("init"), v.get("static"), False)
                elif y.get("k") == "rfor" and isinstance(y.get("v"), dict):
                    a[y["v"]["d"]] = (y["v"].get("t") or "", y.get("r"), False, True)
                elif y.get("k") == "lambda":
                    for q in y.get("p") or []:
                        a[q["d"]] = (q.get("t") or "", None, False, False)
            for q in r.get("p") or []:
                a[q["d"]] = (q.get("t") or "", "param", False, False)
            self.decls[f] = a
        return self.decls[f]

    def given_away(self, f):
        """The locals whose content the function moves elsewhere."""
        key = ("away", f)
        if key not in self.memo:
            out = set()
            for y in nodes_of(self.p.funcs[f].get("body")):
                if y.get("k") == "call" and y.get("n") in ("move", "forward", "release"):
                    for a in ([y["o"]] if isinstance(y.get("o"), dict) else []) + (y.get("a") or []):
                        if a.get("k") == "var":
                            out.add(a["d"])
            self.memo[key] = out
        return self.memo[key]

    # ---- the storage an expression designates
    def place(self, f, x, n=0):
        if not isinstance(x, dict) or n > 25:
            return frozenset()
        k, n = x.get("k"), n + 1
        if k == "this":
            return frozenset([("this",)])
        if k == "mem":
            b = x.get("b") or {}
            if self.is_ref_field(x):
                return frozenset()
            if b.get("k") == "this":
                return frozenset([("this",)])
            return self.refers(f, b, n) if is_view(b.get("t")) and not is_view_member(b) else self.place(f, b, n)
        if k == "var":
            d = x.get("d")
            v = self.locals(f).get(d)
            if v is None:
                return frozenset()
            t, init, static, loop = v
            if static:
                return frozenset()
            if init == "param":
                return frozenset([("param", d)]) if t.rstrip().endswith("&") else frozenset([("local", d)])
            if t.rstrip().endswith("&"):
                if init is None:
                    return frozenset()
                if loop:
                    return self.elements(f, init, n)
                r = self.place(f, init, n)
                return frozenset(("local", d) if q[0] == "temp" else q for q in r)
            if "unique_ptr<" in t and d in self.given_away(f):
                return frozenset()
            return frozenset([("local", d)])
        if k == "call":
            rec = self.p.funcs.get(x.get("f"))
            if rec is not None and (rec.get("rt") is not None) and (x.get("f") or "").startswith(("powsybl::", "stdcxx::")):
                if rec["rt"].rstrip().endswith("&"):
                    return self.subst(f, x, n)
                return frozenset([("temp", x.get("l"))])
            nm, o = x.get("n"), x.get("o")
            if nm in ("move", "forward", "as_const", "max", "min", "clamp", "operator="):
                out = self.place(f, o, n) if o is not None and nm == "operator=" else frozenset()
                for a in (x.get("a") or []) if nm != "operator=" else []:
                    out |= self.place(f, a, n)
                return out
            if o is not None and nm in KEEP:
                return self.refers(f, o, n) if is_view(o.get("t")) else self.place(f, o, n)
            if o is None and nm in ("operator*", "operator->", "operator[]") and x.get("a"):
                return self.refers(f, x["a"][0], n) if is_view(x["a"][0].get("t")) else self.place(f, x["a"][0], n)
            return frozenset()
        if k == "idx":
            return self.place(f, x.get("a"), n)
        if k in ("ctor", "int", "float", "bool", "enum", "list", "lambda", "zero", "bin"):
            if k == "ctor" and x.get("cp") and len(x.get("a") or []) == 1:
                return frozenset([("temp", x.get("l"))])
            if k == "bin" and x.get("o") in ("=", "+=", "-=", "*=", "/="):
                return self.place(f, x.get("a"), n)
            return frozenset([("temp", x.get("l"))])
        if k in ("cast", "paren"):
            return self.place(f, x.get("a") or x.get("e"), n)
        if k == "cond":
            return self.place(f, x.get("a"), n) | self.place(f, x.get("b"), n)
        if k == "un":
            if x.get("o") in ("*", "deref"):
                a = x.get("a") or x.get("e") or {}
                return frozenset([("this",)]) if a.get("k") == "this" else self.refers(f, a, n)
            if x.get("o") in ("++", "--"):
                return self.place(f, x.get("a") or x.get("e"), n)
            return frozenset([("temp", x.get("l"))])
        return frozenset()

    def elements(self, f, x, n):
        """What the elements of a range are: parts of a container, or what the range gives."""
        if is_view(x.get("t")):
            return self.refers(f, x, n)
        return self.place(f, x, n) if not re.search(r"reference_wrapper|\*>|\*,", x.get("t") or "") else frozenset()

    def is_ref_field(self, x):
        c = self.p.classes.get(x.get("c"))
        if c:
            for fl in c["fields"]:
                if fl["n"] == x.get("f"):
                    return fl["t"].rstrip().endswith("&") or bool(fl.get("static"))
        return False

    # ---- what a view refers to
    def refers(self, f, x, n=0):
        if not isinstance(x, dict) or n > 25:
            return frozenset()
        k, n = x.get("k"), n + 1
        if k == "var":
            v = self.locals(f).get(x.get("d"))
            if v is None or v[1] in (None, "param") or v[2]:
                return frozenset()
            if v[3]:
                return frozenset()
            return self.refers(f, v[1], n) if isinstance(v[1], dict) else frozenset()
        if k == "call":
            fid, nm, o = x.get("f") or "", x.get("n"), x.get("o")
            args = x.get("a") or []
            if fid.startswith("stdcxx::ref") or fid.startswith("stdcxx::cref") or fid in ("std::ref", "std::cref", "std::addressof"):
                return self.sub(f, args[0], n) if args else frozenset()
            rec = self.p.funcs.get(fid)
            if rec is not None and rec.get("body") is not None and rec.get("rt") and is_view(rec["rt"]):
                return self.subst(f, x, n)
            if nm in ("move", "forward"):
                return self.refers(f, args[0], n) if args else frozenset()
            if o is not None and nm in ("begin", "end", "cbegin", "cend", "find", "get", "data", "lower_bound", "upper_bound", "operator->") and not fid.startswith("powsybl::"):
                return self.refers(f, o, n) if is_view(o.get("t")) else self.sub(f, o, n)
            if fid.startswith(ADAPT) or fid.startswith(("boost::make_", "boost::begin", "boost::end")) or nm in OVER and o is None:
                out = frozenset()
                for a in ([o] if o is not None else []) + args:
                    out |= self.sub(f, a, n)
                return out
            return frozenset()
        if k == "ctor":
            if not is_view(x.get("t")):
                return frozenset()
            out = frozenset()
            for a in x.get("a") or []:
                out |= self.sub(f, a, n)
            return out
        if k == "lambda":
            out = frozenset()
            loc = self.locals(f)
            for c in x.get("caps") or []:
                d = c.get("n")
                if d == "this":
                    out |= {("this",)}
                elif c.get("ref"):
                    out |= self.place(f, {"k": "var", "d": d}, n)
                elif d in loc and is_view(loc[d][0]):
                    out |= self.refers(f, {"k": "var", "d": d}, n)
            return out
        if k in ("cast", "paren"):
            return self.refers(f, x.get("a") or x.get("e"), n)
        if k == "cond":
            return self.refers(f, x.get("a"), n) | self.refers(f, x.get("b"), n)
        if k == "un" and x.get("o") == "&":
            return self.place(f, x.get("a") or x.get("e"), n)
        if k == "this":
            return frozenset([("this",)])
        return frozenset()

    def sub(self, f, x, n):
        """What a view made from the expression refers to."""
        if not isinstance(x, dict):
            return frozenset()
        if x.get("k") in ("int", "float", "bool", "enum", "zero", "null", "fref", "str"):
            return frozenset()
        t = x.get("t") or ""
        if re.search(r"\([&*][^()]*\)\(", strip_tpl(t)):
            return frozenset()              # a function
        if x.get("k") == "lambda" or is_view(t):
            return self.refers(f, x, n)
        if x.get("k") == "ctor" and x.get("cp") == "copy" and len(x.get("a") or []) == 1 and not is_owner(t):
            return frozenset()              # a function object is kept by value
        return frozenset(q for q in self.place(f, x, n) if not (q[0] == "temp" and not is_owner(t)))

    # ---- what a function returns
    def summary(self, f):
        if f in self.memo:
            return self.memo[f]
        if f in self.stack or len(self.stack) > 15:
            return frozenset()
        r = self.p.funcs.get(f) or {}
        out = frozenset()
        if r.get("body") is not None:
            self.stack.append(f)
            for e in returns(r["body"]):
                out |= self.place(f, e) if (r.get("rt") or "").rstrip().endswith("&") else self.refers(f, e)
            self.stack.pop()
        self.memo[f] = out
        return out

    def subst(self, f, x, n):
        rec = self.p.funcs.get(x.get("f"))
        s = self.summary(x["f"])
        out = frozenset()
        ps = [q["d"] for q in rec.get("p") or []]
        o = x.get("o")
        for q in s:
            if q[0] == "this" and o is not None:
                out |= (self.refers(f, o, n) if is_view(x.get("ot")) or is_view(o.get("t")) else self.place(f, o, n)) if o.get("k") != "this" else frozenset([("this",)])
            elif q[0] == "param" and q[1] in ps and ps.index(q[1]) < len(x.get("a") or []):
                out |= self.place(f, x["a"][ps.index(q[1])], n)
        return out


def is_view_member(b):
    return False


def returns(s):
    """The returned expressions of a body, those of its lambdas left out."""
    st = [s]
    while st:
        y = st.pop()
        if isinstance(y, list):
            st.extend(y)
        elif isinstance(y, dict):
            if y.get("k") == "lambda":
                continue
            if y.get("k") == "ret":
                if y.get("e") is not None:
                    yield y["e"]
                continue
            st.extend(y.values())


def ours(p):
    for f, r in sorted(p.funcs.items()):
        if r.get("body") is not None and "/test/" not in r["file"] and r["file"].startswith(("src", "include", "ext")):
            yield f, r


# ---------------------------------------------------------------------------------------------------------- outlives
def check_outlives(ctx, m):
    p = ctx.p
    seen = set()
    for f, r in ours(p):
        rt = r.get("rt") or ""
        ref = rt.rstrip().endswith("&")
        if not ref and not is_view(rt):
            continue
        where = (r["file"], r["line"])
        if where not in seen:
            ctx.inst("outlives", "%s:%s" % (short(f), r["line"]))
        seen.add(where)
        s = m.summary(f)
        bad = [q for q in s if q[0] in ("local", "temp")]
        for q in sorted(bad, key=str):
            what = "the local %s" % q[1].split("#")[0] if q[0] == "local" else "a temporary (line %s)" % q[1]
            ctx.viol("outlives", "%s@%s" % (short(f), q[1] if q[0] == "local" else "temporary"), "%s:%s" % where,
                     "%s returns a %s that refers to %s, which is gone once it returns" % (short(f), "reference" if ref else "range or reference", what))
        if not ref:
            ps = {q["d"]: q["t"] for q in r.get("p") or []}
            for q in s:
                if q[0] == "param" and SCALAR.match(ps.get(q[1], "")) and is_plain(p, ps[q[1]]) and external(p, f, r):
                    ctx.viol("outlives", "%s@%s" % (short(f), q[1]), "%s:%s" % where,
                             "what %s returns refers to its argument %s, which may be a temporary: in 'for (auto& x : %s(...))' it is gone when the loop starts" % (
                                 short(f), q[1].split("#")[0], short(f).split("::")[-1]))
    ctx.need("outlives", 500)


def is_plain(p, t):
    t = re.sub(r"^const ", "", t).rstrip("& ")
    return t.startswith(("std::basic_string", "std::string", "bool", "int", "unsigned", "long", "short", "char", "double", "float")) or t in p.enums


def external(p, f, r):
    """Can it be called from outside the file? (a member, or something a header declares)"""
    return bool(r.get("c")) or not r["file"].endswith(".cpp") or r.get("hdr", False)


# ---------------------------------------------------------------------------------------------------------- local
def check_local(ctx, m):
    p = ctx.p
    for f, r in ours(p):
        for y in nodes_of(r["body"]):
            if y.get("k") == "decl":
                for v in y.get("v") or []:
                    if isinstance(v.get("init"), dict) and is_view(v.get("t")) and not v.get("static"):
                        one(ctx, m, f, r, v["init"], "the local %s" % v["n"], y.get("l"))
            elif y.get("k") == "rfor" and isinstance(y.get("r"), dict) and is_view(y["r"].get("t")):
                one(ctx, m, f, r, y["r"], "the loop's range", y.get("l"))
    ctx.need("local", 100)


def one(ctx, m, f, r, e, what, line):
    ctx.inst("local", "%s:%s" % (short(f), line))
    if any(q[0] == "temp" for q in m.refers(f, e)):
        ctx.viol("local", "%s@%s" % (short(f), what), "%s:%s" % (r["file"], line), "%s of %s refers to a temporary that is gone at the end of the statement" % (what, short(f)))


# ---------------------------------------------------------------------------------------------------------- stateless
def check_stateless(ctx, m):
    """A predicate or function kept in a range is copied at will and called again each time the range is walked: it must not remember."""
    p = ctx.p
    for f, r in ours(p):
        for y in nodes_of(r["body"]):
            if y.get("k") != "call" or not (y.get("f") or "").startswith(ADAPT + ("boost::make_transform_iterator", "boost::make_filter_iterator")):
                continue
            if y.get("n") == "operator|":
                continue
            for a in y.get("a") or []:
                v = resolve(m, f, a)
                if v.get("k") == "lambda":
                    ctx.inst("stateless", "%s:%s" % (short(f), y.get("l")))
                    w = writes_captured(m, f, v)
                    if w:
                        ctx.viol("stateless", "%s@lambda" % short(f), "%s:%s" % (r["file"], y.get("l")), "the function of the range that %s makes changes %s each time it is called: walking the range again gives something else" % (short(f), w))
                    continue
                c = cls_of(p, v.get("t") or a.get("t"))
                if c:
                    ctx.inst("stateless", "%s:%s" % (short(f), y.get("l")))
                    w = remembers(p, m, c)
                    if w:
                        ctx.viol("stateless", "%s@%s" % (short(f), short(c)), "%s:%s" % (r["file"], y.get("l")), "%s keeps %s in the range it makes; its %s changes %s: walking the range again gives something else" % (short(f), short(c), w[0].split("::")[-1].split("(")[0], w[1]))
    ctx.need("stateless", 10)


def resolve(m, f, a):
    n = 0
    while isinstance(a, dict) and n < 10:
        n += 1
        if a.get("k") == "var" and a.get("d") in m.locals(f) and isinstance(m.locals(f)[a["d"]][1], dict):
            a = m.locals(f)[a["d"]][1]
        elif a.get("k") in ("cast", "paren"):
            a = a.get("a") or a.get("e")
        elif a.get("k") == "ctor" and a.get("cp") and len(a.get("a") or []) == 1:
            a = a["a"][0]
        else:
            break
    return a if isinstance(a, dict) else {}


def cls_of(p, t):
    t = re.sub(r"^const ", "", t or "").rstrip("& ")
    return t if t in p.classes else None


CHANGES = {"insert", "emplace", "emplace_back", "push_back", "erase", "clear", "pop_back", "push_front", "push", "pop", "reset", "swap", "assign", "resize", "operator=", "operator++", "operator--", "operator+=", "operator-="}


def writes_captured(m, f, lam):
    mine = {q["d"] for q in lam.get("p") or []}
    for y in nodes_of(lam.get("body")):
        if y.get("k") == "decl":
            mine |= {v["d"] for v in y.get("v") or [] if not v.get("static")}
        if y.get("k") == "lambda":
            mine |= {q["d"] for q in y.get("p") or []}
        if y.get("k") == "rfor" and isinstance(y.get("v"), dict):
            mine.add(y["v"]["d"])
    for y in nodes_of(lam.get("body")):
        t = None
        if y.get("k") == "bin" and (y.get("o") or "").endswith("=") and y["o"] not in ("==", "!=", "<=", ">="):
            t = y.get("a")
        elif y.get("k") == "un" and y.get("o") in ("++", "--"):
            t = y.get("a") or y.get("e")
        elif y.get("k") == "call" and y.get("n") in CHANGES and (y.get("f") or "").startswith(("std::", "boost::")):
            t = y.get("o")
        b = base_of(t)
        if b and (b[0] == "this" or b[1] not in mine):
            return b[1].split("#")[0]
    return None


def base_of(t):
    n = 0
    while isinstance(t, dict) and n < 15:
        n += 1
        k = t.get("k")
        if k == "var":
            return ("var", t["d"])
        if k == "mem":
            if (t.get("b") or {}).get("k") == "this":
                return ("this", t["f"])
            t = t.get("b")
        elif k == "call":
            t = t.get("o") if t.get("o") is not None else (t.get("a") or [None])[0]
        elif k in ("cast", "paren", "un", "idx"):
            t = t.get("a") or t.get("e")
        else:
            return None
    return None


def remembers(p, m, c):
    for g, r in p.funcs.items():
        if r.get("c") == c and r.get("n") == "operator()" and r.get("body") is not None:
            w = writes_captured(m, g, {"p": r.get("p"), "body": r["body"]})
            if w:
                return g, w
    return None


# ---------------------------------------------------------------------------------------------------------- stable
BYVAL = re.compile(r"^(?:const )?std::(vector|deque|basic_string)<(.*)$")


def check_stable(ctx, m):
    """A reference to an element of a vector does not survive its growth: what is handed out is not kept by value in one that grows later."""
    p = ctx.p
    eff = m.eff
    moved = {}
    for f, r in ours(p):
        if r.get("n") in ("<ctor>", "<dtor>") or "variant" in (r.get("n") or "").lower():
            continue
        for c, fl, kind in eff.direct.get(f, ()):
            if kind == "=":
                continue
            moved.setdefault((c, fl), []).append(f)
    done = set()
    for f, r in ours(p):
        rt = r.get("rt") or ""
        if r.get("acc") not in (None, "public", 0) or not (rt.rstrip().endswith("&") or is_view(rt)) or not (r.get("c") or "").startswith("powsybl::iidm::"):
            continue
        for e in returns(r["body"]):
            F = element_of(m, f, e)
            if F is None or (F, f) in done:
                continue
            done.add((F, f))
            ctx.inst("stable", "%s::%s@%s" % (short(F[0]), F[1], short(f)))
            gs = [g for g in moved.get(F, []) if not (p.funcs[g].get("c") or "").endswith("Adder")]
            if gs:
                g = gs[0]
                ctx.viol("stable", "%s::%s" % (short(F[0]), F[1]), "%s:%s" % (r["file"], r["line"]),
                         "%s gives a reference to an element of %s::%s, a sequence of values that %s grows or shrinks: the reference does not stay valid" % (short(f), short(F[0]), F[1], short(g)))
    ctx.need("stable", 3)


def element_of(m, f, e):
    """The field, a sequence of values, an element of which the expression designates."""
    n = 0
    elem = False
    while isinstance(e, dict) and n < 15:
        n += 1
        k = e.get("k")
        if k == "mem":
            if elem and (e.get("b") or {}).get("k") == "this":
                t = e.get("t") or ""
                q = BYVAL.match(t)
                if q and not re.match(r"(std::unique_ptr|std::shared_ptr|std::reference_wrapper|stdcxx::Reference|[^<,]*\*)", q.group(2)):
                    return (e.get("c"), e.get("f"))
                return None
            e = e.get("b")
        elif k == "call":
            nm = e.get("n")
            if (e.get("f") or "").startswith(("stdcxx::ref", "stdcxx::cref")) or nm in ("ref", "cref"):
                e = (e.get("a") or [None])[0]
            elif nm in ("operator[]", "at", "front", "back", "operator*"):
                elem = True
                e = e.get("o") if e.get("o") is not None else (e.get("a") or [None])[0]
            elif nm in ("begin", "end", "find_if"):
                e = e.get("o") if e.get("o") is not None else (e.get("a") or [None])[0]
            else:
                return None
        elif k == "var":
            v = m.locals(f).get(e.get("d"))
            if not v or not isinstance(v[1], dict):
                return None
            elem = elem or v[3]
            e = v[1]
        elif k in ("cast", "paren"):
            e = e.get("a") or e.get("e")
        elif k == "un" and e.get("o") == "*":
            elem = True
            e = e.get("a") or e.get("e")
        elif k == "ctor" and len(e.get("a") or []) == 1:
            e = e["a"][0]
        elif k == "cond":
            return element_of(m, f, e.get("a")) or element_of(m, f, e.get("b"))
        else:
            return None
    return None
