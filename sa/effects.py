"""Which container fields a function may change in structure, and which ones a range still looks at while it is walked.

Both are closed over the call graph; a virtual call stands for every override in the classes that the static type of
the receiver admits. Fields are (class, field name)."""
import re
from common import *

GROW = {"insert", "emplace", "emplace_back", "push_back", "push_front", "emplace_front", "resize", "emplace_hint", "try_emplace"}
SHRINK = {"erase", "clear", "pop_back", "pop_front", "remove", "remove_if", "reset", "resize"}
OTHER = {"swap", "assign", "operator="}
STD = re.compile(r"^(const )?(std|boost)::")
VALUE = re.compile(r"^(const )?(std::(vector|list|set|map|deque|unordered_map|unordered_set|multimap|basic_string|array|unique_ptr|pair)\b)")


def nodes_of(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def is_container(t):
    return bool(re.match(r"^(const )?(std::(vector|list|set|map|deque|unordered_map|unordered_set|multimap))\b", t or ""))


class Effects:
    def __init__(self, p):
        self.p = p
        self.direct = {}      # f -> {(class, field, kind)}
        self.calls = {}       # f -> set of callee ids
        self.alias = {}       # f -> local -> [init]
        for f, r in p.funcs.items():
            if r.get("body") is None and not r.get("inits"):
                continue
            self.scan(f, r)
        self.total = None

    # ---- locals that stand for something else
    def locals_of(self, f):
        a = self.alias.get(f)
        if a is None:
            a = {}
            r = self.p.funcs[f]
            for y in nodes_of([r.get("body"), r.get("inits")]):
                if y.get("k") == "decl":
                    for v in y.get("v") or []:
                        if v.get("init") is not None:
                            a[v["d"]] = (v.get("t") or "", v["init"])
                elif y.get("k") == "rfor" and isinstance(y.get("v"), dict):
                    a[y["v"]["d"]] = (y["v"].get("t") or "", {"k": "elemof", "r": y.get("r")})
            self.alias[f] = a
        return a

    def fields_in(self, f, x, depth=0):
        """Container fields the place x designates is part of (through local references and iterators)."""
        out = set()
        if depth > 6 or not isinstance(x, (dict, list)):
            return out
        loc = self.locals_of(f)
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, list):
                st.extend(y)
                continue
            if not isinstance(y, dict):
                continue
            k = y.get("k")
            if k == "mem":
                out.add((y.get("c"), y.get("f")))
                if y.get("b", {}).get("k") != "this":
                    st.append(y.get("b"))
                continue
            if k == "call":
                # the place a container method gives is part of the container; arguments are not
                if y.get("o") is not None:
                    st.append(y["o"])
                elif y.get("n") in ("begin", "end", "find_if", "ref", "move", "get", "addressof"):
                    st.extend(y.get("a") or [])
                continue
            if k == "var":
                d = y.get("d")
                if d in loc:
                    t, init = loc[d]
                    out |= self.fields_in(f, init, depth + 1)
                continue
            if k == "elemof":
                st.append(y.get("r"))
                continue
            st.extend(v for kk, v in y.items() if kk not in ("t", "ot", "rt"))
        return out

    def scan(self, f, r):
        d, c = set(), set()
        for y in nodes_of([r.get("body"), r.get("inits")]):
            k = y.get("k")
            if k == "call":
                o = y.get("o")
                n = y.get("n")
                fid = y.get("f")
                if fid:
                    c.add((fid, y.get("v", False), y.get("ot") or y.get("c")))
                if o is not None and (fid or "").startswith("std::") and n in GROW | SHRINK | OTHER:
                    kind = "+" if n in GROW else "-" if n in SHRINK else "="
                    if n == "reset":
                        kind = "-" if all(a.get("k") in ("zero", "null") for a in y.get("a") or []) else "="
                    F = self.place(f, o)
                    if F:
                        d.add(F + (kind,))
                elif o is not None and n == "operator[]" and "map<" in (fid or ""):
                    F = self.place(f, o)
                    if F:
                        d.add(F + ("+?",))
            elif k == "ctor" and y.get("f"):
                c.add((y["f"], False, None))
            elif k == "bin" and y.get("o") == "=":
                pass
        self.direct[f] = d
        self.calls[f] = c

    def place(self, f, o):
        """The container field a method call changes."""
        loc = self.locals_of(f)
        seen = 0
        while isinstance(o, dict) and seen < 12:
            seen += 1
            k = o.get("k")
            if k == "mem":
                if (o.get("c") or "").startswith("std::"):
                    o = o.get("b")
                    continue
                return (o.get("c"), o.get("f"))
            if k == "call":
                if o.get("o") is not None:
                    o = o["o"]
                elif o.get("a"):
                    o = o["a"][0]
                else:
                    return None
            elif k == "var":
                if o.get("d") in loc:
                    t, init = loc[o["d"]]
                    if VALUE.match(t) and not t.rstrip().endswith("&"):
                        return None      # a local container of its own
                    o = init
                else:
                    return None
            elif k == "elemof":
                o = o.get("r")
            elif k in ("un", "cast", "paren"):
                o = o.get("a")
            elif k == "ctor" and o.get("a"):
                o = o["a"][0]
            else:
                return None
        return None

    # ---- closure
    def targets(self, fid, virt, ot):
        p = self.p
        out = set()
        if fid in p.funcs:
            out.add(fid)
        if virt:
            t = re.sub(r"\bconst\b|[&*]", "", ot or "").strip()
            if t not in p.classes:
                t = (p.funcs.get(fid) or {}).get("c") or cname(fid)
            for d in p.subclasses(t):
                g = p.find_override(d, fid)
                if g in p.funcs:
                    out.add(g)
        return out

    def close(self):
        if self.total is not None:
            return self.total
        succ = {}
        for f in self.calls:
            s = set()
            for fid, v, ot in self.calls[f]:
                s |= self.targets(fid, v, ot)
            succ[f] = s
        tot = {f: set(d) for f, d in self.direct.items()}
        pred = {}
        for f, s in succ.items():
            for g in s:
                pred.setdefault(g, set()).add(f)
        todo = [f for f in tot if tot[f]]
        while todo:
            g = todo.pop()
            for f in pred.get(g, ()):
                n = len(tot[f])
                tot[f] |= tot[g]
                if len(tot[f]) != n:
                    todo.append(f)
        self.total, self.succ = tot, succ
        return tot

    def of(self, f, x):
        """Effects of an expression or statement of f."""
        tot = self.close()
        out = set()
        r = {"body": x}
        tmp = Effects.__new__(Effects)
        for y in nodes_of(x):
            if y.get("k") == "call":
                o, n, fid = y.get("o"), y.get("n"), y.get("f")
                for g in self.targets(fid, y.get("v", False), y.get("ot") or y.get("c")) if fid else ():
                    out |= {(e, y.get("l"), n) for e in tot.get(g, ())}
                if o is not None and (fid or "").startswith("std::") and n in GROW | SHRINK | OTHER:
                    F = self.place(f, o)
                    if F:
                        out.add((F + ("+" if n in GROW else "-" if n in SHRINK else "=",), y.get("l"), n))
            elif y.get("k") == "ctor" and y.get("f") in tot:
                out |= {(e, y.get("l"), "constructor") for e in tot[y["f"]]}
        return out

    # ---- what a range looks at while it is walked
    def lazy(self, f, seen=None):
        """Container fields the range, reference or iterator returned by f refers to."""
        seen = seen if seen is not None else set()
        if f in seen:
            return set()
        seen.add(f)
        r = self.p.funcs.get(f)
        if not r or r.get("body") is None:
            return set()
        rt = r.get("rt") or ""
        if VALUE.match(rt) and not rt.rstrip().endswith("&"):
            return set()
        if not (rt.rstrip().endswith("&") or "range" in rt or "terator" in rt or "Reference" in rt or "*" in rt):
            return set()
        return self.ranged(f, r["body"], seen)

    def ranged(self, f, x, seen=None, depth=0):
        """Container fields a range expression of f keeps looking at."""
        seen = seen if seen is not None else set()
        out = set()
        loc = self.locals_of(f)
        st = [x]
        done = set()
        while st:
            y = st.pop()
            if isinstance(y, list):
                st.extend(y)
                continue
            if not isinstance(y, dict):
                continue
            k = y.get("k")
            if k == "mem":
                if is_container(y.get("t")):
                    out.add((y.get("c"), y.get("f")))
                st.append(y.get("b"))
                continue
            if k == "ctor" and VALUE.match(y.get("t") or y.get("c") or ""):
                continue     # a container of its own: what it was copied from may change
            if k == "call":
                for g in self.targets(y.get("f"), y.get("v", False), y.get("ot") or y.get("c")) if y.get("f") else ():
                    out |= self.lazy(g, seen)
                st.append(y.get("o"))
                st.extend(y.get("a") or [])
                continue
            if k == "var":
                d = y.get("d")
                if d in loc and d not in done:
                    done.add(d)
                    t, init = loc[d]
                    if VALUE.match(t) and not t.rstrip().endswith("&"):
                        continue
                    st.append(init)
                continue
            st.extend(v for kk, v in y.items() if isinstance(v, (dict, list)))
        return out
