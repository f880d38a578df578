"""C09: removing something leaves no trace of it.

  walked     no loop changes the structure of a container the range it walks keeps looking at
  undone     every table that creating a thing makes grow shrinks, on every path, when the thing is removed
  refers     every reference to a removable thing is emptied by its removal, or the removal refuses, or takes the holder along
  gone       nothing is used any more after the network destroyed it
  slots      the list of the slots that are free keeps in step with the slots: what is emptied is listed, what is taken is not
  refuses    a removal that can leave something behind that still depends on the thing is refused before anything changes
"""
import re
from common import *
from rules import c04, c08, c16
import effects
from effects import nodes_of, GROW, SHRINK, is_container

IDENT = I + "Identifiable"
REF = re.compile(r"(?:stdcxx::Reference|std::reference_wrapper)<(?:const )?([\w:]+(?:<.*>)?)>")
DEBUG = False
ALIVE = ("powsybl::iidm::", "powsybl::math::")


def check(ctx):
    m = Model(ctx)
    check_walked(ctx, m)
    check_undone(ctx, m)
    check_refers(ctx, m)
    check_gone(ctx, m)
    check_refuses(ctx, m)
    check_slots(ctx)


# ---------------------------------------------------------------------------------------------------------- slots
GRAPH = "powsybl::math::UndirectedGraph<"


def within(a, b):
    """Does b happen whenever a does, their conditions being equal or fewer? (the condition of a loop aside)"""
    return {(canon(c), q) for c, q in b} <= {(canon(c), q) for c, q in a}


def check_slots(ctx):
    """A table of slots (vector of owned objects) beside the set of the numbers of its free slots."""
    p = ctx.p

    def pol(f, rec, obj, depth):
        return f.startswith(GRAPH) and mname(f) not in ("invalidateAdjacencyList", "getAdjacencyList") and rec.get("acc") != "public"
    for cid in sorted(p.classes):
        if not cid.startswith(GRAPH) or "::" in cid.rsplit(">", 1)[1]:
            continue
        fields = p.classes[cid]["fields"]
        slots = [x["n"] for x in fields if re.match(r"std::vector<std::unique_ptr<", x["t"])]
        free = [x["n"] for x in fields if re.match(r"std::(unordered_)?set<unsigned long", x["t"])]
        for f in sorted(p.funcs):
            r = p.funcs[f]
            if r.get("c") != cid or not r.get("body") or f.split("(")[0].endswith("<ctor>"):
                continue
            e = ctx.summary(f, pol, "c09s")
            evs = [ev for ev in e.events if ev.k in ("call", "store")]

            def on(ev, F, names):
                return ev.k == "call" and ev.d[1] in names and ev.d[3] is F
            for S in slots:
                F = N("fld", THIS, S)
                mine = [ev for ev in evs if on(ev, F, ("clear", "pop_back", "resize", "emplace_back", "push_back", "erase")) or ev.k == "store" and (ev.d[0] is F or ev.d[0].op == "at" and ev.d[0].a[0] is F)
                        or ev.k == "call" and ev.d[1] == "reset" and ev.d[3] is not None and ev.d[3].op == "at" and ev.d[3].a[0] is F]
                if not mine:
                    continue
                # the set that goes with the slots is the one that the class handles along with them
                G = partner(ctx, cid, S, free, pol)
                if G is None:
                    continue
                ctx.inst("slots", "%s.%s" % (short(f), S))
                G = N("fld", THIS, G)

                def need(ev, names, what, loop=False):
                    for x in evs:
                        if (on(x, G, names) or x.k == "store" and x.d[0] is G) and (within(ev.g, x.g) or loop and x.loops):
                            return
                    ctx.viol("slots", "%s.%s" % (short(f), S), ev.loc(), "%s %s but leaves %s as it was" % (short(f), what, G.a[1]))
                for ev in mine:
                    if on(ev, F, ("clear",)) or ev.k == "store" and ev.d[0] is F:
                        need(ev, ("clear", "swap"), "empties " + S)
                    elif on(ev, F, ("resize",)):
                        need(ev, ("insert", "emplace", "emplace_hint"), "makes empty slots in " + S, loop=True)
                    elif on(ev, F, ("pop_back",)) and ev.loops:
                        need(ev, ("erase",), "takes several slots off " + S)
                    elif ev.k == "store" and ev.d[1].op == "null" or ev.k == "call" and ev.d[1] == "reset" and not ev.d[4]:
                        need(ev, ("insert", "emplace", "emplace_hint"), "empties a slot of " + S)
                    elif ev.k == "store" or ev.k == "call" and ev.d[1] == "reset":
                        # a slot is filled: one of the free ones, or one just made
                        if not any(on(x, F, ("resize",)) and within(ev.g, x.g) for x in evs):
                            need(ev, ("erase",), "fills a slot of " + S)
    ctx.need("slots", 8)


def partner(ctx, cid, S, free, pol):
    """The set of free numbers that some function of the class reads to choose the slot of S to fill."""
    p = ctx.p
    F = N("fld", THIS, S)
    for f in sorted(p.funcs):
        if strip_tpl(p.funcs[f].get("c") or "") != strip_tpl(cid) or not p.funcs[f].get("body"):
            continue
        for ev in ctx.summary(f, pol, "c09s").events:
            at = ev.d[0] if ev.k == "store" else ev.d[3] if ev.k == "call" and ev.d[1] == "reset" else None
            if at is not None and at.op == "at" and at.a[0] is F:
                for g in free:
                    if N("fld", THIS, g) in subnodes(at.a[1]):
                        return g
    return None


# ---------------------------------------------------------------------------------------------------------- model
class Model:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        p = self.p
        self.eff = effects.Effects(p)
        self.eff.close()
        self.caches = set(c08.find_caches(ctx))
        self.memo = {}
        self.levels = [c for c in p.classes if I + "VoltageLevel" in p.bases(c) and c != I + "VoltageLevel"]
        self.owned = {}
        self.names = [c for c in p.classes if c.startswith("powsybl::")]

    # ---- effects that happen on every path that returns
    def null(self, x, nulls):
        """Is the value an empty reference, pointer or optional?"""
        if not isinstance(x, dict):
            return False
        k = x.get("k")
        if k == "var":
            return x.get("d") in nulls
        if k in ("zero", "null", "nullptr"):
            return True
        if k == "call":
            n = x.get("n")
            if n in ("ref", "cref") and not x.get("a"):
                return True
            if n in ("move", "forward") and len(x.get("a") or []) == 1:
                return self.null(x["a"][0], nulls)
            return False
        if k == "ctor":
            a = x.get("a") or []
            return not a or (len(a) == 1 and self.null(a[0], nulls))
        if k in ("cast", "paren", "tmp"):
            return self.null(x.get("a") or x.get("e"), nulls)
        if k == "list":
            return not x.get("a")
        return False

    def must(self, f, nulls=frozenset(), without=frozenset(), stack=()):
        """(class, field, kind) changed on every path of f that returns; None: f never returns."""
        key = (f, nulls, without)
        if key in self.memo:
            return self.memo[key]
        if f in stack or len(stack) > 25:
            return frozenset()
        r = self.p.funcs.get(f)
        if not r or r.get("body") is None:
            return frozenset()
        w = MustWalk(self, f, nulls, without, stack + (f,))
        fall = w.stmt(r["body"], frozenset())
        ends = w.exits + ([fall] if fall is not None else [])
        out = frozenset.intersection(*ends) if ends else None
        if w.weak:
            out = frozenset.union(out or frozenset(), *w.weak)
        for i in r.get("inits") or []:
            if out is not None:
                out |= w.expr(i.get("e"), frozenset())
        self.memo[key] = out
        return out

    # ---- what an object owns
    def parts(self, cid):
        """Classes of the objects that die with an object of the class."""
        if cid in self.owned:
            return self.owned[cid]
        p = self.p
        seen, todo = set(), [(cid, False)]
        while todo:
            c, sub = todo.pop()
            if c in seen or c not in p.classes:
                continue
            seen.add(c)
            todo += [(b, False) for b in p.bases(c)]
            if sub:
                todo += [(d, True) for d in p.subclasses(c)]
            for fl in p.classes[c]["fields"]:
                t = REF.sub("", fl["t"])
                if fl.get("static") or t.rstrip().endswith(("&", "*")) or "std::function" in t:
                    continue
                for k in self.names:
                    if k in t and re.search(r"(?<![\w:])" + re.escape(k) + r"(?![\w:])(?! ?[&*])", t):
                        if k in p.classes and IDENT not in p.bases(k):
                            todo.append((k, True))
        self.owned[cid] = seen
        return seen

    def override(self, cid, f):
        return self.p.find_override(cid, f) or f


def bare(t):
    return re.sub(r"\bconst\b|[&*]", "", t or "").strip()


def destroys(fid, a):
    """Does the call end the life of its argument?"""
    return fid in (I + "NetworkIndex::remove(powsybl::iidm::Identifiable &)", I + "Network::remove(powsybl::iidm::Identifiable &)") and len(a) == 1


class MustWalk:
    def __init__(self, m, f, nulls, without, stack):
        self.m, self.f, self.nulls, self.without, self.stack = m, f, nulls, without, stack
        self.exits, self.weak = [], []
        self.loops = []

    def stmt(self, s, acc):
        """acc: what certainly happened so far; None once the path does not fall through."""
        if s is None:
            return acc
        if isinstance(s, list):
            for x in s:
                if acc is None:
                    return None
                acc = self.stmt(x, acc)
            return acc
        k = s.get("k")
        if k == "block":
            return self.stmt(s.get("b"), acc)
        if k == "if":
            acc = self.stmt(s.get("init"), acc) if s.get("init") else acc
            acc = self.expr(s.get("c"), acc)
            if acc is None:
                return None
            n = len(self.exits)
            a = self.stmt(s.get("t"), acc)
            b = self.stmt(s.get("e"), acc) if s.get("e") is not None else acc
            if self.presence(s.get("c")) and (a is None or b is None):
                self.weak += self.exits[n:]     # nothing there, nothing to remove: what either way does counts
                del self.exits[n:]
            if a is None:
                return b
            if b is None:
                return a
            if self.presence(s.get("c")):
                return a | b
            if self.selects(s.get("c")):
                return acc | {(c, n, "~" if k in "-~" else k) for c, n, k in (a | b) - acc}
            return a & b
        if k in ("for", "while", "do", "rfor"):
            for part in ("i", "init", "c", "r"):
                if isinstance(s.get(part), (dict, list)):
                    acc = self.stmt(s[part], acc)
            n = len(self.exits)
            v = s.get("v")
            self.loops.append(v.get("d") if k == "rfor" and isinstance(v, dict) and number(v.get("t")) else None)
            body = self.stmt(s.get("b"), acc)
            self.loops.pop()
            # nothing to walk is nothing to remove: what the body does counts
            out = acc
            if body is not None:
                out = body
            else:
                out = frozenset.union(acc, *self.exits[n:])
            if isinstance(s.get("inc"), (dict, list)):
                self.stmt(s["inc"], out)
            return out
        if k == "ret":
            acc = self.expr(s.get("e"), acc)
            if acc is not None:
                self.exits.append(acc)
            return None
        if k in ("throw",):
            return None
        if k in ("break", "continue"):
            return acc
        if k == "try":
            return self.stmt(s.get("b"), acc)
        if k == "switch":
            acc = self.expr(s.get("c"), acc)
            outs = []
            for c in (s.get("cases") or []):
                o = self.stmt(c.get("b"), acc)
                if o is not None:
                    outs.append(o)
            return frozenset.intersection(*outs) if outs else acc
        if k == "decl":
            for v in s.get("v") or []:
                acc = self.expr(v.get("init"), acc)
                if acc is None:
                    return None
                if (v.get("t") or "").startswith("const ") and self.m.null(v.get("init"), self.nulls):
                    self.nulls = self.nulls | {v["d"]}
            return acc
        if k == "expr":
            return self.expr(s.get("e"), acc)
        return self.expr(s, acc)

    def expr(self, x, acc):
        if acc is None:
            return None
        if isinstance(x, list):
            for y in x:
                acc = self.expr(y, acc)
                if acc is None:
                    return None
            return acc
        if not isinstance(x, dict):
            return acc
        k = x.get("k")
        if k == "throw":
            return None
        if k == "bin" and x.get("o") in ("&&", "||"):
            return self.expr(x.get("a"), acc)
        if k in ("cond", "ite"):
            acc = self.expr(x.get("c"), acc)
            if acc is None:
                return None
            outs = [o for o in (self.expr(x.get("t"), acc), self.expr(x.get("e"), acc)) if o is not None]
            outs = outs or [self.expr(v, acc) for kk, v in x.items() if kk in ("a", "b")]
            outs = [o for o in outs if o is not None]
            return frozenset.intersection(*outs) if outs else None
        if k in ("lam", "lambda"):
            b = x.get("b") if x.get("b") is not None else x.get("body")
            w = MustWalk(self.m, self.f, self.nulls, self.without, self.stack)
            fall = w.stmt(b, frozenset())
            ends = w.exits + ([fall] if fall is not None else [])
            return acc | (frozenset.intersection(*ends) if ends else frozenset())
        if k == "bin" and x.get("o") == "=":
            acc = self.expr(x.get("a"), self.expr(x.get("b"), acc))
            F = self.m.eff.place(self.f, x.get("a"))
            return acc | {F + (("-" if self.m.null(x.get("b"), self.nulls) else "="),)} if F and acc is not None else acc
        if k in ("call", "ctor"):
            for part in ("o", "a"):
                acc = self.expr(x.get(part), acc)
                if acc is None:
                    return None
            e = self.called(x)
            return None if e is None else acc | e
        for kk, v in x.items():
            if kk in ("t", "ot", "rt", "st"):
                continue
            if isinstance(v, (dict, list)):
                acc = self.expr(v, acc)
                if acc is None:
                    return None
        return acc

    def called(self, x):
        m, p = self.m, self.m.p
        fid, n, o, a = x.get("f"), x.get("n"), x.get("o"), x.get("a") or []
        out = frozenset()
        if destroys(fid, a):
            out |= {("destroys", self.static_type(a[0]), "-")}
        if o is not None and x.get("k") == "call":
            std = (fid or "").startswith(("std::", "boost::", "stdcxx::"))
            F = m.eff.place(self.f, o) if std else None
            if F and n in GROW | SHRINK:
                if n in GROW:
                    out |= {F + ("+",)}
                if n in SHRINK and not (n == "reset" and a and not m.null(a[0], self.nulls)):
                    out |= {F + ("-",)}
            elif F and n == "operator=":
                out |= {F + ("-" if a and m.null(a[-1], self.nulls) else "=",)}
        if not fid:
            return out
        ts = m.eff.targets(fid, x.get("v", False), x.get("ot") or x.get("c"))
        ts = {t for t in ts if (p.funcs.get(t) or {}).get("body") is not None and p.funcs[t].get("c") not in self.without}
        if not ts:
            return out
        res = []
        for t in ts:
            ps = p.funcs[t].get("p") or []
            nulls = frozenset(q["d"] for q, y in zip(ps, a) if m.null(y, self.nulls))
            res.append(m.must(t, nulls, self.without, self.stack))
        res = [r for r in res if r is not None]
        if not res:
            return None
        return out | frozenset.intersection(*res)

    def selects(self, c):
        """Does the condition pick the elements of the surrounding walk?"""
        return any(y.get("k") == "var" and y.get("d") in self.loops for y in nodes_of(c))      # only walks over positions are listed

    def static_type(self, x):
        while isinstance(x, dict) and x.get("k") in ("un", "cast", "paren") and isinstance(x.get("a"), dict):
            if x.get("k") == "un" and x.get("o") == "*" and x["a"].get("k") == "this":
                return self.m.p.funcs[self.f].get("c")
            if x.get("k") == "cast" and bare(x.get("st")) in self.m.p.classes:
                return bare(x["st"])
            x = x["a"]
        if isinstance(x, dict) and x.get("k") == "this":
            return self.m.p.funcs[self.f].get("c")
        return bare((x or {}).get("t"))

    def presence(self, c, found=False):
        """Does the condition only ask whether there is something (an entry found, a reference that is set, the very object)?"""
        if not isinstance(c, dict):
            return False
        k = c.get("k")
        if k in ("cast", "paren"):
            return self.presence(c.get("a") or c.get("e"), found)
        if k == "bin" and c.get("o") in ("&&", "||"):
            return self.presence(c.get("a"), found) and self.presence(c.get("b"), True)
        if k == "un" and c.get("o") == "!":
            return self.presence(c.get("a"), found)
        if k in ("call", "bin"):
            n = c.get("n") or ""
            if n in ("empty", "operator bool"):
                return True
            if n == "areSame":      # the entry found is the object's own
                return found
            if n in ("operator!=", "operator==") or c.get("o") in ("!=", "==") and k == "bin":
                for y in [c.get("o")] + list(c.get("a") or []) if k == "call" else [c.get("a"), c.get("b")]:
                    if isinstance(y, dict):
                        z = y
                        while z.get("k") in ("cast", "ctor") and isinstance(z.get("a"), (dict, list)):
                            z = z["a"] if isinstance(z["a"], dict) else (z["a"][0] if z["a"] else {})
                        if z.get("n") in ("end", "cend") or z.get("k") in ("null", "nullptr"):
                            return True
        return False


# ---------------------------------------------------------------------------------------------------------- walked
def check_walked(ctx, m):
    p = ctx.p
    for f, r in sorted(p.funcs.items()):
        if r.get("body") is None or "/test/" in r["file"] or not r["file"].startswith(("src", "include", "ext")):
            continue
        for y in nodes_of(r["body"]):
            if y.get("k") != "rfor":
                continue
            R = m.eff.ranged(f, y["r"]) - m.caches
            if not R:
                continue
            ctx.inst("walked", "%s:%s" % (short(f), y.get("l")))
            v = y.get("v") or {}
            if number(v.get("t")):
                continue      # the range counts positions: it holds no place inside the container
            other = copied(m, f, y)
            for (c, fld, kind), l, n in sorted(m.eff.of(f, y["b"]), key=str):
                if (c, fld) in R and kind in ("+", "-") and not other:
                    ctx.viol("walked", "%s@%s" % (short(f), fld), "%s:%s" % (r["file"], y.get("l")),
                             "the loop walks a range that keeps looking at %s::%s while %s (line %s) changes it: the walk goes on from a place that no longer exists or skips elements" % (short(c), fld, n, l))
                    break
    ctx.need("walked", 60)


def number(t):
    return bool(re.match(r"^(const )?(unsigned |signed )?(long|int|short|char|double|float|bool|size_t)( long)?( int)?( ?&)?$", (t or "").strip()))


def copied(m, f, y):
    """The loop of a copy or move constructor walks the other object."""
    r = m.p.funcs[f]
    return bool(r.get("mv")) or "<ctor>" in f and any(x.get("k") == "mem" and x.get("b", {}).get("k") == "var" for x in nodes_of(y["r"]))


# ---------------------------------------------------------------------------------------------------------- undone
def concrete(p, cid):
    out = []
    for c in [cid] + sorted(p.subclasses(cid)):
        if c in p.classes and c not in out and not p.classes[c].get("abstract"):
            out.append(c)
    return out


def result(p, f):
    t = re.sub(r"\bconst\b|[&*]", "", p.funcs[f].get("rt") or "").strip()
    return t if t in p.classes else None


def grown(m, f, prod, without):
    """Tables that outlive the product and that creating it makes grow."""
    mine = m.parts(prod)
    out = set()
    for c, fld, kind in m.eff.total.get(f, ()):
        if kind != "+" or (c, fld) in m.caches or c in mine or not c.startswith(ALIVE):
            continue
        out.add((c, fld))
    return out


def removers(p, cid):
    """The functions that remove an object of the class, as the object offers it."""
    out = []
    for b in [cid] + list(p.bases(cid)):
        for mm in p.classes.get(b, {}).get("methods", []):
            f = mm["f"]
            if mname(f) == "remove" and not (p.funcs.get(f) or {}).get("p"):
                g = p.find_override(cid, f) or f
                if g in p.funcs and p.funcs[g].get("body") is not None and g not in out:
                    out.append(g)
    return out


def check_undone(ctx, m):
    p = ctx.p
    done = set()
    for a, f in c04.adders(ctx):
        t = result(p, f)
        if not t or c04.c03.is_adder(p, t):
            continue
        for c in concrete(p, t):
            for rm in removers(p, c):
                if (f, c, rm) in done:
                    continue
                done.add((f, c, rm))
                compare(ctx, m, f, c, rm, short(c))
    # what a view or an owner offers to create and to remove
    for cid in sorted(p.classes):
        if not cid.startswith(I):
            continue
        ms = [mm["f"] for mm in p.classes[cid]["methods"]]
        ms += [f for f in p.funcs if f not in ms and p.funcs[f].get("c") == cid]
        rms = [g for g in ms if re.match(r"remove(All)?[A-Z]", strip_tpl(mname(g))) and (p.funcs.get(g) or {}).get("body") is not None]
        if not rms:
            continue
        for g in ms:
            n = mname(g)
            if (p.funcs.get(g) or {}).get("body") is None:
                continue
            if n.startswith("new"):
                ad = result(p, g)
                what = {mname(h)[3:] for h in ms if mname(h).startswith("new") and result(p, h) == ad}
                makes = [x for b in ([ad] if ad else []) for x in creates(p, b)]
            elif n.startswith("add"):
                what, makes = {n[3:]}, [g]
            else:
                continue
            for rm in rms:
                w = re.sub(r"^remove(All)?", "", strip_tpl(mname(rm)))
                if w in what or singular(w) in what:
                    for f in makes:
                        if (f, cid, rm) not in done:
                            done.add((f, cid, rm))
                            compare(ctx, m, f, None, rm, "%s::%s" % (short(cid), mname(rm)), cid)
    ctx.need("undone", 30)


def singular(w):
    return w[:-2] if w.endswith(("ses", "ches")) else w[:-1] if w.endswith("s") else w


def creates(p, adder):
    for b in [adder] + list(p.bases(adder)):
        for mm in p.classes.get(b, {}).get("methods", []):
            if mname(mm["f"]) == "add" and (p.funcs.get(mm["f"]) or {}).get("body") is not None:
                yield mm["f"]


def compare(ctx, m, f, prod, rm, what, holder=None):
    p = ctx.p
    free = {(c, fld) for c, fld, k in m.eff.total.get(rm, ()) if k == "+"}
    may = {(c, fld) for c, fld, k in m.eff.total.get(rm, ()) if k == "-"}
    g = {(c, fld) for c, fld, k in m.eff.total.get(f, ()) if k == "+" and c.startswith(ALIVE) and (c, fld) not in m.caches and not p.classes.get(c, {}).get("tls")}
    if holder:
        g = {x for x in g if I + "Extension" not in p.bases(x[0])}      # the elements of the table die with their entry
    if prod:
        g = {x for x in g if x[0] not in m.parts(prod)}
    for lv in m.levels:
        if holder and level_of(p, holder, m.levels) not in (None, lv) or prod in m.levels and prod != lv:
            continue
        without = frozenset(set(m.levels) - {lv})
        gl = {x for x in g if x in grown_at(m, f, without)}
        mu = m.must(rm, frozenset(), without)
        if DEBUG: print(what, short(lv), sorted(x[1] for x in gl - free))
        ctx.inst("undone", "%s@%s" % (what, short(lv)))
        if mu is None:
            continue
        sh = {(c, fld) for c, fld, k in mu if k in "-~"}
        for c, fld in sorted(gl - sh - free):
            r = p.funcs[rm]
            ctx.viol("undone", "%s@%s" % (what, fld), "%s:%s" % (r["file"], r["line"]),
                     "%s adds to %s::%s in a %s, and %s %s: what was added stays there" % (
                         mname(f) if holder else short(f), short(c), fld, short(lv), short(rm),
                         "does not take it away on every path" if (c, fld) in may else "never takes anything away from it"))


def level_of(p, holder, levels):
    """The kind of voltage level a view belongs to."""
    if holder in levels:
        return holder
    for b in [holder] + list(p.bases(holder)):
        for fl in p.classes.get(b, {}).get("fields", []):
            for lv in levels:
                if re.search(re.escape(lv) + r"(?![\w:])", fl["t"]):
                    return lv
    return None


def grown_at(m, f, without):
    """Tables f can make grow in a network of one kind of voltage levels."""
    key = ("grow", f, without)
    if key not in m.memo:
        seen, todo, out = set(), [f], set()
        while todo:
            g = todo.pop()
            if g in seen or (m.p.funcs.get(g) or {}).get("c") in without:
                continue
            seen.add(g)
            out |= {(c, fld) for c, fld, k in m.eff.direct.get(g, ()) if k == "+"}
            todo += m.eff.succ.get(g, ())
        m.memo[key] = out
    return m.memo[key]


def holders(ctx, m, roots):
    """Reference fields of what lives in a network: (holder class, field name, type, target class, is it a table)."""
    p = ctx.p
    alive = c16.owned_classes(ctx) | {I + "NetworkIndex"}
    alive |= {c for c in p.classes if c.startswith("powsybl::math::")}
    cached = set()
    todo = [(c, fl) for c, fl in m.caches]
    while todo:
        c, fn = todo.pop()
        for fl in p.classes.get(c, {}).get("fields", []):
            if fl["n"] != fn:
                continue
            t = REF.sub("", fl["t"])
            for k in m.names:
                if k in t and k not in cached and re.search(r"(?<![\w:])" + re.escape(k) + r"(?![\w:])(?! ?[&*])", t):
                    cached.add(k)
                    todo += [(k, f2["n"]) for f2 in p.classes[k]["fields"]]
    for c in sorted(alive - (cached - set(roots))):
        if c not in p.classes or c.startswith(("stdcxx::", "std::")) or strip_tpl(c).endswith(("Adder", "Builder")):
            continue
        for fl in p.classes[c]["fields"]:
            if fl.get("static") or (c, fl["n"]) in m.caches:
                continue
            ts = REF.findall(fl["t"])
            mm = re.match(r"^(?:const )?(powsybl::[\w:]+(?:<.*>)?) ?[&*]$", fl["t"])
            if mm:
                ts = [mm.group(1)]
            for t in sorted(set(ts)):
                if t in p.classes:
                    yield c, fl["n"], fl["t"], t, is_container(fl["t"])
    # nested classes of templates, known by their members only
    more = set()
    for f, r in p.funcs.items():
        if (r.get("c") or "").startswith("powsybl::math::"):
            for y in nodes_of([r.get("body"), r.get("inits")]):
                if y.get("k") == "mem" and (y.get("c") or "").startswith("powsybl::math::") and y["c"] not in p.classes:
                    for t in REF.findall(y.get("t") or ""):
                        if t in p.classes:
                            more.add((y["c"], y["f"], y["t"], t, False))
    yield from sorted(more)


def family(p, c):
    return {c} | set(p.subclasses(c))


def removal_roots(ctx, m):
    """class -> functions that take an object of exactly that kind out of the network."""
    p = ctx.p
    out = {}
    for c in sorted(p.classes):
        if IDENT in p.bases(c) and not p.classes[c].get("abstract") and c != I + "Network":
            for rm in removers(p, c):
                out.setdefault(c, []).append(rm)
    own = {rm for rs in out.values() for rm in rs}
    for f, r in sorted(p.funcs.items()):
        if r.get("body") is None or f in own or destroys(f, [1]):
            continue
        for y in nodes_of(r["body"]):
            if y.get("k") == "call" and destroys(y.get("f"), y.get("a") or []):
                t = MustWalk(m, f, frozenset(), frozenset(), ()).static_type(y["a"][0])
                if t in p.classes and t not in out or f in out.get(t, ()):
                    out.setdefault(t, [])
                    if f not in out[t]:
                        out[t].append(f)
                elif t in out and not removers(p, t):
                    out[t].append(f)
    return out


def check_refers(ctx, m):
    p = ctx.p
    roots = removal_roots(ctx, m)
    for h, fld, ft, t, table in holders(ctx, m, roots):
        fam = family(p, t)
        if any(h in m.parts(c) for c in fam):
            continue                                    # part of what it refers to: dies with it
        if table and t in m.parts(h):
            continue                                    # an index of what it owns itself: see undone
        targets = sorted(c for c in roots if c in fam)
        if not targets:                                 # a part of something removable
            targets = sorted(c for c in roots if m.parts(c) & (fam - set(p.bases(c))) & leafs(p, fam))
        if not targets:
            continue
        ctx.inst("refers", "%s::%s" % (short(h), fld))
        bad = []
        for c in targets:
            for rm in roots[c]:
                for lv in m.levels:
                    if level_of(p, p.funcs[rm].get("c"), m.levels) not in (None, lv) or c in m.levels and c != lv:
                        continue
                    hl = topology(p, m, h, fam)
                    if hl not in (None, lv):
                        continue
                    if not released(ctx, m, h, fld, c, rm, frozenset(set(m.levels) - {lv})):
                        bad.append((c, rm))
        if bad:
            c, rm = bad[0]
            r = p.funcs[rm]
            ctx.viol("refers", "%s::%s" % (short(h), fld), "%s:%s" % (r["file"], r["line"]),
                     "%s keeps a reference to a %s; removing it (%s, and %d more) neither clears the reference nor is refused, and the %s stays: it then refers to a destroyed object" % (
                         short(h) + "::" + fld, short(t), short(rm), len({x for x, _ in bad}) - 1, short(h)))
    ctx.need("refers", 12)


def leafs(p, fam):
    return {c for c in fam if c in p.classes}


def topology(p, m, h, fam):
    """The kind of voltage level in which such a reference can exist."""
    h = h if h in p.classes else h.rsplit("::", 1)[0]
    for x in [h] + sorted(fam):
        ls = [lv for lv in m.levels if speaks_of(p, m, lv, x)]
        if len(ls) == 1 and (x == h or len(fam) == 1):
            return ls[0]
    return None


def speaks_of(p, m, lv, x):
    key = ("speaks", lv)
    if key not in m.memo:
        out = set()
        for f, r in p.funcs.items():
            if r.get("c") == lv:
                for y in nodes_of([r.get("body"), r.get("p")]):
                    for kk in ("t", "st", "c"):
                        if isinstance(y.get(kk), str):
                            out.add(y[kk])
        m.memo[key] = " ".join(out | {fl["t"] for fl in p.classes[lv]["fields"]})
    return bool(re.search(r"(?<![\w:])" + re.escape(x) + r"(?![\w:])", m.memo[key]))


def released(ctx, m, h, fld, c, rm, without):
    p = ctx.p
    mu = m.must(rm, frozenset(), without)
    if mu is None:
        return True
    if (h, fld, "-") in mu:
        # every reference the removed object has to holders of that kind must be followed
        own = [fl for b in [c] + list(p.bases(c)) for fl in p.classes.get(b, {}).get("fields", []) if any(x in family(p, h) for x in REF.findall(fl["t"])) and not is_container(fl["t"])]
        return len(own) < 2 or all(followed(m, rm, h, fld, fl["n"]) for fl in own)
    gone = {x[1] for x in mu if x[0] == "destroys"}
    for g in gone:
        for d in ([c] if g in p.bases(c) or g == c else sorted(family(p, g))):
            if d != c and (h == d or h in m.parts(d)):
                return True
    for x in mu:
        if x[2] == "-" and x[0] in p.classes:
            for fl in p.classes[x[0]]["fields"]:
                ft = REF.sub("", fl["t"])
                hh = re.sub(r"UndirectedGraph<[^<>]*>", "UndirectedGraph", h)
                ft = re.sub(r"UndirectedGraph<[^<>]*>", "UndirectedGraph", ft)
                if fl["n"] == x[1] and re.search(r"(unique_ptr<|vector<|list<|deque<|, )(const )?" + re.escape(hh) + r"(?![\w:])", ft):
                    return True
    return refused(m, rm, h)


def followed(m, rm, h, fld, own):
    """Does the removal clear h::fld through the field `own` of the removed object?"""
    nulls = frozenset(d for d, (t, i) in m.eff.locals_of(rm).items() if t.startswith("const ") and m.null(i, frozenset()))
    for y in nodes_of(m.p.funcs[rm]["body"]):
        if y.get("k") == "call" and y.get("f"):
            e = MustWalk(m, rm, nulls, frozenset(), (rm,)).called(y)
            if e and (h, fld, "-") in e:
                for z in nodes_of(m_inits(m, rm, [y.get("o"), y.get("a")])):
                    if z.get("k") == "mem" and z.get("f") == own:
                        return True
                    g = m.p.funcs.get(z.get("f")) if z.get("k") == "call" else None
                    if g and g.get("body") is not None and not g.get("p") and any(q.get("k") == "mem" and q.get("f") == own for q in nodes_of(g["body"])):
                        return True
    return False


def m_inits(m, f, x):
    """The expression with the initialisers of the locals it uses."""
    loc = m.eff.locals_of(f)
    out, seen, todo = [x], set(), [x]
    while todo:
        for y in nodes_of(todo.pop()):
            if y.get("k") == "var" and y.get("d") in loc and y["d"] not in seen:
                seen.add(y["d"])
                out.append(loc[y["d"]][1])
                todo.append(loc[y["d"]][1])
    return out


def refused(m, rm, h):
    """A throw that depends on a reference of the removed object to the holder, before anything was changed."""
    p = m.p
    seen, todo = set(), [rm]
    while todo:
        f = todo.pop()
        r = p.funcs.get(f)
        if f in seen or not r or r.get("body") is None:
            continue
        seen.add(f)
        for y in nodes_of(r["body"]):
            if y.get("k") == "if" and any(z.get("k") == "mem" and any(x in family(p, h) for x in REF.findall(z.get("t") or "")) for z in nodes_of(y.get("c"))):
                w = MustWalk(m, f, frozenset(), frozenset(), (f,))
                if w.stmt(y.get("t"), frozenset()) is None and not w.exits + w.weak and w.presence(y.get("c")):
                    return True
            if y.get("k") == "call" and len(seen) < 8 and "check" in (y.get("n") or "").lower():
                todo.append(y.get("f"))
    return False


# ---------------------------------------------------------------------------------------------------------- gone
def ends_itself(m, f, stack=()):
    """Does the function end the life of the object it is called on?"""
    key = ("ends", f)
    if key in m.memo:
        return m.memo[key]
    if f in stack:
        return False
    r = m.p.funcs.get(f)
    out = False
    for y in nodes_of((r or {}).get("body")):
        if y.get("k") == "call":
            a = y.get("a") or []
            if destroys(y.get("f"), a) and is_this(a[0]):
                out = True
            elif y.get("o") is not None and is_this(y["o"]) and y.get("f") and y["f"] in m.p.funcs and ends_itself(m, y["f"], stack + (f,)):
                out = True
    m.memo[key] = out
    return out


def is_this(x):
    while isinstance(x, dict) and x.get("k") in ("un", "cast", "paren") and isinstance(x.get("a"), dict):
        x = x["a"]
    return isinstance(x, dict) and x.get("k") == "this"


def root_var(m, f, x):
    """The local or parameter an object expression starts from, through what only gives access to it."""
    while isinstance(x, dict):
        k = x.get("k")
        if k == "var":
            return x.get("d")
        if k == "call" and x.get("o") is not None and x.get("n") in ("get", "operator*", "operator->"):
            x = x["o"]
        elif k in ("un", "cast", "paren") and isinstance(x.get("a"), dict):
            x = x["a"]
        else:
            return None
    return None


def check_gone(ctx, m):
    p = ctx.p
    for f, r in sorted(p.funcs.items()):
        if r.get("body") is None or "/test/" in r["file"] or not r["file"].startswith(("src", "include", "ext")):
            continue
        for blk in nodes_of(r["body"]):
            if blk.get("k") != "block":
                continue
            ss = blk.get("b") or []
            for i, st in enumerate(ss):
                if not isinstance(st, dict) or st.get("k") != "expr":
                    continue
                for y in calls_of(st):
                    a = y.get("a") or []
                    this = var = None
                    if destroys(y.get("f"), a):
                        this, var = is_this(a[0]), root_var(m, f, a[0])
                    elif y.get("o") is not None and y.get("f") in p.funcs and ends_any(m, y):
                        this, var = is_this(y["o"]), root_var(m, f, y["o"])
                    else:
                        continue
                    ctx.inst("gone", "%s:%s" % (short(f), y.get("l")))
                    rest = ss[i + 1:] + after(r["body"], blk)
                    names = {q["d"] for q in r.get("p") or [] if re.match(r"^const std::(basic_string|string)\b.*&$", q["t"])} if not this else set()
                    use = used(rest, this, var, names)
                    if use is not None:
                        ctx.viol("gone", "%s" % short(f), "%s:%s" % (r["file"], use),
                                 "%s is used after line %s, where the network destroys %s" % (
                                     "the object itself" if this else "what was removed, or the identifier it was asked by (which may be its own),", y.get("l"), "it" if this else "the object"))
    ctx.need("gone", 10)


def calls_of(x):
    """Calls of a statement, lambdas left out."""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if y.get("k") in ("lam", "lambda"):
                continue
            if y.get("k") == "call":
                yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def ends_any(m, y):
    ts = m.eff.targets(y["f"], y.get("v", False), y.get("ot") or y.get("c"))
    return any(ends_itself(m, t) for t in ts)


def after(body, blk):
    """Statements that follow the block in the blocks around it (a loop body is followed by what follows the loop)."""
    out = []

    def find(x):
        if x is blk:
            return True
        if isinstance(x, dict):
            if x.get("k") == "block":
                for i, s in enumerate(x.get("b") or []):
                    if find(s):
                        out.extend(x["b"][i + 1:])
                        return True
                return False
            return any(find(v) for v in x.values() if isinstance(v, (dict, list)))
        if isinstance(x, list):
            return any(find(v) for v in x)
        return False
    find(body)
    return out


def used(rest, this, var, names):
    for s in rest:
        for z in nodes_of(s):
            if this and z.get("k") == "this":
                return z.get("l") or s.get("l")
            if z.get("k") == "var" and (z.get("d") == var and var is not None or z.get("d") in names):
                return z.get("l") or s.get("l")
    return None


# ---------------------------------------------------------------------------------------------------------- refuses
def reads(m, f, depth=0, seen=None):
    """Fields and constants a function looks at, through what it calls."""
    key = ("reads", f)
    if key in m.memo:
        return m.memo[key]
    seen = seen if seen is not None else set()
    out = set()
    r = m.p.funcs.get(f)
    if f in seen or depth > 5 or not r:
        return out
    seen.add(f)
    out = mentioned(m, r.get("body"), depth, seen)
    if depth == 0:
        m.memo[key] = out
    return out


def mentioned(m, x, depth=0, seen=None):
    seen = seen if seen is not None else set()
    out = set()
    for y in nodes_of(x):
        k = y.get("k")
        if k == "mem":
            out.add((y.get("c"), y.get("f")))
        elif k == "var" and str(y.get("d")) in m.p.globals:
            out.add(y["d"])
        elif k == "enum":
            out.add((y.get("t"), y.get("n") or y.get("v")))
        elif k == "call" and y.get("f"):
            for g in m.eff.targets(y["f"], y.get("v", False), y.get("ot") or y.get("c")):
                out |= reads(m, g, depth + 1, seen)
    return out


def early_throws(m, rm):
    """What the refusals of a removal that come before any change depend on: list of sets."""
    p = m.p
    out = []

    def walk(f, x, seen):
        """False once something has changed."""
        if isinstance(x, list):
            return all(walk(f, s, seen) for s in x)
        if not isinstance(x, dict):
            return True
        k = x.get("k")
        if k == "block":
            return walk(f, x.get("b"), seen)
        if k == "if":
            w = MustWalk(m, f, frozenset(), frozenset(), (f,))
            if w.stmt(x.get("t"), frozenset()) is None and not w.exits + w.weak:
                out.append(m_mention(m, f, x.get("c")))
                return walk(f, x.get("e"), seen)
            ok = True
            cond = m_mention(m, f, x.get("c"))
            n = len(out)
            ok = walk(f, x.get("t"), seen) and walk(f, x.get("e"), seen)
            for q in out[n:]:
                q |= cond
            return ok
        if k in ("for", "while", "rfor", "do"):
            return walk(f, x.get("b"), seen)
        for y in calls_of(x):
            for g in m.eff.targets(y.get("f"), y.get("v", False), y.get("ot") or y.get("c")) if y.get("f") else ():
                r = p.funcs.get(g)
                if not r or r.get("body") is None or g in seen:
                    continue
                if any(e[2] in "+-=" and (e[0], e[1]) not in m.caches and e[0].startswith(ALIVE) for e in m.eff.total.get(g, ())):
                    if not r.get("const") and not g.rstrip().endswith("const") and r.get("c"):
                        return False
                if len(seen) < 40 and (not r.get("c") or (y.get("o") is not None and is_this(y["o"]))):
                    walk(g, r["body"], seen | {g})
        return True
    walk(rm, p.funcs[rm]["body"], {rm})
    return out


def m_mention(m, f, x):
    out = set()
    for y in m_inits(m, f, x):
        out |= mentioned(m, y)
    return out


def check_refuses(ctx, m):
    p = ctx.p
    roots = removal_roots(ctx, m)
    for c in sorted(roots):
        for b in [c] + list(p.bases(c)):
            for fl in p.classes.get(b, {}).get("fields", []):
                ts = [t for t in REF.findall(fl["t"]) if t in p.classes]
                if not ts or not ("vector<" in fl["t"] or "list<" in fl["t"] or "map<" in fl["t"]) or (b, fl["n"]) in m.caches:
                    continue
                if any(t in m.parts(c) for t in ts):
                    continue
                for rm in roots[c]:
                    ctx.inst("refuses", "%s::%s@%s" % (short(c), fl["n"], short(rm)))
                    mu = m.must(rm, frozenset(), frozenset()) or frozenset()
                    gone = {x[1] for x in mu if x[0] == "destroys"}
                    if any(g in family(p, t) or g in p.bases(t) for t in ts for g in gone if g != c):
                        continue
                    if any((b, fl["n"]) in q for g in [rm] for q in early_throws(m, g)):
                        continue
                    r = p.funcs[rm]
                    ctx.viol("refuses", "%s::%s@%s" % (short(c), fl["n"], short(rm)), "%s:%s" % (r["file"], r["line"]),
                             "%s removes a %s without refusing when %s is not empty: what it lists still depends on it" % (short(rm), short(c), fl["n"]))
    # what holds several places at once: removing one of the places must be refused
    level, station = I + "VoltageLevel", I + "HvdcConverterStation"
    many = {}
    for c in sorted(p.classes):
        if I + "Connectable" in p.bases(c) and not p.classes[c].get("abstract") and I + "Injection" not in p.bases(c):
            many[c] = kind_of(p, c)
    sets = [g for g, r in p.globals.items() if "ConnectableType" in (r.get("t") or "") and "set<" in (r.get("t") or "")]
    for g in sets:
        ctx.inst("refuses", "kinds@%s" % short(g))
        have = {y.get("n") or y.get("v") for y in nodes_of(p.globals[g].get("init")) if y.get("k") == "enum"}
        for c, k in many.items():
            if k is not None and have and k not in have:
                ctx.viol("refuses", "kinds@%s@%s" % (short(g), short(c)), "%s:%s" % (p.globals[g].get("file"), p.globals[g].get("line")),
                         "%s has several terminals but its kind %s is not among the kinds that keep a voltage level from being removed" % (short(c), k))
    for holder in (level, I + "Substation"):
        for rm in removers(p, holder):
            th = early_throws(m, rm)
            hvdc = lambda q: any(isinstance(x, tuple) and x[0] in (I + "HvdcLine", station) and x[1].startswith(("m_converterStation", "m_hvdcLine")) for x in q)
            for what, test in (("branches and transformers", lambda q: any(s in q for s in sets) or not hvdc(q) and any(x[1] == "m_terminals" for x in q if isinstance(x, tuple))),
                               ("HVDC lines", hvdc)):
                ctx.inst("refuses", "%s@%s" % (short(holder), what))
                if not any(test(q) for q in th):
                    r = p.funcs[rm]
                    ctx.viol("refuses", "%s@%s" % (short(holder), what), "%s:%s" % (r["file"], r["line"]),
                             "%s is not refused, before anything is changed, when %s still connect it to the rest of the network" % (short(rm), what))
    ctx.need("refuses", 6)


def kind_of(p, c):
    for b in [c] + list(p.bases(c)):
        for f, r in p.funcs.items():
            if r.get("c") == b and "<ctor>" in f:
                for i in r.get("inits") or []:
                    for y in nodes_of(i.get("e")):
                        if y.get("k") == "enum" and "ConnectableType" in (y.get("t") or ""):
                            return y.get("n") or y.get("v")
    return None
