"""C07: a refused creation, attachment, removal or cloning leaves the network as it was."""
import re

from common import *
import effects
from rules import c03, c04, c05, c08
from rules.c16 import nodes_of
from rules.c21 import sub, split, callname

NI = I + "NetworkIndex"
CHANGE = {"insert", "emplace", "emplace_back", "push_back", "insert_or_assign", "try_emplace", "erase", "clear", "pop_back", "resize", "swap", "reset", "assign", "operator="}
VERBS = re.compile(r"^(add|remove|clone|attach|detach|connect|disconnect|move|checkAndAdd|clean|setConnectable|create|replace|convert)")
QUIET = ("getMessageHeader", "toString", "getTypeDescription")
REFUSAL = re.compile(r"(Exception|Error)$")


class Model:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.p
        self.eff = effects.Effects(ctx.p)
        self.caches = {f for f in c08.find_caches(ctx)}
        self.throws = {}
        self.over = None

    def refuses(self, f, stack=()):
        """May the function refuse (throw, other than an assertion)?"""
        if f in self.throws:
            return self.throws[f]
        r = self.p.funcs.get(f)
        if r is None or r.get("body") is None or f in stack or len(stack) > 12:
            return False
        if r["n"] in QUIET or r["n"] == "invalidateCache" or sound(self.p, f) or f.startswith(("powsybl::logging", "powsybl::stdcxx")):
            return False
        out = False
        for y in nodes_of([r.get("body"), r.get("inits")]):
            if y.get("k") == "throw":
                t = [z.get("c") or "" for z in nodes_of(y) if z.get("k") == "ctor"]
                if t and not any("AssertionError" in x for x in t):
                    out = True
                    break
            if y.get("k") == "call" and y.get("f"):
                for g in self.targets(y):
                    if g != f and self.refuses(g, stack + (f,)):
                        out = True
                        break
            if out:
                break
        self.throws[f] = out
        return out

    def virtual(self, f):
        r = self.p.funcs.get(f)
        return r is None or r.get("body") is None or bool(self.overriders(f))

    def overriders(self, f):
        """The functions that may run instead of a virtual one."""
        if self.over is None:
            self.over = {}
            for g in self.p.funcs:
                for b in self.p.overrides_of(g):
                    if b != g:
                        self.over.setdefault(b, set()).add(g)
        return sorted(self.over.get(f, ()))

    def targets(self, y):
        g = y["f"]
        return [g] + (self.overriders(g) if y.get("v") else [])


def policy(f, rec, obj, depth):
    if "/test/" in rec["file"] or not f.startswith("powsybl::"):
        return False
    if f.startswith(("powsybl::logging", "powsybl::stdcxx::format", "powsybl::stdcxx::demangle", "powsybl::stdcxx::simpleClassName")):
        return False
    n = mname(f)
    if n in QUIET or n in ("checkAndAdd", "checkAndGetUniqueId", "invalidateCache") or REFUSAL.search(short(strip_tpl(rec.get("c") or ""))):
        return False
    return True


def ref_fields(p, cid):
    return {fl["n"] for b in [cid] + list(p.bases(cid)) for fl in p.classes.get(b, {}).get("fields", [])
            if fl["t"].rstrip().endswith(("&", "*")) or "Reference<" in fl["t"] or "reference_wrapper" in fl["t"]}


def shared(v, adder, refs):
    """Does the place belong to something that existed before the operation?"""
    x, n = v, 0
    while x is not None and n < 80:
        n += 1
        if x.op == "call":
            if callname(x) == "make_unique":
                return False
            if x.a[1] is not None:
                x = x.a[1]
                continue
            return callname(x) == "checkAndAdd"
        if x.op in ("obj", "new", "local", "static", "lv", "phi", "unk", "list", "pair", "str", "null"):
            return False
        if x.op == "ite":
            return shared(x.a[1], adder, refs) or shared(x.a[2], adder, refs)
        if x.op == "fld" and x.a[0] is THIS:
            return not adder or x.a[1] in refs
        if x.op in ("fld", "at", "elem", "found"):
            x = x.a[0]
            continue
        if x.op in ("cast", "un", "dyn"):
            x = x.a[-1]
            continue
        return x is THIS and not adder or x.op in ("param", "global")
    return False


# consistency checks: they say that the library itself went wrong, whatever was asked
SOUND = {"getNetwork": "every registered object reaches its network", I + "ConfiguredBus::removeTerminal": "an attached terminal is listed by its bus in every variant (C09)"}


def sound(p, f):
    if not isinstance(f, str):
        return False
    return mname(f) in SOUND or strip_tpl(f.split("(")[0]) in SOUND


class Trace:
    """The changes and the refusals of an operation, in order."""

    def __init__(self, m, f, cid, adder):
        self.m, self.f, self.adder, self.cid = m, f, adder, cid
        self.e = m.ctx.summary(f, policy, "c07", dyn=cid, maxdepth=9, maxevents=60000, cha=True)
        self.refs = ref_fields(m.p, cid)
        r = m.p.funcs[f]
        # an object given away is not part of the network yet
        self.given = {"$" + q["n"] for q in r["p"] if re.search(r"unique_ptr<.*&&$", q["t"]) or re.match(r"(const )?std::unique_ptr<[^&]*$", q["t"])}

    def cache(self, v):
        if str(root(v)) in self.given:
            return True
        if c03.is_cache(v):
            return True
        return any(x.op == "fld" and any(x.a[1] == fl for _, fl in self.m.caches) for x in subnodes(v))

    def changes(self):
        for ev in self.e.events:
            if ev.k == "store" and isinstance(ev.d[0], Node):
                l = ev.d[0]
                if l.op == "fld" and l.a[0] is THIS and self.adder:
                    continue
                if shared(l, self.adder, self.refs) and not self.cache(l):
                    yield ev, "changes %s" % tail(l)
            elif ev.k == "call" and ev.d[0].startswith(("powsybl::iidm::Network::checkAndAdd<", NI + "::checkAndAdd<")):
                yield ev, "registers the new object"
            elif ev.k == "call" and ev.d[0].startswith("powsybl::") and ev.d[1] in ("attach", "detach", "removeTopology") and self.m.virtual(ev.d[0]):
                if not (ev.d[1] == "attach" and len(ev.d[4]) == 2 and str(ev.d[4][1]) in ("True", "true")):
                    yield ev, "%ses the terminal" % ev.d[1] if ev.d[1] != "removeTopology" else "removes the topology"
            elif ev.k == "call" and ev.d[1] in CHANGE and ev.d[3] is not None and not ev.d[0].startswith("powsybl::"):
                if shared(ev.d[3], self.adder, self.refs) and not self.cache(ev.d[3]):
                    yield ev, "changes %s" % tail(ev.d[3])

    def refusals(self):
        for ev in self.e.events:
            if ev.k == "throw":
                if not c05.is_assertion(ev) and not (ev.stack and sound(self.m.p, ev.stack[-1])):
                    yield ev
            elif ev.k == "call" and ev.d[0].startswith("powsybl::") and ev.d[1] not in ("checkAndAdd", "checkAndGetUniqueId", "removeTopology"):
                if ev.d[1] in ("attach",) and self.m.virtual(ev.d[0]):
                    yield ev
                elif not self.m.virtual(ev.d[0]) and self.m.refuses(ev.d[0]):
                    yield ev

    def late(self):
        muts = sorted(self.changes(), key=lambda x: x[0].seq)
        for ev in self.refusals():
            for mu, what in muts:
                if mu is ev:
                    continue
                same = {l[2] for l in mu.loops} & {l[2] for l in ev.loops}
                if mu.seq >= ev.seq and not same:
                    continue
                if mu.seq < ev.seq and not self.clash(mu, ev, ()) or same and not self.clash(mu, ev, same):
                    if not self.settled(mu, ev, same):
                        yield mu, what, ev
                        break

    def clash(self, mu, ev, loops):
        """Their conditions exclude each other (in two turns of a loop, what depends on the turn says nothing)."""
        els = [str(l[1]) for l in mu.loops if l[2] in loops and l[1] is not None]
        def atoms(g):
            out, imps = {}, []
            for c, pol in g:
                for a, w in split(canon(c), bool(pol)):
                    if loops and turns(a, els):
                        continue
                    if a.op == "imp":
                        imps.append((a, w))
                    out.setdefault(str(a), set()).add(w)
            return out, imps
        if self.impossible(ev) or self.nothing(mu, ev):
            return True
        a, ia = atoms(mu.g)
        b, ib = atoms(ev.g)
        known = {k: w for k, w in list(a.items()) + list(b.items())}
        for im, w in ia + ib:
            if w and known.get(str(im.a[0])) == {bool(im.a[1])}:
                (a if (im, w) in ia else b).setdefault(str(im.a[2]), set()).add(bool(im.a[3]))
        return any(len(a.get(k, set()) | w) > 1 for k, w in b.items() if k in a)

    def impossible(self, ev):
        """The refusal contradicts what was tested before it, or what the types say."""
        known = {}
        for c, pol in ev.g:
            for a, w in split(canon(c), bool(pol)):
                k, w = comparison(a, w)
                known.setdefault(k, set()).add(w)
                if a.op == "isa" and not w and self.is_a(a):
                    return True
        if any(len(w) > 1 for w in known.values()):
            return True

        for c, pol in ev.g:
            alts = list(disjuncts(canon(c), bool(pol)))
            if len(alts) > 1 and all(known.get(comparison(a, w)[0]) == {not comparison(a, w)[1]} for a, w in alts):
                return True
        return False

    def nothing(self, mu, ev):
        """The refusal is the answer to an insertion or a removal that found nothing to do."""
        if mu.k != "call" or mu.d[1] not in ("emplace", "try_emplace", "insert", "erase"):
            return False

        def this(x):
            return x.op == "call" and x.a[0] == mu.d[0] and str(x.a[1]) == str(mu.d[3]) and str(x.a[2]) == str(mu.d[4])
        for c, pol in ev.g:
            for a, w in split(c, bool(pol)):
                x = a.a[-1] if a.op == "un" and a.a[0] == "bool" else a
                if x.op == "fld" and x.a[1] == "second" and this(x.a[0]) and not w and mu.d[1] != "erase":
                    return True
                if mu.d[1] != "erase":
                    continue
                if this(x) and not w:
                    return True
                if x.op == "op" and len(x.a) == 3 and x.a[0] in ("==", "!=", "<") and any(this(y) for y in x.a[1:]):
                    l, r = x.a[1:]
                    if x.a[0] in ("==", "!=") and w == (x.a[0] == "==") and "0" in (str(l), str(r)):
                        return True
                    if x.a[0] == "==" and not w and "1" in (str(l), str(r)) or x.a[0] == "<" and w and this(l) and str(r) == "1":
                        return True
        return False

    def is_a(self, a):
        x = a.a[1]
        if x.op == "fld" and x.a[0] is THIS:
            for b in [self.cid] + list(self.m.p.bases(self.cid)):
                for fl in self.m.p.classes.get(b, {}).get("fields", []):
                    if fl["n"] == x.a[1]:
                        t = re.sub(r"^const |[ &*]+$", "", fl["t"])
                        return t == a.a[0] or a.a[0] in self.m.p.bases(t)
        return False

    def settled(self, mu, ev, same):
        """Was the refusal ruled out before anything changed?"""
        if any(re.search(r"getAliases\(\)|m_aliases", str(l[1])) and any(x in str(l[1]) for x in self.given) for l in ev.loops):
            # an object has no alias before it is registered: only Identifiable::addAlias, which asks the index, gives one (C21)
            return True
        if ev.k == "call":
            if ev.d[1] == "attach":
                # attachable: tried before, on the same voltage level, with the same terminal
                for x in self.e.events:
                    if x.k == "call" and x.d[1] == "attach" and x.seq < mu.seq and len(x.d[4]) == 2 and str(x.d[4][1]) in ("True", "true") and \
                            str(canon(x.d[3])) == str(canon(ev.d[3])) and str(canon(x.d[4][0])) == str(canon(ev.d[4][0])):
                        return True
                # or the terminal comes from the registered object, every terminal of which was tried
                added = [x for x in self.e.events if x.k in ("call", "enter") and x.d[1] == "addTerminal" and x.seq < mu.seq]
                tried = [x for x in self.e.events if x.k == "call" and x.d[1] == "attach" and x.seq < mu.seq and len(x.d[4]) == 2 and str(x.d[4][1]) in ("True", "true")]
                if added and len(tried) >= len(added) and ("checkAndAdd" in str(ev.d[4][0]) or ev.loops and canon(ev.d[4][0]).op == "elem"):
                    return True
            return False
        for x in self.e.events:
            if x.k == "throw" and x.seq < mu.seq and x is not ev and x.loc() == ev.loc() and str(x.d[0]) == str(ev.d[0]):
                return True
        cls = strip_tpl(self.m.p.funcs.get(ev.stack[-1] if ev.stack and isinstance(ev.stack[-1], str) else "", {}).get("c") or "")
        if "UndirectedGraph" in ev.loc() or "UndirectedGraph" in cls:
            return self.graph(ev)
        last = ev.g[-1][0] if ev.g else None
        if last is not None and any(a.op == "isa" and "make_unique" in str(a) or "isInstanceOf" in str(a) and "make_unique" in str(a) for a, _ in split(last, bool(ev.g[-1][1]))):
            return True
        if last is not None and any(x.op in ("isa", "dyn") and "make_unique" in str(x) for x in subnodes(last)):
            return True
        return False

    def graph(self, ev):
        """The graph only refuses vertices and edges that it does not have: those of the tables exist, those just added too."""
        v = ev.d[0]
        asked = [x for x in subnodes(v) if x.op == "param" or x.op == "fld" and x.a[0] is THIS and self.adder and x.a[1] not in self.refs]
        text = [a for x in subnodes(v) if x.op == "call" and callname(x) == "format" for a in x.a[2][1:]]
        if not text or not asked:
            return True
        for a in text:
            if a.op == "param" or a.op == "fld" and not any(y.op in ("elem", "found", "at") for y in subnodes(a)):
                if not any(x.k in ("call", "enter") and x.d[1] == "addVertexIfNotPresent" and x.seq < ev.seq and x.d[4] and str(canon(x.d[4][0])) == str(canon(a)) for x in self.e.events):
                    return False
        return True


def comparison(a, w):
    """Normal form of a comparison: the orders are told by < alone."""
    if a.op == "op" and len(a.a) == 3 and a.a[0] in ("<=", ">", ">="):
        o, l, r = a.a
        if o == ">":
            return "(%s < %s)" % (r, l), w
        if o == ">=":
            return "(%s < %s)" % (l, r), not w
        return "(%s < %s)" % (r, l), not w
    return str(a), w


def disjuncts(c, pol):
    if c.op == "un" and c.a[0] in ("!", "not"):
        yield from disjuncts(c.a[-1], not pol)
    elif c.op == "op" and c.a[0] in ("&&", "||") and pol == (c.a[0] == "||"):
        yield from disjuncts(c.a[1], pol)
        yield from disjuncts(c.a[2], pol)
    else:
        yield c, pol


def turns(a, els):
    """Does the condition depend on the turn of the loop?"""
    t = str(a)
    return any("elem(%s" % x in t for x in els) or any(x.op in ("lv", "phi", "elem", "lparam") for x in subnodes(a)) or any(x and x in t and "found" in t for x in els)


def tail(v):
    names = [x.a[1] for x in subnodes(v) if x.op == "fld"]
    return names[0] if names else str(v)[-60:]


def report(ctx, m, rule, inst, f, cid, adder):
    t = Trace(m, f, cid, adder)
    if not any(True for _ in t.changes()):
        return
    ctx.inst(rule, inst)
    for mu, what, ev in t.late():
        if ev.k == "throw":
            why = re.sub(r"\s+", " ", str(ev.d[0]))[:110]
        else:
            why = "%s (refuses)" % short(ev.d[0].split("(")[0])
        ctx.viol(rule, "%s@%s" % (inst, said(ev)), ev.loc(), "%s may be refused (%s) after it %s (%s)" % (short(f), why, what, mu.loc()))


def said(ev):
    """The words of a refusal"""
    if ev.k != "throw":
        return ev.d[1]
    w = [str(x.a[0]) for x in subnodes(ev.d[0]) if x.op == "str"]
    return max(w, key=len)[:50] if w else "?"


def check(ctx):
    m = Model(ctx)
    p = ctx.p
    for cid, add in c04.adders(ctx):
        report(ctx, m, "creations", short(cid), add, cid, True)
    ctx.need("creations", 20)
    for f, r in sorted(p.funcs.items()):
        if not entry(p, f, r):
            continue
        report(ctx, m, "operations", "%s(%s)" % (short(f), ", ".join(q["n"] for q in r["p"])), f, r["c"], False)
    ctx.need("operations", 20)
    attachments(ctx, m)
    removals(ctx, m)


def removals(ctx, m):
    """Who removes equipments of unknown kind asks before any change what their own removal would refuse."""
    p = ctx.p
    for f, r in sorted(p.funcs.items()):
        if r.get("n") != "remove" or not entry(p, f, r):
            continue
        t = Trace(m, f, r["c"], False)
        calls = [ev for ev in t.e.events if ev.k == "call" and ev.d[1] == "remove" and ev.d[0].startswith(I) and m.overriders(ev.d[0])]
        if not calls:
            continue
        first = min([c.seq for c in calls] + [mu.seq for mu, _ in t.changes()])
        asked = [ev for ev in t.e.events if ev.k == "throw" and ev.seq < first]
        for ev in calls:
            for g in m.overriders(ev.d[0]):
                if not m.refuses(g):
                    continue
                inst = "%s/%s" % (short(f), short(g))
                ctx.inst("removals", inst)
                kinds = {fl["t"] for fl in p.classes[p.funcs[g]["c"]]["fields"]}
                kinds = {k for t in kinds for k in re.findall(r"powsybl::iidm::(\w+)", t)}
                if any(any(k in str(c) for k in kinds) for x in asked for c, _ in x.g if len(x.loops)):
                    continue
                if only_others(ev, p, p.funcs[g]["c"]):
                    continue
                ctx.viol("removals", inst, ev.loc(), "%s may be refused by %s after it removed something else" % (short(f), short(g)))
    ctx.need("removals", 1)


def only_others(ev, p, cls):
    """Is the call made for the listed kinds of equipments alone?"""
    return any("MULTIPLE_TERMINALS_CONNECTABLE_TYPES" in str(c) for c, _ in ev.g)


def entry(p, f, r):
    c = r.get("c")
    if not f.startswith(I) or r.get("body") is None or "/test/" in r["file"] or c not in p.classes or "converter" in f or "::network::" in f:
        return False
    if strip_tpl(c).endswith(("Adder", "Builder")) or r.get("acc") in ("private",) or r["n"] in ("removeTopology",):
        return False
    return VERBS.match(r["n"]) is not None


def attachments(ctx, m):
    """Trying to attach changes nothing, and refuses all that attaching refuses."""
    p = ctx.p
    for f, r in sorted(p.funcs.items()):
        if r.get("n") != "attach" or len(r.get("p") or []) != 2 or r.get("body") is None or "/test/" in r["file"] or "Terminal" not in r["p"][0]["t"]:
            continue
        inst = short(f)
        ctx.inst("attachments", inst)
        t = Trace(m, f, r["c"], False)
        test = "$" + r["p"][1]["n"]
        for mu, what in t.changes():
            if not any(str(a) == test and not w for c, pol in mu.g for a, w in split(c, bool(pol))):
                ctx.viol("attachments", inst, mu.loc(), "%s %s even when it is only a test" % (inst, what))
        free = {(ev.loc(), str(ev.d[0])) for ev in t.refusals() if ev.k == "throw" and not any(str(a) == test and not w for c, pol in ev.g for a, w in split(c, bool(pol)))}
        for ev in t.refusals():
            if ev.k == "throw" and (ev.loc(), str(ev.d[0])) not in free and not ("UndirectedGraph" in ev.loc() and t.graph(ev)):
                ctx.viol("attachments", inst, ev.loc(), "%s refuses (%s) what the test accepts" % (inst, said(ev)))
    ctx.need("attachments", 2)
