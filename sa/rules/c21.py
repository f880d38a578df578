"""C21: identifiers and aliases stay unique and resolve to one object."""
import re

from common import *
import effects
from rules import c03, c04
from rules.c16 import nodes_of

NI = I + "NetworkIndex"
IDENT = I + "Identifiable"
TABLES = ("m_objectsById", "m_idByAlias", "m_objectsByType")
OWN = ("m_aliasesByType", "m_aliasesWithoutType")
INSERT = {"insert", "emplace", "emplace_back", "push_back", "insert_or_assign", "try_emplace", "operator[]", "emplace_hint"}
ERASE = {"erase", "clear", "swap", "extract"}


def check(ctx):
    tables(ctx)
    only(ctx)
    creations(ctx)
    lists(ctx)
    lookups(ctx)
    removals(ctx)
    kinds(ctx)


# ---------------------------------------------------------------------------------------------------------- helpers
def field_of(v):
    """(class's field name) at the end of a place"""
    n = 0
    while v is not None and n < 6:
        if v.op == "fld":
            return v.a[1] if isinstance(v.a[1], str) else v.a[-1]
        if v.op in ("un", "cast") and v.a:
            v = v.a[-1]
            n += 1
            continue
        return None
    return None


def sub(v):
    seen = set()
    st = [v]
    while st:
        y = st.pop()
        if y is None or id(y) in seen:
            continue
        if hasattr(y, "op"):
            seen.add(id(y))
            yield y
            st.extend(y.a)
        elif isinstance(y, (tuple, list)):
            st.extend(y)


def is_end(v):
    return v.op == "call" and re.search(r"\b(end|cend)\b", v.a[0].split("(")[0].rsplit("::", 1)[-1] or "") is not None


def callname(v):
    return mname(v.a[0]) if v.op == "call" and isinstance(v.a[0], str) else None


COMPARE = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}


def number(v):
    while v.op == "cast":
        v = v.a[-1]
    return v


def looked_up(c):
    """(table field, key, polarity that means absent) for a test of the presence of a key, else None"""
    pol = True
    n = 0
    while n < 8:
        n += 1
        if c.op == "un" and c.a[0] in ("!", "not"):
            pol, c = not pol, c.a[-1]
        elif c.op == "un" and c.a[0] == "bool" or c.op == "cast":
            c = c.a[-1]
        else:
            break
    if c.op == "op" and c.a[0] in ("==", "!=") and len(c.a) == 3:
        l, r = c.a[1], c.a[2]
        if is_end(l):
            l, r = r, l
        if is_end(r) and callname(l) == "find":
            o, args = l.a[1], l.a[2]
            return field_of(o), args[0], pol == (c.a[0] == "==")
    if c.op == "op" and c.a[0] in COMPARE and len(c.a) == 3:
        l, r = number(c.a[1]), number(c.a[2])
        if callname(l) == "count" and r.op == "int":
            none, one = COMPARE[c.a[0]](0, r.a[0]), COMPARE[c.a[0]](1, r.a[0])
        elif callname(r) == "count" and l.op == "int":
            l, r = r, l
            none, one = COMPARE[c.a[0]](r.a[0], 0), COMPARE[c.a[0]](r.a[0], 1)
        else:
            return None
        if none != one:
            return field_of(l.a[1]), l.a[2][0], pol == none
        return None
    if callname(c) in ("count", "contains"):
        return field_of(c.a[1]), c.a[2][0], not pol
    if c.op == "found":
        return field_of(c.a[0]), c.a[1], not pol
    return None


def absent(g, table, key):
    for c, p in g:
        r = looked_up(c)
        if r and r[0] == table and str(r[1]) == str(key) and r[2] == bool(p):
            return True
    return False


def entry(args):
    """(key, value) of an insertion"""
    a = [x for x in args]
    if len(a) == 1 and a[0].op == "pair":
        a = list(a[0].a)
    elif len(a) == 1 and a[0].op in ("obj", "new", "call") and len(a[0].a) > 2 and isinstance(a[0].a[2], tuple) and len(a[0].a[2]) == 2:
        a = list(a[0].a[2])
    return (a[0], a[1]) if len(a) >= 2 else (a[0], None) if a else (None, None)


def policy(f, rec, obj, depth):
    if f.startswith(NI + "::get") or f.startswith(NI + "::checkAndAdd"):
        return False
    return f.startswith(NI + "::")


def inserts(e, fields):
    """(event, field, key, value) for each insertion in one of the tables"""
    out = []
    for ev in e.events:
        if ev.k == "call" and ev.d[1] in INSERT | ERASE and ev.d[3] is not None:
            o = ev.d[3]
            fl = field_of(o)
            if fl in fields and ev.d[1] in INSERT and ev.d[1] != "operator[]":
                k, v = entry(ev.d[4])
                out.append((ev, fl, k, v))
            elif ev.d[1] in ("emplace_back", "push_back", "insert"):
                for y in sub(o):
                    if y.op == "fld" and field_of(y) in fields:
                        out.append((ev, field_of(y), o, ev.d[4][-1] if ev.d[4] else None))
                        break
        elif ev.k == "store":
            loc = ev.d[0]
            if hasattr(loc, "op") and loc.op == "at" and field_of(loc.a[0]) in fields:
                out.append((ev, field_of(loc.a[0]), loc.a[1], ev.d[1]))
    return out


def getid_of(v):
    """The object whose identifier the value is"""
    if v is None:
        return None
    if callname(v) == "getId":
        return v.a[1]
    if v.op == "fld" and field_of(v) == "m_id":
        return v.a[0]
    return None


def thing(v):
    """The object behind release(), move() and wrappers"""
    n = 0
    while v is not None and n < 8:
        n += 1
        if v.op == "call" and callname(v) in ("release", "get", "move", "operator*", "operator->") and v.a[1] is not None:
            v = v.a[1]
        elif v.op in ("cast",) or v.op == "un" and v.a[0] in ("*", "&"):
            v = v.a[-1]
        else:
            break
    return v


# ---------------------------------------------------------------------------------------------------------- tables
def tables(ctx):
    p = ctx.p
    done = set()
    for f, r in sorted(p.funcs.items()):
        if r.get("body") is None or strip_tpl(r.get("c") or "") != NI or r.get("n") in ("<ctor>", "<dtor>") or "/test/" in r["file"]:
            continue
        e = ctx.summary(f, policy, "c21", maxdepth=5)
        ins = inserts(e, TABLES)
        name = short(strip_tpl(f.split("(")[0]))
        for ev, fl, k, v in ins:
            loc = ev.loc()
            inst = "%s@%s" % (name, fl)
            ctx.inst("tables", "%s %s" % (inst, targ(f)))
            if fl == "m_idByAlias":
                if not absent(ev.g, "m_objectsById", k):
                    ctx.viol("tables", inst, loc, "%s makes %s an alias without having found that it is the identifier of no object" % (name, k))
                if not absent(ev.g, "m_idByAlias", k):
                    ctx.viol("tables", inst, loc, "%s makes %s an alias without having found that it is not yet one" % (name, k))
                if getid_of(v) is None:
                    ctx.viol("tables", inst, loc, "%s maps an alias to %s, which is not the identifier of an object" % (name, v))
            elif fl == "m_objectsById":
                o = getid_of(k)
                if o is None:
                    ctx.viol("tables", inst, loc, "%s registers an object under %s, not under its identifier" % (name, k))
                    continue
                if str(thing(o)) != str(thing(v)):
                    ctx.viol("tables", inst, loc, "%s registers %s under the identifier of %s" % (name, v, o))
                if not any((q := looked_up(c)) and q[0] == fl and getid_of(q[1]) is not None and str(thing(getid_of(q[1]))) == str(thing(o)) and q[2] == bool(pl) for c, pl in ev.g):
                    ctx.viol("tables", inst, loc, "%s registers an object without having found that its identifier is not yet used" % name)
                kinds = [(e2, k2, v2) for e2, f2, k2, v2 in ins if f2 == "m_objectsByType"]
                if not any(set((str(c), bool(pl)) for c, pl in e2.g) <= set((str(c), bool(pl)) for c, pl in ev.g) for e2, _, _ in kinds):
                    ctx.viol("tables", inst, loc, "%s registers some objects by their identifier and not by their kind" % name)
            else:
                t = targ(f)
                if t and not any(y.op == "typeid" and str(y.a[0]) == t for y in sub(k)):
                    ctx.viol("tables", inst, loc, "%s registers a %s under another kind" % (name, short(t)))
    ctx.need("tables", 40)


def targ(f):
    q = re.search(r"::checkAndAdd<([^>]*(?:<.*>)?)>\(", f)
    return q.group(1) if q else ""


# ---------------------------------------------------------------------------------------------------------- only
def only(ctx):
    """The tables of the index, the alias lists and the identifier of an object change where the rules above look, and nowhere else."""
    p = ctx.p
    eff = effects.Effects(p)
    for f, d in sorted(eff.direct.items()):
        r = p.funcs[f]
        if "/test/" in r["file"] or r.get("n") == "<dtor>":
            continue
        for c, fl, kind in d:
            c0 = strip_tpl(c or "")
            if c0 == NI and fl in TABLES:
                ctx.inst("only", "%s@%s" % (short(f), fl))
                if strip_tpl(r.get("c") or "") != NI:
                    ctx.viol("only", "%s@%s" % (short(f), fl), "%s:%s" % (r["file"], r["line"]), "%s changes NetworkIndex::%s: the index is no longer changed by its own operations only" % (short(f), fl))
            if c0 == IDENT and fl in OWN:
                ctx.inst("only", "%s@%s" % (short(f), fl))
                if r.get("c") != IDENT:
                    ctx.viol("only", "%s@%s" % (short(f), fl), "%s:%s" % (r["file"], r["line"]), "%s changes Identifiable::%s, not the object's own operations" % (short(f), fl))
    for f, r in sorted(p.funcs.items()):
        if r.get("body") is None or "/test/" in r["file"] or r.get("n") == "<ctor>":
            continue
        for y in nodes_of(r["body"]):
            t = None
            if y.get("k") == "bin" and (y.get("o") or "").endswith("=") and y["o"] not in ("==", "!=", "<=", ">="):
                t = y.get("a")
            elif y.get("k") == "call" and y.get("n") in ("operator=", "operator+=", "assign", "clear", "append", "swap", "insert", "erase", "resize", "push_back"):
                t = y.get("o") if y.get("o") is not None else (y.get("a") or [None])[0]
            if isinstance(t, dict) and t.get("k") == "mem" and t.get("f") == "m_id" and t.get("c") == IDENT:
                ctx.inst("only", "%s@m_id" % short(f))
                ctx.viol("only", "%s@m_id" % short(f), "%s:%s" % (r["file"], y.get("l")), "%s changes the identifier of an object that the index may already know by it" % short(f))
    ctx.need("only", 6)


# ---------------------------------------------------------------------------------------------------------- creations
def cpolicy(f, rec, obj, depth):
    if "checkAndAdd<" in f or mname(f) in ("find", "getUniqueId", "checkAndAdd"):
        return False
    if "IdentifiableAdder<" in f and "::" in f and mname(f) not in ("getNetwork",):
        return True
    return c04.policy(f, rec, obj, depth)


def creations(ctx):
    """An object is created under an identifier that was just found to be neither the identifier nor the alias of another one, and registered under its own kind."""
    p = ctx.p
    n = 0
    for cid, add in c04.adders(ctx):
        if cid == I + "NetworkAdder" or "Network" == short(cid):
            continue
        if not any("checkAndAdd" in g for g in reach(p, add)):
            continue
        e = ctx.summary(add, cpolicy, "c21a", dyn=cid, maxdepth=7, maxevents=30000)
        got = [ev for ev in e.events if ev.k == "call" and "checkAndAdd<" in ev.d[0] and strip_tpl(ev.d[2] or "") in (NI, I + "Network")]
        # only the outermost ones
        ids = [ev for ev in e.events if ev.k in ("basector", "ctor") and (ev.d[1] if ev.k == "basector" else ev.d[1]) == IDENT]
        inst = short(cid)
        if not got:
            ctx.undecided("creations", inst, "no registration seen")
            continue
        for ev in got:
            ctx.inst("creations", "%s:%s" % (inst, ev.d[0].split("checkAndAdd<")[1].split(">(")[0].split("::")[-1]))
            t = ev.d[0].split("checkAndAdd<", 1)[1].split(">(", 1)[0]
            objs = [y for a in ev.d[4] for y in sub(a) if y.op in ("new", "obj") and isinstance(y.a[0], str) and y.a[0] in p.classes and IDENT in p.bases(y.a[0])]
            if objs and objs[0].a[0] != t:
                ctx.viol("creations", inst, ev.loc(), "%s registers a %s as a %s: it cannot be found by its kind nor removed" % (short(add), short(objs[0].a[0]), short(t)))
        for ev in ids:
            idv = ev.d[3][0] if ev.d[3] else None
            if idv is None:
                continue
            n += 1
            ctx.inst("unique", inst)
            for leaf, conds in leaves(idv, ()):
                if not unique(leaf, tuple(ev.g) + conds):
                    ctx.viol("unique", inst, ev.loc(), "%s creates an object under %s without having found that nothing has it as identifier or alias" % (short(add), leaf))
    fresh(ctx)
    ctx.need("creations", 17)
    ctx.need("unique", 15)


def reach(p, f, depth=3):
    out, todo = set(), [(f, 0)]
    while todo:
        g, d = todo.pop()
        if g in out or d > depth:
            continue
        out.add(g)
        r = p.funcs.get(g)
        if r and r.get("body") is not None:
            for y in nodes_of(r["body"]):
                if y.get("k") == "call" and y.get("f"):
                    todo.append((y["f"], d + 1))
    return out


def leaves(v, conds):
    if v.op == "ite":
        yield from leaves(v.a[1], conds + ((v.a[0], True),))
        yield from leaves(v.a[2], conds + ((v.a[0], False),))
    else:
        yield v, conds


def is_find(n, key):
    return callname(n) == "find" and strip_tpl(n.a[0]).startswith((I + "Network::", NI + "::")) and n.a[2] and str(n.a[2][0]) == key and \
        re.search(r"::find(<powsybl::iidm::Identifiable[,>]|\()", n.a[0]) is not None


def bare(n):
    while n.op == "un" and n.a[0] == "bool" or n.op == "cast":
        n = n.a[-1]
    return n


def unique(leaf, g):
    if callname(leaf) == "getUniqueId":
        return asks(leaf)
    key = str(leaf)
    known = {(str(a), w) for c, pol in g for a, w in split(c, bool(pol))}
    for c, pol in g:
        for a, w in split(c, bool(pol)):
            if a.op == "imp" and w and (str(a.a[0]), bool(a.a[1])) in known:
                a, w = a.a[2], bool(a.a[3])
            if not w and is_find(bare(a), key):
                return True
    return False


def asks(call):
    """Is the function given to getUniqueId the presence of an object under that identifier or alias?"""
    lam = call.a[2][1] if len(call.a[2]) > 1 else None
    for y in sub(lam):
        if y.op == "lamv":
            v = bare(y.a[0])
            return callname(v) == "find" and v.a[2] and v.a[2][0].op == "lparam" and is_find(v, str(v.a[2][0]))
    return False


def fresh(ctx):
    """Identifiables::getUniqueId gives a name for which the given test answered no."""
    p = ctx.p
    for f, r in sorted(p.funcs.items()):
        if not f.startswith(I + "Identifiables::getUniqueId(") or r.get("body") is None:
            continue
        pred = r["p"][1]["d"]
        ctx.inst("unique", "getUniqueId")
        tested = set()
        inside = {}
        for y in nodes_of(r["body"]):
            k = y.get("k")
            if k in ("do", "while", "for") and isinstance(y.get("c"), dict):
                tested.update(told(y["c"], False, pred))
            if k == "if":
                for br, pol in ((y.get("t"), True), (y.get("e"), False)):
                    if any(z.get("k") == "break" for z in nodes_of(br)):
                        tested.update(told(y["c"], pol, pred))
                    for z in nodes_of(br):
                        if z.get("k") == "ret":
                            inside.setdefault(id(z), set()).update(told(y["c"], pol, pred))
                if ends(y.get("t")):
                    tested.update(told(y["c"], False, pred))
        for y in nodes_of(r["body"]):
            if y.get("k") == "ret" and isinstance(y.get("e"), dict):
                d = [z["d"] for z in nodes_of(y["e"]) if z.get("k") == "var"]
                if not any(q in tested or q in inside.get(id(y), ()) for q in d):
                    ctx.viol("unique", "getUniqueId", "%s:%s" % (r["file"], y.get("l")), "getUniqueId may give a name that is already used")


def told(c, pol, pred):
    """The variables for which the test is known to have said no when the condition is pol."""
    k = c.get("k")
    if k in ("cast", "paren"):
        yield from told(c.get("a") or c.get("e"), pol, pred)
    elif k == "un" and c.get("o") == "!":
        yield from told(c.get("a") or c.get("e"), not pol, pred)
    elif k == "bin" and c.get("o") in ("&&", "||"):
        if pol == (c["o"] == "&&"):
            yield from told(c["a"], pol, pred)
            yield from told(c["b"], pol, pred)
        else:
            # only one of the two is known, unless the other is the end of all the numbers
            for x, y in ((c["a"], c["b"]), (c["b"], c["a"])):
                if any(z.get("k") == "call" and "numeric_limits" in (z.get("f") or "") and z.get("n") == "max" for z in nodes_of(x)):
                    yield from told(y, pol, pred)
    elif not pol and any(z.get("k") == "var" and z.get("d") == pred for z in nodes_of(c)):
        for z in nodes_of(c.get("a")):
            if z.get("k") == "var" and z.get("d") != pred:
                yield z["d"]


def ends(s):
    """Does the branch return?"""
    return s is not None and any(y.get("k") == "ret" for y in nodes_of(s))


def split(c, pol):
    """The atoms a condition settles."""
    if c.op == "un" and c.a[0] in ("!", "not"):
        yield from split(c.a[-1], not pol)
    elif c.op == "op" and c.a[0] in ("&&", "||") and pol == (c.a[0] == "&&"):
        yield from split(c.a[1], pol)
        yield from split(c.a[2], pol)
    else:
        yield c, pol


# ---------------------------------------------------------------------------------------------------------- lists
def lpolicy(f, rec, obj, depth):
    return f.startswith(IDENT + "::") and "getNetwork" not in f


def lists(ctx):
    """The alias lists of an object say what the index says."""
    p = ctx.p
    for f in sorted(p.funcs):
        r = p.funcs[f]
        if r.get("c") != IDENT or r.get("body") is None or r.get("n") not in ("addAlias", "removeAlias"):
            continue
        e = ctx.summary(f, lpolicy, "c21l", maxdepth=6)
        inst = "%s(%s)" % (short(f), ", ".join(q["n"] for q in r["p"]))
        ctx.inst("lists", inst)
        loc = "%s:%s" % (r["file"], r["line"])
        index = [ev for ev in e.events if ev.k in ("call", "enter") and strip_tpl(ev.d[2] or "") == NI and ev.d[1] == r["n"]]
        if not index:
            ctx.viol("lists", inst, loc, "%s does not tell the index" % short(f))
            continue
        alias = index[0].d[4][1] if len(index[0].d[4]) > 1 else None
        if str(index[0].d[4][0]) != "this":
            ctx.viol("lists", inst, index[0].loc(), "the index is told of an alias of %s, not of the object itself" % index[0].d[4][0])
        for y in sub(alias):
            if callname(y) == "getUniqueId" and not asks(y):
                ctx.viol("lists", inst, index[0].loc(), "the alias is made unique among something else than the identifiers and aliases of the network")
        if r["n"] == "addAlias":
            val = str(index[0].d[5]) if len(index[0].d) > 5 else None
            ins = [x for x in inserts(e, OWN)]
            for ev, fl, k, v in ins:
                got = k if fl == "m_aliasesWithoutType" else v
                if str(got) != str(alias):
                    ctx.viol("lists", inst, ev.loc(), "the object lists the alias %s, the index %s" % (got, alias))
                if not any(at == val and w for c, pl in ev.g for at, w in ((str(strip_bool(a)), w) for a, w in split(c, bool(pl)))):
                    ctx.viol("lists", inst, ev.loc(), "the object lists an alias that the index did not accept")
                if fl == "m_aliasesByType" and not (guarded_absent(ev, fl, k) or guarded_absent(index[0], fl, k)):
                    ctx.viol("lists", inst, ev.loc(), "an alias of a type replaces another of the same type, which the index keeps")
            base = set((str(c), bool(pl)) for c, pl in index[0].g)
            ways = [frozenset((str(c), bool(pl)) for c, pl in ev.g) - base for ev, _, _, _ in ins]
            ways = [frozenset(x for x in w if not (val and val in x[0])) for w in ways]
            if not covered(ways):
                ctx.viol("lists", inst, loc, "an alias that the index accepted is not always listed by the object, once")
        else:
            ers = [ev for ev in e.events if ev.k == "call" and ev.d[1] in ERASE and ev.d[3] is not None and field_of(ev.d[3]) in OWN]
            base = set((str(c), bool(pl)) for c, pl in index[0].g)
            ways = [frozenset((str(c), bool(pl)) for c, pl in ev.g) - base for ev in ers]
            if {field_of(ev.d[3]) for ev in ers} != set(OWN) or not covered(ways):
                ctx.viol("lists", inst, loc, "an alias removed from the index is not always removed from the object's lists")
    reads(ctx)
    ctx.need("lists", 6)


def reads(ctx):
    """What the object says of its aliases comes from both lists, and an alias is the value, not the key, of the list by type."""
    p = ctx.p
    for f in sorted(p.funcs):
        r = p.funcs[f]
        if r.get("c") != IDENT or r.get("body") is None or r.get("n") not in ("getAliases", "hasAliases", "getAliasType"):
            continue
        ctx.inst("lists", short(f))
        loc = "%s:%s" % (r["file"], r["line"])
        fields, keys, wrong = set(), False, False
        todo, seen = [f], set()
        while todo:
            g = todo.pop()
            if g in seen or p.funcs.get(g, {}).get("body") is None:
                continue
            seen.add(g)
            for y in nodes_of(p.funcs[g]["body"]):
                if y.get("k") == "mem" and y.get("c") == IDENT and y.get("f") in OWN:
                    fields.add(y["f"])
                if y.get("k") == "var" and "map_keys" in str(y.get("d")):
                    keys = True
                if y.get("k") == "call" and y.get("f", "").startswith(IDENT + "::"):
                    todo.append(y["f"])
                if r["p"] and (y.get("k") == "bin" and y.get("o") in ("==", "!=") or y.get("n") in ("operator==", "operator!=")):
                    two = [y.get("a"), y.get("b")] if y["k"] == "bin" else (y.get("a") or [])
                    txt = [{(z.get("k"), z.get("f") if z.get("k") == "mem" else z.get("d")) for z in nodes_of(x)} for x in two]
                    if any(("var", r["p"][0]["d"]) in t for t in txt) and any(("mem", "first") in t for t in txt):
                        wrong = True
        if fields != set(OWN):
            ctx.viol("lists", short(f), loc, "%s does not look at both lists of aliases" % short(f))
        if keys or wrong:
            ctx.viol("lists", short(f), loc, "%s takes the types of the aliases for the aliases" % short(f))


def guarded_absent(ev, table, key):
    return any(not w and False or (q := looked_up(a)) and q[0] == table and str(q[1]) == str(key) and q[2] == w for c, pl in ev.g for a, w in atoms_of(c, bool(pl), key))


def atoms_of(c, pol, key):
    """The atoms known, and those known when the key is not empty (an empty type is no type)."""
    yield from split(c, pol)
    for a, w in split(c, pol):
        if a.op == "op" and a.a[0] in ("&&", "||") and w != (a.a[0] == "&&"):
            # !(x && y): y is false when x, which only says that there is a key, is true
            for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                if str(key) in str(x) and looked_up(x) is None:
                    yield from split(y, w)


def covered(ways):
    """Do the guards of the alternatives cover every case, each once? (two alternatives that differ by one condition, or one without any)"""
    ways = list(ways)
    if len(ways) == 1:
        return not ways[0]
    if not ways:
        return False
    pivot = None
    for c, pl in ways[0]:
        if all((c, True) in w or (c, False) in w for w in ways):
            pivot = c
            break
    if pivot is None:
        return False
    a = [w - {(pivot, True)} for w in ways if (pivot, True) in w]
    b = [w - {(pivot, False)} for w in ways if (pivot, False) in w]
    return bool(a) and bool(b) and covered(a) and covered(b)


# ---------------------------------------------------------------------------------------------------------- lookups
def lookups(ctx):
    """A lookup finds the object whose identifier, or else whose alias, is asked; of the kind asked."""
    p = ctx.p
    pol = lambda f, rec, obj, depth: f.startswith((NI + "::checkId", NI + "::find", NI + "::get", I + "Network::find", I + "Network::get"))
    for f in sorted(p.funcs):
        r = p.funcs[f]
        if r.get("body") is None or strip_tpl(r.get("c") or "") != NI or r.get("n") not in ("find", "get") or len(r.get("p") or []) != 1:
            continue
        if "/test/" in r["file"]:
            continue
        t = f.split("::" + r["n"] + "<", 1)
        if len(t) < 2:
            continue
        t = t[1].split(">(", 1)[0]
        if not t.startswith("powsybl::"):
            continue
        ctx.inst("lookups", "%s<%s>%s" % (r["n"], short(t), " const" if f.endswith("const") else ""))
        inst = "%s<%s>" % (r["n"], short(t))
        e = ctx.summary(f, pol, "c21f", maxdepth=6)
        loc = "%s:%s" % (r["file"], r["line"])
        for st, v in e.rets:
            for leaf, conds in leaves(v, ()):
                if leaf.op == "null":
                    continue
                n = [y for y in sub(leaf) if y.op == "found"]
                if not n:
                    ctx.viol("lookups", inst, loc, "the %s of a %s gives %s, which is not looked up by identifier" % (r["n"], short(t), str(leaf)[:80]))
                    continue
                key = "$" + r["p"][0]["n"]
                o = [y for y in n if field_of(y.a[0]) == "m_objectsById"]
                if not o or any(not resolved(y.a[1], key) for y in o):
                    ctx.viol("lookups", inst, loc, "the %s of a %s does not look for the object that has the identifier, or the alias, asked (it looks for %s)" % (r["n"], short(t), str(o[0].a[1])[:80] if o else "none"))
                if t != IDENT and not any(y.op in ("dyn", "isa") and y.a[0] == t for y in sub(leaf)):
                    ctx.viol("lookups", inst, loc, "the %s of a %s gives an object of whatever kind" % (r["n"], short(t)))
    ctx.need("lookups", 40)


def resolved(k, key):
    """key, unless it is an alias: then the identifier it stands for"""
    if callname(k) == "getOrDefault" and len(k.a[2]) == 3:
        return field_of(k.a[2][0]) == "m_idByAlias" and str(k.a[2][1]) == key and str(k.a[2][2]) == key
    if k.op == "ite":
        ls = [x for x, _ in leaves(k, ())]
        return len(ls) == 2 and any(str(x) == key for x in ls) and any("m_idByAlias" in str(x) and key in str(x) and any(y.op == "found" for y in sub(x)) for x in ls)
    return False


# ---------------------------------------------------------------------------------------------------------- removals
def same_object(g, a, b):
    """Is it known that a and b (texts) are the same object?"""
    for c, pol in g:
        for x, w in split(c, bool(pol)):
            if w and callname(x) == "areSame" and len(x.a[2]) == 2:
                l, r = str(x.a[2][0]), str(x.a[2][1])
                if (a(l) and b(r)) or (a(r) and b(l)):
                    return True
            if x.op == "op" and x.a[0] in ("==", "!=") and w == (x.a[0] == "=="):
                l, r = str(x.a[1]), str(x.a[2])
                if (a(l) and b(r)) or (a(r) and b(l)):
                    return True
    return False


def removals(ctx):
    """What leaves the index leaves the three tables; an alias is refused, or removed, only for its object."""
    p = ctx.p
    for f in sorted(p.funcs):
        r = p.funcs[f]
        if strip_tpl(r.get("c") or "") != NI or r.get("body") is None or r.get("n") in ("<ctor>", "<dtor>") or "/test/" in r["file"] or r.get("n") == "checkAndAdd":
            continue
        e = ctx.summary(f, policy, "c21", maxdepth=5)
        name = short(strip_tpl(f.split("(")[0]))
        ers = []
        for ev in e.events:
            if ev.k == "call" and ev.d[1] in ERASE and ev.d[3] is not None:
                t = [field_of(y) for y in sub(ev.d[3]) if y.op == "fld" and field_of(y) in TABLES]
                if t:
                    ers.append((ev, t[0]))
        loc = "%s:%s" % (r["file"], r["line"])
        if r["n"] == "remove" or any(t == "m_objectsById" for _, t in ers):
            ctx.inst("removals", name)
            o = "$" + r["p"][0]["n"] if r["p"] else "this"
            for t, what in (("m_objectsById", "identifier"), ("m_objectsByType", "kind"), ("m_idByAlias", "aliases")):
                if t not in [x for _, x in ers]:
                    ctx.viol("removals", "%s@%s" % (name, t), loc, "%s leaves the %s of what it removes in the index" % (name, what))
            for ev, t in ers:
                a = ev.d[4][0] if ev.d[4] else None
                if t == "m_idByAlias":
                    over = [str(l[1]) for l in ev.loops]
                    if not any("%s.getAliases()" % o in x for x in over) or "%s.getAliases()" % o not in str(a):
                        ctx.viol("removals", "%s@%s" % (name, t), ev.loc(), "%s does not remove each alias of what it removes (it removes %s)" % (name, a))
                if t == "m_objectsByType":
                    if not any(y.op == "typeid" and o in str(y) for y in sub(ev.d[3])):
                        ctx.viol("removals", "%s@%s" % (name, t), ev.loc(), "%s does not remove the object from its kind" % name)
                if t == "m_objectsById":
                    if o not in str(a):
                        ctx.viol("removals", "%s@%s" % (name, t), ev.loc(), "%s removes %s from the identifiers" % (name, a))
                if not same_object(ev.g, lambda x: "m_objectsById" in x, lambda x: o in x and "m_objectsById" not in x):
                    ctx.viol("removals", "%s@%s" % (name, t), ev.loc(), "%s may remove an object that only has the same identifier" % name)
        if r["n"] == "removeAlias":
            ctx.inst("removals", name)
            o, al = "$" + r["p"][0]["n"], "$" + r["p"][1]["n"]
            got = [ev for ev, t in ers if t == "m_idByAlias"]
            if not got:
                ctx.viol("removals", name, loc, "%s leaves the alias in the index" % name)
            for ev in got:
                if al not in str(ev.d[4][0]):
                    ctx.viol("removals", name, ev.loc(), "%s removes %s, not the alias asked" % (name, ev.d[4][0]))
                if not same_object(ev.g, lambda x: "m_idByAlias" in x and al in x, lambda x: o in x and "m_idByAlias" not in x):
                    ctx.viol("removals", name, ev.loc(), "%s may remove the alias of another object" % name)
        if r["n"] == "addAlias":
            ctx.inst("removals", name)
            o = "$" + r["p"][0]["n"]
            for st, v in e.rets:
                for leaf, conds in leaves(v, ()):
                    if leaf.op == "bool" and not leaf.a[0] or str(leaf) in ("False", "0"):
                        if not same_object(tuple(st.g) + conds, lambda x: "m_objectsById" in x, lambda x: x == o or x == "&" + o):
                            ctx.viol("removals", name, loc, "%s does not refuse an identifier or alias already used by another object" % name)
    ctx.need("removals", 3)


# ---------------------------------------------------------------------------------------------------------- kinds
def registered(p):
    return {targ(f) for f in p.funcs if f.startswith(NI + "::checkAndAdd<") and "/test/" not in p.funcs[f]["file"]}


def kinds_of(p, f, every, depth=0):
    """The kinds whose registered objects the function looks at; None when it looks at none."""
    r = p.funcs.get(f)
    if r is None or r.get("body") is None or depth > 6:
        return None
    out = None
    for y in nodes_of(r["body"]):
        if y.get("k") == "typeid":
            t = y.get("t") or y.get("c")
            out = (out or []) + [t.replace("const ", "").strip() if isinstance(t, str) else "?"]
        elif y.get("k") == "mem" and y.get("f") == "m_objectsById" and y.get("c") == NI and strip_tpl(r.get("c") or "") == NI:
            out = (out or []) + sorted(every)
        elif y.get("k") == "call" and y.get("f") and re.match(re.escape(NI) + r"::get(All|ObjectCount)<", y["f"]):
            out = (out or []) + (kinds_of(p, y["f"], every, depth + 1) or ["?" + y["f"][:80]])
        elif y.get("k") == "call" and y.get("f") in p.funcs and p.funcs[y["f"]].get("c") == r.get("c") and depth < 4 and y["f"] != f and not p.funcs[y["f"]].get("p"):
            k = kinds_of(p, y["f"], every, depth + 1)
            if k:
                out = (out or []) + k
    return out


def kinds(ctx):
    """The network lists, and counts, each object of a kind once."""
    p = ctx.p
    every = registered(p)
    count = {}
    listed = {}
    for f in sorted(p.funcs):
        r = p.funcs[f]
        if r.get("c") != I + "Network" or r.get("body") is None or r.get("p") or "/test/" in r["file"]:
            continue
        rt = r.get("rt") or ""
        q = re.search(r"range<(?:const )?(powsybl::iidm::\w+) ?[&,>]", rt)
        n = re.match(r"get(\w+)Count$", r["n"])
        if n and ("<" in f.split("(")[0] or I + n.group(1) not in p.classes):
            continue
        if not q and not n:
            continue
        k = kinds_of(p, f, every)
        if not k:
            continue
        loc = "%s:%s" % (r["file"], r["line"])
        if q:
            x = q.group(1)
            if x not in p.classes or x != IDENT and IDENT not in p.bases(x):
                continue
            want = sorted(t for t in every if t == x or x in p.bases(t))
            if every <= set(k) and any(y.get("k") == "call" and re.search(r"::isInstanceOf<(const )?%s[,>]" % re.escape(x), y.get("f") or "") for y in nodes_of(r["body"])):
                k = want
            ctx.inst("kinds", "%s%s" % (short(f), " const" if f.endswith("const") else ""))
            listed[r["n"]] = sorted(set(k))
            if sorted(k) != want:
                ctx.viol("kinds", short(f), loc, "%s lists the objects registered as %s; those that are a %s are registered as %s" % (short(f), names(k), short(x), names(want)))
        else:
            count[n.group(1)] = (f, k, loc)
    for n, (f, k, loc) in sorted(count.items()):
        l = next((listed[m] for m in ("get%ss" % n, "get%ses" % n, "get%sies" % n[:-1]) if m in listed), None)
        ctx.inst("kinds", short(f))
        if l is None:
            want = sorted(t for t in every if t == I + n or I + n in p.bases(t))
            l = want or None
        if l is not None and sorted(k) != l:
            ctx.viol("kinds", short(f), loc, "%s counts the objects registered as %s, and not those listed, registered as %s" % (short(f), names(k), names(l)))
    ctx.need("kinds", 40)


def names(k):
    return ", ".join(short(x) for x in k)
