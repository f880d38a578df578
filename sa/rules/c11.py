"""C11: each value is written and read back under one name, type and default, for one property."""
import re
from common import *
from rules import c03, c04, c18
import xmlmodel as xm
from xmlmodel import XS

# attributes that repeat what the document says elsewhere, or that are recomputed: read by nothing on purpose
REDUNDANT = {
    "voltageLevelId": ("battery", "danglingLine", "generator", "lccConverterStation", "load", "shunt", "staticVarCompensator", "vscConverterStation"),
    "kind": ("busBreakerTopology/switch",), "retained": ("busBreakerTopology/switch",),
    "nodeCount": ("nodeBreakerTopology",),
}
# values of the network that are an identifier, position or name of the object the adder is given by name
REWRITE = [(r"Terminal(\d?)\.(BusView|BusBreakerView)\.(Bus|ConnectableBus)\.Id$", r"\3\1"), (r"Terminal(\d?)\.NodeBreakerView\.Node$", r"Node\1"),
           (r"Terminal(\d?)\.VoltageLevel\.Id$", r"VoltageLevel\1"), (r"^(?:BusBreakerView|NodeBreakerView)\.(Bus\d|Node\d)(\.Id)?$", r"\1"),
           (r"ConverterStation(\d)\.Id$", r"ConverterStationId\1"), ("HalfLine", "Half"), (r"MinMaxReactiveLimits|ReactiveCapabilityCurve", "ReactiveLimits"),
           (r"\b(Linear|NonLinear)Model\b", "Model"), (r"^AliasType$", "Alias"), (r"^VoltageRegulationOn$", "VoltageRegulatorOn"), (r"\bValueAs(Boolean|Int|String)$", "Value"), (r"^CaseDate\.toString$", "CaseDate")]
INTS = {"int", "long", "unsigned long", "unsigned int", "size_t", "short", "std::size_t"}


def norm(names):
    t = []
    for m in names:
        m = re.sub(r"^(getOptional|get|is|has|new|begin|set|put|with|add)(?=[A-Z])", "", m)
        t.append(m)
    s = ".".join(t)
    for a, b in REWRITE:
        s = re.sub(a, b, s)
    return s


def written_property(a, path):
    c = xm.chain(a.value)
    stars = [k for k, x in enumerate(c) if x == "*"]
    i = stars[-1] if stars else 0
    pre = []
    if stars and i > 0 and c[i - 1] == "getLegs":
        # the legs in their order, numbered by the element written
        d = [x[len(x.rstrip("0123456789")):] for x in path if x.rstrip("0123456789") != x]
        pre = ["Leg" + (d[-1] if d else "")]
    if c[-2:] == ["getPropertyNames", "*"]:
        return "Property", c
    return norm(pre + [x for x in c[i + 1:] if not x.startswith("@")]), c


def read_property(ev):
    if ev.k == "ctor":
        return None
    c = xm.chain(ev.d[3]) if ev.d[3] is not None else []
    t = [m for m in c[1:] if not re.match(r"^(set[A-Z]|add$|with[A-Z]|ensure)", m)]
    return norm(t + [mname(ev.d[0]).split("<")[0]])


def modified(v, stop=()):
    """Arithmetic or negation applied to a value on its way."""
    v = c03.strip_copy(v)
    while True:
        if v in stop:
            return None
        if v.op == "op" and v.a[0] in ("+", "-", "*", "/", "%") and (v.a[1].op in ("int", "float") or v.a[2].op in ("int", "float")):
            return show(v)
        if v.op == "un" and v.a[0] in ("!", "-", "~"):
            return show(v)
        if v.op == "call" and mname(v.a[0]).split("<")[0] in xm.WRAP and v.a[2]:
            v = c03.strip_copy(v.a[2][0])
        elif v.op == "un":
            v = v.a[1]
        else:
            return None


def same_type(w, r):
    if w == r or w in INTS and r in INTS:
        return True
    return False


def is_nan(n):
    n = c03.strip_copy(n)
    return n.op == "call" and mname(n.a[0]) in ("nan", "quiet_NaN", "NaN") or n.op == "float" and str(n.a[0]).lower() == "nan"


def const(n):
    n = c03.strip_copy(n)
    if n.op in ("int", "float"):
        return float(n.a[0])
    if n.op == "bool":
        return n is TRUE
    if n.op == "str":
        return n.a[0]
    if is_nan(n):
        return "nan"
    if n.op in ("call", "enum"):
        return re.sub(r"\s", "", show(n))
    return None


def where_of(path, base):
    return "/".join(path[len(base):]) if len(path) > len(base) else "/".join(path)


def check(ctx):
    p = ctx.p
    m = xm.model(ctx)
    for title, w, r in m.pairs():
        compare(ctx, title, w, r)
    for c, x in sorted(m.ext.items()):
        if x is None:
            ctx.inst("serializer", c)
            ctx.undecided("serializer", c, "read or write not found")
    ctx.notes.append("network document: %d elements written, %d element kinds read; %d extension serialisers" % (len(m.w.elems), len(m.r.known), len(m.ext)))
    ctx.need("attribute", 150)
    ctx.need("property", 150)


def index(w):
    out = {}
    for el in w.elems:
        out.setdefault(el.path, []).append(el)
    return out


def tail(path):
    return "/".join(path[-2:])


def conditional(at, el):
    """The attribute is not written whenever the element is (apart from what the version decides)."""
    have = set(el.start.g) if el.start is not None else set()
    end = set(el.end.g) if el.end is not None else set()
    out = []
    for g in at.ev.g:
        if g in have or g in end:
            continue
        c = g[0]
        if all(c18.ev3(c, xm.version_env(v)) is not None for v in range(len(xm.VERSIONS))):
            continue
        if c.op == "imp":
            continue
        out.append(g)
    return out


def compare(ctx, title, w, r):
    wp = index(w)
    base = ("network",) if title == "network" else ("extension",)
    legit = set()
    for wpath, els in sorted(wp.items()):
        rpaths = [q for q in r.attrs if xm.matches(wpath, q)]
        dynamic = any(x.startswith("?") for x in wpath)
        for el in els:
            for a in el.attrs:
                inst = "%s %s@%s" % (title, tail(wpath), a.name)
                if a.name in REDUNDANT and any(("/".join(wpath)).endswith(t) for t in REDUNDANT[a.name]):
                    continue
                if dynamic or a.name.startswith("?"):
                    ctx.inst("attribute", inst)
                    ctx.undecided("attribute", inst, "name or place not constant")
                    continue
                ctx.inst("attribute", inst)
                if not rpaths:
                    ctx.viol("attribute", inst, a.ev.loc(), "attribute %s of element %s is written, but no such element is read" % (a.name, "/".join(wpath)))
                    continue
                for q in rpaths:
                    got = [b for b in r.attrs.get(q, ()) if b.name == a.name]
                    if not got:
                        ctx.viol("attribute", inst, a.ev.loc(), "attribute %s of element %s is written but never read" % (a.name, "/".join(q)))
                        continue
                    legit.update(one(ctx, title, inst, q, el, a, got, r) or ())
            for a in el.text:
                inst = "%s %s text" % (title, tail(wpath))
                ctx.inst("attribute", inst)
                if not any(b.kind == "text" for q in rpaths for b in r.attrs.get(q, ())):
                    ctx.viol("attribute", inst, a.ev.loc(), "the text of element %s is written but never read" % "/".join(wpath))
    conditions(ctx, title, w, wp)
    # what is read must be used, and each property given what was read for it
    for q, attrs in sorted(r.attrs.items()):
        for b in attrs:
            if b.name.startswith(("?", "#")) or b.name.split("/")[-1] in REDUNDANT:
                continue
            inst = "%s %s@%s" % (title, tail(q), b.name)
            ctx.inst("used", inst)
            if not r.is_used(q, b):
                ctx.viol("used", inst, b.ev.loc(), "attribute %s of element %s is read but given to nothing" % (b.name, "/".join(q)))
            else:
                bad = dropped(r, q, b)
                if bad:
                    ctx.viol("used", inst, bad[0].loc(), "attribute %s of element %s is only used when %s%s" % (b.name, "/".join(q), "" if bad[1][1] else "not ", show(bad[1][0])[-100:]))
        given(ctx, title, q, attrs, r, wp, legit)
    # what is read must be written
    for q, attrs in sorted(r.attrs.items()):
        els = [el for wpath, es in wp.items() if xm.matches(wpath, q) for el in es]
        if not els:
            continue
        for b in attrs:
            if b.kind != "plain" or b.name.startswith("?"):
                continue
            inst = "%s %s@%s mandatory" % (title, tail(q), b.name)
            ctx.inst("mandatory", inst)
            ws = [(el, a) for el in els for a in el.attrs if a.name == b.name]
            if not ws and not any(a.name.startswith("?") for el in els for a in el.attrs):
                if title == "network" or not b.ev.g:
                    ctx.viol("mandatory", inst, b.ev.loc(), "attribute %s of element %s is mandatory on import but never written" % (b.name, "/".join(q)))


def dropped(r, q, b):
    """A condition on something else than its presence decides whether the value read is used."""
    bad = None
    for ev, x in r.sinks(q, b):
        if ev.k != "call" or ev.d[0].startswith(I + "Enum::"):
            continue
        for c, pol in ev.g:
            if (c, pol) in b.ev.g or c.op == "imp" or all(c18.ev3(c, xm.version_env(v)) is not None for v in range(len(xm.VERSIONS))):
                continue
            if xm.local_name(c.a[1] if c.op == "un" and c.a[0] == "bool" else c):
                continue
            if not available(c, pol, b.value):
                bad = bad or (ev, (c, pol))
                break
        else:
            return None
    return bad


def available(c, pol, v):
    c = c03.strip_copy(c)
    while c.op == "un" and c.a[0] in ("bool", "!"):
        pol ^= c.a[0] == "!"
        c = c03.strip_copy(c.a[1])
    if c.op == "op" and c.a[0] in ("&&", "||"):
        both = (c.a[0] == "&&") == pol
        return (all if both else any)(available(x, pol, v) for x in c.a[1:3])
    if c.op in ("isa", "bool", "in"):
        return True
    if v in set(subnodes(c)):
        return not pol if c.op == "call" and mname(c.a[0]) in ("empty", "isnan") else pol if c is v else True
    if any(x.op in ("lv", "unk") for x in subnodes(c)):
        return True
    if c.op == "call" and c.a[0].startswith(XS) or c.op == "call" and mname(c.a[0]) in ("empty", "isnan", "has_value") and any(isinstance(x, Node) and x.op == "call" and x.a[0].startswith(XS) for x in [c.a[1]] + list(c.a[2])):
        return False                                    # another attribute
    return not re.match(r"^(is|has)[A-Z]", mname(c.a[0])) if c.op == "call" else not any(x.op == "call" and x.a[0].startswith(XS + "XmlStreamReader") for x in (y for y in c.a if isinstance(y, Node)))


def conditions(ctx, title, w, wp):
    """What is exported is left out only when it is absent (or by the kind of the object, the options, the version)."""
    reported = set()
    for wpath, els in sorted(wp.items()):
        if any(x.startswith("?") for x in wpath) or wpath[-1] == "extension" and title == "network":
            continue
        for el in els:
            for a in el.attrs:
                if a.name.startswith("?") or a.name in REDUNDANT:
                    continue
                cond = conditional(a, el)
                if not cond:
                    continue
                inst = "%s %s@%s" % (title, tail(wpath), a.name)
                ctx.inst("left out", inst)
                for c, pol in cond:
                    if not presence(c, pol, [a.value]):
                        if inst not in reported:
                            reported.add(inst)
                            ctx.viol("left out", inst, a.ev.loc(), "%s of %s is left out unless %s%s" % (a.name, "/".join(wpath), "" if pol else "not ", show(c)[-100:]))
                        break
            if el.start is None:
                continue
            par = [x for x in wp.get(wpath[:-1], []) if x.start is not None and set(x.start.g) <= set(el.start.g)]
            have = set(par[0].start.g) if par else set()
            cond = [(c, pol) for c, pol in el.start.g if (c, pol) not in have and c.op != "imp" and not all(c18.ev3(c, xm.version_env(v)) is not None for v in range(len(xm.VERSIONS)))]
            if not cond:
                continue
            inst = "%s %s" % (title, tail(wpath))
            ctx.inst("left out", inst)
            vals = [a.value for q, es in wp.items() if q[:len(wpath)] == wpath for e in es for a in e.attrs + e.text]
            if not vals:
                continue
            for c, pol in cond:
                if not presence(c, pol, vals) and not any((c, not pol) in x.start.g for x in w.elems if x.start is not None):
                    if inst not in reported:
                        reported.add(inst)
                        ctx.viol("left out", inst, el.start.loc(), "element %s is left out unless %s%s" % ("/".join(wpath), "" if pol else "not ", show(c)[-100:]))
                    break


def presence(c, pol, vals):
    """The condition only asks whether the values are there, which kind of object they belong to, or what the export asks for."""
    c = c03.strip_copy(c)
    while c.op == "un" and c.a[0] in ("bool", "!"):
        pol ^= c.a[0] == "!"
        c = c03.strip_copy(c.a[1])
    if c.op == "op" and c.a[0] in ("&&", "||"):
        both = (c.a[0] == "&&") == pol
        return (all if both else any)(presence(x, pol, vals) for x in c.a[1:3])
    if c.op in ("bool", "imp"):
        return True
    sub = list(subnodes(c))
    if c.op in ("isa", "in") or any(x.op == "enum" for x in sub):
        return True
    if not any(x.op == "call" and x.a[0].startswith(I) and not x.a[0].startswith((I + "converter", I + "Identifiable::getNetwork")) for x in sub):
        return True                                     # options and version only
    if any(x.op == "call" and mname(x.a[0]) in ("test", "getTerminals") for x in sub):
        return True
    if c.op == "call" and re.match(r"^has[A-Z]", mname(c.a[0])):
        return any(mname(c.a[0])[3:] in m for v in vals for m in xm.chain(v))
    if any(x.op in ("lv", "unk") for x in sub) or not any(x.op == "call" and x.a[0].startswith(I) for v in vals for x in subnodes(v)):
        return True                                     # a loop's own condition; a value built up elsewhere
    if c.op == "op" and c.a[0] in ("==", "!="):
        return related(c.a[1], vals) or related(c.a[2], vals)
    if c.op == "call" and mname(c.a[0]) in ("areSame", "operator==", "operator!="):
        return any(isinstance(x, Node) and related(x, vals) for x in [c.a[1]] + list(c.a[2]))
    neg = {"empty": False, "isnan": False}
    if c.op == "call" and mname(c.a[0]) in neg:
        x = c.a[1] if isinstance(c.a[1], Node) and mname(c.a[0]) == "empty" and not c.a[2] else c.a[2][0] if c.a[2] else c.a[1]
        return not pol and related(x, vals)
    return related(c, vals)


def related(x, vals):
    x = c03.strip_copy(x)
    for v in vals:
        sv = set(subnodes(v))
        if x in sv or v in set(subnodes(x)):
            return True
    return False


def given(ctx, title, q, attrs, r, wp, legit):
    """A setter of a property carried by an attribute of the element is given that attribute."""
    wants, unclear = {}, set()
    for wpath, els in wp.items():
        if xm.matches(wpath, q):
            for el in els:
                for a in el.attrs:
                    want = written_property(a, q)[0]
                    if want and "." not in want:
                        wants.setdefault(want, set()).add(a.name)
                    elif not want:
                        unclear.add(a.name)
    done = set()
    for b in attrs:
        for ev, x in r.sinks(q, b):
            if ev in done or ev.k != "call" or len(ev.d[4]) != 1 or not re.match(r"^(set|with)[A-Z]", mname(ev.d[0])):
                continue
            done.add(ev)
            got = norm([mname(ev.d[0]).split("<")[0]])
            if got not in wants:
                continue
            inst = "%s %s %s" % (title, tail(q), mname(ev.d[0]).split("<")[0])
            ctx.inst("given", inst)
            if ev in legit:
                continue
            have = {c.name for c in attrs if c.value in list(subnodes(x))}
            if not have & (wants[got] | unclear):
                ctx.viol("given", inst, ev.loc(), "%s of element %s is given %s, not %s" % (mname(ev.d[0]).split("<")[0], "/".join(q), ", ".join(sorted(have)), " / ".join(sorted(wants[got]))))


def one(ctx, title, inst, q, el, a, got, r):
    # type
    if not any(same_type(a.ty, b.ty) for b in got):
        ctx.viol("type", inst, got[0].ev.loc(), "%s of %s is written as %s and read as %s" % (a.name, "/".join(q), a.ty, got[0].ty))
    # absent values
    for b in got:
        # (the writer leaves out a number that is NaN in every case)
        if a.kind == "optional" or a.ty == "double":
            ctx.inst("absent", inst)
            if b.kind == "plain":
                ok = mandatory_ok(ctx, a)
                if ok is None:
                    ctx.undecided("absent", inst, "no setter shows whether the value can be NaN")
                elif not ok:
                    ctx.viol("absent", "%s %s@%s" % (title, q[-1], a.name), b.ev.loc(), "%s of %s may be left out on export (%s) but is mandatory on import" % (a.name, "/".join(q), "NaN" if a.default is None else show(a.default)))
            elif b.default is not None:
                x = "nan" if a.default is None else const(a.default)
                y = const(b.default)
                if x is None or y is None:
                    ctx.undecided("absent", inst, "absent value %s, default %s" % (show(a.default) if a.default is not None else "NaN", show(b.default)))
                elif x != y and not (isinstance(x, float) and x == 0 and y == "nan"):
                    ctx.viol("absent", inst, b.ev.loc(), "%s of %s is left out on export when it is %s, but is %s on import when absent" % (a.name, "/".join(q), show(a.default) if a.default is not None else "NaN", show(b.default)))
        elif b.kind == "plain":
            cond = conditional(a, el)
            if cond and all(conditional(x, el) for x in el.attrs if x.name == a.name) and not guarded(b, r, q):
                ctx.inst("absent", inst)
                ctx.viol("absent", inst, b.ev.loc(), "%s of %s is only written when %s, but is mandatory on import" % (a.name, "/".join(q), " and ".join(("" if pol else "not ") + show(c)[-60:] for c, pol in cond[:2])))
    # the property
    ctx.inst("property", inst)
    want, chain = written_property(a, q)
    bad = modified(a.value)
    if bad:
        ctx.viol("property", inst, a.ev.loc(), "%s of %s is written as %s" % (a.name, "/".join(q), bad[-80:]))
        return
    if not want or chain and chain[0].startswith("@op"):
        ctx.undecided("property", inst, "value written: %s" % show(a.value)[-80:])
        return
    sinks = [(ev, x, b) for b in got for ev, x in r.sinks(q, b) if not (ev.k == "call" and mname(ev.d[0]).split("<")[0] in xm.WRAP)]
    found = []
    for ev, x, b in sinks:
        got_p = read_property(ev)
        if got_p is None:
            if ev.k == "ctor":
                f = ctx.p.funcs.get(ev.d[0])
                ps = [y["n"] for y in f["p"]] if f else []
                for arg, n in zip(ev.d[3], ps):
                    if isinstance(arg, Node) and b.value in list(subnodes(arg)) and n and n.lower() == want.split(".")[-1].lower():
                        found.append(ev)
            continue
        if got_p == want or got_p.endswith("." + want) or want.endswith("." + got_p) and not re.search(r"\d\b", want[:-len(got_p)]):
            bad = modified(x, (b.value,)) if len(ev.d[4]) == 1 else None
            if bad:
                ctx.viol("property", inst, ev.loc(), "%s of %s is read as %s" % (b.name, "/".join(q), bad[-80:]))
                return
            found.append(ev)
    if found:
        return found
    if not found:
        setters = [(ev, read_property(ev)) for ev, x, b in sinks if ev.k == "call" and re.match(r"^(set|with|add)[A-Z]", mname(ev.d[0])) and c03.strip_copy(x) is not None]
        direct = [(ev, n) for ev, n in setters if n]
        ids = want.split(".")[-1] in ("Id", "Side")
        if direct and not ids:
            ctx.viol("property", inst, direct[0][0].loc(), "%s of %s carries %s on export and is given to %s on import" % (a.name, "/".join(q), want, " / ".join(sorted({n for _, n in direct}))))
        else:
            ctx.undecided("property", inst, "%s: no setter of the value read was recognised" % want)


def mandatory_ok(ctx, a):
    """A number that cannot be NaN is never left out."""
    v = c03.strip_copy(a.value)
    if a.default is not None or a.ty != "double":
        return False
    return never_nan(ctx, v.a[0]) if v.op == "call" else None


def never_nan(ctx, getter):
    """Every way to give the property a value refuses NaN."""
    rec = ctx.p.funcs.get(getter)
    cls = rec["c"] if rec else cname(getter)
    m = re.sub(r"^(get|is)", "", mname(getter))
    for c in [cls] + sorted(ctx.p.subclasses(cls)):
        for f in xm.methods(ctx.p, c, "set" + m):
            r = ctx.p.funcs[f]
            if len(r["p"]) != 1:
                continue
            P = N("param", r["p"][0]["n"])
            e = ctx.summary(f, c03.policy, "c03", maxdepth=6)
            return any(ev.k == "throw" and any("isnan" in show(c) and P in list(subnodes(c)) for c, _ in ev.g) for ev in e.events)
    # no setter: what the adders of the class accept
    got = None
    for c, f in c04.adders(ctx):
        fs = [x for x in xm.methods(ctx.p, c, "set" + m)]
        if not fs:
            continue
        e = ctx.summary(f, c04.policy, "c04")
        if not any(ev.k == "ctor" and ev.d[1] == cls for ev in e.events) and not any(x.op in ("new", "obj") and x.a[0] == cls for _, v in e.rets for x in subnodes(v)):
            continue
        es = ctx.summary(fs[0], c04.policy, "c04")
        P = N("param", ctx.p.funcs[fs[0]]["p"][0]["n"])
        locs = [ev.d[0] for ev in es.events if ev.k == "store" and P in list(subnodes(ev.d[1]))]
        if not locs:
            continue
        ok = any(ev.k == "throw" and any("isnan" in show(g) and any(l in list(subnodes(g)) for l in locs) for g, _ in ev.g) for ev in e.events)
        if not ok and any("isnan" in show(g) and any(l in list(subnodes(g)) for l in locs) for ev in e.events for g, _ in ev.g):
            continue            # replaced by something else when NaN
        got = ok if got is None else got and ok
    return got


def guarded(b, r, q):
    """The reader looks at something else before it asks for the attribute."""
    n = len(xm.guard_path(b.ev.g))
    k = 0
    for i, (c, pol) in enumerate(b.ev.g):
        l = xm.local_name(c.a[1] if c.op == "un" and c.a[0] == "bool" else c)
        if l and (l[0] == "==") == pol:
            k = i + 1
    for c, pol in b.ev.g[k:]:
        if c.op == "imp" or xm.local_name(c.a[1] if c.op == "un" and c.a[0] == "bool" else c):
            continue
        if all(c18.ev3(c, xm.version_env(v)) is not None for v in range(len(xm.VERSIONS))):
            continue
        return True
    return False
