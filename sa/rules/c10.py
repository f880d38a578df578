"""C10: enumerations have complete, distinct names in value order; every value / kind is handled or refused explicitly."""
from common import *

GN = I + "Enum::getNames<"


def check(ctx):
    p = ctx.p
    check_names(ctx)
    check_convert(ctx)
    check_switches(ctx)
    check_kinds(ctx)
    check_visitor(ctx)
    ctx.need("names", 20)
    ctx.need("convert", 20)
    ctx.need("switch", 15)
    ctx.need("kind-of-class", 10)
    ctx.need("visitor", 9)


def norm(s):
    return s.replace("_", "").replace("-", "").lower()


def check_names(ctx):
    p = ctx.p
    for f in sorted(p.funcs):
        if not f.startswith(GN):
            continue
        en = f[len(GN):].split(", void>")[0].rstrip("()>")
        er = p.enums.get(en)
        if er is None:
            raise AnalysisError("enumeration %s not found" % en)
        e = ctx.summary(f, lambda *a: True, "c10")
        rv = e.retvalue()
        while rv is not None and rv.op in ("obj",) and len(rv.a[2]) == 1:
            rv = rv.a[2][0]
        ctx.inst("names", short(en))
        if rv is None or rv.op != "list":
            ctx.undecided("names", short(en), "the list of names is not a constant list")
            continue
        vals = [x for x in rv.a[0]]
        if not all(x.op == "str" for x in vals):
            ctx.undecided("names", short(en), "a name is not a literal")
            continue
        names = [x.a[0] for x in vals]
        ev = sorted(er["v"], key=lambda v: int(v["v"]))
        if [int(v["v"]) for v in ev] != list(range(len(ev))):
            ctx.viol("names", short(en) + "/values", "%s:%s" % (er["file"], er["line"]), "the values of %s are not 0..%d, but its names are found by position" % (short(en), len(ev) - 1))
            continue
        dup = {n for n in names if names.count(n) > 1}
        if dup:
            ctx.viol("names", short(en) + "/distinct", ctx.loc(f), "several values of %s have the name %s" % (short(en), sorted(dup)))
        if len(names) != len(ev):
            ctx.viol("names", short(en) + "/count", ctx.loc(f), "%s has %d values but %d names" % (short(en), len(ev), len(names)))
        for i, (n, v) in enumerate(zip(names, ev)):
            if norm(n) != norm(v["n"]):
                ctx.viol("names", "%s/%s" % (short(en), v["n"]), ctx.loc(f), "the name of %s::%s (value %d) is \"%s\"" % (short(en), v["n"], i, n))
                break


def check_convert(ctx):
    """toString reads the name at the value's position and refuses values without a name; fromString is its inverse."""
    p = ctx.p
    for f in sorted(p.funcs):
        if f.startswith(I + "Enum::toString<"):
            e = ctx.summary(f, lambda f, r, o, d: not f.startswith(GN), "c10c")
            ctx.inst("convert", short(f) + " " + f.split("<")[1].split(",")[0].split("::")[-1])
            key = "toString<%s>" % short(f.split("<")[1].split(",")[0])
            P = N("param", p.funcs[f]["p"][0]["n"])
            names = [n for n in allnodes(e) if n.op == "call" and n.a[0].startswith(GN)]
            rv = e.retvalue()
            if rv is None or not names:
                ctx.undecided("convert", key, "shape not recognised")
                continue
            if not (contains(rv, P) and any(contains(rv, n) for n in names)):
                ctx.viol("convert", key, ctx.loc(f), "%s does not return the name at the value's position: %s" % (key, show(rv)[:100]))
            elif offset_by_constant(rv, P):
                ctx.viol("convert", key, ctx.loc(f), "%s returns the name of a neighbouring value: %s" % (key, show(rv)[:100]))
            if not oob_refused(e, P):
                ctx.viol("convert", key + "/range", ctx.loc(f), "%s reads past the names for a value without a name" % key)
        elif f.startswith(I + "Enum::fromString<"):
            e = ctx.summary(f, lambda f, r, o, d: not f.startswith(GN), "c10c")
            key = "fromString<%s>" % short(f.split("<")[1].split(",")[0])
            ctx.inst("convert", key)
            P = N("param", p.funcs[f]["p"][0]["n"])
            rv = e.retvalue()
            if rv is None:
                ctx.undecided("convert", key, "shape not recognised")
                continue
            finds = [n for n in subnodes(rv) if n.op == "call" and mname(n.a[0]) in ("find", "find_if", "distance") and contains(n, P)]
            lv = [n for n in subnodes(rv) if n.op in ("lv", "phi")]
            if not finds and not lv:
                ctx.viol("convert", key, ctx.loc(f), "%s does not return the position of the given name: %s" % (key, show(rv)[:100]))
            elif any(offset_by_constant(rv, n) for n in finds):
                ctx.viol("convert", key, ctx.loc(f), "%s returns a neighbouring value: %s" % (key, show(rv)[:100]))
            if not any(ev.k == "throw" for ev in e.events):
                ctx.viol("convert", key + "/unknown", ctx.loc(f), "%s accepts a name that belongs to no value" % key)


def allnodes(e):
    out = set()
    for ev in e.events:
        for d in ev.d:
            if isinstance(d, Node):
                subnodes(d, out)
            elif isinstance(d, tuple):
                for y in d:
                    if isinstance(y, Node):
                        subnodes(y, out)
        for c, _ in ev.g:
            subnodes(c, out)
    rv = e.retvalue()
    if rv is not None:
        subnodes(rv, out)
    return out


def offset_by_constant(rv, what):
    for n in subnodes(rv):
        if n.op == "op" and n.a[0] in ("+", "-") and any(x.op == "int" and x.a[0] != 0 for x in n.a[1:]) and contains(n, what):
            return True
    return False


def oob_refused(e, P):
    """Some throw is guarded by value >= size (or value < size negated), not value > size."""
    for ev in e.events:
        if ev.k != "throw":
            continue
        for c, pol in ev.g:
            if c.op == "op" and c.a[0] in ("<", "<=", ">", ">=") and contains(c, P):
                a, b = c.a[1], c.a[2]
                o = c.a[0]
                if contains(b, P):
                    a, b = b, a
                    o = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[o]
                # now o relates value to size
                if not pol:
                    o = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[o]
                if o == ">=" and not (b.op == "op"):
                    return True
                if o == ">" and b.op == "op" and b.a[0] == "-" and b.a[2] is N("int", 1):
                    return True
    return False


# ---------------------------------------------------------------- switches over enumerations

def groups(s):
    items = s["b"]["b"] if s["b"] and s["b"]["k"] == "block" else [s["b"]]
    out = []
    for x in items:
        labels = []
        while x is not None and x["k"] in ("case", "default"):
            labels.append(x["v"] if x["k"] == "case" else None)
            x = x["b"]
        if labels:
            if out and not out[-1][1]:
                out[-1][0].extend(labels)
            else:
                out.append((labels, []))
        if x is not None and out:
            out[-1][1].append(x)
    return out


def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            walk(v, f)
    elif isinstance(x, list):
        for v in x:
            walk(v, f)


def ends(s):
    """Control does not flow out of the end of the statement."""
    if s is None:
        return False
    k = s["k"]
    if k in ("break", "ret", "continue", "goto"):
        return True
    if k == "block":
        return any(ends(x) for x in s["b"])
    if k == "expr":
        return bool(s["e"]) and s["e"]["k"] == "throw"
    if k == "if":
        return ends(s["t"]) and ends(s.get("e"))
    if k in ("switch", "while", "for", "do", "try", "otherstmt"):
        return k in ("otherstmt",)
    return False


def exc_class(b):
    """Names of the exception classes the statements throw when they do nothing but throw."""
    real = [x for x in b if x["k"] not in ("null",)]
    real = [y for x in real for y in (x["b"] if x["k"] == "block" else [x])]
    if len(real) != 1 or real[0]["k"] != "expr" or not real[0]["e"] or real[0]["e"]["k"] != "throw":
        return None
    cl = []

    def g(x):
        if x.get("k") == "ctor" and not cl:
            cl.append(x.get("c") or x.get("f") or "?")
    walk(real[0]["e"].get("a"), g)
    return cl[0] if cl else "?"


def check_switches(ctx):
    p = ctx.p
    seen = set()
    for f in sorted(p.funcs):
        r = p.funcs[f]
        if not r.get("body"):
            continue
        found = []
        walk(r["body"], lambda x: found.append(x) if x.get("k") == "switch" else None)
        for s in found:
            key = (r["file"], s["l"])
            if key in seen:
                continue
            seen.add(key)
            t = (s.get("t") or "").replace("const ", "").replace("&", "").strip()
            gs = groups(s)
            name = "%s(%s)" % (short(f), short(t))
            loc = "%s:%s" % (r["file"], s["l"])
            for i, (labels, body) in enumerate(gs[:-1]):
                if body and not any(ends(x) for x in body) and not falls_explicitly(body):
                    ctx.viol("switch", name + "/fallthrough", "%s:%s" % (r["file"], body[0].get("l", s["l"])), "in %s the case %s runs into the next one" % (short(f), ", ".join(lab(x) for x in labels)))
            er = p.enums.get(t)
            if er is None:
                continue
            ctx.inst("switch", name)
            handled = set()
            dflt = None
            for labels, body in gs:
                for l in labels:
                    if l is None:
                        dflt = body
                    else:
                        handled.add(lab(l))
            missing = [v["n"] for v in er["v"] if v["n"] not in handled]
            if not missing:
                continue
            if dflt is None:
                ctx.viol("switch", name, loc, "%s does nothing for %s::%s" % (short(f), short(t), ", ".join(missing)))
                continue
            ex = exc_class(dflt)
            if ex is not None and "AssertionError" in ex:
                ctx.viol("switch", name, loc, "%s treats %s::%s as an impossible value" % (short(f), short(t), ", ".join(missing)))
            elif all(x["k"] == "break" for x in dflt):
                ctx.viol("switch", name, loc, "%s silently ignores %s::%s" % (short(f), short(t), ", ".join(missing)))


def lab(x):
    if x is None:
        return "default"
    if "n" in x:
        return x["n"]
    if x.get("k") == "cast" or "a" in x and isinstance(x["a"], dict):
        return lab(x["a"])
    return str(x.get("v", x.get("d", "?"))).split("::")[-1]


def falls_explicitly(body):
    return any(x["k"] in ("null", "otherstmt") for x in body)


# ---------------------------------------------------------------- kinds of element

def connectable_kinds(ctx):
    """class -> kinds its constructors give to Connectable."""
    p = ctx.p
    C = I + "Connectable"
    out = {}
    for cid in p.subclasses(C):
        for m in p.classes[cid]["methods"]:
            f = m["f"]
            r = p.funcs.get(f)
            if not r or r.get("kind") != "ctor":
                continue
            e = ctx.summary(f, lambda *a: True, "c10k")
            for ev in e.events:
                if ev.k == "store" and ev.d[0] is N("fld", THIS, "m_connectableType") and ev.d[1].op == "enum":
                    out.setdefault(cid, set()).add(ev.d[1].a[1])
                for a in (ev.d[3] if ev.k == "basector" else ()):
                    if isinstance(a, Node) and a.op == "enum" and a.a[0] == I + "ConnectableType":
                        out.setdefault(cid, set()).add(a.a[1])
    return out


EXPECT = {"BusbarSection": "BUSBAR_SECTION", "Line": "LINE", "TieLine": "LINE", "TwoWindingsTransformer": "TWO_WINDINGS_TRANSFORMER",
          "ThreeWindingsTransformer": "THREE_WINDINGS_TRANSFORMER", "Generator": "GENERATOR", "Battery": "BATTERY", "Load": "LOAD",
          "ShuntCompensator": "SHUNT_COMPENSATOR", "DanglingLine": "DANGLING_LINE", "StaticVarCompensator": "STATIC_VAR_COMPENSATOR",
          "VscConverterStation": "HVDC_CONVERTER_STATION", "LccConverterStation": "HVDC_CONVERTER_STATION", "HvdcConverterStation": "HVDC_CONVERTER_STATION"}


def check_kinds(ctx):
    p = ctx.p
    ks = connectable_kinds(ctx)
    for n, k in sorted(EXPECT.items()):
        cid = I + n
        if cid not in p.classes:
            continue
        ctx.inst("kind-of-class", n)
        got = ks.get(cid)
        if got is None:
            ctx.undecided("kind-of-class", n, "the kind is not a constant")
        elif got != {k}:
            ctx.viol("kind-of-class", n, "%s:%s" % (p.classes[cid]["file"], p.classes[cid]["line"]), "a %s is created as a %s" % (n, "/".join(sorted(got))))
    want = {"VscConverterStation": "VSC", "LccConverterStation": "LCC"}
    for n, k in want.items():
        for f in ctx.method(I + n, "getHvdcType"):
            if f in p.funcs:
                ctx.inst("kind-of-class", n + "::getHvdcType")
                rv = ctx.summary(f, lambda *a: True, "c10").retvalue()
                if rv is None or rv.op != "enum" or rv.a[1] != k:
                    ctx.viol("kind-of-class", n + "::getHvdcType", ctx.loc(f), "the HVDC type of %s is %s" % (n, show(rv) if rv else "?"))
    want = {"Line": "LINE", "TwoWindingsTransformer": None, "BusBreakerVoltageLevel": "BUS_BREAKER", "NodeBreakerVoltageLevel": "NODE_BREAKER"}
    for n in ("BusBreakerVoltageLevel", "NodeBreakerVoltageLevel"):
        for f in ctx.method(I + n, "getTopologyKind"):
            if f in p.funcs:
                ctx.inst("kind-of-class", n + "::getTopologyKind")
                rv = ctx.summary(f, lambda *a: True, "c10").retvalue()
                if rv is None or rv.op != "enum" or rv.a[1] != want[n]:
                    ctx.viol("kind-of-class", n + "::getTopologyKind", ctx.loc(f), "the topology kind of %s is %s" % (n, show(rv) if rv else "?"))


def check_visitor(ctx):
    """Every visit function of the topology visitor is called for its own kind of element."""
    p = ctx.p
    V = I + "TopologyVisitor"
    ks = connectable_kinds(ctx)
    fs = [f for f in ctx.methods(V) if mname(f) == "visitEquipments" and f in p.funcs]
    if not fs:
        raise AnalysisError("TopologyVisitor::visitEquipments vanished")
    f = fs[0]
    e = ctx.summary(f, lambda f, r, o, d: not mname(f).startswith("visit"), "c10v")
    visits = [m["f"] for m in p.classes[V]["methods"] if mname(m["f"]).startswith("visit") and mname(m["f"]) != "visitEquipments"]
    for v in sorted(set(visits)):
        params = v.split("(", 1)[1]
        t = params.split(" &")[0].replace("const ", "").strip()
        if t not in ks and not any(t in p.bases(c) for c in ks):
            continue
        kinds = ks.get(t) or {x for c, kk in ks.items() if t in p.bases(c) for x in kk}
        ctx.inst("visitor", short(v))
        calls = [ev for ev in e.events if ev.k == "call" and ev.d[0] == v]
        if not calls:
            # called through a lambda/table: not recognised; through nothing: missing
            ctx.viol("visitor", short(v), ctx.loc(f), "no element is passed to %s" % short(v))
            continue
        for ev in calls:
            got = set()
            neg = set()
            for c, pol in ev.g:
                if c.op == "op" and c.a[0] == "==":
                    en = [x for x in c.a[1:] if x.op == "enum" and x.a[0] == I + "ConnectableType"]
                    if en:
                        (got if pol else neg).add(en[0].a[1])
                if c.op == "in" and pol:
                    got |= {x.a[1] for x in c.a[1] if x is not None and x.op == "enum"}
            if got and not got <= kinds:
                ctx.viol("visitor", short(v), ev.loc(), "%s is called for elements of kind %s" % (short(v), "/".join(sorted(got))))
            elif neg & kinds and not got:
                ctx.viol("visitor", short(v), ev.loc(), "%s is not called for elements of kind %s" % (short(v), "/".join(sorted(neg & kinds))))
