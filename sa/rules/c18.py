"""C18: each import/export option is read under its name, kept in its own field, and honoured."""
from common import *
from rules import c03

C = I + "converter::"
# documented options: constant -> (name, reading accessor, type, default, setter)
EXPORT = {
    "ANONYMISED": ("iidm.export.xml.anonymised", "isAnonymized", "BOOLEAN", "false", "setAnonymized"),
    "EXTENSIONS_LIST": ("iidm.export.xml.extensions", "withExtension", "STRING_LIST", "", "setExtensions"),
    "IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR": ("iidm.export.xml.iidm-version-incompatibility-behavior", "getIidmVersionIncompatibilityBehavior", "STRING", "THROW_EXCEPTION", "setIidmVersionIncompatibilityBehavior"),
    "INDENT": ("iidm.export.xml.indent", "isIndent", "BOOLEAN", "true", "setIndent"),
    "ONLY_MAIN_CC": ("iidm.export.xml.only-main-cc", "isOnlyMainCc", "BOOLEAN", "false", "setOnlyMainCc"),
    "THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND": ("iidm.export.xml.throw-exception-if-extension-not-found", "isThrowExceptionIfExtensionNotFound", "BOOLEAN", "false", "setThrowExceptionIfExtensionNotFound"),
    "TOPOLOGY_LEVEL": ("iidm.export.xml.topology-level", "getTopologyLevel", "STRING", "NODE_BREAKER", "setTopologyLevel"),
    "VERSION": ("iidm.export.xml.version", "getVersion", "STRING", None, "setVersion"),
    "WITH_BRANCH_STATE_VARIABLES": ("iidm.export.xml.with-branch-state-variables", "isWithBranchSV", "BOOLEAN", "true", "setWithBranchSV"),
}
IMPORT = {
    "EXTENSIONS_LIST": ("iidm.import.xml.extensions", "withExtension", "STRING_LIST", "", "setExtensions"),
    "THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND": ("iidm.import.xml.throw-exception-if-extension-not-found", "isThrowExceptionIfExtensionNotFound", "BOOLEAN", "false", "setThrowExceptionIfExtensionNotFound"),
}
LEGACY = "throwExceptionIfExtensionNotFound"
READS = {"BOOLEAN": ("readBooleanParameter",), "STRING": ("readStringParameter",), "STRING_LIST": ("readStringListParameter",), "DOUBLE": ("readDoubleParameter",)}
# arguments of the value constructor of ExportOptions -> accessor
ARGS = {"withBranchSV": "isWithBranchSV", "indent": "isIndent", "onlyMainCc": "isOnlyMainCc", "topologyLevel": "getTopologyLevel",
        "throwExceptionIfExtensionNotFound": "isThrowExceptionIfExtensionNotFound", "version": "getVersion",
        "iidmVersionIncompatibilityBehavior": "getIidmVersionIncompatibilityBehavior"}


def ev3(n, env, memo=None):
    """Three-valued truth of a condition; env(node) gives True/False for known atoms, else None."""
    if memo is None:
        memo = {}
    if n in memo:
        return memo[n]
    memo[n] = None
    r = env(n)
    if r is None:
        if n is TRUE:
            r = True
        elif n is FALSE:
            r = False
        elif n.op == "int" and isinstance(n.a[0], (int, str)) and str(n.a[0]).lstrip("-").isdigit():
            r = int(n.a[0]) != 0
        elif n.op == "un" and n.a[0] == "bool":
            r = ev3(n.a[1], env, memo)
        elif n.op == "un" and n.a[0] == "!":
            x = ev3(n.a[1], env, memo)
            r = None if x is None else not x
        elif n.op == "op" and n.a[0] in ("&&", "||"):
            x, y = ev3(n.a[1], env, memo), ev3(n.a[2], env, memo)
            if n.a[0] == "&&":
                r = False if x is False or y is False else True if x and y else None
            else:
                r = True if x or y else False if x is False and y is False else None
        elif n.op == "ite":
            c = ev3(n.a[0], env, memo)
            if c is not None:
                r = ev3(n.a[1] if c else n.a[2], env, memo)
            else:
                x, y = ev3(n.a[1], env, memo), ev3(n.a[2], env, memo)
                r = x if x == y else None
        elif n.op == "imp":
            c = ev3(n.a[0], env, memo)
            x = ev3(n.a[2], env, memo)
            if c is not None and c != n.a[1]:
                r = True
            elif x is not None and x == n.a[3]:
                r = True
            elif c is not None and x is not None:
                r = False
    memo[n] = r
    return r


def reach(ev, env):
    """False when a guard of the event is known not to hold, True when all hold, None otherwise."""
    out = True
    memo = {}
    for c, pol in ev.g:
        r = ev3(c, env, memo)
        if r is not None and r != pol:
            return False
        if r is None:
            out = None
    return out


def is_field(n, f):
    return n.op == "fld" and n.a[1] == f


def mentions_field(ev, f):
    return any(is_field(x, f) for c, _ in ev.g for x in subnodes(c))


def pick(f, val):
    return lambda n: val if is_field(n, f) else None


def pick_enum(f, name):
    def env(n):
        if n.op == "op" and n.a[0] in ("==", "!="):
            for a, b in ((n.a[1], n.a[2]), (n.a[2], n.a[1])):
                if is_field(a, f) and b.op == "enum":
                    return (b.a[1] == name) == (n.a[0] == "==")
        return None
    return env


def strings(x):
    """String literals and constants an initialiser mentions, in source order."""
    out = []
    if isinstance(x, dict):
        if x.get("k") == "str":
            out.append(("str", x.get("v")))
        elif x.get("k") == "var":
            out.append(("var", x.get("d")))
        elif x.get("k") == "enum":
            out.append(("enum", x.get("v")))
        for k in ("f", "fn", "o", "e", "x", "init", "a", "b", "l", "i"):
            v = x.get(k)
            if isinstance(v, (dict, list)):
                out += strings(v)
    elif isinstance(x, list):
        for y in x:
            out += strings(y)
    return out


def param_ctor(x):
    """The construction of a Parameter inside an initialiser."""
    todo = [x]
    while todo:
        n = todo.pop()
        if isinstance(n, dict):
            if n.get("k") == "ctor" and n.get("c") == C + "Parameter" and len(n.get("a", ())) == 4:
                return n
            todo.extend(v for v in n.values() if isinstance(v, (dict, list)))
        elif isinstance(n, list):
            todo.extend(n)


def const_str(p, items):
    for k, v in items:
        if k == "str":
            return v
        if k == "var":
            g = p.globals.get(v)
            if g and isinstance(g.get("init"), dict):
                return const_str(p, strings(g["init"]))
    return None


def parameters(ctx):
    """global id -> (names, type, default) of the Parameter objects; default None when computed."""
    p = ctx.p
    out = {}
    for g, r in p.globals.items():
        if C + "Parameter" not in r.get("t", ""):
            continue
        c = param_ctor(r.get("init"))
        if c is None:
            continue
        name = const_str(p, strings(c["a"][0]))
        ty = [v for k, v in strings(c["a"][1]) if k == "enum"]
        d = strings(c["a"][3])
        lits = [v for k, v in d if k == "str"]
        computed = any(isinstance(y, dict) and y.get("k") == "call" for y in walk(c["a"][3]))
        inside = {id(y) for y in walk(c)}
        extra = [y["v"] for y in walk(r["init"]) if isinstance(y, dict) and y.get("k") == "str" and id(y) not in inside]
        out[g] = ([name] + extra, ty[0] if ty else None, None if computed or not lits else lits[0], r)
    return out


def walk(x):
    todo = [x]
    while todo:
        n = todo.pop()
        if isinstance(n, dict):
            yield n
            todo.extend(v for v in n.values() if isinstance(v, (dict, list)))
        elif isinstance(n, list):
            todo.extend(n)


def gid(n):
    if n.op in ("global", "gvar", "g"):
        return n.a[0]
    return None


def globals_in(n):
    return [x.a[0] for x in subnodes(n) if x.op not in ("fld", "call") and x.a and isinstance(x.a[0], str) and "PARAMETER" in x.a[0] or x.op == "global"]


def fields_of(v):
    return {x.a[1] for x in subnodes(v) if x.op == "fld" and x.a[0] is THIS}


def own_policy(f, rec, obj, depth):
    return "ConversionParameters" not in f and mname(f) not in ("toSet", "fromString", "toString")


def check(ctx):
    p = ctx.p
    for cls, table in ((C + "ExportOptions", EXPORT), (C + "ImportOptions", IMPORT)):
        check_class(ctx, cls, table)
    check_readers(ctx)
    check_passing(ctx)
    check_export(ctx)
    check_import(ctx)
    ctx.need("name", 11)
    ctx.need("parameter", 11)
    ctx.need("default", 11)
    ctx.need("accessor", 20)
    ctx.need("reader", 4)
    ctx.need("effect", 11)


def field_of_accessor(ctx, cls, acc):
    fs = [f for f in ctx.method(cls, acc, False) if f in ctx.p.funcs]
    if not fs:
        return None, None
    e = ctx.summary(fs[0], own_policy, "c18")
    fl = set()
    for st, v in e.rets:
        if v is not None:
            fl |= fields_of(v)
        for c, _ in st.g or ():
            fl |= fields_of(c)
    return fs[0], fl


def check_class(ctx, cls, table):
    p = ctx.p
    if cls not in p.classes:
        raise AnalysisError("class %s not found" % cls)
    pars = parameters(ctx)
    props = values = None
    for f, r in p.funcs.items():
        if f.startswith(cls + "::<ctor>("):
            if len(r["p"]) == 1 and "Properties" in r["p"][0]["t"]:
                props = f
            elif len(r["p"]) >= 4:
                values = f
    if props is None:
        raise AnalysisError("%s cannot be built from properties any more" % cls)
    e = ctx.summary(props, own_policy, "c18")
    heap = e.rets[-1][0].heap if e.rets else {}
    names = {}
    short_c = cls.split("::")[-1]
    for const, (name, acc, ty, default, setter) in sorted(table.items()):
        inst = "%s.%s" % (short_c, const)
        # the documented name
        ctx.inst("name", inst)
        g = p.globals.get(cls + "::" + const)
        got = const_str(p, strings(g["init"])) if g and g.get("init") else None
        if got is None:
            ctx.undecided("name", inst, "constant not found")
        elif got != name:
            ctx.viol("name", inst, "%s:%s" % (g["file"], g["line"]), "option %s is named '%s', documented '%s'" % (const, got, name))
        f, fl = field_of_accessor(ctx, cls, acc)
        ctx.inst("accessor", "%s read by %s" % (inst, acc))
        if f is None:
            ctx.undecided("accessor", inst, "no accessor %s" % acc)
            continue
        if len(fl) != 1:
            ctx.viol("accessor", inst + " read", ctx.loc(f), "%s depends on %s instead of its own field" % (acc, ", ".join(sorted(fl)) or "no field"))
            continue
        field = next(iter(fl))
        if field in names:
            ctx.viol("accessor", inst + " shared", ctx.loc(f), "%s and %s read the same field %s" % (acc, names[field], field))
        names[field] = acc
        # read from the properties
        ctx.inst("parameter", inst)
        v = next((vv for k, vv in heap.items() if k.op == "fld" and k.a[0] is THIS and k.a[1] == field), None)
        loc = ctx.loc(props)
        if v is None:
            ctx.viol("parameter", inst, loc, "%s does not read %s: %s is never set from the parameters" % (short_c, name, field))
            continue
        calls = [x for x in subnodes(v) if x.op == "call" and "ConversionParameters" in x.a[0]]
        if not calls:
            # read in another way: the constant's name must be looked up
            if any(x.op == "str" and x.a[0] == name for x in subnodes(v)):
                continue
            if v.op in ("bool", "str", "int", "enum", "obj") and not any(x.op == "param" for x in subnodes(v)):
                ctx.viol("parameter", inst, loc, "%s is not read from the parameters: %s is %s" % (name, field, show(v)))
            else:
                ctx.undecided("parameter", inst, "read as %s" % show(v)[:80])
            continue
        used = {g for x in calls for y in x.a[2] for g in pars if any(z.a and z.a[0] == g for z in subnodes(y))}
        if len(used) != 1:
            ctx.undecided("parameter", inst, "parameter object not identified in %s" % show(v)[:80])
            continue
        pg = next(iter(used))
        pnames, pty, pdef, rec = pars[pg]
        if pnames[0] != name:
            ctx.viol("parameter", inst, loc, "%s (%s) is read under '%s' instead of '%s'" % (acc, field, pnames[0], name))
        if mname(calls[0].a[0]) not in READS[ty]:
            ctx.viol("parameter", inst + " type", loc, "'%s' is read by %s" % (name, mname(calls[0].a[0])))
        if any(x.op == "un" and x.a[0] == "!" for x in subnodes(v)):
            ctx.viol("parameter", inst + " negated", loc, "'%s' is stored negated" % name)
        if pty != ty:
            ctx.viol("parameter", inst + " declared type", "%s:%s" % (rec["file"], rec["line"]), "'%s' is declared %s, documented %s" % (name, pty, ty))
        if const == "THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND" and LEGACY not in pnames:
            ctx.viol("parameter", inst + " legacy name", "%s:%s" % (rec["file"], rec["line"]), "the additional name '%s' is no longer accepted" % LEGACY)
        # defaults agree: documented, of the parameter, of an object built without parameters
        ctx.inst("default", inst)
        if default is None:
            if pdef is not None:
                ctx.viol("default", inst, "%s:%s" % (rec["file"], rec["line"]), "'%s' defaults to the fixed '%s' instead of the current version" % (name, pdef))
            elif not any(isinstance(y, dict) and "CURRENT_IIDM_XML_VERSION" in str(y.get("f", "")) for y in walk(rec["init"])):
                ctx.undecided("default", inst, "default value computed in another way")
        elif (pdef or "") != default:
            ctx.viol("default", inst, "%s:%s" % (rec["file"], rec["line"]), "'%s' defaults to '%s', documented '%s'" % (name, pdef, default))
        fr = next((x for x in p.classes[cls]["fields"] if x["n"] == field), None)
        init = fr.get("init") if fr else None
        if default is not None and default != "":
            lit = initial(init)
            if lit is None:
                ctx.viol("default", inst + " built", "%s:%s" % (p.classes[cls]["file"], fr["l"] if fr else 0), "%s has no initial value" % field) if init is None else ctx.undecided("default", inst + " built", "initial value of %s" % field)
            elif lit != default:
                ctx.viol("default", inst + " built", "%s:%s" % (p.classes[cls]["file"], fr["l"]), "an object built without parameters has %s = %s, the parameter defaults to %s" % (field, lit, default))
        # the setter
        ctx.inst("accessor", "%s set by %s" % (inst, setter))
        for s in ctx.method(cls, setter, False):
            if s in p.funcs and len(p.funcs[s]["p"]) == 1:
                check_setter(ctx, cls, s, field, inst)
    # adding one extension
    for s in ctx.method(cls, "addExtension", False):
        if s not in p.funcs:
            continue
        ctx.inst("accessor", short_c + ".addExtension")
        e = ctx.summary(s, own_policy, "c18")
        P = N("param", p.funcs[s]["p"][0]["n"])
        ok = any(ev.k == "call" and mname(ev.d[0]) in ("insert", "emplace") and any(P in list(subnodes(a)) for a in ev.d[4]) and not ev.g for ev in e.events)
        if not ok:
            ctx.viol("accessor", short_c + ".addExtension", ctx.loc(s), "addExtension does not always add the extension it is given")
    for s in ctx.method(cls, "withExtension", False):
        if s in p.funcs:
            check_with(ctx, s, short_c)
    for s in ctx.method(cls, "hasAtLeastOneExtension", False):
        if s in p.funcs:
            check_any(ctx, s, short_c)
    check_versions(ctx, cls, short_c)
    if values:
        e = ctx.summary(values, own_policy, "c18")
        heap = e.rets[-1][0].heap if e.rets else {}
        for q in p.funcs[values]["p"]:
            acc = ARGS.get(q["n"])
            if not acc:
                continue
            ctx.inst("accessor", "%s argument %s" % (short_c, q["n"]))
            f, fl = field_of_accessor(ctx, cls, acc)
            if not fl or len(fl) != 1:
                continue
            field = next(iter(fl))
            v = next((vv for k, vv in heap.items() if k.op == "fld" and k.a[0] is THIS and k.a[1] == field), None)
            if v is None or c03.strip_copy(v) is not N("param", q["n"]):
                ctx.viol("accessor", "%s argument %s" % (short_c, q["n"]), ctx.loc(values), "argument %s is not what %s returns (%s)" % (q["n"], acc, show(v) if v is not None else "not stored"))


def initial(x):
    for y in walk(x):
        if isinstance(y, dict):
            if y.get("k") == "bool":
                return "true" if y.get("v") else "false"
            if y.get("k") in ("str", "enum"):
                return y.get("v")
    return None


def check_setter(ctx, cls, s, field, inst):
    p = ctx.p
    e = ctx.summary(s, own_policy, "c18")
    P = N("param", p.funcs[s]["p"][0]["n"])
    nm = mname(s)
    good = False
    for ev in e.events:
        if ev.k == "store" and ev.d[0].op == "fld":
            if ev.d[0].a[1] == field and ev.d[0].a[0] is THIS:
                if c03.strip_copy(ev.d[1]) is P and not ev.g:
                    good = True
                else:
                    ctx.viol("accessor", inst + " set", ev.loc(), "%s stores %s%s" % (nm, show(ev.d[1])[:60], " only under a condition" if ev.g else ""))
                    return
            elif ev.d[0].a[0] is THIS:
                ctx.viol("accessor", "%s set changes %s" % (inst, ev.d[0].a[1]), ev.loc(), "%s also changes %s" % (nm, ev.d[0].a[1]))
        if ev.k == "call" and mname(ev.d[0]) in c03.MUT | {"operator="} and ev.d[3] is not None and ev.d[3].op == "fld" and ev.d[3].a[0] is THIS:
            if ev.d[3].a[1] == field and any(a is P for a in ev.d[4]) and not ev.g:
                good = True
            elif ev.d[3].a[1] != field:
                ctx.viol("accessor", "%s set changes %s" % (inst, ev.d[3].a[1]), ev.loc(), "%s also changes %s" % (nm, ev.d[3].a[1]))
    if not good:
        v = next((vv for st, _ in e.rets for k, vv in st.heap.items() if k.op == "fld" and k.a[0] is THIS and k.a[1] == field), None)
        if v is None or c03.strip_copy(v) is not P:
            ctx.viol("accessor", inst + " set", ctx.loc(s), "%s does not store its argument in %s" % (nm, field))
    for st, v in e.rets:
        if v is not None and v is not THIS:
            ctx.viol("accessor", inst + " chained", ctx.loc(s), "%s does not return the object it was called on" % nm)


def ext_env(empty, found):
    """Atoms of the extension list: emptiness and membership."""
    def env(n):
        if n.op == "call" and mname(n.a[0]) == "empty" and n.a[1] is not None and is_field(n.a[1], "m_extensions"):
            return empty
        if n.op == "op" and n.a[0] in ("==", "!=") and any(x.op == "call" and mname(x.a[0]) == "find" and x.a[1] is not None and is_field(x.a[1], "m_extensions") for x in (n.a[1], n.a[2])):
            return (not found) == (n.a[0] == "==")
        if n.op in ("found",) and is_field(n.a[0], "m_extensions"):
            return found
        if n.op == "call" and mname(n.a[0]) in ("count", "contains") and n.a[1] is not None and is_field(n.a[1], "m_extensions"):
            return found
        return None
    return env


CASES = ((True, False, True), (False, True, True), (False, False, False))


def check_with(ctx, s, short_c):
    """withExtension: everything when no list was given, else exactly the listed ones."""
    ctx.inst("accessor", short_c + ".withExtension")
    e = ctx.summary(s, own_policy, "c18")
    for empty, found, want in CASES:
        env = ext_env(empty, found)
        got = set()
        for st, v in e.rets:
            blocked = False
            for c, pol in st.g or ():
                r = ev3(c, env)
                if r is not None and r != pol:
                    blocked = True
            if not blocked and v is not None:
                got.add(ev3(v, env))
        if None in got or not got:
            ctx.undecided("accessor", short_c + ".withExtension", "value for %s list" % ("an empty" if empty else "a"))
        elif got != {want}:
            ctx.viol("accessor", "%s.withExtension" % short_c, ctx.loc(s), "withExtension gives %s for %s" % (sorted(got), "an empty list" if empty else "an extension %s the list" % ("in" if found else "not in")))


def check_any(ctx, s, short_c):
    """hasAtLeastOneExtension: a listed extension is never missed."""
    inst = short_c + "." + mname(s)
    ctx.inst("accessor", inst)
    e = ctx.summary(s, own_policy, "c18")
    for empty, found, want in CASES:
        env = ext_env(empty, found)
        got = {ev3(v, env) for st, v in e.rets if v is not None and all(ev3(c, env) in (None, pol) for c, pol in st.g or ())}
        if want and None not in got and True not in got:
            ctx.viol("accessor", inst, ctx.loc(s), "%s is never true %s" % (mname(s), "without a list" if empty else "for an extension of the list"))


def check_versions(ctx, cls, short_c):
    """The version chosen for one extension is kept under the name of that extension."""
    p = ctx.p
    for s in ctx.method(cls, "addExtensionVersion", False):
        if s not in p.funcs or len(p.funcs[s]["p"]) != 2:
            continue
        inst = short_c + ".addExtensionVersion"
        ctx.inst("accessor", inst)
        e = ctx.summary(s, own_policy, "c18")
        NAME, VER = (N("param", q["n"]) for q in p.funcs[s]["p"])
        st = [ev for ev in e.events if ev.k == "call" and mname(ev.d[0]) in c03.MUT and ev.d[3] is not None and ev.d[3].op == "fld" and ev.d[3].a[1] == "m_extensionsVersions"]
        if not st:
            ctx.undecided("accessor", inst, "no insertion found")
        for ev in st:
            flat = [x for a in ev.d[4] for x in (a.a[0] if a.op == "list" else a.a if a.op == "pair" else (a,))]
            order = [x for a in ev.d[4] for x in subnodes(a) if x is NAME or x is VER]
            first = next((c03.strip_copy(x) for x in flat if isinstance(x, Node)), None)
            if first is VER:
                ctx.viol("accessor", inst, ev.loc(), "the version is used as the name of the extension")
            if NAME not in order or VER not in order:
                ctx.viol("accessor", inst, ev.loc(), "the version of the extension given is not stored (%s)" % ", ".join(show(a) for a in ev.d[4])[:80])
        # a listed extension without version is accepted: the insertion is reached
        for empty, found, want in CASES:
            known = lambda n, base=ext_env(empty, found): (False if n.op in ("call", "found") and is_field(n.a[1] if n.op == "call" and n.a[1] is not None else n.a[0] if isinstance(n.a[0], Node) else n, "m_extensionsVersions") and n.op == "found" else base(n))
            for ev in st:
                r = reach(ev, known)
                if want and r is False:
                    ctx.viol("accessor", inst + " admitted", ev.loc(), "the version of an extension that is %s is refused" % ("exported, as all are," if empty else "in the list"))
                if not want and r is not False:
                    ctx.viol("accessor", inst + " refused", ev.loc(), "a version is accepted for an extension that is not exported")
    for s in ctx.method(cls, "getExtensionVersion", False):
        if s not in p.funcs or len(p.funcs[s]["p"]) != 1:
            continue
        inst = short_c + ".getExtensionVersion"
        ctx.inst("accessor", inst)
        e = ctx.summary(s, own_policy, "c18")
        NAME = N("param", p.funcs[s]["p"][0]["n"])
        if not any(v is not None and any(x.op == "found" and x.a[1] is NAME and is_field(x.a[0], "m_extensionsVersions") or x.op == "call" and mname(x.a[0]) == "at" and NAME in x.a[2] for x in subnodes(v)) for st, v in e.rets):
            ctx.viol("accessor", inst, ctx.loc(s), "getExtensionVersion does not return the version kept under the name given")


def check_readers(ctx):
    """ConversionParameters: the value given under any of the names, else the default."""
    p = ctx.p
    cid = C + "ConversionParameters"
    pol = lambda f, rec, obj, depth: True
    for f in sorted(ctx.methods(cid)):
        if f not in p.funcs or not mname(f).startswith("read") or len(p.funcs[f]["p"]) != 2:
            continue
        ctx.inst("reader", mname(f))
        e = ctx.summary(f, pol, "c18all")
        props, conf = (N("param", q["n"]) for q in p.funcs[f]["p"])
        given = dflt = False
        for ev in e.events + []:
            pass
        for st, v in e.rets:
            if v is None:
                continue
            src = list(subnodes(v))
            if any(x is props for x in src):
                # the value of the name that was tested, among the parameter's names
                keys = {x.a[1] for x in src if x.op == "found" and root(x.a[0]) is props} | {x.a[2][0] for x in src if x.op == "call" and mname(x.a[0]) in ("get", "at") and x.a[1] is props and x.a[2]}
                if not keys:
                    ctx.undecided("reader", mname(f), "value %s" % show(v)[:80])
                    given = True
                    continue
                for k in keys:
                    if not (k.op == "elem" and root(k.a[0]) is conf and k.a[0].op == "fld"):
                        ctx.viol("reader", mname(f) + " names", ctx.loc(f), "%s looks only at %s, not at every name of the parameter" % (mname(f), show(k)))
                given = True
            elif any(x is conf for x in src) or v.op == "local":
                dflt = True
            else:
                ctx.viol("reader", mname(f) + " value", ctx.loc(f), "%s can return %s, which is neither the given value nor the default" % (mname(f), show(v)[:60]))
        for x, what in ((given, "the given value"), (dflt, "the default")):
            if not x:
                ctx.viol("reader", "%s %s" % (mname(f), what), ctx.loc(f), "%s never returns %s" % (mname(f), what))
        if mname(f) == "readStringListParameter":
            seps = {x.a[0] for st, v in e.rets if v is not None for x in subnodes(v) if x.op == "str"} | {x.a[0] for ev in e.events if ev.k == "call" for a in ev.d[4] if isinstance(a, Node) for x in subnodes(a) if x.op == "str"}
            seps = {x for x in seps if x and not any(ch.isalnum() for ch in x)}
            if len(seps) == 1 and not any("," in x and ":" in x for x in seps) or len(seps) > 1 and any(len(x) > 1 and set(x) != {",", ":"} for x in seps) or len(seps) > 1 and any("," in x and ":" in x for x in seps):
                ctx.viol("reader", "list separators", ctx.loc(f), "a list option is split at %s only, not at ',' and ':'" % sorted(seps))
        if mname(f) == "readBooleanParameter":
            for st, v in e.rets:
                if v is not None and v.op == "call" and mname(v.a[0]) == "iequals" and not any(x.op == "str" and x.a[0] == "true" for x in v.a[2]):
                    ctx.viol("reader", "boolean text", ctx.loc(f), "a boolean option is true for %s" % show(v)[:60])
    for f in ctx.method(C + "Parameter", "getBooleanDefaultValue"):
        if f in p.funcs:
            ctx.inst("reader", "boolean default")
            for st, v in ctx.summary(f, pol, "c18all").rets:
                if v is not None and v.op == "call" and mname(v.a[0]) == "iequals" and not any(x.op == "str" and x.a[0] == "true" for x in v.a[2]):
                    ctx.viol("reader", "boolean default", ctx.loc(f), "a boolean default is true for %s" % show(v)[:60])


def root_policy(f, rec, obj, depth):
    return not f.startswith(("powsybl::xml::", I + "Network::", I + "VoltageLevel::")) and "ExtensionProviders" not in f and mname(f) != "getMinTopologyLevel" and "logging" not in f


def roots(ctx, name, nparams):
    fs = [f for f in ctx.method(X + "NetworkXml", name) if f in ctx.p.funcs and len(ctx.p.funcs[f]["p"]) == nparams]
    if not fs:
        raise AnalysisError("NetworkXml::%s not found" % name)
    return fs[0]


def check_passing(ctx):
    """The public entry points give the caller's options to the converter."""
    p = ctx.p
    for name, inner, ty in (("writeXml", "write", "ExportOptions"), ("readXml", "read", "ImportOptions")):
        for f in ctx.method(I + "Network", name):
            if f not in p.funcs:
                continue
            opt = next((q["n"] for q in p.funcs[f]["p"] if ty in q["t"]), None)
            if opt is None:
                continue
            ctx.inst("effect", "%s passes its options" % name)
            e = ctx.summary(f, lambda g, rec, obj, depth: "converter::xml" not in g, "c18pass")
            cs = [ev for ev in e.events if ev.k == "call" and mname(ev.d[0]) == inner and "NetworkXml" in ev.d[0]]
            if not cs:
                ctx.undecided("effect", name, "converter not called")
            for ev in cs:
                if not any(c03.strip_copy(a) is N("param", opt) for a in ev.d[4]):
                    ctx.viol("effect", "%s passes its options (%d parameters)" % (name, len(p.funcs[f]["p"])), ev.loc(), "Network::%s does not pass its options to the converter" % name)


def numbered(n):
    """(text, number) of a constant text followed by a number that is not constant."""
    if n.op == "op" and n.a[0] == "+" and n.a[1].op == "str" and n.a[2].op == "call" and mname(n.a[2].a[0]) == "to_string" and n.a[2].a[2]:
        return n.a[1].a[0], n.a[2].a[2][0]
    return None


def attr_name(n):
    """The possible names of an attribute."""
    if n.op == "str":
        return {n.a[0]}
    if n.op == "ite":
        c = n.a[0]
        if c.op == "un" and c.a[0] == "bool":
            c = c.a[1]
        if c.op == "null":
            return attr_name(n.a[2])
        if c.op in ("int", "bool"):
            v = c.a[0] if c.op == "int" else c is TRUE
            return attr_name(n.a[1] if str(v) not in ("0", "False") else n.a[2])
        t = numbered(n.a[1])
        if t is not None and c is t[1]:
            return {t[0] + "#"}
        return attr_name(n.a[1]) | attr_name(n.a[2])
    t = numbered(n)
    if t is not None:
        return {t[0] + "#"}
    return set()


def check_export(ctx):
    p = ctx.p
    w = roots(ctx, "write", 4)
    e = ctx.summary(w, root_policy, "c18root", maxevents=300000)
    ctx.notes.append("NetworkXml::write expanded to %d events" % len(e.events))
    opt = N("param", next(q["n"] for q in p.funcs[w]["p"] if "ExportOptions" in q["t"]))
    evs = e.events

    def both(what, events, off, on, msg_off, msg_on):
        """events must not happen under off, and be possible under on."""
        ctx.inst("effect", what)
        if not events:
            ctx.viol("effect", what, ctx.loc(w), "%s: %s" % (what, msg_on))
            return
        for ev in events:
            if reach(ev, off) is not False:
                ctx.viol("effect", what, ev.loc(), "%s: %s" % (what, msg_off))
                return
        if all(reach(ev, on) is False for ev in events):
            ctx.viol("effect", what, events[0].loc(), "%s: %s" % (what, msg_on))

    # indentation
    ctx.inst("effect", "indentation")
    ws = [ev for ev in evs if ev.k == "ctor" and ev.d[1] == "powsybl::xml::XmlStreamWriter"]
    for ev in ws:
        flag = [a for a in ev.d[3] if any(is_field(x, "m_indent") for x in subnodes(a))]
        if not flag:
            ctx.viol("effect", "indentation", ev.loc(), "the XML writer does not get the indentation option")
        elif not is_field(flag[0], "m_indent"):
            ctx.viol("effect", "indentation", ev.loc(), "the XML writer gets %s as indentation" % show(flag[0]))
    if not ws:
        ctx.undecided("effect", "indentation", "no XML writer built")
    # anonymisation
    ctx.inst("effect", "anonymiser")
    found = False
    for ev in evs:
        for v in (x for a in (ev.d[3] if ev.k == "ctor" else ()) for x in subnodes(a)):
            if v.op == "ite" and any(is_field(x, "m_anonymized") for x in subnodes(v.a[0])) and any("Anonymizer" in str(x.a[0]) for x in subnodes(v) if x.op in ("new", "obj")):
                found = True
                for val, cls in ((True, "SimpleAnonymizer"), (False, "FakeAnonymizer")):
                    c = ev3(v.a[0], pick("m_anonymized", val))
                    br = v.a[1] if c else v.a[2]
                    if c is not None and not any(x.op in ("new", "obj") and cls in str(x.a[0]) for x in subnodes(br)):
                        ctx.viol("effect", "anonymiser", ctx.loc(w), "with anonymisation %s the export uses %s" % ("on" if val else "off", show(br)))
    if not found:
        uses = {cls: [ev for ev in evs if ev.k == "ctor" and cls in ev.d[1]] for cls in ("SimpleAnonymizer", "FakeAnonymizer")}
        if uses["SimpleAnonymizer"]:
            both("anonymiser", uses["SimpleAnonymizer"], pick("m_anonymized", False), pick("m_anonymized", True), "identifiers are anonymised although not asked", "identifiers are never anonymised")
        else:
            ctx.viol("effect", "anonymiser", ctx.loc(w), "no anonymiser depends on the anonymisation option")
    both("anonymisation mapping", [ev for ev in evs if ev.k == "call" and mname(ev.d[0]) == "write" and "Anonymizer" in ev.d[0]], pick("m_anonymized", False), pick("m_anonymized", True),
         "the mapping is written although anonymisation is off", "the mapping is not written")
    # state variables of branches
    sv, inj = [], []
    for ev in evs:
        if ev.k != "call" or not ev.d[0].startswith("powsybl::xml::XmlStreamWriter::write") or len(ev.d[4]) < 2:
            continue
        if not any(x.op == "call" and mname(x.a[0]) in ("getP", "getQ") and "Terminal" in x.a[0] or x.op == "fld" and x.a[1] in ("m_p", "m_q") for x in subnodes(ev.d[4][1])):
            continue
        ns = attr_name(ev.d[4][0])
        if ns and ns <= {a + str(i) for a in "pq" for i in (1, 2, 3)}:
            sv.append(ev)
        elif ns and ns <= {"p", "q"}:
            inj.append(ev)
    if len(sv) < 6:
        ctx.undecided("effect", "branch state variables", "%d writes found" % len(sv))
    for ev in sv:
        nm = "/".join(sorted(attr_name(ev.d[4][0])))
        site = next((mname(f) for f in ev.stack[::-1] if "Attributes" in mname(f)), "?") if isinstance(ev.stack, (tuple, list)) and ev.stack and isinstance(ev.stack[0], str) else ""
        both("branch state variable %s at %s" % (nm, owner(ev)), [ev], pick("m_withBranchSV", False), pick("m_withBranchSV", True), "written although branch state variables are off", "never written")
    for ev in inj:
        ctx.inst("effect", "injection state variable")
        if reach(ev, pick("m_withBranchSV", False)) is False:
            ctx.viol("effect", "injection state variable at %s" % owner(ev), ev.loc(), "the option on branches drops the state variables of other equipment")
    # extensions
    # (a test of the options on all the extensions of an object does not decide on one of them)
    one = lambda f, rec, obj, depth: root_policy(f, rec, obj, depth) and not (cname(f).endswith("ExportOptions") and any("range" in q["t"] and "iidm::Extension" in q["t"] for q in rec["p"]))
    e1 = ctx.summary(w, one, "c18one", maxevents=300000)
    ser = [ev for ev in e1.events if ev.k == "call" and ev.d[0].startswith(X + "ExtensionXmlSerializer::write")]
    gate(ctx, "exported extensions", ser, w)
    gate(ctx, "exported extensions of an object", [ev for ev in evs if ev.k == "call" and ev.d[0].startswith(X + "ExtensionXmlSerializer::write")], w)
    thr = [ev for ev in evs if ev.k == "call" and mname(ev.d[0]) == "findProviderOrThrowException"]
    thr2 = [ev for ev in evs if ev.k == "throw" and mentions_field(ev, "m_throwExceptionIfExtensionNotFound")]
    both("extension without serializer", thr + thr2, pick("m_throwExceptionIfExtensionNotFound", False), pick("m_throwExceptionIfExtensionNotFound", True),
         "refused although the option says not to", "never refused")
    # topology level
    ctx.inst("effect", "topology level")
    lv = [ev for ev in evs if ev.k in ("call", "enter") and mname(ev.d[0]) == "getMinTopologyLevel"]
    if not lv:
        if not any(is_field(x, "m_topologyLevel") for ev in evs for c, _ in ev.g for x in subnodes(c)):
            ctx.viol("effect", "topology level", ctx.loc(w), "nothing in the export depends on the topology level option")
    for ev in lv:
        if not any(is_field(a, "m_topologyLevel") for a in ev.d[4]):
            ctx.viol("effect", "topology level at %s" % owner(ev), ev.loc(), "the topology level written does not come from the option")
    # version
    ctx.inst("effect", "version")
    px = [ev for ev in evs if ev.k == "call" and mname(ev.d[0]) == "setPrefix"]
    if px and not any(is_field(x, "m_version") for ev in px for a in ev.d[4] for x in subnodes(a)):
        ctx.viol("effect", "version", px[0].loc(), "the name space written does not depend on the version option")
    # a version given is the one used; the current version only when none is given
    for ev in evs:
        given = ev.d[4] if ev in px else ev.d[3] if ev.k == "ctor" and "NetworkXmlWriterContext" in ev.d[1] else ()
        for v in (x for a in given for x in subnodes(a)):
            if v.op == "ite" and any(is_field(x, "m_version") for x in subnodes(v.a[0])):
                c = ev3(v.a[0], empty_env("m_version", False))
                if c is None:
                    continue
                br = v.a[1] if c else v.a[2]
                if fixed_version(br) and not fixed_version(v.a[2] if c else v.a[1]):
                    ctx.viol("effect", "version used", ev.loc(), "the version given as an option is ignored: %s is used" % show(br)[:60])
    # incompatibilities
    F = "m_iidmVersionIncompatibilityBehavior"
    # only throws the option decides: it is compared in a guard, not in the history of the path
    direct = lambda c: is_cmp(c.a[1]) if c.op == "un" else is_cmp(c)
    is_cmp = lambda c: c.op == "op" and c.a[0] in ("==", "!=") and any(is_field(x, F) for x in c.a[1:])
    th = [ev for ev in evs if ev.k == "throw" and any(direct(c) for c, _ in ev.g)]
    # a throw for a value that is neither of the two is not an effect of either
    real = [ev for ev in th if reach(ev, pick_enum(F, "THROW_EXCEPTION")) is not False or reach(ev, pick_enum(F, "LOG_ERROR")) is not False]
    both("version incompatibility", real, pick_enum(F, "LOG_ERROR"), pick_enum(F, "THROW_EXCEPTION"), "refused although the option says to log", "never refused")
    # main component
    ctx.inst("effect", "main component only")
    if not any(is_field(x, "m_onlyMainCc") for ev in evs for c, _ in ev.g for x in subnodes(c)) and not any(
            is_field(x, "m_onlyMainCc") for ev in evs if ev.k == "call" for a in ev.d[4] if isinstance(a, Node) for x in subnodes(a)):
        ctx.viol("effect", "main component only", ctx.loc(w), "no part of the export depends on isOnlyMainCc: all components are always exported")


def empty_env(f, val):
    def env(n):
        if n.op == "call" and mname(n.a[0]) == "empty" and n.a[1] is not None and is_field(n.a[1], f):
            return val
        return None
    return env


def fixed_version(n):
    """One version, not looked up among the known ones."""
    n = c03.strip_copy(n)
    return n.op in ("new", "obj")


def owner(ev):
    return "%s" % ev.loc().split(":")[0].split("/")[-1].split(".")[0]


def gate(ctx, what, events, f):
    """The serializer of an extension is called exactly for the extensions the list admits."""
    ctx.inst("effect", what)
    if not events:
        ctx.undecided("effect", what, "serializer not called from %s" % mname(f))
        return
    for ev in events:
        for empty, found, want in CASES:
            r = reach(ev, ext_env(empty, found))
            # an equivalent of the list test must decide: unlisted extensions never get there
            if not want and r is not False:
                ctx.viol("effect", what, ev.loc(), "%s: an extension that is not in the list is handled all the same" % what)
            if want and r is False:
                ctx.viol("effect", what, ev.loc(), "%s: an extension %s is left out" % (what, "is left out although no list was given:" if empty else "of the list"))


def check_import(ctx):
    p = ctx.p
    f = roots(ctx, "read", 3)
    e = ctx.summary(f, root_policy, "c18root", maxevents=300000)
    ctx.notes.append("NetworkXml::read expanded to %d events" % len(e.events))
    gate(ctx, "imported extensions", [ev for ev in e.events if ev.k == "call" and ev.d[0].startswith(X + "ExtensionXmlSerializer::read")], f)
    F = "m_throwExceptionIfExtensionNotFound"
    th = [ev for ev in e.events if ev.k == "throw" and mentions_field(ev, F)]
    ctx.inst("effect", "unknown extension on import")
    if not th:
        ctx.viol("effect", "unknown extension on import", ctx.loc(f), "an unknown extension is never refused: nothing depends on isThrowExceptionIfExtensionNotFound")
    for ev in th:
        if reach(ev, pick(F, False)) is not False:
            ctx.viol("effect", "unknown extension on import", ev.loc(), "an unknown extension is refused although the option says not to")
        if reach(ev, pick(F, True)) is False:
            ctx.viol("effect", "unknown extension on import", ev.loc(), "an unknown extension is not refused although the option says to")
