"""C15: every extension kind has one name and one type, everywhere, and the same targets wherever targets are checked."""
import re
from common import *
from rules import c03, c12, c18, c22
import xmlmodel as xm

EXT = "powsybl::iidm::Extension"
EXB = "powsybl::iidm::Extendable"
SER = "powsybl::iidm::converter::xml::ExtensionXmlSerializer"


def short(c):
    return c.split("::")[-1]


def own(p, c, name):
    return [f for f in sorted(p.funcs) if f.startswith("%s::%s(" % (c, name)) and p.funcs[f].get("body") is not None]


def method(p, c, name):
    for b in p.bases(c):
        fs = own(p, b, name)
        if fs:
            return fs[0]
    return None


def opaque(g, rec, obj, d):
    return False


def helper(g, rec, obj, d):
    """Helpers of the same file are looked into."""
    return d < 3 and (rec.get("file", "").startswith("extensions/") or rec.get("file", "").startswith("src/iidm/extensions/") or mname(g).split("<")[0] == "isInstanceOf")


def typeids(n):
    return sorted({x.a[0] if isinstance(x.a[0], str) else show(x.a[0]) for x in subnodes(n) if x.op == "typeid"} or set(re.findall(r"typeid\(([\w:<>, ]+?)\)", show(n))))


def strings(n):
    return [x.a[0] for x in subnodes(n) if isinstance(x, Node) and x.op == "str"]


def constant(ctx, f, key="c15"):
    """The only text a function gives, if it gives only one."""
    e = ctx.summary(f, lambda g, rec, obj, d: False, key)
    vs = set()
    for st, v in e.rets:
        v = c03.strip_copy(v)
        vs.add(v.a[0] if v.op == "str" else None)
    return vs.pop() if len(vs) == 1 else None


def concrete(p, base):
    return sorted(c for c in p.classes if base in p.bases(c) and c != base and not p.classes[c].get("abstract"))


def check(ctx):
    p = ctx.p
    exts = concrete(p, EXT)
    sers = concrete(p, SER)
    kinds = concrete(p, EXB)
    name = names(ctx, exts)
    ser = serialisers(ctx, sers, name)
    registration(ctx, sers)
    serialised(ctx, exts, ser)
    targets(ctx, exts, kinds)
    holder(ctx)
    providers(ctx)
    lookups(ctx)
    ctx.notes.append("%d extension kinds, %d serialisers, %d kinds of object extensions can be given to" % (len(exts), len(sers), len(kinds)))
    ctx.need("name", 15)
    ctx.need("type", 15)
    ctx.need("serialiser", 15)
    ctx.need("registered", 15)
    ctx.need("target", 15)
    ctx.need("holder", 4)


def names(ctx, exts):
    p, name = ctx.p, {}
    for c in exts:
        ctx.inst("name", short(c))
        f = method(p, c, "getName")
        n = constant(ctx, f) if f else None
        if n is None:
            ctx.undecided("name", short(c), "the name is not one constant")
        else:
            for d in name:
                if name[d] == n:
                    ctx.viol("name", short(c), ctx.loc(f), "%s and %s have the same name '%s': one takes the place of the other" % (short(c), short(d), n))
            name[c] = n
        ctx.inst("type", short(c))
        f = method(p, c, "getType")
        ts = set()
        if f:
            for st, v in ctx.summary(f, opaque, "c15").rets:
                ts |= set(typeids(v)) or {"?"}
        if ts != {c}:
            if "?" in ts or not ts:
                ctx.undecided("type", short(c), "the type given is not understood")
            else:
                ctx.viol("type", short(c), ctx.loc(f), "%s gives the type of %s: it is not found by its own type" % (short(c), ", ".join(short(t) for t in sorted(ts))))
    return name


def base_args(ctx, c):
    """Arguments the constructor of a serialiser gives to its base."""
    p = ctx.p
    for f in sorted(p.funcs):
        if f.startswith(c + "::<ctor>(") and "(const %s" % c not in f and "(%s &&" % c not in f:
            for ev in ctx.summary(f, opaque, "c15").events:
                if ev.k == "basector":
                    return f, ev
    return None, None


def created(ctx, adder):
    """Extension classes an adder creates: [(class, event)]."""
    p = ctx.p
    f = method(p, adder, "createExtension")
    if not f:
        return f, None, []
    e = ctx.summary(f, helper, "c15c")
    out = []
    for ev in e.events:
        if ev.k == "ctor":
            c = ev.d[0].split("::<ctor>")[0]
            if EXT in p.bases(c):
                out.append((c, ev))
        elif ev.k in ("call", "enter") and mname(ev.d[0]) == "make_unique":
            c = first_arg(ev.d[0])
            if c in p.classes and EXT in p.bases(c):
                out.append((c, ev))
    return f, e, out


def first_arg(f):
    i = f.find("<")
    if i < 0:
        return None
    d, j = 0, i
    for j in range(i, len(f)):
        if f[j] == "<":
            d += 1
        elif f[j] == ">":
            d -= 1
        if d == 0 or d == 1 and f[j] == ",":
            break
    return f[i + 1:j].strip()


def serialisers(ctx, sers, name):
    """One name and one type in the serialiser: its own name, the class it writes, the adder it reads with."""
    p, ser, byname, spaces = ctx.p, {}, {}, {}
    for s in sers:
        f, ev = base_args(ctx, s)
        inst = short(s)
        ctx.inst("serialiser", inst)
        texts = [c03.strip_copy(a).a[0] if isinstance(a, Node) and c03.strip_copy(a).op == "str" else None for a in ev.d[3]] if ev is not None else []
        n = texts[0] if texts else None
        # the class it writes and reads
        w, r = method(p, s, "write"), method(p, s, "read")
        types = {}
        if w:
            for x in ctx.summary(w, helper, "c15w").events:
                if x.k in ("call", "enter") and mname(x.d[0]) == "safeCast":
                    types.setdefault(first_arg(x.d[0]), "written")
        if r:
            e = ctx.summary(r, helper, "c15w")
            for x in e.events:
                if x.k in ("call", "enter") and mname(x.d[0]) == "newExtension":
                    a = first_arg(x.d[0])
                    g, e2, cs = created(ctx, a)
                    for c, _ in cs:
                        types.setdefault(c, "created")
                    if not cs:
                        ctx.undecided("serialiser", inst, "what %s creates is not understood" % a)
            for st, v in e.rets:
                for x in subnodes(v):
                    if x.op == "call" and mname(x.a[0]) in ("getExtension", "findExtension") and cname(x.a[0]) == EXB:
                        types.setdefault(first_arg(x.a[0]), "given")
        types = {c: k for c, k in types.items() if c in p.classes and EXT in p.bases(c) and not p.classes[c].get("abstract")}
        if not types:
            ctx.undecided("serialiser", inst, "the extension it is for is not understood")
            continue
        if len(types) > 1:
            ctx.viol("serialiser", inst, ctx.loc(f or r), "%s is for several kinds: %s" % (inst, ", ".join("%s %s" % (short(c), types[c]) for c in sorted(types))))
            continue
        c = next(iter(types))
        ser[s] = c
        if n is None:
            ctx.undecided("serialiser", inst, "its name is not a constant")
            continue
        if name.get(c) is not None and name[c] != n:
            ctx.viol("serialiser", inst, ev.loc(), "%s is registered as '%s' but the extension it is for is named '%s': it is never found" % (inst, n, name[c]))
        if n in byname:
            ctx.viol("serialiser", inst, ev.loc(), "%s and %s are both registered as '%s': the second is refused" % (inst, short(byname[n]), n))
        byname[n] = s
        # namespaces, prefixes
        ctx.inst("namespace", inst)
        uris = sorted({t for a in ev.d[3] for t in strings(a) if "://" in t})
        for u in uris:
            if u in spaces and spaces[u] != s:
                ctx.viol("namespace", inst, ev.loc(), "%s and %s have the same namespace %s: both cannot be exported" % (inst, short(spaces[u]), u))
            spaces[u] = s
        pre = [texts[2]] if len(texts) > 2 and texts[2] and "://" not in texts[2] and " " not in texts[2] else [t for t in texts[2:] if t and re.match(r"^[\w-]+$", t)][-1:]
        for t in pre:
            k = "prefix " + t
            if k in spaces and spaces[k] != s:
                ctx.viol("namespace", inst, ev.loc(), "%s and %s have the same namespace prefix %s: both cannot be exported" % (inst, short(spaces[k]), t))
            spaces[k] = s
        # every version of the extension has its namespace
        vs, ns = versions(ev)
        for v in sorted(vs):
            ctx.inst("namespace", "%s %s" % (inst, v))
            if ns and v not in ns:
                ctx.viol("namespace", "%s %s" % (inst, v), ev.loc(), "version %s of %s has no namespace: it cannot be exported" % (v, inst))
    return ser


def versions(ev):
    """Versions listed for the formats, versions with a namespace."""
    vs, ns = set(), set()
    for a in ev.d[3]:
        for x in subnodes(a) if isinstance(a, Node) else ():
            if x.op == "call" and mname(x.a[0]) == "put":
                t = [strings(y) if isinstance(y, Node) else [] for y in x.a[2]]
                if len(t) == 2 and t[1] and "://" in t[1][0]:
                    ns |= set(t[0])
                elif len(t) == 2:
                    vs |= {z for z in t[1] if re.match(r"^\d+(\.\d+)*$", z)}
    return vs, ns


def registration(ctx, sers):
    """Each serialiser is registered once: by its library, or by the registry itself."""
    p = ctx.p
    symbol = None
    for f in sorted(p.funcs):
        if mname(f) == "getSymbolName" and "ExtensionProviders<" in f:
            symbol = constant(ctx, f)
    where = {}
    lists = {}
    for g in sorted(p.globals):
        if "_autoaliases" in g:
            fs = [x for x in re.findall(r"'f': '([^']+)'", str(p.globals[g].get("init")))]
            lists.setdefault(g.split("::")[-1], []).extend(fs)
    ctx.inst("exported", symbol or "?")
    exported = lists.get(symbol, [])
    makers = {f for fs in lists.values() for f in fs}
    for n in sorted(lists):
        ctx.inst("exported", n)
        if symbol is not None and n != symbol:
            ctx.viol("exported", n, p.globals[[g for g in p.globals if g.endswith("::" + n)][0]]["file"], "a library exports its extensions as '%s' but they are looked for as '%s'" % (n, symbol))
    roots = [(f, "library") for f in sorted(makers)] + [(f, "registry") for f in sorted(p.funcs) if "ExtensionProviders<" in f and "::<ctor>()" in f]
    for f, kind in roots:
        if f not in p.funcs:
            continue
        e = ctx.summary(f, lambda g, rec, obj, d: helper(g, rec, obj, d) and not cname(g).endswith("Serializer"), "c15r")
        made = {}
        for ev in e.events:
            c = None
            if ev.k in ("call", "enter") and mname(ev.d[0]) == "make_unique":
                c = first_arg(ev.d[0])
            elif ev.k == "ctor":
                c = ev.d[0].split("::<ctor>")[0]
            if c in sers:
                made[c] = ev
        kept = [ev for ev in e.events if ev.k in ("call", "enter") and mname(ev.d[0]) in ("emplace_back", "push_back", "registerExtension", "insert", "emplace")]
        for c, ev in made.items():
            v = ev.d[5] if ev.k == "call" and len(ev.d) > 5 else None
            k = [x for x in kept if any(isinstance(a, Node) and (any(y is v for y in subnodes(a)) or short(c) in show(a)) for a in x.d[4])]
            if v is None and not k:
                k = [x for x in kept if x.seq > ev.seq][:1]
            if k and not [g for g in k[0].g]:
                where.setdefault(c, []).extend([(f, kind)] * len(k) if v is not None else [(f, kind)])
    for s in sers:
        ctx.inst("registered", short(s))
        l = where.get(s, [])
        if not l:
            ctx.viol("registered", short(s), p.classes[s].get("file", "?"), "%s is not registered: its extension is neither exported nor imported" % short(s))
        elif len(l) > 1:
            ctx.viol("registered", short(s), p.classes[s].get("file", "?"), "%s is registered %d times: the second is refused" % (short(s), len(l)))


def serialised(ctx, exts, ser):
    p = ctx.p
    for c in exts:
        if "/network/" in p.classes[c].get("file", ""):
            continue                                # the mock extensions of the sample networks
        ctx.inst("serialised", short(c))
        if c not in ser.values():
            ctx.viol("serialised", short(c), p.classes[c].get("file", "?"), "%s has no serialiser: it is lost on export" % short(c))


# -- what an extension can be given to

def kind_env(p, k, v):
    """Truth of conditions when v is an object of class k."""
    def env(n):
        if n.op == "isa" and any(x is v for x in subnodes(n)):
            return n.a[0] in p.bases(k)
        if n is v or n.op == "un" and n.a[0] == "bool" and n.a[1] is v:
            return True
        return None
    return env


def targets(ctx, exts, kinds):
    p = ctx.p
    adders = {}
    for a in sorted(p.classes):
        if p.classes[a].get("abstract") or not any(mname(m["f"]) == "createExtension" for m in p.classes[a]["methods"]):
            continue
        f, e, cs = created(ctx, a)
        for c, ev in cs:
            adders.setdefault(c, []).append((a, f, e, ev))
    for c in exts:
        inst = short(c)
        ctx.inst("target", inst)
        # what its constructors take
        takes = set()
        for f in sorted(p.funcs):
            if f.startswith(c + "::<ctor>(") and p.funcs[f]["p"]:
                t = p.funcs[f]["p"][0]["t"].replace("const ", "").strip(" &")
                if EXB in p.bases(t) or t == EXB:
                    takes |= {k for k in kinds if t in p.bases(k)}
        f = method(p, c, "assertExtendable")
        if not f:
            ctx.undecided("target", inst, "assertExtendable not found")
            continue
        e = ctx.summary(f, helper, "c15t")
        vs = {x for ev in e.events for g, q in ev.g for x in subnodes(g) if x.op == "param"}
        if len(vs) != 1:
            ctx.viol("target", inst, ctx.loc(f), "nothing is refused: it can be given to anything") if not [t for t in e.events if t.k == "throw"] else ctx.undecided("target", inst, "what is checked is not understood")
            continue
        v = vs.pop()
        accepts, bad = set(), False
        for k in kinds:
            env = kind_env(p, k, v)
            r = [all(c18.ev3(g, env, {}) is q for g, q in t.g) for t in e.events if t.k == "throw"]
            und = [t for t in e.events if t.k == "throw" and not any(c18.ev3(g, env, {}) is (not q) for g, q in t.g) and not all(c18.ev3(g, env, {}) is q for g, q in t.g)]
            if und:
                bad = True
            if not any(r):
                accepts.add(k)
        if bad:
            ctx.undecided("target", inst, "what is refused is not understood")
            continue
        if takes and accepts != takes:
            more, less = accepts - takes, takes - accepts
            ctx.viol("target", inst, ctx.loc(f), "%s %s although it is for %s" % (inst, ", ".join(["accepts " + short(k) for k in sorted(more)[:3]] + ["refuses " + short(k) for k in sorted(less)[:3]]), ", ".join(short(k) for k in sorted(takes)[:4])))
        # what its adder creates it for
        for a, g, e2, _ in adders.get(c, [])[:1]:
            ctx.inst("target", "%s %s" % (inst, short(a)))
            vs = {x for ev in e2.events for h, q in ev.g for x in subnodes(h) if x.op == "isa"}
            prm = [x for y in vs for x in subnodes(y) if x.op == "param"]
            evs = [ev for _, _, _, ev in adders[c]]
            makes = set()
            for k in kinds:
                env = kind_env(p, k, prm[0]) if prm else (lambda n: None)
                if any(all(c18.ev3(h, env, {}) is not (not q) for h, q in ev.g) for ev in evs):
                    makes.add(k)
            wrong = set()
            for ev in evs:
                # the constructor chosen takes the kind it is chosen for
                fid = ev.d[0]
                for k in kinds:
                    env = kind_env(p, k, prm[0]) if prm else (lambda n: None)
                    if fid in p.funcs and "<ctor>" in fid and all(c18.ev3(h, env, {}) is not (not q) for h, q in ev.g):
                        t = p.funcs[fid]["p"][0]["t"].replace("const ", "").strip(" &")
                        if t in p.classes and t not in p.bases(k) and k in accepts:
                            wrong.add(k)
            if makes != accepts:
                ctx.viol("target", "%s %s" % (inst, short(a)), ctx.loc(g), "%s %s" % (short(a), "; ".join(["creates a %s for a %s, which refuses it" % (inst, short(k)) for k in sorted(makes - accepts)[:3]] + ["does not create a %s for a %s, which could have one" % (inst, short(k)) for k in sorted(accepts - makes)[:3]])))
            elif wrong:
                ctx.viol("target", "%s %s" % (inst, short(a)), ctx.loc(g), "the %s of a %s is created for another kind" % (inst, short(sorted(wrong)[0])))


# -- the holder

def of(n, what):
    return [x for x in subnodes(n) if x.op == "call" and mname(x.a[0]) == what]


def holder(ctx):
    """By name and by type the same extensions are held."""
    p = ctx.p
    fields = {}
    for fl in p.classes[EXB]["fields"]:
        t = fl["t"]
        if "type_index" in t and "map" in t:
            fields["type"] = fl["n"]
        elif "map" in t and "Extension" in t:
            fields["name"] = fl["n"]
    if len(fields) < 2:
        ctx.undecided("holder", "Extendable", "tables not found")
        return
    KEY = {"name": "getName", "type": "getType"}

    def on(ev, w):
        return ev.d[3] is not None and isinstance(ev.d[3], Node) and c18.is_field(c03.strip_copy(ev.d[3]), fields[w])
    for f in sorted(p.funcs):
        if p.funcs[f].get("c") != EXB or p.funcs[f].get("body") is None:
            continue
        e = ctx.summary(f, lambda g, rec, obj, d: mname(g).split("<")[0] in ("isInstanceOf",) or cname(g) == EXB and mname(g) not in ("addExtension", "removeExtension"), "c15h")
        ins = {w: [ev for ev in e.events if ev.k in ("call", "enter") and mname(ev.d[0]) in ("emplace", "insert", "try_emplace", "insert_or_assign", "operator[]") and on(ev, w)] for w in fields}
        era = {w: [ev for ev in e.events if ev.k in ("call", "enter") and mname(ev.d[0]) == "erase" and on(ev, w)] for w in fields}
        label = mname(f) + ("<%s>" % short(first_arg(f)) if first_arg(f) and mname(f) + "<" in f else "")
        for kind, l in (("added", ins), ("removed", era)):
            if not any(l.values()):
                continue
            inst = "%s %s" % (label, kind)
            ctx.inst("holder", inst)
            if any(not l[w] for w in l):
                ctx.viol("holder", inst, ctx.loc(f), "an extension is %s by %s only" % (kind, [w for w in l if l[w]][0]))
                continue
            g = {w: {tuple(ev.g) for ev in l[w]} for w in l}
            if g["name"] != g["type"]:
                ctx.viol("holder", inst, ctx.loc(f), "an extension is %s by name and by type under different conditions" % kind)
            for w in l:
                for ev in l[w]:
                    args = [a for a in ev.d[4] if isinstance(a, Node)]
                    if not args:
                        continue
                    k = args[0]
                    if k.op == "pair":
                        k = k.a[0]
                    if not of(k, KEY[w]) and not typeids(k) and not of(k, "find") and not (k.op == "found"):
                        ctx.viol("holder", inst, ev.loc(), "an extension is %s by %s under %s" % (kind, w, show(k)[:60]))
                    other = "type" if w == "name" else "name"
                    if k.op == "call" and mname(k.a[0]) == KEY[other]:
                        ctx.viol("holder", inst, ev.loc(), "an extension is %s by %s under its %s" % (kind, w, other))
        if ins["name"]:
            # what took the name before is told it is not there any more, and what is added is told whom it belongs to
            ctx.inst("holder", "%s owner" % label)
            told = [ev for ev in e.events if ev.k in ("call", "enter") and mname(ev.d[0]) == "setExtendable"]
            if not any(any(a is x for x in subnodes(ins["name"][0].d[4][0])) or ev.d[3] is not None and any(x is c03.strip_copy(ev.d[3]) for y in ins["name"][0].d[4] for x in subnodes(y)) for ev in told for a in [ev.d[3]]):
                ctx.viol("holder", "%s owner" % label, ins["name"][0].loc(), "the extension added is not told whom it belongs to, nor checked for it")
            elif not any(not ev.g or set(ev.g) <= set(ins["name"][0].g) for ev in told):
                ctx.viol("holder", "%s owner" % label, ins["name"][0].loc(), "the extension added is not always told whom it belongs to")
        # what is looked up
        asked = first_arg(f) if mname(f) in ("findExtension", "getExtension", "removeExtension") and "<" in f else None
        if asked:
            fs = [ev for ev in e.events if ev.k in ("call", "enter") and mname(ev.d[0]) in ("find", "at", "count") and on(ev, "type")]
            for ev in fs:
                ctx.inst("lookup", label)
                ts = typeids(ev.d[4][0])
                if ts and ts != [asked]:
                    ctx.viol("lookup", label, ev.loc(), "the extension of type %s is looked for as %s" % (short(asked), ", ".join(short(t) for t in ts)))
        if mname(f) == "getExtensionByName":
            ctx.inst("lookup", label + " by name")
            fs = [ev for ev in e.events if ev.k in ("call", "enter") and mname(ev.d[0]) in ("find", "at", "count")]
            if not fs or not all(on(ev, "name") and any(x.op == "param" for x in subnodes(ev.d[4][0])) for ev in fs):
                ctx.viol("lookup", label + " by name", ctx.loc(f), "the name asked for is not what is looked up")
            conds = [c for ev in e.events for c, q in ev.g] + [x.a[0] for st, v in e.rets for x in subnodes(v) if x.op == "ite"] + [c for st, v in e.rets for c, q in (st.g if st is not None else [])]
            if not any(x.op == "isa" or x.op == "call" and mname(x.a[0]) in ("getType", "dynamic_cast") for c in conds for x in subnodes(c)):
                ctx.viol("lookup", label + " by name", ctx.loc(f), "an extension of another type is not told apart")
        if mname(f) == "getExtensions":
            ctx.inst("lookup", "all")
            for st, v in e.rets:
                if not any(c18.is_field(x, n) for n in fields.values() for x in subnodes(v)):
                    ctx.viol("lookup", "all", ctx.loc(f), "the extensions listed are not those held")
                if "filter" in show(v):
                    ctx.viol("lookup", "all", ctx.loc(f), "some of the extensions are left out of the list")
    # whom it belongs to is checked
    for f in own(p, EXT, "setExtendable"):
        e = ctx.summary(f, opaque, "c15s")
        st = [ev for ev in e.events if ev.k == "store"]
        if not st:
            continue
        ctx.inst("holder", "setExtendable")
        ch = [ev for ev in e.events if ev.k in ("call", "enter") and mname(ev.d[0]) == "assertExtendable"]
        if not any(ev.seq < st[0].seq and not [g for g in ev.g if g not in st[0].g] for ev in ch):
            ctx.viol("holder", "setExtendable", ctx.loc(f), "an extension is given to an object without checking that it is meant for it")


def providers(ctx):
    """A provider is registered under its own name and found by it."""
    p = ctx.p
    for f in sorted(p.funcs):
        if "ExtensionProviders<" not in f or p.funcs[f].get("body") is None:
            continue
        n = mname(f)
        e = ctx.summary(f, opaque, "c15p")
        if n == "registerExtension":
            ctx.inst("provider", n)
            ins = [ev for ev in e.events if ev.k == "call" and mname(ev.d[0]) in ("emplace", "insert", "try_emplace", "operator[]") and "m_providers" in show(ev.d[3])]
            if not ins:
                ctx.undecided("provider", n, "where it is kept is not understood")
            for ev in ins:
                k = ev.d[4][0]
                k = k.a[0] if k.op == "pair" else k
                if not of(k, "getExtensionName"):
                    ctx.viol("provider", n, ev.loc(), "a provider is registered under something else than its extension's name: %s" % show(k)[:50])
                if mname(ev.d[0]) == "operator[]" or not any(t.k == "throw" for t in e.events):
                    ctx.viol("provider", n, ev.loc(), "a second provider of the same extension takes the place of the first in silence")
        if n in ("findProvider", "findProviderOrThrowException"):
            ctx.inst("provider", n)
            fs = [ev for ev in e.events if ev.k == "call" and mname(ev.d[0]) in ("find", "at")]
            if not fs or not all(any(x.op == "param" for x in subnodes(ev.d[4][0])) and "m_providers" in show(ev.d[3]) for ev in fs):
                ctx.viol("provider", n, ctx.loc(f), "the provider looked up is not the one asked for")
        if n == "loadLibrary":
            ctx.inst("provider", n)
            reg = [ev for ev in e.events if ev.k in ("call", "enter") and mname(ev.d[0]) == "registerExtension"]
            if not any(ev.loops for ev in reg):
                ctx.viol("provider", n, ctx.loc(f), "not all extensions of a library are registered")
    # the name a serialiser has is the one it was given
    c = "powsybl::iidm::converter::xml::AbstractExtensionXmlSerializer"
    f = method(p, c, "getExtensionName") if c in p.classes else None
    if f:
        ctx.inst("provider", "getExtensionName")
        rets = {c03.strip_copy(v) for st, v in ctx.summary(f, opaque, "c15").rets}
        fl = [x.a[-1] if x.op == "fld" else None for x in rets]
        k = [g for g in p.funcs if g.startswith(c + "::<ctor>(std::")]
        for g in k:
            e = ctx.summary(g, opaque, "c15")
            names = {x["n"] for x in p.funcs[g]["p"][:1]}
            for ev in e.events:
                if ev.k == "store" and any(ev.d[0].op == "fld" and r is not None and ev.d[0].a[-1] == r for r in fl):
                    if not any(x.op == "param" and x.a[0] in names for x in subnodes(ev.d[1])):
                        ctx.viol("provider", "getExtensionName", ctx.loc(g), "the name of the extension is not the one the serialiser was given")


def lookups(ctx):
    """On export the provider is the one named like the extension; on import like the element."""
    m = xm.model(ctx)
    for ev in m.w.e.events + m.r.e.events:
        if ev.k in ("call", "enter") and mname(ev.d[0]) in ("findProvider", "findProviderOrThrowException"):
            side = "export" if ev in m.w.e.events else "import"
            ctx.inst("lookup", "provider on %s" % side)
            a = ev.d[4][0]
            if not (of(a, "getName") or of(a, "getLocalName") or of(a, "getExtensionName") or a.op in ("elem", "at", "param")):
                ctx.viol("lookup", "provider on %s" % side, ev.loc(), "the provider is looked up by %s" % show(a)[:60])
