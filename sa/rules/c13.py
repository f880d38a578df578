"""C13: identifying text leaves through the anonymiser, comes back through its inverse, and the mapping is one to one."""
import re
from common import *
from rules import c03, c08, c11, c12, c18
import xmlmodel as xm
from xmlmodel import XS

AN = {"anonymizeString", "anonymizeCountry"}
DE = {"deanonymizeString", "deanonymizeCountry"}
CONV = I + "converter::"
FILL = {"emplace_back", "push_back", "emplace", "insert", "append", "push_front", "emplace_front", "operator+=", "add"}
# values of the network that tell what it is: the name of the function giving it, and the classes it belongs to
NAMING = {"getId", "getOptionalName", "getName", "getTso", "getCountry", "getGeographicalTags", "getAliases"}


def is_local(n):
    return n.op == "local" or n.op in ("lv", "phi") and False


class Contents:
    """What the local containers of a summary are filled with."""
    def __init__(self, e):
        self.by = {}
        for ev in e.events:
            if ev.k == "store" and isinstance(ev.d[0], Node) and ev.d[0].op == "at" and ev.d[0].a[0].op == "local":
                self.by.setdefault(ev.d[0].a[0], []).append((ev, (ev.d[0].a[1], ev.d[1])))
            elif ev.k == "call" and ev.d[3] is not None and ev.d[3].op == "local" and mname(ev.d[0]).split("<")[0] in FILL:
                self.by.setdefault(ev.d[3], []).append((ev, ev.d[4]))
            elif ev.k == "call" and ev.d[3] is None and ev.d[4]:
                # filled by an algorithm: transform(from, back_inserter(to), f), split(to, from, ...)
                for i, a in enumerate(ev.d[4]):
                    if isinstance(a, Node):
                        for x in subnodes(a):
                            if x.op == "local":
                                rest = tuple(b for j, b in enumerate(ev.d[4]) if j != i and isinstance(b, Node))
                                self.by.setdefault(x, []).append((ev, rest))


def outside(v, names, pick, contents, depth=0, seen=None, model=True):
    """(nodes picked that reach v without passing a call of names, whether such a call is met)."""
    out, met = [], False
    todo = [v]
    seen = seen if seen is not None else set()
    while todo:
        n = todo.pop()
        if not isinstance(n, Node) or n in seen:
            continue
        seen.add(n)
        if n.op == "call" and mname(n.a[0]) in names:
            met = True
            continue
        if pick(n):
            out.append(n)
            continue
        if n.op == "ite":
            todo += [n.a[1], n.a[2]]
            continue
        if n.op == "found":
            todo.append(n.a[0])                     # the key says where to look, not what is found
            continue
        if n.op == "call" and n.a[1] is not None and cname(n.a[0]).startswith(I) and "converter" not in cname(n.a[0]):
            # another property of the element, or what a lookup by a given identifier finds
            if not model and re.match(r"(get|find|is|has)", mname(n.a[0])):
                todo.append(n.a[1])
                todo += [x for x in n.a[2] if isinstance(x, Node)]
            continue
        if n.op in ("new", "obj") and str(n.a[0]).startswith(I):
            continue
        if n.op == "local" and contents is not None and depth < 4:
            for ev, args in contents.by.get(n, ()):
                todo.extend(args)
        if n.op in ("lam", "lamv"):
            met = met or lam_calls(n, names)
        for x in n.a:
            if isinstance(x, Node):
                todo.append(x)
            elif isinstance(x, tuple):
                todo.extend(y for y in x if isinstance(y, Node))
    return out, met


PROG = [None]


def lam_calls(n, names):
    p = PROG[0]
    for f in [x for x in n.a if isinstance(x, str) and x in p.funcs]:
        l = []
        c12.walk_calls(p.funcs[f].get("body"), l)
        if any(mname(c.get("f") or "") in names for c in l):
            return True
    return False


def naming(p, n):
    """The value names an element of the network, or says where it is and whose it is."""
    if n.op != "call" or n.a[1] is None or mname(n.a[0]) not in NAMING:
        return False
    c = cname(n.a[0])
    if c == I + "Network" or mname(n.a[0]) == "getId" and network(p, n.a[1]):
        return False                                # the document's own title
    if c in (I + "Identifiable", I + "Substation") or c.endswith("HalfLine") or c.startswith(I + "Identifiable"):
        return True
    return I + "Identifiable" in p.bases(c) if c in p.classes else False


def network(p, o):
    """The object is the network being written, and nothing else."""
    o = c03.strip_copy(o)
    if o.op == "param":
        return o.a[0] == "network" or len(o.a) > 1 and str(o.a[1]).rstrip(" &").endswith("iidm::Network")
    return False


def named(p, v, contents):
    """(clear identifying values, anonymised at all)."""
    return outside(v, AN, lambda n: naming(p, n), contents)


def short_val(n):
    return ".".join(xm.chain(n)[-2:])


def check(ctx):
    p = ctx.p
    PROG[0] = p
    m = xm.model(ctx)
    for title, w, r in m.pairs():
        written(ctx, title, w, r)
        keys(ctx, title, w)
    for c, x in sorted(m.ext.items()):
        if x is None:
            ctx.inst("hidden", c)
            ctx.undecided("hidden", c, "read or write not found")
    mapping(ctx)
    chosen(ctx)
    ctx.need("hidden", 80)
    ctx.need("restored", 60)
    ctx.need("mapping", 4)
    ctx.need("chosen", 3)


def inst_of(title, path, name):
    return "%s %s@%s" % (title, "/".join(path[-1:]), name)


def written(ctx, title, w, r):
    p = ctx.p
    cw, cr = Contents(w.e), Contents(r.e)
    for el in w.elems:
        for a in el.attrs + el.text:
            nm = a.name or "#text"
            clear, anon = named(p, a.value, cw)
            inside = clear or anon
            if not inside and a.ty not in ("string", "?"):
                continue
            inst = inst_of(title, el.path, nm)
            if inside:
                ctx.inst("hidden", inst)
                if clear:
                    ctx.viol("hidden", inst, a.ev.loc(), "%s of element %s is written in clear (%s)" % (nm, "/".join(el.path), ", ".join(sorted(short_val(x) for x in clear))))
            for q in sorted(r.attrs):
                if not xm.matches(el.path, q):
                    continue
                for b in r.attrs[q]:
                    if b.name == nm or a.name is None and b.name == "#text":
                        restored(ctx, title, el, q, nm, a, b, anon, r, cr)


def restored(ctx, title, el, q, nm, a, b, anon, r, cr):
    inst = inst_of(title, el.path, nm)
    if b.value is None:
        return
    hit = False
    for ev, x in uses(r, q, b, cr):
        raw, met = outside(x, DE, lambda n: n is b.value, cr, model=False)
        back = not raw and met and passes(x, b.value, cr)
        if not raw and not back:
            continue
        hit = True
        if anon and raw:
            ctx.inst("restored", inst)
            ctx.viol("restored", inst, ev.loc(), "%s of element %s is written anonymised but used as read from the document" % (nm, "/".join(el.path)))
            return
        if not anon and back:
            ctx.inst("restored", inst)
            ctx.viol("restored", inst, ev.loc(), "%s of element %s is written in clear but looked up in the mapping on import" % (nm, "/".join(el.path)))
            return
    if hit or anon:
        ctx.inst("restored", inst)


def passes(x, v, contents):
    """v reaches x (through a call of the inverse)."""
    todo, seen = [x], set()
    while todo:
        n = todo.pop()
        if not isinstance(n, Node) or n in seen:
            continue
        seen.add(n)
        if n is v:
            return True
        if n.op == "local":
            for ev, args in contents.by.get(n, ()):
                todo.extend(args)
        for y in n.a:
            if isinstance(y, Node):
                todo.append(y)
            elif isinstance(y, tuple):
                todo.extend(z for z in y if isinstance(z, Node))
    return False


IGNORED = {"fromString", "format", "empty", "size", "c_str", "length", "find", "compare", "operator==", "operator!="}


def uses(r, q, b, cr):
    """Arguments of calls on the model that the value read reaches, possibly through local containers."""
    if not hasattr(r, "_c13"):
        r._c13 = {}
        holders = {}
        for n, l in cr.by.items():
            for ev, args in l:
                for x in args:
                    for y in subnodes(x):
                        if y.op == "call" and y.a[0].startswith(XS + "XmlStreamReader"):
                            holders.setdefault(n, set()).add(y)
        for ev in r.e.events:
            if ev.k == "call":
                m = mname(ev.d[0]).split("<")[0]
                if ev.d[0].startswith((XS, "std::", "boost::")) or m in AN | DE | IGNORED or "Exception" in ev.d[0] or "logging::" in ev.d[0]:
                    continue
                args = ev.d[4]
            elif ev.k == "ctor":
                if "Exception" in ev.d[1] or ev.d[1].startswith(("std::", "boost::", "__gnu")):
                    continue
                args = ev.d[3]
            else:
                continue
            pt = r.base + xm.guard_path(ev.g)
            for x in args:
                if not isinstance(x, Node):
                    continue
                for y in subnodes(x):
                    if y.op == "call" and y.a[0].startswith(XS + "XmlStreamReader"):
                        r._c13.setdefault((pt, y), []).append((ev, x))
                    elif y in holders:
                        for z in holders[y]:
                            r._c13.setdefault((pt, z), []).append((ev, x))
    l = r._c13.get((q, b.value), [])
    pt = q
    while not l and len(pt) > 1:
        # kept until its parent is complete; there, the same reading must not mean an attribute of the parent
        pt = pt[:-1]
        if any(a.value is b.value for a in r.attrs.get(pt, ())):
            break
        l = r._c13.get((pt, b.value), [])
    return l


OUT = {"write", "writeAttribute", "writeOptionalAttribute", "writeCharacters", "writeOptionalString"}


def keys(ctx, title, w):
    """On export, anonymised text goes into the document and nowhere else: the network is asked by real identifiers."""
    n = 0
    for ev in w.e.events:
        if ev.k not in ("call", "ctor"):
            continue
        f = ev.d[0] if ev.k == "call" else ev.d[1]
        if f.startswith((XS, "std::", "boost::", "__gnu", "powsybl::stdcxx::")) or mname(f) in AN | DE | {"toString", "fromString"} or "XmlWriter" in f:
            continue
        args = [x for x in (ev.d[4] if ev.k == "call" else ev.d[3]) if isinstance(x, Node)]
        for x in args:
            if any(y.op == "call" and mname(y.a[0]) in AN for y in subnodes(x)):
                n += 1
                inst = "%s %s" % (title, short(f) if callable(short) else f)
                ctx.inst("lookup", inst)
                ctx.viol("lookup", inst, ev.loc(), "%s is asked with anonymised text" % mname(f))
    ctx.inst("lookup", "%s: %d calls" % (title, len(w.e.events)))


# -- the mapping itself

def cls_methods(p, c, name):
    return [m["f"] for m in p.classes[c]["methods"] if m["n"] == name and m["f"] in p.funcs] if c in p.classes else []


def keep(f, rec, obj, depth):
    return rec.get("c", "").startswith(CONV) and mname(f) != "getAlpha" and depth < 6


def side(v):
    """('left'|'right', key) when the value is what the mapping holds for a key."""
    v = c03.strip_copy(v)
    if v.op == "fld" and v.a[1] in ("second", "first") and v.a[0].op == "found":
        m = v.a[0].a[0]
        while m.op == "fld" and m.a[1] not in ("left", "right"):
            m = m.a[0]
        if m.op == "fld":
            return m.a[1], c03.strip_copy(v.a[0].a[1]), v.a[1]
    if v.op == "call" and mname(v.a[0]) in ("at", "operator[]") and v.a[1] is not None and v.a[1].op == "fld" and v.a[1].a[1] in ("left", "right"):
        return v.a[1].a[1], c03.strip_copy(v.a[2][0]), "second"
    return None


def pair_of(ev):
    """The two halves of what is inserted into the mapping."""
    for a in ev.d[4]:
        if isinstance(a, Node):
            a = c03.strip_copy(a)
            if a.op in ("obj", "new", "pair", "list"):
                x = [y for z in a.a for y in (z if isinstance(z, tuple) else (z,)) if isinstance(y, Node)]
                if len(x) == 2:
                    return c03.strip_copy(x[0]), c03.strip_copy(x[1])
    return None


def empty_only(g, v):
    return any(pol and c03.strip_copy(strip_bool(c)).op == "call" and mname(strip_bool(c).a[0]) == "empty" and strip_bool(c).a[1] is v for c, pol in g)


def mapping(ctx):
    p = ctx.p
    base = CONV + "Anonymizer"
    for c in sorted(x for x in p.subclasses(base) if not p.classes[x].get("abstract")):
        maps = [f["n"] for f in p.classes[c]["fields"] if "map" in f["t"].lower()]
        title = c.split("::")[-1]
        for fn, de in (("anonymizeString", False), ("deanonymizeString", True), ("anonymizeCountry", False), ("deanonymizeCountry", True)):
            for f in cls_methods(p, c, fn):
                inst = "%s::%s" % (title, fn)
                ctx.inst("mapping", inst)
                e = ctx.summary(f, keep, "c13")
                arg = N("param", p.funcs[f]["p"][0]["n"])
                arg = next((x for st, v in e.rets for x in subnodes(v) if x.op == "param"), arg)
                if not maps or fn.endswith("Country"):
                    for st, v in e.rets:
                        if c03.strip_copy(v).op != "param":
                            if maps and fn.endswith("Country"):
                                ctx.undecided("mapping", inst, "not the identity")
                            else:
                                ctx.viol("mapping", inst, ctx.loc(f), "text is given back changed although nothing remembers the change: %s" % show(v)[:80])
                    continue
                ins = [(ev, pair_of(ev)) for ev in e.events if ev.k == "call" and ev.d[3] is not None and mname(ev.d[0]) in ("insert", "emplace", "push_back") and any(c18.is_field(x, n) for n in maps for x in subnodes(ev.d[3]))]
                for st, v in e.rets:
                    v = c03.strip_copy(v)
                    s = side(v)
                    gs = tuple(st.g) if hasattr(st, "g") else ()
                    if v.op == "str" and v.a[0] == "" and any(pol and any(x.op == "call" and mname(x.a[0]) == "empty" for x in subnodes(c)) for c, pol in gs):
                        continue
                    if s:
                        if s[1].op != "param" or s[2] != "second" or s[0] != ("right" if de else "left"):
                            ctx.viol("mapping", inst, ctx.loc(f), "gives the %s text of the entry whose %s text is asked for" % (("original", "original") if not de and s[0] == "right" else ("wrong", "given")))
                        continue
                    if de:
                        ctx.viol("mapping", inst, ctx.loc(f), "gives %s, which is not what the mapping holds" % show(v)[:80])
                        continue
                    hits = [ev for ev, pr in ins if pr and pr[0].op == "param" and pr[1] is v]
                    extra = [[g for g in ev.g if g not in gs and g[0].op != "imp"] for ev in hits]
                    if hits and all(extra):
                        ctx.viol("mapping", inst, hits[0].loc(), "the name made up is remembered only when %s%s" % ("" if extra[0][0][1] else "not ", show(extra[0][0][0])[:80]))
                    if not hits:
                        bad = [pr for _, pr in ins if pr]
                        if bad or not ins:
                            ctx.viol("mapping", inst, ctx.loc(f), "gives %s without remembering it for the text asked for" % show(v)[:80])
                        else:
                            ctx.undecided("mapping", inst, "entry not understood")
                if de:
                    if not any(ev.k == "throw" for ev in e.events) and not any(x.op == "call" and mname(x.a[0]) == "at" for st, v in e.rets for x in subnodes(v)):
                        ctx.viol("mapping", inst, ctx.loc(f), "text that is not in the mapping is not refused")
                else:
                    fresh(ctx, title, c, e, ins, maps, f)
        if maps:
            kept(ctx, title, c, maps)
            document(ctx, title, c, maps)


def fresh(ctx, title, c, e, ins, maps, f):
    """A new name depends on how many there are, which only grows."""
    p = ctx.p
    inst = "%s::new name" % title
    ctx.inst("mapping", inst)
    for ev, pr in ins:
        if pr is None:
            continue
        v = pr[1]
        sizes = [x for x in subnodes(v) if x.op == "call" and mname(x.a[0]) == "size" and any(c18.is_field(y, n) for n in maps for y in subnodes(x)) or x.op == "fld" and x.a[0] is THIS and x.a[1] not in maps]
        if v.op == "call" and not sizes:
            ctx.viol("mapping", inst, ev.loc(), "the name made up for a text does not depend on those made up before: %s" % show(v)[:80])
        new = any((lambda s: s.op == "op" and s.a[0] == "==" and pol or s.op == "op" and s.a[0] == "!=" and not pol or s.op == "call" and mname(s.a[0]) in ("empty", "count", "contains"))(strip_bool(g)) for g, pol in ev.g if any(c18.is_field(x, n) for n in maps for x in subnodes(g)))
        if not new:
            ctx.undecided("mapping", inst, "not seen to be added only when missing")
    # the number is written in one base
    for g in p.funcs:
        if p.funcs[g].get("c") == c and mname(g) == "getAlpha":
            ks = set()
            for x in nodes(p.funcs[g].get("body")):
                if x.get("k") == "bin" and x.get("o") in ("%", "/", "%=", "/="):
                    k = [y for y in nodes(x["b"]) if y.get("k") == "int"]
                    if len(k) == 1:
                        ks.add(str(k[0].get("v")))
            ctx.inst("mapping", "%s::getAlpha" % title)
            if len(ks) > 1:
                ctx.viol("mapping", "%s::getAlpha" % title, ctx.loc(g), "names are numbered with different bases (%s), so two numbers can have one name" % ", ".join(sorted(ks)))


def nodes(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            yield y
            todo.extend(y.values())
        elif isinstance(y, (list, tuple)):
            todo.extend(y)


def kept(ctx, title, c, maps):
    p = ctx.p
    ctx.inst("mapping", title + "::nothing forgotten")
    for f in sorted(p.funcs):
        if p.funcs[f].get("c") != c or "<ctor>" in f or "<dtor>" in f:
            continue
        l = []
        c12.walk_calls(p.funcs[f].get("body"), l)
        for x in l:
            if mname(x.get("f") or "") in ("erase", "clear", "swap", "operator=", "replace_left", "replace_right", "replace_data") and any(n in str(x.get("o")) or n in str(x.get("a")) for n in maps):
                ctx.viol("mapping", title + "::nothing forgotten", ctx.loc(f), "%s forgets or exchanges entries of the mapping" % mname(f))


def document(ctx, title, c, maps):
    """The mapping file: what is written first on a line is what is read first."""
    p = ctx.p
    inst = title + "::file"
    ctx.inst("mapping", inst)
    order, sep = None, None
    for f in cls_methods(p, c, "write"):
        seq, strs = [], []

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "mem" and x.get("f") in ("first", "second", "left", "right"):
                    b = x.get("b") or {}
                    if not (b.get("k") == "mem" and b.get("f") in maps):
                        seq.append(x["f"])
                        return
                if x.get("k") == "str" or x.get("k") == "char":
                    strs.append(x.get("v"))
                for y in x.values():
                    walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
        walk(p.funcs[f].get("body"))
        view = "right" if any(x.get("k") == "mem" and x.get("f") == "right" and (x.get("b") or {}).get("f") in maps for x in nodes(p.funcs[f].get("body"))) else "left"
        o = [{"left": "first", "right": "second"}.get(s, s) for s in seq]
        if sorted(o) == ["first", "second"]:
            if view == "right":
                o = o[::-1]
            order = o
    for f in cls_methods(p, c, "read"):
        e = ctx.summary(f, keep, "c13")
        for ev in e.events:
            if ev.k == "call" and mname(ev.d[0]) in ("insert", "emplace", "push_back") and ev.d[3] is not None and any(c18.is_field(x, n) for n in maps for x in subnodes(ev.d[3])):
                pr = pair_of(ev)
                cols = [column(x) for x in pr] if pr else [None]
                right = any(x.op == "fld" and x.a[1] == "right" for x in subnodes(ev.d[3]))
                if right:
                    cols = cols[::-1]
                if order is None or None in cols or len(set(cols)) != 2:
                    ctx.undecided("mapping", inst, "order of the columns not understood")
                    continue
                read = ["first", "second"] if cols[0] < cols[1] else ["second", "first"]
                if read != order:
                    ctx.viol("mapping", inst, ev.loc(), "the mapping file is read with its two columns exchanged")


def column(v):
    v = c03.strip_copy(v)
    if v.op == "call" and mname(v.a[0]) in ("at", "operator[]") and v.a[2]:
        k = c03.strip_copy(v.a[2][0])
        return k.a[0] if k.op == "int" else None
    if v.op == "at":
        k = c03.strip_copy(v.a[1])
        return k.a[0] if k.op == "int" else None
    if v.op == "call" and mname(v.a[0]) in ("front", "back"):
        return 0 if mname(v.a[0]) == "front" else 1
    if v.op == "call" and mname(v.a[0]) == "substr" and v.a[2]:
        k = c03.strip_copy(v.a[2][0])
        return 0 if k.op == "int" and k.a[0] == 0 else 1
    return None


def chosen(ctx):
    """The mapping is used when asked for, and its file is written then, after the document, and read when there is one."""
    p = ctx.p
    for fid in c18.roots(ctx, "write", 4) if not isinstance(c18.roots(ctx, "write", 4), str) else [c18.roots(ctx, "write", 4)]:
        pass
    w, r = xm.model(ctx).w, xm.model(ctx).r
    last = max([a.ev.seq for el in w.elems for a in el.attrs + el.text if named(p, a.value, None)[1]] or [0])
    opt = lambda g: [(strip_bool(c), pol) for c, pol in g if any(x.op == "call" and mname(x.a[0]) == "isAnonymized" or x.op == "fld" and x.a[1] == "m_anonymized" for x in subnodes(c)) and c.op != "imp"]
    for cls, want in (("SimpleAnonymizer", True), ("FakeAnonymizer", False)):
        evs = [ev for ev in w.e.events if cls in str(ev.d[1] if ev.k == "ctor" else ev.d[0]) and (ev.k == "ctor" or ev.k == "call" and "make_unique" in ev.d[0])]
        inst = "export " + cls
        ctx.inst("chosen", inst)
        gs = [g for ev in evs for g in opt(ev.g)]
        if not evs or not gs:
            ctx.undecided("chosen", inst, "choice of the anonymiser not understood")
        elif any(pol != want for _, pol in gs):
            ctx.viol("chosen", inst, evs[0].loc(), "%s is used when anonymisation is %s" % (cls, "not asked for" if want else "asked for"))
    ws = [ev for ev in w.e.events if ev.k in ("call", "enter") and mname(ev.d[0]) == "write" and "Anonymizer" in cname(ev.d[0])]
    ctx.inst("chosen", "export mapping file")
    if not ws:
        ctx.viol("chosen", "export mapping file", w.e.events[0].loc(), "the mapping is not written on export")
    for ev in ws[:1]:
        og = opt(ev.g)
        others = [c for c, pol in ev.g if (c, pol) not in og and (strip_bool(c), pol) not in og and c.op != "imp" and any(x.op == "param" and x.a[0] == "options" for x in subnodes(c))]
        if others:
            ctx.viol("chosen", "export mapping file", ev.loc(), "whether the mapping is written depends on %s" % show(others[0])[:80])
        elif not og and not [1 for c, _ in ev.g if c.op != "imp"]:
            ctx.viol("chosen", "export mapping file", ev.loc(), "a mapping file is written although anonymisation is not asked for")
        elif not og:
            ctx.undecided("chosen", "export mapping file", "condition not understood")
        elif any(not pol for _, pol in og):
            ctx.viol("chosen", "export mapping file", ev.loc(), "the mapping is not written when anonymisation is asked for")
        elif ev.seq < last:
            ctx.viol("chosen", "export mapping file", ev.loc(), "the mapping is written before the document is complete")
    rs = [ev for ev in r.e.events if ev.k in ("call", "enter") and mname(ev.d[0]) == "read" and "Anonymizer" in cname(ev.d[0])]
    ctx.inst("chosen", "import mapping file")
    first = min([ev.seq for ev in r.e.events if ev.k == "call" and mname(ev.d[0]) in DE] or [1 << 60])
    if not rs:
        ctx.viol("chosen", "import mapping file", r.e.events[0].loc(), "the mapping is not read on import")
    elif min(ev.seq for ev in rs) > first:
        ctx.viol("chosen", "import mapping file", rs[0].loc(), "the mapping is read after it is needed")
    ctx.inst("chosen", "same file")
    fs = []
    for e in (w.e, r.e):
        fs.append({c11.const(c03.strip_copy(ev.d[4][0])) for ev in e.events if ev.k == "call" and mname(ev.d[0]) == "replace_extension" and ev.d[4]})
    if fs[0] and fs[1] and fs[0] != fs[1]:
        ctx.viol("chosen", "same file", ws[0].loc() if ws else None, "the mapping is written to a file with extension %s and read from one with %s" % (", ".join(map(str, fs[0])), ", ".join(map(str, fs[1]))))
    elif not (fs[0] and fs[1]):
        ctx.undecided("chosen", "same file", "extension not understood")
