"""C22: elements nest on export whatever the content, and import consumes every one of them, each reader its own."""
from common import *
from rules import c03, c11, c18
import xmlmodel as xm
from xmlmodel import XS


def check(ctx):
    m = xm.model(ctx)
    for title, w, r in m.pairs():
        nesting(ctx, title, w)
        reading(ctx, title, w, r)
    for c, x in sorted(m.ext.items()):
        if x is None:
            ctx.inst("nesting", c)
            ctx.undecided("nesting", c, "read or write not found")
    ctx.notes.append("%d elements written, %d element places read, %d extension serialisers" % (len(m.w.elems), len(m.r.known), len(m.ext)))
    ctx.need("nesting", 60)
    ctx.need("read", 60)
    ctx.need("own end", 25)
    ctx.need("refused", 15)


def where(title, path):
    return "%s %s" % (title, "/".join(path[-2:]))


def loop_ids(ev):
    return tuple(l[2] for l in ev.loops)


def nesting(ctx, title, w):
    for ev, what in w.problems:
        inst = "%s %s" % (title, ev.loc() or "")
        ctx.inst("nesting", inst)
        ctx.viol("nesting", inst, ev.loc(), "%s: %s" % (title, what))
    for el in w.elems:
        if el.start is None or el.end is None:
            continue
        inst = where(title, el.path)
        ctx.inst("nesting", inst)
        a = {x for x in el.start.g if x[0].op != "imp"}
        b = {x for x in el.end.g if x[0].op != "imp"}
        for x in sorted(a ^ b, key=lambda x: show(x[0])):
            ctx.viol("nesting", inst, (el.start if x in a else el.end).loc(), "element %s is %s only when %s%s" % ("/".join(el.path), "started" if x in a else "ended", "" if x[1] else "not ", show(x[0])[-100:]))
            break
        else:
            if loop_ids(el.start) != loop_ids(el.end):
                ctx.viol("nesting", inst, el.end.loc(), "element %s is not ended as often as it is started" % "/".join(el.path))
        # attributes come before the content
        first = min([c.start.seq for c in el.children] + [t.ev.seq for t in el.text] or [1 << 60])
        for a in el.attrs:
            if a.ev.seq > first and not any(exclusive(a.ev, c) for c in [c.start for c in el.children] + [t.ev for t in el.text] if c.seq < a.ev.seq):
                ctx.viol("nesting", inst + "@" + a.name, a.ev.loc(), "attribute %s of element %s is written after its content has begun" % (a.name, "/".join(el.path)))
                break


def exclusive(a, b):
    return any((c, not pol) in b.g for c, pol in a.g)


def ext_name(ctx, r):
    """The name an extension serialiser is registered under, which is the name of its element."""
    cls = ctx.p.funcs[r.f]["c"] if r.f in ctx.p.funcs else None
    for f in ctx.p.funcs:
        if cls and f.startswith(cls + "::<ctor>("):
            e = ctx.summary(f, lambda g, rec, obj, depth: False, "c22ctor")
            for ev in e.events:
                if ev.k == "basector":
                    for a in ev.d[3]:
                        a = c03.strip_copy(a) if isinstance(a, Node) else a
                        n = xm.names(a) if isinstance(a, Node) else ()
                        if n:
                            return sorted(n)[0]
    return None


def reading(ctx, title, w, r):
    base = r.base
    written = {}
    for el in w.elems:
        written.setdefault(el.path, el)
    us = {}
    for path, name, ev in r.until:
        us.setdefault(path, []).append((name, ev))
    # every element written is recognised where it is written
    for path, el in sorted(written.items()):
        if path == base or el.start is None or any(x.startswith("?") for x in path) or len(path) <= len(base):
            continue
        inst = where(title, path)
        ctx.inst("read", inst)
        if not any(xm.matches(path, q) for q in r.known):
            ctx.viol("read", inst, el.start.loc(), "element %s is written but not recognised on import" % "/".join(path))
    # a reader reads up to the end of its own element
    en = ext_name(ctx, r) if title != "network" else None
    for path, l in sorted(us.items()):
        for name, ev in l:
            inst = "%s %s" % (where(title, path or ("network",)), name or "by name")
            ctx.inst("own end", inst)
            if path == base and title != "network":
                a = ev.d[4][0]
                own = not name and any(c18.is_field(x, "m_extensionName") or x.op == "call" and mname(x.a[0]) in ("getExtensionName", "getLocalName") for x in subnodes(a)) or name == en
            elif name:
                own = path and name == path[-1]
            else:
                own = local(ev.d[4][0])
            if not own:
                ctx.viol("own end", inst, ev.loc(), "the reader of element %s reads until the end of %s" % ("/".join(path) or "network", name or show(ev.d[4][0])[-60:]))
    # children that are written are looked for
    for path, el in sorted(written.items()):
        kids = [c for c in el.children if not c.path[-1].startswith("?")]
        if not kids or path == base or any(x.startswith("?") for x in path):
            continue
        for q in sorted(q for q in r.known if xm.matches(path, q)):
            if title == "network" and q == ("network", "extension"):
                continue
            inst = where(title, q)
            ctx.inst("own end", inst + " content")
            if q not in us:
                ctx.viol("own end", inst + " content", el.start.loc() if el.start is not None else None, "element %s is written with content but its reader does not read up to its end" % "/".join(q))
    # a child that is not known is refused
    for path, l in sorted(us.items()):
        for name, ev in l:
            if len(ev.d[4]) < 2:
                continue
            kids = [k for k in r.known if len(k) == len(path) + 1 and k[:len(path)] == path]
            if not kids:
                continue                            # extensions are looked up by their name
            inst = where(title, path or ("network",))
            ctx.inst("refused", inst)
            names_ = {k[-1] for k in kids}
            ok = False
            for t in r.e.events:
                if t.k != "throw" or base + xm.guard_path(t.g) != path:
                    continue
                no = set()
                other = False
                for c, pol in t.g:
                    x = c.a[1] if c.op == "un" and c.a[0] == "bool" else c
                    ln = xm.local_name(x)
                    if ln and (ln[0] == "==") != pol:
                        no |= xm.names(ln[1])
                    elif not ln and x.op == "op" and x.a[0] in ("||", "&&") and any(xm.local_name(y) for y in subnodes(x)):
                        for y in subnodes(x):
                            z = xm.local_name(y)
                            if z:
                                no |= xm.names(z[1])
                    elif not ln and c.op != "imp" and (c, pol) not in ev.g:
                        other = True
                if names_ <= no and not other:
                    ok = True
                    break
            if not ok:
                ctx.viol("refused", inst, ev.loc(), "an unknown element within %s is not refused (known: %s)" % ("/".join(path) or "network", ", ".join(sorted(names_))))


def local(n):
    return any(x.op == "call" and mname(x.a[0]) == "getLocalName" for x in subnodes(n))
