"""What the XML converter writes and reads: the expanded event streams of NetworkXml::write and read.

Both directions are reduced to the same shape: a list of elements, each with the path of names from
the root, and for each element the attributes, text and children with the conditions, the value
written (an expression over the objects of the network) or the places the value read goes to."""
from common import *
from rules import c03, c18

XS = "powsybl::xml::"
VERSIONS = ["V1_0", "V1_1", "V1_2", "V1_3", "V1_4", "V1_5"]


def policy(f, rec, obj, depth):
    if not f.startswith((X, I + "converter::ExportOptions", I + "converter::ImportOptions")):
        return mname(f).split("<")[0] == "toString" and cname(f).endswith("converter") or not f.startswith(XS) and any(
            t in q["t"] for q in rec["p"] for t in ("NetworkXmlReaderContext", "NetworkXmlWriterContext", "XmlStreamReader", "XmlStreamWriter"))
    c = cname(f)
    return "Anonymizer" not in c and not c.endswith(("IidmXmlVersion", "ExtensionXmlSerializer")) and "ExtensionProviders" not in f


def names(n):
    return c18.attr_name(n)


def version_of(n):
    """The version a node denotes when it is one of the constants."""
    n = c03.strip_copy(n)
    if n.op == "call" and "IidmXmlVersion::" in n.a[0]:
        m = mname(n.a[0])
        if m in VERSIONS:
            return VERSIONS.index(m)
        if m == "CURRENT_IIDM_XML_VERSION":
            return len(VERSIONS) - 1
    return None


CMP = {"operator>=": lambda a, b: a >= b, "operator>": lambda a, b: a > b, "operator<=": lambda a, b: a <= b, "operator<": lambda a, b: a < b,
       "operator==": lambda a, b: a == b, "operator!=": lambda a, b: a != b}


def is_context_version(n):
    """The version of the document being written or read."""
    if n.op == "ite":
        return any(c18.is_field(x, "m_version") or x.op == "call" and "IidmXmlVersion" in x.a[0] for x in subnodes(n))
    n = c03.strip_copy(n)
    return n.op == "call" and "IidmXmlVersion::" in n.a[0] and mname(n.a[0]) in ("fromNamespaceURI", "of") or c18.is_field(n, "m_version")


def version_env(v):
    def env(n):
        if n.op == "call" and mname(n.a[0]) in CMP and "IidmXmlVersion" in n.a[0]:
            args = ([n.a[1]] if n.a[1] is not None else []) + list(n.a[2])
            if len(args) == 2:
                vals = []
                for x in args:
                    k = version_of(x)
                    vals.append(k if k is not None else v if is_context_version(x) else None)
                if None not in vals:
                    return CMP[mname(n.a[0])](*vals)
        if n.op == "op" and "operator" + n.a[0] in CMP and len(n.a) == 3:
            vals = [version_of(x) if version_of(x) is not None else v if is_context_version(x) else None for x in n.a[1:]]
            if None not in vals and any(version_of(x) is not None for x in n.a[1:]):
                return CMP["operator" + n.a[0]](*vals)
        return None
    return env


class Elem:
    def __init__(self, path, start, parent):
        self.path, self.start, self.parent = path, start, parent
        self.attrs, self.children, self.text, self.end = [], [], [], None


class Attr:
    def __init__(self, name, ev, value, kind, default, ty):
        self.name, self.ev, self.value, self.kind, self.default, self.ty = name, ev, value, kind, default, ty


def short_type(t):
    t = t.replace("const ", "").replace("&", "").strip()
    if "basic_string" in t or "char" in t:
        return "string"
    return t


class Writer:
    def __init__(self, ctx, f, pol=policy, base=None, dyn=None):
        p = ctx.p
        self.e = ctx.summary(f, pol, "xml", dyn=dyn, maxevents=400000, maxdepth=60)
        self.f = f
        self.problems = []
        self.elems = []
        stack = []
        if base is not None:
            stack.append(Elem(tuple(base), None, None))
            self.elems.append(stack[0])
        for ev in self.e.events:
            if ev.k != "call" or not ev.d[0].startswith(XS + "XmlStreamWriter::"):
                continue
            m = mname(ev.d[0])
            args = ev.d[4]
            if m == "writeStartElement":
                nm = args[-1]
                ns = names(nm)
                par = stack[-1] if stack else None
                el = Elem((par.path if par else ()) + ("|".join(sorted(ns)) if ns else "?" + show(nm)[-60:],), ev, par)
                if par:
                    par.children.append(el)
                stack.append(el)
                self.elems.append(el)
            elif m == "writeEndElement":
                if not stack:
                    self.problems.append((ev, "an element is ended that was not started"))
                    continue
                stack[-1].end = ev
                stack.pop()
                if not stack and base is not None:
                    self.problems.append((ev, "an element is ended that was not started"))
            elif m in ("writeAttribute", "writeOptionalAttribute"):
                if not stack:
                    self.problems.append((ev, "an attribute is written outside any element"))
                    continue
                ns = names(args[0])
                pt = [q["t"] for q in p.funcs[ev.d[0]]["p"]] if ev.d[0] in p.funcs else ev.d[0][ev.d[0].index("(") + 1:].rsplit(")", 1)[0].split(",")
                ty = short_type(pt[1]) if len(pt) > 1 else "?"
                dflt = args[2] if len(args) > 2 else None
                for n in sorted(ns) or ["?" + show(args[0])[-60:]]:
                    stack[-1].attrs.append(Attr(n, ev, args[1], "optional" if m != "writeAttribute" else "plain", dflt, ty))
            elif m == "writeCharacters":
                (stack[-1].text if stack else self.problems).append(Attr("", ev, args[0], "text", None, "string") if stack else (ev, "text outside any element"))
        for el in stack[1 if base is not None else 0:]:
            self.problems.append((el.start, "the element %s is never ended" % el.path[-1]))


def matches(w, r):
    """A written path against a read one; '#' stands for any number."""
    if len(w) != len(r):
        return False
    for a, b in zip(w, r):
        if a != b and not (a.endswith("#") and b.startswith(a[:-1]) and b[len(a) - 1:].isdigit()):
            return False
    return True


def local_name(c):
    if c.op == "op" and c.a[0] in ("==", "!="):
        for a, b in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if a.op == "call" and mname(a.a[0]) == "getLocalName":
                return c.a[0], b
    return None


def guard_path(g):
    out = []
    for c, pol in g:
        l = local_name(c.a[1] if c.op == "un" and c.a[0] == "bool" else c)
        if l and (l[0] == "==") == pol:
            out.append("|".join(sorted(names(l[1]))) or "?" + show(l[1])[-40:])
    return tuple(out)


class Reader:
    def __init__(self, ctx, f, pol=policy, base=(), dyn=None):
        p = ctx.p
        self.e = ctx.summary(f, pol, "xml", dyn=dyn, maxevents=400000, maxdepth=60)
        self.f = f
        self.base = tuple(base)
        self.attrs, self.known, self.until, self.refused = {}, {}, [], []
        self.byv = {}
        seen = set()
        for ev in self.e.events:
            path = self.base + guard_path(ev.g)
            for c, pol in ev.g:
                l = local_name(c.a[1] if c.op == "un" and c.a[0] == "bool" else c)
                if l and (l[0] == "==") == pol:
                    pass
            for i in range(len(self.base) + 1, len(path) + 1):
                self.known.setdefault(path[:i], ev)
            if ev.k != "call":
                continue
            if ev.d[0].startswith(XS + "XmlStreamReader::"):
                m = mname(ev.d[0]).split("<")[0]
                args = ev.d[4]
                if m in ("getAttributeValue", "getOptionalAttributeValue"):
                    full = ev.d[0].split("(")[0]
                    if "<" in full.split("::")[-1] or "<" in full[len(XS):]:
                        t = full[len(XS + "XmlStreamReader::" + m):].strip("<>")
                        ty = short_type(t)
                    elif m == "getAttributeValue":
                        ty = "string"
                    else:
                        pt = [q["t"] for q in p.funcs[ev.d[0]]["p"]] if ev.d[0] in p.funcs else ev.d[0][ev.d[0].index("(") + 1:].rsplit(")", 1)[0].split(",")
                        ty = short_type(pt[1]) if len(pt) > 1 else "?"
                    for n in sorted(names(args[0])) or ["?" + show(args[0])[-60:]]:
                        self.attrs.setdefault(path, []).append(Attr(n, ev, ev.d[5] if len(ev.d) > 5 else None, "plain" if m == "getAttributeValue" else "optional", args[1] if len(args) > 1 else None, ty))
                elif m in ("readCharacters", "getText"):
                    self.attrs.setdefault(path, []).append(Attr("#text", ev, ev.d[5] if len(ev.d) > 5 else None, "text", None, "string"))
                elif m == "readUntilEndElement":
                    self.attrs.setdefault(path, []).append(Attr("#text", ev, ev.d[5] if len(ev.d) > 5 else None, "text", None, "string"))
                    self.until.append((path, "|".join(sorted(names(args[0]))) if args else "?", ev))
                elif m == "getLocalName":
                    pass

    def sinks(self, path, a):
        """Where the value read goes: calls and constructions of the model on the same path."""
        if not hasattr(self, "_sink"):
            self._sink = {}
            for ev in self.e.events:
                if ev.k == "call" and not ev.d[0].startswith((XS, "std::", "boost::")):
                    args = ev.d[4]
                elif ev.k == "ctor":
                    args = ev.d[3]
                else:
                    continue
                pt = self.base + guard_path(ev.g)
                for x in args:
                    if isinstance(x, Node):
                        for y in subnodes(x):
                            if y.op == "call" and y.a[0].startswith(XS + "XmlStreamReader"):
                                self._sink.setdefault((pt, y), []).append((ev, x))
        return self._sink.get((path, a.value), [])

    def used(self):
        """Every (place, value read) that something depends on: an argument, a condition, a store, a result."""
        if hasattr(self, "_used"):
            return self._used
        self._used = set()
        memo = {}

        def reads(x):
            if x not in memo:
                memo[x] = [y for y in subnodes(x) if y.op == "call" and y.a[0].startswith(XS + "XmlStreamReader")]
            return memo[x]

        for ev in self.e.events:
            pt = self.base + guard_path(ev.g)
            vs = [c for c, _ in ev.g] + [t[1] for t in ev.loops if len(t) > 1 and isinstance(t[1], Node)]
            if ev.k in ("call", "enter"):
                if ev.d[0].startswith(XS + "XmlStreamReader"):
                    continue
                vs += [x for x in [ev.d[3]] + list(ev.d[4]) if isinstance(x, Node)]
            elif ev.k == "ctor":
                vs += [x for x in ev.d[3] if isinstance(x, Node)]
            elif ev.k == "store":
                vs.append(ev.d[1])
            elif ev.k == "throw":
                continue
            for x in vs:
                for y in reads(x):
                    self._used.add((pt, y))
        for st, v in self.e.rets:
            for y in reads(v):
                self._used.add((None, y))
        return self._used

    def is_used(self, path, a):
        for pt, y in self.used():
            if y is a.value and (pt is None or pt[:len(path)] == path or path[:len(pt)] == pt):
                return True
        return False


class Model:
    """Both directions of the converter, and every extension serialiser."""
    def __init__(self, ctx):
        p = ctx.p
        self.w = Writer(ctx, c18.roots(ctx, "write", 4))
        self.r = Reader(ctx, c18.roots(ctx, "read", 3), base=("network",))
        self.ext = {}
        base = X + "ExtensionXmlSerializer"
        for c in sorted(p.subclasses(base)):
            if p.classes[c].get("abstract"):
                continue
            wf = p.find_override(c, next((f for f in ctx.method(base, "write")), "")) if False else None
            ws = [f for f in methods(p, c, "write") if f in p.funcs]
            rs = [f for f in methods(p, c, "read") if f in p.funcs]
            if ws and rs:
                self.ext[c] = (Writer(ctx, ws[0], base=("extension",), dyn=c), Reader(ctx, rs[0], base=("extension",), dyn=c))
            else:
                self.ext[c] = None

    def pairs(self):
        yield "network", self.w, self.r
        for c, x in self.ext.items():
            if x:
                yield c.split("::")[-1].replace("XmlSerializer", ""), x[0], x[1]


def methods(p, c, name):
    """The functions implementing a method of a class, own ones first."""
    todo, seen = [c], set()
    while todo:
        k = todo.pop(0)
        if k in seen or k not in p.classes:
            continue
        seen.add(k)
        for m in p.classes[k]["methods"]:
            if m["n"] == name and m["f"] in p.funcs:
                yield m["f"]
        todo.extend(b["c"] for b in p.classes[k]["bases"])


def model(ctx):
    m = getattr(ctx.p, "_xmlmodel", None)
    if m is None:
        m = ctx.p._xmlmodel = Model(ctx)
    return m


WRAP = {"toString", "to_string", "parse", "anonymizeString", "anonymizeCountry", "deanonymizeString", "deanonymizeCountry", "fromString"}
THROUGH = {"make_shared", "make_unique", "move", "forward", "safeCast", "getRootElement"}


def chain(v):
    """Names of the members that lead to a value, outermost object first; '*' for an element of a collection."""
    out = []
    v = c03.strip_copy(v)
    while True:
        if v.op == "call":
            m = mname(v.a[0]).split("<")[0]
            if m in WRAP and v.a[2]:
                v = c03.strip_copy(v.a[2][0])
            elif v.a[1] is None or m in THROUGH and v.a[2]:
                if m in THROUGH and v.a[2]:
                    v = c03.strip_copy(v.a[2][0])
                else:
                    out.append("@" + m)
                    break
            else:
                out.append(m)
                v = c03.strip_copy(v.a[1])
        elif v.op == "elem":
            out.append("*")
            v = c03.strip_copy(v.a[0])
        elif v.op == "fld":
            out.append(v.a[1])
            v = v.a[0]
        elif v.op == "dyn" or v.op == "un" and v.a[0] == "bool":
            v = v.a[-1] if isinstance(v.a[-1], Node) else v.a[0]
        elif v.op in ("new", "obj") and v.a[-1] and len(v.a[-1]) == 1 and isinstance(v.a[-1][0], Node) and "Adder" in str(v.a[0]) + str(v.a[1]):
            v = v.a[-1][0]
        else:
            out.append("@" + v.op)
            break
    return out[::-1]
