"""C14: failures of the XML library and values that are not what they should be are refused, on every path."""
import re
from common import *
from rules import c03, c12, c18
import xmlmodel as xm
from xmlmodel import XS

RD, WR = XS + "XmlStreamReader", XS + "XmlStreamWriter"
# libxml2: what a call gives when it fails
NULLS = {"xmlTextReaderGetAttribute", "xmlTextReaderGetAttributeNs", "xmlTextReaderGetAttributeNo", "xmlTextReaderLocalName", "xmlTextReaderName", "xmlTextReaderPrefix", "xmlTextReaderLookupNamespace",
         "xmlTextReaderReadString", "xmlTextReaderValue", "xmlTextReaderNamespaceUri", "xmlTextReaderBaseUri", "xmlTextReaderXmlLang", "xmlTextReaderReadInnerXml", "xmlTextReaderReadOuterXml"}
ELEMENT = {"xmlTextReaderGetAttribute", "xmlTextReaderGetAttributeNs", "xmlTextReaderGetAttributeNo", "xmlTextReaderReadString", "xmlTextReaderValue", "xmlTextReaderPrefix"}
NUMBER = {"stod", "stof", "stold", "stoi", "stol", "stoll", "stoul", "stoull"}
UNSIGNED = {"stoul", "stoull", "strtoul", "strtoull"}
LOOSE = {"atoi", "atol", "atoll", "atof"}


def lib(f):
    """Name of a function of the XML library."""
    n = f.split("(")[0]
    return n if n.startswith("xml") and "::" not in n else None


def inlined(f, rec, obj, depth):
    return f.startswith(XS) or "XmlStream" in f or rec.get("file", "").startswith("src/xml/")


def num(n, sub, env=None):
    n = c03.strip_copy(n)
    if n in sub:
        return sub[n]
    if n.op == "int":
        return int(n.a[0])
    if n is NULL or n.op == "null":
        return 0
    if n.op == "enum":
        return 0 if n.a[1].endswith("TYPE_NONE") else 100 + sum(map(ord, n.a[1])) % 1000
    if n.op in ("lv", "phi"):
        for x in subnodes(n):
            if x in sub:
                return sub[x]
        return None
    if n.op == "ite":
        c = c18.ev3(n.a[0], env or atoms(sub), {})
        if c is None:
            x, y = num(n.a[1], sub, env), num(n.a[2], sub, env)
            return x if x == y else None
        return num(n.a[1] if c else n.a[2], sub, env)
    if n.op == "un" and n.a[0] == "bool":
        return num(n.a[1], sub, env)
    return None


def atoms(sub, given=()):
    known = dict(given)

    def env(n):
        if n in sub:
            return bool(sub[n])
        if n in known:
            return known[n]
        if n.op == "op" and n.a[0] in ("==", "!=", "<", "<=", ">", ">="):
            x, y = num(n.a[1], sub, env), num(n.a[2], sub, env)
            if x is not None and y is not None:
                return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[n.a[0]]
        return None
    return env


def mentions_v(c, v):
    return any(x is v for x in subnodes(c))


def refused(e, ev, v, values, looped=False):
    """Every failing value leads to a throw; what else guards the throw was already so, or is a check that throws itself."""
    throws = [t for t in e.events if t.k == "throw" and t.g]
    checks = {(t.g[-1][0], not t.g[-1][1]) for t in throws}
    base = {g for g in ev.g if not (looped and mentions_v(g[0], v))}
    for val in values:
        env = atoms({v: val}, [g for g in base if g[0].op != "imp"])
        for t in throws:
            if not looped and t.seq < ev.seq or looped and t.loops and t.loops != ev.loops:
                continue
            own = [(c, pol) for c, pol in t.g if mentions_v(c, v)]
            if own and all(c18.ev3(c, env, {}) is pol for c, pol in own) and \
                    all(g in base or g in own or g in checks or g[0].op == "imp" or c18.ev3(g[0], env, {}) is g[1] for g in t.g):
                break
        else:
            return False
    return True


def functions(p, c):
    return sorted(f for f in p.funcs if p.funcs[f].get("c") == c and p.funcs[f].get("body") is not None)


def short_fn(f):
    m = f.split("(")[0].replace("powsybl::xml::", "")
    m = re.sub(r"std::basic_string<.*>", "std::string", m)
    a = f[f.index("(") + 1:].rsplit(")", 1)[0] if "(" in f else ""
    a = re.sub(r"const |&|std::allocator<char>|std::char_traits<char>|std::basic_string<char, , >|std::", "", a).strip()
    return m + ("(%s)" % a if a else "")


def text_of(e, n):
    """The text behind a wrapped string."""
    return c03.strip_copy(e.pointee(n)) if isinstance(n, Node) else n


def check(ctx):
    p = ctx.p
    rd, wr = functions(p, RD), functions(p, WR)
    for f in rd:
        reader(ctx, f)
    for f in wr:
        writer(ctx, f)
    conversions(ctx)
    parse(ctx)
    ending(ctx)
    ownership(ctx)
    optional_uses(ctx)
    elements(ctx)
    enumerations(ctx)
    version(ctx)
    ctx.notes.append("%d reader functions, %d writer functions" % (len(rd), len(wr)))
    ctx.need("null", 10)
    ctx.need("mandatory", 5)
    ctx.need("number", 6)
    ctx.need("write", 6)
    ctx.need("optional", 40)
    ctx.need("element", 25)
    ctx.need("enum", 5)


# -- reading

def reader(ctx, f):
    p = ctx.p
    name = short_fn(f)
    e = ctx.summary(f, inlined, "c14")
    content = "string" in (p.funcs[f].get("rt") or "")
    for ev in e.events:
        if ev.k in ("call", "enter") and mname(ev.d[0]) == "XML2S":
            a = text_of(e, ev.d[4][0])
            inst = "%s %s" % (name, mname(a.a[0]) if a.op == "call" else show(a)[:40])
            ctx.inst("null", inst)
            if a.op == "call" and lib(a.a[0]) in NULLS:
                env = atoms({a: 0})
                if not any(c18.ev3(c, env, {}) is (not pol) for c, pol in ev.g):
                    ctx.viol("null", inst, ev.loc(), "the result of %s is used although it may be missing" % lib(a.a[0]))
        if ev.k != "call" or not lib(ev.d[0]):
            continue
        l = lib(ev.d[0])
        v = ev.d[5] if len(ev.d) > 5 else None
        if l in ELEMENT:
            inst = "%s %s" % (name, l)
            ctx.inst("node type", inst)
            if not any(pol and c.op == "op" and c.a[0] == "==" and any(x.op == "call" and lib(x.a[0]) == "xmlTextReaderNodeType" for x in subnodes(c)) for c, pol in ev.g):
                ctx.viol("node type", inst, ev.loc(), "%s is asked without checking what the reader is on (after a failed read it is on nothing)" % l)
        if l == "xmlTextReaderIsEmptyElement" and v is not None:
            inst = "%s %s" % (name, l)
            ctx.inst("read", inst)
            if not refused(e, ev, v, (-1,)):
                ctx.viol("read", inst, ev.loc(), "a failure of %s is not refused" % l)
        if l in ("xmlTextReaderRead", "xmlTextReaderNext") and v is not None:
            inst = "%s %s" % (name, l)
            ctx.inst("read", inst)
            calls_back = any(x.k in ("call", "enter") and "std::function" in x.d[0] for x in e.events if x.seq > ev.seq)
            if not (content or calls_back):
                continue                            # gives nothing of the document; what follows checks the node
            # a read in a loop is judged by the throw after the loop
            typed = any(t.k == "throw" and t.seq > ev.seq and any(not pol and c.op == "op" and c.a[0] == "==" and any(x.op == "call" and lib(x.a[0]) == "xmlTextReaderNodeType" for x in subnodes(c)) for c, pol in t.g) and
                        not [g for g in t.g if g not in ev.g and not any(x.op == "call" and lib(x.a[0]) == "xmlTextReaderNodeType" for x in subnodes(g[0]))] for t in e.events) and not ev.loops
            if not typed and not (refused(e, ev, v, (0, -1), True)):
                ctx.viol("read", inst, ev.loc(), "the end of the document or an error while reading is taken for the end of the element")
    # loops end when reading fails
    for ev in e.events:
        if ev.k == "call" and lib(ev.d[0]) in ("xmlTextReaderRead", "xmlTextReaderNext") and ev.loops:
            tag = ev.loops[-1]
            inst = "%s loop" % name
            ctx.inst("terminates", inst)
            own = [(c, pol) for c, pol in ev.g]
            ok = True
            for val in (0, -1):
                sub = {}
                for c, pol in own:
                    for x in subnodes(c):
                        if x.op == "call" and lib(x.a[0]) in ("xmlTextReaderRead", "xmlTextReaderNext", "xmlTextReaderNodeType"):
                            sub[x] = val
                env = atoms(sub)
                if not any(c18.ev3(c, env, {}) is (not pol) for c, pol in own):
                    ok = False
            if not ok:
                ctx.viol("terminates", inst, ev.loc(), "the loop goes on when reading fails")
    # the value of an attribute that must be there
    if mname(f).split("<")[0] == "getAttributeValue" and "bool)" not in f:
        ctx.inst("mandatory", name)
        ga = [ev for ev in e.events if ev.k == "call" and lib(ev.d[0]) == "xmlTextReaderGetAttribute"]
        if not ga:
            ctx.undecided("mandatory", name, "attribute access not found")
        for ev in ga:
            v = ev.d[5] if len(ev.d) > 5 else None
            if v is not None and not refused(e, ev, v, (0,)):
                ctx.viol("mandatory", name, ev.loc(), "a missing attribute is not refused")
    # a default stands for a missing attribute, and only for it
    if mname(f).split("<")[0] == "getOptionalAttributeValue" and len(p.funcs[f]["p"]) == 2:
        ctx.inst("default", name)
        ga = [ev.d[5] for ev in e.events if ev.k == "call" and lib(ev.d[0]) == "xmlTextReaderGetAttribute" and len(ev.d) > 5]
        d = p.funcs[f]["p"][1]["n"]
        for st, v in e.rets:
            if len(set(ga)) != 1:
                ctx.undecided("default", name, "attribute access not found")
                continue
            for there in (0, 1):
                x = c03.strip_copy(v)
                env = atoms({ga[0]: there})
                n = 0
                while x.op == "ite" and n < 10:
                    c = c18.ev3(x.a[0], env, {})
                    if c is None:
                        break
                    x = c03.strip_copy(x.a[1] if c else x.a[2])
                    n += 1
                isdef = x.op == "param" and x.a[0] == d
                has = any(y is ga[0] for y in subnodes(x))
                if there and isdef:
                    ctx.viol("default", name, ctx.loc(f), "an attribute that is given is ignored")
                elif not there and has and not isdef and x.op != "ite":
                    ctx.viol("default", name, ctx.loc(f), "the value of a missing attribute is used")


# -- writing

def writer(ctx, f):
    name = short_fn(f)
    e = ctx.summary(f, inlined, "c14")
    for ev in e.events:
        if ev.k != "call" or not lib(ev.d[0]):
            continue
        l = lib(ev.d[0])
        v = ev.d[5] if len(ev.d) > 5 else None
        if l in ("xmlNewTextWriter", "xmlFindCharEncodingHandler", "xmlNewTextWriterMemory", "xmlNewTextWriterFilename"):
            vals = (0,)
        elif l.startswith("xmlTextWriter"):
            vals = (-1,)
        else:
            continue
        inst = "%s %s" % (name, l)
        ctx.inst("write", inst)
        if v is None or not refused(e, ev, v, vals):
            ctx.viol("write", inst, ev.loc(), "a failure of %s is not reported" % l)
        if l == "xmlNewTextWriter":
            bufs = [x for x in e.events if x.k == "call" and lib(x.d[0]) in ("xmlOutputBufferCreateIO", "xmlOutputBufferCreateFd", "xmlOutputBufferCreateFile")]
            for b in bufs:
                ctx.inst("ownership", "%s output buffer" % name)
                for t in e.events:
                    if t.k == "throw" and any(mentions_v(c, v) and c18.ev3(c, atoms({v: 0}), {}) is pol for c, pol in t.g):
                        if not any(x.k == "call" and lib(x.d[0]) == "xmlOutputBufferClose" and ev.seq < x.seq < t.seq for x in e.events):
                            ctx.viol("ownership", "%s output buffer" % name, t.loc(), "the output buffer is not closed when the writer cannot be created")


def stream_field(p, c, kind):
    return [f["n"] for f in p.classes[c]["fields"] if kind in f["t"]] if c in p.classes else []


def on_bad_stream(is_stream):
    """Truth of conditions when the stream has failed."""
    def env(n):
        if is_stream(n):
            return False
        if n.op == "call" and n.a[1] is not None and (is_stream(n.a[1]) or is_stream(c03.strip_copy(n.a[1]))):
            m = mname(n.a[0])
            if m in ("fail", "bad", "operator!"):
                return True
            if m in ("good", "operator bool", "is_open"):
                return m == "is_open"
        return None
    return env


def told(throws, is_stream, base, after=-1):
    """A throw that is reached when the stream has failed."""
    env = on_bad_stream(is_stream)
    return any(t.seq > after and any(any(is_stream(x) for x in subnodes(c)) for c, q in t.g if (c, q) not in base) and
               all((c, q) in base or c.op == "imp" or c18.ev3(c, env, {}) is q for c, q in t.g) for t in throws)


def ending(ctx):
    """What could not be written is reported in the end: the stream's state is checked."""
    p = ctx.p
    names = stream_field(p, WR, "ostream")
    for f in functions(p, WR):
        if mname(f) != "writeEndDocument":
            continue
        ctx.inst("written", "document")
        e = ctx.summary(f, inlined, "c14")
        # throws for the library's own failures come before: those guards hold when it goes on
        gone = {(t.g[-1][0], not t.g[-1][1]) for t in e.events if t.k == "throw" and t.g}
        if not told([t for t in e.events if t.k == "throw"], lambda x: any(c18.is_field(x, n) for n in names), gone):
            ctx.viol("written", "document", ctx.loc(f), "the document is taken as written whatever became of the stream")
    m = xm.model(ctx)
    ws = [ev for ev in m.w.e.events if ev.k in ("call", "enter") and mname(ev.d[0]) == "write" and "Anonymizer" in cname(ev.d[0])]
    for ev in ws[:1]:
        ctx.inst("written", "mapping file")
        s = ev.d[4][0] if ev.d[4] else None
        if s is not None and not told([t for t in m.w.e.events if t.k == "throw"], lambda x: x is s, set(ev.g), ev.seq):
            ctx.viol("written", "mapping file", ev.loc(), "the mapping is taken as written whatever became of its file")


# -- values

def conversions(ctx):
    """Text converted to a number is a number to its end, and not negative where it cannot be."""
    p = ctx.p
    todo = []
    for f in functions(p, RD):
        todo.append((f, inlined))
    for f in sorted(p.funcs):
        fl = p.funcs[f].get("file", "")
        if "converter/xml" in fl or fl.startswith("extensions/") and "/src/" in fl or "/xml/" in fl and "extensions" in fl:
            l = []
            c12.walk_calls(p.funcs[f].get("body"), l)
            if any(mname(x.get("f") or "").split("<")[0] in NUMBER | LOOSE | UNSIGNED | {"lexical_cast", "strtod", "strtol"} for x in l):
                todo.append((f, lambda g, rec, obj, d: d < 4 and rec.get("file", "").startswith("src/") and not g.startswith(XS)))
    seen = set()
    for f, pol in todo:
        e = ctx.summary(f, pol, "c14" if pol is inlined else "c14n")
        for ev in e.events:
            if ev.k != "call":
                continue
            m = mname(ev.d[0]).split("<")[0]
            if not ev.d[0].startswith(("std::", "boost::", "ato", "strto")) or m not in NUMBER | LOOSE | UNSIGNED | {"lexical_cast", "strtod", "strtol"}:
                continue
            inst = "%s %s" % (short_fn(f).replace("powsybl::iidm::converter::xml::", ""), m)
            ctx.inst("number", inst)
            s = text_of(e, ev.d[4][0]) if ev.d[4] else None
            if m in LOOSE:
                ctx.viol("number", inst, ev.loc(), "%s reads whatever comes first as a number" % m)
                continue
            throws = [t for t in e.events if t.k == "throw"]

            def on_text(c):
                return any(x.op == "call" and x.a[1] is not None and text_of(e, x.a[1]) is s and mname(x.a[0]) in ("size", "length", "find_first_not_of", "find_last_not_of", "operator[]", "at", "substr", "end", "c_str") for x in subnodes(c)) or c.op == "op" and any(x is s for x in subnodes(c)) and any(x.op == "call" and mname(x.a[0]) in ("size", "length", "find_first_not_of") for x in subnodes(c))
            if m != "lexical_cast":
                if not any(t.seq > ev.seq and any((c, q) not in ev.g and on_text(c) for c, q in t.g) for t in throws):
                    ctx.viol("number", inst, ev.loc(), "a number followed by something else is accepted")
            if m in UNSIGNED or m == "lexical_cast" and "unsigned" in ev.d[0]:
                ctx.inst("number", inst + " sign")
                if f.startswith(RD) and not any(any(x.op == "int" and int(x.a[0]) == 45 or x.op == "str" and x.a[0] and ("-" in x.a[0] or "0123" in x.a[0]) or x.op == "call" and mname(x.a[0]) in ("isdigit", "is_digit") for c, q in t.g for x in subnodes(c)) for t in throws):
                    ctx.viol("number", inst + " sign", ev.loc(), "a negative number is read as a huge one")
    # text converted to a boolean is one of its two names
    for f in functions(p, RD):
        rt = p.funcs[f].get("rt") or ""
        if not (rt == "bool" or "optional<bool>" in rt) or not any(k in mname(f) for k in ("AttributeValue",)):
            continue
        name = short_fn(f)
        e = ctx.summary(f, inlined, "c14")
        ctx.inst("boolean", name)

        def words(c):
            return {x.a[0].lower() for x in subnodes(c) if x.op == "str"} if any(x.op == "call" and lib(x.a[0]) == "xmlTextReaderGetAttribute" for x in subnodes(c)) else set()
        ok = False
        for t in e.events:
            if t.k == "throw":
                no = set()
                for c, q in t.g:
                    if not q:
                        no |= words(c)
                    elif c.op == "un" and c.a[0] == "!":
                        no |= words(c.a[1])
                    elif c.op == "op" and c.a[0] in ("!=", "&&"):
                        no |= words(c)
                if {"true", "false"} <= no:
                    ok = True
        if not ok:
            ctx.viol("boolean", name, ctx.loc(f), "text that is neither true nor false is read as a boolean")
    # signed text handed over as a number that cannot be negative
    m = xm.model(ctx)
    for title, w, r in m.pairs():
        for q in sorted(r.attrs):
            for b in r.attrs[q]:
                if b.ty not in ("int", "long", "short"):
                    continue
                for ev, x in r.sinks(q, b):
                    f = ev.d[0] if ev.k == "call" else ev.d[1]
                    if f not in p.funcs:
                        continue
                    args = ev.d[4] if ev.k == "call" else ev.d[3]
                    for a, prm in zip(args, p.funcs[f]["p"]):
                        if a is x and c03.strip_copy(a) is b.value:
                            inst = "%s %s@%s" % (title, q[-1] if q else "", b.name)
                            ctx.inst("number", inst)
                            if "unsigned" in prm["t"] or prm["t"].replace("const ", "").strip(" &") in ("size_t", "std::size_t"):
                                ctx.viol("number", inst, ev.loc(), "%s of element %s is read as a signed number but cannot be negative: a negative one becomes huge" % (b.name, "/".join(q)))


def parse(ctx):
    """The document is parsed strictly: nothing is recovered or substituted."""
    p = ctx.p
    for f in functions(p, RD):
        for ev in ctx.summary(f, inlined, "c14").events:
            if ev.k == "call" and lib(ev.d[0]) in ("xmlReaderForIO", "xmlReaderForFd", "xmlReaderForFile", "xmlReaderForMemory", "xmlReaderForDoc", "xmlReaderNewIO"):
                inst = short_fn(f)
                ctx.inst("strict", inst)
                o = c03.strip_copy(ev.d[4][-1])
                vals = []
                for x in subnodes(o):
                    if x.op == "int":
                        vals.append(int(x.a[0]))
                    elif x.op == "enum":
                        vals.append(1 if x.a[1].endswith("RECOVER") else 0)
                if any(v & 1 for v in vals):
                    ctx.viol("strict", inst, ev.loc(), "documents that are not well formed are repaired instead of refused")
                elif not vals:
                    ctx.undecided("strict", inst, "parse options not understood: %s" % show(o)[:60])


def ownership(ctx):
    """Every text the library allocates is owned by a wrapper, and every handle by a pointer that frees it."""
    p = ctx.p
    for c in (RD, WR):
        for f in functions(p, c):
            e = ctx.summary(f, inlined, "c14")
            wrapped = set()
            for ev in e.events:
                if ev.k == "ctor":
                    for a in ev.d[3]:
                        if isinstance(a, Node):
                            wrapped.add(c03.strip_copy(a))
            for ev in e.events:
                if ev.k == "call" and lib(ev.d[0]) in NULLS and len(ev.d) > 5 and ev.d[5] is not None:
                    inst = "%s %s" % (short_fn(f), lib(ev.d[0]))
                    ctx.inst("ownership", inst)
                    freed = any(x.k == "call" and mname(x.d[0]) in ("xmlFree",) for x in e.events)
                    if ev.d[5] not in wrapped and not freed:
                        ctx.viol("ownership", inst, ev.loc(), "the text given by %s is never freed" % lib(ev.d[0]))
    xs = XS + "XmlString"
    for f in sorted(p.funcs):
        if f.startswith(xs + "::<ctor>(") and "&&" not in f and "const powsybl" not in f:
            ctx.inst("ownership", "XmlString")
            if "xmlFree" not in str(p.funcs[f].get("inits")) + str(p.funcs[f].get("body")):
                ctx.viol("ownership", "XmlString", ctx.loc(f), "the text is not freed by the library's function")
    for c, typ, free in ((RD, "xmlTextReader", "xmlFreeTextReader"), (WR, "xmlTextWriter", "xmlFreeTextWriter")):
        has = [f for f in p.classes[c]["fields"] if typ in f["t"] or "Ptr" in f["t"]] if c in p.classes else []
        ctx.inst("ownership", c.split("::")[-1] + " handle")
        for fld in has:
            if fld["t"].rstrip().endswith("*"):
                ctx.viol("ownership", c.split("::")[-1] + " handle", "%s:%s" % (p.classes[c]["file"], fld.get("l")), "the handle is a bare pointer")
        if not any(free in str(p.funcs[f].get("body")) for f in p.funcs if p.funcs[f].get("file", "").startswith(("src/xml/", "include/powsybl/xml/"))):
            ctx.viol("ownership", c.split("::")[-1] + " handle", "%s" % p.classes[c]["file"], "%s is never called" % free)


def optional_uses(ctx):
    """A value that may be missing is used only where it is there."""
    m = xm.model(ctx)
    for title, w, r in m.pairs():
        for q in sorted(r.attrs):
            for b in r.attrs[q]:
                if b.kind != "optional" or len(b.ev.d[4]) > 1 or b.value is None:
                    continue
                inst = "%s %s@%s" % (title, "/".join(q[-2:]), b.name)
                ctx.inst("optional", inst)
                for ev, x in r.sinks(q, b):
                    f = ev.d[0] if ev.k == "call" else ev.d[1]
                    if "optional" in f:
                        continue                    # handed over as it is
                    f2 = ctx.p.funcs.get(f)
                    args = ev.d[4] if ev.k == "call" else ev.d[3]
                    if f2 and any(a is x and "optional" in prm["t"] for a, prm in zip(args, f2["p"])):
                        continue
                    env = atoms({b.value: 0})
                    if any(c18.ev3(c, env, {}) is (not pol) for c, pol in ev.g):
                        continue
                    y = c03.strip_copy(x)
                    safe = False
                    for n in subnodes(y):
                        if n.op == "ite" and c18.ev3(n.a[0], env, {}) is not None:
                            safe = True
                    if not safe:
                        ctx.viol("optional", inst, ev.loc(), "%s of element %s is used although it may be missing" % (b.name, "/".join(q)))
                        break


def is_name(n):
    """The name of the element the reader is on."""
    return any(x.op == "call" and (lib(x.a[0]) == "xmlTextReaderLocalName" or mname(x.a[0]) == "getLocalName") for x in subnodes(n))


def unknown_name(n):
    """Truth of conditions on an element of an unknown name."""
    if n.op == "op" and n.a[0] in ("==", "!=") and (is_name(n.a[1]) or is_name(n.a[2])):
        return n.a[0] == "!="
    if n.op == "call" and is_name(n) and mname(n.a[0]).split("<")[0] in ("starts_with", "ends_with", "equals", "iequals", "regex_match", "contains"):
        return False
    return None


def elements(ctx):
    """An element of an unknown name is refused wherever elements of known names are expected."""
    m = xm.model(ctx)
    done, found = set(), {}
    for title, w, r in m.pairs():
        if id(r.e) in done:
            continue
        done.add(id(r.e))
        loops = {}
        for ev in r.e.events:
            for l in ev.loops:
                if l[0] == "cb" and "readUntil" in show(l[1]):
                    loops.setdefault(l[2], []).append(ev)
        for k, evs in loops.items():
            named = [ev for ev in evs if ev.loops[-1][2] == k and any(unknown_name(x) is not None for c, q in ev.g for x in subnodes(c))]
            if not named:
                continue
            if any(x.op == "call" and any(isinstance(y, Node) and is_name(y) for y in x.a[2]) and mname(x.a[0]) in ("withExtension", "findProvider") for ev in evs if ev.loops[-1][2] == k for c, q in ev.g for x in subnodes(c)):
                continue                            # the names of the extensions are open: options decide
            base = set.intersection(*[set(ev.g) for ev in evs])
            ok = False
            for t in evs:
                if t.k == "throw" and t.loops[-1][2] == k and any(is_name(c) for c, q in t.g) and \
                        all(g in base or g[0].op == "imp" or c18.ev3(g[0], unknown_name, {}) is g[1] for g in t.g):
                    ok = True
            first = min(evs, key=lambda ev: ev.seq)
            inst = "%s %s" % (title, first.loc().split(":")[0].split("/")[-1])
            inside = sorted({x.a[0] for c, q in base for y in subnodes(c) if q and y.op == "op" and y.a[0] == "==" and is_name(y) for x in y.a[1:] if x.op == "str"})
            o = found.setdefault((inst, " ".join(inside)), [True, first.loc()])
            if not ok:
                o[0], o[1] = False, first.loc()
    for (inst, g), (ok, loc) in sorted(found.items()):
        ctx.inst("element", "%s %s" % (inst, g))
        if not ok:
            ctx.viol("element", "%s %s" % (inst, g), loc, "an element of an unknown name is not refused")


def enumerations(ctx):
    """A name that is none of an enumeration's names is refused."""
    p = ctx.p
    for f in sorted(p.funcs):
        if "Enum::fromString" in f.split("(")[0] and p.funcs[f].get("body") is not None:
            e = ctx.summary(f, lambda g, rec, obj, d: "Enum::getNames" not in g and rec.get("file", "").startswith(("src/", "include/")), "c14e")
            inst = "from text %s" % (p.funcs[f].get("rt") or "").split("::")[-1]
            ctx.inst("enum", inst)
            ok = False
            for t in e.events:
                if t.k == "throw":
                    for c, q in t.g:
                        for x in subnodes(c):
                            if x.op == "op" and x.a[0] in ("==", "!=") and any(y.op == "call" and mname(y.a[0]) in ("end", "cend") for z in x.a[1:] for y in subnodes(z)):
                                # not found: the iterator is the end
                                if all(g.op == "imp" or c18.ev3(g, lambda n: (n.a[0] == "==") if n is x else None, {}) is r for g, r in t.g):
                                    ok = True
            if not ok:
                ctx.viol("enum", inst, ctx.loc(f), "a name that is none of the enumeration's is not refused")


def version(ctx):
    """A version is found for a text only where it is the version of that text."""
    p = ctx.p
    for f in sorted(p.funcs):
        r = p.funcs[f]
        if cname(f).endswith("IidmXmlVersion") and mname(f) in ("of", "fromNamespaceURI") and r.get("body") is not None:
            ctx.inst("version", mname(f))
            e = ctx.summary(f, lambda g, rec, obj, d: cname(g).endswith("IidmXmlVersion") and mname(g) == "of", "c14v")
            for st, v in e.rets:
                asked = any(q and c.op == "op" and c.a[0] == "==" and any(x.op == "param" for x in subnodes(c)) and any(x is v for x in subnodes(c)) for c, q in (st.g if st is not None else []))
                if not asked:
                    ctx.viol("version", mname(f), ctx.loc(f), "a version is given for a text that is not its own")
