"""C12: what one schema version writes is what the same version reads; what it cannot hold is refused."""
import re
from common import *
from rules import c03, c11, c18
import xmlmodel as xm
from xmlmodel import XS

# values an older version drops without a word: it never knew them, and the network means the same without them
SILENT = {
    "fictitious": None, "ratedS": None, "ratedS1": None, "ratedS2": None, "ratedS3": None, "fictitious_1": None, "fictitious_2": None,
    "type": ("alias",), "#text": ("alias",), "gPerSection": ("shuntLinearModel",),
    # the same content under another name or place in the other versions
    "bPerSection": ("shunt", "shuntLinearModel"), "maximumSectionCount": ("shunt", "shuntLinearModel"), "currentSectionCount": ("shunt",), "sectionCount": ("shunt",),
    "voltageSetPoint": None, "voltageSetpoint": None, "reactivePowerSetPoint": None, "reactivePowerSetpoint": None,
    # recomputed from the rest
    "nodeCount": None, "v": ("bus", "busbarSection"), "angle": ("bus", "busbarSection"), "nodes": ("bus",),
    "xnodeP_1": ("tieLine",), "xnodeP_2": ("tieLine",), "xnodeQ_1": ("tieLine",), "xnodeQ_2": ("tieLine",),
}


def throwing(n):
    if n.op == "op" and n.a[0] == "==" and n.a[2].op == "enum" and "IncompatibilityBehavior" in n.a[2].a[0]:
        return n.a[2].a[1] == "THROW_EXCEPTION"
    return None


def is_cmp(n):
    return n.op == "call" and mname(n.a[0]) in xm.CMP and "IidmXmlVersion" in n.a[0]


def vague(ev):
    """A condition on versions the analysis cannot evaluate."""
    env = xm.version_env(0)
    return any(is_cmp(x) and env(x) is None for c, _ in ev.g for x in subnodes(c))


def envs():
    out = []
    for v in range(len(xm.VERSIONS)):
        a = xm.version_env(v)
        out.append(lambda n, a=a: (lambda r: r if r is not None else throwing(n))(a(n)))
    return out


class Possible:
    def __init__(self):
        self.envs = envs()
        self.memo = {}

    def named(self, ev, name, e):
        """The name written or read at a version may depend on it."""
        if name is None or name == "#text" or ev.k != "call" or not ev.d[4]:
            return True
        n = ev.d[4][0]
        if not any(is_cmp(x) for x in subnodes(n)):
            return True
        while n.op == "ite":
            r = c18.ev3(n.a[0], e, {})
            if r is None:
                break
            n = c03.strip_copy(n.a[1] if r else n.a[2])
        return name in xm.names(n)

    def one(self, ev, name=None):
        if name is not None and ev.k == "call" and ev.d[4] and any(is_cmp(x) for x in subnodes(ev.d[4][0])):
            return tuple(a and self.named(ev, name, e) for a, e in zip(self.one(ev), self.envs))
        if ev not in self.memo:
            # something is written for each alias: there is one
            inside = {t[1] for t in ev.loops if len(t) > 1 and isinstance(t[1], Node)}
            some = {x.a[1] for t in inside for x in subnodes(t) if x.op == "call" and mname(x.a[0]) == "getAliases"}
            env = [lambda n, e=e: True if n.op == "call" and mname(n.a[0]) == "hasAliases" and n.a[1] in some else e(n) for e in self.envs] if some else self.envs
            self.memo[ev] = tuple(c18.reach(ev, e) is not False for e in env)
        return self.memo[ev]

    def any(self, evs, name=None):
        out = [False] * len(self.envs)
        for e in evs:
            for i, x in enumerate(self.one(e, name)):
                out[i] = out[i] or x
        return tuple(out)


def versions(bits):
    return ", ".join(xm.VERSIONS[i].replace("V", "").replace("_", ".") for i, b in enumerate(bits) if b) or "none"


def bounds(ctx, title, w, r, P):
    written = {}
    for el in w.elems:
        for a in el.attrs:
            written.setdefault((el.path, a.name), []).append(a.ev)
        for a in el.text:
            written.setdefault((el.path, "#text"), []).append(a.ev)
    read = {}
    for q in r.attrs:
        for b in r.attrs[q]:
            read.setdefault((q, b.name), []).append(b.ev)
    n = 0
    for (path, name), evs in sorted(written.items()):
        if "?" in name:
            continue
        R = [b for (q, nm), bs in read.items() if nm == name and xm.matches(path, q) for b in bs]
        if not R:
            continue
        where = c11.where_of(path, w.elems[0].path if title != "network" else ())
        inst = "%s %s@%s" % (title, where if len(path) < 4 else "/".join(path[-2:]), name)
        ctx.inst("bounds", inst)
        if any(vague(e) for e in evs + R):
            ctx.undecided("bounds", inst, "a version condition is not understood")
            continue
        a, b = P.any(evs, name), P.any(R, name)
        for bits, word in ((tuple(x and not y for x, y in zip(a, b)), "written but not read"), (tuple(y and not x for x, y in zip(a, b)), "read but never written")):
            if any(bits):
                ctx.viol("bounds", inst, (evs if "but not" in word else R)[0].loc(), "%s of %s is %s in version %s (written in %s; read in %s)" % (
                    name, path[-1], word, versions(bits), versions(a), versions(b)))
    once(ctx, title, w, P)
    return written


def once(ctx, title, w, P):
    """No version writes an attribute of an element twice."""
    for el in w.elems:
        by = {}
        for a in el.attrs:
            by.setdefault(a.name, []).append(a.ev)
        for name, evs in sorted(by.items()):
            if len(evs) < 2:
                continue
            inst = "%s %s@%s" % (title, "/".join(el.path[-2:]), name)
            ctx.inst("once", inst)
            for i, a in enumerate(evs):
                for b in evs[i + 1:]:
                    if vague(a) or vague(b) or a.loops != b.loops:
                        continue
                    sa, sb = set(a.g), set(b.g)
                    if any((c, not pol) in sb for c, pol in sa):
                        continue
                    one = {c.a[1]: c.a[2] for c, pol in sa if pol and c.op == "op" and c.a[0] == "==" and c.a[2].op in ("enum", "str", "int")}
                    if any(pol and c.op == "op" and c.a[0] == "==" and one.get(c.a[1], c.a[2]) is not c.a[2] and c.a[2].op in ("enum", "str", "int") for c, pol in sb):
                        continue
                    both = tuple(x and y for x, y in zip(P.one(a, name), P.one(b, name)))
                    if any(both):
                        ctx.viol("once", inst, b.loc(), "%s of %s is written twice in version %s" % (name, el.path[-1], versions(both)))


def rejected(ctx, title, w, r, P):
    """An element a version does not know is an error on import, not skipped."""
    inside, throws = {}, {}
    for q in r.attrs:
        for b in r.attrs[q]:
            if vague(b.ev):
                continue
            for i in range(len(r.base) + 1, len(q) + 1):
                inside.setdefault(q[:i], []).append(b.ev)
    for ev in r.e.events:
        if ev.k == "throw" and any(is_cmp(x) for c, _ in ev.g for x in subnodes(c)):
            throws.setdefault(r.base + xm.guard_path(ev.g), []).append(ev)
    for q, evs in sorted(inside.items()):
        bits = P.any(evs)
        if all(bits):
            continue
        inst = "%s %s" % (title, "/".join(q[-2:]))
        ctx.inst("rejected", inst)
        here = P.any([ev for i in range(1, len(q) + 1) for ev in throws.get(q[:i], ())])
        missing = tuple(not x and not y for x, y in zip(bits, here))
        if any(missing):
            ctx.viol("rejected", inst, r.known[q].loc() if q in r.known else evs[0].loc(), "%s is skipped without an error in version %s, which does not have it" % (q[-1], versions(missing)))


def words(n):
    out = set()
    for x in subnodes(n):
        if x.op == "str":
            out.add(str(x.a[0]))
        elif x.op in ("op", "call", "ite", "unk"):
            out |= {y for y in xm.names(x)} if x.op == "call" and mname(x.a[0]) in ("toString", "operator+") or x.op == "op" and x.a[0] == "+" else set()
    return out


def situation(ev):
    """What holds of the element written, versions aside."""
    return {(c, pol) for c, pol in ev.g if c.op != "imp" and not any(is_cmp(x) or throwing(x) is not None for x in subnodes(c))}


def base_name(s):
    return s.rstrip("#")


def same_name(x, b):
    """A name in a message against one in the document; '#' stands for any number."""
    return x == b or x.endswith("#") and b.startswith(x[:-1]) and b[len(x) - 1:].isdigit() or b.endswith("#") and x.startswith(b[:-1]) and x[len(b) - 1:].isdigit()


def reported(ctx, title, w, written, P):
    """What a version cannot hold is refused when it says something."""
    throws = []
    for ev in w.e.events:
        if ev.k == "throw" and any(is_cmp(x) for c, _ in ev.g for x in subnodes(c)):
            ws = words(ev.d[0])
            throws.append((ev, ws))
    for (path, name), evs in sorted(written.items()):
        bits = P.any(evs, name)
        if all(bits) or any(vague(e) for e in evs):
            continue
        if name in SILENT and (SILENT[name] is None or path[-1] in SILENT[name]):
            continue
        inst = "%s %s@%s" % (title, "/".join(path[-2:]), name)
        ctx.inst("refused", inst)
        full = path + (name,)
        cand = []
        for ev, ws in throws:
            for a, b in zip(full, full[1:]):
                if any(same_name(x, a) for x in ws) and any(same_name(x, b) or x != a and len(x) > 8 and b.startswith(x) and not b[len(x):].isdigit() for x in ws):
                    cand.append(ev)
                    break
            else:
                if any(situation(ev) and situation(ev) <= situation(a) for a in evs):
                    cand.append(ev)
        covered = [any(c18.reach(ev, P.envs[v]) is not False and c18.reach(ev, P.envs[v]) is not None or c18.reach(ev, P.envs[v]) is None for ev in cand) for v in range(len(P.envs))]
        missing = tuple(not x and not c for x, c in zip(bits, covered))
        if any(missing):
            ctx.viol("refused", inst, evs[0].loc(), "%s of %s is silently lost in version %s: nothing refuses or reports it" % (name, path[-1], versions(missing)))


CONTRACT = (("StrictMinimum", lambda v, k: v > k), ("StrictMaximum", lambda v, k: v < k), ("Minimum", lambda v, k: v >= k), ("Maximum", lambda v, k: v <= k))


def gates(ctx):
    """Every helper that runs, writes or refuses from or until a version does it exactly there."""
    p = ctx.p
    for f, rec in sorted(p.funcs.items()):
        if not rec.get("c", "").endswith("::IidmXmlUtil") or rec.get("n") == "<ctor>":
            continue
        holds = next((h for t, h in CONTRACT if t in rec["n"]), None)
        refs = [q for q in rec["p"] if "IidmXmlVersion" in q["t"]]
        if holds is None or not refs:
            continue
        bound = refs[0]["n"]
        other = [q["n"] for q in refs[1:]]
        e = ctx.summary(f, lambda f, r, o, d: "::IidmXmlUtil" in f or mname(f) in ("createException", "createExceptionOrLogError"), "gate", maxdepth=8)
        flag = next((q["n"] for q in rec["p"] if q["t"] == "bool" and re.search("(?i)notDefault", q["n"])), None)
        reader = any("NetworkXmlReaderContext" in q["t"] for q in rec["p"])
        writes = [ev for ev in e.events if ev.k == "call" and (ev.d[0].startswith(XS + "XmlStreamWriter::") or "std::function" in ev.d[0] and mname(ev.d[0]) == "operator()")]
        writes += [ev for ev in e.events if ev.k == "call" and ev not in writes and ev.d[3] is not None and c03.strip_copy(ev.d[3]).op == "param" and mname(ev.d[0]) == "operator()"]
        throws = [ev for ev in e.events if ev.k == "throw" and "AssertionError" not in show(ev.d[0])[:60]]
        for v in range(3):
            def env(n, v=v):
                # bound is version 1, the document is version v
                if is_cmp(n) or n.op == "op" and "operator" + n.a[0] in xm.CMP and len(n.a) == 3:
                    args = ([n.a[1]] if n.a[1] is not None else []) + list(n.a[2]) if n.op == "call" else list(n.a[1:])
                    vals = []
                    for x in args:
                        x = c03.strip_copy(x)
                        if x.op == "param" and x.a[0] == bound:
                            vals.append(1)
                        elif x.op == "param" and x.a[0] in other or x.op == "call" and mname(x.a[0]) == "getVersion" or c18.is_field(x, "m_version"):
                            vals.append(v)
                    if len(vals) == 2:
                        return xm.CMP[mname(n.a[0]) if n.op == "call" else "operator" + n.a[0]](*vals)
                if flag and n.op == "param" and n.a[0] == flag:
                    return True
                return throwing(n)
            inst = "%s(%s)%s" % (rec["n"], "reader" if reader else "writer", " below" if v < 1 else " at" if v == 1 else " above")
            ctx.inst("gate", inst)
            ok = holds(v, 1)
            if any(is_cmp(x) and env(x) is None for ev in writes + throws for c, _ in ev.g for x in subnodes(c)):
                ctx.undecided("gate", inst, "the comparison is not understood")
                continue
            runs = any(c18.reach(ev, env) is not False for ev in writes)
            refuses = any(c18.reach(ev, env) is not False for ev in throws)
            n = rec["n"]
            if ok and writes and not runs:
                ctx.viol("gate", inst, ctx.loc(f), "%s does nothing %s" % (n, inst.split()[-1] + " its bound"))
            if ok and refuses:
                ctx.viol("gate", inst, ctx.loc(f), "%s refuses a version inside its bound" % n)
            if not ok and runs:
                ctx.viol("gate", inst, ctx.loc(f), "%s runs %s its bound" % (n, inst.split()[-1]))
            if not ok and not refuses and (n.startswith("assert") or n.startswith("write") and flag):
                ctx.viol("gate", inst, ctx.loc(f), "%s lets a version %s its bound pass" % (n, inst.split()[-1]))


def walk(x):
    """Syntax nodes in source order."""
    if isinstance(x, dict):
        yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(x, list):
        for y in x:
            yield from walk(y)


def walk_calls(x, out):
    if isinstance(x, dict):
        if x.get("k") in ("call",):
            out.append(x)
        for k, v in x.items():
            if isinstance(v, (dict, list)):
                walk_calls(v, out)
    elif isinstance(x, list):
        for y in x:
            walk_calls(y, out)
    return out


def table(ctx):
    """The list of versions: ascending, complete, distinct, the last one current, each in its namespace."""
    p = ctx.p
    cls = next((c for c in p.classes if c.endswith("::IidmXmlVersion")), None)
    if cls is None:
        return
    numbers = {}
    for m in p.classes[cls]["methods"]:
        f = m["f"]
        if not re.match(r"V\d+_\d+$", m["n"]) or f not in p.funcs:
            continue
        ints, strs = [], []
        for y in walk(p.funcs[f]["body"]):
            if isinstance(y, dict) and y.get("k") == "int":
                ints.append(y["v"])
            elif isinstance(y, dict) and y.get("k") == "str":
                strs.append(y["v"])
        want = [int(x) for x in m["n"][1:].split("_")]
        inst = m["n"]
        ctx.inst("table", inst)
        if len(ints) == 2:
            if [int(x) for x in ints] != want:
                ctx.viol("table", inst, ctx.loc(f), "version %s is numbered %s" % (m["n"], ints))
        else:
            ctx.undecided("table", inst, "numbers not found")
        dom = "itesla_project.eu" if want == [1, 0] else "powsybl.org"
        if len(strs) == 1 and strs[0] != dom:
            ctx.viol("table", inst + " namespace", ctx.loc(f), "version %s is in the namespace of %s instead of %s" % (m["n"], strs[0], dom))
        numbers[m["n"]] = want
    order = sorted(numbers, key=lambda n: numbers[n])
    for f in [m["f"] for m in p.classes[cls]["methods"] if m["n"] == "all" and m["f"] in p.funcs]:
        got = [mname(c["f"]) for c in walk_calls(p.funcs[f]["body"], []) if c.get("f") and re.match(r"V\d+_\d+$", mname(c["f"]))]
        ctx.inst("table", "order")
        if not got:
            ctx.undecided("table", "order", "list not found")
        elif got != order:
            ctx.viol("table", "order", ctx.loc(f), "the versions are listed as %s: comparisons follow this order" % ", ".join(got))
    for f in [m["f"] for m in p.classes[cls]["methods"] if m["n"] == "CURRENT_IIDM_XML_VERSION" and m["f"] in p.funcs]:
        got = [mname(c["f"]) for c in walk_calls(p.funcs[f]["body"], []) if c.get("f") and re.match(r"V\d+_\d+$", mname(c["f"]))]
        ctx.inst("table", "current")
        if got and got != order[-1:]:
            ctx.viol("table", "current", ctx.loc(f), "the current version is %s, not the last one, %s" % (got[0], order[-1]))
    comparisons(ctx, cls)
    namespaces(ctx, cls)


def comparisons(ctx, cls):
    p = ctx.p
    for m in p.classes[cls]["methods"]:
        if m["n"] not in ("operator<", "operator<=", "operator>", "operator>=") or m["f"] not in p.funcs:
            continue
        f = m["f"]
        e = ctx.summary(f, lambda f, r, o, d: mname(f) in xm.CMP and "IidmXmlVersion" in f, "order", maxdepth=6)
        ctx.inst("order", m["n"])
        vals = [v for _, v in e.rets]

        def side(x):
            """0 for this version's position, 1 for the other one's."""
            s = {("this" if y is THIS else "other") for y in subnodes(x) if y is THIS or y.op == "param"}
            return {"this": 0, "other": 1}[next(iter(s))] if len(s) == 1 else None

        def ev3(x, pos):
            if x.op == "un" and x.a[0] == "!":
                r = ev3(x.a[1], pos)
                return None if r is None else not r
            if x.op == "ite":
                r = ev3(x.a[0], pos)
                return None if r is None else ev3(x.a[1] if r else x.a[2], pos)
            if x in (TRUE, FALSE):
                return x is TRUE
            ops = None
            if x.op == "op" and x.a[0] in ("<", "<=", ">", ">=", "==", "!="):
                ops = (x.a[0], x.a[1], x.a[2])
            elif x.op == "call" and mname(x.a[0]).startswith("operator"):
                args = ([x.a[1]] if x.a[1] is not None else []) + list(x.a[2])
                if len(args) == 2:
                    ops = (mname(x.a[0])[8:], args[0], args[1])
            if ops:
                a, b = side(ops[1]), side(ops[2])
                if a is None or b is None or a == b or not any(y.op == "call" and mname(y.a[0]) in ("find", "distance") for y in subnodes(x)):
                    return None
                l, r = pos[a], pos[b]
                return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r, "==": l == r, "!=": l != r}.get(ops[0])
            if x.op == "op" and x.a[0] in ("&&", "||"):
                l, r = ev3(x.a[1], pos), ev3(x.a[2], pos)
                if None in (l, r):
                    return None
                return (l and r) if x.a[0] == "&&" else (l or r)
            return None
        for pos in ((0, 1), (1, 1), (1, 0)):
            want = {"operator<": pos[0] < pos[1], "operator<=": pos[0] <= pos[1], "operator>": pos[0] > pos[1], "operator>=": pos[0] >= pos[1]}[m["n"]]
            got = {ev3(v, pos) for v in vals}
            if None in got or len(vals) != 1:
                ctx.undecided("order", m["n"], "comparison not understood")
                break
            if got != {want}:
                ctx.viol("order", m["n"], ctx.loc(f), "%s is %s for a version %s" % (m["n"], not want, "before the other" if pos == (0, 1) else "equal to the other" if pos == (1, 1) else "after the other"))


def namespaces(ctx, cls):
    """A version is found back from the text it is written as."""
    p = ctx.p
    for m in p.classes[cls]["methods"]:
        if m["f"] not in p.funcs:
            continue
        if m["n"] == "of":
            e = ctx.summary(m["f"], lambda f, r, o, d: False, "of")
            ctx.inst("lookup", "of")
            a, b = [N("param", q["n"]) for q in p.funcs[m["f"]]["p"]][:2]
            for st, v in e.rets:
                if not any(pol and any(x.op == "call" and mname(x.a[0]) == "toString" and b in x.a[2] for x in subnodes(c)) and a in set(subnodes(c)) for c, pol in st.g if c.op in ("op", "call")):
                    ctx.viol("lookup", "of", ctx.loc(m["f"]), "a version is returned without its text being compared with the one asked for")
        elif m["n"] == "fromNamespaceURI":
            e = ctx.summary(m["f"], lambda f, r, o, d: False, "of")
            ctx.inst("lookup", "fromNamespaceURI")
            a = N("param", p.funcs[m["f"]]["p"][0]["n"])
            for st, v in e.rets:
                if not any(any(x.op == "call" and mname(x.a[0]) == "getNamespaceUri" for x in subnodes(c)) and a in set(subnodes(c)) for c, pol in st.g):
                    ctx.viol("lookup", "fromNamespaceURI", ctx.loc(m["f"]), "a version is returned without comparing its namespace with the one asked for")


def root(ctx, w):
    """The document says the version it is written in."""
    p = ctx.p
    ctxs = [ev for ev in w.e.events if ev.k == "ctor" and ev.d[1].endswith("NetworkXmlWriterContext")]
    uses = {x.a[1] if x.a[1] is not None else None for ev in w.e.events if ev.k == "call" and mname(ev.d[0]) in ("setPrefix", "writeNamespace") for a in ev.d[4] for x in subnodes(a)
            if x.op == "call" and mname(x.a[0]) == "getNamespaceUri" and "IidmXmlVersion" in x.a[0]}
    vs = {a for ev in ctxs for a in ev.d[3] if isinstance(a, Node) and xm.is_context_version(a)}
    ctx.inst("root", "namespace")
    if not uses or not vs:
        ctx.undecided("root", "namespace", "version of the document not found")
    elif any(xm.is_context_version(u) is False for u in uses if u is not None):
        ctx.viol("root", "namespace", ctxs[0].loc(), "the namespace declared is not the one of the version written")


def extension_versions(ctx):
    p = ctx.p
    base = next((c for c in p.classes if c.endswith("::AbstractVersionableExtensionXmlSerializer")), None)
    if base is None:
        return
    cur = sorted(xm.VERSIONS)[-1]
    for c in sorted(p.subclasses(base)):
        if c == base:
            continue
        ctors = [f for f in p.funcs if f.startswith(c + "::<ctor>")]
        for f in ctors:
            rec = p.funcs[f]
            calls = walk_calls(rec.get("inits") or [], [])
            compat, uris = {}, {}
            for q in calls:
                if mname(q.get("f") or "") != "put":
                    continue
                vs = [mname(y["f"]) for y in walk_calls(q.get("a") or [], []) if y.get("f") and re.match(r"V\d+_\d+$", mname(y["f"]))]
                strs = [y["v"] for y in walk(q.get("a") or []) if isinstance(y, dict) and y.get("k") == "str"]
                if vs and "VersionsCompatibility" in (q.get("f") or ""):
                    compat.setdefault(vs[0], []).extend(strs)
                elif len(strs) == 2:
                    uris[strs[0]] = strs[1]
            if not compat or not uris:
                ctx.undecided("extension version", c.split("::")[-1], "tables not found")
                continue
            title = c.split("::")[-1].replace("XmlSerializer", "")
            for v, xs in sorted(compat.items()):
                for x in xs:
                    inst = "%s %s in %s" % (title, x, v)
                    ctx.inst("extension version", inst)
                    if x not in uris:
                        ctx.viol("extension version", inst, ctx.loc(f), "version %s of %s is used in %s but has no namespace" % (x, title, v))
                    elif not uris[x].endswith("/" + x.replace(".", "_")):
                        ctx.viol("extension version", inst, ctx.loc(f), "version %s of %s has the namespace %s" % (x, title, uris[x]))
            for x in sorted(uris):
                if not any(x in xs for xs in compat.values()):
                    ctx.viol("extension version", "%s %s unused" % (title, x), ctx.loc(f), "version %s of %s belongs to no version of the network" % (x, title))
            ctx.inst("extension version", title + " current")
            if cur not in compat:
                ctx.viol("extension version", title + " current", ctx.loc(f), "%s cannot be written in the current version" % title)
            ks = sorted(compat)
            allv = [v for v in sorted(xm.VERSIONS) if v >= ks[0]]
            if ks != allv:
                ctx.viol("extension version", title + " range", ctx.loc(f), "%s supports %s but not the versions between" % (title, ", ".join(ks)))
            if len(set(uris.values())) != len(uris):
                ctx.viol("extension version", title + " namespaces", ctx.loc(f), "two versions of %s share a namespace" % title)
    for m in p.classes[base]["methods"]:
        f = m["f"]
        if f not in p.funcs:
            continue
        if m["n"] in ("checkWritingCompatibility", "checkReadingCompatibility", "checkExtensionVersionSupported"):
            e = ctx.summary(f, lambda f, r, o, d: "AbstractVersionableExtensionXmlSerializer" in f, "compat", dyn=base, maxdepth=6)
            ctx.inst("extension version", m["n"])
            need = {"checkWritingCompatibility": ("m_namespaceUris", "m_extensionVersions"), "checkReadingCompatibility": ("m_extensionVersions",), "checkExtensionVersionSupported": ("m_namespaceUris",)}[m["n"]]
            for fld in need:
                if not any(ev.k == "throw" and any(c18.is_field(x, fld) for c, _ in ev.g for x in subnodes(c)) for ev in e.events):
                    ctx.viol("extension version", m["n"] + " " + fld, ctx.loc(f), "%s refuses nothing according to %s" % (m["n"], fld))
        elif m["n"] == "getVersion" and len(p.funcs[f]["p"]) == 1:
            e = ctx.summary(f, lambda f, r, o, d: False, "compat")
            q = N("param", p.funcs[f]["p"][0]["n"])
            ctx.inst("extension version", "getVersion")
            for st, v in e.rets:
                if not any(y.op in ("call", "found", "at") and q in set(subnodes(y)) for y in subnodes(v)):
                    ctx.viol("extension version", "getVersion", ctx.loc(f), "the extension version does not depend on the version of the network")


def check(ctx):
    m = xm.model(ctx)
    P = Possible()
    for title, w, r in m.pairs():
        written = bounds(ctx, title, w, r, P)
        rejected(ctx, title, w, r, P)
        if title == "network":
            reported(ctx, title, w, written, P)
    root(ctx, m.w)
    gates(ctx)
    table(ctx)
    extension_versions(ctx)
    ctx.notes.append("versions evaluated: %s; export refusing incompatibilities (THROW_EXCEPTION)" % ", ".join(sorted(xm.VERSIONS)))
    ctx.need("bounds", 300)
    ctx.need("gate", 30)
