"""C17: what is said of one side concerns that side: sided functions are the same function, one side exchanged for the other."""
import re

from common import *
from rules.c05 import is_assertion
from rules.c07 import CHANGE
from rules.c16 import nodes_of
from rules.c21 import split, callname

NAMED = re.compile(r"(?<=[A-Za-z_])[123]{1,2}(?![0-9A-Za-z_])|(?<=[a-z_])[123]{1,2}(?=[A-Z(])|(?<=CS)[12](?=to)")
WORDS = {"ONE": "1", "TWO": "2", "THREE": "3"}
NUMBERS = {v: k for k, v in WORDS.items()}
ORDINALS = {"First": "1", "Second": "2", "Third": "3", "first": "1", "second": "2", "third": "3"}
OPAQUE = ("getMessageHeader", "toString", "getNetwork", "invalidateCache", "checkAndAdd", "checkAndGetUniqueId", "getId", "writeTerminalRef", "writeTerminalRefAttribute", "getSide")
SEQUENCES = ("m_terminals", "m_legs")
COMMUTE = {"+", "*", "==", "!=", "&&", "||", "operator+", "operator*", "areSame", "isEqual", "min", "max"}
SIDED = re.compile(r"side|leg|end", re.I)
KEPT = re.compile(r"((?<![A-Za-z])(?:set|get|m_)?[bgBG])([12])(?![0-9A-Za-z])")
TESTS = ("areSame", "isEqual")


def policy(f, rec, obj, depth):
    if "/test/" in rec["file"] or not f.startswith("powsybl::"):
        return False
    if f.startswith(("powsybl::logging", "powsybl::stdcxx::format", "powsybl::math::UndirectedGraph")):
        return False
    return mname(f) not in OPAQUE


def renamed(s, pi):
    return NAMED.sub(lambda m: "".join(pi.get(c, c) for c in m.group(0)), s)


def sidetype(t):
    t = re.sub(r"^const |[ &]+$", "", t or "")
    return t if t.endswith("::Side") else None


MADE = {}


def ctors(p):
    return [f for f in sorted(p.funcs) if "::<ctor>(" in f]


class Form:
    """Writes a summary with the sides exchanged, and possibly for one given side."""

    def __init__(self, p, pi, assume=None, keep=False):
        self.p, self.pi, self.assume, self.keep = p, pi, assume or {}, keep
        self.memo = {}

    def of(self, n):
        if not isinstance(n, Node):
            if isinstance(n, (tuple, list)):
                return "(%s)" % ", ".join(self.of(x) for x in n)
            return self.name(n) if isinstance(n, str) else str(n)
        k = id(n)
        if k not in self.memo:
            self.memo[k] = (self._of(n), n)
        return self.memo[k][0]

    def name(self, s):
        if self.keep:
            # a half line has two ends of its own
            return renamed(KEPT.sub(lambda m: m.group(1) + "\x01\x02"[int(m.group(2)) - 1], s), self.pi).replace("\x01", "1").replace("\x02", "2")
        return renamed(s, self.pi)

    def value(self, n):
        """What the condition is for the given side, if it only depends on it."""
        if n.op == "un" and n.a[0] == "bool" and n.a[-1].op in ("int", "enum", "obj"):
            return n.a[-1].op != "int" or True
        if n.op == "un" and n.a[0] in ("!", "not"):
            v = self.value(n.a[-1])
            return None if v is None else not v
        if n.op == "op" and n.a[0] in ("&&", "||") and len(n.a) == 3:
            a, b = self.value(n.a[1]), self.value(n.a[2])
            stop = n.a[0] == "||"
            if stop in (a, b):
                return stop
            return a if a is not None and b is not None else None
        if n.op == "op" and n.a[0] in ("==", "!=") and len(n.a) == 3:
            l, r = self.side(n.a[1]), self.side(n.a[2])
            if l is not None and r is not None:
                return (l == r) == (n.a[0] == "==")
        if n.op == "in":
            l = self.side(n.a[0])
            vs = [self.side(x) for x in n.a[1]]
            if l is not None and None not in vs:
                return l in vs
        return None

    def side(self, n):
        if n.op == "param":
            return self.assume.get(n.a[0])
        if n.op == "enum" and n.a[1] in WORDS:
            return n.a[1]
        if n.op == "cast":
            return self.side(n.a[-1])
        return None

    def _of(self, n):
        o, a = n.op, n.a
        if o == "param" and a[0] in self.assume:
            return "Side::" + NUMBERS.get(self.pi.get(WORDS[self.assume[a[0]]], WORDS[self.assume[a[0]]]), "?") if self.assume[a[0]] in WORDS else "Side::?"
        if o == "enum":
            return "%s::%s" % (a[0], NUMBERS.get(self.pi.get(WORDS[a[1]], WORDS[a[1]]), "?") if a[1] in WORDS else self.name(a[1]))
        if o == "str":
            s = str(a[0])
            if s in self.pi:
                return '"%s"' % self.pi[s]
            s = re.sub(r"\b([Ff]irst|[Ss]econd|[Tt]hird)\b", lambda m: "#" + self.pi.get(ORDINALS[m.group(1).lower()], ORDINALS[m.group(1).lower()]), s)
            return '"%s"' % re.sub(r"(?<=side )[123]|(?<=leg )[123]|(?<=leg)[123]", lambda m: self.pi.get(m.group(0), m.group(0)), self.name(s))
        if o == "at" and a[1].op == "int" and (any(x in SEQUENCES for x in self.names(a[0])) or self.listed(a[0])):
            i = str(int(a[1].a[0]) + 1)
            return "%s[#%s]" % (self.of(a[0]), self.pi.get(i, i))
        if o == "local":
            return "local"
        if o in ("isa", "dyn"):
            return "%s(%s, %s)" % (o, re.sub(r"^const ", "", str(a[0])), self.of(a[1]))
        if o in ("lv", "phi"):
            return o + "(%s)" % self.name(str(a[0]))
        if o == "ite":
            v = self.value(a[0])
            if v is not None:
                return self.of(a[1] if v else a[2])
        if o in ("new", "obj"):
            return "%s(%s)" % (self.of(a[0]), self.args(a[2], a[1] if isinstance(a[1], str) else ""))
        if o == "op" and a[0] in ("==", "!=") and any(x.op == "str" for x in a[1:]):
            return "(%s)" % (" %s " % a[0]).join(sorted('"%s"' % x.a[0] if x.op == "str" else self.of(x) for x in a[1:]))
        if o == "ite" and self.keep and self.of(a[0]).endswith("m_num) == #2)"):
            return "ite(%s, %s, %s)" % (self.of(a[0]).replace("#2)", "#1)"), self.of(a[2]), self.of(a[1]))
        if o == "op" and a[0] in ("==", "!=") and a[2].op == "int" and a[1].op == "fld" and re.search(r"num", a[1].a[1], re.I):
            return "(%s %s #%s)" % (self.of(a[1]), a[0], self.pi.get(str(a[2].a[0]), str(a[2].a[0])))
        if o == "op" and len(a) == 3 and a[0] in COMMUTE:
            return "(%s)" % (" %s " % a[0]).join(sorted(self.flat(n, a[0])))
        if o == "op" and len(a) == 3 and a[0] in ("<=", ">", ">=", "<"):
            l, r = self.of(a[1]), self.of(a[2])
            return {"<": "(%s < %s)" % (l, r), ">": "(%s < %s)" % (r, l), "<=": "(%s <= %s)" % (l, r), ">=": "(%s <= %s)" % (r, l)}[a[0]]
        if o == "call":
            if callname(n) == "getNetwork":
                return "network()"
            if callname(n) == "format":
                args = self.message(a[2])
            elif callname(n) in COMMUTE:
                args = ", ".join(sorted(self.of(x) for x in a[2]))
            else:
                args = self.args(a[2], self.made(n) if callname(n) in ("make_unique", "make_shared") else a[0])
            return "%s%s(%s)" % ((self.of(a[1]) + ".") if a[1] is not None else "", self.name(callname(n)), args)
        return "%s(%s)" % (o, ", ".join(self.of(x) for x in a))

    def flat(self, n, o):
        if n.op == "op" and n.a[0] == o and len(n.a) == 3:
            return self.flat(n.a[1], o) + self.flat(n.a[2], o)
        return [self.of(n)]

    def message(self, args):
        """A message: the order of what it lists is free, unless it says which side is which."""
        out = [self.of(x) if not (x.op == "int" and str(x.a[0]) in "123" and SIDED.search(str(args[0].a[0]))) else "#" + self.pi.get(str(x.a[0]), str(x.a[0])) for x in args]
        if args and args[0].op == "str" and not re.search(r"(?:side|leg|end|winding|station|terminal) ?#?(?:[123]\b|%\d%)|first|second", str(args[0].a[0]), re.I):
            out = out[:1] + sorted(out[1:])
        return ", ".join(out)

    def made(self, n):
        """The constructor that make_unique runs."""
        return self.maker(str(n.a[0]), len(n.a[2]))

    def maker(self, f, n):
        m = re.search(r"make_(?:unique|shared)<([\w:]+)", f)
        if m:
            for g in MADE.get(id(self.p)) or MADE.setdefault(id(self.p), ctors(self.p)):
                if g.startswith(m.group(1) + "::<ctor>(") and len(self.p.funcs[g]["p"]) == n:
                    return g
            return ""
        return f

    def args(self, args, f):
        """The arguments: by name when the names of the parameters say the side."""
        ps = self.p.funcs.get(f, {}).get("p") or []
        if not (f.startswith("powsybl::iidm::") and "::<ctor>(" in f or "::addEdge(" in f):
            ps = [dict(q, n=q["n"] if not NAMED.search(q["n"]) else "x") for q in ps]
        args = args if isinstance(args, (tuple, list)) else ()
        if len(ps) != len(args):
            ps = []
        out = []
        for i, x in enumerate(args):
            t = self.of(x)
            if ps and isinstance(x, Node) and x.op == "int" and (re.search(r"num|leg|side", ps[i]["n"], re.I) or "optional<int>" in ps[i]["t"]):
                t = "#" + self.pi.get(str(x.a[0]), str(x.a[0]))
            if ps and NAMED.search(ps[i]["n"]):
                t = "%s=%s" % (self.name(ps[i]["n"]), t)
            out.append(t)
        return ", ".join(sorted(out) if any(NAMED.search(q["n"]) for q in ps) else out)

    def names(self, n):
        return {x.a[1] for x in subnodes(n) if x.op == "fld"}

    def listed(self, n):
        return n.op == "local" and "Terminal" in str(n.a[-1]) or n.op == "call" and callname(n) == "getTerminals"

    def guards(self, g):
        """The conditions, for the given side; None when they do not hold for it."""
        out, imps = set(), []
        todo = [(canon(c), bool(pol)) for c, pol in g]
        while todo:
            c, pol = todo.pop()
            for x, w in split(c, pol):
                if x.op == "imp" and w:
                    imps.append(self.chain(x))
                    continue
                v = self.value(x)
                if v is not None:
                    if v != w:
                        return None
                    continue
                out.add(self.atom(x, w))
            if not todo:
                left = []
                for ante, last in imps:
                    # what is known to hold, or to depend on the side alone, needs no saying
                    ante = [(a, v) for a, v in ante if self.atom(a, v) not in out and self.value(a) != v]
                    if any(self.atom(a, not v) in out or self.value(a) == (not v) for a, v in ante) or self.atom(*last) in out or self.value(last[0]) == last[1]:
                        continue
                    if ante:
                        left.append((ante, last))
                    else:
                        todo.append(last)
                imps = left
        for ante, last in imps:
            out.add("%s -> %s" % (", ".join(sorted(self.atom(a, v) for a, v in ante)), self.atom(*last)))
        return out

    def chain(self, x):
        ante = []
        while x.op == "imp":
            ante.extend(split(x.a[0], bool(x.a[1])))
            last = (x.a[2], bool(x.a[3]))
            if not last[1]:
                break
            x = x.a[2]
        return ante, last

    def atom(self, x, w):
        while x.op == "un" and x.a[0] in ("!", "not"):
            x, w = x.a[-1], not w
        if x.op == "op" and x.a[0] in ("==", "!="):
            w = w == (x.a[0] == "==")
            return "%s=%s" % (self.of(x).replace(" != ", " == "), w)
        return "%s=%s" % (self.of(x), w)

    def leaves(self, v, g):
        """The cases of a value."""
        if isinstance(v, Node) and v.op == "ite":
            yield from self.leaves(v.a[1], list(g) + [(v.a[0], True)])
            yield from self.leaves(v.a[2], list(g) + [(v.a[0], False)])
        else:
            yield v, g


def lines(e, form, guards=True):
    """What a function does, whatever the order."""
    out = set()

    def put(text, g):
        gs = form.guards(g)
        if gs is not None:
            if guards == "yes":
                gs = {x for x in gs if x.endswith("=True") and " -> " not in x}
            out.add("%s [%s]" % (text, "; ".join(sorted(gs)) if guards else ""))
    for ev in e.events:
        if ev.k == "store" and isinstance(ev.d[0], Node) and isinstance(ev.d[1], Node):
            if root(ev.d[0]).op in ("new", "obj", "local"):
                continue
            for v, g in form.leaves(canon(ev.d[1]), ev.g):
                put("%s := %s" % (form.of(canon(ev.d[0])), form.of(v)), g)
        elif ev.k == "throw":
            put("throw AssertionError" if is_assertion(ev) else "throw %s" % form.of(canon(ev.d[0])), ev.g)
        elif ev.k == "call" and ev.d[1] not in TESTS and (not ev.d[0].startswith("std::") or ev.d[1] in CHANGE) and not ev.d[0].startswith(("powsybl::stdcxx", "boost", "powsybl::logging")):
            if ev.d[3] is not None and root(ev.d[3]).op in ("new", "obj", "local"):
                continue
            put("%s%s(%s)" % (form.of(canon(ev.d[3])) + "." if ev.d[3] is not None else "", form.name(ev.d[1]), form.args([canon(x) for x in ev.d[4]], form.maker(ev.d[0], len(ev.d[4])))), ev.g)
    for st, v in e.rets:
        if v is None:
            continue
        for x, g in form.leaves(canon(v), st.g):
            put("returns %s" % form.of(x), g)
    return out


class Sides:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p

    def summary(self, f):
        return self.ctx.summary(f, policy, "c17", dyn=self.p.funcs[f].get("c"), maxdepth=8, cha=True)

    def families(self):
        fam = {}
        for f, r in self.p.funcs.items():
            if "/test/" in r["file"] or not f.startswith("powsybl::iidm::") or r.get("body") is None or re.match(r"V\d", r["n"]):
                continue
            if not NAMED.search(r["n"]):
                continue
            key = NAMED.sub("#", strip(f))
            side = NAMED.findall(r["n"])[-1]
            fam.setdefault(key, {})[side] = f
        return {k: v for k, v in fam.items() if len(v) > 1}


def strip(f):
    """The function without its parameters' names of types, which no side changes."""
    return f


def swap(a, b):
    return {a: b, b: a}


def differences(x, y):
    return sorted(x - y), sorted(y - x)


def check(ctx):
    s = Sides(ctx)
    named(ctx, s)
    indexed(ctx, s)
    told(ctx, s)
    both(ctx, s)
    asking(ctx, s)
    own(ctx, s)


# What handles both sides, and treats them alike: functions, and the two sides to exchange ("keep": those of a tie line, not the
# ends of its half lines; "g": under the same positive conditions).
ALIKE = [
    (r"(Branch|HvdcLine|TieLine|TwoWindingsTransformer|LineCharacteristics|HvdcLineAdder|LineAdder|TieLineAdder|TwoWindingsTransformerAdder)::<ctor>", "12"),
    (r"Branch::(checkPermanentLimit|checkTemporaryLimits|getOverloadDuration|isOverloaded|getTerminal)", "12g"),
    (r"HvdcLine::(getConverterStation|getNetwork|remove)", "12g"),
    (r"(HvdcLineAdder|LineAdder|TwoWindingsTransformerAdder|bus_breaker_view::SwitchAdder|node_breaker_view::(SwitchAdder|InternalConnectionAdder)|tie_line::HalfLineAdder)::add", "12"),
    (r"TieLineAdder::add", "keep"),
    (r"ThreeWindingsTransformerAdder::(add|<ctor>)", "23"),
    (r"Network::findHvdcLine|LinkData::calculateBranchAdmittance", "12"),
    (r"AbstractComponentsManager::addToAdjacencyList", "12g"),
    (r"AbstractComponentsManager::fillAdjacencyList|VoltageLevel::addNextTerminals|AbstractTerminalTopologyVisitor::visitThreeWindingsTransformer", "12g"),
    (r"AbstractComponentsManager::fillAdjacencyList|VoltageLevel::addNextTerminals|AbstractTerminalTopologyVisitor::visitThreeWindingsTransformer", "23g"),
    (r"AbstractComponentsManager::fillAdjacencyList|VoltageLevel::addNextTerminals|AbstractTerminalTopologyVisitor::visitThreeWindingsTransformer", "13g"),
    (r"BusBreakerVoltageLevel::(addSwitch|removeBus)|Substations::checkRemovability", "12"),
    (r"TieLine::(getHalf|getR|getX)", "12g"),
    (r"converter::xml::(HvdcLineXml|LineXml|TwoWindingsTransformerXml|NodeBreakerViewSwitchXml|BusBreakerViewSwitchXml|AbstractConnectableXml|NodeBreakerViewInternalConnectionXml)::(read|write)\w*", "12"),
    (r"converter::xml::TieLineXml::(readRootElementAttributes|writeRootElementAttributes|readSubElements|writeSubElements)", "keep"),
    (r"converter::xml::ThreeWindingsTransformerXml::(read|write)\w*", "23"),
    (r"converter::xml::VoltageLevelXml::(writeBusBreakerTopology|writeNodeBreakerTopologyInternalConnections)", "12"),
    (r"extensions::entsoe::MergedXnode(Adder|XmlSerializer)?::(<ctor>|createExtension|read|write)", "12"),
    (r"extensions::iidm::HvdcOperatorActivePowerRange(Adder|XmlSerializer)?::(<ctor>|createExtension|read|write)", "12"),
    (r"extensions::iidm::ThreeWindingsTransformerPhaseAngleClock(Adder|XmlSerializer)?::(<ctor>|createExtension|read|write)", "23"),
    (r"extensions::sld::ConnectablePosition(Adder|XmlSerializer)?::(<ctor>|createExtension|read|write)", "12"),
    (r"extensions::sld::ConnectablePosition(Adder|XmlSerializer)?::(<ctor>|createExtension|read|write)", "23"),
    (r"node_breaker_voltage_level::(CalculatedBusTopology::updateCache|NodeBreakerViewImpl::getInternalConnections)", "12g"),
    (r"node_breaker_view::InternalConnection::<ctor>|tie_line::HalfLine(Adder)?::<ctor>", "12"),
    (r"three_windings_transformer::LegAdder::add", "12"),
    (r"three_windings_transformer::LegAdder::add", "23"),
    (r"math::UndirectedGraph::(removeVertex|getAdjacencyList|traverse|findAllPaths|removeIsolatedVertices|Edge::<ctor>)", "12"),
]


def both(ctx, s):
    """What handles the two sides does for one what it does for the other."""
    p = ctx.p
    for f, r in sorted(p.funcs.items()):
        if "/test/" in r["file"] or r.get("body") is None or not f.startswith("powsybl::"):
            continue
        n = strip_tpl(f.split("(")[0]).replace("powsybl::iidm::", "", 1).replace("powsybl::", "", 1)
        for rx, how in ALIKE:
            if not re.fullmatch(rx, n):
                continue
            keep = how == "keep"
            pi = swap(how[0], how[1]) if not keep else swap("1", "2")
            g = "yes" if how.endswith("g") else False
            e = s.summary(f)
            one, two = acts(lines(e, Form(p, pi, keep=keep), g)), acts(lines(e, Form(p, {}, keep=keep), g))
            plain = acts(lines(e, Form(p, {"1": "!", "2": "!", "3": "!"}, keep=keep), g))
            if g and "3" in how:
                # a branch handled in the same function has two sides only
                one, two, plain = ({x for x in ls if "m_legs" in x} for ls in (one, two, plain))
            if plain == two:
                continue
            inst = "%s/%s" % (short(f), "-".join(how[:2]) if not keep else "1-2")
            ctx.inst("both", inst)
            if one != two:
                x, y = differences(one, two)
                ctx.viol("both", inst, where(p, f), "%s does not do for one side what it does for the other: it does %s, not %s" % (short(f), apart((y or ["nothing"])[0], (x or ["nothing"])[0]), apart((x or ["nothing"])[0], (y or ["nothing"])[0])))
    ctx.need("both", 60)


# What refuses after asking the same of every side.
# (an injection has one terminal: the first)
ASKING = [(r"VoltageLevel::getConnectable", "12"), (r"math::UndirectedGraph::removeVertex", "12"), (r"VoltageLevel::getConnectable", "23")]


def conditions(n):
    """The conditions a condition is made of."""
    if n.op == "op" and n.a[0] in ("&&", "||"):
        return conditions(n.a[1]) | conditions(n.a[2])
    if n.op == "ite":
        return set().union(*(conditions(x) for x in n.a))
    if n.op == "un" and n.a[0] in ("!", "bool"):
        return conditions(n.a[1])
    return {n}


def asking(ctx, s):
    """A refusal that depends on one side asks the same of the others."""
    p = ctx.p
    for f, r in sorted(p.funcs.items()):
        if "/test/" in r["file"] or r.get("body") is None or not f.startswith("powsybl::"):
            continue
        n = strip_tpl(f.split("(")[0]).replace("powsybl::iidm::", "", 1).replace("powsybl::", "", 1)
        for rx, how in ASKING:
            if not re.fullmatch(rx, n):
                continue
            ctx.inst("asking", "%s/%s" % (short(f), "-".join(how)))
            for ev in s.summary(f).events:
                if ev.k != "throw":
                    continue
                atoms = {x for c, q in ev.g for x in conditions(canon(c))}
                one, two = ({form.of(x) for x in atoms} for form in (Form(p, swap(*how)), Form(p, {})))
                if "3" in how:
                    one, two = ({x for x in ls if "m_legs" in x} for ls in (one, two))
                if n.startswith("VoltageLevel") and len(set(re.findall(r"\[#([123])\]", " ".join(two)))) < 2:
                    continue
                if one != two:
                    ctx.viol("asking", short(f), ev.loc(), "%s refuses after asking %s, not %s" % (short(f), apart(sorted(two - one, key=len)[0] if two - one else "nothing", sorted(one - two, key=len)[0] if one - two else "nothing"), apart(sorted(one - two, key=len)[0] if one - two else "nothing", sorted(two - one, key=len)[0] if two - one else "nothing")))
    ctx.need("asking", 3)


def spoken(t):
    """The sides that a text speaks of."""
    t = re.sub(r'"[^"]*[% ][^"]*"', "", t)
    out = "".join(NAMED.findall(re.sub(r"std::\w+|[vV]1_\d", "", t)))
    return set(out) | {WORDS[x] for x in re.findall(r"\b(ONE|TWO|THREE)\b", t)} | set(re.findall(r"#([123])", t))


def own(ctx, s):
    """What is given, stored or written under the name of a side does not come from another side."""
    p = ctx.p
    named = {f: d for fam in s.families().values() for d, f in fam.items() if len(d) == 1}
    seen = {}
    for f, r in sorted(p.funcs.items()):
        if "/test/" in r["file"] or r.get("body") is None or not f.startswith("powsybl::") or "/network/" in r["file"]:
            continue
        if f not in named and not any(NAMED.search(str(y.get("f", "")).split("(")[0]) or NAMED.search(str(y.get("n", ""))) or NAMED.search(str(y.get("v", ""))) for y in nodes_of([r["body"], r.get("inits")])):
            continue
        inst = short(f)
        for l in sorted(lines(s.summary(f), Form(p, {}), False)):
            if l.startswith("returns ") and f in named:
                d, v, what = named[f], l[8:], "returns"
            elif " := " in l:
                what, v = l.split(" := ", 1)
                d = NAMED.findall(what.split("m_")[-1])
                d = d[0] if len(d) == 1 else ""
            else:
                m = re.search(r'WriteAttribute\([^"]*, "(\w+)", (.*)$', l) or re.match(r'\S*xmlTextWriterWriteAttribute\(.*?, "(\w+?)", (.*)$', l)
                if not m:
                    continue
                what, v = m.group(1), m.group(2)
                d = NAMED.findall(what)
                d = d[-1] if d else ""
            if len(d) != 1 or not spoken(v):
                continue
            k = "%s@%s" % (inst, what[-60:])
            if (what, v) in seen and seen[what, v] != k:
                continue
            seen[what, v] = k
            ctx.inst("own", k)
            if d not in spoken(v):
                ctx.viol("own", k, where(p, f), "%s: %s takes what belongs to side %s: %s" % (inst, what[-80:], "/".join(sorted(spoken(v))), v[:200]))
    ctx.need("own", 150)


def acts(ls):
    """Reading something changes nothing."""
    return {x for x in ls if x.startswith(("returns ", "throw ")) or ":=" in x or not re.search(r"\.(get|is|has)\w*\(\) \[\]$", x)}


def apart(a, b):
    """Where a text departs from another one."""
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
    return a if len(a) < 160 else a[:60] + " ... " + a[max(i - 60, 0):i + 60]


def told(ctx, s):
    """Which side something is on: each answer is the one of the other with the sides exchanged."""
    p = ctx.p
    for f, r in sorted(p.funcs.items()):
        if "/test/" in r["file"] or not f.startswith("powsybl::iidm::") or r.get("body") is None or not sidetype(r.get("rt")) or "converter" in f or f.startswith(I + "Enum::") or not r["p"]:
            continue
        if "static" in str(r.get("st", "")) or any(q["t"].startswith("std::") for q in r["p"]):
            continue
        inst = short(f)
        e = s.summary(f)
        # what each answer says yes to, the refusals of the other answers apart
        says = {}
        ident = Form(p, {})
        for st, v in e.rets:
            for x, g in ident.leaves(canon(v), st.g):
                for c, pol in g:
                    for y, w in split(canon(c), bool(pol)):
                        if w:
                            says.setdefault(x, []).append(y)
        n = 3 if sidetype(r["rt"]).startswith(I + "ThreeWindings") else 2
        for i in range(2, n + 1):
            pi = swap("1", str(i))
            ctx.inst("told", "%s/1-%d" % (inst, i))
            one = {Form(p, pi).of(y) for x, ys in says.items() if x.op == "enum" and x.a[1] == "ONE" for y in ys}
            two = {Form(p, {}).of(y) for x, ys in says.items() if x.op == "enum" and x.a[1] == NUMBERS[str(i)] for y in ys}
            if one != two or not one:
                ctx.viol("told", "%s/1-%d" % (inst, i), where(p, f), "%s answers side %d on %s, side 1 on %s" % (inst, i, sorted(two)[:2], sorted(one)[:2]))
    ctx.need("told", 3)


def named(ctx, s):
    """getX1 is getX2, the first side exchanged for the second one."""
    p = ctx.p
    for key, fam in sorted(s.families().items()):
        sides = sorted(fam)
        a = sides[0]
        for b in sides[1:]:
            fa, fb = fam[a], fam[b]
            if len(a) > 1 or len(b) > 1:
                continue
            inst = "%s / %s" % (short(fa), mname(fb))
            ctx.inst("named", inst)
            la, lb = lines(s.summary(fa), Form(p, swap(a, b))), lines(s.summary(fb), Form(p, {}))
            if la != lb:
                x, y = differences(la, lb)
                ctx.viol("named", inst, where(p, fb), "%s is not %s with the sides exchanged: %s against %s" % (short(fb), mname(fa), (y or ["nothing"])[0][:200], (x or ["nothing"])[0][:200]))
    ctx.need("named", 60)


def where(p, f):
    r = p.funcs[f]
    return "%s:%d" % (r["file"], r["line"])


def indexed(ctx, s):
    """getX(side) is getX1 for the first side, getX2 for the second one, and refuses what is no side."""
    p = ctx.p
    for f, r in sorted(p.funcs.items()):
        if "/test/" in r["file"] or not f.startswith("powsybl::iidm::") or r.get("body") is None or "converter" in f:
            continue
        ps = [q for q in r["p"] if sidetype(q["t"])]
        if len(ps) != 1 or r["n"] in ("<ctor>", "toString", "operator<<"):
            continue
        q = ps[0]
        e = s.summary(f)
        enum = sidetype(q["t"])
        n = 3 if enum.startswith(I + "ThreeWindings") else 2
        inst = short(f)
        sib = sibling(p, f, r, q)
        base = None
        for i in range(1, n + 1):
            mine = lines(e, Form(p, {}, {q["n"]: NUMBERS[str(i)]}))
            if sib.get(str(i)):
                ctx.inst("indexed", "%s/%d" % (inst, i))
                other = lines(s.summary(sib[str(i)]), Form(p, {}))
                if mine != other:
                    x, y = differences(mine, other)
                    ctx.viol("indexed", "%s/%d" % (inst, i), where(p, f), "%s for side %d is not %s: %s against %s" % (inst, i, mname(sib[str(i)]), (x or ["nothing"])[0][:200], (y or ["nothing"])[0][:200]))
            elif i == 1:
                base = e
            else:
                ctx.inst("indexed", "%s/1-%d" % (inst, i))
                first = lines(e, Form(p, swap("1", str(i)), {q["n"]: "ONE"}))
                if mine != first:
                    x, y = differences(mine, first)
                    ctx.viol("indexed", "%s/1-%d" % (inst, i), where(p, f), "%s for side %d is not what it is for side 1 with the sides exchanged: %s against %s" % (inst, i, (x or ["nothing"])[0][:200], (y or ["nothing"])[0][:200]))
        if r["rt"] != "void":
            ctx.inst("undefined", inst)
            other = [x for x in lines(e, Form(p, {}, {q["n"]: "?"})) if x.startswith("returns ")]
            if other and other != ["returns this() []"]:
                ctx.viol("undefined", inst, where(p, f), "%s answers for an undefined side: %s" % (inst, other[0][:200]))
    ctx.need("indexed", 20)
    ctx.need("undefined", 10)


def sibling(p, f, r, q):
    """The functions of the same class that say the side in their name."""
    out = {}
    rest = [x["t"] for x in r["p"] if x is not q]
    const = f.endswith(" const")
    for g, o in p.funcs.items():
        if o.get("c") != r.get("c") or o.get("body") is None or g.endswith(" const") != const or [x["t"] for x in o["p"]] != rest or not r.get("c"):
            continue
        m = re.match(re.escape(r["n"]) + r"([123])$", o["n"])
        if m:
            out[m.group(1)] = g
    return out
