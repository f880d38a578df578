"""C04: a created object has exactly the attributes given to its builder, is attached where it says, and is the one returned."""
from common import *
from rules import c03

OPAQUE = {"getVariantIndex", "getVariantArraySize", "getVariantManager", "getNetwork", "getVariantManagerHolder", "checkAndGetUniqueId",
          "checkAndAdd", "attach", "createBusTerminal", "createNodeTerminal", "addTerminal", "find", "getSubstation", "getMeasurement", "getDiscreteMeasurement"}
CREATE = ("add", "createExtension", "build", "endStep", "endSection", "endPoint", "endTemporaryLimit")
PLACE = ("Node", "Node1", "Node2", "Bus", "Bus1", "Bus2", "ConnectableBus", "ConnectableBus1", "ConnectableBus2", "VoltageLevel", "VoltageLevel1", "VoltageLevel2")
# builder attribute -> accessor of the created object, where the names differ by design
ALIAS = {"VoltageSetpoint": "TargetV"}
# initial values of builder attributes that are not "undefined" (NaN, unset, empty): documented defaults
DEFAULTS = {
    ("LoadAdder", "LoadType"): "UNDEFINED", ("GeneratorAdder", "EnergySource"): "OTHER",
    ("PhaseTapChangerAdder", "LowTapPosition"): 0, ("PhaseTapChangerAdder", "RegulationMode"): "FIXED_TAP", ("RatioTapChangerAdder", "LowTapPosition"): 0,
    ("extensions::LoadDetailAdder", "FixedActivePower"): 0.0, ("extensions::LoadDetailAdder", "FixedReactivePower"): 0.0,
    ("extensions::LoadDetailAdder", "VariableActivePower"): 0.0, ("extensions::LoadDetailAdder", "VariableReactivePower"): 0.0,
    ("extensions::iidm::ActivePowerControlAdder", "Droop"): 0.0, ("extensions::iidm::RemoteReactivePowerControlAdder", "TargetQ"): 0.0,
    ("extensions::iidm::HvdcOperatorActivePowerRangeAdder", "OprFromCS1toCS2"): 0.0, ("extensions::iidm::HvdcOperatorActivePowerRangeAdder", "OprFromCS2toCS1"): 0.0,
    ("extensions::iidm::VoltagePerReactivePowerControlAdder", "Slope"): 0.0,
    ("extensions::iidm::DiscreteMeasurementAdder", "Valid"): True, ("extensions::iidm::MeasurementAdder", "Valid"): True,
}


def policy(f, rec, obj, depth):
    return mname(f) not in OPAQUE


def is_exc(p, c):
    return any(b.endswith(("Exception", "Error")) or b.startswith("std::exception") for b in p.bases(c))


def fill_value(v):
    if v.op == "obj" and v.a[0].split("<")[0] in ("std::vector", "std::deque") and len(v.a[2]) >= 2:
        return v.a[2][1]
    return None


class State:
    """What the locations hold after the creation."""

    def __init__(self, e):
        self.st = {}
        self.memo = {}
        for ev in e.events:
            if ev.k == "store" and root(ev.d[0]) is not THIS:
                self.st[self.c(ev.d[0])] = self.c(c03.strip_copy(ev.d[1]))
            elif ev.k == "call" and ev.d[3] is not None:
                o = self.c(ev.d[3])
                if ev.d[1] in ("resize", "assign") and len(ev.d[4]) == 2:
                    self.st[o] = N("fill", self.c(ev.d[4][1]))
                elif ev.d[1] in ("emplace_back", "push_back") and not ev.loops and len(ev.d[4]) == 1:
                    old = self.st.get(o)
                    self.st[o] = N("seq", *((old.a if old is not None and old.op == "seq" else ()) + (self.c(c03.strip_copy(ev.d[4][0])),)))
        self.rm = {}

    def c(self, n):
        return canon(n, self.memo)

    def value(self, n):
        def f(m):
            if m.op in ("fld", "at") and m in self.st:
                v = self.st[m]
                return v if v is m else rewrite(v, f, self.rm)
            if m.op == "at":
                b, i = m.a[0], m.a[1]
                if i is VIDX:
                    if b.op == "fill":
                        return b.a[0]
                    v = fill_value(b)
                    if v is not None:
                        return v
                if b.op == "seq" and i.op == "int" and isinstance(i.a[0], int) and i.a[0] < len(b.a):
                    return b.a[i.a[0]]
            return m
        return rewrite(n, f, self.rm)


def adders(ctx):
    p = ctx.p
    for cid in sorted(p.classes):
        if not cid.startswith(I) or short(cid) in ("ExtensionAdder",):
            continue
        if not (c03.is_adder(p, cid) or strip_tpl(cid).endswith(("Adder", "Builder"))):
            continue
        if cid in (I + "TerminalBuilder",) or cid.startswith(X):
            continue
        for m in p.classes[cid]["methods"]:
            if mname(m["f"]) in CREATE and m["f"] in p.funcs and not m.get("abstract"):
                yield cid, m["f"]


def setters(ctx, cid):
    """attribute name -> (setter, field it stores its argument to)."""
    p = ctx.p
    out = {}
    for b in p.bases(cid):
        for m in p.classes.get(b, {}).get("methods", []):
            n = mname(m["f"])
            for pre in ("set", "with"):
                if not (n.startswith(pre) and len(n) > len(pre) and n[len(pre)].isupper()):
                    continue
                if m["f"] not in p.funcs or len(p.funcs[m["f"]]["p"]) != 1:
                    continue
                e = ctx.summary(m["f"], policy, "c04", dyn=cid)
                P = N("param", p.funcs[m["f"]]["p"][0]["n"])
                out.setdefault(n[len(pre):], []).append((m["f"], P, [(ev, canon(ev.d[0]), canon(c03.strip_copy(ev.d[1]))) for ev in e.events if ev.k == "store"], e))
    return out


def product_getter(ctx, T, X):
    for nm in ([ALIAS[X]] if X in ALIAS else []) + [X]:
        g = c03.getters(ctx, T, "set" + nm)
        if g:
            return g[0]
    return None


def unset(c, q, F):
    """The condition says that F was not given."""
    c = strip_bool(c)
    if c is F and not q:
        return True
    if c.op == "un" and c.a[0] == "bool" and c.a[1] is F and not q:
        return True
    if c.op == "call" and mname(c.a[0]) == "isnan" and c.a[2] and c.a[2][0] is F and q:
        return True
    if c.op == "call" and mname(c.a[0]) == "empty" and c.a[1] is F and q:
        return True
    return False


def clean(v):
    """Dereferences and copies of the value are the value."""
    v = c03.strip_copy(v)
    while True:
        if v.op == "call" and v.a[1] is not None and mname(v.a[0]) in ("get", "value", "operator*") and not v.a[2]:
            v = v.a[1]
        elif v.op == "un" and v.a[0] in ("*", "deref"):
            v = v.a[1]
        else:
            return c03.strip_copy(v)


def uses_whole(e):
    """The builder itself is handed over (copied into its parent)."""
    return any(ev.k in ("call", "ctor", "basector") and any(isinstance(a, Node) and c03.strip_copy(a) is THIS for a in (ev.d[4] if ev.k == "call" else ev.d[3])) and
               not (ev.k == "ctor" and str(ev.d[1]).endswith(("Exception", "Error"))) for ev in e.events)


def main_products(p, e, rt):
    cs = []
    for ev in e.events:
        if ev.k == "ctor" and str(ev.d[1]).startswith(I) and not is_exc(p, ev.d[1]) and not strip_tpl(ev.d[1]).endswith(("Adder", "Builder")):
            if isinstance(ev.d[2], Node) and (ev.d[2].op in ("new", "obj")):
                cs.append(ev)
    return cs


def check(ctx):
    p = ctx.p
    for cid, f in adders(ctx):
        check_adder(ctx, cid, f)
    check_parts(ctx)
    check_switches(ctx)
    check_hvdc(ctx)
    check_ids(ctx)
    check_limit_types(ctx)
    check_feeders(ctx)
    ctx.need("builder-set", 150)
    ctx.need("created", 120)
    ctx.need("attached", 14)
    ctx.need("default", 150)


def check_adder(ctx, cid, f):
    p = ctx.p
    name = short(cid)
    e = ctx.summary(f, policy, "c04", dyn=cid)
    st = State(e)
    ss = setters(ctx, cid)
    prods = main_products(p, e, p.funcs[f]["rt"])
    own = {}
    for x in sorted(ss):
        fields = set()
        for fid, P, stores, se in ss[x]:
            ctx.inst("builder-set", "%s.%s" % (name, x))
            mine = [s for s in stores if root(s[1]) is THIS]
            hit = [s for s in mine if clean(s[2]) is P or contains(s[2], P)]
            if not hit:
                puts = [ev for ev in se.events if ev.k == "call" and ev.d[1] in ("emplace", "push_back", "emplace_back", "insert", "reset", "assign") and any(contains(a, P) for a in ev.d[4])]
                if puts:
                    fields |= {canon(ev.d[3]) for ev in puts if ev.d[3] is not None}
                else:
                    ctx.viol("builder-set", "%s.%s" % (name, x), ctx.loc(fid), "%s does not keep the given value" % short(fid))
                continue
            for ev, l, v in mine:
                if (ev, l, v) in hit:
                    if clean(v) is P:
                        fields.add(l)
                    cond = [c for c, q in ev.g if c.op != "imp"]
                    if cond and not any(t.k == "throw" for t in se.events):
                        full = [s for s in hit if s[1] is l]
                        if len(full) < 2:
                            ctx.viol("builder-set", "%s.%s" % (name, x), ev.loc(), "%s keeps the given value only when %s" % (short(fid), show(cond[0])[:60]))
                else:
                    if v.op in ("enum",) or l in own:
                        continue
                    ctx.viol("builder-set", "%s.%s/other" % (name, x), ev.loc(), "%s also changes %s" % (short(fid), show(l)[:60]))
        if len(fields) == 1:
            own[x] = next(iter(fields))
    # two attributes kept in one place
    byf = {}
    for x, F in own.items():
        byf.setdefault(F, set()).add(x)
    for F, xs in byf.items():
        rep = {ALIAS.get(x, x) for x in xs}
        rep = {"Target" + x[:-8] if x.endswith("Setpoint") else x for x in rep}
        rep = {{"TargetActivePower": "TargetP", "TargetReactivePower": "TargetQ", "TargetVoltage": "TargetV"}.get(x, x) for x in rep}
        if len(rep) > 1:
            ctx.viol("builder-set", "%s.%s" % (name, "+".join(sorted(xs))), ctx.loc(ss[sorted(xs)[0]][0][0]), "%s keeps %s in the same place" % (name, " and ".join(sorted(xs))))
    uses = set()
    for ev in e.events:
        if ev.k in ("enter", "leave"):
            continue
        for d in ev.d:
            for y in (d if isinstance(d, tuple) else (d,)):
                if isinstance(y, Node):
                    uses |= subnodes(canon(y))
        for c, q in ev.g:
            uses |= subnodes(canon(c))
    for s, v in e.rets:
        if isinstance(v, Node):
            uses |= subnodes(canon(v))
    rt = p.funcs[f]["rt"]
    for x in sorted(own):
        F = own[x]
        if not (mname(f) == "add" and any(mname(m) == "build" for m in ctx.methods(cid))) and not (mname(f) == "build" and x in PLACE):
          ctx.inst("given-used", "%s.%s" % (name, x), 1)
          if F not in uses and not (x in ("Id", "EnsureIdUnicity") and any(n.op == "call" and mname(n.a[0]) == "checkAndGetUniqueId" for n in uses)) and not (uses_whole(e) and not prods):
              ctx.viol("given-used", "%s.%s" % (name, x), ctx.loc(f), "%s does not use the %s given to it" % (short(f), x))
        for ev in prods:
            T = ev.d[1]
            O = canon(ev.d[2])
            if root_is_part(ev, own, O, rt, T, p):
                continue
            g = product_getter(ctx, T, x)
            if g is None or x in PLACE:
                continue
            eg = ctx.summary(g, policy, "c04", dyn=T)
            rv = eg.retvalue()
            if rv is None:
                continue
            v = st.value(rewrite(canon(rv), lambda m: O if m is THIS else m))
            ctx.inst("created", "%s.%s -> %s" % (name, x, short(g)))
            judge(ctx, "created", "%s.%s" % (name, x), ev, f, g, x, F, v, cid)
    check_attached(ctx, cid, f, e)
    check_returned(ctx, cid, f, e)
    check_defaults(ctx, cid, own)


def root_is_part(ev, own, O, rt, T, p):
    """The object is a part built by a builder of its own (checked with that builder)."""
    if rt.startswith("void") or T in rt or "unique_ptr" in rt:
        return False
    # returned as a base class
    for b in p.bases(T):
        if short(b) in rt.replace("powsybl::iidm::", ""):
            return False
    r = strip_tpl(rt).replace("const ", "").replace(" &", "").strip()
    return not r.endswith("Adder")


def judge(ctx, rule, inst, ev, f, g, x, F, v, cid):
    if x == "Id":
        ok = v.op == "call" and mname(v.a[0]) == "checkAndGetUniqueId" or clean(v) is F
        if not ok:
            ctx.viol(rule, inst, ev.loc(), "the identifier of the created object is %s" % show(v)[:80])
        return
    for lv, cs in c03.leaves(v, []):
        lv = clean(lv)
        if lv is F:
            continue
        fc = c03.flat(cs)
        if any(unset(canon(c), q, F) for c, q in fc):
            continue  # documented default when it was not given
        if lv.op == "obj" and "std::set" in lv.a[0] and contains(lv, F):
            continue
        if lv.op == "enum" and any(c.op == "op" and c.a[0] == "==" and q and {clean(c.a[1]), clean(c.a[2])} == {F, lv} for c, q in fc):
            continue
        if lv.op == "enum" and case_of(ev, F, lv):
            continue
        if lv.op in ("unk",) or is_getter_of_unknown(lv):
            ctx.undecided(rule, inst, "value %s" % show(lv)[:80])
            continue
        ctx.viol(rule, inst, ev.loc(), "%s: the created object's %s gives %s instead of the given %s" % (short(f), mname(g), show(lv)[:80], x))
        return


def case_of(ev, F, lv):
    for c, q in ev.g:
        if c.op == "op" and c.a[0] == "==" and q and {clean(canon(c.a[1])), clean(canon(c.a[2]))} == {F, lv}:
            return True
    return False


def is_getter_of_unknown(v):
    return v.op in ("lv", "phi", "elem")


def suffix(n):
    """The side a builder field belongs to: this.m_node1 -> '1', this.m_adder2.m_node -> '2'."""
    for x in (n,):
        names = []
        while x.op == "fld":
            names.append(x.a[1])
            x = x.a[0]
        for nm in names:
            if nm[-1].isdigit():
                return nm[-1]
    return ""


def place(n):
    names = []
    x = n
    while x.op == "fld":
        names.append(x.a[1])
        x = x.a[0]
    if x is not THIS or not names:
        return None
    s = names[0].rstrip("123")
    return s if s in ("m_node", "m_bus", "m_connectableBus", "m_voltageLevelId", "m_voltageLevel") else None


def check_attached(ctx, cid, f, e):
    p = ctx.p
    name = short(cid)
    adds = [ev for ev in e.events if ev.k == "call" and ev.d[1] == "addTerminal"]
    att = [ev for ev in e.events if ev.k == "call" and ev.d[1] == "attach" and ev.d[3] is not None and len(ev.d[4]) == 2 and canon(ev.d[4][1]) is FALSE]
    if not adds:
        return
    want = 1
    for ev in adds:
        ctx.inst("attached", name)
        t = canon(ev.d[4][0])
        sides = {suffix(x) for x in subnodes(t) if x.op == "fld" and place(x)}
        if len(sides) > 1:
            ctx.viol("attached", name, ev.loc(), "the terminal is built from the places given for different sides (%s)" % ", ".join(sorted(sides)))
            continue
        s = next(iter(sides)) if sides else ""
        if s and int(s) != want:
            ctx.viol("attached", name, ev.loc(), "terminal %d of the created object is the one of side %s" % (want, s))
        want += 1
        # the value
        for lv, cs in c03.leaves(t, []):
            if lv.op != "call":
                continue
            k = mname(lv.a[0])
            fields = {place(x): x for x in subnodes(lv) if x.op == "fld" and place(x)}
            conds = c03.flat(cs)
            if k == "createNodeTerminal":
                if not (len(lv.a[2]) == 2 and clean(lv.a[2][1]).op == "fld" and place(clean(lv.a[2][1])) == "m_node"):
                    ctx.viol("attached", name + "/node", ev.loc(), "the terminal's node is %s" % show(lv.a[2][1])[:60])
                if "m_node" in fields and not any(strip_bool(c) is fields["m_node"] and q for c, q in conds) and any(mname(o.a[0]) == "createBusTerminal" for o, _ in c03.leaves(t, []) if o.op == "call"):
                    ctx.viol("attached", name + "/node", ev.loc(), "a node terminal is built although no node was given")
            elif k == "createBusTerminal":
                vl, bus, conn = lv.a[2][0], lv.a[2][1], lv.a[2][2]
                B, C = fields.get("m_bus"), fields.get("m_connectableBus")
                if B is None or C is None:
                    ctx.viol("attached", name + "/bus", ev.loc(), "the bus terminal is not built from the given bus and connectable bus")
                    continue
                bad = False
                for bl, bc in c03.leaves(bus, []):
                    bcs = c03.flat(bc)
                    em = [q for c, q in bcs if c.op == "call" and mname(c.a[0]) == "empty" and c.a[1] is B]
                    if bl is B and (not em or em[0]):
                        if not any(not q for q in em):
                            bad = True
                    if bl is C and em and all(not q for q in em) and not any(c.op in ("op",) for c, q in bcs):
                        bad = True
                    if bl not in (B, C):
                        bad = True
                nb = canon(conn)
                isconn = nb.op == "un" and nb.a[0] == "!" and nb.a[1].op == "call" and mname(nb.a[1].a[0]) == "empty" and nb.a[1].a[1] is B
                if not isconn and nb.op == "ite":
                    isconn = False
                if bad:
                    ctx.viol("attached", name + "/bus", ev.loc(), "the terminal's connectable bus is %s" % show(bus)[:100])
                if not isconn:
                    ctx.viol("attached", name + "/connected", ev.loc(), "the terminal is connected when %s instead of when a bus is given" % show(nb)[:60])
        # attached to the voltage level of the same side
        vls = {canon(lv.a[2][0]) for lv, _ in c03.leaves(t, []) if lv.op == "call" and mname(lv.a[0]).startswith("create") and lv.a[2]}
        mine = [a for a in att if contains(canon(a.d[4][0]), t)]
        if not mine:
            ctx.viol("attached", name + "/attach" + s, ev.loc(), "the terminal%s is not attached to its voltage level" % (" " + s if s else ""))
        for a in mine:
            if len(vls) == 1 and canon(a.d[3]) not in vls:
                ctx.viol("attached", name + "/level" + s, a.loc(), "the terminal is attached to %s instead of %s" % (show(a.d[3])[:80], show(next(iter(vls)))[:80]))


def check_returned(ctx, cid, f, e):
    p = ctx.p
    rt = p.funcs[f]["rt"]
    if not rt.rstrip().endswith("&") or strip_tpl(rt).replace(" &", "").strip().endswith("Adder") or not e.rets:
        return
    name = short(cid)
    ctx.inst("returned", name)
    created = {canon(ev.d[2]) for ev in main_products(p, e, rt)}
    rv = e.retvalue()
    if rv is None:
        return
    for lv, cs in c03.leaves(canon(rv), []):
        lv = clean(lv)
        ok = lv in created or lv.op == "call" and mname(lv.a[0]) in ("checkAndAdd", "attach", "add", "operator*", "ref") and any(contains(lv, c) for c in created)
        if ok or lv.op in ("unk",):
            continue
        if lv.op == "call" and any(contains(lv, c) for c in created):
            continue
        # found again in the container it was just put in, by its own key
        if lv.op == "at" and any(contains(lv, c) for c in created):
            continue
        if last_of(lv, e, created) or just_set(lv, e, created):
            continue
        ctx.viol("returned", name, ctx.loc(f), "%s returns %s instead of the object it created" % (short(f), show(lv)[:100]))


def last_of(v, e, created):
    """back() of the container the created object was just appended to."""
    if v.op == "call" and v.a[1] is not None and mname(v.a[0]) in ("back", "front"):
        want = "push_back" if mname(v.a[0]) == "back" else "push_front"
        c = canon(v.a[1])
        return any(ev.k == "call" and ev.d[1] in (want, want.replace("push", "emplace")) and ev.d[3] is not None and canon(ev.d[3]) is c for ev in e.events)
    return False


def just_set(v, e, created):
    """The getter of the attribute the created object was just set as, on the same owner."""
    if v.op == "call" and v.a[1] is not None and mname(v.a[0]).startswith("get") and not v.a[2]:
        o = canon(v.a[1])
        s = "set" + mname(v.a[0])[3:]
        return any(ev.k in ("call", "enter") and ev.d[1] == s and ev.d[3] is not None and canon(ev.d[3]) is o and any(contains(canon(a), c) for a in ev.d[4] for c in created) for ev in e.events)
    return False


def check_defaults(ctx, cid, own):
    """A builder attribute that was not given is undefined, or the documented default."""
    p = ctx.p
    name = short(cid)
    ctors = [m["f"] for m in p.classes[cid]["methods"] if "<ctor>" in m["f"] or mname(m["f"]) == strip_tpl(cid).split("::")[-1]]
    ctors = [c for c in ctors if c in p.funcs and p.funcs[c].get("kind") == "ctor" and not is_copy(p, c, cid)]
    for c in ctors[:1]:
        e = ctx.summary(c, policy, "c04", dyn=cid)
        init = {}
        for ev in e.events:
            if ev.k == "store":
                init[canon(ev.d[0])] = canon(ev.d[1])
        types = {fl["n"]: fl["t"] for b in p.bases(cid) for fl in p.classes.get(b, {}).get("fields", [])}
        for x, F in sorted(own.items()):
            if F.op != "fld" or F.a[0] is not THIS:
                continue
            t = types.get(F.a[1], "")
            v = init.get(F)
            ctx.inst("default", "%s.%s" % (name, x))
            k = (name, x)
            if k in DEFAULTS:
                d = DEFAULTS[k]
                got = const_of(v)
                if got != d and not (d in (0, False) and v is None):
                    ctx.viol("default", "%s.%s" % (name, x), ctx.loc(c), "%s of %s is %s when it is not given, instead of %s" % (x, name, show(v) if v is not None else "unset", d))
            elif t == "double":
                if v is None or not is_nan(v):
                    ctx.viol("default", "%s.%s" % (name, x), ctx.loc(c), "%s of %s is %s when it is not given, instead of undefined" % (x, name, show(v) if v is not None else "uninitialised"))
            elif t == "bool":
                if v is None or v is not FALSE:
                    ctx.viol("default", "%s.%s" % (name, x), ctx.loc(c), "%s of %s is %s when it is not given, instead of false" % (x, name, show(v) if v is not None else "uninitialised"))
            elif t.startswith(("unsigned", "long", "int", "powsybl")) and "::" not in t or is_enum(p, t):
                if v is None:
                    ctx.viol("default", "%s.%s" % (name, x), ctx.loc(c), "%s of %s is uninitialised when it is not given" % (x, name))
                elif v.op in ("int", "enum"):
                    ctx.undecided("default", "%s.%s" % (name, x), "no documented default for %s" % (show(v) if v is not None else "uninitialised"))
            elif v is not None and (v.op in ("int", "float", "bool") or v.op == "str" and v.a[0]):
                ctx.viol("default", "%s.%s" % (name, x), ctx.loc(c), "%s of %s is %s when it is not given, instead of unset" % (x, name, show(v)))


def const_of(v):
    if v is None:
        return None
    v = c03.strip_copy(v)
    return v.a[1] if v.op == "enum" else v.a[0] if v.op in ("int", "bool", "float", "str") else None


def is_enum(p, t):
    return t.replace("const ", "") in getattr(p, "enums", {})


def is_copy(p, c, cid):
    ps = p.funcs[c]["p"]
    return len(ps) == 1 and strip_tpl(cid).split("::")[-1] in strip_tpl(ps[0]["t"]) and "&" in ps[0]["t"]


def is_nan(v):
    return v.op == "call" and mname(v.a[0]) in ("nan", "quiet_NaN") or v.op == "nan" or v.op == "float" and v.a[0] != v.a[0]


def check_parts(ctx):
    """Part k of a created object is built by the builder given for part k."""
    p = ctx.p
    for top, getter, sett, sub in (("ThreeWindingsTransformerAdder", "getLeg", "setLegAdder", "m_adder"), ("TieLineAdder", "getHalf", "setHalfLineAdder", "m_halfLineAdder")):
        cid = I + top
        n = 3 if top.startswith("Three") else 2
        f = c03.fn(ctx, cid, "add", 0)
        e = ctx.summary(f, policy, "c04", dyn=cid)
        st = State(e)
        T = [ev for ev in main_products(p, e, "") if short(ev.d[1]) == top[:-5]]
        if not T:
            raise AnalysisError("%s::add creates no %s" % (top, top[:-5]))
        O = canon(T[-1].d[2])
        sub_cls = I + ("three_windings_transformer::LegAdder" if n == 3 else "tie_line::HalfLineAdder")
        part_cls = I + ("three_windings_transformer::Leg" if n == 3 else "tie_line::HalfLine")
        own = {x: s[0][2][0][1] for x, s in setters(ctx, sub_cls).items() if len(s) == 1 and len(s[0][2]) == 1}
        for k in range(1, n + 1):
            # the field the part's builder is kept in
            fs = c03.fn(ctx, cid, "%s%d" % (sett, k), 1)
            es = ctx.summary(fs, policy, "c04", dyn=cid)
            P = N("param", p.funcs[fs]["p"][0]["n"])
            dest = {canon(ev.d[3]) for ev in es.events if ev.k == "call" and ev.d[3] is not None and any(contains(a, P) for a in ev.d[4])} | {canon(ev.d[0]) for ev in es.events if ev.k == "store" and contains(ev.d[1], P)}
            dest = {d for d in dest if root(d) is THIS}
            ctx.inst("part", "%s part %d" % (top, k))
            if len(dest) != 1:
                ctx.undecided("part", "%s part %d" % (top, k), "kept in %s" % ", ".join(map(show, dest)))
                continue
            A = next(iter(dest))
            gp = [g for g in ctx.method(I + top[:-5], "%s%d" % (getter, k)) if g in p.funcs]
            if not gp:
                raise AnalysisError("no %s%d" % (getter, k))
            rv = ctx.summary(gp[0], policy, "c04", dyn=I + top[:-5]).retvalue()
            part = st.value(rewrite(canon(rv), lambda m: O if m is THIS else m))
            for x in sorted(own):
                if x in PLACE:
                    continue
                g = product_getter(ctx, part_cls, x)
                if g is None:
                    continue
                rg = ctx.summary(g, policy, "c04", dyn=part_cls).retvalue()
                v = st.value(rewrite(canon(rg), lambda m: part if m is THIS else m))
                F = rewrite(own[x], lambda m: A if m is THIS else m)
                ctx.inst("part", "%s%d.%s" % (top, k, x))
                for lv, cs in c03.leaves(v, []):
                    lv = clean(lv)
                    if lv is F or any(unset(canon(c), q, F) for c, q in c03.flat(cs)):
                        continue
                    if lv.op == "unk":
                        ctx.undecided("part", "%s%d.%s" % (top, k, x), show(lv))
                        continue
                    ctx.viol("part", "%s%d.%s" % (top, k, x), ctx.loc(f), "%s of part %d of the created object is %s instead of the one given" % (x, k, show(lv)[:80]))
                    break
        # newLegK()/newHalfLineK() build part K
        num = {}
        fa = [m["f"] for m in p.classes[sub_cls]["methods"] if mname(m["f"]) == "add" and m["f"] in p.funcs]
        for f2 in fa:
            e2 = ctx.summary(f2, lambda a, r, o, d: policy(a, r, o, d) and not mname(a).startswith(sett), "c04p", dyn=sub_cls)
            for ev in e2.events:
                if ev.k == "call" and ev.d[1].startswith(sett):
                    for c, q in ev.g:
                        c = canon(c)
                        if c.op == "op" and c.a[0] == "==" and q:
                            for u, w in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                                if w.op == "int" and u.op == "fld":
                                    num[w.a[0]] = (ev.d[1][len(sett):], u, ev)
        for k in range(1, n + 1):
            nm = "%s%d" % ("newLeg" if n == 3 else "newHalfLine", k)
            f3 = c03.fn(ctx, cid, nm, 0)
            e3 = ctx.summary(f3, policy, "c04", dyn=cid)
            ctx.inst("part", "%s::%s" % (top, nm))
            got = {canon(ev.d[1]) for ev in e3.events if ev.k == "store" and ev.d[0].op == "fld" and any(ev.d[0].a[1] == u.a[1] for _, u, _ in num.values())}
            if not num or not got:
                ctx.undecided("part", "%s::%s" % (top, nm), "part number not recognised")
                continue
            for v in got:
                if v.op == "int" and num.get(v.a[0], ("?",))[0] != str(k):
                    ctx.viol("part", "%s::%s" % (top, nm), ctx.loc(f3), "the builder given by %s builds part %s" % (nm, num.get(v.a[0], ("?",))[0]))


def check_switches(ctx):
    """Switches and internal connections join the two places given, in order."""
    p = ctx.p
    opq = lambda f, r, o, d: policy(f, r, o, d) and mname(f) not in ("addSwitch", "addInternalConnection", "addEdge", "connect")
    for cid, fl in ((I + "node_breaker_view::SwitchAdder", ("m_node1", "m_node2")), (I + "bus_breaker_view::SwitchAdder", ("m_bus1", "m_bus2")), (I + "node_breaker_view::InternalConnectionAdder", ("m_node1", "m_node2"))):
        name = short(cid)
        f = c03.fn(ctx, cid, "add", 0)
        e = ctx.summary(f, opq, "c04s", dyn=cid)
        ss = setters(ctx, cid)
        want = []
        for k in "12":
            x = [y for y in ss if y in ("Node" + k, "Bus" + k)]
            locs = {l for y in x for s in ss[y] for _, l, v in s[2]}
            want.append(locs)
        ctx.inst("switch", name)
        ev = [ev for ev in e.events if ev.k == "call" and ev.d[1] in ("addSwitch", "addInternalConnection")]
        if not ev:
            ctx.viol("switch", name, ctx.loc(f), "%s adds nothing to the voltage level" % short(f))
        for c in ev:
            args = [clean(canon(a)) for a in c.d[4]]
            places = [a for a in args if a.op == "fld" and root(a) is THIS]
            if len(places) != 2 or any(len(w) == 1 and places[i] not in w for i, w in enumerate(want)):
                ctx.viol("switch", name, c.loc(), "%s joins %s instead of the two given places" % (short(f), ", ".join(show(a)[:40] for a in places)))
    # the topology keeps the two ends in order
    for cid, nm in ((I + "NodeBreakerVoltageLevel", "addSwitch"), (I + "NodeBreakerVoltageLevel", "addInternalConnection"), (I + "BusBreakerVoltageLevel", "addSwitch")):
        for f in [m for m in ctx.methods(cid) if mname(m) == nm and m in p.funcs]:
            ps = [N("param", x["n"]) for x in p.funcs[f]["p"]]
            e = ctx.summary(f, lambda a, r, o, d: policy(a, r, o, d) and mname(a) not in ("addEdge", "getVertex", "addVertexIfNotPresent"), "c04t", dyn=cid)
            ctx.inst("switch", short(f))
            ed = [ev for ev in e.events if ev.k == "call" and ev.d[1] == "addEdge"]
            if not ed:
                ctx.viol("switch", short(f), ctx.loc(f), "%s adds no edge" % short(f))
            for ev in ed:
                a = [canon(x) for x in ev.d[4]]
                two = ps[-2:] if nm == "addInternalConnection" or "NodeBreaker" in cid else None
                pl = ps[:2] if nm == "addInternalConnection" else None
                cand = [q for q in ps if not any(t in p.funcs[f]["p"][ps.index(q)]["t"] for t in ("unique_ptr", "Switch"))]
                if len(cand) >= 2 and len(a) >= 2 and not (contains(a[0], cand[0]) and contains(a[1], cand[1])):
                    ctx.viol("switch", short(f), ev.loc(), "the edge joins %s and %s" % (show(a[0])[:40], show(a[1])[:40]))


def check_hvdc(ctx):
    p = ctx.p
    cid = I + "HvdcLineAdder"
    f = c03.fn(ctx, cid, "add", 0)
    e = ctx.summary(f, lambda a, r, o, d: policy(a, r, o, d) or mname(a) == "attach", "c04h", dyn=cid)
    st = State(e)
    T = [ev for ev in main_products(p, e, "") if ev.d[1] == I + "HvdcLine"]
    ss = setters(ctx, cid)
    if not T:
        raise AnalysisError("HvdcLineAdder::add creates no HvdcLine")
    O = canon(T[-1].d[2])
    for k in "12":
        F = ss["ConverterStationId" + k][0][2][0][1]
        g = c03.getters(ctx, I + "HvdcLine", "setConverterStation" + k)
        ctx.inst("created", "HvdcLineAdder.ConverterStationId" + k)
        if not g:
            raise AnalysisError("HvdcLine::getConverterStation%s vanished" % k)
        rv = ctx.summary(g[0], policy, "c04", dyn=I + "HvdcLine").retvalue()
        v = st.value(rewrite(canon(rv), lambda m: O if m is THIS else m))
        fl = {x for x in subnodes(clean(v)) if x.op == "fld" and x.a[0] is THIS and "onverterStationId" in x.a[1]}
        if fl != {F}:
            ctx.viol("created", "HvdcLineAdder.ConverterStationId" + k, T[-1].loc(), "converter station %s of the created line is %s" % (k, show(v)[:100]))


def check_ids(ctx):
    """checkAndGetUniqueId gives the builder's identifier, made unique only on request, and refuses a missing or used one."""
    p = ctx.p
    c = [x for x in p.classes if strip_tpl(x) == I + "IdentifiableAdder"]
    seen = 0
    for cid in sorted(c):
        fs = [m["f"] for m in p.classes[cid]["methods"] if mname(m["f"]) == "checkAndGetUniqueId" and m["f"] in p.funcs]
        for f in fs:
            opq = lambda a, r, o, d: mname(a) not in OPAQUE - {"checkAndGetUniqueId"} and mname(a) not in ("getUniqueId", "checkId", "get", "getIndex")
            e = ctx.summary(f, opq, "c04i", dyn=cid)
            ctx.inst("unique-id", short(f))
            seen += 1
            rv = e.retvalue()
            if rv is None:
                ctx.viol("unique-id", "checkAndGetUniqueId", ctx.loc(f), "checkAndGetUniqueId never returns")
                continue
            ID = N("fld", THIS, "m_id")
            for lv, cs in c03.leaves(canon(rv), []):
                lv = clean(lv)
                if lv is ID:
                    continue
                ens = any(strip_bool(c).op == "fld" and q for c, q in cs)
                if lv.op == "call" and mname(lv.a[0]) == "getUniqueId" and lv.a[2] and clean(lv.a[2][0]) is ID and ens:
                    continue
                ctx.viol("unique-id", "checkAndGetUniqueId", ctx.loc(f), "the identifier used is %s" % show(lv)[:80])
            thr = [ev for ev in e.events if ev.k == "throw"]
            if not any(c.op == "call" and mname(c.a[0]) == "empty" and c.a[1] is ID and q for ev in thr for c, q in c03.flat([(canon(c), q) for c, q in ev.g])):
                ctx.viol("unique-id", "checkAndGetUniqueId/empty", ctx.loc(f), "a missing identifier is not refused")
    if not seen:
        raise AnalysisError("checkAndGetUniqueId vanished")


def check_limit_types(ctx):
    """A limits builder makes limits of its own type the limits of its owner."""
    p = ctx.p
    opq = lambda f, r, o, d: policy(f, r, o, d) and mname(f) not in ("setOperationalLimits", "checkLoadingLimits", "checkPermanentLimit", "checkTemporaryLimits")
    for cl, k in (("ActivePowerLimitsAdder", "ACTIVE_POWER"), ("ApparentPowerLimitsAdder", "APPARENT_POWER"), ("CurrentLimitsAdder", "CURRENT")):
        cid = I + cl
        f = c03.fn(ctx, cid, "add", 0)
        e = ctx.summary(f, opq, "c04l", dyn=cid)
        ctx.inst("limit-type", cl)
        sets = [ev for ev in e.events if ev.k == "call" and ev.d[1] == "setOperationalLimits"]
        if not sets:
            ctx.viol("limit-type", cl, ctx.loc(f), "the created limits are not given to their owner")
        for ev in sets:
            en = {x.a[1] for x in subnodes(ev.d[4][0]) if x.op == "enum"}
            if en != {k}:
                ctx.viol("limit-type", cl, ev.loc(), "the created limits are stored as limits of type %s" % "/".join(sorted(en)))


def check_feeders(ctx):
    """newFeederK() of ConnectablePositionAdder fills what getFeederK() of the extension returns."""
    p = ctx.p
    cid = I + "extensions::sld::ConnectablePositionAdder"
    if cid not in p.classes:
        raise AnalysisError("ConnectablePositionAdder vanished")
    f = c03.fn(ctx, cid, "createExtension", 1)
    e = ctx.summary(f, policy, "c04", dyn=cid)
    st = State(e)
    T = [ev for ev in main_products(p, e, "") if short(ev.d[1]).endswith("ConnectablePosition")]
    O = canon(T[-1].d[2])
    for k in ("", "1", "2", "3"):
        fa = c03.fn(ctx, cid, "newFeeder" + k, 0)
        ea = ctx.summary(fa, policy, "c04", dyn=cid)
        cells = {canon(ev.d[1]) for ev in ea.events if ev.k == "store" and ev.d[0].op == "fld" and ev.d[0].a[1] == "m_feeder"}
        cells |= {canon(a) for ev in ea.events if ev.k == "ctor" and "FeederAdder" in str(ev.d[1]) for a in ev.d[3] if isinstance(a, Node) and a.op == "fld"}
        g = [x for x in ctx.method(I + "extensions::sld::ConnectablePosition", "getFeeder" + k) if x in p.funcs and x.endswith("const")]
        rv = ctx.summary(g[0], policy, "c04", dyn=I + "extensions::sld::ConnectablePosition").retvalue()
        v = st.value(rewrite(canon(rv), lambda m: O if m is THIS else m))
        ctx.inst("part", "ConnectablePositionAdder::newFeeder" + k)
        have = {x for x in subnodes(v) if x.op == "fld" and x.a[0] is THIS}
        if not (cells & have):
            ctx.viol("part", "ConnectablePositionAdder::newFeeder" + k, ctx.loc(fa), "the feeder given by newFeeder%s is not the one getFeeder%s returns (%s)" % (k, k, show(v)[:60]))
