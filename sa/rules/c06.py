"""C06: each validated attribute accepts and refuses exactly the documented values, at creation and in its setter.

The table below is the specification: per kind, the conditions that are not allowed, over the attributes named as by
their accessors. Every other value of these attributes has to be accepted."""
import itertools
import random
import zlib

from common import *
from rules import c03, c04, c05
import pred


HUGE = 1.7976931348623157e308


def nan(v):
    return v is None or v != v


def neg(v):
    return not nan(v) and v < 0


def le0(v):
    return not nan(v) and v <= 0


def undefined(*names):
    """Each of the attributes has to be a number."""
    return [eval("lambda %s: nan(%s)" % (n, n), {"nan": nan}) for n in names]


def missing(*names):
    return [eval("lambda %s: %s is None" % (n, n)) for n in names]


def empty(*names):
    return [eval("lambda %s: %s == ''" % (n, n)) for n in names]


POWERS = undefined("R", "X", "G1", "B1", "G2", "B2")
MINMAX = [lambda MinP, MaxP: not nan(MinP) and not nan(MaxP) and MinP > MaxP]


def voltage_control(on, v, q):
    return [eval("lambda %s, %s, %s: bool(%s) and (nan(%s) or %s <= 0) or not %s and nan(%s)" % (on, v, q, on, v, v, on, q), {"nan": nan})]


def foreign(t):
    return [eval("lambda %s, %s_net: %s not in (None, False) and not %s_net" % (t, t, t, t))]


DEADBAND = lambda on: [eval("lambda %s, TargetDeadband: bool(%s) and nan(TargetDeadband) or neg(TargetDeadband)" % (on, on), {"nan": nan, "neg": neg})]

RULES = {
    "Network": [lambda ForecastDistance: ForecastDistance < 0],
    "Battery": undefined("MinP", "MaxP", "P0", "Q0") + MINMAX,
    "Generator": undefined("MinP", "MaxP", "ActivePowerSetpoint") + MINMAX + [lambda RatedS: le0(RatedS)]
    + missing("VoltageRegulatorOn") + voltage_control("VoltageRegulatorOn", "VoltageSetpoint", "ReactivePowerSetpoint") + foreign("RegulatingTerminal"),
    "DanglingLine": undefined("P0", "Q0", "R", "X", "G", "B"),
    "dangling_line::Generation": undefined("MinP", "MaxP", "TargetP") + MINMAX + voltage_control("VoltageRegulationOn", "TargetV", "TargetQ"),
    "HvdcLine": undefined("R") + [lambda NominalV: nan(NominalV) or NominalV <= 0, lambda MaxP: nan(MaxP) or MaxP < 0,
                                  lambda ActivePowerSetpoint: nan(ActivePowerSetpoint) or ActivePowerSetpoint < 0] + missing("ConvertersMode"),
    "HvdcConverterStation": [lambda LossFactor: nan(LossFactor) or LossFactor < 0 or LossFactor > 100],
    "LccConverterStation": [lambda PowerFactor: nan(PowerFactor) or PowerFactor < -1 or PowerFactor > 1],
    "VscConverterStation": missing("VoltageRegulatorOn") + voltage_control("VoltageRegulatorOn", "VoltageSetpoint", "ReactivePowerSetpoint"),
    "Line": POWERS,
    "LineCharacteristics": POWERS,
    "tie_line::HalfLine": POWERS,
    "Load": undefined("P0", "Q0"),
    "LoadingLimits": [lambda PermanentLimit: le0(PermanentLimit)],
    "TapChanger": DEADBAND("Regulating") + missing("TapPosition") + [
        lambda TapPosition, LowTapPosition, StepCount: TapPosition is not None and not LowTapPosition <= TapPosition <= LowTapPosition + StepCount - 1,
        lambda Regulating, OthersRegulating: bool(Regulating) and OthersRegulating > 0] + foreign("RegulationTerminal"),
    "PhaseTapChanger": [lambda Regulating, RegulationMode, RegulationValue, RegulationTerminal: bool(Regulating) and (
        RegulationMode == "FIXED_TAP" or nan(RegulationValue) or not RegulationTerminal)],
    # the target and the terminal are only needed when the regulating tap changer can regulate under load
    "RatioTapChanger": [
        lambda Regulating, LoadTapChangingCapabilities, TargetV, RegulationTerminal: bool(Regulating) and bool(LoadTapChangingCapabilities) and (
            nan(TargetV) or TargetV <= 0 or not RegulationTerminal)],
    "ShuntCompensator": [lambda VoltageRegulatorOn, TargetV: bool(VoltageRegulatorOn) and (nan(TargetV) or TargetV <= 0)] + DEADBAND("VoltageRegulatorOn")
    + missing("SectionCount") + [lambda SectionCount, MaximumSectionCount: SectionCount is not None and (MaximumSectionCount == 0 or SectionCount > MaximumSectionCount)]
    + foreign("RegulatingTerminal"),
    "ShuntCompensatorLinearModel": undefined("BPerSection") + [lambda MaximumSectionCount: MaximumSectionCount is None or MaximumSectionCount == 0],
    "ShuntCompensatorNonLinearModel::Section": undefined("B", "G"),
    "StaticVarCompensator": undefined("Bmin", "Bmax") + missing("RegulationMode") + [
        lambda RegulationMode, VoltageSetpoint: RegulationMode == "VOLTAGE" and nan(VoltageSetpoint),
        lambda RegulationMode, ReactivePowerSetpoint: RegulationMode == "REACTIVE_POWER" and nan(ReactivePowerSetpoint)] + foreign("RegulatingTerminal"),
    "TwoWindingsTransformer": undefined("R", "X", "G", "B", "RatedU1", "RatedU2") + [lambda RatedS: le0(RatedS)],
    "three_windings_transformer::Leg": undefined("R", "X", "G", "B", "RatedU") + [lambda RatedS: le0(RatedS)],
    "VoltageLevel": [lambda NominalV: nan(NominalV) or NominalV <= 0, lambda LowVoltageLimit: neg(LowVoltageLimit), lambda HighVoltageLimit: neg(HighVoltageLimit),
                     lambda LowVoltageLimit, HighVoltageLimit: not nan(LowVoltageLimit) and not nan(HighVoltageLimit) and LowVoltageLimit > HighVoltageLimit],
    # the flow of a busbar section has no meaning, nor has the active power of a shunt compensator
    "Terminal": [lambda P, ConnectableType: ConnectableType == "BUSBAR_SECTION" or ConnectableType == "SHUNT_COMPENSATOR" and not nan(P),
                 lambda Q, ConnectableType: ConnectableType == "BUSBAR_SECTION"],
    "ConfiguredBus": [lambda V: neg(V)],
    "NodeTerminal": [lambda V: neg(V)],
    "extensions::LoadDetail": undefined("FixedActivePower", "FixedReactivePower", "VariableActivePower", "VariableReactivePower"),
    "extensions::entsoe::MergedXnode": [lambda Rdp: nan(Rdp) or Rdp < 0 or Rdp > 1, lambda Xdp: nan(Xdp) or Xdp < 0 or Xdp > 1]
    + undefined("XnodeP1", "XnodeQ1", "XnodeP2", "XnodeQ2") + empty("Code"),
    "extensions::entsoe::Xnode": empty("Code"),
    # a percentage outside 0..100 is only reported
    "extensions::iidm::CoordinatedReactiveControl": undefined("QPercent"),
    "extensions::iidm::HvdcAngleDroopActivePowerControl": undefined("Droop", "P0"),
    "extensions::iidm::HvdcOperatorActivePowerRange": [lambda OprFromCS1toCS2: neg(OprFromCS1toCS2), lambda OprFromCS2toCS1: neg(OprFromCS2toCS1)],
    "extensions::iidm::VoltagePerReactivePowerControl": [lambda Slope: nan(Slope) or Slope < 0],
    "extensions::iidm::TwoWindingsTransformerPhaseAngleClock": [lambda PhaseAngleClock: PhaseAngleClock is None or PhaseAngleClock > 11],
    "extensions::iidm::ThreeWindingsTransformerPhaseAngleClock": [lambda PhaseAngleClockLeg2: PhaseAngleClockLeg2 is None or PhaseAngleClockLeg2 > 11,
                                                                  lambda PhaseAngleClockLeg3: PhaseAngleClockLeg3 is None or PhaseAngleClockLeg3 > 11],
    "extensions::iidm::Measurement": [lambda Valid, Value: bool(Valid) and nan(Value)],
}
# what builders refuse of the values given to them, where the created object has no accessor of its own for them, or is
# only created later by the builder's parent
BUILDERS = {
    "BusbarSectionAdder": missing("Node"),
    "LoadingLimitsAdder::TemporaryLimitAdder": [lambda Value: nan(Value) or Value <= 0] + missing("AcceptableDuration") + empty("Name"),
    "MinMaxReactiveLimitsAdder": undefined("MinQ", "MaxQ") + [lambda MinQ, MaxQ: not nan(MinQ) and not nan(MaxQ) and MaxQ < MinQ],
    "ReactiveCapabilityCurveAdder::PointAdder": undefined("P", "MinQ", "MaxQ"),
    "PhaseTapChangerAdder::StepAdder": undefined("Alpha", "Rho", "R", "X", "G", "B"),
    "RatioTapChangerAdder::StepAdder": undefined("Rho", "R", "X", "G", "B"),
    "bus_breaker_view::SwitchAdder": empty("Bus1", "Bus2"),
    "node_breaker_view::SwitchAdder": missing("Node1", "Node2", "Kind"),
    "node_breaker_view::InternalConnectionAdder": missing("Node1", "Node2"),
    "TieLineAdder": empty("UcteXnodeCode"),
    "VoltageLevelAdder": missing("TopologyKind"),
    # a limit that is not given is the largest number
    "dangling_line::GenerationAdder": undefined("TargetP") + [lambda MinP, MaxP: (-HUGE if nan(MinP) else MinP) > (HUGE if nan(MaxP) else MaxP)]
    + voltage_control("VoltageRegulationOn", "TargetV", "TargetQ"),
    "shunt_compensator::ShuntCompensatorLinearModelAdder": undefined("BPerSection") + [lambda MaximumSectionCount: MaximumSectionCount is None or MaximumSectionCount == 0],
    "three_windings_transformer::LegAdder": undefined("R", "X", "G", "B", "RatedU") + [lambda RatedS: le0(RatedS)],
    "tie_line::HalfLineAdder": empty("Id") + POWERS,
    "extensions::entsoe::EntsoeAreaAdder": missing("Code"),
    "extensions::sld::BranchStatusAdder": missing("Status"),
    "extensions::sld::BusbarSectionPositionAdder": missing("BusbarIndex", "SectionIndex"),
    "extensions::sld::ConnectablePositionAdder::FeederAdder": empty("Name") + missing("Order", "Direction"),
}
# setters which are not one assignment: decided by C03
SKIP = {("TapChanger", "LowTapPosition"), ("ShuntCompensatorLinearModel", "MaximumSectionCount")}
# builders whose values are checked when they are handed to their parent, which creates the object later
PARTS = {"shunt_compensator::ShuntCompensatorNonLinearModelAdder::SectionAdder": "ShuntCompensatorNonLinearModel::Section"}
# objects made of parts that were checked on their own
WHOLES = ("TieLine",)


class Rule:
    def __init__(self, fn):
        self.fn = fn
        self.names = fn.__code__.co_varnames[:fn.__code__.co_argcount]
        self.consts = [c for c in fn.__code__.co_consts if isinstance(c, (int, float)) and not isinstance(c, bool)]

    def __call__(self, env):
        return self.fn(*[env[n] for n in self.names])


BUILD = {k: [Rule(f) for f in v] for k, v in BUILDERS.items()}
TABLE = {k: [Rule(f) for f in v] for k, v in RULES.items()}


def key(p, b):
    return strip_tpl(short(b))


def rules_of(p, cid):
    out, seen = [], set()
    for b in p.bases(cid):
        k = key(p, b)
        if k in TABLE and k not in seen:
            seen.add(k)
            out += TABLE[k]
    return out


def check(ctx):
    p = ctx.p
    for cid in c03.subject_classes(ctx):
        rs = rules_of(p, cid)
        if not rs:
            continue
        for m in p.classes[cid]["methods"]:
            f = m["f"]
            n = mname(f)
            if f in p.funcs and m["acc"] == "public" and n.startswith("set") and len(n) > 3 and len(p.funcs[f]["p"]) == 1:
                if not any((key(p, b), n[3:]) in SKIP for b in p.bases(cid)):
                    check_setter(ctx, cid, f, rs)
    for cid, f in c04.adders(ctx):
        check_creation(ctx, cid, f)
    check_owner(ctx)
    ctx.need("owner-known", 10)
    ctx.need("setter-domain", 100)
    ctx.need("creation-domain", 60)


def check_owner(ctx):
    """A reference that setters and their refusals go through is given to the object by its creation: otherwise every
    value is refused, since there is nothing behind the reference."""
    p = ctx.p
    calls = callers(p)
    for cid in c03.subject_classes(ctx):
        for fl in p.classes[cid].get("fields", []):
            if not fl["t"].replace("const ", "").startswith(("stdcxx::Reference<", "stdcxx::CReference<", "powsybl::stdcxx::Reference<")):
                continue
            inst = "%s.%s" % (short(cid), fl["n"])
            L = N("fld", THIS, fl["n"])
            writers = set()
            readers = False
            for f in ctx.methods(cid):
                if f not in p.funcs:
                    continue
                e = ctx.summary(f, lambda *a: False, "shallow", dyn=cid)
                for ev in e.events:
                    if ev.k == "store" and canon(ev.d[0]) is L and ev.d[1] is not NULL:
                        writers.add(f)
            ctx.inst("owner-known", inst)
            if writers and not any(p.funcs[f].get("kind") == "ctor" or p.funcs[f]["acc"] == "public" or any(c not in writers for c in calls.get(f, ())) or overrides_public(ctx, f, calls) for f in writers):
                ctx.viol("owner-known", inst, ctx.loc(sorted(writers)[0]), "%s is only set by %s, which nothing calls: every setter that goes through it refuses every value" % (inst, ", ".join(map(short, sorted(writers)))))


def overrides_public(ctx, f, calls):
    """The function is called through the function it overrides."""
    for c in ctx.p.classes.values():
        for m in c["methods"]:
            if m["f"] == f:
                return any(calls.get(o) or o not in ctx.p.funcs for o in (m.get("ov") or ()))
    return False


ALIAS = {"TargetP": "ActivePowerSetpoint", "TargetQ": "ReactivePowerSetpoint", "TargetV": "VoltageSetpoint"}


def attr_name(rs, x):
    names = {n for r in rs for n in r.names}
    if x not in names and ALIAS.get(x) in names:
        return ALIAS[x]
    return x


def where(ctx, T, names, sub=None):
    """attribute name -> location the accessor of T gives."""
    out = {}
    for nm in names:
        if nm in ("OthersRegulating",):
            out[nm] = N("othersRegulating")
            continue
        for g in c03.getters(ctx, T, "set" + nm):
            rv = ctx.summary(g, c03.policy, "c03", dyn=T).retvalue()
            if rv is not None:
                v = canon(c03.strip_copy(rv))
                if v.op == "call" and mname(v.a[0]) == mname(g) and v.a[1] is THIS:
                    continue
                out[nm] = v
                break
    return out


def check_setter(ctx, cid, f, rs):
    p = ctx.p
    nm = attr_name(rs, mname(f)[3:])
    es = ctx.summary(f, c03.policy, "c03", dyn=cid)
    if not es.rets:
        return
    mine = [r for r in rs if nm in r.names]
    inst = "%s::%s" % (short(cid), mname(f))
    F = pred.Formula(p, cid, {})
    for r in mine:
        F.consts |= set(r.consts)
    P = N("param", p.funcs[f]["p"][0]["n"])
    pt = p.funcs[f]["p"][0]["t"]
    names = sorted({n for r in rs for n in r.names})
    loc = where(ctx, cid, names)
    items, never = [], []
    for ev, gs in pred.refusals(es):
        gs = [(c05.normal(c), q) for c, q in gs]
        (never if c05.is_assertion(ev) else items).append((ev, F.compile(F.cond(gs)), c05.idx(F.cond(gs))))
    if not items and not mine:
        return
    ctx.inst("setter-domain", inst)
    # the inputs by name
    by = {}
    F.x(P, "any")
    by[F.leaves[P]] = nm
    F.types[P] = pt.replace("const ", "").replace("&", "").strip()
    back = {}
    for n, l in loc.items():
        if n != nm:
            back[F.norm(c05.normal(l))] = n
    old = F.norm(c05.normal(loc[nm])) if nm in loc else None
    for n, i in list(F.leaves.items()):
        if n is P:
            continue
        if n in back:
            by[i] = back[n]
        elif n.op == "samenet":
            t = F.norm(n.a[0])
            by[i] = (nm if t is P else back.get(t, "?")) + "_net"
        elif F.enums.get(n, "").endswith("ConnectableType"):
            by[i] = "ConnectableType"
        elif n is N("maxSections"):
            by[i] = "MaximumSectionCount"
    for r in mine:
        for n in r.names:
            if n not in by.values():
                l = loc.get(n)
                if n.endswith("_net"):
                    l = N("samenet", P if n[:-4] == nm else loc.get(n[:-4], N("none")))
                elif n == "ConnectableType":
                    l = N("connectableType")
                    F.enums[l] = next(k for k in p.enums if k.endswith("::ConnectableType"))
                elif n == "MaximumSectionCount" and l is None:
                    l = N("maxSections")
                if l is None:
                    ctx.undecided("setter-domain", inst, "no accessor for " + n)
                    return
                l = F.norm(c05.normal(l))
                F.x(l, "any")
                if l not in F.leaves:
                    ctx.undecided("setter-domain", inst, "%s is computed" % n)
                    return
                by[F.leaves[l]] = n
    nodes = list(F.leaves)
    for r in rs:
        if set(r.names) <= set(by.values()):
            F.consts |= set(r.consts)
    doms = [pred.domain(F, n, F.type_of(n) or hint(by.get(i)), F.consts, True, given=n is P and "optional" not in pt and "Reference" not in pt and "*" not in pt) for i, n in enumerate(nodes)]
    fix_domains(by, doms)
    ip = F.leaves[P]
    io = F.leaves.get(old) if old is not None else None
    rest = [i for i in range(len(nodes)) if i not in (ip, io)]
    size = 1
    for i in rest:
        size *= len(doms[i])
    if size * len(doms[ip]) > 300000:
        for i in rest:
            if len(doms[i]) > 6:
                doms[i] = pred.domain(F, nodes[i], F.type_of(nodes[i]) or hint(by.get(i)), F.consts, False)
        fix_domains(by, doms)
    other = [r for r in rs if nm not in r.names and set(r.names) <= set(by.values())]
    E = [d[0] for d in doms]
    used = {v: k for k, v in by.items()}
    for combo in itertools.product(*[doms[i] for i in rest]):
        for i, v in zip(rest, combo):
            E[i] = v
        env = {n: E[i] for n, i in used.items()}
        if any(r(env) for r in other):
            continue
        spec = []
        for v in doms[ip]:
            env[nm] = v
            spec.append(next((r for r in mine if r(env)), None))
        legal = [v for v, s in zip(doms[ip], spec) if s is None]
        if not legal:
            continue
        for o in (legal if io is not None else legal[:1]):
            if io is not None:
                E[io] = o
            for v, s in zip(doms[ip], spec):
                E[ip] = v
                if any(fn(E) for ev, fn, ls in never):
                    continue
                t = next((ev for ev, fn, ls in items if fn(E)), None)
                if (t is None) != (s is None):
                    w = ", ".join("%s = %r" % (by.get(i, show(nodes[i])[:40]), E[i]) for i in rest)
                    ctx.viol("setter-domain", inst, t.loc() if t is not None else ctx.loc(f), "%s %s %s = %r%s" % (
                        inst, "refuses the documented value" if t is not None else "accepts the undocumented value", nm, v, " with " + w if w else ""))
                    return


def hint(n):
    if n is None:
        return None
    if n.endswith("_net") or n in ("Regulating",):
        return "bool"
    if n in ("OthersRegulating", "StepCount", "MaximumSectionCount"):
        return "unsigned long"
    return None


def fix_domains(by, doms):
    for i, n in by.items():
        if n == "OthersRegulating":
            doms[i] = [0, 1, 2]
        elif n.endswith("_net"):
            doms[i] = [True, False]


def check_creation(ctx, cid, f):
    p = ctx.p
    e = ctx.summary(f, c04.policy, "c04", dyn=cid)
    prods = c04.main_products(p, e, p.funcs[f]["rt"])
    own = c05.own_fields(ctx, cid)
    st = c04.State(e)
    done = set()
    if key(p, cid) in PARTS:
        T = next((c for c in sorted(p.classes) if key(p, c).endswith(PARTS[key(p, cid)])), None)
        if T is not None:
            creation(ctx, cid, f, e, st, T, N("part"), own, rules_of(p, T))
    if key(p, cid) in BUILD and mname(f) != "build":
        creation(ctx, cid, f, e, st, cid, THIS, own, BUILD[key(p, cid)], True)
    for ev in prods:
        T = ev.d[1]
        O = canon(ev.d[2])
        if T in done or key(p, T) in WHOLES or key(p, T) in PARTS.values() or c04.root_is_part(ev, own, O, p.funcs[f]["rt"], T, p):
            continue
        done.add(T)
        rs = rules_of(p, T)
        if rs:
            creation(ctx, cid, f, e, st, T, O, own, rs)


def creation(ctx, cid, f, e, st, T, O, own, rs, given=False):
    p = ctx.p
    inst = "%s.%s" % (short(cid), mname(f))
    F = pred.Formula(p, cid, {})
    items = []
    fs = [f] + [b for b in ctx.methods(cid) if mname(f) == "build" and mname(b) == "add" and b in p.funcs]
    for b in fs:
        for ev, gs, src in c05.build_preds(p, F, ctx.summary(b, c04.policy, "c04", dyn=cid), c05.normal):
            if not c05.is_assertion(ev):
                items.append((ev, gs, F.compile(src), c05.idx(src)))
    names = sorted({n for r in rs for n in r.names})
    loc = where(ctx, T, [n for n in names if not n.endswith("_net")]) if not given else {}
    val, why = {}, {}
    inv = {}
    for x, l in own.items():
        inv.setdefault(attr_name(rs, c04.ALIAS.get(x, x)), l)
    src = {}
    for n in names:
        if n.endswith("_net"):
            continue
        if given and n in inv:
            v = c05.normal(inv[n])
        elif n == "OthersRegulating":
            v = N("othersRegulating")
        elif n == "MaximumSectionCount" and n not in inv:
            v = N("maxSections")
        elif n.endswith("Terminal") and n in inv:
            v = c05.normal(inv[n])
        elif n in loc:
            v = c05.normal(st.value(canon(rewrite(loc[n], lambda m: O if m is THIS else m))))
            if n == "StepCount":
                v = c05.normal(canon(rewrite(v, lambda m: m)))
        elif n in inv:
            v = c05.normal(inv[n])
        else:
            why[n] = "no accessor"
            continue
        if (c05.foreign(v) or contains(v, N("part"))) and n in inv:
            v = c05.normal(inv[n])
            if O is N("part"):      # what the builder holds when it is handed to its parent
                for s, _ in e.rets:
                    for l, w in s.heap.items():
                        if canon(l) is inv[n]:
                            v = c05.normal(w)
        if c05.foreign(v) or any(y.op in ("fill", "lv", "phi", "unk") for y in subnodes(v)):
            why[n] = show(v)[:80]
            continue
        src[n] = F.x(v, "any")
        t = [y for y in subnodes(v) if y.op == "fld"]
        if v in F.leaves and not F.type_of(v) and n in hints(T):
            F.types[v] = hints(T)[n]
        val[n] = F.compile(src[n])
    for n in names:
        if n.endswith("_net"):
            ns = [l for l in F.leaves if l.op == "samenet"]
            if len(ns) == 1:
                l = ns[0]
            elif not ns and n[:-4] in inv:
                l = N("samenet", c05.normal(inv[n[:-4]]))
            else:
                why[n] = "several terminals"
                continue
            src[n] = F.x(l, "any")
            val[n] = F.compile(src[n])
    usable = [r for r in rs if all(n in val for n in r.names)]
    for r in rs:
        if r not in usable:
            ns = [n for n in r.names if n not in val]
            ctx.undecided("creation-domain", "%s %s" % (inst, "/".join(r.names)), "; ".join("%s: %s" % (n, why.get(n)) for n in ns))
    if not usable:
        return
    for r in usable:
        ctx.inst("creation-domain", "%s %s" % (inst, "/".join(r.names)))
        F.consts |= set(r.consts)
    nodes = list(F.leaves)
    ty = [F.type_of(n) for n in nodes]
    doms = [pred.domain(F, n, ty[i], F.consts, True) for i, n in enumerate(nodes)]
    for n, i in F.leaves.items():
        if n is N("othersRegulating"):
            doms[i] = [0, 1, 2]
    preds = [(fn, ls, c05.near(F, gs)) for ev, gs, fn, ls in items]
    used = {}
    for r in usable:
        for n in r.names:
            for i in c05.idx(src[n]):
                used.setdefault(i, n)
    vary = sorted(used)
    rnd = random.Random(zlib.crc32(inst.encode()))
    bases = []
    for k in range(12):
        b = pred.find_base(random.Random(k * 7919 + zlib.crc32(inst.encode())), len(nodes), doms, preds)
        if b is not None and b not in bases:
            bases.append(b)
    if not bases:
        # nothing is accepted, or an input is not in the abstraction
        ctx.undecided("creation-domain", inst, "no accepted creation found in the abstraction")
        return

    # the same attribute of an object created before
    prior = []
    for n in names:
        if n in inv:
            for l, i in F.leaves.items():
                if l.op == "fld" and inv[n].op == "fld" and l.a[1] == inv[n].a[1] and l is not inv[n]:
                    prior += [(i, n, r) for r in usable if set(r.names) == {n}]

    def try_(E):
        if any(r({n: E[i]}) for i, n, r in prior):
            return False
        env = {n: v(E) for n, v in val.items()}
        s = next((r for r in usable if r(env)), None)
        t = next((it for it in items if it[2](E)), None)
        if (s is None) == (t is None):
            return False
        if t is not None and unexplained(t, E, env):
            return False
        w = ", ".join("%s = %r" % (n, env[n]) for n in (s.names if s is not None else sorted({used[i] for i in t[3] if i in used}) or ()))
        ctx.viol("creation-domain", inst + (" " + "/".join(s.names) if s is not None else " " + "/".join(sorted({used[i] for i in c05.near(F, t[1]) if i in used}))),
                 t[0].loc() if t is not None else ctx.loc(f), "%s %s %s" % (inst, "refuses the documented values" if t is not None else "accepts the undocumented values", w))
        return True

    def unexplained(t, E, env):
        """Refused for another reason than the attributes: an input that is not given to the builder is decisive."""
        d = c05.near(F, t[1])
        return not (d & set(vary)) or any(i not in used and not (nodes[i].op == "fld" and nodes[i].a[0] is THIS) for i in d)

    for b in bases:
        if try_(list(b)):
            return
        n = 0
        for E in neighbours(rnd, b, vary, doms):
            n += 1
            if try_(E):
                return


def hints(T):
    return {"StepCount": "unsigned long"}


def neighbours(rnd, b, vary, doms):
    for j in vary:
        for v in doms[j]:
            E = list(b)
            E[j] = v
            yield E
    pairs = [(j, k) for a, j in enumerate(vary) for k in vary[:a]]
    n = sum(len(doms[j]) * len(doms[k]) for j, k in pairs)
    for j, k in pairs:
        for v in (doms[j] if n < 20000 else rnd.sample(doms[j], min(6, len(doms[j])))):
            for w in (doms[k] if n < 20000 else rnd.sample(doms[k], min(6, len(doms[k])))):
                E = list(b)
                E[j] = v
                E[k] = w
                yield E
    for _ in range(2000):
        E = list(b)
        for j in rnd.sample(vary, min(len(vary), 3)):
            E[j] = rnd.choice(doms[j])
        yield E
