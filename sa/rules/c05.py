"""C05: creation and later changes refuse the same values, and a change is checked before it is stored."""
import itertools
import random
import re
import zlib

from common import *
from rules import c03, c04
import pred

# (class, attribute): why the two paths may differ (documented)
EXCEPT = {
    ("TapChanger", "LowTapPosition"): "changing the low tap position moves the current tap position along (C03, C06)",
    ("extensions::SlackTerminal", "Terminal"): "a slack terminal can be cleared, but not created without one",
}


def own_fields(ctx, cid):
    """builder attribute -> the single builder location its setter stores the argument to."""
    out = {}
    for x, ss in c04.setters(ctx, cid).items():
        fields = set()
        for fid, P, stores, se in ss:
            for ev, l, v in stores:
                if root(l) is THIS and c04.clean(v) is P:
                    fields.add(l)
        if len(fields) == 1:
            out[x] = next(iter(fields))
    return out


def samenet(n):
    """The terminal's network is this network, whatever way either is obtained."""
    a = None
    if n.op == "op" and n.a[0] == "==":
        a = n.a[1:3]
    elif n.op == "call" and mname(n.a[0]) == "areSame" and len(n.a[2]) == 2:
        a = n.a[2]
    if a and all(x.op == "call" and mname(x.a[0]) == "getNetwork" for x in a):
        for x in a:
            o = x.a[1]
            if o is not None and o.op == "fld" and o.a[1] == "m_voltageLevel":
                return N("samenet", o.a[0])
    return n


def same(n):
    if n.op == "call" and mname(n.a[0]) == "getMaximumSectionCount":
        return N("maxSections")
    if n.op == "op" and n.a[0] == "-" and n.a[1].op == "call" and mname(n.a[1].a[0]) == "getRegulatingTapChangerCount" and n.a[2].op == "ite" and [x.a[0] for x in n.a[2].a[1:] if x.op == "int"] == [1, 0]:
        return N("othersRegulating")   # without the tap changer itself, respectively the one it replaces
    return samenet(n)


def normal(n, memo=None):
    return rewrite(canon(n), same, memo if memo is not None else {})


def build_preds(p, F, e, sub):
    """Compiled refusals of a summary, with the guards rewritten by sub."""
    items = []
    for ev, gs in pred.refusals(e):
        gs = [(sub(c), q) for c, q in gs]
        items.append((ev, gs, F.cond(gs)))
    return items


def check(ctx):
    p = ctx.p
    done = set()
    for cid, f in c04.adders(ctx):
        try:
            compare(ctx, cid, f, done)
        except RecursionError:
            ctx.undecided("same-rules", short(cid), "too deep")
    check_order(ctx)
    ctx.need("same-rules", 100)
    ctx.need("check-first", 150)


def compare(ctx, cid, f, done):
    p = ctx.p
    e = ctx.summary(f, c04.policy, "c04", dyn=cid)
    prods = c04.main_products(p, e, p.funcs[f]["rt"])
    if not prods:
        return
    own = own_fields(ctx, cid)
    st = c04.State(e)
    for ev in prods:
        T = ev.d[1]
        O = canon(ev.d[2])
        if c04.root_is_part(ev, own, O, p.funcs[f]["rt"], T, p):
            continue
        for x in sorted(own):
            nm = c04.ALIAS.get(x, x)
            for s in setter_of(ctx, T, nm):
                compare_setter(ctx, cid, f, e, st, T, O, x, own, s, done)


def setter_of(ctx, T, nm):
    seen = set()
    for b in ctx.p.bases(T):
        for m in ctx.p.classes.get(b, {}).get("methods", []):
            f = m["f"]
            if mname(f) == "set" + nm and f in ctx.p.funcs and m["acc"] == "public" and len(ctx.p.funcs[f]["p"]) == 1:
                k = ctx.p.funcs[f]["p"][0]["t"]
                if k not in seen:       # the nearest override only
                    seen.add(k)
                    yield f


def compare_setter(ctx, cid, f, e, st, T, O, x, own, s, done):
    p = ctx.p
    inst = "%s.%s / %s" % (short(cid), mname(f), short(s))
    if inst in done or (strip_tpl(short(ctx.p.funcs[s].get("c", T))), x) in EXCEPT:
        return
    done.add(inst)
    es = ctx.summary(s, c03.policy, "c03", dyn=T)
    P = N("param", p.funcs[s]["p"][0]["n"])
    A = own[x]
    memo = {}

    pt = p.funcs[s]["p"][0]["t"]
    OLD = N("old", A)
    mine = {canon(ev.d[0]) for ev in es.events if ev.k == "store" and c03.strip_copy(canon(ev.d[1])) is P}

    def plain(m):
        """A condition on a plain boolean is its value."""
        if m.op == "un" and m.a[0] == "bool" and (m.a[1] is P and "optional" not in pt and "Reference" not in pt or re.search(r"\bbool\b", pred.field_type(p, T, m.a[1]) or "") and "optional" not in pred.field_type(p, T, m.a[1])):
            return N("val", m.a[1])
        return m

    def to_builder(n):
        def g(m):
            if m is P:
                return A
            if m in mine:
                return OLD
            if m is THIS:
                return O
            return m
        n = rewrite(canon(n), plain, pmemo)
        n = canon(pre(n, g, memo))
        return normal(st.value(n))
    pmemo = {}

    types = {}
    F = pred.Formula(p, cid, types)
    A = normal(A)
    types[OLD] = pred.field_type(p, cid, A)
    creators = [f] + [b for b in ctx.methods(cid) if mname(f) == "build" and mname(b) == "add" and b in p.funcs]
    cre = []
    for b in creators:
        cre += build_preds(p, F, ctx.summary(b, c04.policy, "c04", dyn=cid), normal)
    sub_set = build_preds(p, F, es, to_builder)
    ctx.inst("same-rules", inst)
    if not cre and not sub_set:
        return
    if A not in F.leaves:
        return    # neither path looks at the value
    kept = None
    for l in mine:
        v = normal(st.value(canon(rewrite(l, lambda m: O if m is THIS else m))))
        if not foreign(v):
            kept = F.compile(F.x(v, "any"))
    judge(ctx, cid, inst, F, A, OLD, cre, sub_set, pt, s, f, T, x, kept)


def pre(n, g, memo):
    """Top-down replacement: the outermost match wins."""
    r = memo.get(n)
    if r is None:
        r = g(n)
        if r is n and n.a:
            r = N(n.op, *[pre(a, g, memo) if isinstance(a, Node) else tuple(pre(b, g, memo) if isinstance(b, Node) else b for b in a) if isinstance(a, tuple) else a for a in n.a])
        memo[n] = r
    return r


def relevant(F, items, i):
    return [k for k, (ev, gs, src) in enumerate(items) if "E[%d]" % i in src]


def idx(src):
    return set(map(int, re.findall(r"E\[(\d+)\]", src)))


def near(F, gs):
    """The inputs of the condition that decides a refusal (those before it only say that nothing else was refused)."""
    return idx(F.cond([g for g in gs[-3:] if g[0].op != "imp"]))


def foreign(n):
    """An input of the setter that is not an input of the creation: a part of the created object that is not known."""
    return any(x.op in ("new", "obj") for x in subnodes(n))


def judge(ctx, cid, inst, F, A, OLD, cre, sset, pt, s, f, T, x, kept):
    p = ctx.p
    cre_l = [(ev, gs, F.compile(src), idx(src)) for ev, gs, src in cre]
    set_l = [(ev, gs, F.compile(src), idx(src)) for ev, gs, src in sset]
    nodes = list(F.leaves)
    ia = F.leaves[A]
    io = F.leaves.get(OLD)
    if any(foreign(nodes[i]) for _, _, _, ls in set_l for i in ls):
        ctx.undecided("same-rules", inst, "the setter looks at " + ", ".join(show(nodes[i])[:60] for _, _, _, ls in set_l for i in ls if foreign(nodes[i]))[:200])
        return
    dom_of = lambda n, rich: pred.domain(F, n, F.type_of(n), F.consts, rich, given=n is A and "optional" not in pt)
    doms = [dom_of(n, True) for n in nodes]
    rnd = random.Random(zlib.crc32(inst.encode()))
    base = pred.find_base(rnd, len(nodes), doms, [(fn, ls, near(F, gs)) for _, gs, fn, ls in cre_l])
    if base is None:
        ctx.undecided("same-rules", inst, "no accepted creation found in the abstraction")
        return
    # inputs that matter: those the setter looks at, those tested together with the attribute at creation
    rel = {ia}
    for _, gs, fn, ls in set_l:
        rel |= ls
    for _, gs, src in cre:
        ls = near(F, gs)
        if ia in ls:
            rel |= ls
    rest = sorted(rel - {ia} - ({io} if io is not None else set()))

    def size():
        k = len(doms[ia]) * (len(doms[io]) if io is not None else 1)
        for i in rest:
            k *= len(doms[i])
        return k
    if size() > 60000:
        for i in rest + [ia]:
            if len(doms[i]) > 6:
                doms[i] = dom_of(nodes[i], False)
    whole = size() <= 400000
    cre_f = [c for c in cre_l if c[3] & (rel | {ia})]
    E = list(base)
    for combo in (itertools.product(*[doms[i] for i in rest]) if whole else near_base(rnd, base, rest, doms)):
        for i, v in zip(rest, combo):
            E[i] = v
        verdict = {}
        for k, v in enumerate(doms[ia]):
            E[ia] = v
            verdict[k] = next((ev for ev, gs, fn, ls in cre_f if fn(E)), None)
        olds = [v for k, v in enumerate(doms[ia]) if verdict[k] is None]
        if not olds:
            continue
        for old in (olds if io is not None else olds[:1]):
            if io is not None:
                E[io] = old
            for k, v in enumerate(doms[ia]):
                E[ia] = v
                c = verdict[k]
                t = next((ev for ev, gs, fn, ls in set_l if fn(E)), None)
                if (c is None) == (t is None):
                    continue
                if c is None and kept is not None:
                    w = kept(E)
                    if w != v and not (w != w and v != v):
                        continue    # left out: the creation uses a default instead
                with_ = ", ".join("%s=%r" % (show(nodes[i])[:40], w) for i, w in zip(rest, combo))
                if t is None:
                    msg = "%s accepts %s = %r%s, which creation (%s) refuses (%s)" % (short(s), x, v, " with " + with_ if with_ else "", short(f), c.loc())
                else:
                    msg = "creation (%s) accepts %s = %r%s, which %s refuses (%s)" % (short(f), x, v, " with " + with_ if with_ else "", short(s), t.loc())
                ctx.viol("same-rules", "%s.%s" % (short(T), x), ctx.loc(s if t is None else f), msg)
                return


def near_base(rnd, base, rest, doms, count=8000):
    """Too many combinations: every pair of changes of the accepted one, then random ones."""
    b = tuple(base[i] for i in rest)
    yield b
    for j in range(len(rest)):
        for v in doms[rest[j]]:
            yield b[:j] + (v,) + b[j + 1:]
    for j in range(len(rest)):
        for k in range(j):
            for v in doms[rest[j]]:
                for w in doms[rest[k]]:
                    yield b[:k] + (w,) + b[k + 1:j] + (v,) + b[j + 1:]
    for _ in range(count):
        E = list(b)
        for j in rnd.sample(range(len(rest)), rnd.randint(3, max(3, len(rest))) if len(rest) > 3 else len(rest)):
            E[j] = rnd.choice(doms[rest[j]])
        yield tuple(E)


def check_order(ctx):
    """Nothing is stored before the last refusal of a setter."""
    p = ctx.p
    for cid in c03.subject_classes(ctx):
        for m in p.classes[cid]["methods"]:
            f = m["f"]
            if f not in p.funcs or m["acc"] != "public" or not mname(f).startswith("set") or not p.funcs[f]["p"]:
                continue
            order(ctx, cid, f)


def order(ctx, cid, f):
    e = ctx.summary(f, c03.policy, "c03", dyn=cid)
    ctx.inst("check-first", short(f))
    stores = []
    for ev in e.events:
        if ev.k == "store":
            l = canon(ev.d[0])
            if c03.external_root(l) and not c03.is_cache(l) and canon(ev.d[1]) is not l:
                stores.append((ev, l))
        elif ev.k == "throw" and not is_assertion(ev):
            for sv, l in stores:
                if not exclusive(sv, ev):
                    ctx.viol("check-first", short(f), ev.loc(), "%s can refuse the change after %s was already changed (%s)" % (short(f), show(l)[:60], sv.loc()))
                    return


def is_assertion(ev):
    """An assertion is not a refusal."""
    v = ev.d[0]
    return isinstance(v, Node) and v.op in ("new", "obj") and v.a[0].endswith("AssertionError")


def exclusive(a, b):
    """The two events cannot happen in one execution (contradicting guards)."""
    ga = {canon(c): q for c, q in a.g}
    for c, q in b.g:
        c = canon(c)
        if c in ga and ga[c] is not q:
            return True
    return False
