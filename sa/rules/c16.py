"""C16: a moved network (and each part that is moved with it) is the same network.

A *transfer constructor* takes its own class by rvalue, alone or with the new owner. From its summary (everything
inlined) every field of the destination must come from the same field of the source, be the new owner, or be something
that is recomputed; and whatever pointed to the old network must be pointed to the new one."""
import re
from common import *
from rules import c01, c08, c18

NET = "powsybl::iidm::Network"


def everything(f, rec, obj, depth):
    return True


def transfer_ctors(ctx):
    p = ctx.p
    out = []
    for f in sorted(p.funcs):
        r = p.funcs[f]
        if "::<ctor>(" not in f or r.get("body") is None or not (r.get("c") or "").startswith("powsybl::") or "/test/" in r["file"]:
            continue
        c = r["c"]
        ps = r.get("p") or []
        own = [x for x in ps if x["t"].replace("const ", "").strip() == c + " &&"]
        rest = [x for x in ps if x not in own]
        if len(own) == 1 and len(rest) <= 1:
            out.append((f, c, own[0]["n"], rest[0]["n"] if rest else None))
    return out


def peel(v):
    """Value without moves, copies and conversions of it."""
    while isinstance(v, Node):
        if v.op in ("obj", "new") and len(v.a) >= 3 and len(v.a[2]) == 1 and not str(v.a[0]).startswith("powsybl::"):
            v = v.a[2][0]
        elif v.op == "call" and mname(v.a[0]) in ("move", "forward", "ref", "cref") and v.a[2]:
            v = v.a[2][0]
        elif v.op == "un" and v.a[0] in ("*", "&"):
            v = v.a[1]
        else:
            return v
    return v


def parts(v):
    return [x for x in subnodes(v)] if isinstance(v, Node) else []


def has(v, w):
    return any(x is w or x == w for x in parts(v))


def is_ref_type(t):
    t = t.strip()
    return t.endswith("&") or t.endswith("*") or t.startswith("stdcxx::Reference<") or t.startswith("std::reference_wrapper<")


class Move:
    def __init__(self, ctx, f, cid, src, owner):
        self.ctx, self.f, self.cid = ctx, f, cid
        self.p = ctx.p
        self.e = ctx.summary(f, everything, "move", maxdepth=12)
        self.S = N("param", src)
        self.owner = N("param", owner) if owner else THIS
        self.title = strip_tpl(cid).replace("powsybl::iidm::", "")
        self.stores = {}
        for ev in self.e.events:
            if ev.k == "store" and isinstance(ev.d[0], Node):
                self.stores.setdefault(ev.d[0], []).append(ev)
        self.bases = {}
        for ev in self.e.events:
            if ev.k == "basector":
                self.bases[(ev.d[1], ev.d[2])] = ev

    def all(self):
        ctx = self.ctx
        self.object(THIS, self.S, self.cid, self.title)
        self.loops()
        self.owners()
        self.left()
        self.throws()

    # ---- every field comes from the same field of the source
    def object(self, D, S, cid, title, depth=0):
        ctx, p = self.ctx, self.p
        cr = p.classes.get(cid)
        if not cr or depth > 6:
            return
        for fl in cr["fields"]:
            if fl.get("static"):
                continue
            self.field(D, S, cid, fl, title, depth)
        for b in cr["bases"]:
            b = b["c"]
            if not p.all_fields(b):
                continue
            inst = "%s: base %s" % (title, strip_tpl(b).split("::")[-1])
            ctx.inst("moved", inst)
            ev = self.bases.get((b, D))
            if ev is None:
                ctx.viol("moved", inst, ctx.loc(self.f), "the base %s of the moved %s is built anew: what the source holds is lost" % (b, title))
                continue
            args = [peel(a) for a in ev.d[3]] if len(ev.d) > 3 else []
            r = p.funcs.get(ev.d[0])
            if r and r.get("body") is not None:
                self.object(D, S, b, title, depth + 1)
            elif not any(a == S for a in args):
                ctx.viol("moved", inst, ev.loc(), "the base %s of the moved %s is not built from the source: what the source holds is lost" % (b, title))

    def field(self, D, S, cid, fl, title, depth):
        ctx, p = self.ctx, self.p
        F = fl["n"]
        if re.match(r"(std|boost)::(\w*_)?(mutex|shared_mutex|condition_variable)\b", fl["t"]):
            return
        inst = "%s.%s" % (title, F)
        ctx.inst("moved", inst)
        loc = N("fld", D, F)
        SF = N("fld", S, F)
        evs = self.stores.get(loc)
        v = None
        if evs:
            ev = evs[-1]
            v = peel(ev.d[1])
            where = ev.loc()
            if [g for g, pol in ev.g if c18.ev3(g, static_env, {}) is None and not same_refusal(self.e, g, pol)] and not ev.loops:
                ctx.viol("moved", inst, where, "%s is only transferred under a condition" % inst)
                return
        else:
            where = ctx.loc(self.f)
            fill = [x for x in self.e.events if x.k == "call" and isinstance(x.d[3], Node) and x.d[3] == loc]
            if fill:
                self.filled(inst, SF, fill, fl)
                return
            if self.recomputed(cid, F):
                return
            ctx.viol("moved", inst, where, "%s is not taken from the source: the moved object loses it" % inst)
            return
        if is_ref_type(fl["t"]) and self.designates(fl["t"]):
            if v == self.owner or v == THIS:
                return
            if has(v, self.S):
                ctx.viol("old", inst, where, "%s still designates what the source belongs to" % inst)
                return
            ctx.viol("old", inst, where, "%s does not designate the new owner" % inst)
            return
        if v == SF:
            if self.captures(cid, F, SF):
                ctx.viol("old", inst, where, "%s is taken as it is from the source, but the source gave it a function that captures its owner" % inst)
            return
        if isinstance(v, Node) and v.op == "fld" and v.a[0] == S:
            ctx.viol("moved", inst, where, "%s is given the %s of the source" % (inst, v.a[1]))
            return
        q = self.e.pointee(v) if isinstance(v, Node) else v
        for o in (v, q):
            if isinstance(o, Node) and o.op in ("obj", "new"):
                oc = o.a[0]
                if has(o, SF):
                    if any(peel(a) == SF for a in o.a[2]):
                        self.object(o, SF, oc, inst, depth + 1)
                    else:
                        self.remade(o, SF, oc, inst, where)
                    return
                if self.rebuilt(oc, o):
                    if self.foreign(o):
                        ctx.viol("old", inst, where, "%s is rebuilt around the source" % inst)
                    return
        if isinstance(v, Node) and has(v, SF) and not fl["t"].startswith("powsybl::iidm"):
            return
        ctx.viol("moved", inst, where, "%s is not taken from the source: the moved object loses it" % inst)

    def remade(self, o, SF, oc, inst, where):
        """An object built from the values of the one it replaces: each of them in its own place."""
        ctx = self.ctx
        for fl in self.p.all_fields(oc):
            if isinstance(fl, tuple):
                fl = fl[-1]
            evs = self.stores.get(N("fld", o, fl["n"]))
            if not evs:
                continue
            i2 = "%s.%s" % (inst, fl["n"])
            ctx.inst("moved", i2)
            v = peel(evs[-1].d[1])
            if v == THIS or v == self.owner or v == o:
                continue
            if v == self.S:
                ctx.viol("old", i2, evs[-1].loc(), "%s still designates the source" % i2)
                continue
            if isinstance(v, Node) and v.op == "fld" and has(v, self.S):
                if v.a[1] != fl["n"]:
                    ctx.viol("moved", i2, evs[-1].loc(), "%s is given the %s of the source" % (i2, v.a[1]))
                continue
            src = [x for x in parts(v) if x.op in ("fld", "call") and has(x, self.S)]
            if src and not any(x.a[1] == fl["n"] if x.op == "fld" else accessor(mname(x.a[0]), fl["n"]) for x in src):
                ctx.viol("old", i2, evs[-1].loc(), "%s is derived from the source" % i2)

    def designates(self, t):
        """A reference to what owns the moved object, or to the moved object's own class."""
        m = re.search(r"powsybl::[\w:]+", t)
        if not m:
            return False
        c = m.group(0)
        owners = {self.cid}
        r = self.p.funcs[self.f]
        for x in r["p"]:
            owners.add(re.sub(r"\bconst\b|[&*]", "", x["t"]).strip())
        owners |= {NET}
        alls = set()
        for o in owners:
            alls.add(strip_tpl(o))
            for b in self.p.bases(o):
                alls.add(strip_tpl(b))
        return strip_tpl(c) in alls

    def recomputed(self, cid, F):
        caches = c08.find_caches(self.ctx)
        return (cid, F) in caches

    def rebuilt(self, oc, o):
        """The object holds nothing but references to its owner and what is computed from it."""
        p = self.p
        cr = p.classes.get(oc)
        if not cr:
            return False
        caches = c08.find_caches(self.ctx)
        for fl in p.all_fields(oc):
            if isinstance(fl, tuple):
                fl = fl[-1]
            if is_ref_type(fl["t"]) or "std::function<" in fl["t"]:
                continue
            if any((b, fl["n"]) in caches for b in [oc] + list(p.bases(oc))):
                continue
            if not caches_of_flag(p, oc, fl):
                return False
        return True

    def foreign(self, o):
        return has(o, self.S) or any(self.lam_uses_source(x) for x in parts(o) if x.op in ("lam", "lamv"))

    def lam_uses_source(self, l):
        fr = self.e.lams[l.a[0]] if hasattr(self.e, "lams") and isinstance(l.a[0], int) and l.a[0] < len(self.e.lams) else None
        if fr is None:
            return False
        lam, frame = fr[0], fr[1]
        name = self.S.a[0]
        return any(k.startswith(name + "#") for k in vars_of(lam))

    def captures(self, cid, F, SF):
        """The field holds a function given by a constructor that captures this object or its owner."""
        for fl in self.p.classes[cid]["fields"]:
            if fl["n"] == F and "std::function<" in fl["t"]:
                break
        else:
            return False
        p = self.p
        for g in users_of_ctors(p, cid):
            for lam in lambdas_in(p.funcs[g].get("inits") or []):
                if any(c for c in (lam.get("caps") or lam.get("cap") or [])) or any(x.get("k") == "this" for x in c18.walk(lam) if isinstance(x, dict)):
                    return True
        return False

    def filled(self, inst, SF, fill, fl):
        """A container filled by the constructor: one entry for each entry of the source's, in order."""
        ctx = self.ctx
        ok = []
        for ev in fill:
            lp = [l for l in ev.loops if l[0] == "range" and isinstance(l[1], Node) and has(l[1], SF)]
            if lp and mname(ev.d[0]) in ("emplace_back", "push_back", "emplace", "insert"):
                ok.append(ev)
            elif mname(ev.d[0]) not in ("reserve", "resize", "size", "begin", "end", "empty"):
                ctx.viol("moved", inst, ev.loc(), "%s is not filled from the source's" % inst)
                return
        if not ok:
            ctx.viol("moved", inst, fill[0].loc(), "%s is not filled from the source's" % inst)
            return
        if any(mname(ev.d[0]) == "resize" for ev in fill):
            ctx.viol("moved", inst, fill[0].loc(), "%s gets entries the source does not have" % inst)
            return
        for ev in ok:
            self.in_place(inst, SF, ev)
        gs = [frozenset((canon(c), pol) for c, pol in ev.g) for ev in ok]
        if frozenset() in gs:
            if len(gs) > 1:
                ctx.viol("moved", inst, ok[0].loc(), "%s gets several entries for one entry of the source" % inst)
            return
        if len(gs) == 2 and len(gs[0]) == 1 and len(gs[1]) == 1:
            (c1, p1), (c2, p2) = list(gs[0])[0], list(gs[1])[0]
            if c1 == c2 and p1 != p2:
                return
        ctx.viol("moved", inst, ok[0].loc(), "%s has no entry for some entries of the source: the following ones change places" % inst)

    def in_place(self, inst, SF, ev):
        """The values an entry is rebuilt from keep the places they have in its constructor."""
        ctx, p = self.ctx, self.p
        for a in ev.d[4]:
            for v in parts(a):
                if v.op not in ("call", "obj", "new") or v.op == "call" and mname(v.a[0]) in ("move", "forward"):
                    continue
                args = v.a[2] if len(v.a) > 2 else ()
                for i, x in enumerate(args or ()):
                    x = peel(x)
                    if not (isinstance(x, Node) and x.op == "fld" and isinstance(x.a[0], Node) and any(y.op == "elem" and y.a[0] == SF for y in parts(x.a[0]))):
                        continue
                    for c in sorted(p.classes):
                        if any(fl["n"] == x.a[1] for fl in p.classes[c]["fields"]) and c in str(self.p_type(SF.a[1])):
                            order = ctor_order(ctx, c)
                            if order and (i >= len(order) or order[i] != x.a[1]):
                                ctx.viol("moved", inst, ev.loc(), "the entries of %s are rebuilt with %s in the place of %s" % (inst, x.a[1], order[i] if i < len(order) else "nothing"))

    def p_type(self, F):
        for c in self.p.classes:
            for fl in self.p.classes[c]["fields"]:
                if fl["n"] == F and c.startswith("powsybl::iidm"):
                    if any(c == x or c in self.p.bases(x) for x in [self.cid]):
                        return fl["t"]
        return ""

    # ---- loops over the source's containers
    def loops(self):
        ctx, p = self.ctx, self.p
        null = nullable(ctx)
        for ev in self.e.events:
            if ev.k not in ("ctor", "enter", "call"):
                continue
            for l in ev.loops:
                if l[0] != "range" or not isinstance(l[1], Node) or l[1].op != "fld" or not has(l[1], self.S):
                    continue
                F = l[1].a[1]
                own = [c for c, n in null if n == F]
                if not own:
                    continue
                inst = "%s: entries of %s" % (self.title, F)
                ctx.inst("slot", inst)
                el = [x for a in ev.d if isinstance(a, Node) or isinstance(a, tuple) for x in (parts(a) if isinstance(a, Node) else [y for z in a if isinstance(z, Node) for y in parts(z)]) if x.op == "elem" and x.a[0] == l[1]]
                if not el:
                    continue
                if ev.k == "call" and mname(ev.d[0]) in ("emplace_back", "push_back") and all(peel(a).op == "elem" for a in ev.d[4] if isinstance(a, Node)):
                    continue
                if ev.k == "call" and mname(ev.d[0]) in ("emplace_back", "push_back"):
                    continue
                if not any(pol and present(c, el[0]) for c, pol in ev.g):
                    ctx.viol("slot", inst, ev.loc(), "an entry of %s, which is empty once its variant was removed, is used without looking whether it is there" % F)
                    return

    # ---- what the source belongs to is given to nothing
    def owners(self):
        ctx, p = self.ctx, self.p
        names = set()
        for _, c, _, _ in transfer_ctors(ctx):
            for fl in p.all_fields(c):
                if isinstance(fl, tuple):
                    fl = fl[-1]
                if is_ref_type(fl["t"]) and self.designates(fl["t"]):
                    names.add(fl["n"])
        names -= {"m_parent"}
        inst = "%s: old owner" % self.title
        ctx.inst("old", inst)

        def old(v):
            return isinstance(v, Node) and v.op == "fld" and v.a[1] in names and has(v, self.S)
        for ev in self.e.events:
            args = []
            if ev.k == "ctor" or ev.k == "basector":
                args = ev.d[3] if len(ev.d) > 3 else []
            elif ev.k in ("call", "enter"):
                args = ev.d[4]
            elif ev.k == "store":
                args = [ev.d[1]]
            for a in args or []:
                v = peel(a)
                if old(v) or (isinstance(v, Node) and v.op in ("obj", "new") and any(old(peel(x)) for x in v.a[2])):
                    ctx.viol("old", inst, ev.loc(), "what the source belongs to (%s) is given to a part of the destination" % show(v)[:60])
                    return

    # ---- every entry of a container is looked at
    def left(self):
        ctx, p = self.ctx, self.p
        done = set()
        for ev in self.e.events:
            for l in ev.loops:
                if l[0] not in ("range", "for", "while") or len(l) < 3:
                    continue
                fs = [self.f] + [x.d[0] for x in self.e.events if x.k in ("enter", "ctor", "basector")]
                for g in fs:
                    if g in done:
                        continue
                    done.add(g)
                    r = p.funcs.get(g)
                    if not r or not r.get("body") or not (r.get("c") or "").startswith("powsybl::"):
                        continue
                    for y in nodes_of(r["body"]):
                        if y.get("k") in ("range", "for", "forrange", "while", "rfor") and any(z.get("k") in ("break", "return") for z in nodes_of(y)):
                            if r.get("c") in {c for _, c, _, _ in transfer_ctors(ctx)}:
                                ctx.viol("moved", "%s: %s" % (self.title, mname(g)), "%s:%s" % (r["file"], y.get("l") or r["line"]), "the loop over what is moved is left before its end")

    # ---- a move does not fail
    def throws(self):
        ctx = self.ctx
        inst = "%s: no refusal" % self.title
        ctx.inst("throws", inst)
        for ev in self.e.events:
            if ev.k != "throw":
                continue
            if any(c18.ev3(c, static_env, {}) is (not pol) for c, pol in ev.g):
                continue
            if ev.loc() in self.checked():
                continue          # a value the source's own constructor accepted
            ctx.viol("throws", inst, ev.loc(), "moving %s can be refused (%s)" % (self.title, show(ev.d[0])[:80]))
            return


    def checked(self):
        if not hasattr(self, "_checked"):
            self._checked = set()
            for g in sorted(self.p.funcs):
                r = self.p.funcs[g]
                if r.get("c") == self.cid and "::<ctor>(" in g and g != self.f and r.get("body") is not None:
                    self._checked |= {ev.loc() for ev in self.ctx.summary(g, everything, "move", maxdepth=12).events if ev.k == "throw"}
        return self._checked


def static_env(n):
    if isinstance(n, Node):
        if n.op == "un" and n.a[0] == "bool":
            x = n.a[1]
            if x.op == "null":
                return False
            if x == THIS:
                return True
        if n.op == "bool":
            return bool(n.a[0])
        if n.op == "null":
            return False
    return None


def ctor_order(ctx, c):
    """The field that each parameter of the constructor of a class is stored in."""
    p = ctx.p
    for f in sorted(p.funcs):
        r = p.funcs[f]
        if r.get("c") == c and "::<ctor>(" in f and (r.get("p") or []) and r.get("body") is not None and not r.get("mv"):
            e = ctx.summary(f, everything, "selfref", maxdepth=4)
            out = []
            for x in r["p"]:
                got = [ev.d[0].a[1] for ev in e.events if ev.k == "store" and isinstance(ev.d[0], Node) and ev.d[0].op == "fld" and peel(ev.d[1]) == N("param", x["n"])]
                out.append(got[0] if got else None)
            if any(out):
                return out
    return None


def accessor(m, F):
    return re.sub(r"^(get|is)", "", m).lower() == re.sub(r"^m_", "", F).lower()


def present(c, el):
    c = canon(c)
    return any(x == canon(el) for x in parts(c))


def caches_of_flag(p, oc, fl):
    """A flag or container that goes with a cache: refilled by the methods that fill it, emptied by those that empty it."""
    t = fl["t"]
    return t == "bool" or t.startswith("stdcxx::optional<") or fl.get("mutable")


def vars_of(x):
    out = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if y.get("k") == "var" and isinstance(y.get("d"), str):
                out.add(y["d"])
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)
    return out


def nodes_of(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def lambdas_in(x):
    return [y for y in nodes_of(x) if y.get("k") in ("lam", "lambda")]


def users_of_ctors(p, cid):
    return [f for f, r in p.funcs.items() if "::<ctor>(" in f and any(b == cid or cid in p.bases(r.get("c") or "") for b in [r.get("c")]) and r.get("c") in p.classes]


_null = {}


def nullable(ctx):
    """(class, field): containers of owners of which a method empties an entry."""
    p = ctx.p
    if id(p) in _null:
        return _null[id(p)]
    out = set()
    for f, r in p.funcs.items():
        if not r.get("body"):
            continue
        for y in nodes_of(r["body"]):
            if y.get("k") == "call" and y.get("n") == "reset" and all(a.get("k") in ("zero", "null", "defarg") for a in y.get("a") or []):
                o = y.get("o") or {}
                for z in nodes_of(o):
                    if z.get("k") == "mem" and z.get("b", {}).get("k") == "this" and o.get("k") != "mem":
                        out.add((r.get("c"), z["f"]))
    _null[id(p)] = out
    return out


# ---- nothing of the source is read once it was moved away
def check_moved_from(ctx, f, cid, src):
    p = ctx.p
    r = p.funcs[f]
    gone = {}
    whole = []
    inst = "%s: order" % strip_tpl(cid).replace("powsybl::iidm::", "")
    ctx.inst("moved-from", inst)
    reads = reads_of(p)

    def own(v):
        return v.get("k") == "var" and str(v.get("d", "")).startswith(src + "#")

    def use(x, l):
        """Looks at an expression in source order; collects the moves."""
        moves = []
        skip = set()
        for y in nodes_of(x):
            if y.get("k") == "call" and y.get("f") == "std::move" and y.get("a"):
                a = y["a"][0]
                if a.get("k") == "mem" and own(a.get("b", {})):
                    moves.append((a["f"], y.get("l")))
                    skip.add(id(a))
        for y in nodes_of(x):
            if y.get("k") == "mem" and id(y) not in skip and own(y.get("b", {})) and y.get("f") in gone:
                ctx.viol("moved-from", inst, "%s:%s" % (r["file"], y.get("l") or r["line"]), "%s of the source is read after it was moved away (line %s)" % (y["f"], gone[y["f"]]))
            if y.get("k") == "call" and own(y.get("o") or {}):
                for F in sorted(reads.get(y.get("f"), ()) & set(gone)):
                    ctx.viol("moved-from", inst, "%s:%s" % (r["file"], y.get("l") or r["line"]), "%s of the source is read by %s after it was moved away" % (F, y.get("n")))
        for F, ln in moves:
            if F in gone:
                continue
            gone[F] = ln
    for i in r.get("inits") or []:
        use(i.get("e"), i.get("l"))
        if i.get("b") and i.get("w"):
            # a base moved as a whole takes the fields of that base
            for fl in p.all_fields(i["b"]):
                if isinstance(fl, tuple):
                    fl = fl[-1]
                if any(y.get("k") == "call" and y.get("f") == "std::move" and own((y.get("a") or [{}])[0]) for y in nodes_of(i.get("e"))) and not trivially_copied(fl["t"]):
                    gone.setdefault(fl["n"], i.get("l"))
    for s in (r["body"].get("b") or []):
        use(s, None)


def trivially_copied(t):
    return t in ("int", "bool", "double", "unsigned long", "unsigned int") or t.endswith("&") or t.endswith("Type")


_reads = {}


def reads_of(p):
    """Function -> fields of its own object it reads, directly or through its own methods."""
    if id(p) in _reads:
        return _reads[id(p)]
    direct, calls = {}, {}
    for f, r in p.funcs.items():
        if not r.get("body"):
            continue
        direct[f] = {y["f"] for y in nodes_of(r["body"]) if y.get("k") == "mem" and y.get("b", {}).get("k") == "this"}
        calls[f] = {y.get("f") for y in nodes_of(r["body"]) if y.get("k") == "call" and (y.get("o") or {}).get("k") == "this"}
    change = True
    while change:
        change = False
        for f in direct:
            n = len(direct[f])
            for g in calls[f]:
                direct[f] |= direct.get(g, set())
            change |= len(direct[f]) != n
    _reads[id(p)] = direct
    return direct


# ---- whatever designates the network designates the new one
def owned_classes(ctx):
    """Classes of the objects that live in a network: elements, extensions and what they hold, directly or not."""
    p = ctx.p
    seen = set()
    bases = set()
    todo = [c for c in p.classes if c.startswith("powsybl::iidm") and any(b in ("powsybl::iidm::Identifiable", "powsybl::iidm::Extension") for b in [c] + list(p.bases(c)))]
    while todo:
        c = todo.pop()
        if c in seen or c not in p.classes:
            continue
        seen.add(c)
        todo += [b for b in p.bases(c) if b not in seen]
        bases |= set(p.bases(c)) - {c}
        if c not in bases:
            todo += [d for d in p.subclasses(c) if d.startswith("powsybl::")]
        for fl in p.classes[c]["fields"]:
            t = fl["t"]
            if is_ref_type(t) or fl.get("static"):
                continue
            t = re.sub(r"(stdcxx::Reference|std::reference_wrapper)<[^<>]*>", "", t)
            t = re.sub(r"std::function<.*", "", t)
            for k in p.classes:
                if k in t and k.startswith("powsybl::") and re.search(r"(?<![\w:])" + re.escape(k) + r"(?![\w:])(?! ?[&*])", t):
                    todo.append(k)
    return seen


def check_references(ctx, mv):
    p = ctx.p
    netty = [NET] + list(p.bases(NET))
    pat = re.compile(r"(?<![\w:])(%s)(?: const)? ?[&*>]" % "|".join(re.escape(x) for x in netty))
    owned = owned_classes(ctx)
    transferred = {c for _, c, _, _ in transfer_ctors(ctx)}
    for c in sorted(owned):
        for fl in p.classes[c]["fields"]:
            t = fl["t"]
            if "std::function<" in t or not is_ref_type(t):
                continue
            m = pat.search(t)
            if not m:
                continue
            inst = "%s.%s" % (c.replace("powsybl::iidm::", ""), fl["n"])
            if c in transferred or any(b in transferred for b in p.bases(c)):
                continue          # set by its own transfer constructor
            if c.startswith("powsybl::iidm::network::") or c == "powsybl::iidm::Component" or "Variant<" in c or "VariantArray<" in c:
                # rebuilt with its owner: decided by the rule moved
                continue
            ctx.inst("follows", inst)
            up = [ev for ev in mv.e.events if ev.k == "store" and isinstance(ev.d[0], Node) and fl["n"] in chain_names(ev.d[0]) and peel(ev.d[1]) == THIS and any(l[0] in ("range", "cb") for l in ev.loops)]
            if m.group(1) != NET and not up:
                if never_network(ctx, c, fl):
                    continue
            if not up:
                ctx.viol("follows", inst, ctx.loc(mv.f), "%s may designate the network and is not given the new one when the network is moved" % inst)
                continue
            ev = up[-1]
            lp = [l for l in ev.loops if l[0] in ("range", "cb")][-1]
            # only the refusals the function itself makes may condition it
            extra = [(g, pol) for g, pol in ev.g if c18.ev3(g, static_env, {}) is None and not same_refusal(mv.e, g, pol)]
            if extra:
                ctx.viol("follows", inst, ev.loc(), "%s is only given the new network when %s" % (inst, show(extra[0][0])[:80]))
            cont = lp[1]
            if isinstance(cont, Node) and not all_of(ctx, cont, c, mv):
                ctx.viol("follows", inst, ev.loc(), "the loop that gives the new network to %s does not run over all of them" % inst)
            st = [s for s in ev.stack] if getattr(ev, "stack", None) else []
            for s in st:
                sid = s if isinstance(s, str) else (s[0] if isinstance(s, tuple) and s and isinstance(s[0], str) else "")
                if "::<ctor>(" in sid and p.funcs.get(sid, {}).get("c") in set(p.bases(NET)) - {NET}:
                    ctx.viol("follows", inst, ev.loc(), "%s is given the new network while that is not yet a network (constructor of a base)" % inst)


def same_refusal(e, g, pol):
    """The condition is the complement of one under which the same function throws."""
    for t in e.events:
        if t.k == "throw" and any(c == g or has(g, c) or has(c, g) for c, q in t.g):
            return True
    return False


def chain_names(n):
    out = []
    while isinstance(n, Node) and n.op in ("fld", "at", "elem"):
        if n.op == "fld":
            out.append(n.a[1])
        n = n.a[0]
    return out


def all_of(ctx, cont, c, mv):
    """The container is the index of all elements of that kind, or the field that owns the objects."""
    p = ctx.p
    kinds = {c} | set(p.subclasses(c))
    for k in list(kinds):
        kinds |= {h for h in p.classes if any(k == x["t"] for x in p.classes[h]["fields"])}
    tids = [x.a[0] for x in parts(cont) if x.op == "typeid"] + [str(x.a) for x in parts(cont) if x.op == "typeid"]
    if any(x.op == "fld" and x.a[1] == "m_objectsById" for x in parts(cont)):
        return True
    txt = show(cont)
    if "filter" in txt or "find_if" in txt:
        return False
    if any(x.op == "fld" and "byName" in x.a[1] or x.op == "fld" and "ByName" in x.a[1] for x in parts(cont)):
        return True
    return any("typeid(%s)" % k in txt for k in kinds) or cont.op in ("fld",)


def never_network(ctx, c, fl):
    """Every value given to a field that designates a base of Network is an object of another kind."""
    p = ctx.p
    F = fl["n"]
    todo, seen = [], set()
    for f, r in p.funcs.items():
        if r.get("c") != c or not (r.get("body") or r.get("inits")):
            continue
        for i in r.get("inits") or []:
            if i.get("f") == F:
                todo += [(f, v) for v in vars_of(i.get("e"))]
        for y in nodes_of(r.get("body") or {}):
            if y.get("k") in ("bin", "call") and y.get("o") in ("=",) or y.get("n") == "operator=":
                tgt = y.get("a")
                if any(z.get("k") == "mem" and z.get("f") == F for z in nodes_of(y)):
                    todo += [(f, v) for v in vars_of(y)]
    cs = None
    while todo:
        f, v = todo.pop()
        if (f, v) in seen:
            continue
        seen.add((f, v))
        ps = p.funcs[f].get("p") or []
        idx = [i for i, x in enumerate(ps) if v == "%s#%s" % (x["n"], i) or v.split("#")[0] == x["n"]]
        if not idx:
            continue
        for g in callers(p).get(f, ()):
            for y in nodes_of([p.funcs[g].get("body") or {}, p.funcs[g].get("inits") or []]):
                if y.get("f") == f and y.get("k") in ("call", "ctor") and len(y.get("a") or []) > idx[0]:
                    a = y["a"][idx[0]]
                    ks = list(nodes_of(a))
                    if any(z.get("k") == "this" for z in ks):
                        gc = p.funcs[g].get("c")
                        if gc == NET or gc in p.bases(NET):
                            return False
                    else:
                        for w in vars_of(a):
                            todo.append((g, w))
    return True


# ---- the index of the network by identifier and by type
def check_self(ctx, mv):
    p = ctx.p
    idx = [c for c in p.classes if c == "powsybl::iidm::NetworkIndex"]
    for c in idx:
        for fl in p.classes[c]["fields"]:
            if "Identifiable" not in fl["t"]:
                continue
            inst = "NetworkIndex.%s" % fl["n"]
            ctx.inst("self", inst)
            up = [ev for ev in mv.e.events if ev.k == "store" and isinstance(ev.d[0], Node) and ev.d[0].op in ("at", "fld", "elem") and fl["n"] in chain_names(ev.d[0]) and ev.d[0].op != "fld" and peel(ev.d[1]) == THIS]
            up = [ev for ev in up if not [g for g in ev.g if c18.ev3(g[0], static_env, {}) is None]]
            if not up:
                ctx.viol("self", inst, ctx.loc(mv.f), "the entry of the network in %s is not replaced when the network is moved: it designates the old one" % inst)


def check_defaulted(ctx):
    """A class that is moved member by member holds no reference to itself."""
    p = ctx.p
    for c in sorted(p.classes):
        if not c.startswith("powsybl::") or "/test/" in p.classes[c]["file"]:
            continue
        mvs = [m for m in p.classes[c]["methods"] if "::<ctor>(" in m["f"] and m.get("mv") and m.get("defaulted") and not m.get("deleted")]
        if not mvs:
            continue
        ctx.inst("self-reference", c)
        for f in sorted(p.funcs):
            r = p.funcs[f]
            if r.get("c") != c or "::<ctor>(" not in f or not (r.get("inits") or r.get("body")):
                continue
            e = ctx.summary(f, everything, "selfref", maxdepth=4)
            for ev in e.events:
                if ev.k == "store" and isinstance(ev.d[0], Node) and root(ev.d[0]) == THIS and peel(ev.d[1]) == THIS:
                    ctx.viol("self-reference", c, ev.loc(), "%s holds a reference to itself but is moved member by member: the copy refers to the old object" % c)
                    break


def check(ctx):
    p = ctx.p
    net = None
    for f, c, src, owner in transfer_ctors(ctx):
        mv = Move(ctx, f, c, src, owner)
        mv.all()
        check_moved_from(ctx, f, c, src)
        if c == NET:
            net = mv
    ctx.need("moved", 20)
    if net is None:
        ctx.viol("moved", "Network", "include/powsybl/iidm/Network.hpp:1", "the network has no move constructor that gives its elements the new network")
    else:
        check_references(ctx, net)
        check_self(ctx, net)
    check_defaulted(ctx)
