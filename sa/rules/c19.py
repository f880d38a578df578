"""C19: state guarded by a lock is only touched under it, no lock is acquired twice, every lock is scoped."""
from common import *

GUARDS = ("lock_guard<", "unique_lock<", "scoped_lock<", "shared_lock<")
MUTEXES = ("mutex", "recursive_mutex", "shared_mutex", "timed_mutex", "recursive_timed_mutex", "shared_timed_mutex")
SCALAR = ("unsigned long", "long", "int", "unsigned int", "bool", "double", "float", "char", "size_t", "unsigned char")


def plain(t):
    return t.replace("const ", "").replace("&", "").strip()


def is_mutex(t):
    t = plain(t)
    return "boost::" + t.split("::")[-1] == t and t.split("::")[-1] in MUTEXES or t.startswith("std::") and t[5:] in MUTEXES


def is_guard(t):
    t = plain(t)
    return any(t.startswith(("std::" + g, "boost::" + g)) for g in GUARDS)


def mutexes_in(x):
    """The mutex members an expression mentions."""
    out = []
    todo = [x]
    while todo:
        n = todo.pop()
        if isinstance(n, dict):
            if n.get("k") in ("mem",) and is_mutex(n.get("t", "")):
                out.append((n.get("c"), n.get("f")))
            elif n.get("k") == "var" and is_mutex(n.get("t", "")):
                out.append((None, n.get("d")))
            todo.extend(v for v in n.values() if isinstance(v, (dict, list)))
        elif isinstance(n, list):
            todo.extend(n)
    return out


class Walk:
    """Visits a body with the set of locks held at each node."""

    def __init__(self, on):
        self.on = on
        self.acquired = []       # (mutex, line, held before, rest of the region)
        self.hand = []           # direct lock()/unlock()
        self.temps = []          # guards that die at once

    def stmt(self, x, held):
        if isinstance(x, list):
            for y in x:
                self.stmt(y, held)
            return
        if not isinstance(x, dict):
            return
        k = x.get("k")
        if k == "block":
            h = held
            for s in x.get("b", ()):
                h = self.one(s, h)
            return
        self.on(x, held)
        if k == "ctor" and is_guard(x.get("t", "")) and x.get("a"):
            self.temps.append((x, held))
        if k == "call" and x.get("n") in ("lock", "unlock", "try_lock", "lock_shared", "unlock_shared") and x.get("o") is not None and is_mutex(x.get("ot", "")):
            self.hand.append(x)
        if k == "for":
            # a guard declared in the head holds in the body
            h = held
            if isinstance(x.get("i"), dict):
                h = self.one(x["i"], h)
            for kk, v in x.items():
                if kk != "i":
                    self.stmt(v, h)
            return
        for v in x.values():
            if isinstance(v, (dict, list)):
                self.stmt(v, held)

    def one(self, s, held):
        """A statement of a block; returns the locks held after it."""
        if isinstance(s, dict) and s.get("k") == "decl":
            for v in s.get("v", ()):
                init = v.get("init")
                if is_guard(v.get("t", "")):
                    self.on(v, held)
                    args = (init or {}).get("a", [])
                    ms = mutexes_in(init)
                    deferred = len(args) > 1 and "scoped_lock" not in v.get("t", "")
                    adopt = any("adopt_lock" in str(a) for a in args)
                    if ms and (not deferred or adopt):
                        for m in ms:
                            self.acquired.append((m, v.get("l"), held))
                        held = held | frozenset(ms)
                else:
                    self.on(v, held)
                    if init is not None:
                        self.stmt(init, held)
            return held
        self.stmt(s, held)
        return held


def fields_of(p, cid):
    return {x["n"]: x for x in p.classes.get(cid, {}).get("fields", ())}


CONST_OK = ("operator->", "operator*", "get")


def accesses(p, body, held0=frozenset()):
    """[(class, field, modifies, held, line, node)] of every member access in a body, and the walk."""
    out = []
    mods = set()

    def on(x, held):
        k = x.get("k")
        if k == "bin" and x.get("o", "").endswith("=") and x.get("o") not in ("==", "!=", "<=", ">="):
            mark(x.get("a"))
        elif k in ("assign", "cassign"):
            mark(x.get("a"))
        elif k == "un" and x.get("o") in ("++", "--", "p++", "p--", "post++", "post--"):
            mark(x.get("a"))
        elif k == "idx":
            pass
        elif k == "call":
            o = x.get("o")
            if o is not None and not x.get("ot", "const ").startswith("const "):
                mark(o)
            f = p.funcs.get(x.get("f"))
            for i, a in enumerate(x.get("a", ())):
                if isinstance(a, dict) and a.get("k") == "mem" and f and i < len(f.get("p", ())):
                    t = f["p"][i]["t"]
                    if t.endswith("&") and not t.startswith("const "):
                        mark(a)
        if k == "mem" and x.get("c") in p.classes:
            out.append([x.get("c"), x.get("f"), id(x) in mods, held, x.get("l"), x])

    def mark(n):
        while isinstance(n, dict):
            if n.get("k") == "mem":
                mods.add(id(n))
                return
            if n.get("k") == "call" and n.get("o") is not None and n.get("n") in ("operator*", "operator[]", "at", "get", "value", "operator->"):
                if "unique_ptr" in n.get("ot", "") or "reference_wrapper" in n.get("ot", "") or "shared_ptr" in n.get("ot", ""):
                    return
                n = n["o"]
                continue
            if n.get("k") in ("idx", "cast", "paren", "un"):
                n = n.get("a")
                continue
            return
    w = Walk(on)
    w.stmt(body, held0)
    for o in out:
        o[2] = o[2] or id(o[5]) in mods
    return out, w


def is_init(r):
    return r.get("kind") in ("ctor", "dtor") or r.get("n") in ("<ctor>", "<dtor>")


def lam_bodies(p):
    """class -> functions mentioned by the lambdas handed to its functions taking a std::function."""
    out = {}
    takes = {f for f, r in p.funcs.items() if any("std::function<" in x["t"] for x in r.get("p", ()))}
    for f, r in p.funcs.items():
        todo = [r.get("body"), r.get("inits")]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                if x.get("f") in takes and x.get("k") in ("call", "ctor"):
                    fs = set()
                    sub = list(x.get("a", ()))
                    while sub:
                        y = sub.pop()
                        if isinstance(y, dict):
                            for v in y.values():
                                if isinstance(v, str) and v in p.funcs:
                                    fs.add(v)
                                elif isinstance(v, (dict, list)):
                                    sub.append(v)
                        elif isinstance(y, list):
                            sub.extend(y)
                    out.setdefault(x["f"], set()).update(fs)
                todo.extend(x.values())
            elif isinstance(x, list):
                todo.extend(x)
    byclass = {}
    for f, fs in out.items():
        byclass.setdefault(p.funcs[f].get("c"), set()).update(fs)
    return byclass


def calls_function_object(x):
    """Does the code call a std::function?"""
    todo = [x]
    while todo:
        n = todo.pop()
        if isinstance(n, dict):
            if n.get("k") == "call" and n.get("n") == "operator()" and n.get("c", "").startswith("std::function"):
                return True
            if n.get("k") == "icall":
                return True
            todo.extend(v for v in n.values() if isinstance(v, (dict, list)))
        elif isinstance(n, list):
            todo.extend(n)
    return False


def mention_set(p, x):
    out = set()
    todo = [x]
    while todo:
        n = todo.pop()
        if isinstance(n, str):
            if n in p.funcs:
                out.add(n)
        elif isinstance(n, dict):
            todo.extend(n.values())
        elif isinstance(n, list):
            todo.extend(n)
    return out


def check(ctx):
    p = ctx.p
    info = {}
    for f, r in p.funcs.items():
        if not f.startswith("powsybl::") or not r.get("body"):
            continue
        info[f] = accesses(p, r["body"])
    locked = {}
    for c, r in p.classes.items():
        for x in r.get("fields", ()):
            if is_mutex(x["t"]):
                locked.setdefault(c, {})[x["n"]] = x["t"]
    if not locked:
        raise AnalysisError("no class with a lock found")
    check_guarded(ctx, info, locked)
    check_mutable(ctx, info, locked)
    check_order(ctx, info, locked)
    check_scoped(ctx, info)
    check_statics(ctx)
    check_thread_selection(ctx)


def check_guarded(ctx, info, locked):
    p = ctx.p
    for c, ms in sorted(locked.items()):
        fields = fields_of(p, c)
        guarded = {}
        for f, (acc, w) in info.items():
            if is_init(p.funcs[f]):
                continue
            for cc, fld, mod, held, line, node in acc:
                if cc == c and fld not in ms and mod and fld in fields:
                    for m in held:
                        if m[0] == c:
                            guarded.setdefault(fld, {}).setdefault(m, 0)
                            guarded[fld][m] += 1
        if not guarded and not any(w.acquired for f, (a, w) in info.items() if p.funcs[f].get("c") == c):
            ctx.inst("guarded", "%s.%s" % (short(c), ",".join(ms)))
            ctx.viol("guarded", "%s.%s" % (short(c), ",".join(ms)), "%s:%s" % (p.classes[c]["file"], p.classes[c]["line"]), "the lock of %s is never taken" % short(c))
            continue
        for fld, hs in sorted(guarded.items()):
            m = max(hs, key=lambda x: hs[x])
            t = plain(fields[fld]["t"])
            scalar = t in SCALAR
            need = {}
            for f, (acc, w) in info.items():
                if is_init(p.funcs[f]):
                    continue
                for cc, ff, mod, held, line, node in acc:
                    if cc == c and ff == fld:
                        inst = "%s.%s in %s" % (short(c), fld, short(f))
                        ctx.inst("guarded", inst)
                        if m not in held and (mod or not scalar):
                            need.setdefault(f, (line, mod))
            # functions relying on the lock of their callers
            bad = relies(ctx, info, need, m)
            for f, (line, mod, via) in sorted(bad.items()):
                ctx.viol("guarded", "%s.%s in %s" % (short(c), fld, short(f)), "%s:%s" % (p.funcs[f]["file"], line), "%s %s %s.%s without %s, which guards it%s" % (
                    short(f), "modifies" if mod else "reads", short(c), fld, m[1], " (reached from %s)" % short(via) if via and via != f else ""))
    ctx.need("guarded", 10)


def relies(ctx, info, need, m):
    """need: functions with an unprotected access. A function that users can call, or that is called without the
    lock, is at fault."""
    from rules import c08
    p = ctx.p
    back = callers(p)
    bad = {}
    for f, (line, mod) in need.items():
        seen = {f}
        todo = [f]
        while todo:
            g = todo.pop()
            cs = [h for h in back.get(g, ()) if h != g and h in info]
            if is_init(p.funcs[g]):
                continue
            if p.funcs[g].get("acc") in ("public", None) and c08.user_callable(p, g) or not cs:
                bad[f] = (line, mod, g)
                break
            for h in cs:
                # every call of g by h under the lock?
                if not calls_under(info, p, h, g, m) and h not in seen:
                    seen.add(h)
                    todo.append(h)
    return bad


def calls_under(info, p, h, g, m):
    ok = []

    def on(x, held):
        for v in x.values():
            if v == g:
                ok.append(m in held)
    w = Walk(on)
    w.stmt(p.funcs[h]["body"], frozenset())
    return bool(ok) and all(ok)


def check_mutable(ctx, info, locked):
    """A mutable member changed by constant functions (callable from several threads at once) has a lock."""
    p = ctx.p
    for c, r in sorted(p.classes.items()):
        if not c.startswith("powsybl::"):
            continue
        for x in r.get("fields", ()):
            if not x.get("mutable") or is_mutex(x["t"]) or "atomic<" in x["t"]:
                continue
            inst = "%s.%s" % (short(c), x["n"])
            ctx.inst("mutable", inst)
            for f, (acc, w) in sorted(info.items()):
                if not f.endswith(" const"):
                    continue
                for cc, fld, mod, held, line, node in acc:
                    if cc == c and fld == x["n"] and mod and not any(m[0] == c for m in held):
                        if p.funcs[f].get("c") == c and relies(ctx, info, {f: (line, True)}, next(iter([(c, k) for k in locked.get(c, {})]), None)) or not locked.get(c):
                            ctx.viol("mutable", inst, "%s:%s" % (p.funcs[f]["file"], line), "constant function %s changes %s without a lock: concurrent readers race" % (short(f), inst))
    ctx.need("mutable", 1)


def check_order(ctx, info, locked):
    p = ctx.p
    acquires = {}
    for f, (acc, w) in info.items():
        for m, line, held in w.acquired:
            acquires.setdefault(f, set()).add(m)
    ment = mentions(p)
    lams = lam_bodies(p)
    fobj = {f for f in info if calls_function_object(p.funcs[f].get("body"))}
    memo = {}

    def step(f):
        r = memo.get(f)
        if r is None:
            r = set(ment.get(f, ()))
            for g in list(r):
                r |= set(p.overrides_of(g))
            if f in fobj:
                r |= lams.get(p.funcs[f].get("c"), set())
            memo[f] = r
        return r

    def closure(start):
        seen = {}
        todo = [(s, None) for s in start]
        for s, _ in todo:
            seen[s] = None
        while todo:
            f, _ = todo.pop()
            for g in step(f):
                if g not in seen:
                    seen[g] = f
                    todo.append((g, f))
        return seen
    edges = {}
    for f, (acc, w) in sorted(info.items()):
        if not w.acquired:
            continue
        r = p.funcs[f]
        for m, line, held in w.acquired:
            inst = "%s in %s" % (m[1], short(f))
            ctx.inst("acquire", inst)
            if m in held and "recursive" not in mtype(p, m):
                ctx.viol("acquire", inst, "%s:%s" % (r["file"], line), "%s takes %s while it already holds it" % (short(f), m[1]))
        # what runs while the locks are held
        start = set()
        extra = [False]

        def on(x, held, start=start, extra=extra):
            if held:
                for v in x.values():
                    if isinstance(v, str) and v in p.funcs and x.get("k") != "lambda":
                        start.add((v, held))
                if x.get("k") == "icall" or x.get("k") == "call" and x.get("n") == "operator()" and x.get("c", "").startswith("std::function"):
                    for g in lams.get(r.get("c"), ()):
                        start.add((g, held))
        Walk(on).stmt(r["body"], frozenset())
        for held in {h for g, h in start}:
            first = set()
            for g, h in start:
                if h == held:
                    first |= {g} | set(p.overrides_of(g))
            seen = closure(first)
            for g in sorted(seen):
                for m2 in acquires.get(g, ()):
                    for m in held:
                        edges.setdefault((m, m2), (f, path(seen, g)))
    for (m, m2), (f, via) in sorted(edges.items(), key=str):
        inst = "%s.%s while holding %s.%s" % (short(m2[0] or ""), m2[1], short(m[0] or ""), m[1])
        ctx.inst("order", inst)
        if m == m2:
            if "recursive" in mtype(p, m):
                continue
            ctx.viol("order", inst, ctx.loc(f), "%s holds %s and reaches code taking it again: %s" % (short(f), m[1], " -> ".join(short(x) for x in [f] + via)))
        elif (m2, m) in edges and str(m) < str(m2):
            ctx.viol("order", inst, ctx.loc(f), "%s and %s are taken in both orders (%s and %s)" % (m[1], m2[1], " -> ".join(short(x) for x in [f] + via), " -> ".join(short(x) for x in [edges[(m2, m)][0]] + edges[(m2, m)][1])))


def path(seen, g):
    out = []
    while g is not None and len(out) < 12:
        out.append(g)
        g = seen[g]
    return out[::-1]


def mtype(p, m):
    return fields_of(p, m[0]).get(m[1], {}).get("t", "") if m[0] else ""


def check_scoped(ctx, info):
    p = ctx.p
    for f, (acc, w) in sorted(info.items()):
        for m, line, held in w.acquired:
            ctx.inst("scoped", "%s in %s" % (m[1], short(f)))
        for x in w.hand:
            ctx.inst("scoped", "%s:%s" % (p.funcs[f]["file"], x.get("l")))
            ctx.viol("scoped", "%s of %s" % (x["n"], short(f)), "%s:%s" % (p.funcs[f]["file"], x.get("l")), "%s calls %s() on a lock by hand: it is not released when an exception passes" % (short(f), x["n"]))
        for x, held in w.temps:
            ctx.inst("scoped", "%s:%s" % (p.funcs[f]["file"], x.get("l")))
            ctx.viol("scoped", "temporary in %s" % short(f), "%s:%s" % (p.funcs[f]["file"], x.get("l")), "%s takes a lock in a temporary: it is released at once" % short(f))
    ctx.need("scoped", 8)


def check_statics(ctx):
    """Variables with static storage are never changed once initialised, unless each thread has its own."""
    p = ctx.p
    statics = {}
    for f, r in p.funcs.items():
        if not f.startswith("powsybl::") or not r.get("body"):
            continue
        todo = [r["body"]]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                if x.get("static") and "d" in x and "t" in x and not x["t"].startswith("const ") and not x.get("tls"):
                    statics[(f, x["d"])] = x
                todo.extend(v for v in x.values() if isinstance(v, (dict, list)))
            elif isinstance(x, list):
                todo.extend(x)
    for g, r in p.globals.items():
        if g.startswith("powsybl::") and not r.get("t", "const ").startswith("const ") and not r.get("tls"):
            statics[(None, g)] = r
    for (f, d), x in sorted(statics.items(), key=str):
        t = plain(x.get("t", ""))
        inst = d if f is None else "%s in %s" % (d.split("#")[0], short(f))
        ctx.inst("static", inst)
        for h, r in p.funcs.items():
            if f is not None and h != f or not r.get("body"):
                continue
            bad = changes_var(p, r, d)
            if bad and not own_lock(p, t):
                ctx.viol("static", inst, "%s:%s" % (r["file"], bad), "%s changes the static variable %s, shared by every thread, without a lock" % (short(h), d.split("#")[0]))
    ctx.need("static", 20)


def own_lock(p, t):
    return t in p.classes and any(is_mutex(x["t"]) for x in p.classes[t].get("fields", ()))


def changes_var(p, r, d):
    todo = [(r["body"], frozenset())]
    found = []

    def base(n):
        while isinstance(n, dict):
            if n.get("k") == "var":
                return n.get("d") == d
            if n.get("k") == "call" and n.get("n") in ("operator[]", "at", "operator*") and n.get("o") is not None and "_ptr" not in n.get("ot", ""):
                n = n["o"]
                continue
            if n.get("k") in ("idx", "cast", "paren"):
                n = n.get("a")
                continue
            return False
        return False

    def on(x, held):
        if held:
            return
        k = x.get("k")
        if k in ("bin", "assign", "cassign") and x.get("o", "=").endswith("=") and x.get("o") not in ("==", "!=", "<=", ">=") and base(x.get("a")):
            found.append(x.get("l"))
        elif k == "un" and x.get("o") in ("++", "--", "p++", "p--", "post++", "post--") and base(x.get("a")):
            found.append(x.get("l"))
        elif k == "call" and x.get("o") is not None and base(x["o"]) and not x.get("ot", "const ").startswith("const "):
            g = p.funcs.get(x.get("f"))
            m = x.get("n", "")
            if g is None and m in ("begin", "end", "find", "size", "empty", "operator[]", "at", "data", "get", "c_str", "front", "back", "operator->", "operator*") and not x.get("c", "").startswith(("std::map", "std::unordered_map")) or m in ("begin", "end", "find", "at"):
                return
            if g is not None and (x["f"].endswith(" const") or not x["f"].startswith("powsybl::")):
                return
            if g is not None and own_lock(p, g.get("c", "")):
                return
            found.append(x.get("l"))
    Walk(on).stmt(r["body"], frozenset())
    return found[0] if found else None


def check_thread_selection(ctx):
    """With multi-threaded access, what each thread selects is its own."""
    p = ctx.p
    base = I + "VariantContext"
    for c in sorted(p.subclasses(base)):
        if c == base:
            continue
        for g, r in sorted(p.globals.items()):
            if g.startswith(c + "::") and "::" not in g[len(c) + 2:] and not r.get("t", "").startswith("const "):
                ctx.inst("per-thread", g.split("::", 2)[-1])
                if not r.get("tls"):
                    ctx.viol("per-thread", g.split("::", 2)[-1], "%s:%s" % (r["file"], r.get("line")), "%s is shared by the threads: the selection of a thread changes the others'" % short(g))
