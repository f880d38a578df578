"""Gated value-flow engine over the extracted facts.

A function is evaluated once, structurally: branches are joined with gated values (ite), loop bodies are
visited once with symbolic elements, calls are either summarised by inlining the callee (helpers, lambdas)
or kept as opaque calls, as the rule's policy decides.  The result is the function's effect summary: the
ordered list of its effects (stores, calls, throws, returns), each with the conditions (guards) under which
it is reached and the loops around it, all expressed over the function's inputs.  No input is ever chosen,
no path condition is handed to a solver.
"""
import sys
sys.setrecursionlimit(20000)


class Node:
    __slots__ = ("op", "a", "size", "_d")

    def __repr__(self):
        return show(self)


_tab = {}


def N(op, *a):
    k = (op, a)
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.op = op
        n.a = a
        sz = 1
        for x in a:
            if isinstance(x, Node):
                sz += x.size
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Node):
                        sz += y.size
        n.size = sz
        _tab[k] = n
    return n


MAXSIZE = 6000
_unk = [0]


def unk(tag="?"):
    _unk[0] += 1
    return N("unk", tag, _unk[0])


TRUE = N("bool", True)
FALSE = N("bool", False)
NULL = N("null")
THIS = N("this")


def short(fid):
    """Readable short form of a function/class id."""
    import re
    s = fid
    for _ in range(8):
        t = re.sub(r"<[^<>]*>", "", s)
        if t == s:
            break
        s = t
    s = s.split("(")[0]
    s = s.replace("powsybl::iidm::converter::xml::", "").replace("powsybl::iidm::", "").replace("powsybl::", "")
    return s


def show(n, depth=0):
    if not isinstance(n, Node):
        return str(n)
    if depth > 12:
        return "..."
    d = depth + 1
    o = n.op
    a = n.a
    if o in ("int", "float", "bool"):
        return str(a[0])
    if o == "str":
        return '"%s"' % a[0]
    if o == "null":
        return "null"
    if o == "this":
        return "this"
    if o == "enum":
        return a[0].split("::")[-1] + "::" + a[1]
    if o == "param":
        return "$" + a[0]
    if o == "fld":
        return show(a[0], d) + "." + a[1]
    if o == "at":
        return show(a[0], d) + "[" + show(a[1], d) + "]"
    if o == "elem":
        return "elem(" + show(a[0], d) + ")"
    if o == "call":
        fid, obj, args = a[0], a[1], a[2]
        return (show(obj, d) + "." if obj is not None else "") + short(fid).split("::")[-1] + "(" + ", ".join(show(x, d) for x in args) + ")"
    if o in ("new", "obj"):
        return ("new " if o == "new" else "") + short(a[0]) + "(" + ", ".join(show(x, d) for x in a[2]) + ")"
    if o == "op":
        return "(" + show(a[1], d) + " " + a[0] + " " + show(a[2], d) + ")"
    if o == "un":
        return a[0] + "(" + show(a[1], d) + ")"
    if o == "ite":
        return "(" + show(a[0], d) + " ? " + show(a[1], d) + " : " + show(a[2], d) + ")"
    if o == "global":
        return short(a[0].split("@")[0])
    return o + "(" + ", ".join(show(x, d) if isinstance(x, Node) else ("(" + ", ".join(show(y, d) for y in x) + ")" if isinstance(x, tuple) else str(x)) for x in a) + ")"


def subnodes(n, seen=None):
    """All nodes reachable from n (n included)."""
    if seen is None:
        seen = set()
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, Node):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(z for z in y if isinstance(z, Node))
    return seen


def contains(n, m):
    return m in subnodes(n)


def rewrite(n, f, memo=None):
    """Bottom-up rewrite: f(node) -> node."""
    if memo is None:
        memo = {}
    if not isinstance(n, Node):
        return n
    r = memo.get(n)
    if r is not None:
        return r
    args = []
    for x in n.a:
        if isinstance(x, Node):
            args.append(rewrite(x, f, memo))
        elif isinstance(x, tuple):
            args.append(tuple(rewrite(y, f, memo) if isinstance(y, Node) else y for y in x))
        else:
            args.append(x)
    m = N(n.op, *args)
    m = f(m)
    memo[n] = m
    return m


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "un" and c.a[0] == "!":
        return ite(c.a[1], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    n = N("ite", c, a, b)
    if n.size > MAXSIZE:
        return unk("big")
    return n


def lnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "un" and c.a[0] == "!":
        return c.a[1]
    return N("un", "!", c)


class Ev:
    __slots__ = ("k", "d", "g", "loops", "stack", "line", "file", "seq", "fn")

    def __init__(self, k, d, g, loops, stack, line, file, seq):
        self.k = k
        self.d = d
        self.g = g
        self.loops = loops
        self.stack = stack
        self.line = line
        self.file = file
        self.seq = seq

    def loc(self):
        return "%s:%s" % (self.file, self.line)

    def __repr__(self):
        g = " & ".join(("" if p else "!") + show(c) for c, p in self.g)
        d = ", ".join(show(x) if isinstance(x, Node) else ("(" + ", ".join(show(y) for y in x) + ")" if isinstance(x, tuple) else short(str(x))) for x in self.d)
        return "%s:%s %s %s%s%s" % (self.file.split("/")[-1], self.line, self.k, d, ("  IF " + g) if g else "", ("  LOOP " + str(len(self.loops))) if self.loops else "")


class State:
    __slots__ = ("store", "heap", "g")

    def __init__(self, store, heap, g):
        self.store = store
        self.heap = heap
        self.g = g

    def copy(self):
        return State(dict(self.store), dict(self.heap), self.g)


class Frame:
    __slots__ = ("fid", "env", "this", "rets", "file", "dyn", "depth", "breaks", "continues", "base_g")

    def __init__(self, fid, this, file, dyn, depth):
        self.fid = fid
        self.env = {}
        self.this = this
        self.rets = []
        self.file = file
        self.dyn = dyn
        self.depth = depth
        self.breaks = []
        self.continues = []


STD_IDENTITY_CTOR = ("std::basic_string", "std::unique_ptr", "std::shared_ptr", "std::function", "std::reference_wrapper",
                     "boost::optional", "boost::any", "std::weak_ptr")
DEREF_NAMES = {"get", "operator*", "operator->", "get_ptr", "value"}
PTR_CLASSES = ("std::unique_ptr", "std::shared_ptr", "std::reference_wrapper", "boost::optional", "std::__shared_ptr", "std::__shared_ptr_access",
               "boost::detail", "boost::optional_detail", "std::__detail")


NOISE = ("powsybl::logging::", "stdcxx::format", "stdcxx::demangle", "stdcxx::toString", "stdcxx::isInstanceOf", "stdcxx::simpleClassName", "std::basic_ostringstream", "std::basic_ostream",
         "std::operator<<", "std::allocator", "boost::basic_format", "stdcxx::serialize")


def is_noise(f):
    return f.startswith(NOISE)


ADAPTORS = ("boost::adaptors::values", "boost::adaptors::map_values", "boost::adaptors::keys", "boost::adaptors::reverse")


def is_ptr_class(c):
    c = c or ""
    return c.startswith(PTR_CLASSES) or c.startswith("stdcxx::Reference") or c.startswith("stdcxx::CReference")


class Engine:
    """policy(fid, rec, obj, depth) -> True to inline the callee, False to keep the call opaque."""

    def __init__(self, prog, policy=None, maxdepth=14, heap=True, maxevents=60000, cha=False):
        self.cha = cha
        self.p = prog
        self.policy = policy or (lambda *a: True)
        self.maxdepth = maxdepth
        self.useheap = heap
        self.events = []
        self.stack = []
        self.loops = ()
        self.lams = []
        self.cellno = 0
        self.seq = 0
        self.maxevents = maxevents
        self.loopno = 0
        self.virt = None  # optional: resolver(fid, obj, dyn) -> fid
        self.inlined = set()

    # ------------------------------------------------------------------ entry points
    def run(self, fid, this=THIS, args=None, dyn=None):
        rec = self.p.funcs[fid]
        st = State({}, {}, ())
        fr = Frame(fid, this, rec["file"], dyn or rec.get("c"), 0)
        for i, pr in enumerate(rec["p"]):
            v = args[i] if args and i < len(args) else N("param", pr["n"] or ("arg%d" % i))
            self.bind(fr, st, pr["d"], v)
        self.stack.append(fid)
        st = self.body(rec, fr, st)
        self.stack.pop()
        self.final = st
        self.rets = fr.rets
        return self.events

    def retvalue(self):
        """Gated return value of the root function."""
        return self.join_rets(self.rets, ())

    def body(self, rec, fr, st):
        if rec.get("kind") == "ctor":
            for i in rec.get("inits", ()):
                e = i.get("e")
                if e is None:
                    continue
                if "f" in i:
                    if not i.get("w") and e.get("k") == "ctor" and not e.get("a"):
                        continue
                    v = self.ev(e, fr, st)
                    self.emit("store", (N("fld", fr.this, i["f"]), v), st, i.get("l"), fr)
                    if self.useheap:
                        st.heap[N("fld", fr.this, i["f"])] = v
                elif "b" in i or i.get("deleg"):
                    if e.get("k") == "ctor" and not e.get("inherited"):
                        self.call_ctor(e, fr, st, fr.this, i.get("l"))
        if rec.get("body"):
            st2 = self.ex(rec["body"], fr, st)
        else:
            st2 = st
        if st2 is not None:
            fr.rets.append((st2, None))
        return st2

    # ------------------------------------------------------------------ helpers
    def bind(self, fr, st, d, v):
        self.cellno += 1
        c = self.cellno
        fr.env[d] = c
        st.store[c] = v
        return c

    def emit(self, k, d, st, line, fr):
        self.seq += 1
        if len(self.events) > self.maxevents:
            return None
        e = Ev(k, d, st.g, self.loops, tuple(self.stack), line, fr.file, self.seq)
        self.events.append(e)
        return e

    def fileof(self, fid):
        return self.p.funcs[fid]["file"] if fid in self.p.funcs else "?"

    # ------------------------------------------------------------------ statements
    def ex(self, s, fr, st):
        if s is None or st is None:
            return st
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            return st
        return m(s, fr, st)

    def s_block(self, s, fr, st):
        for c in s["b"]:
            if st is None:
                return None
            st = self.ex(c, fr, st)
        return st

    def decl(self, v, fr, st):
        t = v["t"]
        init = v.get("init")
        if v.get("static"):
            if init is not None:
                val = self.ev(init, fr, st)
            else:
                val = N("static", v["d"])
            self.bind(fr, st, v["d"], val)
            return
        if init is None:
            val = N("local", v["d"], self.cellno)
        else:
            isref = t.rstrip().endswith("&")
            if isref:
                c = self.cell_of(init, fr)
                if c is not None:
                    fr.env[v["d"]] = c
                    return
                val = self.ev(init, fr, st)
            else:
                val = self.ev(init, fr, st)
                if init.get("k") == "ctor" and not init.get("a") and val.op == "obj":
                    val = N("local", v["d"], self.cellno, val.a[0])
        self.bind(fr, st, v["d"], val)

    def s_decl(self, s, fr, st):
        for v in s["v"]:
            self.decl(v, fr, st)
            if st.g is None:
                return None
        return st

    def s_expr(self, s, fr, st):
        e = s["e"]
        if e and e["k"] == "throw":
            self.do_throw(e, fr, st)
            return None
        self.ev(e, fr, st)
        if st.g is None:
            return None
        return st

    def do_throw(self, e, fr, st):
        a = e.get("a")
        v = self.ev(a, fr, st) if a else N("rethrow")
        self.emit("throw", (v,), st, e.get("l"), fr)

    def s_ret(self, s, fr, st):
        e = s.get("e")
        v = None
        if e is not None:
            if e["k"] == "throw":
                self.do_throw(e, fr, st)
                return None
            v = self.ev(e, fr, st)
        if st.g is None:
            return None
        if len(self.stack) == 1 and fr.depth == 0:
            self.emit("ret", (v,) if v is not None else (), st, s["l"], fr)
        fr.rets.append((st, v))
        return None

    def recursive(self, f):
        """Already being evaluated, other than through a function it was given (a helper running the lambda passed to it)."""
        if f not in self.stack:
            return False
        k = len(self.stack) - 1 - self.stack[::-1].index(f)
        return self.stack.count(f) > 3 or not any(x.startswith("<lambda>") for x in self.stack[k + 1:])

    def cond_guards(self, c, pol):
        """Guards implied by condition value c having truth value pol."""
        if c.op == "un" and c.a[0] == "!":
            return self.cond_guards(c.a[1], not pol)
        if c.op == "op" and c.a[0] == "&&" and pol:
            return self.cond_guards(c.a[1], True) + self.cond_guards(c.a[2], True)
        if c.op == "op" and c.a[0] == "||" and not pol:
            return self.cond_guards(c.a[1], False) + self.cond_guards(c.a[2], False)
        if c.op == "op" and c.a[0] == "!=":
            return ((N("op", "==", c.a[1], c.a[2]), not pol),)
        return ((c, pol),)

    def s_if(self, s, fr, st):
        if s.get("init"):
            st = self.ex(s["init"], fr, st)
        if s.get("cv"):
            self.decl(s["cv"], fr, st)
        c = self.ev(s["c"], fr, st)
        if st.g is None:
            return None
        c = self.truth(c)
        if c is TRUE:
            return self.ex(s["t"], fr, st)
        if c is FALSE:
            return self.ex(s["e"], fr, st) if s.get("e") else st
        return self.branch(c, lambda q: self.ex(s["t"], fr, q), lambda q: self.ex(s["e"], fr, q) if s.get("e") else q, st)

    def branch(self, c, ft, fe, st):
        g0 = st.g
        a = st.copy()
        a.g = g0 + self.cond_guards(c, True)
        b = st.copy()
        b.g = g0 + self.cond_guards(c, False)
        a = ft(a)
        b = fe(b)
        return self.join(c, a, b, g0)

    def join(self, c, a, b, g0):
        if a is None:
            return b
        if b is None:
            return a
        store = {}
        for k in a.store:
            if k in b.store:
                store[k] = ite(c, a.store[k], b.store[k])
            else:
                store[k] = a.store[k]
        for k in b.store:
            if k not in store:
                store[k] = b.store[k]
        heap = {}
        for k in a.heap:
            if k in b.heap:
                heap[k] = ite(c, a.heap[k], b.heap[k])
            else:
                heap[k] = ite(c, a.heap[k], k)
        for k in b.heap:
            if k not in heap:
                heap[k] = ite(c, k, b.heap[k])
        # keep guards that hold on both sides (beyond g0): same suffix elements, in order
        ga, gb = a.g[len(g0):], b.g[len(g0):]
        sb = set(gb)
        common = tuple(x for x in ga if x in sb)
        # a condition established inside one branch only, e.g. "if (c) { if (!v) throw; }": keep it as an implication
        extra = []
        ca = self.cond_guards(c, True)
        cb = self.cond_guards(c, False)
        for x in ga:
            if x not in sb and x not in ca:
                extra.append((N("imp", c, True, x[0], x[1]), True))
        sa = set(ga)
        for x in gb:
            if x not in sa and x not in cb:
                extra.append((N("imp", c, False, x[0], x[1]), True))
        return State(store, heap, g0 + common + tuple(extra))

    def assigned(self, s, out=None):
        """Local variables assigned in a statement/expression tree (by identifier)."""
        if out is None:
            out = set()
        if isinstance(s, dict):
            k = s.get("k")
            if k in ("bin",) and s["o"].endswith("=") and s["o"] not in ("==", "!=", "<=", ">="):
                if s["a"] and s["a"].get("k") == "var":
                    out.add(s["a"]["d"])
            elif k == "un" and s["o"] in ("++", "--") and s["a"] and s["a"].get("k") == "var":
                out.add(s["a"]["d"])
            elif k == "call" and s.get("opc") in ("=", "+=", "++", "--", "-="):
                o = s.get("o") or (s["a"][0] if s["a"] else None)
                if o and o.get("k") == "var":
                    out.add(o["d"])
            for v in s.values():
                if isinstance(v, (dict, list)):
                    self.assigned(v, out)
        elif isinstance(s, list):
            for x in s:
                self.assigned(x, out)
        return out

    def loop(self, tag, s, fr, st, assigned_in, pre, body, post=None):
        """Visit a loop body once.  Locals assigned in the loop become symbolic (lv)."""
        self.loopno += 1
        ln = self.loopno
        names = self.assigned(assigned_in)
        before = {}
        for d in names:
            c = fr.env.get(d)
            if c is not None and c in st.store:
                before[c] = st.store[c]
                st.store[c] = N("lv", d, ln, st.store[c])
        heap0 = dict(st.heap)
        g0 = st.g
        saved = self.loops
        cond = pre(st)
        if st.g is None:
            return None
        self.loops = saved + ((tag, cond, ln),)
        q = st.copy()
        if isinstance(cond, Node) and tag in ("for", "while"):
            q.g = q.g + self.cond_guards(cond, True)
        q.store = dict(q.store)
        ob, oc = fr.breaks, fr.continues
        fr.breaks, fr.continues = [], []
        q = body(q)
        conts = fr.continues
        if q is not None and post:
            post(q)
        elif q is None and conts and post:
            post(conts[-1])
        breaks = fr.breaks
        fr.breaks, fr.continues = ob, oc
        self.loops = saved
        out = State(dict(st.store), {}, g0)
        for c, v in before.items():
            ends = [e.store[c] for e in ([q] if q is not None else []) + conts + breaks if c in e.store]
            w = v
            vals = []
            for e in ends:
                if e is not v and e not in vals:
                    vals.append(e)
            if vals:
                w = N("phi", v, tuple(vals))
                if w.size > MAXSIZE:
                    w = unk("phi")
            out.store[c] = w
        for kx, v in heap0.items():
            same = True
            for e in ([q] if q is not None else []) + conts + breaks:
                if e.heap.get(kx) is not v:
                    same = False
            if same:
                out.heap[kx] = v
        return out

    def s_for(self, s, fr, st):
        if s.get("i"):
            st = self.ex(s["i"], fr, st)
        c = s.get("c")

        def pre(q):
            return self.truth(self.ev(c, fr, q)) if c else TRUE
        return self.loop("for", s, fr, st, [s["b"], s.get("n")], pre, lambda q: self.ex(s["b"], fr, q),
                         (lambda q: self.ev(s["n"], fr, q)) if s.get("n") else None)

    def s_while(self, s, fr, st):
        def pre(q):
            return self.truth(self.ev(s["c"], fr, q))
        return self.loop("while", s, fr, st, [s["b"], s["c"]], pre, lambda q: self.ex(s["b"], fr, q))

    def s_do(self, s, fr, st):
        def body(q):
            q = self.ex(s["b"], fr, q)
            if q is not None:
                self.ev(s["c"], fr, q)
            return q
        return self.loop("do", s, fr, st, [s["b"], s["c"]], lambda q: TRUE, body)

    def s_rfor(self, s, fr, st):
        r = self.ev(s["r"], fr, st)
        if st.g is None:
            return None
        r = self.container(r)

        def body(q):
            self.bind(fr, q, s["v"]["d"], self.elem(r))
            return self.ex(s["b"], fr, q)
        return self.loop("range", s, fr, st, [s["b"]], lambda q: r, body)

    def elem(self, c):
        if c.op == "list" and len(c.a[0]) == 1:
            return c.a[0][0]
        return N("elem", c)

    def container(self, v):
        """Strip view adaptors that do not change the set of elements (map values, any_range wrappers...)."""
        while True:
            if v.op == "obj" and v.a[0].startswith("boost::range_detail::any_range") and v.a[2]:
                v = v.a[2][0]
            elif v.op == "obj" and v.a[0].startswith(("boost::iterator_range", "boost::range_detail::select_second_", "boost::range_detail::indirected_range")) and v.a[2]:
                v = v.a[2][0]
            elif v.op == "call" and v.a[0].startswith("boost::adaptors::values") and v.a[2]:
                v = v.a[2][0]
            elif v.op == "op" and v.a[0] == "|" and v.a[2].op == "global" and "boost::adaptors" in v.a[2].a[0] and "map_values" in v.a[2].a[0]:
                v = v.a[1]
            elif v.op == "op" and v.a[0] == "|" and v.a[2].op == "global" and "boost::adaptors" in v.a[2].a[0] and "indirected" in v.a[2].a[0]:
                v = v.a[1]
            else:
                return v

    def s_switch(self, s, fr, st):
        c = self.ev(s["c"], fr, st)
        if st.g is None:
            return None
        items = s["b"]["b"] if s["b"] and s["b"]["k"] == "block" else [s["b"]]
        # flatten: list of (labels, statements)
        groups = []

        def push(x):
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x["v"] if x["k"] == "case" else None)
                x = x["b"]
            if labels:
                if groups and not groups[-1][1]:
                    groups[-1][0].extend(labels)
                else:
                    groups.append((labels, []))
            if x is not None:
                if not groups:
                    groups.append(([], []))
                groups[-1][1].append(x)
        for it in items:
            push(it)
        g0 = st.g
        ob = fr.breaks
        fr.breaks = []
        fall = None
        outs = []
        alll = []
        hasdef = False
        labelvals = []
        for labels, body in groups:
            lv = [self.ev(l, fr, st) if l is not None else None for l in labels]
            labelvals.append(lv)
            alll += [x for x in lv if x is not None]
        consts = ("enum", "int", "bool")
        if c.op in consts and all(x.op in consts for x in alll):
            hit = next((i for i, lv in enumerate(labelvals) if any(x is c for x in lv)), None)
            if hit is None:
                hit = next((i for i, lv in enumerate(labelvals) if None in lv), None)
            if hit is None:
                fr.breaks = ob
                return st
            q = st
            for labels, body in groups[hit:]:
                for x in body:
                    if q is None:
                        break
                    q = self.ex(x, fr, q)
                if q is None:
                    break
            brk = fr.breaks
            fr.breaks = ob
            res = q
            for b in brk:
                res = b if res is None else self.join(unk("brk"), b, res, g0)
            return res
        for (labels, body), lv in zip(groups, labelvals):
            q = st.copy()
            if None in lv:
                hasdef = True
                others = [x for x in alll if x not in lv]
                q.g = g0 + tuple((N("op", "==", c, x), False) for x in others)
            elif len(lv) == 1:
                q.g = g0 + ((N("op", "==", c, lv[0]), True),)
            else:
                q.g = g0 + ((N("in", c, tuple(lv)), True),)
            if fall is not None:
                q = self.join(N("in", c, tuple(x for x in lv if x is not None)), q, fall, g0)
                fall = None
            for x in body:
                if q is None:
                    break
                q = self.ex(x, fr, q)
            fall = q
            for b in fr.breaks:
                outs.append((lv, b))
            fr.breaks = []
        if fall is not None:
            outs.append((labelvals[-1] if labelvals else [], fall))
        if not hasdef:
            q = st.copy()
            q.g = g0 + tuple((N("op", "==", c, x), False) for x in alll)
            outs.append(([None], q))
        fr.breaks = ob
        res = None
        for lv, q in reversed(outs):
            if res is None:
                res = q
            else:
                vs = [x for x in lv if x is not None]
                cc = N("op", "==", c, vs[0]) if len(vs) == 1 else N("in", c, tuple(vs))
                res = self.join(cc, q, res, g0)
        return res

    def s_case(self, s, fr, st):
        return self.ex(s["b"], fr, st)

    def s_default(self, s, fr, st):
        return self.ex(s["b"], fr, st)

    def s_break(self, s, fr, st):
        fr.breaks.append(st)
        return None

    def s_continue(self, s, fr, st):
        fr.continues.append(st)
        return None

    def s_try(self, s, fr, st):
        pre = st.copy()
        a = self.ex(s["b"], fr, st)
        res = a
        for h in s["h"]:
            q = pre.copy()
            q.g = q.g + ((N("caught", h["t"]), True),)
            if h.get("v"):
                self.bind(fr, q, h["v"], N("exc", h["t"]))
            q = self.ex(h["b"], fr, q)
            res = self.join(N("caught", h["t"]), q, res, pre.g)
        return res

    def pointee(self, v):
        """An object of a class derived from a smart pointer stands for the pointer it was built from."""
        while v.op == "obj" and v.a[2] and isinstance(v.a[2][0], Node) and not is_ptr_class(v.a[0]) and any(is_ptr_class(b) for b in self.p.bases(v.a[0])):
            v = v.a[2][0]
        return v

    def s_otherstmt(self, s, fr, st):
        return st

    # ------------------------------------------------------------------ expressions
    def truth(self, v):
        """Boolean view of a value used as a condition."""
        if v.op in ("bool", "op", "ite", "in", "caught", "call", "imp"):
            if v.op == "op" and v.a[0] in ("==", "!=") and (v.a[1] is NULL or v.a[2] is NULL):
                x = v.a[2] if v.a[1] is NULL else v.a[1]
                b = N("un", "bool", x)
                return lnot(b) if v.a[0] == "==" else b
            return v
        if v.op == "int":
            return TRUE if v.a[0] != 0 else FALSE
        if v.op == "un" and v.a[0] in ("!", "bool"):
            return v
        if v.op in ("new", "obj"):
            return TRUE
        if v is NULL:
            return FALSE
        return N("un", "bool", v) if v.op in ("at", "elem", "new") else v

    def ev(self, e, fr, st):
        if e is None:
            return unk("none")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return unk(e["k"])
        v = m(e, fr, st)
        if v.size > MAXSIZE:
            v = unk("big")
        return v

    def e_int(self, e, fr, st):
        return N("int", int(e["v"]))

    def e_float(self, e, fr, st):
        return N("float", float(e["v"]))

    def e_str(self, e, fr, st):
        return N("str", e["v"])

    def e_bool(self, e, fr, st):
        return TRUE if e["v"] else FALSE

    def e_null(self, e, fr, st):
        return NULL

    def e_this(self, e, fr, st):
        return fr.this

    def e_enum(self, e, fr, st):
        return N("enum", e["e"], e["v"])

    def e_zero(self, e, fr, st):
        t = e["t"]
        if t == "bool":
            return FALSE
        if t in ("double", "float"):
            return N("float", 0.0)
        if t.endswith("*"):
            return NULL
        return N("int", 0)

    def e_var(self, e, fr, st):
        d = e["d"]
        c = fr.env.get(d)
        if c is not None and c in st.store:
            return st.store[c]
        if "#" in d:
            # local of an enclosing function we did not see
            return N("local", d, 0)
        g = self.p.globals.get(d)
        if g is not None:
            t = g.get("t", "")
            if t.startswith("const ") or t.endswith("const") or "const *const" in t or t.endswith("[]"):
                v = self.const_global(d)
                if v is not None:
                    return v
        return N("global", d)

    def const_global(self, d):
        cache = self.p.__dict__.setdefault("_gcache", {})
        if d in cache:
            return cache[d]
        cache[d] = N("global", d)
        g = self.p.globals[d]
        fr = Frame(d, THIS, g["file"], None, 0)
        st = State({}, {}, ())
        saved = self.events
        self.events = []
        v = self.ev(g["init"], fr, st)
        self.events = saved
        if v.op not in ("int", "float", "str", "bool", "null", "enum"):
            v = N("global", d)
        cache[d] = v
        return v

    def load(self, path, st):
        if self.useheap:
            v = st.heap.get(path)
            if v is not None:
                return v
        return path

    def e_mem(self, e, fr, st):
        b = self.ev(e["b"], fr, st)
        return self.load(self.fld(b, e["f"]), st)

    def fld(self, b, f):
        if b.op == "list" or b.op == "pair":
            pass
        if f in ("first", "second") and b.op == "pair":
            return b.a[0] if f == "first" else b.a[1]
        return N("fld", b, f)

    def lval(self, e, fr, st):
        """Path of an lvalue expression, without reading the heap at the last step."""
        if e["k"] == "mem":
            return self.fld(self.ev(e["b"], fr, st), e["f"])
        return None

    def cell_of(self, e, fr):
        """The local cell an expression denotes, if it is a plain local variable."""
        if e and e["k"] == "var":
            return fr.env.get(e["d"])
        if e and e["k"] == "cast" and e.get("ck") in ("static", "const"):
            return self.cell_of(e["a"], fr)
        if e and e["k"] == "call" and e.get("n") in ("move", "forward") and e["f"].startswith("std::") and e["a"]:
            return self.cell_of(e["a"][0], fr)
        return None

    def assign(self, e, v, fr, st, line, op="="):
        """Assign value v to lvalue expression e."""
        if e["k"] == "var":
            c = fr.env.get(e["d"])
            if c is not None:
                cur = st.store.get(c)
                # a reference bound to a path: write through
                t = e.get("t", "")
                if (t.endswith("&") or t.endswith("&&")) and cur is not None and cur.op in ("fld", "at", "elem", "call", "param", "global"):
                    self.emit("store", (cur, v), st, line, fr)
                    if self.useheap:
                        st.heap[cur] = v
                    return
                st.store[c] = v
                return
            self.emit("store", (N("global", e["d"]), v), st, line, fr)
            return
        p = self.lval(e, fr, st)
        if p is None:
            p = self.ev(e, fr, st)
        self.emit("store", (p, v), st, line, fr)
        if self.useheap and p.op in ("fld", "at"):
            self.kill(st, p)
            st.heap[p] = v

    def kill(self, st, p):
        for k in [k for k in st.heap if k is not p and k.op == "at" and p.op == "at" and k.a[0] is p.a[0]]:
            del st.heap[k]

    def e_bin(self, e, fr, st):
        o = e["o"]
        if o == "=":
            v = self.ev(e["b"], fr, st)
            self.assign(e["a"], v, fr, st, e["l"])
            return v
        if o in ("+=", "-=", "*=", "/=", "|=", "&=", "%=", "^="):
            cur = self.ev(e["a"], fr, st)
            v = self.binop(o[0], cur, self.ev(e["b"], fr, st))
            self.assign(e["a"], v, fr, st, e["l"])
            return v
        if o in ("&&", "||"):
            a = self.truth(self.ev(e["a"], fr, st))
            if a is FALSE and o == "&&":
                return FALSE
            if a is TRUE and o == "||":
                return TRUE
            g = st.g
            if g is None:
                return unk("term")
            st.g = g + self.cond_guards(a, o == "&&")
            b = self.truth(self.ev(e["b"], fr, st))
            st.g = g
            if a is TRUE or a is FALSE:
                return b
            return N("op", o, a, b)
        if o == ",":
            self.ev(e["a"], fr, st)
            return self.ev(e["b"], fr, st)
        return self.binop(o, self.ev(e["a"], fr, st), self.ev(e["b"], fr, st))

    def binop(self, o, a, b):
        if a.op == "int" and b.op == "int":
            try:
                if o == "+":
                    return N("int", a.a[0] + b.a[0])
                if o == "-":
                    return N("int", a.a[0] - b.a[0])
                if o == "*":
                    return N("int", a.a[0] * b.a[0])
                if o in ("==", "!=", "<", ">", "<=", ">="):
                    r = {"==": a.a[0] == b.a[0], "!=": a.a[0] != b.a[0], "<": a.a[0] < b.a[0], ">": a.a[0] > b.a[0], "<=": a.a[0] <= b.a[0], ">=": a.a[0] >= b.a[0]}[o]
                    return TRUE if r else FALSE
            except Exception:
                pass
        if o in ("==", "!=") and a.op in ("enum", "str") and a.op == b.op:
            r = (a is b) == (o == "==")
            return TRUE if r else FALSE
        if o in ("==", "!="):
            if a is NULL or b is NULL:
                x = b if a is NULL else a
                if x is NULL:
                    return TRUE if o == "==" else FALSE
                if x.op in ("new",):
                    return FALSE if o == "==" else TRUE
                t = N("un", "bool", x)
                return lnot(t) if o == "==" else t
            if a is TRUE or a is FALSE:
                a, b = b, a
            if b is TRUE:
                return a if o == "==" else lnot(a)
            if b is FALSE:
                return lnot(a) if o == "==" else a
            # constants to the right, otherwise a stable order
            if a.op in ("int", "float", "str", "enum", "bool") and b.op not in ("int", "float", "str", "enum", "bool"):
                a, b = b, a
            if o == "!=":
                return lnot(N("op", "==", a, b))
        if o == ">":
            return N("op", "<", b, a)
        if o == ">=":
            return N("op", "<=", b, a)
        if o == "+" and a.op == "str" and b.op == "str":
            return N("str", a.a[0] + b.a[0])
        return N("op", o, a, b)

    def e_un(self, e, fr, st):
        o = e["o"]
        if o in ("++", "--"):
            cur = self.ev(e["a"], fr, st)
            v = self.binop(o[0], cur, N("int", 1))
            self.assign(e["a"], v, fr, st, e["l"])
            return cur if e.get("post") else v
        a = self.ev(e["a"], fr, st)
        if o in ("*", "&"):
            return self.deref(a)
        if o == "!":
            return lnot(self.truth(a))
        if o == "-" and a.op == "int":
            return N("int", -a.a[0])
        if o == "-" and a.op == "float":
            return N("float", -a.a[0])
        return N("un", o, a)

    def deref(self, a):
        """*it for an iterator value; identity for pointers."""
        if a.op == "lv":
            b = a.a[2]
            if b.op == "call" and b.a[0].split("::")[-1] in ("begin", "cbegin", "rbegin"):
                return N("elem", b.a[1] if b.a[1] is not None else b.a[2][0])
        if a.op == "call" and a.a[0].split("::")[-1] in ("begin", "cbegin") and a.a[1] is not None:
            return N("at", a.a[1], N("int", 0))
        if a.op == "call" and a.a[0].endswith("::find") and a.a[1] is not None and len(a.a[2]) == 1:
            return N("found", a.a[1], a.a[2][0])
        return a

    def e_cond(self, e, fr, st):
        c = self.truth(self.ev(e["c"], fr, st))
        if c is TRUE:
            return self.ev(e["a"], fr, st)
        if c is FALSE:
            return self.ev(e["b"], fr, st)
        g0 = st.g
        a = st.copy()
        a.g = g0 + self.cond_guards(c, True)
        b = st.copy()
        b.g = g0 + self.cond_guards(c, False)
        va = vb = None
        if e["a"]["k"] == "throw":
            self.do_throw(e["a"], fr, a)
            a = None
        else:
            va = self.ev(e["a"], fr, a)
            if a.g is None:
                a = None
        if e["b"]["k"] == "throw":
            self.do_throw(e["b"], fr, b)
            b = None
        else:
            vb = self.ev(e["b"], fr, b)
            if b.g is None:
                b = None
        j = self.join(c, a, b, g0)
        if j is None:
            st.g = None
            return unk("term")
        st.store, st.heap, st.g = j.store, j.heap, j.g
        if a is None:
            return vb
        if b is None:
            return va
        return ite(c, va, vb)

    def e_idx(self, e, fr, st):
        return self.at(self.ev(e["a"], fr, st), self.ev(e["b"], fr, st), st)

    def at(self, c, i, st):
        if i.op == "lv" and i.a[2].op == "int" and i.a[2].a[0] == 0:
            return N("elem", c)
        return self.load(N("at", c, i), st)

    def e_new(self, e, fr, st):
        a = e.get("a")
        if a is not None and a["k"] == "ctor":
            v = self.ctor_value(a, fr, st, alloc=True)
            return v
        return N("new", e["t"], "", (self.ev(a, fr, st),) if a else ())

    def e_delete(self, e, fr, st):
        v = self.ev(e["a"], fr, st)
        self.emit("call", ("delete", "delete", None, v, ()), st, e["l"], fr)
        return unk("void")

    def e_throw(self, e, fr, st):
        self.do_throw(e, fr, st)
        st.g = None
        return unk("term")

    def e_cast(self, e, fr, st):
        v = self.ev(e["a"], fr, st)
        if e["ck"] == "dynamic":
            if e["t"].endswith("*"):
                return N("dyn", e["t"].rstrip(" *").replace("const ", ""), v)
            return v
        return v

    def e_typeid(self, e, fr, st):
        return N("typeid", e.get("t") or self.ev(e["a"], fr, st))

    def e_list(self, e, fr, st):
        return N("list", tuple(self.ev(x, fr, st) for x in e["a"]))

    def e_lambda(self, e, fr, st):
        self.lams.append((e, dict(fr.env), fr.this, fr.file, fr.dyn, {fr.env[c["n"]]: st.store.get(fr.env[c["n"]]) for c in e["caps"] if c.get("n") in fr.env and not c.get("ref")}))
        return N("lam", len(self.lams) - 1)

    def e_fref(self, e, fr, st):
        return N("fref", e["f"])

    def e_mref(self, e, fr, st):
        return N("mref", e["f"], self.ev(e["o"], fr, st))

    def e_other(self, e, fr, st):
        vs = [self.ev(x, fr, st) for x in e.get("a", ())]
        if e.get("s") == "CXXNoexceptExpr":
            return TRUE
        return N("other", e.get("s", "?"), tuple(vs))

    def e_sizeof(self, e, fr, st):
        return unk("sizeof")

    def e_icall(self, e, fr, st):
        c = self.ev(e["c"], fr, st)
        args = [self.ev(x, fr, st) for x in e["a"]]
        if c.op == "lam":
            return self.call_lam(c, args, e["a"], fr, st, e["l"])
        if c.op == "fref" and c.a[0] in self.p.funcs:
            return self.invoke(c.a[0], None, args, e["a"], fr, st, e["l"], {"n": c.a[0], "k": "call", "f": c.a[0]})
        self.emit("call", ("<indirect>", "<indirect>", None, c, tuple(args)), st, e["l"], fr)
        return N("call", "<indirect>", c, tuple(args))

    # ---- constructors
    def e_ctor(self, e, fr, st):
        return self.ctor_value(e, fr, st, alloc=False)

    def ctor_value(self, e, fr, st, alloc):
        c = e.get("c", "")
        a = e.get("a", [])
        if e.get("cp") and a:
            return self.ev(a[0], fr, st)
        f = e["f"]
        if f not in self.p.funcs and (c.startswith("stdcxx::Reference") or c.startswith("stdcxx::CReference") or c.startswith(STD_IDENTITY_CTOR)):
            if a:
                vs = [self.ev(x, fr, st) for x in a]
                if c.startswith("std::basic_string") and len(vs) > 2 and vs[0].op in ("int",):
                    return N("obj", c, f, tuple(vs))
                if vs[0].op == "global" and vs[0].a[0].startswith("boost::none"):
                    return NULL
                return vs[0]
            if c.startswith("std::basic_string"):
                return N("str", "")
            return NULL
        if c.startswith("stdcxx::Reference") or c.startswith("stdcxx::CReference"):
            if a:
                return self.ev(a[0], fr, st)
            return NULL
        if c.startswith("std::pair") and len(a) == 2:
            x, y = self.ev(a[0], fr, st), self.ev(a[1], fr, st)
            return N("pair", x, y)
        if c.startswith(("std::vector", "std::set", "std::map", "std::initializer_list", "std::array", "std::list")) and len(a) >= 1:
            vs = [self.ev(x, fr, st) for x in a]
            if vs[0].op == "list":
                return vs[0]
            return N("obj", c, f, tuple(v for v in vs if not (v.op == "obj" and v.a[0] == "std::allocator")))
        vs = [self.ev(x, fr, st) for x in a]
        vs = [v for v in vs if not (v.op == "obj" and v.a[0] == "std::allocator")]
        cls = e.get("t") or c
        v = N("new" if alloc else "obj", cls, f, tuple(vs))
        if is_noise(c) or c.startswith("boost::range_detail"):
            return v
        self.emit("ctor", (f, cls, v, tuple(vs)), st, e.get("l"), fr)
        if self.inline_ok(f, None):
            rec = self.p.funcs[f]
            self.inline(f, rec, v, vs, a, fr, st, e.get("l"), dyn=rec.get("c"))
        return v

    def call_ctor(self, e, fr, st, this, line):
        """Base/delegating constructor call on an object under construction."""
        f = e["f"]
        a = e.get("a", [])
        vs = [self.ev(x, fr, st) for x in a]
        self.emit("basector", (f, e.get("c"), this, tuple(vs)), st, line, fr)
        if self.inline_ok(f, this):
            self.inline(f, self.p.funcs[f], this, vs, a, fr, st, line, dyn=fr.dyn)
        elif f not in self.p.funcs and not a:
            self.implicit_ctor(e.get("c"), this, fr, st, line)

    def implicit_ctor(self, cid, this, fr, st, line):
        """Defaulted default constructor of a class template instance: bases, then in-class initialisers."""
        r = self.p.classes.get(cid)
        if not r or fr.depth > self.maxdepth:
            return
        nf = Frame(cid + "::<implicit>", this, r["file"], fr.dyn, fr.depth + 1)
        for b in r["bases"]:
            if b["c"] in self.p.classes:
                self.implicit_ctor(b["c"], this, nf, st, line)
        for fl in r["fields"]:
            if fl.get("init"):
                v = self.ev(fl["init"], nf, st)
                self.emit("store", (N("fld", this, fl["n"]), v), st, fl.get("l"), nf)
                if self.useheap:
                    st.heap[N("fld", this, fl["n"])] = v

    # ---- calls
    def e_call(self, e, fr, st):
        f = e["f"]
        n = e["n"]
        c = e.get("c", "")
        oe = e.get("o")
        ae = e.get("a", [])
        opc = e.get("opc")
        # assignment through overloaded operator= (std types, optional, Reference, defaulted)
        if opc == "=" and oe is not None and f not in self.p.funcs:
            v = self.ev(ae[0], fr, st)
            if v.op == "global" and v.a[0].startswith("boost::none"):
                v = NULL
            self.assign(oe, v, fr, st, e["l"])
            return v
        if opc == "+=" and oe is not None and f not in self.p.funcs:
            cur = self.ev(oe, fr, st)
            v = self.binop("+", cur, self.ev(ae[0], fr, st))
            self.assign(oe, v, fr, st, e["l"])
            return v
        if opc == "=" and is_ptr_class(c) and oe is not None:
            v = self.ev(ae[0], fr, st)
            self.assign(oe, v, fr, st, e["l"])
            return v
        obj = self.ev(oe, fr, st) if oe is not None else None
        if st.g is None:
            return unk("term")
        args = []
        for x in ae:
            args.append(self.ev(x, fr, st))
            if st.g is None:
                return unk("term")
        # --- lambda / functor call
        if opc == "()" or n == "operator()":
            if obj is not None and obj.op == "lam":
                return self.call_lam(obj, args, ae, fr, st, e["l"])
            if obj is not None and obj.op == "fref" and obj.a[0] in self.p.funcs:
                return self.invoke(obj.a[0], None, args, ae, fr, st, e["l"], e)
            if obj is not None and obj.op == "other" and obj.a[0] == "bind":
                return self.call_bind(obj, args, fr, st, e)
        r = self.intrinsic(f, n, c, obj, args, e, fr, st)
        if r is not None:
            return r
        return self.invoke(f, obj, args, ae, fr, st, e["l"], e)

    def call_bind(self, b, args, fr, st, e):
        return N("call", "<bind>", b, tuple(args))

    def intrinsic(self, f, n, c, obj, args, e, fr, st):
        opc = e.get("opc")
        ext = not f.startswith("powsybl::")
        if not ext:
            return None
        if f in ("std::move", "std::forward", "std::ref", "std::cref", "std::addressof", "std::as_const", "stdcxx::ref", "stdcxx::cref") and len(args) == 1:
            return args[0]
        if f.startswith("stdcxx::ref<") or f.startswith("stdcxx::cref<"):
            return args[0] if args else NULL
        if is_ptr_class(c):
            if n in DEREF_NAMES and not args:
                return self.deref(obj)
            if n == "operator bool" or n == "is_initialized":
                return self.truth(N("un", "bool", self.pointee(obj))) if self.pointee(obj).op not in ("new", "obj") else TRUE
            if n == "operator!":
                return lnot(N("un", "bool", self.pointee(obj))) if self.pointee(obj).op not in ("new", "obj") else FALSE
            if n.startswith("operator ") and n.endswith("&"):
                return obj
            if n == "reset":
                oe = e.get("o")
                self.assign(oe, args[0] if args else NULL, fr, st, e["l"])
                return unk("void")
            if n == "get_value_or" or n == "value_or":
                return ite(N("un", "bool", obj), obj, args[0])
        if opc in ("*", "->") and not args and obj is not None:
            return self.deref(obj)
        if opc == "!" and obj is not None and not args:
            return lnot(N("un", "bool", obj))
        if n in ("operator*", "operator->") and obj is not None and not args:
            return self.deref(obj)
        if opc == "[]" or (n == "at" and obj is not None and len(args) == 1 and not f.startswith("powsybl::iidm")):
            if not f.startswith("powsybl::"):
                return self.at(obj, args[0], st)
        if opc in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "|"):
            xs = ([obj] if obj is not None else []) + args
            if len(xs) == 2:
                if opc == "|":
                    return N("op", "|", xs[0], xs[1])
                return self.binop(opc, xs[0], xs[1])
        if opc in ("++", "--") and e.get("o") is not None and not f.startswith("powsybl::"):
            cur = obj
            if cur.op == "lv":
                return cur
            self.assign(e["o"], N("op", "+", cur, N("int", 1)), fr, st, e["l"])
            return cur
        if n == "operator bool" and obj is not None:
            return N("un", "bool", obj)
        if f in ("std::for_each",) and len(args) == 3 and args[2].op == "lam":
            cont = self.range_of(args[0], args[1])
            if cont is not None:
                return self.lam_loop(args[2], N("elem", cont), cont, fr, st, e["l"])
        if f == "std::make_pair" and len(args) == 2:
            return N("pair", args[0], args[1])
        if f.startswith("stdcxx::isInstanceOf<") and len(args) == 1:
            return N("isa", f.split("<")[1].split(",")[0].strip(), args[0])
        if f.startswith(("stdcxx::make_unique<",)) and f in self.p.funcs:
            return None
        if f in ("std::to_string",):
            return N("call", "std::to_string", None, tuple(args)) if args[0].op != "int" else N("str", str(args[0].a[0]))
        if f in ("std::isnan", "isnan"):
            return N("call", "std::isnan", None, tuple(args))
        if n == "str" and obj is None:
            return None
        if n == "c_str" and obj is not None:
            return obj
        if n == "data" and obj is not None and c.startswith("std::basic_string"):
            return obj
        return None

    def range_of(self, b, e):
        if b.op == "call" and b.a[0].split("::")[-1] in ("begin", "cbegin"):
            return b.a[1] if b.a[1] is not None else b.a[2][0]
        return None

    def lam_loop(self, lam, el, cont, fr, st, line):
        e, env, this, file, dyn, caps = self.lams[lam.a[0]]
        self.loopno += 1
        saved = self.loops
        self.loops = saved + (("range", cont, self.loopno),)
        names = self.assigned(e["body"])
        before = {}
        for d in names:
            c = env.get(d)
            if c is not None and c in st.store:
                before[c] = st.store[c]
                st.store[c] = N("lv", d, self.loopno, st.store[c])
        g0 = st.g
        self.call_lam(lam, [el], [None], fr, st, line)
        self.loops = saved
        for c, v in before.items():
            w = st.store.get(c, v)
            st.store[c] = N("phi", v, (w,)) if w is not v else v
        st.g = g0
        return unk("void")

    def call_lam(self, lam, args, ae, fr, st, line):
        e, env, this, file, dyn, caps = self.lams[lam.a[0]]
        if fr.depth > self.maxdepth + 6 or self.stack.count("<lambda>%d" % lam.a[0]) > 0:
            return unk("lamdepth")
        nf = Frame("<lambda>%d" % lam.a[0], this, file, dyn, fr.depth + 1)
        nf.env = dict(env)
        # captured by copy: values at creation
        savedvals = {}
        for c, v in caps.items():
            if v is not None and c in st.store:
                savedvals[c] = st.store[c]
                st.store[c] = v
            elif v is not None:
                st.store[c] = v
        for i, pr in enumerate(e["p"]):
            v = args[i] if i < len(args) else unk("lamarg")
            c = self.cell_of(ae[i], fr) if i < len(ae) and ae[i] and self.byref(pr["t"]) else None
            if c is not None and c in st.store:
                nf.env[pr["d"]] = c
            else:
                self.bind(nf, st, pr["d"], v)
        self.stack.append(nf.fid)
        r = self.run_body(e["body"], None, nf, st)
        self.stack.pop()
        for c, v in savedvals.items():
            if st.g is not None:
                st.store[c] = v
        return r

    def byref(self, t):
        return t.endswith("&") and not t.startswith("const ")

    def run_body(self, body, rec, nf, st):
        """Runs a callee body on a copy of st, joins its returns into st; returns the gated value."""
        g0 = st.g
        q = st.copy()
        if rec is not None:
            q = self.body(rec, nf, q)
        else:
            q = self.ex(body, nf, q)
            if q is not None:
                nf.rets.append((q, None))
        if not nf.rets:
            st.g = None
            return unk("noreturn")
        res, val = self.join_states(nf.rets, g0)
        st.store, st.heap, st.g = res.store, res.heap, res.g
        return val if val is not None else unk("void")

    def ret_cond(self, g, base):
        cs = [(c if p else lnot(c)) for c, p in g[len(base):] if c.op != "imp"]
        if not cs:
            return TRUE
        r = cs[0]
        for c in cs[1:]:
            r = N("op", "&&", r, c)
        return r

    def join_rets(self, rets, base):
        if not rets:
            return None
        return self.join_states(rets, base)[1]

    def join_states(self, rets, base):
        if len(rets) == 1:
            return rets[0]
        # common prefix of guards over all returns
        n = min(len(s.g) for s, _ in rets)
        k = 0
        while k < n and all(s.g[k] == rets[0][0].g[k] for s, _ in rets):
            k += 1
        cp = rets[0][0].g[:k]
        # group by discriminating on the first differing guard where possible
        st, v = rets[-1]
        for s2, v2 in reversed(rets[:-1]):
            # the condition of the earlier return: its guards after the common prefix, first element decides
            cond = self.ret_cond(s2.g, cp)
            st = self.join(cond, s2, st, cp)
            if v is None or v2 is None:
                v = v2 if v is None else v
            else:
                v = ite(cond, v2, v)
        return st, v

    def inline_ok(self, f, obj):
        rec = self.p.funcs.get(f)
        if rec is None or not (rec.get("body") or rec.get("inits")):
            return False
        if len(self.stack) >= self.maxdepth or self.recursive(f) or is_noise(f):
            return False
        c = rec.get("c") or ""
        if c.endswith(("Exception", "Error")):
            return False
        return self.policy(f, rec, obj, len(self.stack))

    def dynclass(self, obj, fr):
        if obj is None:
            return None
        if obj.op in ("new", "obj"):
            return obj.a[0]
        if obj is fr.this:
            return fr.dyn
        return None

    def resolve(self, f, e, obj, fr):
        """Devirtualise when the dynamic class is known."""
        if not e.get("v"):
            return f
        dc = self.dynclass(obj, fr)
        if dc:
            r = self.p.find_override(dc, f)
            if r:
                return r
        if self.virt:
            r = self.virt(f, obj, fr)
            if r:
                return r
        return f

    def invoke(self, f, obj, args, ae, fr, st, line, e):
        rf = self.resolve(f, e, obj, fr)
        name = e.get("n") or rf
        virt = e.get("v") and rf == f and not self.dynclass(obj, fr)
        if (not virt or self.virt_single(rf)) and self.inline_ok(rf, obj):
            rec = self.p.funcs[rf]
            self.emit("enter", (rf, name, e.get("c"), obj, tuple(args)), st, line, fr)
            return self.inline(rf, rec, obj, args, ae, fr, st, line, dyn=self.dynclass(obj, fr) or rec.get("c"))
        # opaque: lambdas passed as arguments may be called back
        a2 = []
        cbs = [a for a in args if a.op == "lam"]
        for i, a in enumerate(args):
            if a.op == "lam":
                a2.append(self.callback(a, rf, obj, tuple(x for x in args if x.op != "lam"), fr, st, line))
            else:
                a2.append(a)
        v = N("call", rf, obj, tuple(a2))
        if is_noise(rf):
            return v
        self.emit("call", (rf, name, e.get("c"), obj, tuple(a2), v), st, line, fr)
        self.effect_of_opaque(rf, name, e, obj, args, ae, fr, st)
        if self.never_returns(rf):
            st.g = None
        return v

    def never_returns(self, f):
        return False

    def virt_single(self, f):
        """With class hierarchy analysis on: no class derived from f's class overrides f."""
        return self.cha and self.p.final_override(f)

    def effect_of_opaque(self, f, name, e, obj, args, ae, fr, st):
        if obj is not None and st.heap and not f.endswith(" const"):
            for k in [k for k in st.heap if self.rooted(k, obj)]:
                del st.heap[k]
        # locals passed by non-const reference to an unknown function may change
        oc = self.cell_of(e["o"], fr) if e.get("o") else None
        if oc is not None and obj.op in ("str", "list") and name in ("append", "push_back", "insert", "clear", "erase", "emplace_back", "assign"):
            st.store[oc] = N("mut", obj, name, tuple(args))

    def rooted(self, k, root):
        while k.op in ("fld", "at"):
            k = k.a[0]
            if k is root:
                return True
        return False

    def callback(self, lam, f, obj, others, fr, st, line):
        e = self.lams[lam.a[0]][0]
        saved = self.loops
        self.loopno += 1
        self.loops = saved + (("cb", N("cbof", f, obj, others), self.loopno),)
        args = [N("lparam", f, obj, others, i) for i in range(len(e["p"]))]
        env = self.lams[lam.a[0]][1]
        names = self.assigned(e["body"])
        before = {}
        for d in names:
            c = env.get(d)
            if c is not None and c in st.store:
                before[c] = st.store[c]
        g0 = st.g
        q = st.copy()
        v = self.call_lam(lam, args, [None] * len(args), fr, q, line)
        if q.g is not None:
            for c, old in before.items():
                new = q.store.get(c, old)
                if new is not old:
                    st.store[c] = N("phi", old, (new,))
            for k in list(st.heap):
                if q.heap.get(k) is not st.heap[k]:
                    del st.heap[k]
        self.loops = saved
        return N("lamv", v)

    def inline(self, f, rec, obj, args, ae, fr, st, line, dyn=None):
        self.inlined.add(f)
        nf = Frame(f, obj if obj is not None else fr.this if rec.get("c") and not rec.get("static") else N("this"), rec["file"], dyn, fr.depth + 1)
        for i, pr in enumerate(rec["p"]):
            v = args[i] if i < len(args) else unk("arg")
            c = None
            if i < len(ae) and ae[i] is not None and (self.byref(pr["t"])):
                c = self.cell_of(ae[i], fr)
            if c is not None and c in st.store and st.store[c].op not in ("fld", "at", "elem", "call", "param"):
                nf.env[pr["d"]] = c
            else:
                self.bind(nf, st, pr["d"], v)
        self.stack.append(f)
        r = self.run_body(None, rec, nf, st)
        self.stack.pop()
        return r


# ---------------------------------------------------------------------- class hierarchy helpers
def install(prog):
    """Adds hierarchy queries to a loaded Program."""
    derived = {}
    for c in prog.classes.values():
        for b in c["bases"]:
            derived.setdefault(b["c"], []).append(c["id"])
    prog.derived = derived

    methods = {}
    for c in prog.classes.values():
        for m in c["methods"]:
            methods[m["f"]] = (c["id"], m)
    prog.methods = methods

    def bases(cid, seen=None):
        """All base classes, nearest first (cid included)."""
        out = []
        todo = [cid]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            r = prog.classes.get(x)
            if r:
                todo += [b["c"] for b in r["bases"]]
        return out
    prog.bases = bases

    def subclasses(cid):
        out = []
        todo = [cid]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.append(x)
            todo += derived.get(x, [])
        return out
    prog.subclasses = subclasses

    ovcache = {}

    def overrides_of(f):
        """Transitive set of methods f overrides."""
        if f in ovcache:
            return ovcache[f]
        out = {f}
        cm = methods.get(f)
        if cm:
            for o in cm[1].get("ov", ()):
                out |= overrides_of(o)
        ovcache[f] = out
        return out
    prog.overrides_of = overrides_of

    focache = {}

    def find_override(cid, f):
        """The method run when f (virtual) is called on an object whose dynamic class is cid."""
        k = (cid, f)
        if k in focache:
            return focache[k]
        res = None
        for b in bases(cid):
            r = prog.classes.get(b)
            if not r:
                continue
            for m in r["methods"]:
                if f in overrides_of(m["f"]):
                    res = m["f"]
                    break
            if res:
                break
        focache[k] = res
        return res
    prog.find_override = find_override

    fincache = {}

    def final_override(f):
        if f not in fincache:
            c = prog.funcs.get(f, {}).get("c")
            fincache[f] = bool(c) and all(find_override(s, f) == f for s in subclasses(c))
        return fincache[f]
    prog.final_override = final_override

    def fields(cid):
        out = []
        for b in reversed(bases(cid)):
            r = prog.classes.get(b)
            if r:
                for f in r["fields"]:
                    out.append((b, f))
        return out
    prog.all_fields = fields

    byqn = {}
    for f in prog.funcs.values():
        byqn.setdefault(f["qn"], []).append(f["id"])
    prog.byqn = byqn
    return prog
