"""Property simulation: path-sensitive dataflow over a flattened function.

The abstract state at a program point is (rule automaton state, value
constraints on resolved terms, tracked memory cells).  States are propagated
over the control-flow graph to a fixpoint; states that agree on the rule's
automaton and its tracked terms are joined when a block holds too many of
them.  Terms are canonical descriptions of values (field loads, call results,
comparisons), so that the same decision written differently gives the same
term.  Nothing is executed and no path is handed to a solver."""
import heapq
from ir import Broken, dominates

_intern = {}


class T:
    __slots__ = ("k", "a", "d", "sites", "st", "__weakref__")

    def __repr__(self):
        return show(self)


EMPTY = frozenset()
MAXD = 18


def mk(k, *a):
    key = (k,) + a
    t = _intern.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        d = 0
        s = EMPTY
        for x in a:
            if isinstance(x, T):
                d = max(d, x.d)
                s = s | x.sites
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        d = max(d, y.d)
                        s = s | y.sites
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                d = max(d, z.d)
                                s = s | z.sites
        t.d = d + 1
        t.sites = s
        t.st = None
        _intern[key] = t
    return t


def site(k, sid, *a):
    t = mk(k, sid, *a)
    if sid not in t.sites:
        t.sites = t.sites | {sid}
    return t


def C(n):
    return mk("c", n)


ZERO = C(0)
UNDEF = mk("undef")


def isc(t):
    return t.k == "c"


def off(base, n, st=None):
    if base.k == "off":
        if st is None and n == 0:
            return base
        return off(base.a[0], base.a[1] + n, st if st is not None else base.a[2] if n == 0 else st)
    if n == 0 and st is None:
        return base
    return mk("off", base, n, st)


def akey(addr):
    """(root term, byte offset)"""
    if addr.k == "off":
        return (addr.a[0], addr.a[1])
    return (addr, 0)


def ast(addr):
    if addr.k == "off":
        return addr.a[2]
    return None


def under(t):
    while t.k in ("off", "idx"):
        t = t.a[0]
    return t


def wrap(n, w):
    if w >= 64:
        w = 64
    n &= (1 << w) - 1
    if n >> (w - 1):
        n -= 1 << w
    return n


def bits(ty):
    if ty.startswith("i") and ty[1:].isdigit():
        return int(ty[1:])
    return 64


def nbytes(ty):
    if ty == "double":
        return 8
    if ty == "float":
        return 4
    return max(1, bits(ty) // 8)


def neg(t):
    if t.k == "not":
        return t.a[0]
    if isc(t):
        return C(0 if t.a[0] else 1)
    return mk("not", t)


COMM = {"add", "mul", "and", "or", "xor", "fadd", "fmul"}


def mkbin(op, a, b, w=64):
    if a.k == "undef" or b.k == "undef":
        return UNDEF
    if isc(a) and isc(b):
        x, y = a.a[0], b.a[0]
        m = (1 << w) - 1
        try:
            if op == "add": return C(wrap(x + y, w))
            if op == "sub": return C(wrap(x - y, w))
            if op == "mul": return C(wrap(x * y, w))
            if op == "and": return C(wrap(x & y, w) if w > 1 else x & y)
            if op == "or": return C(wrap(x | y, w) if w > 1 else x | y)
            if op == "xor": return C(wrap(x ^ y, w) if w > 1 else (x ^ y) & 1)
            if op == "shl": return C(wrap(x << y, w)) if 0 <= y < w else mk("bin", op, a, b)
            if op == "lshr": return C(wrap((x & m) >> y, w)) if 0 <= y < w else mk("bin", op, a, b)
            if op == "ashr": return C(x >> y) if 0 <= y < w else mk("bin", op, a, b)
            if op in ("sdiv",) and y: return C(wrap(int(x / y) if abs(x) < 2**52 else (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1), w))
            if op in ("udiv",) and y: return C(wrap((x & m) // (y & m), w))
            if op in ("urem",) and y: return C(wrap((x & m) % (y & m), w))
            if op in ("srem",) and y: return C(wrap(abs(x) % abs(y) * (1 if x >= 0 else -1), w))
        except Exception:
            pass
    if op in COMM:
        if isc(a) and not isc(b):
            a, b = b, a
        elif not isc(b) and repr_key(b) < repr_key(a):
            a, b = b, a
    if op == "sub" and isc(b):
        return mkbin("add", a, C(-b.a[0]), w)
    if isc(b):
        n = b.a[0]
        if op in ("add", "or", "xor", "shl", "lshr", "ashr") and n == 0:
            return a
        if op in ("mul", "sdiv", "udiv") and n == 1:
            return a
        if op in ("mul", "and") and n == 0:
            return ZERO
        if op == "add" and a.k == "bin" and a.a[0] == "add" and isc(a.a[2]):
            return mkbin("add", a.a[1], C(wrap(a.a[2].a[0] + n, w)), w)
        if op == "xor" and n in (1, -1) and is_bool(a):
            return neg(a)
        if op == "and" and n == 1 and is_boolz(a):
            return a
    if op == "sub" and a is b:
        return ZERO
    if op in ("sub",) and a.k == "bin" and a.a[0] == "add" and a.a[1] is b:
        return a.a[2]
    if op in ("and", "or") and a is b:
        return a
    return mk("bin", op, a, b)


def is_bool(t):
    return t.k in ("cmp", "not", "fcmp")


def is_boolz(t):
    return is_bool(t) or (t.k == "cast" and t.a[0] == "zext" and is_bool(t.a[1]))


_rk = {}


def repr_key(t):
    r = _rk.get(t)
    if r is None:
        r = len(_rk)
        _rk[t] = r
    return r


NONNULL = ("al", "g", "f")


def range0(t):
    """range implied by the shape of a term"""
    if isc(t):
        return (t.a[0], t.a[0])
    if t.k == "cast":
        o, x, fb, tb = t.a
        if o == "zext" and fb < 63:
            lo, hi = range0(x)
            if lo >= 0:
                return (lo, min(hi, (1 << fb) - 1))
            return (0, (1 << fb) - 1)
        if o == "sext":
            return max(-(1 << (fb - 1)), range0(x)[0]), min((1 << (fb - 1)) - 1, range0(x)[1])
    if t.k == "bin" and t.a[0] == "and" and isc(t.a[2]) and t.a[2].a[0] >= 0:
        return (0, t.a[2].a[0])
    if t.k in ("cmp", "not", "fcmp"):
        return (0, 1)
    return (-(1 << 63), (1 << 63) - 1)


def mkcmp(pred, a, b, w=64):
    if a.k == "undef" or b.k == "undef":
        return mk("cmp", "undef", a, b)
    if pred == "ne":
        return neg(mkcmp("eq", a, b, w))
    if pred in ("sge", "uge"):
        return neg(mkcmp(pred[0] + "lt", a, b, w))
    if pred in ("sgt", "ugt"):
        return mkcmp(pred[0] + "lt", b, a, w)
    if pred in ("sle", "ule"):
        return neg(mkcmp(pred[0] + "lt", b, a, w))
    m = (1 << w) - 1
    if isc(a) and isc(b):
        x, y = a.a[0], b.a[0]
        if pred == "eq": return C(int((x & m) == (y & m)))
        if pred == "slt": return C(int(x < y))
        if pred == "ult": return C(int((x & m) < (y & m)))
    if a is b:
        return C(1 if pred == "eq" else 0)
    if pred == "eq":
        if isc(a):
            a, b = b, a
        if isc(b):
            n = b.a[0]
            # peel
            if a.k in ("cmp", "not", "fcmp"):
                return a if n in (1, -1) else neg(a) if n == 0 else ZERO
            if a.k == "cast" and a.a[0] in ("zext", "sext"):
                x = a.a[1]
                if is_bool(x):
                    return x if (n == 1 or (n == -1 and a.a[0] == "sext")) else neg(x) if n == 0 else ZERO
                fb = a.a[2]
                if a.a[0] == "zext":
                    if n < 0 or n >= (1 << fb):
                        return ZERO
                    return mkcmp("eq", x, C(wrap(n, fb)), fb)
                if wrap(n, fb) == n:
                    return mkcmp("eq", x, b, fb)
                return ZERO
            if a.k == "bin" and a.a[0] == "add" and isc(a.a[2]):
                return mkcmp("eq", a.a[1], C(wrap(n - a.a[2].a[0], w)), w)
            if n == 0 and a.k == "bin" and a.a[0] == "sub":
                return mkcmp("eq", a.a[1], a.a[2], w)
            if n == 0 and a.k == "bin" and a.a[0] == "xor":
                return mkcmp("eq", a.a[1], a.a[2], w)
            if n == 0 and (a.k in NONNULL or (a.k == "off" and a.a[1] != 0 and a.a[1] > 0) or
                           (a.k in ("off", "idx") and under(a).k in NONNULL)):
                return ZERO
            if n == 0 and a.k == "off" and a.a[1] == 0:
                return mkcmp("eq", a.a[0], b, w)
            return mk("cmp", "eq", a, b)
        if a.k == "cast" and b.k == "cast" and a.a[0] == b.a[0] and a.a[0] in ("zext", "sext") and a.a[2] == b.a[2]:
            return mkcmp("eq", a.a[1], b.a[1], a.a[2])
        if a.k == "off" and b.k == "off" and a.a[0] is b.a[0]:
            return C(int(a.a[1] == b.a[1]))
        if under(a).k in NONNULL and under(b).k in NONNULL and under(a) is not under(b):
            return ZERO
        if repr_key(b) < repr_key(a):
            a, b = b, a
        return mk("cmp", "eq", a, b)
    # slt / ult : constant always on the right
    if isc(a):
        n = a.a[0]
        if pred == "slt":
            if n >= (1 << (w - 1)) - 1:
                return ZERO
            return neg(mkcmp("slt", b, C(n + 1), w))
        u = n & m
        if u == m:
            return ZERO
        return neg(mkcmp("ult", b, C(wrap(u + 1, w)), w))
    if isc(b):
        n = b.a[0]
        if pred == "ult":
            if n == 0:
                return ZERO
            if (n & m) == 1:
                return mkcmp("eq", a, ZERO, w)
            lo, hi = range0(a)
            if lo >= 0 and hi < (1 << 62):
                if n < 0:
                    return C(1)
                pred = "slt"
            elif n == -(1 << (w - 1)):
                return neg(mkcmp("slt", a, ZERO, w))
        if pred == "slt":
            lo, hi = range0(a)
            if hi < n:
                return C(1)
            if lo >= n:
                return ZERO
            if a.k == "cast" and a.a[0] == "sext":
                return mkcmp("slt", a.a[1], b, a.a[2])
            if a.k == "bin" and a.a[0] == "add" and isc(a.a[2]):
                return mkcmp("slt", a.a[1], C(n - a.a[2].a[0]), w)
    else:
        if a.k == "cast" and b.k == "cast" and a.a[0] == b.a[0] and a.a[0] in ("zext", "sext") and a.a[2] == b.a[2]:
            return mkcmp("slt" if a.a[0] == "sext" and pred == "slt" else "ult", a.a[1], b.a[1], a.a[2])
    return mk("cmp", pred, a, b)


class State:
    __slots__ = ("env", "mem", "facts", "clob", "esc", "auto", "path", "prev")

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.clob = self.clob
        s.esc = self.esc
        s.auto = self.auto
        s.path = self.path
        s.prev = self.prev
        return s

    def lines(self):
        """witness path as a list of block ids, oldest first"""
        out = []
        p = self.path
        while p:
            out.append(p[1])
            p = p[0]
        out.reverse()
        return out


JOINED = mk("joined")
FULL = (-(1 << 63), (1 << 63) - 1, EMPTY)


class Rule:
    """Base class of a property-simulation rule."""
    name = "rule"
    init = ()
    models = {}
    peel = False
    keepmem = False
    deadlocals = False   # forget the contents of locals nothing refers to any more
    symbool = False      # loop-carried choices of constants are symbolic as well
    marks = False        # joined states carry the fact JOINED
    symacc = False       # every loop variable that is not a mere choice of constants is symbolic

    early = None         # call the rule has begun to interpret before the engine does

    def header(self, S, st, dst):
        """a turn of a loop begins"""

    def inline(self, F, I):
        return F.internal

    def tracked(self, t):
        """facts to keep although nothing in the code can ask for them again"""
        return False

    def joinval(self, v, w):
        return None

    def canon(self, S, v):
        return v

    def step(self, S, st, I):
        pass

    def edge(self, S, st, src, dst):
        pass

    def exit(self, S, st, I, ret):
        pass


# external functions that write nothing the analyses track
PURE_EXT = {"memcmp", "strlen", "strcmp", "strncmp", "abort", "exit", "printf",
            "fprintf", "puts", "putchar", "write", "close", "free", "atoi", "getenv", "perror",
            "strcasecmp", "strncasecmp", "isspace", "toupper", "tolower",
            "sched_yield", "usleep", "rand", "strchr", "strrchr", "strstr", "fsync", "rename", "unlink", "remove"}


class Sim:
    def __init__(self, prog, flat, rule, cap=300, budget=400000):
        self.prog = prog
        self.f = flat
        self.rule = rule
        self.cap = cap
        self.budget = budget
        self.reports = []
        self.seenrep = set()
        self.nstates = 0
        self.nsteps = 0
        self.joins = 0
        self.exits = 0
        self.inst_of = {}
        self._ls = {}
        for I in flat.insts():
            self.inst_of[I.id] = I
        self.inloop = set()
        for h, body in flat.loops.items():
            self.inloop |= body
        self.loopsites = {}
        for h, body in flat.loops.items():
            s = set()
            for b in body:
                for I in flat.blocks[b].insts:
                    s.add(I.id)
            self.loopsites[h] = s
        self._live()
        self._loadlive()
        self.localive = self._localive() if rule.deadlocals else None

    # ---- static pruning information --------------------------------------
    def _live(self):
        f = self.f
        use = {}
        deff = {}
        phiuse = {}
        for b in f.blocks.values():
            u = set(); d = set()
            for I in b.insts:
                if I.op == "phi":
                    for v, p in I.a:
                        if v[0] == "v":
                            phiuse.setdefault(p, set()).add(v[1])
                else:
                    for v in self._ops(I):
                        if v[0] == "v" and v[1] not in d:
                            u.add(v[1])
                        elif v[0] == "ge":
                            pass
                d.add(I.id)
            use[b.id] = u; deff[b.id] = d
        livein = {b: set() for b in f.blocks}
        changed = True
        while changed:
            changed = False
            for b in reversed(f.order):
                out = set(phiuse.get(b, ()))
                for s in f.blocks[b].succs:
                    out |= livein[s]
                n = use[b] | (out - deff[b])
                if n != livein[b]:
                    livein[b] = n
                    changed = True
        # phis are live-in when used: keep ids defined by phis of the block
        self.livein = {}
        for b in f.blocks:
            phis = {I.id for I in f.blocks[b].insts if I.op == "phi"}
            self.livein[b] = livein[b] | phis
        # values the rule wants to keep
        self.livedef = livein

    def _ops(self, I):
        for v in I.a:
            yield v
        if I.callee is not None:
            yield I.callee
        if I.op == "getelementptr":
            for v, s in I.d["vars"]:
                yield v

    def _loadlive(self):
        """per block: can a memory read still happen?  The set of (struct,
        offset) classes that may still be loaded from here on; None means
        everything (calls read through pointers)"""
        f = self.f
        gen = {}
        defs = self.inst_of
        for b in f.blocks.values():
            g = set()
            for I in b.insts:
                if I.op == "load":
                    p = I.a[0]
                    if p[0] == "v" and p[1] in defs and defs[p[1]].op == "getelementptr" and defs[p[1]].d["path"]:
                        g.add(tuple(defs[p[1]].d["path"][-1]))
                    else:
                        g.add("?")
                elif I.op == "call":
                    g.add("call")
            gen[b.id] = g
        inn = {b: set(gen[b]) for b in f.blocks}
        changed = True
        while changed:
            changed = False
            for b in reversed(f.order):
                n = set(gen[b])
                for s in f.blocks[b].succs:
                    n |= inn[s]
                if n != inn[b]:
                    inn[b] = n
                    changed = True
        self.readlater = inn

    def _localive(self):
        """per block: locals whose memory may still be referred to"""
        root = {}
        allocas = [I.id for I in self.f.insts() if I.op == "alloca"]
        for a in allocas:
            root[a] = {a}
        stored = {}       # alloca -> allocas its address is stored into; None: anywhere
        insts = list(self.f.insts())

        def roots(v):
            while v[0] == "ge":
                v = v[1]
            return root.get(v[1], ()) if v[0] == "v" else ()

        def grow(d, k, n):
            o = d.setdefault(k, set())
            if n <= o:
                return False
            o |= n
            return True
        ch = True
        while ch:
            ch = False
            for I in insts:
                op = I.op
                if op in ("getelementptr", "bitcast", "freeze", "select", "phi"):
                    n = set()
                    for v in ([o for o, p in I.a] if op == "phi" else I.a):
                        n |= set(roots(v))
                    if n:
                        ch |= grow(root, I.id, n)
                elif op == "load" and I.ty == "ptr":
                    r = set(roots(I.a[0]))
                    n = {a for a, to in stored.items() if None in to or to & r}
                    if n:
                        ch |= grow(root, I.id, n)
                elif op == "store":
                    for a in set(roots(I.a[0])):
                        ch |= grow(stored, a, set(roots(I.a[1])) or {None})
                elif op == "ptrtoint":
                    for a in set(roots(I.a[0])):
                        ch |= grow(stored, a, {None})
                elif op == "call" and (self.callee_name(I) or "").startswith(("llvm.memcpy", "llvm.memmove")):
                    r = set(roots(I.a[1]))
                    for a, to in list(stored.items()):
                        if to & r:
                            ch |= grow(stored, a, set(roots(I.a[0])) or {None})
        out = {}
        for b, live in self.livein.items():
            l = set()
            for v in live:
                l |= root.get(v, set())
            l |= {a for a, to in stored.items() if None in to}
            ch = True
            while ch:
                ch = False
                for a, to in stored.items():
                    if a not in l and to & l:
                        l.add(a)
                        ch = True
            out[b] = l
        return out

    # ---- values ----------------------------------------------------------
    def val(self, st, o):
        k = o[0]
        if k == "v":
            t = st.env.get(o[1])
            if t is None:
                if o[1] in self.f.param_index:
                    t = mk("p", self.f.param_index[o[1]])
                else:
                    t = site("x", o[1])
                st.env[o[1]] = t
            return t
        if k == "c":
            return C(o[1])
        if k == "n":
            return ZERO
        if k == "g":
            return mk("g", o[1])
        if k == "f":
            return mk("f", o[1])
        if k == "ge":
            return off(self.val(st, o[1]), o[2])
        if k == "d":
            return mk("d", repr(o[1]))
        return UNDEF

    # ---- facts -----------------------------------------------------------
    def get(self, st, t):
        if isc(t):
            return (t.a[0], t.a[0], EMPTY)
        r = st.facts.get(t)
        lo, hi = range0(t)
        if r is None:
            if t.k == "cast" and t.a[0] == "zext" and is_bool(t.a[1]):
                tv = self.truth(st, t.a[1])
                if tv is not None:
                    return (int(tv), int(tv), EMPTY)
            if is_bool(t):
                tv = self.truth(st, t)
                if tv is not None:
                    return (int(tv), int(tv), EMPTY)
            if t.k == "cast" and t.a[0] in ("zext", "sext"):
                l2, h2, e2 = self.get(st, t.a[1])
                if t.a[0] == "sext" or l2 >= 0:
                    return (max(lo, l2), min(hi, h2), e2)
                if t.a[0] == "zext" and 0 in e2:
                    return (lo, hi, frozenset([0]))
            if t.k == "bin" and t.a[0] == "add" and isc(t.a[2]):
                l2, h2, e2 = self.get(st, t.a[1])
                n = t.a[2].a[0]
                if l2 > -(1 << 62) and h2 < (1 << 62) and abs(n) < (1 << 61):
                    return (l2 + n, h2 + n, frozenset(x + n for x in e2))
            return (lo, hi, EMPTY)
        return (max(lo, r[0]), min(hi, r[1]), r[2])

    def truth(self, st, t):
        """True/False/None of a boolean term in st"""
        if isc(t):
            return t.a[0] != 0
        if t.k == "not":
            r = self.truth(st, t.a[0])
            return None if r is None else not r
        r = st.facts.get(t)
        if r is not None and r[0] == r[1]:
            return r[0] != 0
        if t.k == "cmp":
            p, a, b = t.a
            if p == "undef":
                return None
            al, ah, ae = self.get(st, a)
            bl, bh, be = self.get(st, b)
            if p == "eq":
                if al == ah and bl == bh:
                    return al == bl
                if ah < bl or bh < al:
                    return False
                if isc(b) and b.a[0] in ae:
                    return False
                if isc(a) and a.a[0] in be:
                    return False
                return None
            if p == "slt":
                if ah < bl:
                    return True
                if al >= bh:
                    return False
                # a < b known from a previous comparison of the same pair
                r2 = st.facts.get(mk("cmp", "slt", b, a)) if not isc(b) else None
                if r2 is not None and r2[0] == 1:
                    return False
                re = None if isc(b) else st.facts.get(mk("cmp", "eq", *sorted((a, b), key=repr_key)))
                if re is not None and re[0] == 1:
                    return False
                return None
            if p == "ult":
                if al >= 0 and bl >= 0:
                    if ah < bl:
                        return True
                    if al >= bh:
                        return False
                if bl == bh == 0:
                    return False
                return None
            return None
        if t.k == "fcmp":
            return None
        l, h, e = self.get(st, t)
        if l == h:
            return l != 0
        if l > 0 or h < 0 or 0 in e:
            return True
        return None

    def assume(self, st, t, v):
        """refine st by (t is v); returns False when infeasible"""
        while t.k == "not":
            t = t.a[0]
            v = not v
        r = self.truth(st, t)
        if r is not None:
            return r == v
        if t.k == "cmp":
            p, a, b = t.a
            st.facts[t] = (1, 1, EMPTY) if v else (0, 0, EMPTY)
            if isc(b) and p in ("eq", "slt"):
                n = b.a[0]
                lo, hi, ex = self.get(st, a)
                if p == "eq":
                    if v:
                        lo, hi, ex = max(lo, n), min(hi, n), EMPTY
                    else:
                        ex = ex | {n}
                else:
                    if v:
                        hi = min(hi, n - 1)
                    else:
                        lo = max(lo, n)
                while lo in ex and lo <= hi:
                    ex = ex - {lo}
                    lo += 1
                while hi in ex and hi >= lo:
                    ex = ex - {hi}
                    hi -= 1
                if lo > hi:
                    return False
                ex = frozenset(x for x in ex if lo < x < hi)
                if len(ex) > 24:
                    ex = EMPTY
                del st.facts[t]
                st.facts[a] = (lo, hi, ex)
            elif p == "eq" and v and not isc(b):
                # propagate known ranges across an equality
                al, ah, ae = self.get(st, a)
                bl, bh, be = self.get(st, b)
                lo, hi = max(al, bl), min(ah, bh)
                if lo > hi:
                    return False
            elif p == "ult" and isc(b):
                lo, hi, ex = self.get(st, a)
                n = b.a[0]
                if v and n > 0:
                    # a in [0, n)
                    lo, hi = max(lo, 0), min(hi, n - 1)
                    if lo > hi:
                        return False
                    st.facts[a] = (lo, hi, ex)
                    del st.facts[t]
            return True
        if t.k == "fcmp" or t.k == "sel":
            st.facts[t] = (1, 1, EMPTY) if v else (0, 0, EMPTY)
            return True
        # integer used as boolean
        lo, hi, ex = self.get(st, t)
        if v:
            ex = ex | {0}
            if lo == 0:
                lo = 1
                ex = ex - {0}
        else:
            lo, hi, ex = 0, 0, EMPTY
        if lo > hi:
            return False
        st.facts[t] = (lo, hi, ex)
        return True

    # ---- memory ----------------------------------------------------------
    def may_alias(self, st, A, nA, key, ent):
        rA, oA = akey(A)
        rB, oB = key
        if rA is rB:
            if nA is None:
                return True
            return oA < oB + ent[1] and oB < oA + nA
        uA, uB = under(rA), under(rB)
        sA, sB = ast(A), ent[2]
        if uA is uB:
            # same object, at least one dynamic index
            if sA and sB and sA != sB:
                return False
            return True
        if uA.k in ("al", "g") and uB.k in ("al", "g"):
            return False
        if uA.k == "al" and uA not in st.esc:
            return False
        if uB.k == "al" and uB not in st.esc:
            return False
        if sA and sB and sA != sB:
            return False
        if (sA is None) != (sB is None):
            return False
        if sA is None and sB is None:
            return uA.k not in ("al", "g") or uB.k not in ("al", "g")
        return True

    def kill(self, st, A, n):
        dead = [k for k, e in st.mem.items() if k[0] != "Z" and self.may_alias(st, A, n, k, e)]
        for k in dead:
            del st.mem[k]
        u = under(A)
        if n is None:
            for k in [k for k in st.mem if k[0] == "Z" and k[1] is u]:
                del st.mem[k]
        if u.k == "al" and u not in st.esc:
            c = ("root", u)
        elif ast(A):
            c = ("st",) + tuple(ast(A))
        else:
            c = ("root", u)
        if c not in st.clob:
            st.clob = st.clob | {c}

    def clobbered(self, st, A):
        u = under(A)
        if ("root", u) in st.clob:
            return True
        if u.k == "al" and u not in st.esc:
            return False
        if "*" in st.clob:
            return True
        s = ast(A)
        if s and (("st",) + tuple(s) in st.clob or ("st", s[0], "*") in st.clob):
            return True
        return False

    def load(self, st, I, A, ty):
        k = akey(A)
        n = nbytes(ty)
        e = st.mem.get(k)
        if e is not None and e[1] == n:
            return e[0]
        if e is None and st.mem:
            u = under(A)
            if u.k == "al" and akey(A)[0] is u:
                o = k[1]
                for kk in st.mem:
                    if kk[0] == "Z" and kk[1] is u and kk[2] <= o and o + n <= kk[3]:
                        return ZERO
        u = under(A)
        if u.k == "g" and k[0] is u:
            g = self.prog.glob(u.a[0])
            if g is not None and g.get("init") and (g["const"] or self.prog.never_stored(u.a[0])):
                r = const_at(self.prog, g["init"], k[1], n)
                if r is not None:
                    return C(r) if isinstance(r, int) else r
        if e is None and not self.clobbered(st, A) and not (u.k == "al"):
            t = mk("ld", 0, A, n)
        else:
            t = site("ld", I.id, A, n)
        if e is None or e[1] != n:
            st.mem[k] = (t, n, ast(A))
        return t

    def store(self, st, A, v, ty):
        n = nbytes(ty)
        self.kill(st, A, n)
        st.mem[akey(A)] = (v, n, ast(A))
        u = under(v)
        if u.k == "al":
            ua = under(A)
            if ua.k != "al" or ua in st.esc:
                st.esc = st.esc | {u}

    def redefine(self, st, sid):
        """a site is executed again: forget what was known of its old value"""
        fs = [t for t in st.facts if sid in t.sites]
        for t in fs:
            del st.facts[t]
        ms = [k for k, e in st.mem.items() if k[0] != "Z" and (sid in e[0].sites or sid in k[0].sites)]
        for k in ms:
            del st.mem[k]

    # ---- calls -----------------------------------------------------------
    def clobber_call(self, st, I, args, F, name):
        """effects of a call that is not inlined"""
        # pointees of argument locals
        work = []
        seen = set()
        for i, a in enumerate(args):
            u = under(a)
            if u.k in ("al",) or a.k in ("off",):
                work.append(a)
        mods = None
        if F is not None:
            mods = self.prog.modset_of(F)
        ext_pure = F is None and name in PURE_EXT
        while work:
            a = work.pop()
            u = under(a)
            if a in seen:
                continue
            seen.add(a)
            # locals reachable from it
            for k, e in list(st.mem.items()):
                if k[0] != "Z" and under(k[0]) is u and u.k == "al":
                    v = e[0]
                    if under(v).k == "al" and v not in seen:
                        work.append(v)
            if ext_pure:
                continue
            if mods is not None and "*" not in mods and u.k == "al":
                s = None
                I2 = self.inst_of.get(u.a[0])
                at = I2.d.get("at", "") if I2 else ""
                if at.startswith("struct."):
                    if not any(m[0] == at for m in mods if m != "*") and akey(a)[1] == 0:
                        # no field of that struct type is ever written by it
                        nested = {m["t"] for m in (self.prog.structs.get(at) or {"m": []})["m"]}
                        if not any(m[0] in nested for m in mods):
                            continue
            # kill every cell of that object (or just the addressed field)
            if u.k == "al" and not (a.k == "off" and a.a[1] >= 0 and F is not None and False):
                dead = [k for k in st.mem if (k[0] == "Z" and k[1] is u) or (k[0] != "Z" and under(k[0]) is u)]
                for k in dead:
                    del st.mem[k]
                if ("root", u) not in st.clob:
                    st.clob = st.clob | {("root", u)}
            elif a.k == "off":
                self.kill(st, a, 8)
        if ext_pure:
            return
        # heap
        if F is None and name is not None:
            return       # libc: only pointees of the arguments
        if mods is None:
            # indirect call that nothing resolves
            dead = [k for k in st.mem if k[0] != "Z" and (under(k[0]).k != "al" or under(k[0]) in st.esc)]
            for k in dead:
                del st.mem[k]
            st.clob = st.clob | {"*"}
            return
        if "*" in mods:
            dead = [k for k in st.mem if k[0] != "Z" and (under(k[0]).k != "al" or under(k[0]) in st.esc)]
            for k in dead:
                del st.mem[k]
            st.clob = st.clob | {"*"}
            return
        starred = {m[0] for m in mods if m[1] == "*"}
        dead = []
        for k, e in st.mem.items():
            if k[0] == "Z":
                continue
            u = under(k[0])
            if u.k == "al" and u not in st.esc:
                continue
            if e[2] and (tuple(e[2]) in mods or e[2][0] in starred):
                dead.append(k)
        for k in dead:
            del st.mem[k]
        add = {("st",) + tuple(m) for m in mods}
        if not add <= st.clob:
            st.clob = st.clob | add

    def indirect_mods(self, nargs):
        pass

    # ---- transfer --------------------------------------------------------
    def exec(self, st, I):
        """interprets one instruction in place.  Returns None, or a list of
        states when a model split the state."""
        op = I.op
        env = st.env
        if I.blk in self.inloop and op in ("load", "call", "alloca", "cmpxchg", "atomicrmw") and self.rule.early != I.id:
            self.redefine(st, I.id)
        if op == "load":
            A = self.val(st, I.a[0])
            if I.d.get("ord") and I.d["ord"] != "not_atomic":
                env[I.id] = site("ld", I.id, A, nbytes(I.ty))
            else:
                env[I.id] = self.load(st, I, A, I.ty)
        elif op == "store":
            self.store(st, self.val(st, I.a[1]), self.val(st, I.a[0]), I.d.get("vt", "i64"))
        elif op == "getelementptr":
            b = self.val(st, I.a[0])
            o = I.d["off"]
            path = I.d["path"]
            s = tuple(path[-1]) if path else None
            if I.d["vars"]:
                vs = []
                for v, sc in I.d["vars"]:
                    t = self.val(st, v)
                    while t.k == "cast" and t.a[0] in ("sext", "zext"):
                        t = t.a[1]
                    if isc(t):
                        o += t.a[0] * sc
                    else:
                        vs.append((t, sc))
                if vs:
                    env[I.id] = mk("idx", off(b, 0, None), tuple(vs), o, s)
                else:
                    env[I.id] = off(b, o, s)
            else:
                env[I.id] = off(b, o, s)
        elif op == "icmp":
            a = self.val(st, I.a[0]); b = self.val(st, I.a[1])
            env[I.id] = mkcmp(I.d["p"], a, b, bits(I.d["ot"]))
        elif op == "fcmp":
            env[I.id] = mk("fcmp", I.d["p"], self.val(st, I.a[0]), self.val(st, I.a[1]))
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem",
                    "fadd", "fsub", "fmul", "fdiv"):
            a = self.val(st, I.a[0]); b = self.val(st, I.a[1])
            t = mkbin(op, a, b, bits(I.ty))
            if t.d > MAXD:
                if I.blk in self.inloop:
                    self.redefine(st, I.id)
                t = site("x", I.id)
            env[I.id] = t
        elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "sitofp", "uitofp", "fptoui", "fpext", "fptrunc"):
            a = self.val(st, I.a[0])
            fb, tb = bits(I.d["ft"]), bits(I.ty)
            env[I.id] = mkcast(op, a, fb, tb)
        elif op == "select":
            c = self.val(st, I.a[0])
            v = self.truth(st, c)
            if v is None:
                s2 = st.copy()
                out = []
                if self.assume(st, c, True):
                    st.env[I.id] = self.rule.canon(self, self.val(st, I.a[1]))
                    out.append(st)
                if self.assume(s2, c, False):
                    s2.env[I.id] = self.rule.canon(self, self.val(s2, I.a[2]))
                    out.append(s2)
                return out
            env[I.id] = self.val(st, I.a[1] if v else I.a[2])
        elif op == "alloca":
            env[I.id] = site("al", I.id)
            u = env[I.id]
            if I.blk in self.inloop:
                for k in [k for k in st.mem if (k[0] == "Z" and k[1] is u) or (k[0] != "Z" and under(k[0]) is u)]:
                    del st.mem[k]
        elif op == "freeze":
            env[I.id] = self.val(st, I.a[0])
        elif op == "cmpxchg":
            A = self.val(st, I.a[0])
            self.kill(st, A, 8)
            env[I.id] = site("cx", I.id, A)
        elif op == "atomicrmw":
            A = self.val(st, I.a[0])
            self.kill(st, A, 8)
            env[I.id] = site("rmw", I.id, A, I.d["rmw"], self.val(st, I.a[1]))
        elif op == "extractvalue":
            a = self.val(st, I.a[0])
            if a.k == "cx":
                r = mk("cxr", a, I.d["ix"][0])
                env[I.id] = mkcmp("eq", r, C(1)) if I.d["ix"][0] == 1 else r
            elif a.k == "ovf":
                env[I.id] = mk("ovfr", a, I.d["ix"][0]) if I.d["ix"][0] == 0 else mkcmp("eq", mk("ovfr", a, 1), C(1))
            else:
                env[I.id] = mk("ev", a, tuple(I.d["ix"]))
        elif op == "call":
            return self.call(st, I)
        elif op in ("br", "switch", "ret", "unreachable", "fence"):
            pass
        else:
            env[I.id] = site("x", I.id)
        return None

    def callee_name(self, I):
        c = I.callee
        return c[1] if c and c[0] == "f" else None

    def call(self, st, I):
        env = st.env
        name = self.callee_name(I)
        args = [self.val(st, a) for a in I.a]
        if name is not None:
            m = self.rule.models.get(name)
            if m is not None:
                r = m(self, st, I, args)
                if r is not NotImplemented:
                    if isinstance(r, list):
                        out = []
                        for s, t in r:
                            if t is not None:
                                s.env[I.id] = t
                            out.append(s)
                        return out
                    env[I.id] = r if r is not None else site("call", I.id, name, tuple(args))
                    return None
            if name.startswith("llvm."):
                if name.startswith(("llvm.memcpy", "llvm.memmove")):
                    self.memcpy(st, I, args)
                elif name.startswith("llvm.memset"):
                    self.memset(st, I, args)
                elif name.startswith("llvm.expect"):
                    env[I.id] = args[0]
                elif ".with.overflow" in name:
                    env[I.id] = mk("ovf", name.split(".")[1], *args)
                else:
                    env[I.id] = mk("pure", name, tuple(args))
                return None
            F = self.prog.get(I.fn.mod, name)
            self.clobber_call(st, I, args, F, name)
            env[I.id] = site("call", I.id, name, tuple(a if a.d < MAXD else UNDEF for a in args))
            return None
        if I.callee and I.callee[0] == "asm":
            env[I.id] = site("x", I.id)
            return None
        ct = self.val(st, I.callee) if I.callee else UNDEF
        m = self.rule.models.get("*indirect*")
        if m is not None:
            r = m(self, st, I, args, ct)
            if r is not NotImplemented:
                env[I.id] = r if r is not None else site("call", I.id, "*", (ct,))
                return None
        # pointees of locals, and what a callee of that arity may write
        self.clobber_call(st, I, args, ("arity", len(args)), None)
        env[I.id] = site("call", I.id, "*", (ct,) + tuple(a if a.d < MAXD else UNDEF for a in args))
        return None

    def memcpy(self, st, I, args):
        d, s, n = args[0], args[1], args[2]
        if isc(n):
            n = n.a[0]
            rs, os_ = akey(s)
            rd, od = akey(d)
            ents = [(k, e) for k, e in st.mem.items() if k[0] is rs and os_ <= k[1] and k[1] + e[1] <= os_ + n]
            zs = [k for k in st.mem if k[0] == "Z" and k[1] is rs and k[2] <= os_ and os_ + n <= k[3]]
            self.kill(st, d, n)
            dead = [k for k in st.mem if k[0] == "Z" and k[1] is rd and not (k[3] <= od or od + n <= k[2])]
            for k in dead:
                del st.mem[k]
                if k[2] < od:
                    st.mem[("Z", rd, k[2], od)] = 1
                if od + n < k[3]:
                    st.mem[("Z", rd, od + n, k[3])] = 1
            for k, e in ents:
                st.mem[(rd, od + k[1] - os_)] = e
            if not ents:
                if zs:
                    st.mem[("Z", rd, od, od + n)] = 1
                    return
                g = self.prog.glob(under(s).a[0]) if under(s).k == "g" else None
                if g is not None and g["const"] and g.get("init") and n in (1, 2, 4, 8):
                    cells = [c for c in const_cells(self.prog, self.prog.gmod(under(s).a[0]), g["init"]) if os_ <= c[0] and c[0] + c[1] <= os_ + n]
                    if cells:
                        for o, w, v, sm in cells:
                            st.mem[(rd, od + o - os_)] = (v, w, sm)
                        return
                if n in (1, 2, 4, 8):
                    u = under(s)
                    if u.k not in ("al",) and not self.clobbered(st, s):
                        t = mk("ld", 0, s, n)
                    else:
                        if I.blk in self.inloop:
                            self.redefine(st, I.id)
                        t = site("ld", I.id, s, n)
                    st.mem[(rs, os_)] = (t, n, ast(s))
                    st.mem[(rd, od)] = (t, n, ast(d))
                elif under(s).k == "g":
                    g = self.prog.glob(under(s).a[0])
                    if g is not None and g["const"]:
                        for o, w, v, sm in const_cells(self.prog, self.prog.gmod(under(s).a[0]), g["init"]):
                            if os_ <= o and o + w <= os_ + n:
                                st.mem[(rd, od + o - os_)] = (v, w, sm)
        else:
            self.kill(st, d, None)

    def memset(self, st, I, args):
        d, v, n = args[0], args[1], args[2]
        if isc(n):
            nb = n.a[0]
            rd, od = akey(d)
            self.kill(st, d, nb)
            for k in [k for k in st.mem if k[0] == "Z" and k[1] is rd and od <= k[2] and k[3] <= od + nb]:
                del st.mem[k]
            if isc(v) and v.a[0] == 0:
                st.mem[("Z", rd, od, od + nb)] = 1
        else:
            self.kill(st, d, None)

    # ---- fixpoint --------------------------------------------------------
    def prune(self, st, b):
        live = self.livein[b]
        st.env = {k: v for k, v in st.env.items() if k in live}
        rl = self.readlater[b]
        if self.localive is not None:
            ll = self.localive[b]
            for k in list(st.mem):
                u = k[1] if k[0] == "Z" else under(k[0])
                if u.k == "al" and u.a[0] not in ll:
                    del st.mem[k]
        if "call" not in rl and not self.rule.keepmem:
            any_ = "?" in rl
            mem = {}
            for k, e in st.mem.items():
                if k[0] == "Z":
                    if any_ or rl:
                        mem[k] = e
                    continue
                if any_ and e[2] is None:
                    mem[k] = e
                elif e[2] and tuple(e[2]) in rl:
                    mem[k] = e
                elif any_ and under(k[0]).k == "al":
                    mem[k] = e
            st.mem = mem
        keep = set()
        sites = set()
        terms = set()
        def add(t):
            if t in terms:
                return
            terms.add(t)
            for x in t.a:
                if isinstance(x, T):
                    add(x)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            add(y)
                        elif isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, T):
                                    add(z)
        for t in st.env.values():
            add(t)
        for k, e in st.mem.items():
            if k[0] != "Z":
                add(e[0])
                add(k[0])
        tr = self.rule.tracked
        facts = {}
        for t, r in st.facts.items():
            if t in terms or tr(t):
                facts[t] = r
                continue
            if t.k == "cmp":
                if t.a[1] in terms and (t.a[2] in terms or isc(t.a[2])):
                    facts[t] = r
                    continue
            # version-0 loads can be re-read from memory later on
            if t.sites == EMPTY and rl and self.rereadable(t, rl):
                facts[t] = r
        st.facts = facts

    def rereadable(self, t, rl):
        if t.k == "ld":
            s = ast(t.a[1])
            if s is not None:
                if tuple(s) in rl:
                    return True
            elif "?" in rl:
                return True
            return False
        if t.k in ("cmp", "bin", "cast", "pure", "not"):
            for x in t.a:
                if isinstance(x, T) and not isc(x):
                    if x.k in ("ld", "cmp", "bin", "cast", "not") and not self.rereadable(x, rl):
                        return False
            return True
        return t.k == "p"

    def key(self, st):
        return (st.auto, frozenset(st.env.items()), frozenset((k, e if k[0] == "Z" else e[0]) for k, e in st.mem.items()),
                frozenset(st.facts.items()), st.clob, st.esc)

    def join(self, a, b, blk):
        """least upper bound of two states with equal automaton states"""
        s = State()
        s.auto = a.auto
        s.path = a.path
        s.prev = None
        s.env = {}
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is v:
                s.env[k] = v
            elif w is not None:
                jv = self.rule.joinval(v, w)
                s.env[k] = jv if jv is not None else site("j", (blk, k))
        s.mem = {k: e for k, e in a.mem.items() if b.mem.get(k) == e}
        s.facts = {}
        for t, r in a.facts.items():
            q = b.facts.get(t)
            if q is not None:
                lo, hi, ex = min(r[0], q[0]), max(r[1], q[1]), r[2] & q[2]
                s.facts[t] = (lo, hi, ex)
        s.clob = a.clob | b.clob
        s.esc = a.esc | b.esc
        self.joins += 1
        if self.rule.marks:
            s.facts[JOINED] = (1, 1, EMPTY)
        return s

    def run(self):
        f = self.f
        rule = self.rule
        s0 = State()
        s0.env = {}
        s0.mem = {}
        s0.facts = {}
        s0.clob = EMPTY
        s0.esc = EMPTY
        s0.auto = rule.init
        s0.path = None
        s0.prev = None
        for pid, k in f.param_index.items():
            s0.env[pid] = mk("p", k)
        seen = {}
        perblock = {}
        heap = []
        cnt = 0
        pend = {}

        def push(b, st):
            nonlocal cnt
            self.prune(st, b)
            k = self.key(st)
            ss = seen.setdefault(b, {})
            if k in ss:
                return
            n = perblock.get(b, 0)
            if n >= self.cap:
                # join with the states of the same automaton state
                js = pend.setdefault(b, {})
                tk = (st.auto, frozenset((t, r) for t, r in st.facts.items() if self.rule.hard(t)) if hasattr(self.rule, "hard") else None)
                o = js.get(tk)
                if o is not None:
                    j = self.join(o, st, b)
                    self.prune(j, b)
                    kj = self.key(j)
                    if kj == self.key(o):
                        return
                    js[tk] = j
                    st = j
                    k = kj
                    if k in ss:
                        return
                else:
                    js[tk] = st
                if n > self.cap * 40:
                    raise Broken("state explosion in %s at %s" % (f.name, f.blocks[b].insts[0].loc))
            perblock[b] = n + 1
            ss[k] = True
            cnt += 1
            self.nstates += 1
            heapq.heappush(heap, (f.rpo[b], cnt, b, st))

        e = s0.copy()
        e.path = (None, f.entry)
        r = getattr(rule, "start", None)
        if r:
            r(self, e)
        push(f.entry, e)
        while heap:
            _, _, b, st = heapq.heappop(heap)
            self.block(b, st.copy(), push)
            if self.nsteps > self.budget * 20:
                raise Broken("budget exceeded in %s" % f.name)
        return self

    def block(self, b, st, push):
        f = self.f
        blk = f.blocks[b]
        states = [st]
        insts = blk.insts
        for I in insts:
            if I.op == "phi":
                continue
            if I.op in ("br", "switch", "ret", "unreachable"):
                break
            nxt = []
            for s in states:
                self.nsteps += 1
                r = self.rule.step(self, s, I)
                if r is False:
                    continue
                if isinstance(r, list):
                    group = r
                else:
                    group = [s]
                for g in group:
                    q = self.exec(g, I)
                    outs = [g] if q is None else q
                    for o in outs:
                        a = getattr(self.rule, "after", None)
                        if a:
                            r2 = a(self, o, I)
                            if r2 is False:
                                continue
                            if isinstance(r2, list):
                                nxt.extend(r2)
                                continue
                        nxt.append(o)
                if I.op == "call" and (I.d.get("nr") or self.noreturn(I)):
                    nxt = []
            states = nxt
            if not states:
                return
        t = insts[-1]
        for s in states:
            if t.op == "ret":
                self.exits += 1
                ret = self.val(s, t.a[0]) if t.a else None
                self.rule.exit(self, s, t, ret)
            elif t.op == "br":
                ss = t.d["s"]
                if len(ss) == 1:
                    self.go(s, b, ss[0], push)
                else:
                    c = self.val(s, t.a[0])
                    v = self.truth(s, c)
                    if v is None:
                        s2 = s.copy()
                        if self.assume(s, c, True):
                            self.go(s, b, ss[0], push, (c, True, t))
                        if self.assume(s2, c, False):
                            self.go(s2, b, ss[1], push, (c, False, t))
                    else:
                        self.go(s, b, ss[0] if v else ss[1], push)
            elif t.op == "switch":
                c = self.val(s, t.a[0])
                lo, hi, ex = self.get(s, c)
                by = {}
                for n, d in t.d["cases"]:
                    by.setdefault(d, []).append(n)
                for d, ns in by.items():
                    for n in ns:
                        s2 = s.copy()
                        if self.assume(s2, mkcmp("eq", c, C(n), 64), True):
                            self.go(s2, b, d, push)
                s2 = s.copy()
                ok = True
                for n, d in t.d["cases"]:
                    if not self.assume(s2, mkcmp("eq", c, C(n), 64), False):
                        ok = False
                        break
                if ok:
                    self.go(s2, b, t.d["def"], push)

    def noreturn(self, I):
        n = self.callee_name(I)
        return n in ("__assert_fail", "abort", "exit", "_exit")

    def go(self, st, src, dst, push, cond=None):
        """take the edge src -> dst"""
        f = self.f
        blk = f.blocks[dst]
        back = (src, dst) in f.back
        if self.rule.edge(self, st, src, dst) is False:
            return
        new = {}
        for I in blk.insts:
            if I.op != "phi":
                break
            v = None
            for o, p in I.a:
                if p == src:
                    v = self.rule.canon(self, self.val(st, o))
                    break
            if v is None:
                v = site("phi", I.id)
            if back:
                # loop-carried: opaque unless unchanged or a flag-like constant
                cur = st.env.get(I.id)
                if v is cur:
                    pass
                elif isc(v) and not self.rule.symbool and not self.varying(I) and (v.a[0] in (0, 1, -1) or self.constphi(I)):
                    pass
                else:
                    v = ("hdr", I.id)
            elif dst in f.loops and not self.rule.peel and (self.varying(I) or self.rule.symbool and self.carried(I) or
                                                                      (self.rule.symacc and not self.constphi(I))):
                v = ("hdr", I.id)
            if isinstance(v, T) and v.d > MAXD:
                v = ("hdr", I.id)
            new[I.id] = v
        if any(isinstance(v, tuple) for v in new.values()):
            for i, v in list(new.items()):
                if isinstance(v, tuple):
                    self.redefine(st, i)
                    for j, w in list(new.items()):
                        if isinstance(w, T) and i in w.sites and w is not site("phi", i):
                            new[j] = ("hdr2", j)
            for i, v in list(new.items()):
                if isinstance(v, tuple):
                    self.redefine(st, i)
                    new[i] = site("phi", i)
        if back:
            # memory written in the loop with loop-local values
            ls = self.loopsites[dst]
            lc = self.loopstores(dst)
            dead = [k for k, e in st.mem.items() if k[0] != "Z" and
                    (((e[0].sites & ls) and not e[0].k in ("ld", "al")) or
                     ((e[0].k == "bin" or (isc(e[0]) and e[0].a[0] not in (0, 1, -1))) and self.instored(lc, k, e)))]
            for k in dead:
                e = st.mem.pop(k)
                self_a = off(k[0], k[1], e[2])
                u = under(self_a)
                c = ("root", u) if (u.k == "al" and u not in st.esc) or not e[2] else ("st",) + tuple(e[2])
                if c not in st.clob:
                    st.clob = st.clob | {c}
        st.env.update(new)
        st.path = (st.path, dst)
        if dst in f.loops:
            self.rule.header(self, st, dst)
        push(dst, st)

    def carried(self, I):
        """may change on a back edge"""
        return any((p, I.blk) in self.f.back and not (o[0] == "v" and o[1] == I.id) for o, p in I.a)

    def varying(self, I):
        # a phi whose back-edge values are not all constants
        for o, p in I.a:
            if (p, I.blk) in self.f.back and o[0] not in ("c", "n"):
                if not (o[0] == "v" and o[1] == I.id):
                    J = self.inst_of.get(o[1]) if o[0] == "v" else None
                    if J is not None and J.op == "phi" and I.ty in ("i1", "i8", "i32"):
                        continue
                    return True
        return False

    def loopstores(self, hdr):
        r = self._ls.get(hdr)
        if r is None:
            r = set()
            for b in self.f.loops[hdr]:
                for I in self.f.blocks[b].insts:
                    if I.op == "store":
                        o = I.a[1]
                    elif I.op == "call" and (self.callee_name(I) or "").startswith(("llvm.mem",)):
                        o = I.a[0]
                    else:
                        continue
                    J = self.inst_of.get(o[1]) if o[0] == "v" else None
                    while J is not None and J.op == "phi" and len(J.a) == 1:
                        o = J.a[0][0]
                        J = self.inst_of.get(o[1]) if o[0] == "v" else None
                    if J is not None and J.op == "alloca":
                        r.add(("al", J.id))
                    elif J is not None and J.op == "getelementptr" and J.d["path"]:
                        r.add(("st",) + tuple(J.d["path"][-1]))
                    else:
                        r.add("?")
            self._ls[hdr] = r
        return r

    def instored(self, lc, k, e):
        u = under(k[0])
        if u.k == "al" and ("al", u.a[0]) in lc:
            return True
        if e[2] and ("st",) + tuple(e[2]) in lc:
            return True
        return "?" in lc and not e[2]

    def constphi(self, I):
        """every incoming value is a constant (or the phi itself)"""
        seen = set()
        w = [I]
        while w:
            J = w.pop()
            if J.id in seen:
                continue
            seen.add(J.id)
            for o, p in J.a:
                if o[0] in ("c", "n"):
                    continue
                K = self.inst_of.get(o[1]) if o[0] == "v" else None
                if K is None or K.op != "phi":
                    return False
                w.append(K)
        return True

    # ---- reporting -------------------------------------------------------
    def report(self, st, I, msg, tag=None):
        k = (tag or msg, I.fn.key if I is not None else None, I.line if I is not None else 0)
        if k in self.seenrep:
            return
        self.seenrep.add(k)
        self.reports.append({
            "entry": self.f.name, "file": self.f.root.file,
            "where": I.where() if I is not None else self.f.name,
            "message": msg,
            "path": self.trace(st),
            "facts": [show(t) + " in " + rng(r) for t, r in list(st.facts.items())[:24]],
        })

    def trace(self, st):
        out = []
        last = None
        for b in st.lines():
            for I in self.f.blocks[b].insts:
                if I.line and I.op not in ("phi",):
                    w = "%s:%d" % (I.fn.file, I.line)
                    if w != last:
                        out.append(w)
                        last = w
                    break
        return out[-60:]


def rng(r):
    lo, hi, ex = r
    if lo == hi:
        return "{%d}" % lo
    return "[%s,%s]%s" % ("-inf" if lo == FULL[0] else lo, "inf" if hi == FULL[1] else hi, " except %s" % sorted(ex) if ex else "")


def mkcast(op, a, fb, tb):
    if a.k == "undef":
        return a
    if op in ("bitcast", "ptrtoint", "inttoptr"):
        return a
    if isc(a):
        n = a.a[0]
        if op == "sext":
            return a
        if op == "zext":
            return C(n & ((1 << fb) - 1)) if fb < 64 else a
        if op == "trunc":
            if tb == 1:
                return C(n & 1)
            return C(wrap(n, tb))
        return mk("cast", op, a, fb, tb)
    if op == "trunc":
        if a.k == "cast" and a.a[0] in ("zext", "sext"):
            if a.a[2] == tb:
                return a.a[1]
            if a.a[2] > tb:
                return mkcast("trunc", a.a[1], a.a[2], tb)
            return mkcast(a.a[0], a.a[1], a.a[2], tb)
        if tb == 1:
            if is_bool(a):
                return a
            return neg(mkcmp("eq", a, ZERO))
        return mk("cast", op, a, fb, tb)
    if op == "zext" and fb == 1 and not is_bool(a):
        return mk("cast", op, a, fb, tb)
    if op in ("zext", "sext") and a.k == "cast" and a.a[0] == "zext":
        return mk("cast", "zext", a.a[1], a.a[2], tb)
    if op == "sext" and a.k == "cast" and a.a[0] == "sext":
        return mk("cast", "sext", a.a[1], a.a[2], tb)
    return mk("cast", op, a, fb, tb)


def const_cells(prog, mod, init, base=0):
    """scalar cells (offset, width, term, (struct, offset)) of a constant initializer"""
    import re
    out = []
    if not init or init[0] != "agg":
        return out

    def leaf(v, w, o, sm):
        if v[0] == "c":
            out.append((o, w, C(v[1]), sm))
        elif v[0] in ("n", "z", "u"):
            out.append((o, w, ZERO, sm))
        elif v[0] == "g":
            out.append((o, w, mk("g", prog.gname(mod, v[1])), sm))
        elif v[0] == "f":
            out.append((o, w, mk("f", v[1]), sm))

    m = re.match(r"\[(\d+) x (ptr|i\d+)\]$", init[1])
    if m:
        w = 8 if m.group(2) == "ptr" else int(m.group(2)[1:]) // 8
        for i, v in enumerate(init[2]):
            leaf(v, w, base + i * w, None)
        return out
    nm = init[1].lstrip("%")
    if len(init[2]) <= 2 and init[2] and init[2][0][0] == "c" and len(init[2][0]) > 2 and nm.startswith("union."):
        v = init[2][0]
        leaf(v, max(1, v[2] // 8), base, None)
        return out
    sd = prog.structs.get(nm)
    if sd:
        ms = [x for x in sd["m"]]
        els = [v for v in init[2]]
        if len(els) != len(ms):
            els = [v for v in els if not (v[0] in ("u",) or (v[0] == "z" and len(els) > len(ms)))]
        if len(els) == len(ms):
            for v, x in zip(els, ms):
                if x["s"] % 8 == 0 and x["s"] <= 64:
                    leaf(v, x["s"] // 8, base + x["o"] // 8, (nm, x["o"] // 8))
    return out


def const_at(prog, init, o, n):
    """integer constant of n bytes at offset o of an initializer, or None"""
    k = init[0]
    if k == "c" and o == 0:
        return init[1]
    if k == "z":
        return 0
    if k == "n":
        return 0
    if k == "s":
        b = init[1].encode("latin1", "replace")
        if o + n <= len(b):
            return wrap(int.from_bytes(b[o:o + n], "little"), n * 8)
    if k == "agg" and init[1].startswith("["):
        # homogeneous array of scalars
        els = init[2]
        import re
        m = re.match(r"\[\d+ x i(\d+)\]$", init[1])
        if m:
            es = int(m.group(1)) // 8
            if es == n and o % es == 0 and 0 <= o // es < len(els) and els[o // es][0] == "c":
                return els[o // es][1]
    return None


def show(t, prog=None, depth=0):
    if not isinstance(t, T):
        return str(t)
    if depth > 6:
        return "..."
    s = lambda x: show(x, prog, depth + 1)
    k = t.k
    if k == "c": return str(t.a[0])
    if k == "p": return "param%d" % t.a[0]
    if k in ("g", "f"): return t.a[0]
    if k == "al": return "local%s" % t.a[0]
    if k == "off":
        st = t.a[2]
        if st and PROG[0]:
            return "%s->%s" % (s(t.a[0]), PROG[0].member(st[0], st[1]))
        return "(%s+%d)" % (s(t.a[0]), t.a[1])
    if k == "idx": return "%s[%s]%s" % (s(t.a[0]), ",".join(s(v) for v, _ in t.a[1]), "" if not t.a[2] else "+%d" % t.a[2])
    if k == "ld":
        return "*(%s)" % s(t.a[1]) if t.a[1].k not in ("off",) else "%s%s" % (s(t.a[1]), "" if t.a[0] == 0 else "'")
    if k == "bin": return "(%s %s %s)" % (s(t.a[1]), t.a[0], s(t.a[2]))
    if k == "cmp": return "(%s %s %s)" % (s(t.a[1]), t.a[0], s(t.a[2]))
    if k == "not": return "!" + s(t.a[0])
    if k == "cast": return "%s(%s)" % (t.a[0], s(t.a[1]))
    if k == "call": return "%s()#%s" % (t.a[1], t.a[0])
    if k == "pure": return "%s(%s)" % (t.a[0], ",".join(s(x) for x in t.a[1]))
    if k == "argeq": return "%s[%s]==%r" % (s(t.a[0]), s(t.a[1]), t.a[2])
    return "%s%s" % (k, tuple(s(x) if isinstance(x, T) else x for x in t.a))


PROG = [None]
