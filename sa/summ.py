"""Path summaries of one function: for every path class from entry to return,
the returned value, the facts established, the final memory and the ordered
effects (calls not looked into, atomic updates, stores)."""
from psim import *
import psim
from ir import Broken, flatten


class Ev:
    __slots__ = ("k", "I", "name", "args", "res", "target", "addr", "val", "op", "ord", "n", "seq", "raw")

    def __init__(self, raw, seq, S):
        self.raw = raw
        self.seq = seq
        self.k = raw[0]
        self.I = S.inst_of.get(raw[1])
        self.name = self.args = self.res = self.target = self.addr = self.val = self.op = self.ord = self.n = None
        k = self.k
        if k == "call":
            _, _, self.name, self.args, self.res = raw
        elif k == "icall":
            _, _, self.target, self.args, self.res = raw
        elif k == "rmw":
            _, _, self.addr, self.op, self.val, self.res, self.ord = raw
        elif k == "cas":
            _, _, self.addr, self.args, self.res, self.ord = raw
        elif k == "store":
            _, _, self.addr, self.val, self.ord = raw
        elif k == "load":
            _, _, self.addr, self.res, self.ord = raw
        elif k == "memset":
            _, _, self.addr, self.val, self.n = raw
        elif k == "memcpy":
            _, _, self.addr, self.val, self.n = raw

    @property
    def root(self):
        return akey(self.addr)[0]

    def __repr__(self):
        return "%s %s %s" % (self.k, self.name or "", self.args or self.val or "")


class Exit:
    def __init__(self, S, st, I, ret, kind="exit"):
        self.S = S
        self.st = st
        self.I = I
        self.ret = ret
        self.kind = kind
        self.mem = st.mem
        self.facts = st.facts
        self.ev = [Ev(e, i, S) for i, e in enumerate(st.auto)]

    def truth(self, t):
        return self.S.truth(self.st, t)

    def trace(self):
        return self.S.trace(self.st)

    def truth_any(self, pred):
        for t in self.facts:
            if pred(t):
                v = self.S.truth(self.st, t)
                if v is not None:
                    return v
        return None

    def flag(self, st, name):
        return self.truth_any(lambda t: fldof(t) == (st, name))

    def calls(self, *names):
        return [e for e in self.ev if e.k == "call" and e.name in names]

    def wrote(self, st, name=None, base=None):
        for e in self.ev:
            if e.k in ("store", "rmw", "memset", "memcpy") and e.addr is not None:
                s = ast(e.addr)
                if s and s[0] == st and (name is None or PROG[0].member(*s) == name) and \
                        (base is None or akey(e.addr)[0] is base):
                    return True
                if e.k in ("memset", "memcpy") and base is not None and akey(e.addr)[0] is base:
                    return True
        return False


def fldof(t):
    while t.k in ("cast",):
        t = t.a[1]
    if t.k == "ld" and ast(t.a[1]):
        s = ast(t.a[1])
        return (s[0], PROG[0].member(*s))
    return None


class Recorder(Rule):
    """records effects; parameters choose what is kept"""
    keepmem = True

    def __init__(self, modname, keep=(), models=None, inline=None, stores=True, loads=False, trackf=None, cut=False, calls=None):
        self.modname = modname
        self.keep = set(keep) | set(models or ())
        self.models = models or {}
        self.inl = inline
        self.stores = stores
        self.loads = loads
        self.trackf = trackf
        self.cut = cut
        self.callsf = calls
        self.exits = []

    def inline(self, F, I):
        if F.name in self.keep:
            return False
        if self.inl is not None:
            return self.inl(F, I)
        return F.mod.name == self.modname

    def tracked(self, t):
        return True if self.trackf is None else self.trackf(t)

    def add(self, S, st, ev):
        if S.inst_of[ev[1]].blk in S.inloop:
            st.auto = tuple(e for e in st.auto if not (e[0] == ev[0] and e[1] == ev[1])) + (ev,)
        else:
            st.auto = st.auto + (ev,)

    def step(self, S, st, I):
        if I.op == "store" and self.stores:
            A = S.val(st, I.a[1])
            u = under(A)
            if u.k == "al" and u not in st.esc:
                return
            self.add(S, st, ("store", I.id, A, S.val(st, I.a[0]), I.d.get("ord")))

    def after(self, S, st, I):
        if I.op == "call":
            n = S.callee_name(I)
            args = tuple(S.val(st, a) for a in I.a)
            if n is None:
                if I.callee and I.callee[0] == "asm":
                    return
                self.add(S, st, ("icall", I.id, S.val(st, I.callee), args, st.env.get(I.id, UNDEF)))
            elif n.startswith("llvm.memset"):
                self.add(S, st, ("memset", I.id, args[0], args[1], args[2]))
            elif n.startswith(("llvm.memcpy", "llvm.memmove")):
                u = under(args[0])
                if u.k == "al" and u not in st.esc and not self.loads:
                    return
                self.add(S, st, ("memcpy", I.id, args[0], args[1], args[2]))
            elif not n.startswith("llvm."):
                if self.callsf is None or self.callsf(n):
                    self.add(S, st, ("call", I.id, n, args, st.env.get(I.id, UNDEF)))
        elif I.op == "atomicrmw":
            self.add(S, st, ("rmw", I.id, S.val(st, I.a[0]), I.d["rmw"], S.val(st, I.a[1]), st.env[I.id], I.d.get("ord")))
        elif I.op == "cmpxchg":
            self.add(S, st, ("cas", I.id, S.val(st, I.a[0]), tuple(S.val(st, a) for a in I.a[1:]), st.env[I.id], I.d.get("ord")))
        elif I.op == "load" and I.d.get("ord") and I.d["ord"] != "not_atomic":
            self.add(S, st, ("load", I.id, S.val(st, I.a[0]), st.env[I.id], I.d.get("ord")))

    def edge(self, S, st, src, dst):
        if self.cut and (src, dst) in S.f.back:
            self.exits.append(Exit(S, st.copy(), S.f.blocks[src].insts[-1], None, "iter"))
            st.auto = ()

    def exit(self, S, st, I, ret):
        self.exits.append(Exit(S, st.copy(), I, ret))


_cache = {}


def summarize(prog, F, keep=(), models=None, inline=None, cap=800, stores=True, trackf=None, cut=False, calls=None, cache=None):
    k = (id(prog), F.key, cache) if cache else None
    if k and k in _cache:
        return _cache[k]
    r = Recorder(F.mod.name, keep, models, inline, stores=stores, trackf=trackf, cut=cut, calls=calls)
    fl = flatten(prog, F, r.inline)
    S = Sim(prog, fl, r, cap=cap)
    S.run()
    if not r.exits:
        raise Broken("%s: no path to a return" % F.name)
    if k:
        _cache[k] = r.exits
    return r.exits


def nullcheck(prog, F, ismalloc):
    """uses of an allocation result on paths where it may be null"""
    sites = set()
    bad = {}

    class N(Rule):
        def inline(self, G, I):
            return False

        def after(self, S, st, I):
            if I.op == "call":
                n = S.callee_name(I)
                ct = S.val(st, I.callee) if n is None and I.callee and I.callee[0] != "asm" else None
                if ismalloc(S, I, ct, n):
                    t = st.env[I.id]
                    sites.add(I.id)
                    st.auto = st.auto | {(t, I.id)}

        def step(self, S, st, I):
            A = None
            if I.op == "store":
                A = S.val(st, I.a[1])
            elif I.op == "load":
                A = S.val(st, I.a[0])
            elif I.op == "call" and (S.callee_name(I) or "").startswith(("llvm.mem",)):
                A = S.val(st, I.a[0])
            if A is None:
                return
            u = under(A)
            for t, i in st.auto:
                if u is t and S.truth(st, mkcmp("eq", t, ZERO)) is not False:
                    bad.setdefault(i, (I, S.trace(st)))

    r = N()
    r.init = frozenset()
    fl = flatten(prog, F, r.inline)
    S = Sim(prog, fl, r, cap=400)
    S.run()
    return sites, bad
