"""Paths of any function of the server with the calls and stores made on them."""
from cmdsim import *
import cmdsim
from semlib import strip, base, ZERO, isc, C
import psim


class GenRule(CmdRule):
    """events: every call that is not inlined, and every store that is not to a plain local"""

    def __init__(self, prog, mods=(), keep=(), stores=True, keepall=True, nolocal=True, hot=(), cut=False, loads=False, copies=False, rmw=False, fills=False, copyin=False, snap=(), bytewise=False, **kw):
        CmdRule.__init__(self, prog, mods=mods, keep=keep, **kw)
        self.wantstores = stores
        self.keepall = keepall
        self.hot = set(hot)
        self.ends = []      # paths that end the process
        self.noret = True
        self.copies = copies  # copies of whole local structures as stores of their members
        self.loads = loads  # loads from allocated memory as events
        self.bytewise = bytewise  # copies of small structures are followed byte by byte
        self.copyin = copyin  # copies from outside the function into plain locals as events (copyin)
        self.fills = fills  # memset of memory outside the function as events
        self.rmw = rmw      # atomic read-modify-writes as events (e.x: operation)
        if snap:
            self.snapn = GenRule.snapn + tuple(snap)
        self.cut = cut      # forget everything at loop exits: paths start at the last loop left
        self.cuts = []

    def inline(self, F, I):
        if F.name in self.keepset or getattr(self, "m_" + F.name, None):
            return False
        if self.inlinef is not None:
            r = self.inlinef(F, I)
            if r is not None:
                return r
        if F.name in ("argi64", "argu64", "args_at") or self.prog.isnew(F):
            return True
        return F.mod.name in self.mods and F.internal

    def loopev(self, S, hdr):
        return True

    def edge(self, S, st, src, dst):
        r = CmdRule.edge(self, S, st, src, dst)
        if self.cut and r is not False and any(src in b and dst not in b for b in S.f.loops.values()):
            self.cuts.append(Path(S, st.copy(), S.f.blocks[src].insts[-1], None, "cut", dst, self.phivals(S, st, src, dst)))
            self.forget(S, st)
        return r

    def header(self, S, st, dst):
        # what small local structures hold when a turn begins
        if self.bytewise and self.loopev(S, dst):
            loc = sorted(((k, e) for k, e in st.mem.items() if k[0] != "Z" and k[0].k == "al" and e[1] == 1 and k[1] < 16), key=lambda x: (x[0][0].a, x[0][1]))
            loc = [(psim.off(k[0], k[1], None), e[0]) for k, e in loc]
            n = max(i for i, r in enumerate(st.auto) if r[0] == "L" and r[4] == dst)
            st.auto = st.auto[:n] + (st.auto[n][:2] + (tuple(x for y in loc for x in y),) + st.auto[n][3:],) + st.auto[n + 1:]

    def forget(self, S, st):
        def closed(t):
            return t.k not in ("ld", "call", "pure", "phi", "ssa", "vread", "new") and not t.sites
        for i, v in list(st.env.items()):
            if isinstance(v, T) and v.k not in ("phi", "al", "ssa", "new") and not closed(v):
                st.env[i] = site("ssa", i)
        for t in list(st.facts):
            if not closed(t) or not all(closed(x) for x in walk(t)):
                del st.facts[t]
        for k, e in list(st.mem.items()):
            u = under(k[0]) if k[0] != "Z" else k[1]
            if u.k == "al" and u not in st.esc and (k[0] == "Z" or closed(e[0])):
                continue
            del st.mem[k]
            if u.k == "al":
                st.clob = st.clob | {("root", u)}
        st.clob = st.clob | {"*"} | {("root", u) for u in st.esc}
        op = []
        for r in st.auto:
            if r[0] == "L":
                op.append(r)
            elif r[0] == "X":
                op = [q for q in op if q[4] != r[4]]
        st.auto = tuple(op)
        st.prev = None

    def tracked(self, t):
        if self.keepall:
            return True
        return CmdRule.tracked(self, t)

    def wanted(self, n):
        return not (n in self.quiet or n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.mem")))

    def step(self, S, st, I):
        if I.op == "store" and self.wantstores:
            A = S.val(st, I.a[1])
            if under(A).k == "al" and under(A) in st.esc:
                self.add(S, st, "=L", I.id, (A, S.val(st, I.a[0])), None, None)
            if under(A).k != "al":
                self.add(S, st, "=", I.id, (A, S.val(st, I.a[0])), None, S.t_ast(A) if hasattr(S, "t_ast") else ast(A))
            return
        if I.op == "load" and self.loads:
            A = S.val(st, I.a[0])
            if under(A).k == "new" or (self.loads == "p" and under(A).k == "p"):
                self.add(S, st, "ld", I.id, (A,), None, None)
        if I.op == "atomicrmw" and self.rmw:
            A = S.val(st, I.a[0])
            self.add(S, st, "rmw", I.id, (A, S.val(st, I.a[1])), None, I.d["rmw"])
        if I.op == "call" and self.fills and (S.callee_name(I) or "").startswith("llvm.memset"):
            a = [S.val(st, x) for x in I.a[:3]]
            if under(a[0]).k != "al":
                self.add(S, st, "memset", I.id, a, None, None)
        if I.op == "call" and self.copyin and (S.callee_name(I) or "").startswith(("llvm.memcpy", "llvm.memmove")):
            a = [S.val(st, x) for x in I.a[:3]]
            if under(a[0]).k == "al" and under(a[1]).k != "al":
                self.add(S, st, "copyin", I.id, a, None, None)
        cp = None
        self.early = None
        if I.op == "call" and self.bytewise and (S.callee_name(I) or "").startswith(("llvm.memcpy", "llvm.memmove")):
            s, n = S.val(st, I.a[1]), S.val(st, I.a[2])
            if isc(n) and n.a[0] <= 16:
                rs, os_ = psim.akey(s)
                have = {k[1] + j - os_ for k, e in st.mem.items() if k[0] is rs for j in range(e[1])}
                if I.blk in S.inloop:
                    S.redefine(st, I.id)
                    self.early = I.id
                for j in range(n.a[0]):
                    if j not in have:
                        S.load(st, I, psim.off(s, j), "i8")
        if I.op == "call" and self.copies and (S.callee_name(I) or "").startswith(("llvm.memcpy", "llvm.memmove")):
            d, s, n = [S.val(st, a) for a in I.a[:3]]
            if isc(n) and under(s).k == "al" and under(d).k != "al":
                rs, os_ = psim.akey(s)
                cp = [(psim.off(d, k[1] - os_, e[2]), e[0]) for k, e in st.mem.items() if k[0] is rs and os_ <= k[1] and k[1] + e[1] <= os_ + n.a[0]]
        CmdRule.step(self, S, st, I)
        for A, v in cp or ():
            self.add(S, st, "=", I.id, (A, v), None, ast(A))
        if I.op == "call" and S.callee_name(I) in ("exit", "_exit", "_Exit", "abort"):
            q = st.copy()
            self.add(S, q, S.callee_name(I), I.id, [S.val(st, a) for a in I.a], None)
            self.ends.append(Path(S, q, I, None, "end"))
        if I.op == "call" and st.prev is None:
            n = S.callee_name(I)
            if n is not None and n.startswith(self.snapn):
                snap = []
                for k, a in enumerate(I.a):
                    v = S.val(st, a)
                    if v.k == "al":
                        for kk, e in st.mem.items():
                            if kk[0] == "Z":
                                if kk[1] is v:
                                    snap.append((k, "Z", kk[2], kk[3]))
                            elif kk[0] is v:
                                snap.append((k, "=", kk[1], e[1], e[0]))
                st.prev = tuple(sorted(snap, key=lambda s: (s[0], s[1], s[2])))

    def m_varint_read_u64(self, S, st, I, args):
        if len(args) < 3:
            return self.opaque(S, st, I, args)
        S.store(st, args[2], site("vread", I.id, args[0]), "i64")
        return site("call", I.id, "varint_read_u64", tuple(args))

    def _sync(self, S, st, I, args):
        """other threads may have run: shared locals and the heap are unknown from here on"""
        n = S.callee_name(I)
        dead = [k for k in st.mem if (k[0] != "Z" and (under(k[0]).k != "al" or under(k[0]) in st.esc)) or
                (k[0] == "Z" and (k[1].k != "al" or k[1] in st.esc))]
        for k in dead:
            del st.mem[k]
        st.clob = st.clob | {"*"} | {("root", u) for u in st.esc}
        return site("call", I.id, n, tuple(args))
    m_pthread_mutex_lock = _sync
    m_pthread_cond_wait = _sync
    m_pthread_join = _sync

    snapn = ("pogocache_", "conn_bgwork", "pthread_create", "thsave", "thload", "load_block", "statement_insert", "portal_insert")


def cell(e, k, o, n=None):
    """content of the local structure passed as argument k at offset o when the call was made"""
    for s in e.x or ():
        if s[0] == k and s[1] == "=" and s[2] == o:
            return s[4]
    for s in e.x or ():
        if s[0] == k and s[1] == "Z" and s[2] <= o < s[3]:
            return ZERO
    return None


def optcell(prog, e, k, struct, member):
    sd = prog.structs.get("struct." + struct) or prog.structs.get(struct)
    if not sd:
        return None
    for m in sd["m"]:
        if m.get("n") == member:
            return cell(e, k, m["o"] // 8)
    return None


_gs = {}


def gsim(prog, F, cap=1500, maxd=40, **kw):
    k = (id(prog), F.key, cap, tuple(sorted((a, str(b)) for a, b in kw.items())))
    if k not in _gs:
        old, psim.MAXD = psim.MAXD, maxd
        try:
            _gs[k] = simulate(prog, F, cap=cap, cache=False, rule=GenRule(prog, **kw))
        finally:
            psim.MAXD = old
    return _gs[k]


def fieldof(prog, A):
    """(struct, member) an address denotes, or None"""
    s = ast(A)
    if s is None:
        return None
    try:
        return s[0], prog.member(*s)
    except Exception:
        return None


def ldfield(t, prog):
    """(struct, member) a loaded value was read from"""
    t = strip(t)
    return fieldof(prog, t.a[1]) if t.k == "ld" else None


def stores(p, prog, st=None, mem=None, seg=None):
    """store events to a struct member"""
    for e in (p.ev if seg is None else seg):
        if e.name == "=":
            f = fieldof(prog, e.args[0])
            if f and (st is None or f[0] == st) and (mem is None or f[1] == mem):
                yield e


def func(prog, name, mod=None):
    for M in prog.mods.values():
        if name in M.funcs and (mod is None or M.name == mod):
            return M.funcs[name]
    return None


class J:
    """judging paths of one function"""

    def __init__(self, prog, R, F, rule, **kw):
        self.prog, self.R, self.F, self.rule = prog, R, F, rule
        R.analysed(F)
        self.Rr = gsim(prog, F, **kw)
        self.S = self.Rr.S

    def where(self, p, e=None):
        I = e.I if e is not None and e.I is not None else p.I
        return "%s:%s" % (I.fn.file, I.line)

    def check(self, cond, key, p, msg, e=None, rule=None):
        if cond is None or (not cond and p.joined):
            self.R.unknown += 1
            return cond
        if cond:
            self.R.ok(rule or self.rule, "%s %s" % (self.F.name, key))
        else:
            self.R.bad(rule or self.rule, "%s|%s" % (self.F.name, key), self.where(p, e), "%s: %s" % (self.F.name, msg), p.trace())
        return cond

    @property
    def paths(self):
        return self.Rr.paths

    @property
    def iters(self):
        return self.Rr.iters

    @property
    def cuts(self):
        return self.Rr.cuts

    @property
    def ends(self):
        return self.Rr.ends

    @property
    def enters(self):
        return self.Rr.enters


def names(p, seg=None):
    return [e.name for e in (p.ev if seg is None else seg)]


def factcalls(p, name):
    """facts that mention the result of a call: (fact, truth)"""
    for t in p.facts:
        for x in walk(t):
            if x.k == "call" and len(x.a) > 1 and x.a[1] == name:
                yield t, x
                break


# -- linear forms
def linz(t, m=1, acc=None, d=0):
    """(constant, {atom: coefficient}) of an integer or address term; width casts are looked through"""
    top = acc is None
    if top:
        acc = {}
        linz.c = 0
    c = 0
    if t is None:
        return None
    if d > 60:
        acc[t] = acc.get(t, 0) + m
    elif t.k == "c":
        c = m * t.a[0]
    elif t.k == "cast" and t.a[0] == "trunc" and t.a[3] < 32:
        acc[t] = acc.get(t, 0) + m
    elif t.k == "cast" and t.a[0] in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
        c = linz(t.a[1], m, acc, d + 1)
    elif t.k == "off":
        c = m * t.a[1] + linz(t.a[0], m, acc, d + 1)
    elif t.k == "idx":
        c = m * (t.a[2] or 0) + linz(t.a[0], m, acc, d + 1)
        for v, s in t.a[1]:
            c += linz(v, m * s, acc, d + 1)
    elif t.k == "bin" and t.a[0] in ("add", "sub"):
        c = linz(t.a[1], m, acc, d + 1) + linz(t.a[2], m if t.a[0] == "add" else -m, acc, d + 1)
    elif t.k == "bin" and t.a[0] == "mul" and isc(t.a[2]):
        c = linz(t.a[1], m * t.a[2].a[0], acc, d + 1)
    elif t.k == "bin" and t.a[0] == "shl" and isc(t.a[2]):
        c = linz(t.a[1], m << t.a[2].a[0], acc, d + 1)
    else:
        acc[t] = acc.get(t, 0) + m
    if top:
        return c, {k: v for k, v in acc.items() if v}
    return c


def lsub(a, b):
    """linear form of a - b"""
    la, lb = linz(a), linz(b)
    if la is None or lb is None:
        return None
    d = dict(la[1])
    for k, v in lb[1].items():
        d[k] = d.get(k, 0) - v
    return la[0] - lb[0], {k: v for k, v in d.items() if v}


def narrowed(t, bits):
    """the value is cut to fewer than the given number of bits on its way"""
    while isinstance(t, T) and t.k == "cast":
        if t.a[0] == "trunc" and 1 < t.a[3] < bits:
            return True
        t = t.a[1]
    return False


def same(a, b):
    return a is not None and b is not None and lsub(a, b) == (0, {})


def ldsame(a, b):
    """equal up to memory generation: both are the same constant, or loads of the same field of the same object"""
    if a is None or b is None:
        return False
    if same(a, b):
        return True
    a, b = strip(a), strip(b)
    return a.k == "ld" and b.k == "ld" and a.a[1] is b.a[1]


def cmpfacts(p):
    """comparison facts as (pred, a, b, truth): a pred b"""
    for t in p.facts:
        if t.k == "cmp":
            v = p.truth(t)
            if v is not None:
                yield t.a[0], t.a[1], t.a[2], v, t


def le(p, a, b, strict=False):
    """is a <= b (a < b) a recorded fact of the path? (True, False, None unknown)"""
    if a is None or b is None:
        return None
    la, lb = strip(a), strip(b)
    for pred, x, y, v, _ in cmpfacts(p):
        if pred not in ("slt", "ult"):
            continue
        d = lsub(x, y)          # fact: x - y < 0 is v
        e = lsub(a, b)          # question: a - b <= 0
        if d is None or e is None:
            continue
        if v:
            # x - y <= -1 ; want a - b <= 0 (or -1)
            k = combine(e, d, 1)
            if k is not None and k - 1 <= (-1 if strict else 0):
                return True
            k = combine(e, d, -1)   # a-b = -(x-y)+k >= 1+k
            if k is not None and 1 + k > (-1 if strict else 0):
                return False
        else:
            # x - y >= 0
            k = combine(e, d, -1)   # a-b = k-(x-y) <= k
            if k is not None and k <= (-1 if strict else 0):
                return True
            k = combine(e, d, 1)    # a-b = (x-y)+k >= k
            if k is not None and k > (-1 if strict else 0):
                return False
    return None


def combine(e, d, s):
    """k with e = s*d + k, or None"""
    if {a: s * v for a, v in d[1].items()} != e[1]:
        return None
    return e[0] - s * d[0]
