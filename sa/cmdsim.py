"""Event sequences of the command layer.

A command (or one of its callbacks) is flattened together with its helpers and
with models of the engine's operations; property simulation then yields, for
every class of paths, the ordered events: engine operations with all their
options, replies, counters, memory management.  Loops are cut at their back
edge: the events of one iteration are recorded separately with the facts that
hold there and the change of every loop variable."""
from psim import *
import psim
from ir import Broken, flatten

STUBMOD = "sa_stub_engine.c"
STUBFN = ("load", "store", "delete", "iter", "begin", "end", "sweep", "clear", "count", "size", "total")
MEMC, PG, HTTP, RESP = 1, 2, 3, 4
PNAME = {MEMC: "memcache", PG: "postgres", HTTP: "http", RESP: "resp"}

NOCLOB = ("conn_", "pg_", "stat_", "resp_", "monitor_", "net_", "sys_", "__sa_", "printf", "xfree", "pthread_detach",
          "pthread_join", "args_free", "args_append", "args_clear", "argeq_bytes")
ENGINE = ("__sa_load", "__sa_loadres", "__sa_update", "__sa_store", "__sa_storeres", "__sa_delete", "__sa_deleteres",
          "__sa_begin", "__sa_batch", "__sa_end", "__sa_iter", "__sa_iteract", "__sa_sweep", "__sa_clear", "__sa_count", "__sa_size",
          "__sa_total")
SILENT = ("__sa_nd", "conn_proto", "conn_addr", "argeq", "args_eq", "conn_isclosed", "__sa_shard")


def is_reply(n):
    return n.startswith(("conn_write_", "pg_write_")) or n == "conn_write"


class E:
    """one event"""
    __slots__ = ("name", "I", "args", "res", "x")

    def __init__(self, S, raw):
        self.name, iid, self.args, self.res, self.x = raw
        self.I = S.inst_of.get(iid)

    @property
    def loop(self):
        return self.name in ("L", "X")

    def __repr__(self):
        return "%s%s%s" % (self.name, "(" + ", ".join(show(a) for a in self.args) + ")", " " + repr(self.x) if self.x else "")


class Path:
    def __init__(self, S, st, I, ret, kind, hdr=None, phis=None):
        self.S = S
        self.st = st
        self.I = I
        self.ret = ret
        self.kind = kind        # "exit" | "iter" | "enter"
        self.hdr = hdr
        self.phis = phis or {}  # phi id -> (term in this iteration, incoming term)
        self.ev = [E(S, r) for r in st.auto]
        self.facts = st.facts
        self.joined = JOINED in st.facts
        self._protos = None
        self._seg = None
        self._tok = {}

    def truth(self, t):
        return self.S.truth(self.st, t)

    def trace(self):
        return self.S.trace(self.st)

    def range(self, t):
        return self.S.get(self.st, t)

    def protos(self, conn=None):
        """protocols possible on this path"""
        if self._protos is not None:
            return self._protos
        out = self._protos = []
        for p in (MEMC, PG, HTTP, RESP):
            ok = True
            for t in PROTOS.get(self.S, ()):
                lo, hi, ex = self.S.get(self.st, t)
                if not (lo <= p <= hi) or p in ex:
                    ok = False
            if ok:
                out.append(p)
        return out

    def calls(self, *names):
        return [e for e in self.ev if e.name in names]

    def argeq(self, i, lit):
        """truth of 'argument i equals lit'"""
        for t in self.facts:
            if t.k == "argeq" and t.a[2] == lit and isc(t.a[1]) and t.a[1].a[0] == i:
                return self.truth(t)
        return None

    def segment(self):
        """events of the innermost open loop iteration (kind iter)"""
        if self._seg is not None:
            return self._seg
        out = self._seg = []
        for e in reversed(self.ev):
            if e.name == "L" and e.x == self.hdr:
                break
            out.append(e)
        out.reverse()
        return out

    def before(self):
        out = []
        for e in self.ev:
            if e.name == "L" and e.x == self.hdr:
                break
            out.append(e)
        return out


PROTOS = {}


class Models(dict):
    def __init__(self, rule):
        self.rule = rule

    def get(self, name, d=None):
        f = getattr(self.rule, "m_" + name, None) if not name.startswith("*") else None
        if f is not None:
            return f
        if name in self:
            return self[name]
        if name.startswith(NOCLOB):
            return self.rule.opaque
        return d

    def __contains__(self, k):
        return dict.__contains__(self, k)


def deref(S, st, A, n=8):
    k = akey(A)
    e = st.mem.get(k)
    return e[0] if e is not None else None


class CmdRule(Rule):
    keepmem = True
    deadlocals = True
    symacc = True
    symbool = True
    marks = True

    def __init__(self, prog, mods=("cmds.c", "args.c"), keep=(), inlinef=None, extra=None, quiet=()):
        self.prog = prog
        self.mods = set(mods)
        self.keepset = set(keep)
        self.inlinef = inlinef
        self.paths = []
        self.iters = []
        self.enters = []
        self.models = Models(self)
        self.models.update(extra or {})
        self.quiet = set(quiet)
        self._itk = set()

    # -- flattening
    def inline(self, F, I):
        if F.mod.name == STUBMOD:
            return True
        if F.name in self.keepset or getattr(self, "m_" + F.name, None):
            return False
        if self.inlinef is not None:
            r = self.inlinef(F, I)
            if r is not None:
                return r
        if F.name in ("argi64", "argu64", "args_at") or self.prog.isnew(F):
            return True
        return F.mod.name in self.mods and not F.name.startswith(("args_free", "args_append", "args_clear", "args_print", "args_eq"))

    def tracked(self, t):
        # an option flag that nothing asks about any more
        b = t
        while b.k in ("cast", "not") or (b.k == "cmp" and isc(b.a[2])):
            b = b.a[0] if b.k == "not" else b.a[1]
        if b.k == "phi":
            I = self.S.inst_of.get(b.a[0])
            if I is not None and I.ty in ("i1", "i8"):
                return False
        return not any(self.isnd(x) for x in walk(t))

    def isnd(self, x):
        return x.k == "call" and len(x.a) > 1 and x.a[1] == "__sa_nd"

    # -- models
    def opaque(self, S, st, I, args):
        return site("call", I.id, S.callee_name(I), tuple(a if a.d < psim.MAXD else UNDEF for a in args))

    def m_conn_proto(self, S, st, I, args):
        t = mk("pure", "proto", (args[0],))
        PROTOS.setdefault(S, set()).add(t)
        if t not in st.facts:
            st.facts[t] = (1, 4, EMPTY)
        return t

    def m_conn_auth(self, S, st, I, args):
        return mkcmp("ne", mk("pure", "auth", (args[0],)), ZERO)

    def _argeq(self, S, st, I, args):
        g = under(args[2])
        s = S.prog.string(g.a[0]) if g.k == "g" else None
        if s is None:
            return site("call", I.id, "argeq", tuple(args))
        i = args[1]
        while i.k == "cast":
            i = i.a[1]
        t = mk("argeq", args[0], i, s)
        # an argument equals at most one literal
        for f in list(st.facts):
            if f.k == "argeq" and f is not t and f.a[0] is args[0] and f.a[1] is i and f.a[2] != s and S.truth(st, f) is True:
                return ZERO
        return mkcmp("ne", t, ZERO)
    m_argeq = _argeq
    m_args_eq = _argeq

    def _parse(self, S, st, I, args):
        n = S.callee_name(I)
        S.store(st, args[2], site("parsed", I.id, n, args[0], args[1]), "i64")
        return mkcmp("ne", site("call", I.id, n, (args[0], args[1])), ZERO)
    m_parse_i64 = _parse
    m_parse_u64 = _parse

    def m_int64_add_clamp(self, S, st, I, args):
        a, b = args
        if isc(a) and isc(b):
            return C(a.a[0] + b.a[0])
        if isc(a) and a.a[0] == 0:
            return b
        if isc(b) and b.a[0] == 0:
            return a
        if repr_key(b) < repr_key(a):
            a, b = b, a
        return mk("pure", "addclamp", (a, b))

    def m_int64_mul_clamp(self, S, st, I, args):
        a, b = args
        if isc(a) and isc(b):
            return C(a.a[0] * b.a[0])
        if isc(a):
            a, b = b, a
        return mk("pure", "mulclamp", (a, b))

    def _toa(self, S, st, I, args):
        S.kill(st, args[1], None)
        return site("call", I.id, S.callee_name(I), (args[0], args[1]))
    m_u64toa = _toa
    m_i64toa = _toa

    def m_strlen(self, S, st, I, args):
        g = under(args[0])
        if g.k == "g" and args[0] is g:
            s = S.prog.string(g.a[0])
            if s is not None:
                return C(len(s))
        return mk("pure", "strlen", (args[0],))

    def m_xmalloc(self, S, st, I, args):
        return site("al", I.id) if False else site("new", I.id, args[0])

    # -- events
    def add(self, S, st, name, iid, args, res, x=None):
        st.auto = st.auto + ((name, iid, tuple(args), res, x),)

    def wanted(self, n):
        if n in SILENT or n in self.quiet or n.startswith("llvm."):
            return False
        if n.startswith("__sa_"):
            return n in ENGINE
        return True

    def step(self, S, st, I):
        if I.op != "call":
            return
        n = S.callee_name(I)
        if n is None or not self.wanted(n):
            return
        x = None
        if n in ("pg_write_row_desc", "pg_write_row_data"):
            args = [S.val(st, a) for a in I.a]
            cnt = args[-1]
            if isc(cnt) and 0 < cnt.a[0] < 16:
                cols = tuple(deref(S, st, off(args[1], 8 * i)) if args[1].k != "g" else
                             S.load(st, I, off(args[1], 8 * i), "ptr") for i in range(cnt.a[0]))
                lens = None
                if n == "pg_write_row_data":
                    lens = tuple(deref(S, st, off(args[2], 8 * i)) for i in range(cnt.a[0]))
                x = (cols, lens)
            st.prev = x
        else:
            st.prev = None

    def after(self, S, st, I):
        if I.op == "call":
            n = S.callee_name(I)
            if n is None:
                if I.callee and I.callee[0] == "asm":
                    return
                self.add(S, st, "*indirect*", I.id, [S.val(st, I.callee)] + [S.val(st, a) for a in I.a], st.env.get(I.id, UNDEF))
                return
            if n.startswith(("llvm.memcpy", "llvm.memmove")):
                d = S.val(st, I.a[0])
                if under(d).k != "al":
                    self.add(S, st, "memcpy", I.id, [S.val(st, a) for a in I.a[:3]], None)
                return
            if not self.wanted(n):
                return
            self.add(S, st, n, I.id, [S.val(st, a) for a in I.a], st.env.get(I.id, UNDEF), st.prev)

    def loopev(self, S, hdr):
        c = getattr(S, "_lev", None)
        if c is None:
            c = S._lev = {}
        if hdr not in c:
            c[hdr] = any(I.op == "call" and (S.callee_name(I) is None or self.wanted(S.callee_name(I)))
                         for b in S.f.loops[hdr] for I in S.f.blocks[b].insts)
        return c[hdr]

    def phivals(self, S, st, src, dst):
        out = {}
        for J in S.f.blocks[dst].insts:
            if J.op != "phi":
                break
            for o, p in J.a:
                if p == src:
                    out[J.id] = (st.env.get(J.id), S.val(st, o))
                    break
        return out

    def edge(self, S, st, src, dst):
        f = S.f
        # leaving loops
        opened = []
        for r in st.auto:
            if r[0] == "L":
                opened.append(r[4])
            elif r[0] == "X":
                opened.remove(r[4])
        for h in reversed(opened):
            if dst not in f.loops[h]:
                normal = src == h or self.headerexit(S, h, src)
                self.add(S, st, "X", f.blocks[src].insts[-1].id, (C(1 if normal else 0),), None, h)
        if dst in f.loops and self.loopev(S, dst):
            if (src, dst) in f.back:
                ph = self.phivals(S, st, src, dst)
                p = Path(S, st.copy(), f.blocks[src].insts[-1], None, "iter", dst, ph)
                self.iters.append(p)
                # forget the iteration's events
                k = max(i for i, r in enumerate(st.auto) if r[0] == "L" and r[4] == dst)
                st.auto = st.auto[:k + 1]
            else:
                ph = self.phivals(S, st, src, dst)
                self.enters.append(Path(S, st.copy(), f.blocks[src].insts[-1], None, "enter", dst, ph))
                self.add(S, st, "L", f.blocks[src].insts[-1].id, (), None, dst)

    def headerexit(self, S, h, src):
        # an exit before any event of the iteration counts as the loop's own
        return False

    def exit(self, S, st, I, ret):
        self.paths.append(Path(S, st.copy(), I, ret, "exit"))


def walk(t):
    w = [t]
    seen = set()
    while w:
        x = w.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                w.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        w.append(z)
                    elif isinstance(z, tuple):
                        w.extend(q for q in z if isinstance(q, T))


def subst_map(prog):
    m = prog.mods.get(STUBMOD)
    if m is None:
        raise Broken("engine model missing")
    return {"pogocache_" + n: m.funcs["sa_stub_" + n] for n in STUBFN}


_cand = {}


def devirt(prog, mod):
    """address-taken functions per arity and return type, for stub callbacks"""
    k = (id(prog), mod)
    if k not in _cand:
        by = {}
        for key in prog.funcrefs():
            F = prog.byname(key)
            if F.mod.name == mod:
                by.setdefault((len(F.params), F.ret), []).append(F)
        _cand[k] = by

    def f(I):
        if I.fn.mod.name != STUBMOD:
            return None
        return _cand[k].get((len(I.a), I.ty))
    return f


_sim = {}


def simulate(prog, F, cap=1500, cache=True, rule=None, **kw):
    k = (id(prog), F.key, tuple(sorted((a, str(b)) for a, b in kw.items())))
    if cache and rule is None and k in _sim:
        return _sim[k]
    R = rule or CmdRule(prog, **kw)
    fl = flatten(prog, F, R.inline, subst=subst_map(prog), devirt=devirt(prog, F.mod.name))
    S = R.S = Sim(prog, fl, R, cap=cap)
    for h, body in fl.loops.items():
        ids = {I.id for I in fl.blocks[h].insts if I.op == "phi"}
        for b in body:
            S.livein[b] = S.livein[b] | ids
    S.run()
    R.S = S
    if not R.paths and not getattr(R, "noret", False):
        raise Broken("%s: no path to a return" % F.name)
    if cache and rule is None:
        _sim[k] = R
    return R


def command_table(prog):
    """name -> handler Func, from the initialiser of the dispatch table"""
    M = prog.mods["cmds.c"]
    out = []
    for g in M.globals.values():
        init = g.get("init")
        if not init:
            continue
        rows = table_rows(prog, M, init)
        if rows and len(rows) > len(out):
            out = rows
    if len(out) < 10:
        raise Broken("command table not found")
    return out


def table_rows(prog, M, init):
    rows = []

    def kids(x):
        return x[2] if isinstance(x, (list, tuple)) and len(x) > 2 and isinstance(x[2], (list, tuple)) else ()
    for r in kids(init):
        name = fn = None
        for y in flat(r):
            if isinstance(y, (list, tuple)) and len(y) >= 2:
                if y[0] == "g" and isinstance(y[1], str):
                    name = prog.string(prog.gname(M, y[1]))
                elif y[0] == "f":
                    fn = prog.get(M, y[1])
        if name is not None and fn is not None:
            rows.append((name, fn))
    return rows


def flat(x):
    if isinstance(x, (list, tuple)):
        yield x
        for y in x:
            if isinstance(y, (list, tuple)):
                for z in flat(y):
                    yield z
