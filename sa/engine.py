"""Transactions of the storage engine (pogocache.c).

Every public operation is flattened with its helpers and simulated; the rule
below records, per path, the ordered list of entry-level effects (created,
inserted, removed, notified, freed, callback, ...) together with the facts the
path established.  One transaction ends at a return or at the back edge of a
bucket loop.  The property checks judge these transactions."""
from psim import *
import psim
from ir import Broken, flatten

MOD = "pogocache.c"
KEEP = {"map_insert", "map_delete", "map_get_bucket", "delbkt", "delentry_at_bkt", "resize",
        "tryshrink", "entry_new", "entry_free", "notify", "entry_expires",
        "entry_extract", "auto_evict_entry", "th64", "load_ptr", "store_ptr",
        "entry_memsize", "entry_cas", "entry_key", "entry_value", "entry_rawkey",
        "map_init", "getnow", "mix13", "gettime", "pogocache_entry_retain",
        "entry_clone", "shard_index", "acquire_for_key", "acquire_for_scan", "int64_add_clamp"}

NOTIFY = None


def ev(st, *e):
    st.auto = st.auto + (e,)


def fld(t, struct, name):
    """is term t a read of member struct.name?"""
    if t.k == "cast":
        return fld(t.a[1], struct, name)
    if t.k != "ld":
        return False
    return afld(t.a[1], struct, name)


def afld(a, struct, name):
    s = ast(a)
    if s is None:
        return False
    return s[0] == struct and PROG[0].member(s[0], s[1]) == name


def fldname(t):
    while t.k == "cast":
        t = t.a[1]
    if t.k == "ld" and ast(t.a[1]):
        s = ast(t.a[1])
        return (s[0], PROG[0].member(*s))
    return None


def pure(name):
    def m(S, st, I, args):
        return mk("pure", name, tuple(args[:1]))
    return m


def m_load_ptr(S, st, I, args):
    A = args[0]
    k = akey(A)
    e = st.mem.get(k)
    if e is not None and e[1] == 6:
        return e[0]
    s = ("struct.bucket", 0)
    c = ("st",) + s in st.clob or ("st", s[0], "*") in st.clob
    if c:
        if I.blk in S.inloop:
            S.redefine(st, I.id)
        t = site("ent", I.id, A)
    else:
        t = mk("ent", 0, A)
    st.mem[k] = (t, 6, s)
    # a stored entry pointer is never null
    st.facts[t] = (FULL[0], FULL[1], frozenset([0]))
    if ("visit", t) not in st.auto:
        st.auto = st.auto + (("visit", t),)
    return t


def m_store_ptr(S, st, I, args):
    A, v = args
    st.auto = st.auto + (("put", A, v, I),)
    A2 = off(akey(A)[0], akey(A)[1], ("struct.bucket", 0))
    S.kill(st, A2, 6)
    st.mem[akey(A)] = (v, 6, ("struct.bucket", 0))
    return UNDEF


def outp(st, S, p, t, n=8):
    if p is None or isc(p) or p.k == "undef":
        return
    S.kill(st, p, n)
    st.mem[akey(p)] = (t, n, ast(p))


def m_entry_extract(S, st, I, args):
    e = args[0]
    names = ["entry_key", "entry_keylen", None, "entry_value", "entry_vallen", "entry_expires", "entry_flags", "entry_cas"]
    sizes = [8, 8, 0, 8, 8, 8, 4, 8]
    ev(st, "use", e, I)
    for nm, sz, p in zip(names, sizes, args[1:9]):
        if nm:
            if p.k not in ("al", "off", "c"):
                t = S.truth(st, neg(mkcmp("eq", p, ZERO)))
                if t is False:
                    continue
            outp(st, S, p, mk("pure", nm, (e,)), sz)
    return mk("pure", "entry_memsize", (e,))


def m_entry_new(S, st, I, args):
    if I.blk in S.inloop:
        S.redefine(st, I.id)
    t = site("call", I.id, "entry_new")
    s2 = st.copy()
    st.facts[t] = (FULL[0], FULL[1], frozenset([0]))
    # key,keylen,val,vallen,expires,flags,cas,ctx
    ev(st, "new", t, tuple(args), I)
    cas = [e[0] for k, e in st.mem.items() if k[0] != "Z" and e[2] and e[2][0] == "struct.shard" and PROG[0].member(*e[2]) == "cas"]
    ev(st, "newcas", t, args[6] if len(args) > 6 else None, tuple(cas))
    s2.auto = s2.auto + (("newfail", I),)
    return [(st, t), (s2, ZERO)]


def m_map_insert(S, st, I, args):
    mp, e, h, oldp, ctx = args
    if I.blk in S.inloop:
        S.redefine(st, I.id)
    kill_map(S, st)
    o = site("old", I.id)
    s2 = st.copy()
    s3 = st.copy()
    prev = last_replaced(st, e)
    if prev is not None and prev[0] == "swap":
        # re-inserting the entry that the previous insert displaced gives the
        # displacing entry back
        outp(st, S, oldp, prev[1])
        ev(st, "insert", e, prev[1], I)
        return [(st, C(1))]
    if prev is not None and prev[0] == "absent":
        outp(s2, S, oldp, ZERO)
        ev(s2, "insert", e, ZERO, I)
        s3.auto = s3.auto + (("insertfail", e, I),)
        outp(s3, S, oldp, ZERO)
        return [(s2, C(1))]
    # replaced
    outp(st, S, oldp, o)
    st.facts[o] = (FULL[0], FULL[1], frozenset([0]))
    ev(st, "insert", e, o, I)
    # absent
    outp(s2, S, oldp, ZERO)
    ev(s2, "insert", e, ZERO, I)
    # no memory
    outp(s3, S, oldp, ZERO)
    ev(s3, "insertfail", e, I)
    return [(st, C(1)), (s2, C(1)), (s3, ZERO)]


def last_replaced(st, e):
    """what inserting e must displace, from the events so far"""
    for x in reversed(st.auto):
        if x[0] == "insert" and x[2] is e and not isc(x[2]):
            return ("swap", x[1])
        if x[0] == "rm" and x[1] is e:
            return ("absent",)
    return None


def kill_map(S, st):
    for s in ("struct.map", "struct.bucket"):
        dead = [k for k, en in st.mem.items() if k[0] != "Z" and en[2] and en[2][0] == s]
        for k in dead:
            del st.mem[k]
        if ("st", s, "*") not in st.clob:
            st.clob = st.clob | {("st", s, "*")}


def m_map_delete(S, st, I, args):
    if I.blk in S.inloop:
        S.redefine(st, I.id)
    kill_map(S, st)
    # deleting the key just inserted returns that entry
    last = None
    for x in st.auto:
        if x[0] == "insert":
            last = x[1]
        if x[0] == "rm" and x[1] is last:
            last = None
    if last is not None:
        ev(st, "rm", last, "key", I)
        return [(st, last)]
    s2 = st.copy()
    t = site("call", I.id, "map_delete")
    st.facts[t] = (FULL[0], FULL[1], frozenset([0]))
    ev(st, "rm", t, "key", I)
    return [(st, t), (s2, ZERO)]


def bare(t):
    """an index without its conversions"""
    while t.k == "cast" or t.k == "bin" and t.a[0] == "and" and isc(t.a[2]) and t.a[2].a[0] in (0xffffffff, 0x7fffffff):
        t = t.a[1]
    return t


def m_delbkt(S, st, I, args):
    idx = bare(args[1])
    e = None
    for k, en in st.mem.items():
        if k[0] != "Z" and en[1] == 6 and k[0].k == "idx":
            vs = [bare(v) for v, sc in k[0].a[1]]
            if idx in vs or (isc(idx) and not vs):
                e = en[0]
        elif k[0] != "Z" and en[1] == 6 and isc(idx):
            e = en[0]
    if e is None:
        for t in list(st.facts):
            if t.k == "ent" and t.a[1].k in ("idx", "off"):
                b = t.a[1] if t.a[1].k == "idx" else t.a[1].a[0]
                if b.k == "idx" and any(bare(v) is idx for v, sc in b.a[1]):
                    e = t
    kill_map(S, st)
    if e is None:
        if I.blk in S.inloop:
            S.redefine(st, I.id)
        e = site("delbkt", I.id, idx)
    ev(st, "rm", e, "raw", I)
    return UNDEF


def m_delentry(S, st, I, args):
    n = len(st.auto)
    m_delbkt(S, st, I, args)
    x = st.auto[-1]
    st.auto = st.auto[:-1] + (("rm", x[1], "key", I),)
    return x[1]


def m_entry_free(S, st, I, args):
    ev(st, "free", args[0], I)
    return UNDEF


def m_retain(S, st, I, args):
    ev(st, "retain", args[-1], I)
    return args[-1]


def m_notify(S, st, I, args):
    # shardidx, kind, new, old, now, ctx
    ev(st, "notify", args[1], args[2], args[3], args[4], args[0], I)
    return UNDEF


def m_evict(S, st, I, args):
    kill_map(S, st)
    ev(st, "evict", args[2] if len(args) > 2 else None, I)
    return UNDEF


def m_tryshrink(S, st, I, args):
    kill_map(S, st)
    ev(st, "shrink", I)
    return UNDEF


def m_getnow(S, st, I, args):
    return mk("pure", "getnow", ())


def m_get_bucket(S, st, I, args):
    t = site("call", I.id, "map_get_bucket")
    if I.blk in S.inloop:
        S.redefine(st, I.id)
    s2 = st.copy()
    st.facts[t] = (0, FULL[1], EMPTY)
    ev(st, "lookup", t, tuple(args[1:4]), I)
    return [(st, t), (s2, C(-1))]


def m_map_init(S, st, I, args):
    if I.blk in S.inloop:
        S.redefine(st, I.id)
    s2 = st.copy()
    for s, r in ((st, 1), (s2, 0)):
        u = under(args[0])
        for k in [k for k in s.mem if (k[0] == "Z" and k[1] is u) or (k[0] != "Z" and under(k[0]) is u)]:
            del s.mem[k]
        ev(s, "mapinit", args[0], r, I)
    return [(st, C(1)), (s2, ZERO)]


CBNAMES = {("struct.pogocache_load_opts", "entry"), ("struct.pogocache_delete_opts", "entry"),
           ("struct.pogocache_store_opts", "entry"), ("struct.pogocache_iter_opts", "entry")}


def m_indirect(S, st, I, args, ct):
    n = fldname(ct)
    if n in CBNAMES:
        if I.blk in S.inloop:
            S.redefine(st, I.id)
        r = site("call", I.id, n[0] + "." + n[1])
        # a callback runs user code: it may write what its arguments point to
        for a in args:
            if a.k in ("al", "off") and under(a).k == "al":
                u = under(a)
                for k in [k for k in st.mem if (k[0] == "Z" and k[1] is u) or (k[0] != "Z" and under(k[0]) is u)]:
                    del st.mem[k]
                st.clob = st.clob | {("root", u)}
        ev(st, "cb", n, r, tuple(args), I)
        return r
    if n and n[0] == "struct.pgctx":
        if n[1] == "free":
            ev(st, "ctxfree", args[0], I)
            return UNDEF
        if n[1] == "malloc":
            if I.blk in S.inloop:
                S.redefine(st, I.id)
            return site("call", I.id, "malloc")
        if n[1] == "yield":
            return UNDEF
        ev(st, "ctxcb", n[1], tuple(args), I)
        return UNDEF
    return NotImplemented


def m_acquire(S, st, I, args):
    """acquire_for_key / acquire_for_scan: the lock protocol itself is checked
    separately; here the results are fresh"""
    name = S.callee_name(I)
    if I.blk in S.inloop:
        S.redefine(st, I.id)
    st.auto = tuple(e for e in st.auto if e[0] not in ("phase", "mapinit"))
    n = {"acquire_for_key": [(2, 4), (3, 8), (4, 4)], "acquire_for_scan": [(1, 8)]}[name]
    for i, sz in n:
        if len(args) > i:
            outp(st, S, args[i], site("acq", I.id, i), sz)
    c = args[-1]
    outp(st, S, c, site("acq", I.id, "cache"))
    return site("call", I.id, "acquire")


MODELS = {
    "acquire_for_key": m_acquire, "acquire_for_scan": m_acquire,
    "load_ptr": m_load_ptr, "store_ptr": m_store_ptr,
    "entry_extract": m_entry_extract, "entry_new": m_entry_new,
    "map_insert": m_map_insert, "map_delete": m_map_delete, "delbkt": m_delbkt,
    "delentry_at_bkt": m_delentry,
    "entry_free": m_entry_free, "notify": m_notify, "auto_evict_entry": m_evict,
    "tryshrink": m_tryshrink, "getnow": m_getnow, "gettime": m_getnow, "map_get_bucket": m_get_bucket,
    "int64_add_clamp": lambda S, st, I, args: mk("pure", "int64_add_clamp", tuple(args)),
    "entry_expires": pure("entry_expires"), "entry_memsize": pure("entry_memsize"),
    "entry_cas": pure("entry_cas"), "map_init": m_map_init,
    "pogocache_entry_retain": m_retain, "entry_clone": m_retain,
    "*indirect*": m_indirect,
}

OPTSTRUCTS = ("struct.pogocache_store_opts", "struct.pogocache_load_opts", "struct.pogocache_delete_opts",
              "struct.pogocache_iter_opts", "struct.pogocache_sweep_opts", "struct.pogocache_clear_opts")


HARD = {"nx", "xx", "casop", "lowmem", "keepttl", "entry", "usecas", "noevict", "deferfree", "notouch"}


class Txn:
    def __init__(self, events, facts, ret, st, I, S, kind):
        self.ev = events
        self.facts = facts
        self.ret = ret
        self.st = st
        self.I = I
        self.S = S
        self.kind = kind

    def of(self, *kinds):
        return [e for e in self.ev if e[0] in kinds]

    def truth(self, t):
        return self.S.truth(self.st, t)


class EngineRule(Rule):
    models = MODELS
    keep = KEEP

    def __init__(self, root):
        self.root = root
        self.txns = []

    def inline(self, F, I):
        return F.mod.name == MOD and F.name not in self.keep

    def tracked(self, t):
        return trackterm(t)

    def step(self, S, st, I):
        if I.op == "store":
            A = S.val(st, I.a[1])
            s = ast(A)
            if s and s[0] == "struct.map":
                nm = PROG[0].member(*s)
                if nm in ("entsize", "total", "count"):
                    v = S.val(st, I.a[0])
                    ev(st, "acct", nm, v, A, I)
                elif nm == "buckets":
                    ev(st, "mapreset", "store", I)
            if s and s[0] == "struct.entry" and PROG[0].member(*s) == "time":
                ev(st, "settime", akey(A)[0], S.val(st, I.a[0]), I)
            if s and s[0] == "struct.bucket" and PROG[0].member(*s) == "dib":
                ev(st, "dib", A, I)
        elif I.op == "call":
            n = S.callee_name(I)
            if n and n.startswith("llvm.memcpy"):
                d = S.val(st, I.a[0])
                if ast(d) and ast(d)[0] == "struct.shard" and PROG[0].member(*ast(d)) == "map":
                    ev(st, "mapreset", "copy", I)
            elif n and n.startswith("llvm.memset"):
                d = S.val(st, I.a[0])
                if fld(d, "struct.map", "buckets"):
                    ev(st, "mapreset", "clear", I)

    def edge(self, S, st, src, dst):
        if (src, dst) in S.f.back:
            self.finish(S, st, None, S.f.blocks[src].insts[-1], "iter")

    def canon(self, S, v):
        if v.k in ("ld", "pure") and is_time(v):
            return mk("pure", "getnow", ())
        return v

    def hard(self, t):
        if t.k in ("call", "old", "ent"):
            return True
        if t.k == "pure":
            return t.a[0] == "entry_expires"
        if t.k == "cmp":
            return any(q.k == "pure" and q.a[0] in ("entry_expires", "entry_cas") for q in t.a if isinstance(q, T))
        n = fldname(t)
        return bool(n and n[1] in HARD)

    def joinval(self, v, w):
        if is_time(v) and is_time(w):
            return mk("pure", "getnow", ())
        return None

    def finish(self, S, st, ret, I, kind):
        ev_ = st.auto
        if ev_ or kind == "exit" or any(dibterm(t) for t in st.facts):
            self.txns.append(Txn(ev_, dict(st.facts), ret, st.copy(), I, S, kind))
        ph = [e for e in ev_ if e[0] in ("phase", "mapinit")]
        st.auto = (("phase", ph[-1][2] if ph[-1][0] == "mapinit" else ph[-1][1]),) if ph else ()

    def exit(self, S, st, I, ret):
        self.finish(S, st, ret, I, "exit")


def dibterm(t):
    return t.k == "ld" and fldname(t) == ("struct.bucket", "dib")


def trackterm(t):
    k = t.k
    if k == "p":
        return True
    if k == "ld":
        if dibterm(t) or under(t.a[1]).k == "al":
            return True
        n = fldname(t)
        if n is None:
            return False
        if n == ("struct.pogocache_store_opts", "udata") or n[1] in ("udata", "oneshard", "oneshardidx"):
            return False
        return n[0] in OPTSTRUCTS or n in (("struct.pgctx", "usecas"), ("struct.pgctx", "noevict"),
                                           ("struct.pgctx", "usenotify"))
    if k == "pure":
        return t.a[0].startswith("entry_")
    if k == "cmp":
        return any(isinstance(x, T) and trackterm(x) for x in t.a)
    if k in ("call", "old", "ent"):
        if k == "call":
            return t.a[1] in ("entry_new", "map_delete", "map_get_bucket") or "opts" in str(t.a[1])
        return True
    if k == "cast":
        return trackterm(t.a[1])
    return False


_cache = {}


def analyse(prog, rootname, cap=1500):
    k = (id(prog), rootname)
    if k in _cache:
        return _cache[k]
    F = prog.need(MOD, rootname)
    r = EngineRule(rootname)
    fl = flatten(prog, F, r.inline)
    S = Sim(prog, fl, r, cap=cap)
    S.run()
    _cache[k] = (r, S)
    return r, S


def alive_fact(S, st, e, now=None):
    """'alive' / 'dead' / None: what the path has established about entry e
    with respect to `now` (any time term when None)"""
    E = mk("pure", "entry_expires", (e,))
    z = S.truth(st, mkcmp("eq", E, ZERO))
    if z is True:
        return "alive"
    nows = []
    for t in list(st.facts):
        if t.k == "cmp" and t.a[0] == "slt" and t.a[2] is E:
            nows.append(t.a[1])
        elif t.k == "cmp" and t.a[0] == "slt" and t.a[1] is E:
            nows.append(None)
    if now is not None:
        r = S.truth(st, mkcmp("slt", now, E))
        if r is True:
            return "alive"
        if r is False and z is False:
            return "dead"
        return None
    for n in nows:
        if n is None:
            continue
        r = S.truth(st, mkcmp("slt", n, E))
        if r is True and is_time(n):
            return "alive"
        if r is False and z is False and is_time(n):
            return "dead"
    return None


def is_time(t):
    """a current-time term of the engine clock"""
    if t.k == "pure" and t.a[0] == "getnow":
        return True
    n = fldname(t)
    if n and n[1] == "time" and n[0] in OPTSTRUCTS + ("struct.pogocache_sweep_poll_opts",):
        return True
    if t.k == "p":
        return True
    return False
