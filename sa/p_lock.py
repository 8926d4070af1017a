"""C01: shard locking of the storage engine.  The lock word of a shard is
typestate-tracked on every path of every public operation."""
from psim import *
import psim
from ir import Broken, flatten
from summ import summarize

MOD = "pogocache.c"
SH, MAP, BKT = "struct.shard", "struct.map", "struct.bucket"
# helpers that work on a map or an entry they are given; calls are judged by
# the lock that protects their arguments
PRIM = {"map_insert", "map_delete", "map_get_bucket", "delbkt", "delentry_at_bkt", "resize", "tryshrink",
        "entry_new", "entry_free", "notify", "entry_extract", "auto_evict_entry", "load_ptr", "store_ptr",
        "entry_memsize", "entry_cas", "entry_key", "entry_value", "entry_rawkey", "map_init", "getnow",
        "entry_expires", "mix13", "gettime", "th64", "int64_add_clamp", "entry_clone", "map_deinit"}
# written only while the object is created (checked by the rule 'immutable')
IMMUT = {("struct.pogocache", "isbatch"), ("struct.batch", "cache"), ("struct.pgctx", "nshards"),
         ("struct.pogocache_clear_opts", "deferfree"), ("struct.pgctx", "usethreadbatch")}
EXEMPT = {"pogocache_new", "pogocache_free"}
ASSUME = [
    "the C semantics of LLVM 18 IR at -O0 for the build's defines",
    "distinct struct members of distinct objects do not overlap",
    "a batch is used by one thread at a time (documented contract of pogocache_begin)",
    "pogocache_new and pogocache_free run without concurrent users (documented)",
]
EXPLAIN = {"C01": "Typestate analysis of the shard lock word over every path of every public operation of pogocache.c (helpers inlined, "
           "path facts kept): acquisition is the success of an acquire compare-exchange from 0, or a failed one that found the batch's own "
           "address; release is a release store of 0. Every access to a shard's map, buckets and cas counter, and every call of a map helper, "
           "must happen with that shard's lock held; plain operations release on every exit, batch operations keep the lock and are linked "
           "into the batch; pogocache_end releases each linked shard exactly once."}


def mem(s):
    return PROG[0].member(s[0], s[1])


class Lock(Rule):
    keepmem = True

    def __init__(self, prog, R, F):
        self.prog = prog
        self.R = R
        self.F = F
        self.ssz = prog.structs[SH]["size"] // 8
        # (held: tuple of (shard, newval, cx, linked), pending: (shard,newval,cx) or None, detached)
        self.init = ((), None, frozenset())
        self.acq = 0

    def inline(self, G, I):
        return G.mod.name == MOD and G.name not in PRIM

    def tracked(self, t):
        return any(x.k == "cx" for x in self.parts(t)) or self.idxfact(t)

    def idxfact(self, t):
        if t.k != "cmp" or isc(t.a[2]):
            return False
        for x in t.a[1:]:
            while x.k == "cast":
                x = x.a[1]
            if x.k == "ld" and ast(x.a[1]) and mem(ast(x.a[1])) == "nshards":
                return True
        return False

    def parts(self, t, d=0):
        yield t
        if d < 4:
            for x in t.a:
                if isinstance(x, T):
                    yield from self.parts(x, d + 1)

    def shardterm(self, t, d=0):
        while d < 12:
            d += 1
            if t.k == "off":
                t = t.a[0]
            elif t.k == "idx":
                if any(sc == self.ssz for _, sc in t.a[1]):
                    return mk("shard", under(t), t.a[1])
                t = t.a[0]
            elif t.k == "ld":
                t = t.a[1]
            elif t.k in ("cast", "ent"):
                t = t.a[1]
            else:
                return None
        return None

    def rep(self, S, st, I, key, msg):
        self.R.bad(key, "%s/%s" % (self.F.name, I.fn.name), I.where(), msg, S.trace(st),
                   [show(t) + " in " + rng(r) for t, r in list(st.facts.items())[:12]])

    def settle(self, S, st):
        """a failed exchange that found the caller's own batch is a re-entry"""
        held, pend, det = st.auto
        if pend is not None:
            sh, nv, cx = pend
            if S.truth(st, mkcmp("eq", mk("cxr", cx, 0), nv)) is True:
                if isc(nv):
                    return
                st.auto = (held + ((sh, nv, "re", True),), None, det)

    def isheld(self, S, st, sh):
        self.settle(S, st)
        return any(h[0] is sh for h in st.auto[0])

    def indexrule(self, S, st, I, sh):
        for v, sc in sh.a[1]:
            if sc != self.ssz:
                continue
            if v.k == "bin" and v.a[0] in ("urem", "and", "srem"):
                self.R.ok("index", "%s: hash modulo nshards" % self.F.name)
                continue
            def isn(t):
                while t.k == "cast":
                    t = t.a[1]
                return t.k == "ld" and ast(t.a[1]) and mem(ast(t.a[1])) == "nshards"
            def same(x):
                while x.k == "cast":
                    x = x.a[1]
                return x is v
            up = lo = None
            for t in list(st.facts):
                if t.k == "cmp" and t.a[0] in ("slt", "ult", "eq") and not isc(t.a[2]):
                    tv = S.truth(st, t)
                    if tv is None:
                        continue
                    if same(t.a[1]) and isn(t.a[2]):
                        if t.a[0] != "eq":
                            up = tv if up is not False else up
                    elif same(t.a[2]) and isn(t.a[1]) and t.a[0] == "slt" and tv is False and up is None:
                        up = "le"
            low = S.truth(st, mkcmp("slt", v, ZERO))
            if up is True:
                self.R.ok("index", "%s: index < nshards" % self.F.name)
            elif up == "le":
                self.rep(S, st, I, "index", "shard index %s may equal the number of shards" % show(v))
            elif v.k == "ld" and up is None:
                self.rep(S, st, I, "index", "caller-supplied shard index %s is not bounded by the number of shards" % show(v))
            if v.k == "ld" and low is None:
                self.rep(S, st, I, "index", "caller-supplied shard index %s may be negative" % show(v))

    def after(self, S, st, I):
        if I.op == "load":
            A = S.val(st, I.a[0])
            s = ast(A)
            if s and under(A).k != "al" and (s[0], mem(s)) in IMMUT:
                t = mk("ld", 0, A, nbytes(I.ty))
                if st.env[I.id] is not t:
                    st.env[I.id] = t
                    e = st.mem.get(akey(A))
                    if e is not None:
                        st.mem[akey(A)] = (t, e[1], e[2])
            return
        if I.op != "cmpxchg":
            return
        A = S.val(st, I.a[0])
        if not (ast(A) and ast(A)[0] == SH and mem(ast(A)) == "lock"):
            return
        sh = self.shardterm(A) or mk("shard", under(A), ())
        exp, nv = S.val(st, I.a[1]), S.val(st, I.a[2])
        cx = st.env[I.id]
        self.settle(S, st)
        held, pend, det = st.auto
        ok = I.d.get("ord") in ("acquire", "acq_rel", "seq_cst")
        self.R.check(ok, "acquire-order", I.fn.name, I.where(), "the lock is taken without acquire ordering (%s)" % I.d.get("ord"))
        self.acq += 1
        if isc(exp) and exp.a[0] != 0:
            self.rep(S, st, I, "take-free", "the lock is taken although its word is not zero")
        elif not isc(exp):
            v = S.truth(st, mkcmp("eq", exp, ZERO))
            if v is not True:
                self.rep(S, st, I, "take-free", "the lock exchange does not insist on a free lock word (expects %s)" % show(exp))
        if held and not any(h[0] is sh and not isc(h[1]) for h in held):
            plain = [h for h in held if isc(h[1])]
            if plain and isc(nv):
                self.rep(S, st, I, "lock-order", "a second shard lock is taken while one is held")
        # the value stored distinguishes plain operations from batches
        bt = self.batchness(S, st)
        if bt is True and isc(nv):
            self.rep(S, st, I, "owner", "an operation of a batch takes the lock anonymously")
        if bt is False and not isc(nv):
            self.rep(S, st, I, "owner", "a plain operation takes the lock in the name of a batch")
        if isc(nv) and nv.a[0] == 0:
            self.rep(S, st, I, "owner", "the lock is taken by writing zero")
        self.indexrule(S, st, I, sh)
        s2 = st.copy()
        succ = mkcmp("eq", mk("cxr", cx, 1), C(1))
        out = []
        if S.assume(st, succ, True):
            st.auto = (held + ((sh, nv, cx, isc(nv)),), None, det)
            out.append(st)
        if S.assume(s2, succ, False):
            s2.auto = (held, (sh, nv, cx), det)
            out.append(s2)
        return out

    def batchness(self, S, st):
        for t in st.facts:
            x = t
            while x.k == "cast":
                x = x.a[1]
            if x.k == "ld" and ast(x.a[1]) and ast(x.a[1])[0] == "struct.pogocache" and mem(ast(x.a[1])) == "isbatch" and akey(x.a[1])[0].k == "p":
                return S.truth(st, t)
        return None

    def access(self, S, st, I, A, what):
        u = under(A)
        if u.k == "al":
            return
        sh = self.shardterm(A)
        if sh is None:
            return
        base = A
        while base.k in ("off", "idx"):
            base = base.a[0]
        if base in st.auto[2]:
            self.R.ok("detached", "%s: %s after the table was taken out" % (self.F.name, what))
            return
        if self.isheld(S, st, sh):
            self.R.ok("held", "%s: %s" % (self.F.name, what))
        else:
            self.rep(S, st, I, "held", "%s of a shard whose lock is not held" % what)

    def step(self, S, st, I):
        if I.op in ("load", "store"):
            A = S.val(st, I.a[0] if I.op == "load" else I.a[1])
            s = ast(A)
            if not s:
                return
            if s[0] == SH and mem(s) == "lock":
                if I.op == "store":
                    self.release(S, st, I, A)
                return
            if s[0] in (MAP, BKT) or (s[0] == SH and mem(s) in ("cas", "map")):
                self.access(S, st, I, A, "%s of %s.%s" % (I.op, s[0][7:], mem(s)))
                if I.op == "store" and s[0] == MAP and mem(s) == "buckets":
                    self.detach(S, st, I, A)
            elif s[0] == SH and mem(s) == "next":
                sh = self.shardterm(A)
                if sh is None:
                    return
                if self.isheld(S, st, sh):
                    self.R.ok("held", "%s: next" % self.F.name)
                    v = S.val(st, I.a[0])
                    if I.op == "store" and v.k == "ld" and ast(v.a[1]) and ast(v.a[1])[0] == "struct.batch" and mem(ast(v.a[1])) == "shard":
                        self.link(st, sh, "next")
                else:
                    self.rep(S, st, I, "held", "%s of shard.next without the lock" % I.op)
            elif s[0] == "struct.batch" and mem(s) == "shard" and I.op == "store":
                v = S.val(st, I.a[0])
                sh = self.shardterm(v)
                if sh is not None:
                    if not self.isheld(S, st, sh):
                        self.rep(S, st, I, "held", "a shard is linked into the batch before its lock is held")
                    self.link(st, sh, "head")
        elif I.op == "call":
            n = S.callee_name(I)
            if n is None or n.startswith("llvm.") and not n.startswith("llvm.mem"):
                return
            if n.startswith("llvm.mem"):
                ptrs = [(S.val(st, I.a[0]), "write")]
                if not n.startswith("llvm.memset"):
                    ptrs.append((S.val(st, I.a[1]), "read"))
                for A, w in ptrs:
                    sh = self.shardterm(A)
                    if sh is None:
                        continue
                    self.access(S, st, I, A, "bulk %s" % w)
                    s = ast(A)
                    if w == "write" and s and s[0] in (SH, MAP) and not (A.k == "off" and A.a[0].k == "ld"):
                        self.detach(S, st, I, A)
                return
            if n in PRIM and n not in ("entry_free", "entry_expires", "entry_memsize", "entry_extract", "entry_cas", "entry_key", "entry_value", "entry_rawkey",
                                       "notify", "entry_clone"):
                for o in I.a:
                    A = S.val(st, o)
                    if A.k in ("c",):
                        continue
                    sh = self.shardterm(A)
                    if sh is not None and A.k in ("off", "idx"):
                        self.access(S, st, I, A, "%s()" % n)

    def detach(self, S, st, I, A):
        # old value of shard->map.buckets
        sh = self.shardterm(A)
        held, pend, det = st.auto
        add = set()
        for k, e in st.mem.items():
            if k[0] == "Z" or not e[2]:
                continue
            if e[2][0] == MAP and mem(e[2]) == "buckets" and self.shardterm(off(k[0], k[1], e[2])) is sh:
                add.add(e[0])
        # copies of it held in locals
        for k, e in st.mem.items():
            if k[0] != "Z" and e[0].k == "ld" and ast(e[0].a[1]) and ast(e[0].a[1])[0] == MAP and mem(ast(e[0].a[1])) == "buckets" and \
                    self.shardterm(e[0].a[1]) is sh and under(k[0]).k == "al":
                add.add(e[0])
        if add:
            st.auto = (held, pend, det | frozenset(add))

    def link(self, st, sh, what):
        held, pend, det = st.auto
        out = []
        for h in held:
            if h[0] is sh and h[3] is not True:
                l = h[3] if isinstance(h[3], frozenset) else frozenset()
                l = l | {what}
                h = (h[0], h[1], h[2], True if l >= {"next", "head"} else l)
            out.append(h)
        st.auto = (tuple(out), pend, det)

    def release(self, S, st, I, A):
        v = S.val(st, I.a[0])
        if under(A).k == "al":
            return
        sh = self.shardterm(A) or mk("shard", under(A), ())
        o = I.d.get("ord")
        self.R.check(o in ("release", "seq_cst"), "release-order", I.fn.name, I.where(), "the lock is released without release ordering (%s)" % (o or "plain store"))
        if not (isc(v) and v.a[0] == 0):
            self.rep(S, st, I, "release", "the lock word is overwritten with %s" % show(v))
            return
        self.settle(S, st)
        held, pend, det = st.auto
        mine = [h for h in held if h[0] is sh]
        if not mine:
            self.rep(S, st, I, "release", "a lock that is not held is released")
            return
        if not isc(mine[0][1]):
            self.rep(S, st, I, "release", "a batch operation releases its lock before the batch ends")
            return
        self.R.ok("release", "%s: plain lock released" % self.F.name)
        st.auto = (tuple(h for h in held if h[0] is not sh), pend, det)

    def edge(self, S, st, src, dst):
        if (src, dst) in S.f.back:
            held = st.auto[0]
            if held:
                phis = {I.id for I in S.f.blocks[dst].insts if I.op == "phi"}
                keep = []
                for h in held:
                    if h[0].sites & phis:
                        if isc(h[1]):
                            self.rep(S, st, S.f.blocks[src].insts[-1], "exit", "the next shard is taken up while this one is still locked")
                        else:
                            self.linked(S, st, S.f.blocks[src].insts[-1], h)
                        continue
                    keep.append(h)
                st.auto = (tuple(keep), st.auto[1], st.auto[2])

    def linked(self, S, st, I, h):
        if h[2] == "re" or h[3] is True:
            self.R.ok("linked", "%s: shard linked into the batch" % self.F.name)
        else:
            self.rep(S, st, I, "linked", "a shard locked by a batch is not linked into its list (missing: %s)" %
                     ", ".join(sorted({"next", "head"} - (h[3] if isinstance(h[3], frozenset) else frozenset()))))

    def exit(self, S, st, I, ret):
        self.settle(S, st)
        held, pend, det = st.auto
        for h in held:
            if isc(h[1]):
                self.rep(S, st, I, "exit", "the operation returns with the shard lock held")
            else:
                self.linked(S, st, I, h)
        self.R.ok("exit", "%s" % self.F.name)


def creator(prog, F):
    """F runs only as part of pogocache_new / pogocache_begin"""
    seen = set()
    w = [F]
    while w:
        G = w.pop()
        if G.key in seen:
            continue
        seen.add(G.key)
        if not G.internal:
            if G.name not in ("pogocache_new", "pogocache_begin"):
                return False
            continue
        for H in prog.funcs():
            if G.key in prog.callees(H)[0]:
                w.append(H)
    return True


def C01(prog, R, tier):
    M = prog.mods.get(MOD)
    if M is None:
        raise Broken("pogocache.c is gone")
    if SH not in prog.structs:
        raise Broken("struct shard is gone")
    for F in sorted(M.funcs.values(), key=lambda f: f.name):
        defs = {I.id: I for I in F.insts()}
        for I in F.insts():
            if I.op != "store" or I.a[1][0] != "v":
                continue
            g = defs.get(I.a[1][1])
            if g is None or g.op != "getelementptr" or not g.d["path"]:
                continue
            s = tuple(g.d["path"][-1])
            if (s[0], mem(s)) in IMMUT and s[0] != "struct.pogocache_clear_opts":
                R.check(creator(prog, F), "immutable", "%s/%s" % (F.name, mem(s)), I.where(),
                        "%s.%s is changed after the object was created" % (s[0][7:], mem(s)), inst="%s in %s" % (mem(s), F.name))
    total = 0
    for F in sorted(M.funcs.values(), key=lambda f: f.name):
        if F.internal or F.name in EXEMPT or F.name in ("pogocache_begin", "pogocache_end"):
            continue
        r = Lock(prog, R, F)
        fl = flatten(prog, F, r.inline)
        S = Sim(prog, fl, r, cap=400)
        S.run()
        total += r.acq
        R.analysed(F)
        for k in fl.inlined:
            R.analysed("%s:%s" % k)
    if not total:
        raise Broken("no operation takes a shard lock with a compare-exchange")
    R.need("held")
    begin_end(prog, R)


class End(Rule):
    """pogocache_end: every linked shard is unlocked once, its link read first"""
    keepmem = True
    init = (EMPTY, EMPTY, EMPTY, False)     # next read of, released, freed args, any release

    def __init__(self, prog, R, F):
        self.prog = prog
        self.R = R
        self.F = F

    def inline(self, G, I):
        return G.mod.name == MOD

    def tracked(self, t):
        return True

    def root(self, A):
        return akey(A)[0]

    def rep(self, S, st, I, key, msg):
        self.R.bad(key, self.F.name, I.where(), msg, S.trace(st))

    def step(self, S, st, I):
        nx, rel, fr, anyr = st.auto
        if I.op in ("load", "store"):
            A = S.val(st, I.a[0] if I.op == "load" else I.a[1])
            s = ast(A)
            if s and s[0] == SH:
                x = self.root(A)
                if x in rel:
                    self.rep(S, st, I, "end-use", "a shard is used after its lock was released")
                    return
                if mem(s) == "next" and I.op == "load":
                    nx = nx | {x}
                if mem(s) == "lock" and I.op == "store":
                    v = S.val(st, I.a[0])
                    if not (isc(v) and v.a[0] == 0):
                        self.rep(S, st, I, "release", "the lock word is overwritten with %s" % show(v))
                    self.R.check(I.d.get("ord") in ("release", "seq_cst"), "release-order", self.F.name, I.where(),
                                 "the lock is released without release ordering")
                    if x not in nx:
                        self.rep(S, st, I, "end-next", "the link of a shard is not read before its lock is released")
                    else:
                        self.R.ok("end-next", self.F.name)
                    rel = rel | {x}
                    anyr = True
                st.auto = (nx, rel, fr, anyr)
            elif s and fr and s[0] in ("struct.batch", "struct.pogocache") and self.root(A) in fr:
                self.rep(S, st, I, "end-use", "the batch is used after it was freed")
        elif I.op == "call" and S.callee_name(I) is None and I.callee and I.callee[0] != "asm":
            ct = S.val(st, I.callee)
            if ct.k == "ld" and ast(ct.a[1]) and mem(ast(ct.a[1])) == "free":
                st.auto = (nx, rel, fr | {S.val(st, I.a[0])}, anyr)

    def edge(self, S, st, src, dst):
        if (src, dst) in S.f.back:
            nx, rel, fr, anyr = st.auto
            st.auto = (EMPTY, EMPTY, fr, anyr)

    def exit(self, S, st, I, ret):
        nx, rel, fr, anyr = st.auto
        ended = False
        thr = None
        for t, r in st.facts.items():
            x = t
            while x.k == "cast":
                x = x.a[1]
            if x.k == "phi" and r[0] == r[1] == 0:
                ended = True
            if x.k == "ld" and ast(x.a[1]):
                s = ast(x.a[1])
                if (s[0], mem(s)) in ((SH, "next"), ("struct.batch", "shard")) and r[0] == r[1] == 0:
                    ended = True
                if mem(s) == "usethreadbatch":
                    thr = S.truth(st, t)
        self.R.check(ended, "end-all", self.F.name, I.where(), "the batch ends without walking its whole list of locked shards", S.trace(st))
        p0 = mk("p", 0)
        if thr is True:
            self.R.check(p0 not in fr, "end-free", self.F.name, I.where(), "the thread's static batch is freed", S.trace(st))
        elif thr is False:
            self.R.check(p0 in fr, "end-free", self.F.name, I.where(), "an allocated batch is not freed", S.trace(st))


def begin_end(prog, R):
    F = prog.need(MOD, "pogocache_end")
    r = End(prog, R, F)
    S = Sim(prog, flatten(prog, F, r.inline), r, cap=400)
    S.run()
    R.analysed(F)
    F = prog.need(MOD, "pogocache_begin")
    R.analysed(F)
    bo = prog.field_off("struct.batch", "shard")
    for e in summarize(prog, F):
        if isc(e.ret) and e.ret.a[0] == 0:
            R.ok("begin", "no memory")
            continue
        if e.truth(mkcmp("eq", e.ret, ZERO)) is True:
            continue
        got = {}
        for k, en in e.mem.items():
            if k[0] == "Z" or not en[2]:
                continue
            if under(k[0]) is under(e.ret):
                got[(en[2][0], mem(en[2]))] = en[0]
        def const(st, n, v):
            t = got.get((st, n))
            return t is not None and isc(t) and t.a[0] == v
        R.check(const("struct.pogocache", "isbatch", 1), "begin", "isbatch", e.I.where(), "a new batch is not marked as one", e.trace())
        R.check(const("struct.batch", "shard", 0), "begin", "shard", e.I.where(), "a new batch does not start with an empty list of locked shards", e.trace())
        R.check(got.get(("struct.batch", "cache")) is mk("p", 0), "begin", "cache", e.I.where(), "a new batch does not refer to its cache", e.trace())
