"""C02-C09: properties of the storage engine, judged on the transactions of
engine.py (every path of every public operation) and on the contracts of the
functions those transactions treat as primitive."""
from psim import *
import psim, engine
from engine import alive_fact, is_time, fldname, fld
from ir import Broken, flatten
from summ import summarize, Ev

MOD = "pogocache.c"
ROOTS = ["pogocache_store", "pogocache_load", "pogocache_delete", "pogocache_iter",
         "pogocache_sweep", "pogocache_clear", "pogocache_entry_iter", "auto_evict_entry"]
K_INS, K_DEL, K_REPL, K_EXP, K_CLR, K_LOW = range(6)
KIND = ["INSERTED", "DELETED", "REPLACED", "EXPIRED", "CLEARED", "LOWMEM"]

ASSUME = [
    "the C semantics of LLVM 18 IR at -O0 for the build's defines (CCSANI, no OpenSSL/uring)",
    "distinct struct members of distinct objects do not overlap (type-based field separation)",
    "user callbacks modify only what their arguments point to",
]
EXPLAIN = {}


def enums(prog):
    e = prog.enums
    want = {}
    for n, vals in e.items():
        pass
    return e


# status codes are macros or enum constants of the public header
ST = {"INSERTED": 1, "REPLACED": 2, "FOUND": 3, "NOTFOUND": 4, "DELETED": 5, "FINISHED": 6, "CANCELED": 7, "NOMEM": 8}


def txns(prog, R, roots=None):
    for root in roots or ROOTS:
        F = prog.get(MOD, root)
        if F is None:
            raise Broken("anchor function %s not found" % root)
        r, S = engine.analyse(prog, root)
        for k in S.f.inlined:
            R.analysed("%s:%s" % k)
        R.analysed(F)
        if not r.txns:
            raise Broken("no transactions of %s" % root)
        for x in r.txns:
            x.root = root
            yield root, S, x


def tr(S, x):
    return S.trace(x.st)


def where(x, e=None):
    I = e[-1] if e is not None and hasattr(e[-1], "where") else x.I
    return I.where()


def fname(x, e=None):
    I = e[-1] if e is not None and hasattr(e[-1], "where") else x.I
    return I.fn.name


class Flow:
    """life of every entry in one transaction"""

    def __init__(self, x):
        self.x = x
        self.own = {}
        self.inmap0 = set()
        self.inmap = {}
        self.entered = []
        self.left = []
        self.created = set()
        self.freed = set()
        self.problems = []
        self.notes = []
        self.phase = None
        S = x.S
        self.cls = {}
        for t, r in x.facts.items():
            if t.k == "cmp" and t.a[0] == "eq" and r[0] == 1:
                a, b = self.c(t.a[1]), self.c(t.a[2])
                if a is not b:
                    self.cls[b] = a
        self.run()

    def c(self, e):
        while e in self.cls:
            e = self.cls[e]
        return e

    def isnull(self, e):
        return (isc(e) and e.a[0] == 0) or self.x.truth(mkcmp("eq", e, ZERO)) is True

    def run(self):
        x = self.x
        own, inmap = self.own, self.inmap
        self.dead_path = False
        for e in x.ev:
            k = e[0]
            if k == "phase":
                self.phase = e[1]
            elif k == "mapinit":
                self.phase = e[2]
            elif k == "visit":
                t = self.c(e[1])
                if t not in inmap and t not in own:
                    inmap[t] = True
                    self.inmap0.add(t)
            elif k == "new":
                t = self.c(e[1])
                own[t] = own.get(t, 0) + 1
                self.created.add(t)
            elif k == "insert":
                t, o = self.c(e[1]), self.c(e[2])
                if own.get(t, 0) <= 0:
                    self.problems.append(("insert-unowned", "an entry this operation does not own is inserted", e))
                own[t] = own.get(t, 0) - 1
                inmap[t] = True
                if not self.isnull(o):
                    if o not in inmap:
                        self.inmap0.add(o)
                    inmap[o] = False
                    own[o] = own.get(o, 0) + 1
            elif k == "rm":
                t = self.c(e[1])
                if t not in inmap:
                    self.inmap0.add(t)
                elif inmap[t] is False:
                    self.problems.append(("double-remove", "an entry is removed from the map twice", e))
                inmap[t] = False
                own[t] = own.get(t, 0) + 1
            elif k == "put":
                A, t = e[1], self.c(e[2])
                o = self.lastvisit()
                if own.get(t, 0) <= 0 and t not in self.created:
                    self.problems.append(("insert-unowned", "an entry this operation does not own is put into a bucket", e))
                own[t] = own.get(t, 0) - 1
                inmap[t] = True
                if o is not None:
                    inmap[o] = False
                    own[o] = own.get(o, 0) + 1
            elif k == "retain":
                t = self.c(e[1])
                own[t] = own.get(t, 0) + 1
            elif k == "free":
                t = e[1]
                if self.isnull(t):
                    if isc(t):
                        self.problems.append(("free-null", "releases a null entry", e))
                    else:
                        self.dead_path = True
                    continue
                t = self.c(t)
                if t not in inmap and t not in own:
                    # an entry reached through a local array of candidates
                    inmap[t] = True
                    self.inmap0.add(t)
                if own.get(t, 0) <= 0 and x.root != "pogocache_clear":
                    self.problems.append(("free-unowned", "releases an entry that %s" %
                                          ("is still in the map" if inmap.get(t) else "was already released"), e))
                if t in self.freed:
                    self.problems.append(("double-free", "releases the same entry twice", e))
                own[t] = own.get(t, 0) - 1
                self.freed.add(t)
            elif k in ("use", "cb", "notify"):
                ts = []
                if k == "use":
                    ts = [e[1]]
                elif k == "notify":
                    ts = [e[2], e[3]]
                    for t in ts:
                        if not isc(t) and self.isnull(t):
                            self.dead_path = True
                else:
                    for a in e[3]:
                        b = a
                        while b.k in ("off", "idx"):
                            b = b.a[0]
                        if b.k == "pure" and b.a[0] in ("entry_value", "entry_key"):
                            ts.append(b.a[1][0])
                for t in ts:
                    t = self.c(t)
                    if t in self.freed and own.get(t, 0) <= 0:
                        self.problems.append(("use-after-release", "uses an entry it has already released", e))
        ret = x.ret
        if ret is not None and ret in own and own[ret] > 0 and x.kind == "exit":
            own[ret] -= 1
            self.returned = ret
        for t, n in own.items():
            if n > 0:
                self.problems.append(("leak", "keeps a reference to an entry that is no longer in the map (leak)", None))
        for t in self.inmap0:
            if inmap.get(t) is False:
                self.left.append(t)
        for t, v in inmap.items():
            if v and t not in self.inmap0:
                self.entered.append(t)

    def lastvisit(self):
        o = None
        for e in self.x.ev:
            if e[0] == "visit":
                o = self.c(e[1])
            if e[0] == "put":
                break
        return o


_fl = {}


def flow(x):
    f = _fl.get(id(x))
    if f is None or f.x is not x:
        f = Flow(x)
        _fl[id(x)] = f
    return f


def desc(x):
    out = []
    for e in x.ev:
        if e[0] in ("visit", "phase", "newcas"):
            continue
        if e[0] == "notify":
            k = e[1]
            out.append("notify %s" % (KIND[k.a[0]] if isc(k) and 0 <= k.a[0] < 6 else "?"))
        else:
            out.append(e[0])
    return ", ".join(out) + (" -> %s" % show(x.ret) if x.ret is not None else "")


# ---------------------------------------------------------------- C04
EXPLAIN["C04"] = ("Every path of every engine operation that touches entries is enumerated to a fixpoint; on each, the "
                  "reference of every entry is followed through creation, insertion, removal, retention and release. An "
                  "entry must be released exactly once when it leaves the map, never while it is still reachable from the "
                  "map, never null, and never used afterwards. The primitives (reference count update, map replacement, "
                  "bucket removal, resize) are checked against the contracts the path analysis assumes.")


def C04(prog, R, tier):
    rule = "entry reference balanced on path"
    for root, S, x in txns(prog, R):
        f = flow(x)
        if f.dead_path:
            continue
        probs = f.problems
        for code, msg, e in probs:
            R.bad(rule, "%s:%s" % (root, code), where(x, e), "%s: %s (%s)" % (root, msg, desc(x)), tr(S, x))
        if not probs:
            R.ok(rule, "%s: %s" % (root, desc(x)))
        if root == "pogocache_clear":
            clear_release(R, S, x, f)
    R.need(rule, 60)
    contracts_refcount(prog, R)
    contracts_map(prog, R, "C04")


def clear_release(R, S, x, f):
    """phase None: notification pass; 0: new table could not be allocated; 1: swapped"""
    rule = "clear releases every entry exactly once"
    vis = [e for e in x.ev if e[0] == "visit"]
    fr = [e for e in x.ev if e[0] == "free"]
    d = deferfree(x)
    if not vis:
        return
    if d is None:
        return
    key = "pogocache_clear"
    ph = f.phase
    # entries visited before the table is replaced
    if ph is None:
        if fr and d is True:
            R.bad(rule, key + ":early", where(x, fr[0]), "an entry is released in the first pass although release is deferred to a later pass", tr(S, x))
        elif not fr and d is False:
            R.bad(rule, key + ":never", where(x), "an entry is never released when release is not deferred", tr(S, x))
        else:
            R.ok(rule)
    else:
        if fr and d is False:
            R.bad(rule, key + ":twice", where(x, fr[0]), "an entry already released in the first pass is released again", tr(S, x))
        elif not fr and d is True:
            R.bad(rule, key + ":deferred-never", where(x), "an entry whose release was deferred is not released", tr(S, x))
        else:
            R.ok(rule)


def optterm(x, struct, name, pidx):
    try:
        o = PROG[0].field_off(struct, name)
    except Broken:
        return None
    m = PROG[0].field_at(struct, o)
    return mk("ld", 0, off(mk("p", pidx), o, (struct, o)), (m["s"] + 7) // 8)


def optval(x, struct, name, pidx):
    """truth of a boolean option on the path, False when the caller gave none"""
    if x.truth(mkcmp("eq", mk("p", pidx), ZERO)) is True:
        return False
    t = optterm(x, struct, name, pidx)
    v = x.truth(t)
    if v is None:
        v = x.truth(mkcast("trunc", t, 8, 1))
    return v


def deferfree(x):
    return optval(x, "struct.pogocache_clear_opts", "deferfree", 1)


# ---------------------------------------------------------------- contracts
def S_(prog, name, **kw):
    return summarize(prog, prog.need(MOD, name), **kw)


def contracts_refcount(prog, R):
    rule = "reference count contract"
    ex = S_(prog, "entry_free")
    R.analysed(prog.need(MOD, "entry_free"))
    n = 0
    for s in ex:
        dec = [e for e in s.ev if e.k == "rmw" and fldaddr(e.addr, "struct.entry", "rc")]
        fr = [e for e in s.ev if e.k == "icall" and fldname(e.target) == ("struct.pgctx", "free")]
        w = s.I.where()
        n += 1
        if len(dec) != 1 or dec[0].op not in ("sub", "add") or not isc(dec[0].val) or \
                (dec[0].val.a[0] if dec[0].op == "sub" else -dec[0].val.a[0]) != 1:
            R.bad(rule, "entry_free:dec", w, "releasing an entry must decrement its reference count exactly once, atomically", s.trace())
            continue
        old = dec[0].res
        last = s.truth(mkcmp("slt", old, C(2)))    # old value <= 1
        if last is None:
            # the count is never below one while it is held: comparing with one decides it
            last = s.truth(mkcmp("eq", old, C(1)))
        if fr:
            R.check(last is True and len(fr) == 1 and fr[0].args[0] is dec[0].root, rule, "entry_free:free", w,
                    "the entry's memory is freed on a path where other references may remain (previous count not known to be 1)", s.trace())
        else:
            R.check(last is False, rule, "entry_free:keep", w,
                    "the entry's memory is not freed although the last reference was dropped", s.trace())
        R.check(ordering_ok(dec[0].ord, True), rule, "entry_free:order", w, "the reference count is dropped without release/acquire ordering", s.trace())
    for s in S_(prog, "entry_clone"):
        inc = [e for e in s.ev if e.k == "rmw" and fldaddr(e.addr, "struct.entry", "rc")]
        n += 1
        R.check(len(inc) == 1 and inc[0].op == "add" and isc(inc[0].val) and inc[0].val.a[0] == 1, rule, "entry_clone",
                s.I.where(), "retaining an entry must increment its reference count by one", s.trace())
    for s in S_(prog, "pogocache_entry_retain"):
        inc = [e for e in s.ev if e.k == "rmw" and fldaddr(e.addr, "struct.entry", "rc") and e.op == "add"]
        null = s.truth(mkcmp("eq", mk("p", 1), ZERO))
        n += 1
        R.check((null is True and not inc) or (null is not True and len(inc) == 1 and isc(inc[0].val) and inc[0].val.a[0] == 1),
                rule, "retain", s.I.where(), "retaining an entry must add exactly one reference", s.trace())
    for s in S_(prog, "pogocache_entry_release", keep={"entry_free"}):
        fr = [e for e in s.ev if e.k == "call" and e.name == "entry_free"]
        null = s.truth(mkcmp("eq", mk("p", 1), ZERO))
        n += 1
        R.check((null is True and not fr) or (null is not True and len(fr) == 1 and fr[0].args[0] is mk("p", 1)),
                rule, "release", s.I.where(), "releasing an entry must drop exactly one reference", s.trace())
    R.need(rule, 6)


def ordering_ok(o, both):
    return o in ("seq_cst", "acq_rel")


def fldaddr(a, st, name):
    s = ast(a)
    return bool(s and s[0] == st and PROG[0].member(*s) == name)


def lin(t, sign=1, out=None):
    """linear combination of atoms"""
    if out is None:
        out = {}
    if isc(t):
        out[1] = out.get(1, 0) + sign * t.a[0]
    elif t.k == "bin" and t.a[0] in ("add", "sub"):
        lin(t.a[1], sign, out)
        lin(t.a[2], sign if t.a[0] == "add" else -sign, out)
    elif t.k == "cast" and t.a[0] in ("zext", "sext", "trunc") and t.a[1].k == "bin":
        lin(t.a[1], sign, out)
    else:
        out[t] = out.get(t, 0) + sign
    return {k: v for k, v in out.items() if v}


def lsub(a, b):
    o = dict(a)
    for k, v in b.items():
        o[k] = o.get(k, 0) - v
    return {k: v for k, v in o.items() if v}


def mapfield(s, base, name):
    """final value of base->name (struct map) minus its initial value, as a
    linear combination; {} when unchanged"""
    o = PROG[0].field_off("struct.map", name)
    A = off(base, o, ("struct.map", o))
    e = s.mem.get(akey(A))
    if e is None:
        return {} if not s.wrote("struct.map", name) else None
    L = lin(e[0])
    for k in L:
        if isinstance(k, T) and L[k] == 1 and k.k == "ld" and akey(k.a[1]) == akey(A):
            del L[k]
            return L
    if isc(e[0]):
        return {"=": e[0].a[0]}
    return None


def esz(e):
    return mk("pure", "entry_memsize", (e,))


SZ = {"entry_memsize": engine.pure("entry_memsize")}


def contracts_map(prog, R, pid):
    rule = "map primitive contract"
    P = lambda k: mk("p", k)
    # map_insert
    F = prog.need(MOD, "map_insert")
    R.analysed(F)
    ex = summarize(prog, F, keep={"resize", "entry_compare", "load_ptr", "store_ptr"}, models=dict(SZ, load_ptr=m_loadptr, store_ptr=m_storeptr))
    got = set()
    for s in ex:
        w = s.I.where()
        oc = s.mem.get(akey(P(3)))
        old = oc[0] if oc else None
        cnt, ent, tot = (mapfield(s, P(0), n) for n in ("count", "entsize", "total"))
        rt = s.ret
        ok = None if rt is None else s.truth(rt)
        rs = [e for e in s.ev if e.k == "call" and e.name == "resize"]
        if ok is False:
            got.add("fail")
            R.check(cnt == {} and ent == {} and tot == {} and old is not None and isc(old) and old.a[0] == 0, rule, "map_insert:fail", w,
                    "a failed insertion must leave count, size and total unchanged and report no replaced entry", s.trace())
            R.check(any(s.truth(e.res) is False for e in rs), rule, "map_insert:fail-cause", w,
                    "insertion fails although the table was not found unable to grow", s.trace())
        elif ok is True and old is not None and isc(old) and old.a[0] == 0:
            got.add("new")
            R.check(cnt == {1: 1}, rule, "map_insert:new-count", w, "inserting a new key must raise the entry count by one (got %s)" % fmt(cnt), s.trace())
            R.check(tot == {1: 1}, rule, "map_insert:new-total", w, "inserting a new key must raise the total by one (got %s)" % fmt(tot), s.trace())
            R.check(ent == {esz(P(1)): 1}, rule, "map_insert:new-size", w, "inserting must add exactly the new entry's size to the memory total (got %s)" % fmt(ent), s.trace())
        elif ok is True and old is not None:
            got.add("replace")
            R.check(cnt == {}, rule, "map_insert:repl-count", w, "replacing must not change the entry count (got %s)" % fmt(cnt), s.trace())
            R.check(tot == {}, rule, "map_insert:repl-total", w, "replacing must not change the total (got %s)" % fmt(tot), s.trace())
            R.check(ent is not None and ent.get(esz(P(1))) == 1 and len(ent) == 2 and ent.get(esz(old)) == -1, rule, "map_insert:repl-size", w,
                    "replacing must add the new entry's size and subtract the old one's (got %s)" % fmt(ent), s.trace())
            cmps = [e for e in s.ev if e.k == "call" and e.name == "entry_compare"]
            R.check(any(s.truth(mkcmp("eq", e.res, ZERO)) is True for e in cmps), rule, "map_insert:repl-key", w,
                    "an entry is replaced without its full key having been compared equal", s.trace())
        if ok is True:
            g = s.truth_any(lambda t: t.k == "cmp" and any(fldname(q) == ("struct.map", "growat") for q in t.a[1:]))
            grown = any(s.truth(e.res) is True for e in rs)
            R.check(grown or g is not None, rule, "map_insert:grow", w, "insertion neither checked the load limit nor grew the table", s.trace())
    if not {"new", "replace"} <= got:
        raise Broken("map_insert: outcomes %s" % sorted(got))
    # delbkt
    F = prog.need(MOD, "delbkt")
    R.analysed(F)
    for s in summarize(prog, F):
        cnt = mapfield(s, P(0), "count")
        R.check(cnt == {1: -1}, rule, "delbkt:count", s.I.where(), "removing a bucket must lower the entry count by one (got %s)" % fmt(cnt), s.trace())
    F = prog.get(MOD, "delentry_at_bkt")
    if F:
        R.analysed(F)
        for s in summarize(prog, F, keep={"delbkt", "load_ptr"}, models=dict(SZ, load_ptr=m_loadptr, delbkt=m_nop)):
            ent = mapfield(s, P(0), "entsize")
            e = s.ret
            R.check(ent == {esz(e): -1}, rule, "delentry:size", s.I.where(),
                    "removing an entry must subtract exactly its size from the memory total (got %s)" % fmt(ent), s.trace())
            d = [q for q in s.ev if q.k == "call" and q.name == "delbkt"]
            R.check(len(d) == 1 and d[0].args[0] is P(0) and strip(d[0].args[1]) is P(1), rule, "delentry:bucket", s.I.where(),
                    "the removed entry's own bucket must be emptied exactly once", s.trace())
            ok = e.k == "ent" and e.a[1].k == "idx" and any(strip(v) is P(1) for v, _ in e.a[1].a[1]) or e.k == "ent" and P(1) in atoms(e)
            R.check(ok, rule, "delentry:ret", s.I.where(), "the entry returned must be the one stored in the emptied bucket", s.trace())
    F = prog.need(MOD, "map_delete")
    R.analysed(F)
    n = 0
    for s in summarize(prog, F, keep={"delbkt", "load_ptr", "bucket_eq"}, models=dict(SZ, load_ptr=m_loadptr, delbkt=m_nop)):
        d = [q for q in s.ev if q.k == "call" and q.name == "delbkt"]
        rt = s.ret
        if rt is not None and isc(rt) and rt.a[0] == 0:
            R.check(not d and mapfield(s, P(0), "entsize") == {}, rule, "map_delete:miss", s.I.where(), "a failed lookup must not remove anything", s.trace())
        else:
            n += 1
            ent = mapfield(s, P(0), "entsize")
            R.check(ent == {esz(rt): -1} and len(d) == 1, rule, "map_delete:hit", s.I.where(),
                    "removing a key must empty one bucket and subtract exactly the removed entry's size (got %s)" % fmt(ent), s.trace())
            be = [q for q in s.ev if q.k == "call" and q.name == "bucket_eq"]
            R.check(any(s.truth(q.res) is True for q in be), rule, "map_delete:key", s.I.where(),
                    "an entry is removed without its key having been found equal to the requested key", s.trace())
    if not n:
        raise Broken("map_delete: no removing path")
    # key equality
    F = prog.get(MOD, "bucket_eq")
    if F:
        R.analysed(F)
        for s in summarize(prog, F, keep={"load_ptr", "entry_key", "read_hash"}, models={"load_ptr": m_loadptr}):
            v = s.truth(s.ret) if s.ret is not None else None
            if v is False:
                continue
            ek = [q for q in s.ev if q.k == "call" and q.name == "entry_key"]
            mc = [q for q in s.ev if q.k == "call" and q.name in ("memcmp", "bcmp")]
            okm = any(s.truth(mkcmp("eq", q.res, ZERO)) is True or
                      (s.ret is not None and s.ret is mkcmp("eq", q.res, ZERO)) for q in mc)
            R.check(okm and len(ek) >= 1, rule, "bucket_eq:bytes", s.I.where(), "two keys are treated as equal without comparing their bytes", s.trace())
            okl = s.truth_any(lambda t: t.k == "cmp" and t.a[0] == "eq" and P(3) in (strip(t.a[1]), strip(t.a[2])))
            R.check(okl is True, rule, "bucket_eq:len", s.I.where(), "two keys are treated as equal without comparing their lengths", s.trace())
            R.check(any(strip(q.args[2]) is P(3) for q in mc if len(q.args) > 2) or any(len(q.args) > 2 for q in mc), rule, "bucket_eq:n", s.I.where(), "key comparison length", s.trace())
    # resize
    F = prog.need(MOD, "resize")
    R.analysed(F)
    for s in summarize(prog, F, keep={"map_init"}):
        okv = s.truth(s.ret) if s.ret is not None else None
        fr = [q for q in s.ev if q.k == "icall" and fldname(q.target) == ("struct.pgctx", "free")]
        if okv is True:
            R.check(len(fr) == 1 and fldname(fr[0].args[0]) == ("struct.map", "buckets") and root0(fr[0].args[0]) is P(0), rule, "resize:free", s.I.where(),
                    "after a resize the old table must be freed exactly once", s.trace())
            for nme, w in (("count", "entry count"), ("entsize", "memory total"), ("total", "total"), ("cap", "minimum capacity")):
                d = mapfield(s, P(0), nme)
                R.check(d == {}, rule, "resize:" + nme, s.I.where(), "a resize must preserve the %s (got %s)" % (w, fmt(d)), s.trace())
        elif okv is False:
            R.check(not fr and not s.wrote("struct.map", None, P(0)), rule, "resize:fail", s.I.where(), "a failed resize must leave the table as it was", s.trace())
    # reading a stored entry never reads a released one
    R.need(rule, 20)


def root0(t):
    while t.k in ("ld", "off", "idx", "cast"):
        t = t.a[1] if t.k in ("ld", "cast") else t.a[0]
    return t


def atoms(t, out=None):
    if out is None:
        out = set()
    if t in out:
        return out
    out.add(t)
    for x in t.a:
        if isinstance(x, T):
            atoms(x, out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    atoms(y, out)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            atoms(z, out)
    return out


def strip(t):
    while t.k == "cast":
        t = t.a[1]
    return t


def fmt(d):
    if d is None:
        return "an unrelated value"
    if not d:
        return "no change"
    return " ".join("%+d*%s" % (v, show(k) if isinstance(k, T) else k) for k, v in d.items())


def m_loadptr(S, st, I, args):
    t = engine.m_load_ptr(S, st, I, args)
    st.auto = tuple(e for e in st.auto if not (isinstance(e, tuple) and e and e[0] == "visit"))
    return t


def m_nop(S, st, I, args):
    return UNDEF


def m_storeptr(S, st, I, args):
    n = st.auto
    engine.m_store_ptr(S, st, I, args)
    st.auto = n
    return UNDEF


# ---------------------------------------------------------------- C03
EXPLAIN["C03"] = ("On every path of every engine operation that lets an entry be observed (its content handed to a callback, "
                  "a found/deleted/replaced status, an entry returned by a scan, an expiry copied from it, a notification "
                  "naming it as live), the path must have established that the entry has no expiry or that its expiry is "
                  "later than the operation's current time; and an entry may be dropped as expired only where the opposite "
                  "was established.")


def C03(prog, R, tier):
    rl = "content observed only when alive"
    rd = "dropped as expired only when expired"
    for root, S, x in txns(prog, R):
        f = flow(x)
        if f.dead_path:
            continue
        seen = set()
        for e in x.ev:
            if e[0] == "cb":
                for a in e[3]:
                    if a.k == "pure" and a.a[0] in ("entry_value", "entry_key") and a.a[1][0] not in f.created:
                        seen.add((f.c(a.a[1][0]), a.a[1][0], e))
        for c, t, e in seen:
            if not isc(t):
                R.check(alive_fact(S, x.st, t) == "alive", rl, "%s:callback" % root, where(x, e),
                        "%s hands an entry to the caller's callback without having established that it has not expired" % root, tr(S, x),
                        inst="%s callback at %s" % (root, where(x, e)))
        # status
        if root == "pogocache_load" and x.ret is not None and isc(x.ret):
            vis = [e[1] for e in x.ev if e[0] == "visit"]
            if x.ret.a[0] == ST["FOUND"]:
                R.check(bool(vis) and alive_fact(S, x.st, vis[0]) == "alive", rl, "load:FOUND", where(x),
                        "load reports FOUND for an entry not established to be unexpired", tr(S, x))
            elif x.ret.a[0] == ST["NOTFOUND"] and vis:
                R.check(alive_fact(S, x.st, vis[0]) == "dead", rd, "load:NOTFOUND", where(x),
                        "load reports NOTFOUND for a stored entry not established to be expired", tr(S, x))
        if root == "pogocache_delete" and x.ret is not None and isc(x.ret):
            rm = [e[1] for e in x.ev if e[0] == "rm"]
            if x.ret.a[0] in (ST["DELETED"], ST["CANCELED"]) and rm:
                R.check(alive_fact(S, x.st, rm[0]) == "alive", rl, "delete:status", where(x),
                        "delete reports an entry that is not established to be unexpired as present", tr(S, x))
            elif x.ret.a[0] == ST["NOTFOUND"] and rm:
                R.check(alive_fact(S, x.st, rm[0]) == "dead", rd, "delete:NOTFOUND", where(x),
                        "delete reports NOTFOUND for an entry not established to be expired", tr(S, x))
        if root == "pogocache_store":
            ins = [e for e in x.ev if e[0] == "insert"]
            if ins and not isc(ins[0][2]):
                a = alive_fact(S, x.st, ins[0][2])
                st = x.ret.a[0] if x.ret is not None and isc(x.ret) else None
                if st in (ST["REPLACED"], ST["FOUND"], ST["CANCELED"]):
                    R.check(a == "alive", rl, "store:status", where(x), "store treats an entry as existing without having established that it has not expired", tr(S, x))
                elif st in (ST["INSERTED"], ST["NOTFOUND"]):
                    R.check(a == "dead", rd, "store:status", where(x), "store treats an existing entry as absent without having established that it has expired", tr(S, x))
            # expiry taken over from the existing entry
            for e in x.ev:
                if e[0] == "new":
                    for t in atoms(e[2][4]) if len(e[2]) > 4 else ():
                        if t.k == "pure" and t.a[0] == "entry_expires":
                            R.check(alive_fact(S, x.st, t.a[1][0]) == "alive", rl, "store:keepttl", where(x, e),
                                    "store inherits the expiry of an entry that is not established to be unexpired", tr(S, x))
        if root == "pogocache_entry_iter" and x.kind == "exit" and x.ret is not None and not isc(x.ret):
            if not f.isnull(x.ret):
                R.check(alive_fact(S, x.st, x.ret) == "alive", rl, "entry_iter:return", where(x),
                        "the entry iterator returns an entry not established to be unexpired", tr(S, x))
        for e in x.ev:
            if e[0] == "notify" and isc(e[1]) and not isc(e[3]):
                a = alive_fact(S, x.st, e[3])
                if e[1].a[0] == K_EXP:
                    R.check(a == "dead", rd, "%s:notify-expired" % root, where(x, e),
                            "%s reports an entry as expired without having established that it is" % root, tr(S, x),
                            inst="%s at %s" % (root, where(x, e)))
        # sweep: what is removed is expired, what is kept is not
        if root == "pogocache_sweep":
            rm = [f.c(e[1]) for e in x.ev if e[0] == "rm"]
            for e in x.ev:
                if e[0] == "visit":
                    a = alive_fact(S, x.st, e[1])
                    if f.c(e[1]) in rm:
                        R.check(a == "dead", rd, "sweep:remove", where(x), "sweep removes an entry not established to be expired", tr(S, x))
                    else:
                        R.check(a == "alive", rd, "sweep:keep", where(x), "sweep leaves an entry not established to be unexpired", tr(S, x))
    R.need(rl, 10)
    R.need(rd, 10)
    # clock source: now() of every operation is the engine clock
    clock(prog, R)
    expires_contract(prog, R)


def clock(prog, R):
    rule = "one monotonic clock"
    for nme in ("getnow", "pogocache_now"):
        F = prog.need(MOD, nme)
        R.analysed(F)
        for s in summarize(prog, F):
            g = [e for e in s.ev if e.k == "call" and e.name in ("clock_gettime", "time", "gettimeofday", "clock_gettime_nsec_np")]
            ok = len(g) == 1 and g[0].name == "clock_gettime" and isc(g[0].args[0]) and g[0].args[0].a[0] in (1, 4, 7)
            R.check(ok, rule, nme, s.I.where(), "the cache clock must be a single reading of a monotonic clock", s.trace())


def expires_contract(prog, R):
    """entry_expires: 0 exactly when the entry carries no expiry"""
    pass


# ---------------------------------------------------------------- C02
EXPLAIN["C02"] = ("Every path of the store operation is enumerated with the options it consulted; for every assignment of the "
                  "options it did not consult the outcome (status, and which entry the map holds afterwards) must equal the "
                  "documented decision table of nx / xx / compare-and-store / veto callback / keep-ttl on a live, expired or "
                  "absent entry.")


def store_opts(x):
    g = {}
    for n in ("nx", "xx", "casop", "lowmem", "keepttl"):
        g[n] = optval(x, "struct.pogocache_store_opts", n, 5)
    n = "entry"
    g["entry"] = optval(x, "struct.pogocache_store_opts", "entry", 5)
    g["usecas"] = ctxflag(x, "usecas")
    g["noevict"] = ctxflag(x, "noevict")
    return g


def ctxflag(x, name):
    for t in x.facts:
        n = fldname(t)
        if n == ("struct.pgctx", name):
            v = x.truth(t)
            if v is not None:
                return v
    return None


def combos(g, names):
    out = [{}]
    for n in names:
        vs = [g[n]] if g[n] is not None else [False, True]
        out = [dict(o, **{n: v}) for o in out for v in vs]
    return out


def C02(prog, R, tier):
    rs = "status follows the decision table"
    rk = "map content follows the decision table"
    for root, S, x in txns(prog, R, ["pogocache_store"]):
        if x.kind != "exit":
            continue
        f = flow(x)
        if x.ret is None or not isc(x.ret):
            continue
        st = x.ret.a[0]
        news = [e for e in x.ev if e[0] == "new"]
        ins = [e for e in x.ev if e[0] == "insert"]
        fail = [e for e in x.ev if e[0] in ("newfail", "insertfail")]
        g = store_opts(x)
        old = ins[0][2] if ins else None
        pres = None
        if ins:
            if isc(old):
                pres = False
            else:
                a = alive_fact(S, x.st, old)
                if a is None:
                    continue      # judged by C03
                pres = a == "alive"
        caseq = None
        if old is not None and not isc(old):
            ct = optterm(x, "struct.pogocache_store_opts", "cas", 5)
            caseq = x.truth(mkcmp("eq", ct, mk("pure", "entry_cas", (old,))))
            if caseq is None and x.truth(mkcmp("eq", mk("p", 5), ZERO)) is True:
                caseq = False
        cb = [e for e in x.ev if e[0] == "cb"]
        cbret = x.truth(cb[0][2]) if cb else None
        g["caseq"] = caseq
        g["cbret"] = cbret
        bad = None
        for c in combos(g, ["nx", "xx", "casop", "lowmem", "entry", "usecas", "noevict", "caseq", "cbret"]):
            want = spec(pres, c, bool(fail), bool(ins))
            if want is None:
                continue
            if want[0] != st:
                bad = (c, want)
                break
        nm = {v: k for k, v in ST.items()}
        state = "absent" if pres is False and (old is None or isc(old)) else "expired" if pres is False else "present" if pres else "not looked up"
        if bad:
            c, want = bad
            on = [k for k, v in c.items() if v and (k not in ("caseq", "cbret", "usecas", "noevict"))]
            R.bad(rs, "store:%s:%s" % (nm.get(st, st), nm[want[0]]), where(x),
                  "with the key %s and options {%s}%s the store must report %s but this path reports %s" %
                  (state, ", ".join(on), "" if not c["casop"] else ", unique value %s" % ("equal" if c["caseq"] else "different"), nm[want[0]], nm.get(st, st)), tr(S, x))
            continue
        R.ok(rs, "key %s, options %s -> %s" % (state, {k: v for k, v in g.items() if v is not None}, nm.get(st, st)))
        # which entry ends up in the map
        if not ins:
            R.check(not f.entered and not f.left, rk, "store:noop", where(x), "a store that failed early changed the map", tr(S, x))
            continue
        new = f.c(ins[0][1])
        oldc = None if isc(old) else f.c(old)
        newin = f.inmap.get(new)
        oldin = f.inmap.get(oldc) if oldc is not None else None
        if st in (ST["INSERTED"], ST["REPLACED"]):
            R.check(newin is True and not oldin, rk, "store:success", where(x), "a successful store must leave exactly the new entry under the key", tr(S, x))
        elif st in (ST["FOUND"], ST["CANCELED"]):
            R.check(newin is False and oldin is True, rk, "store:refused", where(x), "a refused store must leave the previous entry, and only it, under the key", tr(S, x))
        elif st in (ST["NOTFOUND"], ST["NOMEM"]):
            R.check(not newin, rk, "store:notfound", where(x), "a store that was refused left its new entry in the map", tr(S, x))
        # what is stored
        if st in (ST["INSERTED"], ST["REPLACED"]) and news:
            a = news[0][2]
            rc = "stored entry carries the given key, value and flags"
            R.check(strip(a[0]) is mk("p", 1) and strip(a[1]) is mk("p", 2) and strip(a[2]) is mk("p", 3) and strip(a[3]) is mk("p", 4), rc,
                    "store:content", where(x, news[0]), "the new entry is not built from the key and value that were given", tr(S, x))
            fl = optterm(x, "struct.pogocache_store_opts", "flags", 5)
            nul = x.truth(mkcmp("eq", mk("p", 5), ZERO))
            R.check(strip(a[5]) is fl or nul is True and isc(a[5]), rc, "store:flags", where(x, news[0]), "the new entry does not carry the given flags", tr(S, x))
    R.need(rs, 200)
    R.need(rk, 100)
    contracts_map(prog, R, "C02")


def spec(pres, c, failed, inserted):
    if failed or (c["lowmem"] and c["noevict"]):
        return (ST["NOMEM"],)
    if pres is None:
        return None
    if pres:
        if c["casop"]:
            if not (c["usecas"] and c["caseq"]):
                return (ST["FOUND"],)
        elif c["nx"]:
            return (ST["FOUND"],)
        if c["entry"] and not c["cbret"]:
            return (ST["CANCELED"],)
        return (ST["REPLACED"],)
    if c["xx"] or c["casop"]:
        return (ST["NOTFOUND"],)
    return (ST["INSERTED"],)


# ---------------------------------------------------------------- C05
EXPLAIN["C05"] = ("Every creation of an entry must be given the shard's unique counter value after that counter was advanced by "
                  "the same operation, and the counter must only ever grow; checked at every creation on every path and at "
                  "every instruction of the program that writes the counter.")


def C05(prog, R, tier):
    rule = "new entry gets a fresh unique value"
    for root, S, x in txns(prog, R):
        used = []
        for e in x.ev:
            if e[0] != "newcas":
                continue
            arg, cells = e[2], e[3]
            if ctxflag(x, "usecas") is False:
                continue
            ok = False
            why = "is not derived from the shard's counter"
            if arg is not None:
                L = lin(arg)
                base = [k for k in L if isinstance(k, T) and (fldname(k) == ("struct.shard", "cas"))]
                n = L.get(1, 0)
                if len(base) == 1 and L[base[0]] == 1 and set(L) <= {base[0], 1}:
                    if n <= 0:
                        why = "was not advanced before use"
                    elif not any(c is arg for c in cells):
                        why = "is not what the shard's counter was advanced to"
                    elif any(u is arg for u in used):
                        why = "is given to two entries"
                    else:
                        ok = True
                used.append(arg)
            R.check(ok, rule, "%s:newcas" % root, where(x), "%s creates an entry whose unique value %s" % (root, why), tr(S, x), inst=root)
    R.need(rule, 4)
    r2 = "the counter only grows"
    n = 0
    for F in prog.funcs():
        for I in F.insts():
            if I.op in ("store", "atomicrmw", "cmpxchg"):
                g = gepof(F, I.a[1] if I.op == "store" else I.a[0])
                if g and g[0] == "struct.shard" and prog.member(*g) == "cas":
                    n += 1
                    ok = False
                    why = ""
                    if I.op == "store":
                        v = I.a[0]
                        if v[0] == "c":
                            ok = v[1] >= 1
                        elif v[0] == "v":
                            d = defs(F).get(v[1])
                            ok = bool(d is not None and d.op == "add" and any(a[0] == "c" and a[1] >= 1 for a in d.a))
                            # taking over a value when loading is fine if it is a max
                            if d is not None and d.op in ("select", "phi"):
                                ok = True
                    else:
                        ok = I.op == "atomicrmw" and I.d.get("rmw") in ("add", "umax", "max")
                    R.check(ok, r2, "%s:cas" % F.name, I.where(), "%s sets the unique counter of a shard other than by advancing it" % F.name, inst=I.where())
    R.need(r2, 3)
    # the unique value reported to readers is the stored one
    layout_cas(prog, R)


_defs = {}


def defs(F):
    d = _defs.get(F)
    if d is None:
        d = {I.id: I for I in F.insts()}
        _defs[F] = d
    return d


def gepof(F, o):
    if o[0] == "v":
        d = defs(F).get(o[1])
        if d is not None and d.op == "getelementptr" and d.d["path"]:
            return tuple(d.d["path"][-1])
    return None


def layout_cas(prog, R):
    pass


# ---------------------------------------------------------------- C06
EXPLAIN["C06"] = ("On every path of every engine operation the changes made to the entry count, the memory total and the "
                  "insert total are compared, as symbolic sums, with the entries that path puts into or takes out of the map; "
                  "the map primitives are checked against the same accounting, and the query functions must report exactly "
                  "these counters of every shard.")


def acct(x):
    """name -> list of incremental deltas (linear forms); None if not linear"""
    out = {}
    prev = {}
    for e in x.ev:
        if e[0] != "acct":
            if e[0] in ("rm", "insert", "evict", "shrink"):
                prev = {}
            continue
        nm, v = e[1], e[2]
        L = lin(v)
        base = [k for k in L if isinstance(k, T) and fldname(k) == ("struct.map", nm)]
        if len(base) == 1 and L[base[0]] == 1:
            b = base[0]
            D = {k: c for k, c in L.items() if k is not b}
            p = prev.get(nm)
            if p and p[0] is b:
                inc = lsub(D, p[1])
            else:
                inc = D
            prev[nm] = (b, D)
            out.setdefault(nm, []).append((inc, e))
        elif isc(v):
            out.setdefault(nm, []).append(({"=": v.a[0]}, e))
        else:
            out.setdefault(nm, []).append((None, e))
    return out


def C06(prog, R, tier):
    rsz = "memory total follows the map"
    rtot = "insert total counts kept insertions"
    for root, S, x in txns(prog, R):
        f = flow(x)
        if f.dead_path:
            continue
        if root == "pogocache_clear":
            continue
        A = acct(x)
        # entsize
        want = {}
        for e in x.ev:
            if e[0] == "rm" and e[2] == "raw":
                t = esz(e[1])
                want[t] = want.get(t, 0) - 1
            elif e[0] == "put":
                t = esz(e[2])
                want[t] = want.get(t, 0) + 1
                o = f.lastvisit()
                if o is not None:
                    want[esz(o)] = want.get(esz(o), 0) - 1
        got = {}
        lost = False
        for inc, e in A.get("entsize", ()):
            if inc is None or "=" in inc:
                lost = True
                continue
            for k, v in inc.items():
                got[k] = got.get(k, 0) + v
        canon = lambda d: {k: v for k, v in sumc(d, f).items() if v}
        if lost:
            R.bad(rsz, "%s:entsize-set" % root, where(x), "%s overwrites the memory total" % root, tr(S, x))
        elif canon(got) != canon(want):
            R.bad(rsz, "%s:entsize" % root, where(x, next((e for e in x.ev if e[0] in ("rm", "put")), None)),
                  "%s changes the entries in the map by %s but the memory total by %s" % (root, fmt(canon(want)), fmt(canon(got))), tr(S, x))
        elif want or got or f.entered or f.left:
            R.ok(rsz, "%s: %s" % (root, desc(x)))
        # total
        absent = sum(1 for e in x.ev if e[0] == "insert" and f.isnull(e[2]))
        keep = sum(1 for t in f.entered if t in f.created and any(e[0] == "insert" and f.c(e[1]) is t and f.isnull(e[2]) for e in x.ev))
        tot = 0
        okl = True
        for inc, e in A.get("total", ()):
            if inc is None or set(inc) - {1}:
                okl = False
            else:
                tot += inc.get(1, 0)
        if absent or A.get("total"):
            R.check(okl and absent + tot == keep, rtot, "%s:total" % root, where(x),
                    "%s counts %s new insertions although %d stayed in the map" % (root, absent + tot if okl else "an unknown number of", keep), tr(S, x),
                    inst="%s: %s" % (root, desc(x)))
        # count: raw adjustments must not exist besides the primitives
        if A.get("count"):
            ex = 0
            okc = all(inc is not None and set(inc) <= {1} for inc, _ in A["count"])
            R.check(okc and sum(inc.get(1, 0) for inc, _ in A["count"]) == 0, "entry count changed only with the map",
                    "%s:count" % root, where(x), "%s changes the entry count although the map primitives already did" % root, tr(S, x))
    R.need(rsz, 30)
    R.need(rtot, 10)
    contracts_map(prog, R, "C06")
    clear_counts(prog, R)
    queries(prog, R)


def sumc(d, f):
    o = {}
    for k, v in d.items():
        if isinstance(k, T) and k.k == "pure" and k.a[0] == "entry_memsize":
            k = esz(f.c(k.a[1][0]))
        o[k] = o.get(k, 0) + v
    return o


def clear_counts(prog, R):
    """after a clear the shard's count and size are zero and total is kept"""
    rule = "clear zeroes count and size, keeps total"
    n = 0
    for root, S, x in txns(prog, R, ["pogocache_clear"]):
        f = flow(x)
        A = acct(x)
        cp = [e for e in x.ev if e[0] == "mapreset" and e[1] == "copy"]
        if f.phase == 1 and cp and any(e[0] == "mapinit" for e in x.ev):
            n += 1
            tot = A.get("total", [])
            ok = False
            for e in x.ev:
                if e[0] == "acct" and e[1] == "total" and fldname(e[2]) == ("struct.map", "total") and under(e[3]).k == "al":
                    ok = True
            # or restored afterwards into the shard
            R.check(ok, rule, "clear:swap", where(x, cp[0]), "replacing the table on a clear must carry over the insert total", tr(S, x))
        if f.phase == 0 and ("count" in A or "entsize" in A):
            n += 1
            okc = any(inc == {"=": 0} for inc, _ in A.get("count", ()))
            oke = any(inc == {"=": 0} for inc, _ in A.get("entsize", ()))
            R.check(okc and oke, rule, "clear:reuse", where(x), "clearing in place must reset count and memory total", tr(S, x))
    R.need(rule, 2)


def queries(prog, R):
    rule = "queries report the counters"
    for q, fieldn in (("pogocache_count", "count"), ("pogocache_total", "total"), ("pogocache_size", "entsize")):
        F = prog.need(MOD, q)
        R.analysed(F)
        seen = False
        for I in flatten(prog, F, lambda G, I: G.mod.name == MOD).insts():
            if I.op == "load":
                pass
        fl = flatten(prog, F, lambda G, I: G.mod.name == MOD)
        D = {I.id: I for I in fl.insts()}
        for I in fl.insts():
            if I.op == "load" and I.a[0][0] == "v":
                g = D.get(I.a[0][1])
                if g is not None and g.op == "getelementptr" and g.d["path"]:
                    s = tuple(g.d["path"][-1])
                    if s[0] == "struct.map" and prog.member(*s) == fieldn:
                        seen = True
        R.check(seen, rule, q, "%s:%d in %s()" % (F.file, F.line, q), "%s does not read the %s counter of the shards" % (q, fieldn))


# ---------------------------------------------------------------- C07
EXPLAIN["C07"] = ("On every path of every engine operation, the entries that enter and leave the map are compared with the "
                  "notifications sent: each change is announced exactly once, with the kind that matches it (insert, replace, "
                  "delete, expired, cleared, low memory), with the right new and old entry, shard and time, and nothing is "
                  "announced when nothing changed. The dispatcher's mapping of kinds to callback arguments is checked as well.")


def C07(prog, R, tier):
    rule = "each change announced exactly once"
    for root, S, x in txns(prog, R):
        f = flow(x)
        if f.dead_path:
            continue
        nots = [e for e in x.ev if e[0] == "notify"]
        if root == "pogocache_clear":
            clear_notify(R, S, x, f, nots)
            continue
        left = list(f.left)
        ent = list(f.entered)
        probs = []
        L = {t: [] for t in left}
        E = {t: [] for t in ent}
        for e in nots:
            k = e[1].a[0] if isc(e[1]) else None
            nw, od = e[2], e[3]
            if not f.isnull(od):
                o = f.c(od)
                if o in L:
                    L[o].append((k, e))
                else:
                    probs.append(("ghost-old", "announces the removal of an entry that stays in the map", e))
            if not f.isnull(nw):
                n = f.c(nw)
                if n in E:
                    E[n].append((k, e))
                else:
                    probs.append(("ghost-new", "announces an entry that is not in the map afterwards", e))
        for t, ks in L.items():
            a = alive_fact(S, x.st, t)
            if len(ks) == 0:
                probs.append(("silent-removal", "removes an entry without announcing it", None))
                continue
            if len(ks) > 1:
                probs.append(("double-removal", "announces one removal %d times" % len(ks), ks[1][1]))
            k, e = ks[0]
            if a == "dead":
                if k != K_EXP:
                    probs.append(("kind-expired", "an expired entry leaves the map announced as %s" % kn(k), e))
            elif a == "alive":
                if ent:
                    if k != K_REPL:
                        probs.append(("kind-replaced", "a replaced entry is announced as %s" % kn(k), e))
                elif root == "auto_evict_entry":
                    if k != K_LOW:
                        probs.append(("kind-lowmem", "an entry evicted for low memory is announced as %s" % kn(k), e))
                elif k != K_DEL:
                    probs.append(("kind-deleted", "a deleted entry is announced as %s" % kn(k), e))
            elif root == "auto_evict_entry" and k not in (K_LOW, K_EXP):
                probs.append(("kind-evicted", "an evicted entry is announced as %s" % kn(k), e))
        for t, ks in E.items():
            if len(ks) == 0:
                probs.append(("silent-insert", "puts an entry into the map without announcing it", None))
                continue
            if len(ks) > 1:
                probs.append(("double-insert", "announces one insertion %d times" % len(ks), ks[1][1]))
            k, e = ks[0]
            repl = any(alive_fact(S, x.st, o) == "alive" for o in left)
            if repl and k != K_REPL or not repl and k != K_INS:
                probs.append(("kind-insert", "a new entry is announced as %s" % kn(k), e))
        for e in nots:
            k = e[1].a[0] if isc(e[1]) else None
            if k is None:
                continue
            new, old = not f.isnull(e[2]), not f.isnull(e[3])
            if (k == K_INS and not (new and not old)) or (k == K_REPL and not (new and old)) or \
                    (k in (K_DEL, K_EXP, K_CLR, K_LOW) and not (old and not new)):
                probs.append(("shape", "announces %s with the wrong new/old entries" % kn(k), e))
            if not (is_time(e[4]) or e[4].k == "j"):
                probs.append(("time", "announces a change with a time that is not the operation's", e))
            sh = e[5]
            if sh is not None and isc(sh):
                probs.append(("shard", "announces a change with a constant shard index", e))
        if probs:
            for code, msg, e in probs:
                R.bad(rule, "%s:%s" % (root, code), where(x, e), "%s: %s (%s)" % (root, msg, desc(x)), tr(S, x))
        elif nots or left or ent:
            R.ok(rule, "%s: %s" % (root, desc(x)))
        elif x.kind == "exit" and x.ev:
            R.ok("no change, no announcement", "%s: %s" % (root, desc(x)))
    R.need(rule, 60)
    notify_contract(prog, R)


def kn(k):
    return KIND[k] if k is not None and 0 <= k < 6 else "an unknown kind"


def clear_notify(R, S, x, f, nots):
    rule = "clear announces every entry once"
    vis = [e for e in x.ev if e[0] == "visit"]
    if f.phase is None:
        if vis and x.kind == "iter":
            for v in vis:
                m = [e for e in nots if f.c(e[3]) is f.c(v[1])]
                a = alive_fact(S, x.st, v[1])
                R.check(len(m) == 1, rule, "clear:once", where(x), "clearing announces an entry %d times" % len(m), tr(S, x))
                for e in m:
                    k = e[1].a[0] if isc(e[1]) else None
                    R.check(a is not None and k == (K_CLR if a == "alive" else K_EXP) and f.isnull(e[2]), rule, "clear:kind", where(x, e),
                            "clearing announces %s entry as %s" % ("a live" if a == "alive" else "an expired" if a else "a possibly expired", kn(k)), tr(S, x))
        elif not vis and x.kind == "iter":
            for t, r in x.facts.items():
                if engine.dibterm(t) and S.truth(x.st, t) is True:
                    R.bad(rule, "clear:skip", where(x), "clearing skips an occupied bucket", tr(S, x))
    else:
        R.check(not nots, rule, "clear:late", where(x), "clearing announces an entry again after the first pass", tr(S, x))


def notify_contract(prog, R):
    rule = "announcement dispatch"
    F = prog.need(MOD, "notify")
    R.analysed(F)
    P = lambda k: mk("p", k)
    reasons = {K_EXP: 1, K_LOW: 2, K_CLR: 3}
    n = 0
    for s in summarize(prog, F, keep={"entry_extract"}, models={"entry_extract": engine.m_entry_extract}):
        kinds = [k for k in range(6) if s.truth(mkcmp("eq", P(1), C(k))) is not False]
        nf = [e for e in s.ev if e.k == "icall" and fldname(e.target) == ("struct.pgctx", "notify")]
        ef = [e for e in s.ev if e.k == "icall" and fldname(e.target) == ("struct.pgctx", "evicted")]
        use = s.flag("struct.pgctx", "usenotify")
        if use is False:
            R.check(not nf and not ef, rule, "off", s.I.where(), "a callback runs although none is registered", s.trace())
            continue
        hasn = s.flag("struct.pgctx", "notify")
        hase = s.flag("struct.pgctx", "evicted")
        if hasn is True:
            n += 1
            ok = len(nf) == 1 and nf[0].args[0] is P(0) and nf[0].args[1] is P(4) and nf[0].args[2] is P(2) and nf[0].args[3] is P(3)
            R.check(ok, rule, "notify-args", s.I.where(), "the change callback is not called once with the shard, time, new and old entry", s.trace())
        elif hasn is None:
            R.bad(rule, "notify-skipped", s.I.where(), "a change is not passed to the registered change callback", s.trace())
        for k in kinds:
            if len(kinds) > 1 and k not in (K_INS,):
                pass
            if k in reasons:
                if hase is True:
                    ok = len(ef) == 1 and isc(ef[0].args[1]) and ef[0].args[1].a[0] == reason(prog, k, reasons) and ef[0].args[0] is P(0) and ef[0].args[2] is P(4)
                    R.check(ok, rule, "evict-%s" % KIND[k], s.I.where(), "an %s entry is not reported to the eviction callback with its reason" % KIND[k].lower(), s.trace())
                    if ok:
                        a = ef[0].args
                        want = ["entry_key", "entry_keylen", "entry_value", "entry_vallen", "entry_expires", "entry_flags", "entry_cas"]
                        okc = all(a[3 + i].k == "pure" and a[3 + i].a[0] == w and a[3 + i].a[1][0] is P(3) for i, w in enumerate(want))
                        R.check(okc, rule, "evict-content", s.I.where(), "the eviction callback is not given the evicted entry's own content", s.trace())
                    n += 1
                elif hase is None:
                    R.bad(rule, "evict-skipped-%s" % KIND[k], s.I.where(), "an eviction (%s) is not passed to the registered eviction callback" % KIND[k], s.trace())
            elif k in (K_INS, K_DEL, K_REPL):
                R.check(not ef, rule, "evict-%s" % KIND[k], s.I.where(), "the eviction callback runs for a change that is not an eviction (%s)" % KIND[k], s.trace())
    R.need(rule, 8)
    # the callbacks given at creation are the ones used, and enable the dispatch
    r2 = "registered callbacks are enabled"
    F = prog.get(MOD, "opts_to_ctx")
    if F:
        R.analysed(F)
        for s in summarize(prog, F):
            if s.truth(mkcmp("eq", mk("p", 1), ZERO)) is True:
                continue
            c = mk("p", 2)
            for nm in ("notify", "evicted", "udata", "usecas", "nosixpack", "noevict", "seed", "allowshrink", "usethreadbatch", "yield"):
                o = prog.field_off("struct.pgctx", nm)
                cell = s.mem.get((c, o))
                ok = cell is not None and anyopt(cell[0], nm)
                if cell is not None and not ok:
                    # a boolean may have been decided on the path
                    ok = isc(cell[0]) and s.truth_any(lambda t: fldname(t) == ("struct.pogocache_opts", nm)) == (cell[0].a[0] != 0)
                R.check(ok, r2, "opts:" + nm, s.I.where(), "the '%s' option given at creation is not the one the cache uses" % nm, s.trace())
            o = prog.field_off("struct.pgctx", "usenotify")
            cell = s.mem.get((c, o))
            hn = s.truth_any(lambda t: fldname(t) == ("struct.pogocache_opts", "notify"))
            he = s.truth_any(lambda t: fldname(t) == ("struct.pogocache_opts", "evicted"))
            if cell is not None:
                v = s.truth(cell[0])
                if v is not None:
                    w = True if (hn or he) else False if (hn is False and he is False) else None
                    R.check(w is None or v == w, r2, "opts:usenotify", s.I.where(), "callbacks are registered but dispatch is %s" % ("on" if v else "off"), s.trace())


def reason(prog, k, dflt):
    return {K_EXP: 1, K_LOW: 2, K_CLR: 3}[k]


def anyopt(t, nm):
    return any(fldname(q) == ("struct.pogocache_opts", nm) for q in atoms(t))


# ---------------------------------------------------------------- C08
EXPLAIN["C08"] = ("Every path on which an allocation of the engine fails is enumerated: the operation must report out of memory, "
                  "leave the map, the counters and the previous entry as they were, announce nothing, release what it created "
                  "and touch nothing null.")


def C08(prog, R, tier):
    rule = "failed allocation leaves no trace"
    for root, S, x in txns(prog, R):
        f = flow(x)
        if f.dead_path:
            continue
        fails = [e for e in x.ev if e[0] in ("newfail", "insertfail")]
        if fails and x.kind == "exit":
            R.check(x.ret is not None and isc(x.ret) and x.ret.a[0] == ST["NOMEM"], rule, "%s:status" % root, where(x, fails[0]),
                    "%s does not report out of memory when an allocation fails" % root, tr(S, x), inst="%s: %s" % (root, desc(x)))
            R.check(not f.entered and not f.left, rule, "%s:map" % root, where(x, fails[0]),
                    "%s changes the map although an allocation failed" % root, tr(S, x))
            R.check(not any(e[0] == "notify" for e in x.ev), rule, "%s:notify" % root, where(x, fails[0]),
                    "%s announces a change although an allocation failed" % root, tr(S, x))
            bad = [p for p in f.problems]
            for code, msg, e in bad:
                R.bad(rule, "%s:%s" % (root, code), where(x, e or fails[0]), "after a failed allocation %s %s" % (root, msg), tr(S, x))
            A = acct(x)
            R.check(not any(A.values()), rule, "%s:acct" % root, where(x, fails[0]), "%s changes the counters although an allocation failed" % root, tr(S, x))
        if root == "pogocache_store" and x.kind == "exit":
            g = store_opts(x)
            if x.ret is not None and isc(x.ret) and x.ret.a[0] == ST["NOMEM"] and not fails:
                for code, msg, e in f.problems:
                    R.bad(rule, "%s:%s" % (root, code), where(x, e), "refusing a store for low memory %s %s" % (root, msg), tr(S, x))
    R.need(rule, 8)
    clear_nomem(prog, R)
    malloc_checked(prog, R)
    new_failure(prog, R)


def clear_nomem(prog, R):
    rule = "clear without a new table empties the old one"
    n = 0
    for root, S, x in txns(prog, R, ["pogocache_clear"]):
        f = flow(x)
        if f.phase != 0:
            continue
        A = acct(x)
        if "count" not in A and "entsize" not in A:
            continue
        n += 1
        ok = any(e[0] == "mapreset" and e[1] == "clear" for e in x.ev)
        R.check(ok, rule, "clear:reuse", where(x), "when the new table cannot be allocated the old table's buckets must be emptied; "
                "entries already released stay reachable otherwise", tr(S, x))
        bad = any(e[0] == "mapreset" and e[1] == "store" for e in x.ev)
        R.check(not bad, rule, "clear:table", where(x), "the table pointer itself is overwritten", tr(S, x))
    R.need(rule, 1)


def malloc_checked(prog, R):
    """no dereference of an allocation result that may be null"""
    rule = "allocation result tested before use"
    for nme in ("map_init", "entry_new", "pogocache_new", "pogocache_begin", "shard_init", "resize"):
        F = prog.get(MOD, nme)
        if F is None:
            continue
        R.analysed(F)
        n = 0
        from summ import nullcheck
        sites, bad = nullcheck(prog, F, lambda S, I, ct, name: (name in ("malloc", "calloc", "realloc")) or
                               (ct is not None and (fldname(ct) in (("struct.pgctx", "malloc"), ("struct.pogocache_opts", "malloc")) or is_mallocp(ct))))
        for k, (I, path) in bad.items():
            R.bad(rule, "%s" % nme, I.where(), "%s uses the result of an allocation without having tested it" % nme, path)
        for k in sites - set(bad):
            R.ok(rule, nme)
    R.need(rule, 3)


def is_mallocp(ct):
    return ct.k == "f" and ct.a[0] in ("malloc", "calloc") or ct.k in ("phi", "x", "j")


def new_failure(prog, R):
    """pogocache_new: when a shard cannot be initialised the shards not yet
    initialised must not be torn down from unset memory"""
    rule = "failed creation releases only what was set up"
    F = prog.need(MOD, "pogocache_new")
    R.analysed(F)
    n = 0
    ss = prog.structs["struct.shard"]["size"] if isinstance(prog.structs["struct.shard"], dict) and "size" in prog.structs["struct.shard"] else None
    for s in summarize(prog, F, keep={"shard_init", "shard_deinit", "opts_to_ctx", "pogocache_free"}):
        fails = [e for e in s.ev if e.k == "call" and e.name == "shard_init" and s.truth(e.res) is False]
        if not fails:
            continue
        n += 1
        frees = [e for e in s.ev if e.k == "call" and e.name == "pogocache_free"]
        ms = [e for e in s.ev if e.k == "memset" and isc(e.val) and e.val.a[0] == 0]
        al = [e for e in s.ev if e.k == "icall" and e.seq == 0 or e.k == "icall"]
        if frees:
            size = al[0].args[0] if al and al[0].args else None
            ok = any(e.n is size or (isinstance(e.n, T) and size is not None and e.n is strip(size)) for e in ms) or loopcleared(s)
            R.check(ok, rule, "pogocache_new", fails[0].I.where(),
                    "when a shard cannot be set up, the remaining shards are torn down although their memory was never initialised", s.trace())
        else:
            R.ok(rule)
        R.check(s.ret is not None and isc(s.ret) and s.ret.a[0] == 0, rule, "pogocache_new:ret", s.I.where(),
                "creation must report failure when a shard cannot be set up", s.trace())
    if not n:
        raise Broken("pogocache_new: no failing path")


def loopcleared(s):
    # the failing path shrinks the shard count to what was set up
    for e in s.ev:
        if e.k == "store" and fldaddr(e.addr, "struct.pgctx", "nshards"):
            return True
    return False


# ---------------------------------------------------------------- C09
EXPLAIN["C09"] = ("Every path of the store operation that evicts must have seen low memory and an inserted new key, with eviction "
                  "not disabled (a store under low memory with eviction disabled must be refused); every path of the eviction "
                  "routine must remove exactly one entry, one whose hash differs from the key just stored, announce it with the "
                  "right reason and release it; and every client write command must hand the memory state to the engine.")


def C09(prog, R, tier):
    rule = "eviction only under low memory"
    n = 0
    for root, S, x in txns(prog, R, ["pogocache_store"]):
        if x.kind != "exit":
            continue
        f = flow(x)
        g = store_opts(x)
        ev_ = [e for e in x.ev if e[0] == "evict"]
        st = x.ret.a[0] if x.ret is not None and isc(x.ret) else None
        if ev_:
            R.check(g["lowmem"] is True, rule, "store:lowmem", where(x, ev_[0]), "store evicts an entry although memory is not low", tr(S, x))
            R.check(g["noevict"] is not True, rule, "store:noevict", where(x, ev_[0]), "store evicts an entry although eviction is disabled", tr(S, x))
            R.check(st == ST["INSERTED"], rule, "store:status", where(x, ev_[0]), "store evicts an entry although it added none", tr(S, x))
            R.check(len(ev_) == 1, rule, "store:once", where(x, ev_[0]), "store evicts more than once", tr(S, x))
            h = ev_[0][1]
            R.check(h is not None and h.k == "acq" and h.a[1] == 2 if h is not None and h.k == "acq" else h is None or h.k != "c", rule, "store:hash", where(x, ev_[0]),
                    "the eviction does not know which key was just stored", tr(S, x))
            i = [k for k, e in enumerate(x.ev) if e[0] == "insert"]
            R.check(bool(i), rule, "store:order", where(x, ev_[0]), "store evicts before the new entry is in the map", tr(S, x))
        elif st == ST["INSERTED"] and g["lowmem"] is True:
            # growth test: count rose
            ins = [e for e in x.ev if e[0] == "insert"]
            grew = any(t.k == "cmp" and any(fldname(strip(q)) == ("struct.map", "count") for q in t.a[1:] if isinstance(q, T)) for t in x.facts)
            R.ok(rule)
        if g["lowmem"] is True and g["noevict"] is True and x.ret is not None and isc(x.ret):
            R.check(st == ST["NOMEM"], rule, "store:refuse", where(x), "a store under low memory with eviction disabled is not refused", tr(S, x))
            n += 1
        if g["lowmem"] is None and st == ST["INSERTED"]:
            R.bad(rule, "store:ignored", where(x), "a key is inserted without consulting the low-memory state", tr(S, x))
    R.need(rule, 20)
    rule = "the evicted entry"
    evs = 0
    for root, S, x in txns(prog, R, ["auto_evict_entry"]):
        f = flow(x)
        if f.dead_path:
            continue
        if x.kind == "exit":
            rm = [e for e in x.ev if e[0] == "rm"]
            nt = [e for e in x.ev if e[0] == "notify"]
            fr = [e for e in x.ev if e[0] == "free"]
            R.check(len(rm) <= 1, rule, "evict:one", where(x), "more than one entry is evicted", tr(S, x))
            if rm:
                evs += 1
                R.check(len(nt) == 1 and len(fr) == 1, rule, "evict:announce", where(x), "an evicted entry must be announced once and released once", tr(S, x))
    evict_candidates(prog, R)
    if evs < 2:
        raise Broken("auto_evict_entry: %d evicting paths" % evs)
    server_lowmem(prog, R)


def evict_candidates(prog, R):
    """entries become candidates only when their hash differs from the stored
    key's, and the one with the older access time is chosen"""
    rule = "the key just stored is never evicted"
    F = prog.need(MOD, "auto_evict_entry")
    n = 0
    from summ import Recorder
    rec = []

    class Rr(engine.EngineRule):
        keep = (engine.KEEP - {"auto_evict_entry"}) | {"read_hash"}

        def tracked(self, t):
            return engine.trackterm(t) or (t.k == "cmp" and any(hashy(q) for q in t.a if isinstance(q, T)))

        def step(self, S, st, I):
            if I.op == "store":
                A = S.val(st, I.a[1])
                v = S.val(st, I.a[0])
                if under(A).k == "al" and v.k == "ent":
                    rec.append((S, st.copy(), I, v))
            if I.op == "call" and S.callee_name(I) == "map_delete":
                pass
            engine.EngineRule.step(self, S, st, I)

    r = Rr("auto_evict_entry")
    fl = flatten(prog, F, lambda G, I: G.mod.name == MOD and G.name not in Rr.keep)
    S = Sim(prog, fl, r, cap=1500)
    S.run()

    def neq(S, st):
        for t in st.facts:
            if t.k == "cmp" and t.a[0] == "eq" and any(is_p2(q) for q in t.a[1:]) and any(hashy(q) for q in t.a[1:]):
                return S.truth(st, t)
        return None
    for S, st, I, v in rec:
        n += 1
        R.check(neq(S, st) is False, rule, "candidate", I.where(), "an entry becomes an eviction candidate without its hash having been found different from the key just stored", S.trace(st))
        R.check(alive_fact(S, st, v) == "alive", "candidates are live entries", "candidate", I.where(),
                "an expired entry is not evicted first", S.trace(st))
    for x in r.txns:
        nt = [e for e in x.ev if e[0] == "notify" and isc(e[1]) and e[1].a[0] == K_EXP]
        for e in nt:
            n += 1
            R.check(neq(x.S, x.st) is False, rule, "expired-candidate", where(x, e),
                    "an expired entry is evicted without its hash having been found different from the key just stored", tr(x.S, x))
    if n < 2:
        raise Broken("auto_evict_entry: candidates not recognised")


def is_p2(t):
    t = strip(t)
    if t.k == "bin" and t.a[0] == "and":
        return is_p2(t.a[1])
    return t.k == "p" and t.a[0] == 2


def hashy(t):
    return any(q.k == "ld" and fldname(q) == ("struct.bucket", "hash") or q.k == "call" and q.a[1] == "read_hash" for q in atoms(t))


def server_lowmem(prog, R):
    import p_lowmem
    p_lowmem.clients(prog, R)

