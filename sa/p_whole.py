"""C37: commands over the whole cache.  C31: work handed to another thread."""
import ir
from gensim import *
from semlib import isnow, iscall, isglobal, sign, under
from p_sem import ASSUME
from p_save import evs, call1, idx, truthv, mentions, loops_of, fval, lsub_add
from p_frame import res, zero, nonzero

EXPLAIN = {}
ALL = "every part of the cache is worked on exactly once"
DELAY = "a flush happens when and how it was asked for"
KEYS = "KEYS and SCAN report exactly the entries that match"


def C37(prog, R, tier):
    EXPLAIN["C37"] = ("every path of the flush, sweep, KEYS and SCAN workers and of the code that divides the shards among threads; partition arithmetic as linear forms")
    for nm, st, wk, op in (("flushfast", "flushctx", "thflush", "pogocache_clear"), ("sweepfast", "sweepctx", "thsweep", "pogocache_sweep")):
        workers(prog, R, nm, st, wk)
        worker(prog, R, wk, st, op)
    for nm, fast, op in (("flush_work", "flushfast", "pogocache_clear"), ("sweep_work", "sweepfast", "pogocache_sweep")):
        work(prog, R, nm, fast, op)
    for nm, wk in (("thsweep0", "sweep_work"),):
        F = func(prog, nm, "cmds.c")
        if F is not None:
            J_ = J(prog, R, F, ALL, keep=(wk,))
            for p in J_.paths:
                w = evs(p, wk)
                J_.check(len(w) == 1, "work", p, "does the work %d times" % len(w), w[-1] if w else None)
    delayed(prog, R)
    options(prog, R)
    keys(prog, R)
    scan(prog, R)


def shards(t):
    t = strip(t)
    return isglobal(t, "nshards") or iscall(t, "pogocache_nshards")


def workers(prog, R, nm, struct, wk):
    F = func(prog, nm, "cmds.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, ALL, keep=(wk,))
    thf = fval(prog, struct, "th")
    roles = {}
    for p in J_.iters:
        ro = roles.setdefault(p.hdr, set())
        for e in p.segment():
            if e.name in ("pthread_create", wk, "pthread_join"):
                ro.add(e.name)
    parts = []
    for p in J_.iters:
        seg = p.segment()
        mine = [a for a, b in p.phis.values() if a is not None]
        for (a, b) in p.phis.values():
            if a is None or b is None:
                continue
            d = lsub(b, a)
            if any(pr in ("slt", "ult", "eq") and mentions(t, lambda x: x is a) for pr, x, y, v, t in cmpfacts(p)) and d is not None and not d[1]:
                J_.check(abs(d[0]) == 1, "step", p, "skips workers")
        ro = roles.get(p.hdr, ())
        ths = [truthv(p, t) for t in p.facts if thf(strip(t)) and mentions(t, lambda x: x in mine)]
        th = ths[-1] if ths else None
        if "pthread_create" not in ro and th is not None:
            if wk in ro:
                J_.check(len(evs(p, wk, seg)) == (0 if th else 1), "inline", p,
                         "a part with a thread of its own is worked on a second time" if th else "a part without a thread is never worked on")
            if "pthread_join" in ro and th:
                jn = evs(p, "pthread_join", seg)
                early = None
                for (a, b) in p.phis.values():
                    if a is None or b is None:
                        continue
                    for x in walk(b):
                        if ldfield(x, prog) in (("struct." + struct, "swept"), ("struct." + struct, "kept")) and jn:
                            if instbefore(J_.S.f, x.a[0], jn[0].I.id):
                                early = jn[0]
                J_.check(False if early else None, "sum", p, "adds up what a thread did before that thread has finished", early)
            if "pthread_join" in ro:
                J_.check(len(evs(p, "pthread_join", seg)) == (1 if th else 0), "join", p,
                         "does not wait for a thread" if th else "waits for a thread that does not exist")
        if "pthread_create" not in ro:
            continue
        lo = {}
        for e in seg:
            if e.name == "=":
                f = fieldof(prog, e.args[0])
                if f and f[0] == "struct." + struct:
                    lo.setdefault(f[1], []).append(e)
        cr = evs(p, "pthread_create", seg)
        for e in cr:
            r = res(p, e)
            failed = True if nonzero(r) else False if zero(r) else None
            if failed is None and not any(x.k == "call" and x.a[0] == e.I.id for t in p.facts for x in walk(t)):
                J_.check(False, "unchecked", p, "does not look whether the thread could be started", e)
            z = [s for s in lo.get("th", ()) if idx(seg, s) > idx(seg, e) and same(s.args[1], ZERO)]
            inl = [s for s in evs(p, wk, seg) if idx(seg, s) > idx(seg, e)]
            if failed:
                J_.check(True if inl or z and any(wk in r_ for r_ in roles.values()) else False, "nothread", p, "a part whose thread could not be started is worked on by nobody", e)
            elif failed is False:
                J_.check(not z and not inl, "lost", p, "a part whose thread was started is worked on twice", e)
            J_.check(e.args[2].k != "fn" and None or (wk in show(e.args[2])), "thread", p, "starts a thread of another kind", e)
            for m in ("start", "count"):
                s = lo.get(m)
                if s:
                    J_.check(idx(seg, s[-1]) < idx(seg, e), "ready " + m, p, "starts a thread before its %s is set" % m, s[-1])
        st, ct = lo.get("start"), lo.get("count")
        if not st or not ct:
            R.unknown += 1
            continue
        s, c = st[-1].args[1], ct[-1].args[1]
        ph = strip(s)
        for (a, b) in p.phis.values():
            if a is ph:
                d = lsub(b, a)
                J_.check(d == linz(c) if d is not None else None, "next", p, "the next part does not begin where this one ends", ct[-1])
        parts.append((p, ct[-1], linz(c)))
        last = None
        for pr, x, y, v, t in cmpfacts(p):
            if pr == "eq" and v in (True, False) and any(m_ in mine for m_ in walk(t)) and not mentions(t, lambda q: q is ph):
                last = v if last is None else last
        for t in p.facts:
            if strip(t).k == "phi" and strip(t) in mine and strip(t) is not ph and last is None:
                rg = p.range(t)
                if rg[0] == rg[1]:
                    last = True
        bnd = [y for pr, x, y, v, t in cmpfacts(p) if pr in ("slt", "ult") and v is True and strip(x).k == "phi" and strip(x) in mine]
        at = [(x, y) if strip(x).k == "phi" else (y, x) for pr, x, y, v, t in cmpfacts(p) if pr == "eq" and v is True and any(q in mine and q is not ph for q in (strip(x), strip(y)))]
        for x, y in at:
            if bnd and last is True:
                dd = lsub(bnd[-1], y)
                J_.check(dd[0] == 1 if dd is not None and not dd[1] else None, "lastone", p, "gives the rest to another part than the last", ct[-1])
        if last is True:
            d = lsub_add(s, c)
            J_.check(d is not None and d[0] == 0 and len(d[1]) == 1 and shards(list(d[1])[0]) if d else None, "rest", p, "the last part does not reach to the end of the cache", ct[-1])

    def even(d):
        return d is not None and d[0] == 0 and len(d[1]) == 1 and list(d[1])[0].k == "bin" and list(d[1])[0].a[0] in ("sdiv", "udiv")
    rest = [q for q in parts if not (q[2] and len(q[2][1]) == 1 and shards(list(q[2][1])[0]))]
    if rest and all(even(d) for _, _, d in rest):
        J_.check(False, "rest", rest[0][0], "what is left over by the division among the threads is worked on by nobody", rest[0][1])
    # all loops run over the same workers, from the first on
    ctr = {}
    for p in J_.iters:
        for (a, b) in p.phis.values():
            if a is not None and b is not None and lsub(b, a) == (1, {}):
                ctr.setdefault(p.hdr, set()).add(a)

    def bound(p, h):
        for pr, x, y, v, t in cmpfacts(p):
            if pr in ("slt", "ult") and strip(x) in ctr.get(h, ()) and v is False:
                d = linz(y)
                return d[0], tuple(sorted((show(k), n) for k, n in d[1].items()))
        return None
    creators = {h for h in roles if "pthread_create" in roles[h]}
    joiners = {h for h in roles if "pthread_join" in roles[h]}
    inl = {h for h in roles if wk in roles[h]}
    for p in J_.paths:
        lo = [l[0] for l in loops_of(p)]
        if creators & set(lo):
            J_.check(bool(joiners & set(lo)) or (None if call1(p, "pthread_join") else False), "waits", p, "returns without waiting for the threads")
            J_.check(bool(inl & set(lo)) or None, "inl", p, "")
        bs = {h: bound(p, h) for h in creators | joiners | inl if h in lo}
        ref = [b for h, b in bs.items() if h in creators and b]
        for h, b in bs.items():
            if h not in creators and b and ref:
                J_.check(b == ref[0] or (None if len(b[1]) != len(ref[0][1]) or b[0] == ref[0][0] else False), "allthreads", p,
                         "%s only some of the parts" % ("waits for" if h in joiners else "works on"))
        fr = [e for e in p.ev if e.name in ("xfree", "free")]
        for e in fr:
            js = [l for l in loops_of(p) if l[0] in joiners]
            J_.check(all(l[2] < idx(p.ev, e) for l in js), "early", p, "gives up the memory of the threads before they have finished", e)
    for p in J_.enters:
        for i, (a, b) in p.phis.items():
            if b is not None and isc(strip(b)) and any(q.hdr == p.hdr and i in q.phis and lsub(q.phis[i][1], q.phis[i][0]) not in (None, (0, {})) for q in J_.iters):
                if any(a_ in ctr.get(p.hdr, ()) for a_ in [a]) or p.hdr in creators:
                    J_.check(strip(b).a[0] == 0, "first", p, "begins at %d instead of the first part" % strip(b).a[0])


def instbefore(f, a, b):
    """instruction a comes before b on every way to b (within one turn of a loop)"""
    at = {}
    for bid, B in f.blocks.items():
        for k, I in enumerate(B.insts):
            at[I.id] = (bid, k)
    if a not in at or b not in at:
        return False
    if at[a][0] == at[b][0]:
        return at[a][1] < at[b][1]
    if not hasattr(f, "idom"):
        ir.cfg(f)
    return ir.dominates(f, at[a][0], at[b][0])


def worker(prog, R, wk, struct, op):
    F = func(prog, wk, "cmds.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, ALL)
    st = "pogocache_%s_opts" % op[10:]
    k = 1 if op == "pogocache_clear" else 3
    seen = False
    for p in J_.iters:
        es = [e for e in p.segment() if e.name == op]
        if not es:
            continue
        seen = True
        J_.check(len(es) == 1, "once", p, "works twice on one part", es[-1])
        e = es[0]
        ix = optcell(prog, e, k, st, "oneshardidx")
        if ix is None:
            R.unknown += 1
            continue
        d = linz(ix)
        ph = [x for x in d[1] if strip(x).k == "phi"]
        sf = [x for x in d[1] if ldfield(x, prog) == ("struct." + struct, "start")]
        step = None
        for i, (a, b) in p.phis.items():
            if ph and strip(ph[0]) is a:
                step = lsub(b, a)
        cnt = [x for x in d[1] if ldfield(x, prog) == ("struct." + struct, "count")]
        if len(d[1]) == 1 and ph:
            init = [q.phis[i][1] for q in J_.enters for i, (a, b) in q.phis.items() if strip(ph[0]).a[0] == i]
            ok = [ldfield(x, prog) == ("struct." + struct, "start") for x in init]
            J_.check(None if not ok else all(ok) and d[0] == 0, "index", p, "works on other parts than its own", e)
        elif ph and not sf:
            J_.check(False, "index", p, "works on other parts than its own", e)
        else:
            J_.check(d[0] == 0 and len(d[1]) == 2 and bool(sf) and bool(ph), "index", p, "works on other parts than its own", e)
        if step is not None:
            J_.check(step in ((1, {}), (-1, {})), "walk", p, "skips parts", e)
    if not seen:
        J_.check(False if J_.paths and not any(op in names(p) for p in J_.paths + J_.iters) else None, "does", J_.paths[0], "does nothing")
    one = False
    for p in J_.iters + J_.paths:
        for e in p.ev:
            if e.name == op:
                v = optcell(prog, e, k, st, "oneshard")
                if v is not None and isc(strip(v)):
                    J_.check(strip(v).a[0] & 1 == 1, "oneshard", p, "works on the whole cache for each of its parts", e)
                v = optcell(prog, e, k, st, "time")
                if v is not None:
                    J_.check(False if isc(strip(v)) else True if isnow(v) else None, "time", p, "works with the wrong time", e)
    for p in J_.enters:
        for i, (a, b) in p.phis.items():
            v = strip(b) if b is not None else None
            if v is not None and isc(v) and any(i in q.phis and lsub(q.phis[i][1], q.phis[i][0]) == (1, {}) for q in J_.iters):
                J_.check(v.a[0] == 0, "from", p, "skips its first part")
    for p in J_.paths:
        if any(e.name == op for e in p.ev):
            bnd = [(pr, v) for pr, x, y, v, t in cmpfacts(p) if ldfield(y, prog) == ("struct." + struct, "count") or ldfield(x, prog) == ("struct." + struct, "count")]
            J_.check(False if bnd and all(pr in ("slt", "ult") and v is True for pr, v in bnd) else True if bnd else None, "early", p, "ends before all of its parts are done")
        for pr, x, y, v, t in cmpfacts(p):
            if pr in ("slt", "ult") and strip(x).k == "phi" and v is False and ldfield(y, prog) == ("struct." + struct, "count"):
                J_.check(True, "to", p, "")
            elif pr in ("slt", "ult") and strip(x).k == "phi" and v is False:
                d = linz(y)
                if d and len(d[1]) == 1 and ldfield(list(d[1])[0], prog) == ("struct." + struct, "count"):
                    J_.check(d[0] == 0, "to", p, "leaves out its last part")


def masked(t):
    """a parsed number of which bits were taken away"""
    t = strip(t)
    return t.k == "bin" and t.a[0] in ("and", "shl", "lshr", "urem", "srem", "udiv", "sdiv") and isc(t.a[2]) and strip(t.a[1]).k == "parsed"


def sizeonly(t):
    """a comparison of a configuration variable of the program with a constant"""
    t = strip(t)
    while t.k in ("zext", "not", "trunc", "cast") and isinstance(t.a[-1], T) or t.k in ("not", "zext") and isinstance(t.a[0], T):
        t = strip(next(a for a in t.a if isinstance(a, T)))
    return t.k == "cmp" and any(isc(strip(a)) and strip(b).k == "ld" and strip(strip(b).a[1]).k == "g" for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])))


def work(prog, R, nm, fast, op):
    F = func(prog, nm, "cmds.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, ALL, keep=(fast,))
    st = "pogocache_%s_opts" % op[10:]
    k = 1 if op == "pogocache_clear" else 3
    for p in J_.paths:
        es = [e for e in p.ev if e.name in (fast, op)]
        J_.check(len(es) == 1, "once", p, "does %s" % ("nothing" if not es else "the work twice"), es[-1] if es else None)
        for e in es:
            if e.name == op:
                v = optcell(prog, e, k, st, "oneshard")
                g = v is not None and not isc(strip(v)) and sizeonly(strip(v))
                J_.check(strip(v).a[0] & 1 == 0 if v is not None and isc(strip(v)) else False if g else None, "all", p, "works on one part only", e)
                t = optcell(prog, e, k, st, "time")
                J_.check(isnow(t) if t is not None and isc(strip(t)) else True if t is not None and isnow(t) else None, "now", p, "works with the wrong time", e)


def delayed(prog, R):
    F = func(prog, "thflush0", "cmds.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, DELAY, keep=("flush_work",))
    for p in J_.paths:
        w = evs(p, "flush_work")
        J_.check(len(w) == 1, "flush", p, "flushes %d times" % len(w))
        s = [e for e in p.ev if e.name in ("sleep", "usleep", "nanosleep", "sys_sleep")]
        d = [p.range(t) for t in p.facts if ldfield(t, prog) == ("struct.flushctx", "delay")]
        if d and d[0][1] <= 0:
            J_.check(True, "nodelay", p, "")
        elif d and d[0][0] > 0:
            J_.check(True if s else False, "delay", p, "does not wait before it flushes", w[0] if w else None)
        for e in s:
            J_.check(not w or idx(p.ev, e) < idx(p.ev, w[0]), "before", p, "waits after it has flushed", e)
            if e.name == "sleep":
                v = e.args[0]
                J_.check(True if ldfield(v, prog) == ("struct.flushctx", "delay") else False if isc(strip(v)) or strip(v).k == "bin" else None, "seconds", p,
                         "waits another time than asked for", e)


def phis_in(v):
    return {x for x in walk(v) if x.k == "phi"}


def onephi(v):
    """the loop variable a value is made of (also as 0/1 of it), or None"""
    ps = phis_in(v) if v is not None else ()
    if len(ps) != 1:
        return None
    return next(iter(ps))


def words_of(p):
    """{word: (truth, index term)} of the arguments compared on the path"""
    out = {}
    for t in p.facts:
        if t.k == "argeq" and not isc(t.a[1]) and isinstance(t.a[2], str):
            out[t.a[2]] = (p.truth(t), t.a[1])
    return out


def parsedfacts(p, names=("parse_i64", "parse_u64", "argi64", "argu64")):
    """{parsed value: (lo, hi, exact)}; exact: no other condition on it was seen"""
    out = {}
    for t in p.facts:
        for x in walk(t):
            if x.k == "parsed" and (len(x.a) < 2 or x.a[1] in names):
                if strip(t) is x:
                    lo, hi, ex = p.range(t)
                    o = out.get(x, (-2**63, 2**64, True))
                    out[x] = (max(lo, o[0]), min(hi, o[1]), o[2])
                else:
                    o = out.get(x, (-2**63, 2**64, True))
                    out[x] = (o[0], o[1], False)
    return out


def options(prog, R):
    optcmd(prog, R, "cmdFLUSHALL", "flushctx", "thflush0", ("async", "sync", "fast", "delay"))
    optcmd(prog, R, "cmdSWEEP", "sweepctx", "thsweep0", ("async", "fast"))
    scanopts(prog, R)


def handovers(p):
    return [e for e in p.ev if e.name in ("pthread_create", "conn_bgwork")]


def optcmd(prog, R, nm, struct, th0, words):
    F = func(prog, nm, "cmds.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, DELAY)
    what = nm[3:]
    st = "struct." + struct
    # the loop variable that decides between the two ways of doing the work
    votes = {}
    for p in J_.paths:
        h = handovers(p)
        J_.check(len(h) <= 1, "one", p, "does the work twice", h[-1] if h else None)
        for t in p.facts:
            f = onephi(t)
            v = truthv(p, t)
            if f is None or not h or v is None or strip(t) is not f:
                continue
            votes.setdefault(f, set()).add((h[0].name, v))
    A = [f for f, v in votes.items() if v == {("pthread_create", True), ("conn_bgwork", False)}]
    A = A[0] if len(A) == 1 else None
    # the loop variable of FAST
    fs = set()
    nfast = 0
    for p in J_.paths:
        if not handovers(p):
            continue
        s = [e for e in stores(p, prog, st, "fast")]
        if s and not isc(strip(s[-1].args[1])):
            fs.add(onephi(s[-1].args[1]))
        elif s and isc(strip(s[-1].args[1])):
            nfast += 1
            J_.check(False if not fs and strip(s[-1].args[1]).a[0] == 0 and not any(len(phis_in(t)) == 1 and t.k == "phi" and t is not A for t in p.facts) else None, "fastlost", p, "the FAST option of %s has no effect" % what, s[-1])
    Fp = fs.pop() if len(fs) == 1 else None
    seen = {}
    for p in J_.iters + J_.paths:
        for w, (v, at) in words_of(p).items():
            seen.setdefault(w, set()).add(v)

    def nxt(p, f):
        if f is None or f.a[0] not in p.phis:
            return None
        a, b = p.phis[f.a[0]]
        if b is None:
            return None
        v = strip(b)
        return int(v.a[0] != 0) if isc(v) else "same" if b is a or v is strip(a) else None

    hits = set()
    for p in J_.iters:
        ws = words_of(p)
        if A is None or A.a[0] not in p.phis:
            continue
        on = [w for w, (v, at) in ws.items() if v is True and w in words]
        if len(on) != 1:
            if not on and all(w in ws and ws[w][0] is False for w in words):
                J_.check(False, "unknown", p, "%s goes on after an option that it does not know" % what)
            continue
        w = on[0]
        hits.add(w)
        n, f = nxt(p, A), nxt(p, Fp)
        if w == "async":
            J_.check(n == 1 if n is not None else None, "async", p, "ASYNC does not make %s asynchronous" % what)
        elif w == "sync":
            J_.check(n == 0 if n is not None else None, "sync", p, "SYNC does not make %s synchronous" % what)
        elif w == "fast":
            J_.check(n == "same" if n is not None else None, "fastonly", p, "FAST changes whether %s is synchronous" % what)
            J_.check(f == 1 if f is not None else None, "fast", p, "FAST has no effect on %s" % what)
        if w != "fast" and Fp is not None:
            J_.check(f == "same" if f is not None else None, "notfast", p, "%s changes whether %s uses all threads" % (w.upper(), what))
        if w == "delay":
            pf = parsedfacts(p)
            ok = [x for x in walk_facts(p) if x.k == "call" and x.a[1] in ("parse_i64", "argi64")]
            J_.check(True if ok or pf else None, "parsed", p, "")
            for x, (lo, hi, exact) in pf.items():
                J_.check(lo >= 0 if exact else None, "neg", p, "%s accepts a negative delay" % what)
                if exact and hi >= 1:
                    J_.check(n == 1 if n is not None else None, "delayed", p, "a delayed %s is done while the client waits, without its delay" % what)
            for x in ok:
                r = p.range(x)
                J_.check(False if zero(r) else True if nonzero(r) else None, "delayarg", p, "%s accepts a delay that is not a number" % what)
    for p in J_.paths:
        if evs(p, "conn_write_error") and not handovers(p) and not words_of(p):
            lo, hi = 0, 2**32
            n = 0
            for t in p.facts:
                if t.k == "ld" and show(t) == "param1->len":
                    r = p.range(t)
                    lo, hi, n = max(lo, r[0]), min(hi, r[1]), n + 1
            for pr, x, y, v, t in cmpfacts(p):
                if show(strip(x)) == "param1->len" and isc(strip(y)):
                    c = strip(y).a[0]
                    n += 1
                    if pr == "ult":
                        lo, hi = (lo, min(hi, c - 1)) if v else (max(lo, c), hi)
                    elif pr == "eq" and v:
                        lo = hi = c
            if n:
                J_.check(not (lo <= 1 + len(words) <= hi), "all options", p, "%s refuses all of its options together" % what, evs(p, "conn_write_error")[0])
    # the delay reaches the thread
    if "delay" in words:
        groups = {}
        for p in J_.paths:
            h = handovers(p)
            if not h or h[0].name != "pthread_create":
                continue
            d = [e for e in stores(p, prog, st, "delay")]
            key = tuple(sorted((show(t), truthv(p, t)) for t in p.facts if t.k == "phi" and truthv(p, t) is not None))
            groups.setdefault(key, []).append((p, d[-1] if d else None))
        some = any(d is not None and not isc(strip(d.args[1])) for g in groups.values() for _, d in g)
        for key, g in groups.items():
            J_.check(any(d is not None and not isc(strip(d.args[1])) for _, d in g), "delaykept", g[0][0],
                     "the delay of %s does not reach the thread that waits" % what, g[0][1])
            for p, d in g:
                if d is not None and strip(d.args[1]).k == "bin":
                    l = linz(d.args[1])
                    J_.check(l[0] == 0 and list(l[1].values()) == [1] if len(l[1]) == 1 else None, "delayval", p, "%s waits another time than asked for" % what, d)
    for p in J_.paths:
        for e in handovers(p):
            if e.name == "pthread_create":
                J_.check(th0 in show(e.args[2]) if e.args[2].k in ("fn", "g", "f") or "(" not in show(e.args[2]) else None, "thread", p, "starts a thread of another kind", e)


def walk_facts(p):
    for t in p.facts:
        yield from walk(t)


def scanopts(prog, R):
    F = func(prog, "cmdSCAN", "cmds.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, KEYS, keep=("scan_work", "scan_done"))
    st = "struct.scan_ctx"
    role = {}
    for p in J_.paths:
        w = [e for e in p.ev if e.name in ("scan_work", "conn_bgwork", "pthread_create")]
        if not w:
            continue
        J_.check(len(w) == 1, "once", p, "scans twice", w[-1])
        for m in ("plen", "count", "cursor", "now"):
            for e in list(stores(p, prog, st, m))[-1:]:
                v = e.args[1]
                role.setdefault(m, set()).add(onephi(v))
                l = linz(v)
                if m == "cursor":
                    J_.check((l[0] == 0 and len(l[1]) == 1 and next(iter(l[1])).k == "parsed") if l and (len(l[1]) == 0 or any(x.k == "parsed" or masked(x) for x in l[1])) else None,
                             "cursor", p, "begins at another cursor than asked for", e)
                elif m in ("plen", "count"):
                    if l and len(l[1]) == 1 and next(iter(l[1])).k == "phi":
                        J_.check(l[0] == 0, m, p, "uses another %s than asked for" % ("pattern length" if m == "plen" else "count"), e)
                    elif l and not l[1]:
                        J_.check(False, m, p, "the %s option has no effect" % ("MATCH" if m == "plen" else "COUNT"), e)
                elif m == "now":
                    J_.check(True if isnow(v) else False if isc(strip(v)) else None, "now", p, "scans at another time than now", e)
        for e in evs(p, "memcpy") + evs(p, "llvm.memcpy"):
            pass
    one = lambda m: next(iter(role[m])) if len(role.get(m, ())) == 1 and None not in role[m] else None
    for p in J_.iters:
        ws = words_of(p)
        for w, m in (("match", "plen"), ("count", "count")):
            f = one(m)
            if f is None or f.a[0] not in p.phis:
                continue
            a, b = p.phis[f.a[0]]
            b = strip(b) if b is not None else None
            if b is None:
                continue
            if ws.get(w, (None,))[0] is True:
                if m == "plen":
                    J_.check(True if "bufs" in show(b) and b.k == "ld" else False if isc(b) or b is strip(a) else None, "match", p, "the MATCH option does not set the pattern")
                else:
                    J_.check(True if b.k == "parsed" else False if isc(b) or b is strip(a) else None, "countopt", p, "the COUNT option does not set the count")
                    for x, (lo, hi, ex) in parsedfacts(p).items():
                        if b is x:
                            ne0 = lo > 0 or any(strip(t) is x and 0 in p.range(t)[2] for t in p.facts)
                            J_.check(ne0 if ex else None, "count0", p, "accepts a COUNT of 0")
            elif ws.get("match", (None,))[0] is False and ws.get("count", (None,))[0] is False:
                J_.check(b is strip(a), "others", p, "another option changes the %s" % ("pattern" if m == "plen" else "count"))
        if all(ws.get(w, (None,))[0] is False for w in ("match", "count", "type")):
            J_.check(False, "unknown", p, "goes on after an option that it does not know")


def keys(prog, R):
    F = func(prog, "keys_entry", "cmds.c")
    if F is not None:
        J_ = J(prog, R, F, KEYS)
        key, kl = mk("p", 2), mk("p", 3)
        for p in J_.paths:
            m = evs(p, "match")
            a = [e for e in p.ev if e.name.startswith("buf_append")]
            c = [s for s in stores(p, prog, "struct.keys_ctx", "count")]
            hit = None
            for e in m:
                J_.check(same(e.args[2], key) and same(e.args[3], kl) and ldfield(e.args[0], prog) == ("struct.keys_ctx", "pattern") and ldfield(e.args[1], prog) == ("struct.keys_ctx", "plen"),
                         "match", p, "compares other bytes than the key with the pattern", e)
                r = res(p, e)
                hit = True if nonzero(r) else False if zero(r) else None
            if not m:
                star = [p.range(t) for t in p.facts if t.k == "ld" and t.a[1].k == "ld" and ldfield(t.a[1], prog) == ("struct.keys_ctx", "pattern")]
                star += [p.range(t) for t in p.facts if t.k == "ld" and strip(t.a[1]).k == "ld" and ldfield(strip(t.a[1]), prog) == ("struct.keys_ctx", "pattern")]
                one = [p.range(t) for t in p.facts if ldfield(t, prog) == ("struct.keys_ctx", "plen")]
                ok = any(r[0] == r[1] == 42 for r in star) and any(r[0] == r[1] == 1 for r in one)
                hit = True
                J_.check(ok if a or c else None, "star", p, "reports a key without comparing it with the pattern")
            if hit is True:
                J_.check(len(a) == 2, "keep", p, "does not keep a key that matches", m[0] if m else None)
                J_.check(len(c) == 1 or None, "count", p, "")
                for s in c:
                    d = linz(s.args[1])
                    J_.check(d[0] == 1 and len(d[1]) == 1 if d else None, "count1", p, "counts a key %d times" % (d[0] if d else 0), s)
                if a and not c:
                    J_.check(False, "count", p, "does not count a key that matches", a[0])
            elif hit is False:
                J_.check(not a and not c, "skip", p, "reports a key that does not match", (a + c)[0] if a + c else None)
            lens = [e for e in a if e.name == "buf_append_uvarint"]
            for e in lens:
                J_.check(same(e.args[1], kl), "len", p, "keeps another length than that of the key", e)
            for e in [e for e in a if e.name == "buf_append"]:
                J_.check(same(e.args[1], key) and same(e.args[2], kl), "bytes", p, "keeps other bytes than those of the key", e)
                J_.check(bool(lens) and idx(p.ev, lens[0]) < idx(p.ev, e) if lens else None, "order", p, "keeps the length behind the key", e)
            v = strip(p.ret)
            J_.check(v.a[0] == 0 if isc(v) else None, "all", p, "ends the walk before all entries were seen")
    F = func(prog, "bgkeys_work", "cmds.c")
    if F is not None:
        J_ = J(prog, R, F, KEYS)
        for p in J_.paths:
            it = evs(p, "pogocache_iter")
            J_.check(len(it) == 1, "walk", p, "walks the cache %d times" % len(it))
            for e in it:
                v = optcell(prog, e, 1, "pogocache_iter_opts", "oneshard")
                J_.check(strip(v).a[0] & 1 == 0 if v is not None and isc(strip(v)) else None, "allshards", p, "walks a part of the cache only", e)
                t = optcell(prog, e, 1, "pogocache_iter_opts", "time")
                if t is not None:
                    J_.check(True if ldfield(t, prog) == ("struct.keys_ctx", "now") or isnow(t) else False if isc(strip(t)) or strip(t).k == "bin" else None, "time", p, "walks the cache as of another time", e)
    F = func(prog, "cmdKEYS", "cmds.c")
    if F is not None:
        J_ = J(prog, R, F, KEYS)
        for p in J_.paths:
            if not evs(p, "conn_bgwork"):
                continue
            for s in list(stores(p, prog, "struct.keys_ctx", "plen"))[-1:]:
                l = linz(s.args[1])
                cut = l and any(x.k in ("pure", "call") and "strlen" in x.a[:2] for x in l[1])
                J_.check(False if cut else (l[0] == 0 and len(l[1]) == 1) if l and (not l[1] or all("bufs" in show(x) for x in l[1])) else None, "plen", p, "looks for another pattern than asked for", s)
            for s in list(stores(p, prog, "struct.keys_ctx", "now"))[-1:]:
                J_.check(True if isnow(s.args[1]) else False if isc(strip(s.args[1])) else None, "now", p, "walks the cache as of another time", s)
    F = func(prog, "bgkeys_done", "cmds.c")
    if F is not None:
        J_ = J(prog, R, F, KEYS)
        for p in J_.paths:
            for e in evs(p, "conn_write_array"):
                J_.check(ldfield(e.args[1], prog) == ("struct.keys_ctx", "count") if strip(e.args[1]).k in ("ld", "bin", "c") else None, "array", p, "announces another number of keys", e)
            for e in evs(p, "pg_write_completef"):
                n = strip(e.args[2]) if len(e.args) > 2 else None
                if n is not None and n.k == "ld":
                    J_.check(ldfield(n, prog) == ("struct.keys_ctx", "count") if ldfield(n, prog) else None, "tag", p, "tells another number of keys", e)
            for pr, x, y, v, t in cmpfacts(p):
                if pr in ("ult", "slt") and strip(x).k == "phi" and v is False:
                    d = linz(y)
                    if d and len(d[1]) == 1 and ldfield(list(d[1])[0], prog) == ("struct.keys_ctx", "count"):
                        J_.check(d[0] == 0, "allkeys", p, "leaves out the last key")
        fromfirst(J_, "leaves out the first key")
        for p in J_.iters:
            rd = evs(p, "varint_read_u64", p.segment())
            w = [e for e in p.segment() if e.name in ("conn_write_bulk", "pg_write_row_data")]
            J_.check(len(w) == 1, "row", p, "writes a key %d times" % len(w), w[-1] if w else None)
            for e in rd[:1]:
                cur = strip(e.args[0])
                lim = strip(e.args[1])
                J_.check(lim.a[0] >= 5 if isc(lim) else None, "length", p, "reads at most %s bytes of a key's length" % show(lim), e)
                for i, (a, b) in p.phis.items():
                    if a is cur:
                        d = lsub(b, a)
                        J_.check(d[0] == 0 and len(d[1]) == 2 if d is not None else None, "advance", p, "does not go on to the next key", e)
                for x in w:
                    if x.name == "conn_write_bulk":
                        n = strip(x.args[2])
                        J_.check(n.k == "vread" if n.k in ("vread", "c", "bin") else None, "rowlen", p, "writes another length than that of the key", x)
                        d = lsub(x.args[1], cur)
                        J_.check(d[0] == 0 and len(d[1]) == 1 if d is not None else None, "rowkey", p, "writes other bytes than those of the key", x)


def fromfirst(J_, msg):
    """a counter that goes up by one and is compared with a bound begins at 0"""
    up = {}
    for q in J_.iters:
        cs = {strip(x) for pr, x, y, v, t in cmpfacts(q) if pr in ("slt", "ult") and v is True}
        for i, (a, b) in q.phis.items():
            if a is not None and b is not None and lsub(b, a) == (1, {}) and a in cs:
                up.setdefault(q.hdr, set()).add(i)
    for p in J_.enters:
        for i, (a, b) in p.phis.items():
            v = strip(b) if b is not None else None
            if v is not None and isc(v) and i in up.get(p.hdr, ()):
                J_.check(v.a[0] == 0, "first", p, msg)


def scan(prog, R):
    F = func(prog, "scan_work", "cmds.c")
    if F is not None:
        J_ = J(prog, R, F, KEYS)
        for p in J_.iters:
            seg = p.segment()
            for e in seg:
                if e.name in ("xrealloc", "realloc"):
                    cp = [s for s in stores(p, prog, "struct.scan_ctx", "cap", seg=seg)]
                    if cp:
                        l, m = linz(e.args[1]), linz(cp[-1].args[1])
                        if l and m and m[1] and set(l[1]) == set(m[1]):
                            J_.check(all(l[1][x] >= 8 * m[1][x] for x in l[1]), "room", p, "makes room for fewer entries than it notes", e)
                        elif l and m and not l[1] and not m[1]:
                            J_.check(l[0] >= 8 * m[0], "room", p, "makes room for fewer entries than it notes", e)
            it = evs(p, "pogocache_entry_iter", seg)
            if not it:
                continue
            for pr, x, y, v, t in cmpfacts(p):
                if pr == "ult":
                    fx, fy = ldfield(x, prog), ldfield(y, prog)
                    if fx == ("struct.scan_ctx", "count") and fy == ("struct.scan_ctx", "len") and v is False and strip(x).a[0] == strip(x).a[0]:
                        J_.check(False, "limit", p, "takes one entry more than asked for", it[0])
            J_.check(len(it) == 1, "step", p, "takes two entries and judges one", it[-1])
            ent = it[0].res
            m = evs(p, "match", seg)
            rel = [e for e in evs(p, "pogocache_entry_release", seg) if same(e.args[1], ent)]
            put = [e for e in seg if e.name == "=" and strip(e.args[1]) is strip(ent)]
            J_.check(len(rel) + len(put) == 1, "owner", p, "neither keeps nor releases an entry" if not rel and not put else "keeps an entry that it released", (rel + put)[-1] if rel + put else it[0])
            for e in m:
                r = res(p, e)
                if nonzero(r):
                    J_.check(bool(put), "keep", p, "leaves out an entry that matches", e)
                elif zero(r):
                    J_.check(not put, "skip", p, "reports an entry that does not match", e)
                k = strip(e.args[2])
                J_.check(k.k == "call" and k.a[1] == "pogocache_entry_key" if k.k == "call" else None, "key", p, "compares other bytes than the key with the pattern", e)
                J_.check(ldfield(e.args[0], prog) == ("struct.scan_ctx", "pattern") and ldfield(e.args[1], prog) == ("struct.scan_ctx", "plen") if strip(e.args[0]).k == "ld" else None,
                         "pattern", p, "compares the key with something else than the pattern", e)
            if put:
                J_.check(True if m else False, "judged", p, "reports an entry without comparing it with the pattern", put[0])
                ln = [s for s in stores(p, prog, "struct.scan_ctx", "len", seg=seg)]
                for s in ln:
                    d = linz(s.args[1])
                    J_.check(d[0] == 1 if d and len(d[1]) == 1 else None, "count", p, "counts an entry %d times" % (d[0] if d else 0), s)
                J_.check(True if ln else False, "counted", p, "forgets an entry it kept", put[0])
        for p in J_.paths:
            last = [t for t in p.facts if iscall(t, "pogocache_entry_iter") and zero(p.range(t))]
            full = None
            for pr, x, y, v, t in cmpfacts(p):
                if pr == "ult" and ldfield(x, prog) == ("struct.scan_ctx", "len") and ldfield(y, prog) == ("struct.scan_ctx", "count"):
                    full = v
            J_.check(True if last or full is False else None, "end", p, "")
    F = func(prog, "scan_done", "cmds.c")
    if F is not None:
        J_ = J(prog, R, F, KEYS)
        fromfirst(J_, "leaves out the first key")
        for p in J_.iters:
            seg = p.segment()
            w = [e for e in seg if e.name in ("conn_write_bulk", "pg_write_row_data")]
            rel = evs(p, "pogocache_entry_release", seg)
            J_.check(len(w) == 1, "row", p, "writes an entry %d times" % len(w), w[-1] if w else None)
            J_.check(len(rel) == 1, "release", p, "releases an entry %d times" % len(rel), rel[-1] if rel else w[-1] if w else None)
            for r in rel:
                J_.check(not [x for x in w if idx(seg, x) > idx(seg, r)], "early", p, "releases an entry before it was written", r)
            for x in w:
                if x.name == "conn_write_bulk":
                    k = strip(x.args[1])
                    J_.check(k.k == "call" and k.a[1] == "pogocache_entry_key" if k.k == "call" else None, "key", p, "writes other bytes than the key", x)
        for p in J_.paths:
            ar = evs(p, "conn_write_array")
            if len(ar) == 2:
                J_.check(ldfield(ar[1].args[1], prog) == ("struct.scan_ctx", "len") if strip(ar[1].args[1]).k in ("ld", "c", "bin") else None, "array", p, "announces another number of keys", ar[1])
            cu = [e for e in p.ev if e.name == "u64toa"]
            for e in cu:
                J_.check(ldfield(e.args[0], prog) == ("struct.scan_ctx", "cursor") if strip(e.args[0]).k in ("ld", "c", "bin") else None, "cursor", p, "reports another cursor than the one reached", e)


# ---------------------------------------------------------------- work handed to another thread
OWN = "work on another thread does not touch the connection or the request"
LIFE = "what was handed over is given up exactly once, by the side that has it"
LOOP = "a connection leaves the event loop while its work is done and comes back once"
FREE = ("xfree", "free")


def C31(prog, R, tier):
    EXPLAIN["C31"] = ("every function that can run on a worker thread (call graph from each function handed to conn_bgwork or pthread_create), every path of the handlers that hand work "
                      "over and of the functions that finish it, and of conn_bgwork, net_conn_bgwork, bgwork, qattach, qprocess and qaccept")
    sites = {}
    for M in prog.mods.values():
        if M.name not in ("cmds.c", "save.c", "main.c"):
            continue
        for F in M.funcs.values():
            for I in F.insts():
                n = I.callee[1] if I.op == "call" and I.callee and I.callee[0] == "f" else None
                if n in ("conn_bgwork", "pthread_create"):
                    sites.setdefault(F.key, (F, []))[1].append((n, I))
    threads(prog, R, sites)
    for F, _ in sites.values():
        if F.mod.name == "cmds.c" and not F.name.startswith(("flushfast", "sweepfast", "cmdDEBUG_populate")):
            handler(prog, R, F)
    connbg(prog, R)
    netbg(prog, R)


def fnarg(prog, F, a):
    return prog.get(F.mod, a[1]) if a and a[0] == "f" else None


def isconnfn(F):
    n, m = F.name, F.mod.name
    return n.startswith("net_conn_") or (m == "postgres.c" and n.startswith("pg_")) or (m == "conn.c" and n.startswith("conn_"))


def threads(prog, R, sites):
    for F, cs in sites.values():
        for n, I in cs:
            G = fnarg(prog, F, I.a[1] if n == "conn_bgwork" else I.a[2])
            if G is None:
                R.unknown += 1
                continue
            if any(c == "conn_setnonblock" for c in direct(prog, G)):
                R.unknown += 1      # MONITOR keeps the connection to itself for as long as it runs
                continue
            par = {G.key: None}
            w = [G]
            bad = None
            while w and bad is None:
                X = w.pop(0)
                R.analysed(X)
                for k in prog.callees(X)[0]:
                    Y = prog.byname(k)
                    if k not in par:
                        par[k] = X
                        if isconnfn(Y):
                            bad = (X, Y)
                            break
                        w.append(Y)
            if bad:
                X, Y = bad
                chain = [Y.name]
                while X is not None:
                    chain.append(X.name)
                    X = par[X.key]
                c = next((J2 for J2 in bad[0].insts() if J2.op == "call" and J2.callee and J2.callee[0] == "f" and J2.callee[1] == Y.name), None)
                R.bad(OWN, "%s|thread" % G.name, "%s:%s" % (bad[0].file, c.line if c else bad[0].line),
                      "%s: runs on a thread of its own and uses the connection (%s)" % (G.name, " <- ".join(chain)), [])
            else:
                R.ok(OWN, "%s thread" % G.name)


def direct(prog, F):
    return {I.callee[1] for I in F.insts() if I.op == "call" and I.callee and I.callee[0] == "f"}


def foreign(prog, J_, v, d=0):
    """the value is a pointer into the request, the connection or a local variable: what it is, or None"""
    v = strip(v)
    if v.k == "p" and J_.F.params and v is mk("p", 0):
        return "the connection"
    f = ldfield(v, prog)
    if f and f[1] == "data" and ("buf" in f[0]) and "param1" in show(v):
        return "an argument of the request"
    if f and f[1] == "bufs":
        return "the arguments of the request"
    u = v
    if v.k == "al":
        return "a local variable"
    if v.k == "phi" and d < 3:
        for p in J_.iters + J_.enters:
            b = p.phis.get(v.a[0], (None, None))[1]
            if b is not None and strip(b) is not v:
                w = foreign(prog, J_, b, d + 1)
                if w:
                    return w
    return None


def offs(A, base):
    """constant offset of an address from base, or None"""
    d = lsub(A, base)
    return d[0] if d is not None and not d[1] else None


def freehelper(F, I):
    """small helper functions that give memory up are looked into"""
    if F.mod.name == "cmds.c" and F.internal and len(F.blocks) <= 8 and direct(None, F) & {"xfree", "free"}:
        return True
    return None


def handler(prog, R, F):
    J_ = J(prog, R, F, LIFE, loads=True, copies=True, inlinef=freehelper)
    done = set()
    owned = {}
    monitor = False
    for p in J_.paths:
        hs = handovers(p)
        if not hs:
            continue
        e = hs[0]
        i = idx(p.ev, e)
        obj = strip(e.args[3])
        bg = e.name == "conn_bgwork"
        r = res(p, e)
        failed = (zero(r) or None if not nonzero(r) else False) if bg else (False if zero(r) else True if nonzero(r) else None)
        W = e.args[1] if bg else e.args[2]
        G = fnof(prog, F, W)
        if bg and fnof(prog, F, e.args[2]) is not None:
            done.add(fnof(prog, F, e.args[2]))
        if not bg and G is not None:
            done.add(G)
        mon = G is not None and "conn_setnonblock" in direct(prog, G)
        if failed is None and not any(x.k == "call" and x.a[0] == e.I.id for t in p.facts for x in walk(t)):
            J_.check(False, "unchecked", p, "does not look whether the work could be handed over", e)
            continue
        if obj.k == "al":
            J_.check(False, "local", p, "hands a local variable to a thread that outlives it", e, rule=OWN)
        if obj.k == "new":
            own = {}
            for s in p.ev[:i]:
                if s.name == "=":
                    o = offs(s.args[0], obj)
                    if o is None:
                        continue
                    v = strip(s.args[1])
                    own.pop(o, None)
                    if v.k == "new":
                        own[o] = v
                    if not mon:
                        w = foreign(prog, J_, v)
                        J_.check(w is None, "foreign", p, "hands %s to another thread" % w, s, rule=OWN)
            for o in own:
                owned.setdefault(o, s)
            if not mon or failed:
                fr = [x for x in p.ev if x.name in FREE and strip(x.args[0]) is obj]
                if failed:
                    J_.check(len(fr) == 1, "failfree", p, "the work could not be handed over and its memory is given up %d times" % len(fr), fr[-1] if len(fr) > 1 else e)
                    for o, v in own.items():
                        ff = [x for x in p.ev if x.name in FREE and (strip(x.args[0]) is v or offs_ld(x.args[0], obj) == o)]
                        J_.check(len(ff) == 1, "failfree2", p, "the work could not be handed over and part of its memory is given up %d times" % len(ff), e)
                elif failed is False:
                    J_.check(not fr, "kept", p, "gives up the memory that the other thread works with", fr[0] if fr else None)
                    use = [x for x in p.ev[i + 1:] if x.name in ("ld", "=") and offs(x.args[0], obj) is not None]
                    J_.check(not use, "used", p, "uses the memory after it was handed to the other thread", use[0] if use else None)
                    for o, v in own.items():
                        ff = [x for x in p.ev if x.name in FREE and strip(x.args[0]) is v]
                        J_.check(not ff, "kept2", p, "gives up memory that the other thread works with", ff[0] if ff else None)
        if not bg and failed is False:
            th = strip(e.args[0])
            if th.k == "al":
                de = evs(p, "pthread_detach") + evs(p, "pthread_join")
                J_.check(len(de) == 1, "detach", p, "neither waits for the thread nor lets it go" if not de else "lets the thread go twice", e)
        if failed:
            er = [x for x in p.ev[i:] if x.name in ("conn_write_error", "conn_close", "conn_write_raw_cstr", "pg_write_error")]
            J_.check(True if er else False, "told", p, "does not tell that the work could not be done", e)
    for G in done:
        finish(prog, R, G, owned, obj_given(J_, G))


def obj_given(J_, G):
    """some path hands an allocated object to G"""
    for p in J_.paths:
        for e in handovers(p):
            if strip(e.args[3]).k == "new" and G.name in show(e.args[1]) + show(e.args[2]):
                return True
    return False


def fnof(prog, F, t):
    s = show(strip(t))
    s = s.split(":")[-1].strip("@&()")
    return prog.get(F.mod, s)


def offs_ld(t, obj):
    t = strip(t)
    return offs(t.a[1], obj) if t.k == "ld" else None


def finish(prog, R, G, owned, given):
    if not given:
        return
    J_ = J(prog, R, G, LIFE, inlinef=freehelper, loads="p")
    n = len(G.params)
    obj = mk("p", n - 1)
    for p in J_.paths:
        fr = [x for x in p.ev if x.name in FREE and strip(x.args[0]) is obj]
        J_.check(len(fr) == 1, "free", p, "gives up the memory of the work %d times" % len(fr), fr[-1] if fr else None)
        for o in owned:
            ff = [x for x in p.ev if x.name in FREE and offs_ld(x.args[0], obj) == o]
            J_.check(len(ff) == 1, "free2", p, "gives up a part of the memory of the work %d times" % len(ff), ff[-1] if ff else None)
        for o in ownbufs(prog, p, obj):
            cl = [x for x in p.ev if (x.name == "buf_clear" and offs(x.args[0], obj) == o) or (x.name in FREE and offs_ld(x.args[0], obj) is not None and o <= offs_ld(x.args[0], obj) < o + 24)]
            J_.check(len(cl) == 1, "buf", p, "gives up the collected data %d times" % len(cl), cl[-1] if cl else None)
        for f in fr:
            late = [x for x in p.ev[idx(p.ev, f) + 1:] if (x.name in ("ld", "=") and offs(x.args[0], obj) is not None) or
                    (x.name not in ("ld", "=") and x.name not in FREE and any(isinstance(a, T) and strip(a) is obj for a in x.args))]
            J_.check(not late, "late", p, "uses the memory of the work after it was given up", late[0] if late else None)


def ownbufs(prog, p, obj):
    """offsets of the growing buffers inside the structure that obj points to"""
    out = set()
    for e in p.ev:
        if e.name in ("ld", "="):
            s = ast(e.args[0])
            if s and offs(e.args[0], obj) is not None:
                sd = prog.structs.get(s[0])
                for m in (sd or {"m": ()})["m"]:
                    if m.get("t") == "struct.buf" and offs(e.args[0], obj) == s[1]:
                        out.add(m["o"] // 8)
    return out


def ptrstores(p, obj, upto=None):
    """offset -> (value, event) of the last stores to an object"""
    out = {}
    for e in p.ev[:upto]:
        if e.name == "=":
            o = offs(e.args[0], obj)
            if o is not None:
                out[o] = (strip(e.args[1]), e)
    return out


def indirects(p, seg=None):
    return evs(p, "*indirect*", seg)


def connbg(prog, R):
    F = func(prog, "conn_bgwork", "conn.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, LIFE, copies=True)
    at = {}
    wk = dn = None
    for p in J_.paths:
        h = evs(p, "net_conn_bgwork")
        J_.check(len(h) == 1, "hand", p, "hands the work over %d times" % len(h))
        for e in h:
            obj = strip(e.args[3])
            wk, dn = fnof(prog, F, e.args[1]), fnof(prog, F, e.args[2])
            if obj.k != "new":
                R.unknown += 1
                continue
            st = ptrstores(p, obj, idx(p.ev, e))
            for k, nm in ((0, "connection"), (1, "work"), (2, "end of the work"), (3, "data")):
                o = [o for o, (v, x) in st.items() if v is mk("p", k)]
                J_.check(len(o) == 1 or (None if o else False), "field%d" % k, p, "does not hand over the %s" % nm, e)
                if o:
                    at.setdefault(k, set()).add(o[0])
            r = res(p, e)
            fr = [x for x in p.ev if x.name in FREE and strip(x.args[0]) is obj]
            v = strip(p.ret) if p.ret is not None else None
            if zero(r):
                J_.check(len(fr) == 1, "failfree", p, "gives up its memory %d times when the work could not be handed over" % len(fr), e)
                J_.check(v.a[0] & 1 == 0 if v is not None and isc(v) else None, "failret", p, "reports work as handed over that was not", e)
            elif nonzero(r):
                J_.check(not fr, "kept", p, "gives up the memory of work that is running", fr[0] if fr else None)
                J_.check(v.a[0] & 1 == 1 if v is not None and isc(v) else None, "okret", p, "reports work as not handed over although it is running", e)
            else:
                J_.check(False if not any(x.k == "call" and x.a[0] == e.I.id for t in p.facts for x in walk(t)) and not (v is not None and mentions(v, lambda x: x.k == "call" and x.a[0] == e.I.id)) else None,
                         "unchecked", p, "does not look whether the work could be handed over", e)
    at = {k: next(iter(v)) for k, v in at.items() if len(v) == 1}
    if wk is not None:
        J_ = J(prog, R, wk, LOOP)
        for p in J_.paths:
            c = indirects(p)
            J_.check(len(c) == 1, "once", p, "does the work %d times" % len(c), c[-1] if c else None)
            for e in c:
                callback(J_, p, e, mk("p", len(wk.params) - 1), at.get(1), {0: at.get(3)})
    if dn is not None:
        J_ = J(prog, R, dn, LOOP)
        obj = mk("p", len(dn.params) - 1)
        for p in J_.paths:
            c = indirects(p)
            J_.check(len(c) == 1, "done", p, "ends the work %d times" % len(c), c[-1] if c else None)
            for e in c:
                callback(J_, p, e, obj, at.get(2), {0: at.get(0), 1: at.get(3)})
            fr = [x for x in p.ev if x.name in FREE and strip(x.args[0]) is obj]
            J_.check(len(fr) == 1, "free", p, "gives up the memory of the work %d times" % len(fr), fr[-1] if fr else None)
            for f in fr:
                J_.check(all(idx(p.ev, e) < idx(p.ev, f) for e in c), "order", p, "gives up the memory of the work before its end", f)


def callback(J_, p, e, obj, fo, ao):
    """an indirect call e of the function at offset fo of obj with the fields at offsets ao as arguments"""
    t = [a for a in e.args if isinstance(a, T)]
    fp = None
    args = list(e.args)
    os_ = [offs_ld(a, obj) for a in args]
    if fo is not None:
        J_.check(fo in os_ if all(o is not None for o in os_) else True if fo in os_ else None, "which", p, "calls another function than the one handed over", e)
    for k, o in ao.items():
        if o is not None and fo in os_:
            rest = [x for x in os_]
            rest.remove(fo)
            J_.check(rest[k] == o if k < len(rest) and rest[k] is not None else None, "arg%d" % k, p, "calls it with something else than was handed over", e)


def netbg(prog, R):
    F = func(prog, "net_conn_bgwork", "net.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, LOOP, copies=True)
    bgf = ("struct.net_conn", "bgctx")
    at = {}
    wk = None
    for p in J_.paths:
        cr = evs(p, "pthread_create")
        v = strip(p.ret) if p.ret is not None else None
        rv = v.a[0] & 1 if v is not None and isc(v) else None
        if not cr:
            J_.check(rv == 0 if rv is not None else None, "refused", p, "reports work as handed over that nobody does")
            J_.check(len(evs(p, "delread")) <= len(evs(p, "addread")), "stays", p, "takes a connection out of the event loop for nothing")
            continue
        J_.check(len(cr) == 1, "one", p, "starts two threads", cr[-1])
        e = cr[0]
        i = idx(p.ev, e)
        wk = fnof(prog, F, e.args[2])
        bg = [p.range(t) for t in p.facts if ldfield(t, prog) == bgf]
        J_.check(True if any(zero(r) for r in bg) else False if not bg else None, "busy", p, "begins work for a connection that has work running", e)
        cl = [p.range(t) for t in p.facts if ldfield(t, prog) == ("struct.net_conn", "closed")]
        J_.check(True if any(zero(r) for r in cl) else False if not cl else None, "closed", p, "begins work for a closed connection", e)
        dl, fl = evs(p, "delread", p.ev[:i]), [x for x in p.ev[:i] if x.name in ("flush_conn", "write", "tls_write")]
        J_.check(len(dl) == 1, "delread", p, "leaves the connection in the event loop while its work runs" if not dl else "takes it out twice", e)
        J_.check(True if fl else False, "flush", p, "does not send the answers before the work", e)
        obj = strip(e.args[3])
        st = ptrstores(p, obj, i) if obj.k == "new" else {}
        if obj.k == "new":
            for k, nm in ((0, "connection"), (1, "work"), (2, "end of the work"), (3, "data")):
                o = [o for o, (x, _) in st.items() if x is mk("p", k)]
                late = [x for x in p.ev[i:] if x.name == "=" and offs(x.args[0], obj) is not None and strip(x.args[1]) is mk("p", k)]
                J_.check(False if not o else len(o) == 1 or None, "field%d" % k, p, "starts the thread before it can see the %s" % nm if late else "does not hand over the %s" % nm, late[0] if late else e)
                if o:
                    at.setdefault(k, set()).add(o[0])
            sb = [x for x in stores(p, prog, *bgf)]
            J_.check(True if sb and idx(p.ev, sb[0]) < i and strip(sb[0].args[1]) is obj else False if not sb else None, "bgctx", p, "does not note that work is running", e)
            fr = [x for x in p.ev if x.name in FREE and strip(x.args[0]) is obj]
            r = res(p, e)
            if zero(r):
                J_.check(not fr and (not sb or strip(sb[-1].args[1]) is obj), "running", p, "forgets work that is running", fr[0] if fr else sb[-1] if sb else e)
                J_.check(rv == 1 if rv is not None else None, "okret", p, "reports work as not handed over although it is running", e)
                de = evs(p, "pthread_detach")
                J_.check(len(de) == 1 if strip(e.args[0]).k == "al" else None, "detach", p, "never lets the thread go", e)
                ar = evs(p, "addread")
                J_.check(not ar, "back", p, "puts the connection back into the event loop while its work runs", ar[0] if ar else None)
            elif nonzero(r):
                J_.check(len(fr) == 1, "failfree", p, "gives up its memory %d times when no thread could be started" % len(fr), e)
                J_.check(bool(sb) and same(sb[-1].args[1], ZERO), "failbg", p, "a connection whose work could not be started keeps waiting for it", e)
                J_.check(len(evs(p, "addread", p.ev[i:])) == 1, "failback", p, "a connection whose work could not be started is not put back into the event loop", e)
                J_.check(rv == 0 if rv is not None else None, "failret", p, "reports work as handed over that was not", e)
            else:
                J_.check(False if not any(x.k == "call" and x.a[0] == e.I.id for t in p.facts for x in walk(t)) else None, "unchecked", p, "does not look whether a thread could be started", e)
    at = {k: next(iter(v)) for k, v in at.items() if len(v) == 1}
    if wk is not None:
        J_ = J(prog, R, wk, LOOP)
        obj = mk("p", 0)
        for p in J_.paths:
            c = indirects(p)
            J_.check(len(c) == 1, "once", p, "calls %d functions for one piece of work" % len(c), c[-1] if c else None)
            aw = evs(p, "addwrite")
            J_.check(len(aw) == 1, "signal", p, "tells the event loop %d times that the work is done" % len(aw), aw[-1] if aw else None)
            for e in c:
                callback(J_, p, e, obj, at.get(1), {0: at.get(3)})
                J_.check(all(idx(p.ev, e) < idx(p.ev, x) for x in aw), "after", p, "tells the event loop that work is done before it is", aw[0] if aw else None)
            for x in aw:
                post = [y for y in p.ev[idx(p.ev, x) + 1:] if y.name in FREE or y.name == "="]
                J_.check(not post, "touch", p, "touches the work after the event loop may have ended it", post[0] if post else None)
    F = func(prog, "qattach", "net.c")
    if F is not None:
        J_ = J(prog, R, F, LOOP)
        queues = ("nqcloses", "nqins", "nqreads", "nqouts")
        for p in J_.iters:
            seg = p.segment()
            c = indirects(p, seg)
            if not c and not any(e.name in FREE for e in seg):
                continue
            J_.check(len(c) == 1, "done", p, "ends work %d times" % len(c), c[-1] if c else None)
            for e in c:
                os_ = {}
                for a in e.args:
                    s = strip(a)
                    if s.k == "ld":
                        for o, k in ((at.get(1), "work"), (at.get(2), "done"), (at.get(3), "data")):
                            b = linz(s.a[1])
                            if b and o is not None and b[0] == o and len(b[1]) == 1 and ldfield(next(iter(b[1])), prog) == bgf:
                                os_[k] = a
                if 2 in at:
                    J_.check("done" in os_ or (False if "work" in os_ else None), "which", p, "does the work once more instead of ending it", e)
            bs = [x for x in stores(p, prog, *bgf, seg=seg)]
            J_.check(True if bs and same(bs[-1].args[1], ZERO) else False if not bs else None, "clear", p, "a connection whose work has ended still counts as working", c[0] if c else None)
            fr = [x for x in seg if x.name in FREE and ldfield(x.args[0], prog) == bgf]
            J_.check(len(fr) == 1 or (None if any(x.name in FREE for x in seg) else False), "free", p, "does not give up the memory of the work", c[0] if c else None)
            for f in fr:
                J_.check(all(idx(seg, e) < idx(seg, f) for e in c), "early", p, "gives up the memory of the work before its end", f)
            dw, ar = evs(p, "delwrite", seg), evs(p, "addread", seg)
            J_.check(len(dw) == 1, "delwrite", p, "does not stop waiting for the end of the work", c[0] if c else None)
            J_.check(len(ar) == 1, "addread", p, "does not read from the connection again" if not ar else "reads twice", c[0] if c else None)
            qs = [x for x in stores(p, prog, "struct.qthreadctx", seg=seg) if fieldof(prog, x.args[0])[1] in queues]
            fl = [x for x in seg if x.name in ("flush_conn", "write", "tls_write")]
            qn = [fieldof(prog, x.args[0])[1] for x in qs]
            J_.check(True if fl or "nqouts" in qn else False, "flush", p, "never sends the answer of the work", c[0] if c else None)
            J_.check(len(qs) == 1, "queue", p, "loses the connection" if not qs else "takes up the connection twice", qs[-1] if qs else c[0] if c else None)
            if len(qs) == 1:
                J_.check(qn[0] != "nqreads", "pending", p, "reads on before the requests that were already received are carried out: they are lost if there is nothing more to read", qs[0])
                cl = [p.range(t) for t in p.facts if ldfield(t, prog) == ("struct.net_conn", "closed")]
                if cl and nonzero(cl[-1]):
                    J_.check(qn[0] in ("nqcloses", "nqouts"), "close", p, "keeps a closed connection", qs[0])
                elif cl and zero(cl[-1]):
                    J_.check(qn[0] != "nqcloses", "open", p, "closes a connection because its work has ended", qs[0])
    for nm in ("qprocess", "qaccept"):
        F = func(prog, nm, "net.c")
        if F is None:
            continue
        J_ = J(prog, R, F, LOOP)
        for p in J_.iters:
            seg = p.segment()
            qs = [x for x in stores(p, prog, "struct.qthreadctx", seg=seg) if fieldof(prog, x.args[0])[1] in ("nqcloses", "nqins", "nqreads", "nqouts", "nqattachs")]
            bg = [p.range(t) for t in p.facts if ldfield(t, prog) == bgf]
            for x in qs:
                q = fieldof(prog, x.args[0])[1]
                if q == "nqattachs":
                    J_.check(bool(bg) and nonzero(bg[-1]) if bg else False, "attach", p, "ends the work of a connection that has none", x)
                else:
                    J_.check(True if bg and zero(bg[-1]) else False if not bg or nonzero(bg[-1]) else None, "working", p, "takes up a connection whose work is still running", x)
            if bg and nonzero(bg[-1]) and nm == "qaccept":
                J_.check(any(fieldof(prog, x.args[0])[1] == "nqattachs" for x in qs), "noticed", p, "never ends the work of a connection")
