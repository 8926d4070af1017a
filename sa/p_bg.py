"""C33: memory pressure, clock and background sweeping."""
import ir
from gensim import *
from semlib import isglobal, iscall
from p_save import evs, idx, truthv
from p_sem import ASSUME

EXPLAIN = {}
MEM = "low-memory mode follows the memory in use"
SWEEP = "expired entries are swept in the background, by the present time"
CLOCK = "times are nanoseconds of a clock that is never set back, memory is bytes in use"


def C33(prog, R, tier):
    EXPLAIN["C33"] = "all paths of the memory and the sweep thread, of the functions that start them and of the functions that read the clock and the memory in use"
    mem(prog, R)
    sweeper(prog, R)
    started(prog, R)
    clock(prog, R)
    rss(prog, R)


def gl(A):
    return A.a[0].split(":")[-1] if A.k == "g" else None


def rel(p, a, b):
    """what the path knows about a - b: (low, high)"""
    lo, hi = None, None
    for pred, x, y, v, t in cmpfacts(p):
        sx = a(x), b(x), a(y), b(y)
        if sx[0] and sx[3]:
            s = 1
        elif sx[1] and sx[2]:
            s = -1
        else:
            continue
        if pred in ("slt", "ult"):
            # s*(a-b) < 0 is v
            if (s == 1) == v:
                m = -1 if v else 0
                hi = m if hi is None else min(hi, m)
            else:
                m = 0 if not v else 1
                lo = m if lo is None else max(lo, m)
        elif pred == "eq" and v:
            lo = hi = 0
    return lo, hi


def mem(prog, R):
    F = func(prog, "memticker", "main.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, MEM, mods=("main.c",))

    def used(t):
        return iscall(strip(t), "xrss")

    def limit(t):
        return isglobal(t, "memlimit")
    for p in J_.iters:
        seg = p.segment()
        st = [e for e in seg if e.name == "=" and gl(e.args[0]) == "lowmem"]
        rd = evs(p, "xrss", seg)
        for e in st:
            v = strip(e.args[1])
            if not isc(v):
                R.unknown += 1
                continue
            lo, hi = rel(p, used, limit)
            if not rd:
                J_.check(False, "stale", p, "switches low-memory mode without reading the memory in use", e)
            elif v.a[0]:
                J_.check(True if lo is not None and lo >= 0 else False if hi is not None and hi < 0 or (lo is None and hi is None and not odd(p)) or hi == 0 and lo is None else None, "on", p,
                         "switches low-memory mode on although the limit is not reached", e)
            else:
                J_.check(True if hi is not None and hi <= 0 else False if lo is not None and lo > 0 or (lo is None and hi is None and not odd(p)) or lo == 0 and hi is None else None, "off", p,
                         "switches low-memory mode off although the limit is passed", e)
        if rd and not st:
            lo, hi = rel(p, used, limit)
            cur = [t for t in p.facts if isglobal(t, "lowmem")]
            known = truthv(p, cur[0]) if cur else None
            if lo is not None and lo > 0:
                J_.check(True if known is True else False if known is False else None, "on-missed", p, "the limit is passed and low-memory mode stays off", rd[0])
            elif hi is not None and hi < 0:
                J_.check(True if known is False else False if known is True else None, "off-missed", p, "memory is below the limit and low-memory mode stays on", rd[0])
            elif lo is None and hi is None:
                lim = nolimit(p, limit)
                vague = any(used(x) and limit(y) or used(y) and limit(x) for pred, x, y, v, t in cmpfacts(p))
                J_.check(True if lim is not False else False if not odd(p) and not vague else None, "compared", p, "the memory in use is not compared with the limit", rd[0])
        if not rd and not st:
            on = [t for t in p.facts if isglobal(t, "loaded")]
            if on:
                J_.check(True if truthv(p, on[0]) is False else None, "idle", p, "")
        J_.check(any(e.name in ("sleep", "usleep", "nanosleep") for e in seg) or None, "sleeps", p, "")
    J_.check(not J_.paths or None, "runs", J_.iters[0] if J_.iters else None, "") if J_.iters else None
    for p in J_.paths:
        J_.check(False if not any(e.name in ("exit", "abort", "*indirect*") for e in p.ev) else None, "ends", p, "the memory thread ends")


def nolimit(p, limit):
    """does the path know that there is no limit? (True, False, None)"""
    for pred, x, y, v, t in cmpfacts(p):
        for a, b, first in ((x, y, True), (y, x, False)):
            if limit(a) and isc(strip(b)):
                if strip(b).a[0] in (-1, 2**64 - 1):
                    if pred == "eq":
                        return v
                    return not v if first else v
    return None


def odd(p):
    """comparisons this check does not understand"""
    return any(t.k in ("fcmp", "pure") or t.k == "cmp" and any(x.k in ("cast", "phi") or x.k == "bin" for x in walk(t)) for t in p.facts)


def sweeper(prog, R):
    F = func(prog, "autosweepticker", "main.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, SWEEP, mods=("main.c",))
    sw = False
    for p in J_.iters:
        seg = p.segment()
        for op, st, n in (("pogocache_sweep_poll", "pogocache_sweep_poll_opts", 1), ("pogocache_sweep", "pogocache_sweep_opts", 3)):
            for e in evs(p, op, seg):
                if op == "pogocache_sweep":
                    sw = True
                o = optcell(prog, e, n, st, "time")
                if o is None:
                    R.unknown += 1
                    continue
                v = strip(o)
                now = [x for x in p.ev if x.name == "sys_now" and x.res is v]
                kept = [b for a, b in p.phis.values() if a is not None and strip(a) is v]
                if kept and kept[0] is not None and strip(kept[0]) is v:
                    J_.check(False, op + "-time", p, "sweeps by the time of an earlier turn instead of the present time", e)
                    continue
                fresh = now and any(x is now[0] for x in seg)
                J_.check(True if fresh else False if isc(v) or now or iscall(v, "sys_unixnow") else None, op + "-time", p,
                         "sweeps by %s instead of the present time" % ("the time of the start" if now else show(v)), e)
                if st.endswith("poll_opts"):
                    z = optcell(prog, e, n, st, "pollsize")
                    if z is not None and isc(strip(z)):
                        J_.check(strip(z).a[0] > 0, "pollsize", p, "looks at no entry", e)
                else:
                    z = optcell(prog, e, n, st, "oneshard")
                    if z is not None and isc(strip(z)):
                        J_.check(strip(z).a[0] == 0, "allshards", p, "sweeps one part of the cache only", e)
        po, s = evs(p, "pogocache_sweep_poll", seg), evs(p, "pogocache_sweep", seg)
        if po and not p.joined:
            f = [t for t in p.facts if any(x is po[0].res for x in walk(t)) and t.k == "fcmp"]
            if len(f) == 1 and len(po) == 1:
                v = p.truth(f[0])
                v = truthv(p, f[0]) if v is None else v
                if v is None:
                    lo, hi, ex = p.range(f[0])
                    v = lo == hi == 1 if lo == hi else None
                o = f[0].a[0]
                if v is not None and o in ("ogt", "oge", "ugt", "uge", "olt", "ole", "ult", "ule"):
                    left = any(x is po[0].res for x in walk(f[0].a[1]))
                    many = (o[1] == "g") == left
                    J_.check(bool(s) == (v == many), "when", p, "sweeps only while few entries have expired" if s else "does not sweep although many entries have expired", po[0])
            elif not f and s:
                J_.check(None, "when", p, "")
    if J_.iters and not any(prog.isnew(x) for x in prog.mods["main.c"].funcs.values()):
        J_.check(sw, "sweeps", J_.iters[0], "never sweeps the cache")
    for p in J_.paths:
        J_.check(False if not any(e.name in ("exit", "abort", "*indirect*") for e in p.ev) else None, "ends", p, "the sweep thread ends")


def site(F, name):
    return [I for I in F.insts() if I.op == "call" and I.callee and I.callee[0] == "f" and I.callee[1].split(":")[-1] == name]


def started(prog, R):
    M = prog.mods.get("main.c")
    F = M and M.funcs.get("main")
    if F is None:
        R.unknown += 1
        return
    R.analysed(F)
    where = {}
    for bid, B in F.blocks.items():
        for k, I in enumerate(B.insts):
            where[I.id] = (bid, k)
    if not hasattr(F, "idom"):
        ir.cfg(F)

    def dom(a, b):
        (x, i), (y, j) = where[a.id], where[b.id]
        return i < j if x == y else ir.dominates(F, x, y)
    net = site(F, "net_main")
    if len(net) != 1:
        R.unknown += 1
        return
    for th, always in (("memticker", True), ("autosweepticker", False)):
        st = site(F, "start_" + th)
        S = func(prog, "start_" + th, "main.c")
        direct = [I for I in site(F, "pthread_create") if any(o and o[0] == "f" and o[1].split(":")[-1] == th for o in I.a)]
        if S is None or direct:
            R.unknown += 1
            continue
        users = [G for X in prog.mods.values() for G in X.funcs.values() if G is not F and site(G, "start_" + th)]
        if not st:
            if users:
                R.unknown += 1
            else:
                R.bad(MEM if always else SWEEP, "main|%s" % th, "%s:%s" % (F.file, net[0].line), "main: the thread %s is never started" % th, [])
            continue
        d = any(dom(x, net[0]) for x in st)
        if always:
            if d:
                R.ok(MEM, "main " + th)
            elif len(st) == 1 and not users:
                R.bad(MEM, "main|%s" % th, "%s:%s" % (F.file, st[0].line), "main: the server can run without the thread %s" % th, [])
            else:
                R.unknown += 1
        else:
            after = [x for x in st if dom(net[0], x)]
            if len(after) == len(st):
                R.bad(SWEEP, "main|%s" % th, "%s:%s" % (F.file, st[0].line), "main: the thread %s starts only when the server has ended" % th, [])
            else:
                R.ok(SWEEP, "main " + th)
        J_ = J(prog, R, S, MEM if always else SWEEP, mods=("main.c",))
        for p in J_.paths:
            c = evs(p, "pthread_create")
            J_.check(len(c) == 1 if not evs(p, "exit") and not evs(p, "abort") else None, "created", p, "starts %d threads" % len(c), c[-1] if c else None)
            for e in c:
                f = [a for a in e.args if a.k in ("f", "g") and a.a[0].split(":")[-1] in M.funcs]
                if f:
                    n = f[0].a[0].split(":")[-1]
                    J_.check(n == th if not prog.isnew(M.funcs[n]) else None, "which", p, "starts the thread %s" % n, e)


NEVERBACK = (1, 4, 6, 7)


def clock(prog, R):
    for nm, real in (("sys_now", False), ("sys_unixnow", True)):
        F = func(prog, nm, "sys.c")
        if F is None:
            R.unknown += 1
            continue
        J_ = J(prog, R, F, CLOCK, mods=("sys.c",))
        for p in J_.paths:
            c = evs(p, "clock_gettime")
            if len(c) != 1:
                R.unknown += 1
                continue
            k = strip(c[0].args[0])
            if isc(k):
                J_.check(k.a[0] in (0, 5, 8) if real else k.a[0] in NEVERBACK, "clock", p,
                         "reads a clock that does not tell the time of day" if real else "reads a clock that can be set back or stands still (%d)" % k.a[0], c[0])
            d = linz(p.ret) if p.ret is not None else None
            if d is None:
                R.unknown += 1
                continue
            w = {}
            for a, m in d[1].items():
                f = (ldfield(a, prog) or ("", ""))[1]
                if f in ("tv_sec", "tv_nsec"):
                    w[f] = m
                elif a.k == "bin" and a.a[0] == "mul":
                    x, y = strip(a.a[1]), strip(a.a[2])
                    if isc(y) and (ldfield(x, prog) or ("", ""))[1] in ("tv_sec", "tv_nsec"):
                        w[ldfield(x, prog)[1]] = m * y.a[0]
                    else:
                        w[None] = 1
                else:
                    w[None] = 1
            if None in w:
                R.unknown += 1
                continue
            J_.check(w == {"tv_sec": 10**9, "tv_nsec": 1} and d[0] == 0, "nanoseconds", p,
                     "is not the number of nanoseconds: %s" % ", ".join("%s*%d" % x for x in sorted(w.items())), c[0])


def rss(prog, R):
    F = func(prog, "xrss", "xmalloc.c")
    if F is not None:
        J_ = J(prog, R, F, CLOCK, mods=("xmalloc.c",))
        for p in J_.paths:
            f = ldfield(strip(p.ret), prog) if p.ret is not None else None
            J_.check(f[1] == "rss" if f else None, "rss", p, "reports %s as the memory in use" % (f[1] if f else ""))
    F = func(prog, "sys_getmeminfo", "sys.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, CLOCK, mods=("sys.c",))
    for p in J_.paths:
        sc = [e for e in p.ev if e.name.endswith("fscanf") or e.name.endswith("sscanf")]
        pg = [e for e in p.ev if e.name in ("sysconf", "getpagesize")]
        if len(sc) != 1 or not pg:
            R.unknown += 1
            continue
        fmt = sc[0].args[1]
        s = prog.string(fmt.a[0]) if fmt.k == "g" else None
        if s is None or s.split() not in (["%lu", "%lu"], ["%ld", "%ld"], ["%*lu", "%lu"]) or "*" in s:
            R.unknown += 1
            continue
        second = sc[0].args[3]
        first = sc[0].args[2]
        for e in p.ev:
            if e.name != "=" or (fieldof(prog, e.args[0]) or ("", ""))[1] != "rss":
                continue
            v = strip(e.args[1])
            t = list(walk(v))
            a2 = any(x.k == "ld" and x.a[1] is second for x in t)
            a1 = any(x.k == "ld" and x.a[1] is first for x in t)
            J_.check(a2 and not a1 if a1 or a2 else None, "resident", p, "takes the size of the address space for the memory in use", e)
            mulp = any(x is pg[0].res for x in t)
            lo, hi, ex = p.range(pg[0].res)
            J_.check((True if mulp else False if hi > 0 else None) if a1 or a2 else None, "pages", p, "takes pages for bytes", e)
        f = evs(p, "fopen")
        J_.check(len(evs(p, "fclose")) == len(f) if f else None, "closed", p, "leaves /proc/self/statm open", f[0] if f else None)
