"""C23: STATS reports what happened."""
import re
from gensim import *
from cmdsim import command_table
from p_save import evs, idx, truthv
from p_sem import ASSUME

EXPLAIN = {}
COUNT = "every operation is counted by its outcome, once"
WIRE = "a counter's name, its increments and its report belong together"

FOUND, NOTFOUND, DELETED, NOMEM = 3, 4, 5, 8


def consts(prog):
    pass


# command: (operation, counter family, counter of the attempts)
READS = {"get": ("pogocache_load", "get", "stat_cmd_get"), "mget": ("pogocache_load", "get", "stat_cmd_get"), "mgets": ("pogocache_load", "get", "stat_cmd_get"),
         "ttl": ("pogocache_load", "get", None), "pttl": ("pogocache_load", "get", None), "del": ("pogocache_delete", "delete", None),
         "touch": ("pogocache_load", "touch", "stat_cmd_touch")}


def C23(prog, R, tier):
    EXPLAIN["C23"] = ("the path of every counting command from its engine operation to its counters; the accessors and increments of every counter; "
                      "every line STATS writes")
    rows = dict(command_table(prog))
    done = set()
    for n, (op, fam, tries) in READS.items():
        F = rows.get(n)
        if F is None or F.key in done:
            continue
        done.add(F.key)
        reads(prog, R, F, op, fam, tries)
    stores_(prog, R)
    incr(prog, R)
    auth(prog, R, rows.get("auth"))
    flush(prog, R)
    wiring(prog, R)
    lines(prog, R)


def outcome(p, e, good):
    """True: the operation found its entry, False: it did not, None: not known"""
    lo, hi, ex = p.range(e.res)
    if lo == hi:
        return lo == good
    if good in ex or lo > good or hi < good:
        return False
    if good == FOUND and NOTFOUND in ex:
        return True
    return None


def opaque(prog, seg):
    """calls that may count on their own"""
    return any(e.name == "*indirect*" for e in seg)


def reads(prog, R, F, op, fam, tries):
    J_ = J(prog, R, F, COUNT, mods=("cmds.c",))
    good = DELETED if op == "pogocache_delete" else FOUND
    H, M = "stat_%s_hits_incr" % fam, "stat_%s_misses_incr" % fam
    for p in list(J_.iters) + list(J_.paths):
        it = p.kind == "iter"
        seg = p.segment() if it else p.ev
        if not it and any(e.name == "L" for e in seg):
            # the turns of a loop are judged one by one; what comes after it must not count again
            k = max(i for i, e in enumerate(seg) if e.name == "L")
            tail = seg[k:]
            for nm in (H, M):
                for e in evs(p, nm, tail):
                    J_.check(None if any(x.name == op for x in tail) else False if any(evs(q, op, q.segment()) for q in J_.iters) else None,
                             "again", p, "counts again after all keys were handled", e)
            continue
        ops = evs(p, op, seg)
        h, m = evs(p, H, seg), evs(p, M, seg)
        if not ops:
            if not opaque(prog, seg):
                J_.check(not h and not m, "nothing", p, "counts a %s although no key was looked up" % ("hit" if h else "miss"), (h or m or [None])[0])
            continue
        if len(ops) > 1 or opaque(prog, seg):
            R.unknown += 1
            continue
        e = ops[0]
        s = outcome(p, e, good)
        if s is None:
            # the counters do not depend on the outcome
            if len(h) + len(m) != 1 or not mentionsres(p, e):
                J_.check(False if len(h) + len(m) != 1 else None, "outcome", p, "counts %d hits and %d misses for one key" % (len(h), len(m)), e)
            else:
                J_.check(None, "outcome", p, "")
            continue
        want = (1, 0) if s else (0, 1)
        J_.check((len(h), len(m)) == want, "outcome", p, "counts %d hits and %d misses for a key that was %s" % (len(h), len(m), "found" if s else "not found"), e)
        others = [x for x in seg if x.name.startswith("stat_") and x.name.endswith(("_hits_incr", "_misses_incr")) and x.name not in (H, M)]
        J_.check(not others, "family", p, "counts under the name of another operation", others[0] if others else None)
        if tries:
            t = evs(p, tries + "_incr", seg)
            J_.check(len(t) == 1, "tries", p, "counts %d operations instead of one" % len(t), e)


def mentionsres(p, e):
    return any(any(x is e.res for x in walk(t)) for t in p.facts)


def stores_(prog, R):
    """running out of memory is counted where the store is refused for it, and nowhere else"""
    for M in prog.mods.values():
        if M.name != "cmds.c":
            continue
        for F in M.funcs.values():
            if F.name.startswith("sa_") or not any(calls(I) == "pogocache_store" for I in F.insts()):
                continue
            J_ = J(prog, R, F, COUNT, mods=("cmds.c",) if F.name == "execSET" else ())
            for p in J_.paths + J_.iters:
                seg = p.segment() if p.kind == "iter" else p.ev
                st = evs(p, "pogocache_store", seg)
                c = evs(p, "stat_store_no_memory_incr", seg)
                if not st:
                    J_.check(not c or None, "no-memory", p, "", None)
                    continue
                rs = [outcome(p, e, NOMEM) for e in st]
                if True in rs:
                    J_.check(len(c) == 1, "no-memory", p, "a store refused for lack of memory is counted %d times" % len(c), st[-1])
                elif all(r is False for r in rs):
                    J_.check(not c, "no-memory", p, "a store that succeeded is counted as refused for lack of memory", c[0] if c else None)
            if F.name == "execSET":
                for p in J_.paths:
                    c = evs(p, "stat_cmd_set_incr")
                    if evs(p, "pogocache_store"):
                        J_.check(len(c) == 1, "set-tries", p, "counts %d operations instead of one" % len(c), evs(p, "pogocache_store")[0])


def calls(I):
    return I.callee[1].split(":")[-1] if I.op == "call" and I.callee and I.callee[0] == "f" else None


def is_reply_err(e):
    return e.name == "conn_write_error"


def incr(prog, R):
    F = func(prog, "execINCRDECR", "cmds.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, COUNT, mods=())
    pi = None
    names = ("stat_incr_hits_incr", "stat_incr_misses_incr", "stat_decr_hits_incr", "stat_decr_misses_incr")
    for p in J_.paths:
        c = [e for e in p.ev if e.name in names]
        ld, st = evs(p, "pogocache_load"), evs(p, "pogocache_store")
        if len(ld) != 1:
            R.unknown += 1
            continue
        J_.check(len(c) <= 1, "incr-once", p, "counts one operation %d times" % len(c), c[-1] if c else None)
        f = outcome(p, ld[0], FOUND)
        for e in c:
            if e.name.endswith("hits_incr"):
                ok = bool(st) and not any(outcome(p, x, NOMEM) for x in st)
                J_.check(ok, "incr-hit", p, "counts a hit although no value was stored", e)
            else:
                J_.check(f is False or (None if f is None else False), "incr-miss", p, "counts a miss although the key was found", e)
        if not st and f is False and not c:
            J_.check(None if any(is_reply_err(x) for x in p.ev) else False, "incr-miss", p, "a key that was not found is not counted as a miss", ld[0])
        if st and all(outcome(p, x, NOMEM) is False for x in st):
            J_.check(bool(c), "incr-hit", p, "a stored value is not counted", st[-1])
    # which of the two: the parameter under which the path subtracts is the one that says decrement
    for i in range(len(F.params)):
        t = mk("p", i)

        def side(p):
            v = p.truth(t)
            return truthv(p, t) if v is None else v
        way = {(side(p), e.name.split(".")[1][1:]) for p in J_.paths for e in p.ev if e.name.startswith("llvm.") and ".with.overflow" in e.name}
        if len(way) != 2 or any(v is None for v, w in way) or {w for v, w in way} != {"add", "sub"}:
            continue
        down = next(v for v, w in way if w == "sub")
        if any(v == down for v, w in way if w == "add"):
            continue
        for p in J_.paths:
            for e in p.ev:
                if e.name in names:
                    v = side(p)
                    J_.check(None if v is None else (v == down) == e.name.startswith("stat_decr"), "incr-direction", p,
                             "counts %s" % ("a decrement as an increment" if e.name.startswith("stat_incr") else "an increment as a decrement"), e)


def auth(prog, R, F):
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, COUNT, mods=("cmds.c",))
    for p in J_.paths:
        if opaque(prog, p.ev):
            continue
        c, e = evs(p, "stat_auth_cmds_incr"), evs(p, "stat_auth_errors_incr")
        J_.check(len(c) == 1, "auth-tries", p, "counts one authentication %d times" % len(c))
        g = [x for x in evs(p, "conn_setauth")]
        if len(g) == 1 and isc(strip(g[0].args[1])):
            ok = strip(g[0].args[1]).a[0] != 0
        elif not g:
            ok = False
        else:
            continue
        J_.check(len(e) == (0 if ok else 1), "auth-errors", p, "counts a successful authentication as failed" if ok else "counts a failed authentication %d times" % len(e))


def flush(prog, R):
    F = func(prog, "flush_work", "cmds.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, COUNT, mods=())
    for p in J_.paths:
        c = evs(p, "stat_cmd_flush_incr")
        J_.check(len(c) == 1 or None if len(c) == 1 or opaque(prog, p.ev) else False, "flush", p, "counts one flush %d times" % len(c))


# ---------------------------------------------------------------- names
def gname(o):
    return o[1].split(":")[-1] if o and o[0] in ("g", "f") else None


def wiring(prog, R):
    """stat_X() reads what stat_X_incr() adds to"""
    acc, inc = {}, {}
    for M in prog.mods.values():
        for F in M.funcs.values():
            if F.name.startswith("stat_") and not F.name.startswith("stat_printf"):
                (inc if F.name.endswith("_incr") else acc)[F.name] = F
    owner = {}
    for n, A in sorted(acc.items()):
        I = inc.get(n + "_incr")
        if I is None:
            continue
        JA = J(prog, R, A, WIRE, mods=(A.mod.name,))
        src = set()
        for p in JA.paths:
            r = strip(p.ret) if p.ret is not None else None
            if r is not None and r.k == "ld" and r.a[1].k == "g":
                src.add(r.a[1])
            elif r is not None and isc(r):
                JA.check(False, "reads", p, "reports a constant")
            else:
                src.add(None)
        if len(src) != 1 or None in src:
            R.unknown += 1
            continue
        g = src.pop()
        if g in owner and owner[g] != n:
            JA.check(False, "distinct", JA.paths[0], "reports the counter of %s" % owner[g][5:])
        owner[g] = n
        JI = J(prog, R, I, WIRE, mods=(I.mod.name,), rmw=True)
        for p in JI.paths:
            adds = added(p)
            if adds is None:
                net = [e for e in p.ev if e.name.startswith("net_stat_")]
                if len(net) == 1 and not adds:
                    viaconn(prog, R, JI, p, net[0].name, g)
                elif not p.ev:
                    JI.check(False, "adds", p, "does not count")
                else:
                    R.unknown += 1
                continue
            JI.check(adds == [(g, 1)], "adds", p, "adds %s to %s" % (adds[0][1], show(adds[0][0])) if len(adds) == 1 else "does not add exactly one to its own counter")


def added(p):
    """[(global, amount)] the path adds to globals"""
    out = []
    for e in p.ev:
        if e.name in ("rmw", "atomicrmw") or e.name.startswith("rmw"):
            A = e.args[0]
            v = e.args[-1]
            if A.k == "g" and isc(strip(v)):
                n = strip(v).a[0]
                out.append((A, n if e.x == "add" else -n if e.x == "sub" else 0))
        elif e.name == "=" and e.args[0].k == "g":
            d = linz(e.args[1])
            if d and len(d[1]) == 1 and next(iter(d[1])).k == "ld" and next(iter(d[1])).a[1] is e.args[0]:
                out.append((e.args[0], d[0]))
    return out or None


def knownzero(prog, p, fld):
    """the path runs only when there is nothing to collect"""
    return any(ldfield(x, prog) == fld and p.range(x)[:2] == (0, 0) for t in p.facts for x in walk(t))


def viaconn(prog, R, JI, p0, nm, g):
    """the counters of a connection: counted there, collected by the thread, added to the total"""
    N = func(prog, nm)
    if N is None:
        return
    JN = J(prog, R, N, WIRE, mods=(N.mod.name,))
    fld = None
    for p in JN.paths:
        s = [e for e in stores(p, prog) if fieldof(prog, e.args[0])]
        if len(s) != 1:
            JN.check(False if not s and not p.ev else None, "conn-adds", p, "does not count")
            continue
        f = fieldof(prog, s[0].args[0])
        d = linz(s[0].args[1])
        own = d and len(d[1]) == 1 and ldfield(next(iter(d[1])), prog) == f
        JN.check(d[0] == 1 if own else False if isc(strip(s[0].args[1])) else None, "conn-adds", p, "does not add exactly one", s[0])
        fld = f
    if fld is None:
        return
    mid = None
    F = func(prog, "sumstats", "net.c")
    G = func(prog, "sumstats_global", "net.c")
    if F is None or G is None:
        R.unknown += 1
        return
    JF = J(prog, R, F, WIRE, mods=(F.mod.name,))
    for p in JF.paths:
        into = [e for e in p.ev if e.name == "=" and any(ldfield(x, prog) == fld for x in linz(e.args[1])[1])]
        z = [e for e in p.ev if e.name == "=" and fieldof(prog, e.args[0]) == fld and same(e.args[1], ZERO)]
        if not into and knownzero(prog, p, fld):
            continue
        if not into:
            JF.check(False if not opaque(prog, p.ev) and not [e for e in p.ev if e.name not in ("=", "L", "X")] else None, "collected", p, "%s is not collected" % fld[1])
            continue
        JF.check(len(into) == 1 or None, "collected", p, "")
        d = linz(into[0].args[1])
        mid = fieldof(prog, into[0].args[0])
        JF.check(d[0] == 0 and all(v == 1 for v in d[1].values()) and any(ldfield(x, prog) == mid for x in d[1]) if mid else None, "collected-sum", p,
                 "%s is not added to what the thread has collected" % fld[1], into[0])
        JF.check(bool(z), "collected-once", p, "%s is collected again the next time" % fld[1], into[0])
    if mid is None:
        return
    JG = J(prog, R, G, WIRE, mods=(G.mod.name,), rmw=True)
    for p in JG.paths:
        if knownzero(prog, p, mid):
            continue
        r = [e for e in p.ev if e.name.startswith("rmw") and any(ldfield(x, prog) == mid for x in linz(e.args[-1])[1])]
        if not r:
            JG.check(False if any(e.name.startswith("rmw") for e in p.ev) else None, "total", p, "%s is not added to the total" % mid[1])
            continue
        JG.check(len(r) == 1 and r[0].args[0] is g, "total", p, "%s is added to the total of another counter" % mid[1], r[0])
        z = [e for e in p.ev if e.name == "=" and fieldof(prog, e.args[0]) == mid and same(e.args[1], ZERO)]
        JG.check(bool(z), "total-once", p, "%s is added again the next time" % mid[1], r[0])
    # collected after every turn in which commands ran
    Q = func(prog, "qprocess", "net.c")
    if Q is not None:
        JQ = J(prog, R, Q, WIRE, mods=(), keep=("sumstats",))
        for p in JQ.iters:
            seg = p.segment()
            run = [i for i, e in enumerate(seg) if e.name == "*indirect*"]
            col = [i for i, e in enumerate(seg) if e.name == "sumstats"]
            if run and not any(prog.isnew(x) for x in prog.mods[Q.mod.name].funcs.values()):
                JQ.check(bool(col) and col[-1] > run[-1], "collects", p, "does not collect the counters of a connection whose commands were run")


SPECIAL = {"curr_connections": "net_nconns", "total_connections": "net_tconns", "rejected_connections": "net_rconns", "curr_items": "pogocache_count",
           "total_items": "pogocache_total", "bytes": "pogocache_size"}


DOCLINES = ("curr_connections", "total_connections", "rejected_connections", "cmd_get", "cmd_set", "cmd_flush", "cmd_touch", "get_hits", "get_misses",
            "delete_misses", "delete_hits", "incr_misses", "incr_hits", "decr_misses", "decr_hits", "touch_hits", "touch_misses", "store_too_large",
            "store_no_memory", "auth_cmds", "auth_errors", "bytes", "curr_items", "total_items")


def whole(F):
    """all lines are written by this one function, each by a call of its own"""
    return sum(calls(I) == "stats_printf" for G in F.mod.funcs.values() for I in G.insts()) == sum(calls(I) == "stats_printf" for I in F.insts())


def lines(prog, R):
    """every line STATS writes"""
    for M in prog.mods.values():
        if M.name != "cmds.c":
            continue
        for F in M.funcs.values():
            if not any(calls(I) == "stats_printf" for I in F.insts()):
                continue
            J_ = J(prog, R, F, WIRE, mods=(), keep=("stats_printf",))
            accs = {G.name for X in prog.mods.values() for G in X.funcs.values() if G.name.startswith("stat_") and not G.name.endswith("_incr")}
            for p in J_.paths:
                names = []
                for e in evs(p, "stats_printf"):
                    f = e.args[1]
                    s = prog.string(f.a[0]) if f.k == "g" else None
                    m = re.match(r"(\w+) %", s or "")
                    if not m:
                        continue
                    n = m.group(1)
                    names.append(n)
                    want = SPECIAL.get(n) or ("stat_" + n if "stat_" + n in accs else None)
                    if want is None or len(e.args) < 3:
                        continue
                    v = strip(e.args[2])
                    got = next((x.name for x in p.ev if x.res is v), None)
                    if got is None and v.k == "call" and len(v.a) > 1:
                        got = v.a[1]
                    J_.check(got == want if got is not None else False if isc(v) else None, "line-" + n, p, "reports %s as %s" % (got or show(v), n), e)
                lp = any(e.name == "L" for e in p.ev)
                if not lp and len(names) > 10 and whole(F):
                    for n in DOCLINES:
                        J_.check(n in names, "line-there-" + n, p, "does not report %s" % n)
                if names and not lp and len(names) > 10:
                    d = sorted({n for n in names if names.count(n) > 1})
                    J_.check(not d, "line-twice", p, "reports %s twice" % ", ".join(d))
