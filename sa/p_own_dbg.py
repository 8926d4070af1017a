"""C41: what a function takes for its own use - memory, descriptors, mutexes - it
gives back exactly once on every path, or hands on."""
from gensim import *
from ir import Broken
from semlib import base
from p_sem import ASSUME
from p_frame import res
from p_save import truthv

EXPLAIN = {}
CAP = 400
LEAK = "what is allocated or opened is given back, kept or handed on, on every path"
TWICE = "what was given back is neither used nor given back again"
LOCK = "a mutex taken is released on every path, and not taken again by its holder"
SKIP = ("lz4.c", "hashmap.c", "pogocache.c", "xmalloc.c", "uring.c", "tls.c")
MEM = {"xmalloc": "memory", "malloc": "memory", "calloc": "memory", "strdup": "memory", "strndup": "memory", "xrealloc": "memory", "realloc": "memory",
       "fopen": "file", "opendir": "directory", "fdopen": "file"}
FD = {"open": "descriptor", "open64": "descriptor", "socket": "descriptor", "accept": "descriptor", "accept4": "descriptor", "dup": "descriptor"}
FREE = {"xfree": (0, "memory"), "free": (0, "memory"), "close": (0, "descriptor"), "fclose": (0, "file"), "closedir": (0, "directory"),
        "xrealloc": (0, "memory"), "realloc": (0, "memory")}
# calls after which the other side may hold on to what it was given
HOLD = {"pthread_create", "epoll_ctl", "kevent", "*indirect*", "dup2", "fdopen", "atexit", "signal", "sigaction", "pthread_setspecific", "fdopendir", "qsort"}
TAKE, GIVE = "pthread_mutex_lock", "pthread_mutex_unlock"


def scope(prog):
    for M in prog.mods.values():
        if M.name not in SKIP:
            for F in M.funcs.values():
                if F.blocks:
                    yield F


_fate = {}
_lost = set()


class None_:
    paths = iters = enters = ()


def sim(prog, F):
    if F.key in _lost or F.name == "main":
        return None_
    try:
        return gsim(prog, F, cap=CAP, copies=True)
    except Broken:
        _lost.add(F.key)
        return None_


def callee(prog, F, e):
    n = e.name
    G = F.mod.funcs.get(n)
    if G is not None and G.blocks:
        return G
    for M in prog.mods.values():
        G = M.funcs.get(n)
        if G is not None and G.blocks and not G.internal:
            return G
    return None


def is_(t, v):
    t = strip(t)
    return t is v or base(t) is v and t.k not in ("ld",) and v.k in ("new", "call", "p", "phi", "ssa")


def fate(prog, G, i, busy=frozenset()):
    """what G does with its parameter i: 'frees' | 'keeps' | 'borrows' | 'mixed'"""
    k = (id(prog), G.key, i)
    if k in _fate:
        return _fate[k]
    if k in busy or G.mod.name in SKIP:
        return "keeps"
    r = sim(prog, G)
    if not r.paths and not r.iters:
        return "keeps"
    out = set()
    for p in list(r.paths) + list(r.iters):
        out.add(pathfate(prog, G, p, lambda t: strip(t).k == "p" and strip(t).a[0] == i, busy | {k}))
    f = "keeps" if "keeps" in out else "borrows" if out == {"borrows"} else "frees" if out == {"frees"} else "mixed"
    _fate[k] = f
    return f


def uses(prog, F, p, pred, busy=frozenset()):
    """(event, 'frees'|'keeps'|'borrows'|'mixed') for the events that are given the value"""
    for e in p.ev:
        if e.name in ("L", "X"):
            if any(isinstance(a, T) and pred(a) for a in e.args):
                yield e, "keeps"
            continue
        if e.name in ("=", "=L"):
            if any(pred(x) for x in walk(e.args[1])):
                yield e, "keeps"
            elif any(pred(x) for x in walk(e.args[0])):
                yield e, "borrows"
            continue
        if e.name == "rmw":
            continue
        for k, a in enumerate(e.args):
            if a is None or not pred(a) and not pred(base(a)):
                continue
            if e.name in FREE and FREE[e.name][0] == k:
                yield e, "frees"
            elif e.name in HOLD:
                yield e, "keeps"
            else:
                G = callee(prog, F, e)
                if G is not None:
                    yield e, fate(prog, G, k, busy)
                else:
                    yield e, "borrows"


def pathfate(prog, F, p, pred, busy=frozenset()):
    o = [f for e, f in uses(prog, F, p, pred, busy)]
    if p.ret is not None and isinstance(p.ret, T) and any(pred(x) for x in walk(p.ret)):
        return "keeps"
    for f in ("keeps", "mixed", "frees"):
        if f in o:
            return f
    return "borrows"


def C41(prog, R, tier):
    EXPLAIN["C41"] = "every path of every function of the server (compression, hash table and storage engine apart): calls that allocate, open, lock, free, close and unlock, and where the results go; what callees do with their parameters is summarised from their own paths"
    fresh = freshfns(prog)
    for F in scope(prog):
        J_ = None
        calls = {S for I in F.insts() if I.op == "call" for S in [cname(F, I)] if S}
        if calls & (set(MEM) | set(FD) | set(FREE) | set(fresh) | {TAKE, GIVE}) or any(prog.isnew(G) for n in calls for G in [F.mod.funcs.get(n)] if G is not None):
            if sim(prog, F) is None_:
                R.unknown += 1
                continue
            J_ = J(prog, R, F, LEAK, cap=CAP, copies=True)
            owned(prog, R, F, J_, fresh)
            twice(prog, R, F, J_)
            locks(prog, R, F, J_)


def cname(F, I):
    return I.callee[1] if I.callee and I.callee[0] == "f" else None


def freshfns(prog):
    """functions whose result is always memory they have just allocated"""
    out = {}
    for F in scope(prog):
        if not any(cname(F, I) in MEM for I in F.insts() if I.op == "call"):
            continue
        r = sim(prog, F)
        if not r.paths:
            continue
        ok = True
        for p in r.paths:
            v = strip(p.ret) if isinstance(p.ret, T) else None
            if v is None or not any(e.name in MEM and owns(v, e) for e in p.ev):
                ok = False
                break
            if any(f == "keeps" for e, f in uses(prog, F, p, lambda t: strip(t) is v)):
                ok = False
                break
        if ok:
            out[F.name] = MEM[[e for e in r.paths[0].ev if e.name in MEM][0].name]
    return out


def owns(t, e):
    t = strip(t)
    return t.k in ("new", "call") and t.a[0] == e.I.id


def failed(p, e, kind):
    lo, hi, ex = res(p, e)
    if kind == "descriptor":
        return hi < 0
    return (lo, hi) == (0, 0)


def owned(prog, R, F, J_, fresh):
    gone = set()
    for p in J_.enters:
        for a, b in p.phis.values():
            for t in (a, b):
                if t is not None:
                    for x in walk(t):
                        if x.k in ("new", "call"):
                            gone.add(x.a[0])
    # results written into local structures: their owner is the structure
    stored = {I.a[0][1] for I in F.insts() if I.op == "store" and I.a[0][0] == "v"}
    struct = {I.line for I in F.insts() if I.op == "call" and I.id in stored}
    for p in list(J_.paths) + list(J_.iters):
        seg = p.segment() if p.kind == "iter" else p.ev
        for e in seg:
            kind = MEM.get(e.name) or FD.get(e.name) or fresh.get(e.name)
            if kind is None or e.I is None:
                continue
            if failed(p, e, kind) or e.I.id in gone or e.I.line in struct and e.I.fn.name == F.name:
                continue
            pred = lambda t, e=e: owns(t, e)
            if p.kind == "iter" and any(x.k in ("new", "call") and x.a[0] == e.I.id for a, b in p.phis.values() if b is not None for x in walk(b)):
                continue
            f = pathfate(prog, F, p, pred)
            import os
            if os.environ.get("DB") == e.name: print("DB", F.name, f, p.kind, [(x.name, x.I.line, y) for x, y in uses(prog, F, p, pred)], p.trace()[-6:])
            J_.check(False if f == "borrows" else None if f == "mixed" else True, "leak " + e.name, p,
                     "the %s from %s at line %s is neither given back nor kept" % (kind, e.name, e.I.line), e, LEAK)


def twice(prog, R, F, J_):
    for p in list(J_.paths) + list(J_.iters):
        seg = p.segment() if p.kind == "iter" else p.ev
        for i, e in enumerate(seg):
            if e.name not in FREE or e.name in ("xrealloc", "realloc"):
                continue
            v = strip(e.args[0])
            if v.k not in ("new", "call", "p", "phi", "ld", "ssa") or isc(v):
                continue
            for x in seg[i + 1:]:
                if x.name in ("L", "X", "rmw"):
                    continue
                bad = None
                for k, a in enumerate(x.args):
                    if isinstance(a, T) and a is not None and strip(a) is v and not (x.name in ("=", "=L") and k == 1):
                        bad = x
                    elif isinstance(a, T) and v.k in ("new", "p") and FREE[e.name][1] == "memory" and x.name == "=" and k == 0 and base(a) is v:
                        bad = x
                if bad is not None:
                    J_.check(False, "after " + e.name, p, "uses what %s was given at line %s" % (e.name, e.I.line), bad, TWICE)
                    break
            else:
                J_.check(True, "after " + e.name, p, "", e, TWICE)


def which(t):
    """the mutex, by where its address was read from"""
    t = strip(t)
    return ("ld", which(t.a[1])) if t.k == "ld" else t


def locks(prog, R, F, J_):
    for p in list(J_.paths) + list(J_.iters):
        held = {}
        first = {}
        broken = False
        for e in p.ev:
            if e.name == TAKE:
                a = which(e.args[0])
                if held.get(a, 0) > 0:
                    J_.check(False, "again", p, "takes a mutex it holds", e, LOCK)
                held[a] = held.get(a, 0) + 1
                first[a] = e
            elif e.name == GIVE:
                a = which(e.args[0])
                held[a] = held.get(a, 0) - 1
        if p.kind == "exit":
            for a, n in held.items():
                J_.check(n == 0, "balance", p, "ends with a mutex taken" if n > 0 else "releases a mutex it does not hold", first.get(a), LOCK)
