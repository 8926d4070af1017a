"""C41: what a function takes for its own use - memory, descriptors, mutexes - it
gives back exactly once on every path, or hands on."""
from gensim import *
from ir import Broken
from semlib import under
import psim
from p_sem import ASSUME
from p_frame import res
from p_save import truthv

EXPLAIN = {}
CAP = 400
LEAK = "what is allocated or opened is given back, kept or handed on, on every path"
TWICE = "what was given back is neither used nor given back again"
LOCK = "a mutex taken is released on every path, and not taken again by its holder"
SKIP = ("lz4.c", "hashmap.c", "pogocache.c", "xmalloc.c", "uring.c", "tls.c")
MEM = {"xmalloc": "memory", "malloc": "memory", "calloc": "memory", "strdup": "memory", "strndup": "memory", "xrealloc": "memory", "realloc": "memory",
       "fopen": "file", "opendir": "directory", "fdopen": "file"}
FD = {"open": "descriptor", "open64": "descriptor", "socket": "descriptor", "accept": "descriptor", "accept4": "descriptor", "dup": "descriptor"}
FREE = {"xfree": (0, "memory"), "free": (0, "memory"), "close": (0, "descriptor"), "fclose": (0, "file"), "closedir": (0, "directory"),
        "xrealloc": (0, "memory"), "realloc": (0, "memory")}
# calls after which the other side may hold on to what it was given
HOLD = {"pthread_create", "epoll_ctl", "kevent", "*indirect*", "dup2", "fdopen", "atexit", "signal", "sigaction", "pthread_setspecific", "fdopendir", "qsort"}
TAKE, GIVE = "pthread_mutex_lock", "pthread_mutex_unlock"


def scope(prog):
    for M in prog.mods.values():
        if M.name not in SKIP:
            for F in M.funcs.values():
                if F.blocks:
                    yield F


_fate = {}
_lost = set()


class None_:
    paths = iters = enters = ()


def sim(prog, F):
    if F.key in _lost or F.name == "main":
        return None_
    try:
        return gsim(prog, F, cap=CAP, copies=True)
    except Broken:
        _lost.add(F.key)
        return None_


def callee(prog, F, e):
    n = e.name
    G = F.mod.funcs.get(n)
    if G is not None and G.blocks:
        return G
    for M in prog.mods.values():
        G = M.funcs.get(n)
        if G is not None and G.blocks and not G.internal:
            return G
    return None


def is_(t, v):
    t = strip(t)
    return t is v or under(t) is v and t.k not in ("ld",) and v.k in ("new", "call", "p", "phi", "ssa")


def fate(prog, G, i, busy=frozenset()):
    """what G does with its parameter i: 'frees' | 'keeps' | 'borrows' | 'mixed'"""
    k = (id(prog), G.key, i)
    if k in _fate:
        return _fate[k]
    if k in busy or G.mod.name in SKIP:
        return "keeps"
    r = sim(prog, G)
    if not r.paths and not r.iters:
        return "keeps"
    out = set()
    for p in list(r.paths) + list(r.iters):
        out.add(pathfate(prog, G, p, lambda t: strip(t).k == "p" and strip(t).a[0] == i, busy | {k}))
    f = "keeps" if "keeps" in out else "borrows" if out == {"borrows"} else "frees" if out == {"frees"} else "mixed"
    _fate[k] = f
    return f


def parts(t):
    """the parts a value is computed from, results of calls and loads taken as they are"""
    yield t
    if t.k not in ("call", "ld", "pure", "new", "phi", "vread", "cmp"):
        for x in t.a:
            if isinstance(x, T):
                yield from parts(x)


def uses(prog, F, p, pred, busy=frozenset()):
    """(event, 'frees'|'keeps'|'borrows'|'mixed') for the events that are given the value"""
    for e in p.ev:
        if e.name in ("L", "X"):
            if any(isinstance(a, T) and pred(a) for a in e.args):
                yield e, "keeps"
            continue
        if e.name in ("=", "=L"):
            if any(pred(x) for x in parts(e.args[1])):
                # memory that is given back itself on this path keeps nothing
                own = under(e.args[0])
                yield e, "borrows" if own.k == "new" and any(x.name == "xfree" and strip(x.args[0]) is own for x in p.ev) else "keeps"
            elif any(pred(x) for x in walk(e.args[0])):
                yield e, "borrows"
            continue
        if e.name == "rmw":
            continue
        for k, a in enumerate(e.args):
            if a is None or not pred(a) and not pred(under(a)):
                continue
            if e.name in FREE and FREE[e.name][0] == k:
                yield e, "frees"
            elif res(p, e)[1] < 0:
                yield e, "borrows"  # a call that failed took nothing
            elif e.name in HOLD:
                yield e, "keeps"
            else:
                G = callee(prog, F, e)
                if G is not None:
                    yield e, fate(prog, G, k, busy)
                else:
                    yield e, "borrows"


def pathfate(prog, F, p, pred, busy=frozenset()):
    o = [f for e, f in uses(prog, F, p, pred, busy)]
    if p.ret is not None and isinstance(p.ret, T) and any(pred(x) for x in parts(p.ret)):
        return "keeps"
    for f in ("keeps", "mixed", "frees"):
        if f in o:
            return f
    return "borrows"


def C41(prog, R, tier):
    EXPLAIN["C41"] = "every path of every function of the server (compression, hash table and storage engine apart): calls that allocate, open, lock, free, close and unlock, and where the results go; what callees do with their parameters is summarised from their own paths"
    fresh = freshfns(prog)
    for F in scope(prog):
        if prog.isnew(F) and F.internal:
            continue    # a helper of its callers: seen inside them
        calls = {S for I in F.insts() if I.op == "call" for S in [cname(F, I)] if S}
        if calls & (set(MEM) | set(FD) | set(FREE) | set(fresh) | {TAKE, GIVE}) or F.name in PARTS or any(c.startswith("buf_") for c in calls) or any(prog.isnew(G) for n in calls for G in [F.mod.funcs.get(n)] if G is not None):
            if sim(prog, F) is None_:
                R.unknown += 1
                continue
            J_ = J(prog, R, F, LEAK, cap=CAP, copies=True)
            owned(prog, R, F, J_, fresh)
            objects(prog, R, F, J_)
            replaced(prog, R, F, J_)
            buffers(prog, R, F, J_)
            filled(prog, R, F, J_)
            twice(prog, R, F, J_)
            locks(prog, R, F, J_)


def cname(F, I):
    return I.callee[1] if I.callee and I.callee[0] == "f" else None


def freshfns(prog):
    """functions whose result is always memory they have just allocated"""
    out = {}
    for F in scope(prog):
        if not any(cname(F, I) in MEM for I in F.insts() if I.op == "call"):
            continue
        r = sim(prog, F)
        if not r.paths:
            continue
        ok = True
        for p in r.paths:
            v = strip(p.ret) if isinstance(p.ret, T) else None
            if v is None or not any(e.name in MEM and owns(v, e) for e in p.ev):
                ok = False
                break
            if any(f == "keeps" for e, f in uses(prog, F, p, lambda t: strip(t) is v)):
                ok = False
                break
        if ok:
            out[F.name] = MEM[[e for e in r.paths[0].ev if e.name in MEM][0].name]
    return out


def owns(t, e):
    t = strip(t)
    return t.k in ("new", "call") and t.a[0] == e.I.id


def failed(p, e, kind):
    lo, hi, ex = res(p, e)
    if kind == "descriptor":
        return hi < 0
    return (lo, hi) == (0, 0)


# what belongs to an object and ends with it
WHOLE = {
    "struct.conn": ("packet", "args", "pg"),
    "struct.pg": ("application_name", "database", "user", "buf", "statements", "portals", "targs", "desc"),
    "struct.net_conn": ("out", "addr"),
    "struct.keys_ctx": ("pattern", "buf"),
    "struct.scan_ctx": ("pattern", "entries"),
    "struct.bgsaveloadctx": ("path",),
}
# owners that are part of another object: the function that ends them
PARTS = {"args_free": ("struct.args", ("bufs",)), "pg_statement_free": ("struct.pg_statement", ("args", "argtypes")),
         "pg_portal_free": ("struct.pg_portal", ("params",))}
# members that hold the only reference to memory: what they held before has to be given back first
HOLDS = {("struct.pg", "application_name"), ("struct.pg", "database"), ("struct.pg", "user"), ("struct.pg", "desc"), ("struct.net_conn", "addr"),
         ("struct.net_conn", "out"), ("struct.args", "bufs")}


def fields(prog, p):
    """(member address or value) -> struct member for the arguments of the calls on the path"""
    for e in p.ev:
        if e.name in ("L", "X", "rmw"):
            continue
        for k, a in enumerate(e.args):
            if not isinstance(a, T):
                continue
            f = ldfield(a, prog)
            if f:
                yield e, k, f, under(strip(a).a[1])
            f = fieldof(prog, a)
            if f:
                yield e, k, f, under(a)


def objects(prog, R, F, J_):
    """an object that is freed is freed with all it owns"""
    kinds = {}
    for p in list(J_.paths) + list(J_.iters):
        for e, k, f, b in fields(prog, p):
            if f[0] in WHOLE:
                kinds.setdefault(b, set()).add(f[0])
    inloop = any(e.name in FREE for p in J_.iters for e in p.segment())
    for p in J_.paths:
        ends = [(e, strip(e.args[0]), None) for e in p.ev if e.name == "xfree"]
        ends = [(e, b, S) for e, b, _ in ends for S in kinds.get(b, ()) if len(kinds[b]) == 1]
        if F.name in PARTS:
            ends.append((None, None, PARTS[F.name][0]))
        for e, b, S in ends:
            mem = PARTS[F.name][1] if e is None else WHOLE[S]
            have = {f[1] for x, k, f, c in fields(prog, p) if f[0] == S and x.name not in ("=", "=L") and (b is None or c is b)}
            have |= reach(prog, p, S, b) if b is not None else set()
            have |= {f[1] for t in p.facts for f in [ldfield(t, prog)] if f and f[0] == S and p.range(t)[:2] == (0, 0)}
            loose = any(x.name == "*indirect*" or callee(prog, F, x) is not None and any(isinstance(a, T) and strip(a) is b for a in x.args) and x.name not in FREE for x in p.ev if x.name not in ("L", "X", "=", "=L", "rmw"))
            for m in mem:
                if not any(x.get("n") == m for x in prog.structs.get(S, {"m": ()})["m"]):
                    continue
                J_.check(True if m in have else None if loose or inloop else False, "whole %s.%s" % (S[7:], m), p, "gives a %s back without its %s" % (S[7:], m), e, LEAK)


def replaced(prog, R, F, J_):
    """memory a member refers to is given back before the member refers to something else"""
    for p in J_.paths:
        for i, e in enumerate(p.ev):
            if e.name != "=":
                continue
            f = fieldof(prog, e.args[0])
            if f not in HOLDS or under(e.args[0]).k in ("new", "al"):
                continue
            v = strip(e.args[1])
            if v.k not in ("new", "call") and not isc(v):
                continue
            ok = None
            A = e.args[0]
            for j, x in enumerate(p.ev):
                if x.name in ("L", "X", "rmw") or x is e:
                    continue
                if j < i and (x.name == "=" and fieldof(prog, x.args[0]) == f or x.name == "memset"):
                    ok = True
                for a in x.args:
                    if isinstance(a, T) and ldfield(a, prog) == f:
                        ok = True
                if j < i and x.name == "*indirect*":
                    ok = True
            for t in p.facts:
                if ldfield(t, prog) == f and p.range(t)[:2] == (0, 0):
                    ok = True
            whole = any(x.name not in ("L", "X", "=", "=L", "rmw") and callee(prog, F, x) is not None and any(isinstance(a, T) and strip(a) is under(A) for a in x.args) for x in p.ev[:i])
            J_.check(True if ok else None if whole else False, "replaced %s.%s" % f, p, "loses what %s referred to" % f[1], e, LEAK)


def inside(x, A):
    """is what the call gives back read from the object A?"""
    v = strip(x.args[0])
    return v.k == "ld" and under(v.a[1]) is A or v.k != "ld" and v is not A


def reach(prog, p, S, b):
    """members of the object b of struct S that the calls on the path are given, or a part of which they are given"""
    out = set()
    for e in p.ev:
        if e.name in ("L", "X", "rmw", "=", "=L"):
            continue
        for a in e.args:
            if not isinstance(a, T):
                continue
            a = strip(a)
            A = a.a[1] if a.k == "ld" else a
            if A.k in ("off", "idx") and under(A) is b:
                try:
                    out.add(prog.member(S, psim.akey(A)[1]))
                except Exception:
                    pass
    return out


def buffers(prog, R, F, J_):
    """a buffer of the function's own that was filled is cleared"""
    for p in J_.paths:
        for i, e in enumerate(p.ev):
            if not e.name.startswith(("buf_append", "buf_ensure")) or not e.args or strip(e.args[0]).k != "al":
                continue
            A = strip(e.args[0])
            mine = [x for x in p.ev[i + 1:] if x.name not in ("L", "X", "rmw") and any(isinstance(a, T) and (strip(a) is A) for a in x.args)]
            done = any(x.name == "buf_clear" for x in mine) or any(x.name in FREE and inside(x, A) for x in p.ev[i + 1:])
            moved = any(not x.name.startswith("buf_") for x in mine) or any(x.name == "=" and any(y.k == "ld" and under(y.a[1]) is A or y is A for y in walk(x.args[1])) for x in p.ev[i + 1:]) \
                or p.ret is not None and isinstance(p.ret, T) and any(y is A for y in walk(p.ret)) or A in p.st.esc and any(x.name == "*indirect*" for x in p.ev[i + 1:])
            J_.check(True if done else None if moved else False, "buffer", p, "what %s put into a local buffer at line %s is not given back" % (e.name, e.I.line), e, LEAK)


def filled(prog, R, F, J_):
    """the same for a buffer that is filled in a loop"""
    where = {}
    moved = set()
    for p in list(J_.iters) + list(J_.paths):
        for e in (p.segment() if p.kind == "iter" else p.ev):
            if e.name in ("L", "X", "rmw"):
                continue
            for k, a in enumerate(e.args):
                A = strip(a) if isinstance(a, T) else None
                if A is None or A.k != "al":
                    continue
                if e.name.startswith(("buf_append", "buf_ensure")) and k == 0:
                    if p.kind == "iter":
                        where.setdefault(A, set()).add(p.hdr)
                elif not e.name.startswith("buf_"):
                    moved.add(A)
            if e.name == "=":
                moved |= {under(y.a[1]) if y.k == "ld" else y for y in walk(e.args[1]) if y.k in ("ld", "al")}
    for A, hs in where.items():
        if A in moved:
            continue
        for p in J_.paths:
            if not any(r[0] == "L" and r[4] in hs for r in p.st.auto):
                continue
            done = any(x.name == "buf_clear" and strip(x.args[0]) is A or x.name in FREE and inside(x, A) for x in p.ev)
            J_.check(done, "buffer", p, "a local buffer filled in a loop is not given back", None, LEAK)


def owned(prog, R, F, J_, fresh):
    gone = set()
    for p in J_.enters:
        for a, b in p.phis.values():
            for t in (a, b):
                if t is not None:
                    for x in walk(t):
                        if x.k in ("new", "call"):
                            gone.add(x.a[0])
    # results written into local structures: their owner is the structure
    defs = {I.id: I for I in F.insts()}

    def local(v):
        while v and v[0] == "v" and v[1] in defs:
            I = defs[v[1]]
            if I.op == "alloca":
                return True
            if I.op not in ("getelementptr", "bitcast"):
                return False
            v = I.a[0]
        return False

    stored = {I.a[0][1] for I in F.insts() if I.op == "store" and I.a[0][0] == "v" and local(I.a[1])}
    struct = {I.line for I in F.insts() if I.op == "call" and I.id in stored}
    for p in list(J_.paths) + list(J_.iters):
        seg = p.segment() if p.kind == "iter" else p.ev
        for e in seg:
            kind = MEM.get(e.name) or FD.get(e.name) or fresh.get(e.name)
            if kind is None or e.I is None:
                continue
            if failed(p, e, kind) or e.I.id in gone or e.I.line in struct and e.I.fn.name == F.name:
                continue
            pred = lambda t, e=e: owns(t, e)
            if p.kind == "iter" and any(x.k in ("new", "call") and x.a[0] == e.I.id for a, b in p.phis.values() if b is not None for x in walk(b)):
                continue
            f = pathfate(prog, F, p, pred)
            J_.check(False if f == "borrows" else None if f == "mixed" else True, "leak " + e.name, p,
                     "the %s from %s at line %s is neither given back nor kept" % (kind, e.name, e.I.line), e, LEAK)


def twice(prog, R, F, J_):
    for p in list(J_.paths) + list(J_.iters):
        seg = p.segment() if p.kind == "iter" else p.ev
        for i, e in enumerate(seg):
            if e.name not in FREE or e.name in ("xrealloc", "realloc"):
                continue
            v = strip(e.args[0])
            if v.k not in ("new", "call", "p", "phi", "ld", "ssa") or isc(v):
                continue
            for x in seg[i + 1:]:
                if x.name in ("L", "X", "rmw"):
                    continue
                bad = None
                for k, a in enumerate(x.args):
                    if isinstance(a, T) and a is not None and strip(a) is v and not (x.name in ("=", "=L") and k == 1):
                        bad = x
                    elif isinstance(a, T) and v.k in ("new", "p", "call") and FREE[e.name][1] == "memory" and (x.name != "=" or k == 0) and under(a) is v:
                        bad = x
                if bad is not None:
                    J_.check(False, "after " + e.name, p, "uses what %s was given at line %s" % (e.name, e.I.line), bad, TWICE)
                    break
            else:
                J_.check(True, "after " + e.name, p, "", e, TWICE)


def which(t):
    """the mutex, by where its address was read from"""
    t = strip(t)
    return ("ld", which(t.a[1])) if t.k == "ld" else t


def locks(prog, R, F, J_):
    for p in list(J_.paths) + list(J_.iters):
        held = {}
        first = {}
        broken = False
        for e in p.ev:
            if e.name == TAKE:
                a = which(e.args[0])
                if held.get(a, 0) > 0:
                    J_.check(False, "again", p, "takes a mutex it holds", e, LOCK)
                held[a] = held.get(a, 0) + 1
                first[a] = e
            elif e.name == GIVE:
                a = which(e.args[0])
                held[a] = held.get(a, 0) - 1
        if p.kind == "exit":
            for a, n in held.items():
                J_.check(n == 0, "balance", p, "ends with a mutex taken" if n > 0 else "releases a mutex it does not hold", first.get(a), LOCK)
