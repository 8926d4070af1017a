"""C34: MONITOR shows every command, exactly, to exactly the connections that asked."""
from gensim import *
from semlib import isglobal, iscall
from p_save import evs, idx, truthv
from p_sem import ASSUME

EXPLAIN = {}
SHOW = "a monitor is shown every command but the secret ones, escaped and complete"
LIST = "the list of monitors holds exactly the connections that watch"
HIDDEN = ("auth", "quit", "monitor")
ESC = {10: "\\n", 13: "\\r", 9: "\\t", 34: '\\"', 92: "\\\\"}


def C34(prog, R, tier):
    EXPLAIN["C34"] = "all paths of monitor_cmd, monitor_start, monitor_stop and monitor_work; every byte value of an argument; every access to the list of monitors"
    show_(prog, R)
    start(prog, R)
    stop(prog, R)
    work(prog, R)
    locked(prog, R)


def gl(A):
    """name of the global an address is"""
    return A.a[0].split(":")[-1] if A.k == "g" else None


def eqs(p):
    """{literal: truth} of the command name on this path"""
    out = {}
    for t in p.facts:
        if t.k == "argeq" and isc(t.a[1]) and t.a[1].a[0] == 0:
            v = p.truth(t)
            out[t.a[2]] = truthv(p, t) if v is None else v
    return out


def text(prog, t):
    t = strip(t)
    return prog.string(t.a[0]) if t.k == "g" else None


def argload(prog, t):
    """does the term read a byte through the data pointer of an argument?"""
    return any(x.k == "ld" and (ldfield(x, prog) or ("", ""))[1] in ("data", "bufs") for x in walk(t))


def rng(p, b):
    """the values the byte can have on this path, as a set"""
    s = set(range(256))
    for t in list(p.facts) + [b]:
        u = t
        sg = False
        while u.k == "cast" and u.a[0] in ("zext", "sext", "trunc"):
            sg = sg or u.a[0] == "sext"
            u = u.a[1]
        if u is not b and strip(u) is not b:
            continue
        lo, hi, ex = p.range(t)
        if sg:
            s = {v for v in s if lo <= (v - 256 if v > 127 else v) <= hi and (v - 256 if v > 127 else v) not in ex}
        elif u is not t or isc(u):
            s = {v for v in s if lo <= v <= hi and v not in ex}
        else:
            # the byte itself: exclusions hold as bit patterns
            s = {v for v in s if v not in ex and v - 256 not in ex} if (lo, hi) == (-2**63, 2**63 - 1) or (lo <= -128 and hi >= 255) else \
                {v for v in s if (lo <= v <= hi or lo <= (v - 256 if v > 127 else v) <= hi) and v not in ex}
    return s


APP = ("buf_append", "buf_append_byte")


def show_(prog, R):
    F = func(prog, "monitor_cmd", "monitor.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, SHOW, mods=("monitor.c",), keep=APP)
    inner = set()
    for p in J_.iters:
        for e in p.segment():
            if e.name == "buf_append_byte" and argload(prog, e.args[1]):
                inner.add(p.hdr)
    sends = False
    # names compared that are not literals, or by other means
    loose = any(e.name == "*indirect*" or e.name in ("args_eq", "argeq", "argeq_bytes") and len(e.args) > 2 and text(prog, e.args[2]) is None or "cmp" in e.name
                for p in list(J_.iters) + list(J_.paths) for e in p.ev)
    for p in list(J_.iters) + list(J_.paths):
        seg = p.segment() if p.kind == "iter" else p.ev
        w = [e for e in seg if e.name == "conn_write"]
        if w:
            sends = True
            q = eqs(p)
            for n in ("auth",):
                v = q.get(n)
                J_.check(False if v is True else True if v is False else None if loose else False, "secret", p,
                         "shows AUTH, and the password with it, to the monitors", w[0])
        if p.kind == "iter" and w:
            e = w[0]
            J_.check(False if any(x.k in ("pure", "call") and "strlen" in x.a for x in walk(e.args[2])) else True, "sendlen", p, "shows the command only up to its first zero byte", e)
            pre = [x for x in p.ev if x.name not in ("L", "X", "=", "rmw", "pthread_mutex_lock", "pthread_mutex_unlock", "conn_write")]
            if pre and pre[-1].name == "buf_append":
                s = text(prog, pre[-1].args[1])
                J_.check(s.endswith("\r\n") and same(pre[-1].args[2], C(len(s))) if s is not None else None, "line", p, "the line shown does not end with CRLF", pre[-1])
            J_.check(len(w) == 1, "once", p, "writes a command twice to one monitor", w[-1])
            ds = [lsub(b, a) for a, b in p.phis.values() if a is not None and b is not None]
            ds = [d[0] for d in ds if not d[1]]
            J_.check(ds in ([1], [-1]) if len(ds) == 1 else None, "each", p, "goes on by %s monitors" % (ds[0] if ds else "?"), e)
    for p in J_.iters:
        if p.hdr not in inner:
            continue
        seg = p.segment()
        out = [e for e in seg if e.name in APP]
        raw = [e for e in out if e.name == "buf_append_byte" and argload(prog, e.args[1])]
        b = next((x for t in list(p.facts) + [e.args[1] for e in raw] for x in [base8(t)] if x is not None and argload(prog, x) and isbyte(x, prog)), None)
        if b is None:
            R.unknown += 1
            continue
        vals = rng(p, b)
        if not vals:
            continue
        if any(e.name not in APP + ("snprintf", "=", "L", "X") for e in seg):
            R.unknown += 1
            continue
        if not out:
            J_.check(False, "byte", p, "leaves out the byte %s" % sorted(vals)[0])
            continue
        if raw:
            bad = sorted(v for v in vals if v < 32 or v > 126 or v in (34, 92))
            esc = len(out) > 1 and text(prog, out[0].args[1]) == "\\"
            J_.check(not bad if not esc else None, "raw", p, "shows the byte %s unescaped" % (bad[0] if bad else ""), raw[0])
            J_.check(len(out) == 1 or None, "raw1", p, "")
            continue
        if len(out) == 1 and out[0].name == "buf_append":
            s = text(prog, out[0].args[1])
            n = strip(out[0].args[2])
            if s is not None:
                J_.check(isc(n) and n.a[0] == len(s) if isc(n) else None, "esclen", p, "appends %s bytes of '%s'" % (show(n), s), out[0])
                want = {ESC.get(v) for v in vals}
                J_.check(s in want if len(want) == 1 and None not in want else False if all(x is None for x in want) and len(vals) > 1 else None, "escape", p,
                         "shows the byte %d as '%s'" % (sorted(vals)[0], s), out[0])
            else:
                f = evs(p, "snprintf", seg)
                if len(f) == 1 and isc(n):
                    fs = text(prog, f[0].args[2])
                    if fs is not None:
                        J_.check(fs.lower() == "\\x%02x" if fs.lower().startswith("\\x") else None, "hex", p, "shows a byte as '%s'" % fs, f[0])
                        J_.check(n.a[0] == 4, "hexlen", p, "appends %d of the 4 characters of an escaped byte" % n.a[0], out[0])
                        neg = any(x.k == "cast" and x.a[0] == "sext" for x in walk(f[0].args[3]))
                        J_.check(base8(f[0].args[3]) is not None and not neg or (False if neg and max(vals) > 127 else None), "hexval", p,
                                 "shows the byte %d as a negative number" % max(vals), f[0])
                        room = strip(f[0].args[1])
                        J_.check(room.a[0] >= 5 if isc(room) else None, "hexroom", p, "an escaped byte is cut off", f[0])
    # steps over the arguments and their bytes
    for p in J_.iters:
        if p.hdr in inner or any(e.name in APP for e in p.segment()):
            ds = [(lsub(b, a), a) for a, b in p.phis.values() if a is not None and b is not None]
            ds = [d[0] for d, a in ds if not d[1]]
            J_.check(ds == [1] if len(ds) == 1 else None, "step", p, "goes on by %s" % (ds[0] if ds else "?"))
    for p in J_.iters:
        seg = p.segment()
        if p.hdr in inner or not any(e.name == "X" for e in seg) or any(e.name not in APP + ("snprintf", "=", "L", "X") for e in seg):
            continue
        k = max(i for i, e in enumerate(seg) if e.name == "X")
        out = [e for e in seg[k:] if e.name in APP]
        J_.check(bool(out), "close", p, "the end of an argument is not marked")
    bounds(J_, prog)
    for p in J_.enters:
        for a, b in p.phis.values():
            if b is not None and isc(strip(b)) and len(p.phis) == 1:
                J_.check(strip(b).a[0] == 0, "first", p, "starts with the %s. element" % strip(b).a[0])
    if not sends:
        R.unknown += 1
        return
    # what is not shown
    for p in J_.paths:
        if any(e.name == "L" for e in p.ev) or any(e.name in ("conn_write", "*indirect*") for e in p.ev):
            continue
        q = eqs(p)
        why = [n for n, v in q.items() if v is True]
        if why:
            J_.check(all(n in HIDDEN for n in why), "hidden", p, "does not show %s" % ", ".join(why))
            continue
        zeros = [t for t in p.facts if p.range(t)[:2] == (0, 0) and t.k != "argeq" or (t.k == "cmp" and p.truth(t) is not None)]
        J_.check(True if zeros else False, "shown", p, "does not show the command")


def bounds(J_, prog):
    """every loop over a counted list runs to its end and not beyond"""
    by = {}
    for p in J_.iters:
        mine = [a for a, b in p.phis.values() if a is not None and b is not None]
        cs = set()
        for pred, x, y, v, t in cmpfacts(p):
            d = lsub(x, y)
            if d is None:
                continue
            c, at = d
            a = [z for z in at if any(z is strip(m) for m in mine)]
            b = [z for z in at if z not in a]
            if len(a) != 1 or len(b) != 1 or not counted(b[0], prog):
                continue
            u, w = at[a[0]], at[b[0]]
            if (u, w) == (1, -1) and pred in ("slt", "ult") and v:
                cs.add(c)                       # a + c < B
            elif (u, w) == (-1, 1) and pred in ("slt", "ult") and not v:
                cs.add(-(c + 1))                # B - a + c >= 0
            elif pred == "eq" and not v:
                cs.add(c if u == 1 else -c)     # a + c != B
        by.setdefault(p.hdr, []).append((p, cs))
    for h, l in by.items():
        if not all(cs for p, cs in l):
            continue
        p = l[0][0]
        J_.check(not all(min(cs) > 0 for p_, cs in l), "last", p, "leaves out the last element")
        J_.check(not all(max(cs) < 0 for p_, cs in l), "past", p, "goes past the last element")


def counted(t, prog):
    return isglobal(t, "conns_len") or (ldfield(t, prog) or ("", ""))[1] == "len"


def base8(t):
    u = t
    while u.k == "cast" and u.a[0] in ("zext", "sext", "trunc"):
        u = u.a[1]
    if u.k == "cmp":
        for x in u.a[1:]:
            if hasattr(x, "k") and not isc(x):
                y = base8(x)
                if y is not None:
                    return y
        return None
    return u if u.k == "ld" else None


def isbyte(x, prog):
    """a load of one byte out of an argument's data, not of the pointer itself"""
    return ldfield(x, prog) is None


def start(prog, R):
    F = func(prog, "monitor_start", "monitor.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, LIST, mods=("monitor.c",), rmw=True)
    me = mk("p", 0)
    for p in J_.paths:
        put = [e for e in p.ev if e.name == "=" and strip(e.args[1]) is me]
        J_.check(len(put) == 1, "start", p, "puts a connection %d times on the list" % len(put), put[-1] if put else None)
        ln = [e for e in p.ev if e.name == "=" and gl(e.args[0]) == "conns_len"]
        J_.check(len(ln) == 1 and sole(ln[0].args[1], "conns_len") == 1 or (None if not ln and len(put) != 1 else False), "start-len", p,
                 "the length of the list does not grow by one", ln[-1] if ln else None)
        if len(put) == 1:
            d = linz(put[0].args[0])
            at = {a: m for a, m in d[1].items() if isglobal(a, "conns_len")}
            if at:
                J_.check(set(at.values()) == {8} and d[0] == 0, "start-slot", p, "puts the connection outside of the next free place", put[0])
        count(J_, p, 1, "start")
        room(J_, p)


def sole(t, g):
    d = linz(t)
    return d[0] if d and len(d[1]) == 1 and isglobal(next(iter(d[1])), g) and set(d[1].values()) == {1} else None


def count(J_, p, want, who):
    n, known = 0, True
    for e in p.ev:
        if e.name == "rmw" and gl(e.args[0]) == "monitoring":
            v = strip(e.args[1])
            if e.x in ("add", "sub") and isc(v):
                n += v.a[0] if e.x == "add" else -v.a[0]
            else:
                known = False
        elif e.name == "=" and gl(e.args[0]) == "monitoring":
            v = sole(e.args[1], "monitoring")
            if v is None and isc(strip(e.args[1])):
                J_.check(False, who + "-count", p, "sets the number of monitors to %d" % strip(e.args[1]).a[0], e)
            n, known = (n + v, known) if v is not None else (n, False)
    J_.check(n == want if known else None, who + "-count", p, "changes the number of monitors by %d" % n)


def room(J_, p):
    """a list that is full is grown before the connection is written"""
    g = [e for e in p.ev if e.name in ("xrealloc", "xmalloc")]
    cap = [e for e in p.ev if e.name == "=" and gl(e.args[0]) == "conns_cap"]
    space, rel = False, False
    for pred, x, y, v, t in cmpfacts(p):
        d = lsub(x, y)
        if d is None or len(d[1]) != 2:
            continue
        l = [z for z in d[1] if isglobal(z, "conns_len")]
        c = [z for z in d[1] if isglobal(z, "conns_cap")]
        if len(l) != 1 or len(c) != 1:
            continue
        u, k = d[1][l[0]], d[0]
        rel = True
        if pred == "eq" and k == 0 and not v:
            space = True
        elif pred in ("slt", "ult") and u == 1 and v and k >= 0 or pred in ("slt", "ult") and u == -1 and not v and k <= -1:
            space = True
    if not g and not space and (rel or not any(t.k == "cmp" for t in p.facts)):
        J_.check(False, "room", p, "a full list is not grown")
    if g and cap:
        d, c = linz(g[0].args[-1]), linz(cap[-1].args[1])
        if d and c and not d[1] and not c[1]:
            J_.check(d[0] >= 8 * c[0], "room-size", p, "the list is grown to less than its capacity", g[0])
        elif d and c and set(d[1]) == set(c[1]):
            J_.check(all(d[1][a] >= 8 * c[1][a] for a in c[1]), "room-size", p, "the list is grown to less than its capacity", g[0])


def stop(prog, R):
    F = func(prog, "monitor_stop", "monitor.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, LIST, mods=("monitor.c",), rmw=True)
    for p in J_.paths:
        count(J_, p, -1, "stop")
        found = None
        for t in p.facts:
            if t.k == "cmp" and t.a[0] in ("eq", "ne") and any(strip(x) is mk("p", 0) for x in t.a[1:] if hasattr(x, "k")):
                v = p.truth(t)
                if v is not None:
                    found = v == (t.a[0] == "eq")
        ln = [e for e in p.ev if e.name == "=" and gl(e.args[0]) == "conns_len"]
        if found is True:
            other = [e for e in p.ev if e.name not in ("=", "rmw", "L", "X", "pthread_mutex_lock", "pthread_mutex_unlock")]
            J_.check(len(ln) == 1 and sole(ln[0].args[1], "conns_len") == -1 if not other else None, "stop-len", p, "a connection that stopped watching stays on the list")
            st = [e for e in p.ev if e.name == "=" and gl(e.args[0]) is None and e.args[0].k != "a"]
            if len(st) == 1 and not other:
                v = strip(st[0].args[1])
                d = linz(v.a[1]) if v.k == "ld" else None
                at = {a: m for a, m in d[1].items() if isglobal(a, "conns_len")} if d else {}
                fixed = d and d[1] and all(isglobal(a, "conns") for a in d[1])
                J_.check(set(at.values()) == {8} and d[0] == -8 if at else False if isc(v) or fixed else None, "stop-move", p, "loses another monitor", st[0])
            elif not st and not other:
                J_.check(False if sum(e.name == "L" for e in p.ev) < 2 else None, "stop-move", p, "another monitor takes the wrong place")
        elif found is False and ln:
            J_.check(False, "stop-other", p, "removes another connection", ln[0])


def work(prog, R):
    F = func(prog, "monitor_work", "cmds.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, LIST, mods=())
    for p in J_.paths:
        a, b = evs(p, "monitor_start"), evs(p, "monitor_stop")
        J_.check(len(a) == 1, "work-start", p, "starts watching %d times" % len(a), a[-1] if a else None)
        J_.check(len(b) == len(a), "work-stop", p, "ends without leaving the list" if len(b) < len(a) else "leaves the list twice", (b or a or [None])[-1])
        if len(a) == 1 and len(b) == 1:
            J_.check(idx(p.ev, a[0]) < idx(p.ev, b[0]), "work-order", p, "leaves the list before it joins it", b[0])
            J_.check(same(a[0].args[0], b[0].args[0]), "work-same", p, "another connection leaves the list", b[0])
            J_.check(not any(e.name == "conn_read" for e in p.ev[idx(p.ev, b[0]):]), "work-last", p, "goes on reading after it left the list", b[0])
    for p in J_.iters:
        seg = p.segment()
        r = evs(p, "conn_read", seg)
        if len(r) == 1:
            lo, hi, ex = p.range(r[0].res)
            J_.check(lo > 0, "work-end", p, "goes on after the connection ended", r[0])
        J_.check(not evs(p, "monitor_start", seg) and not evs(p, "monitor_stop", seg), "work-once", p, "joins or leaves the list in a loop")


def locked(prog, R):
    M = prog.mods.get("monitor.c")
    if M is None:
        return
    for F in M.funcs.values():
        if F.name.startswith("sa_") or prog.isnew(F):
            continue
        J_ = J(prog, R, F, LIST, mods=("monitor.c",), rmw=True)
        for p in list(J_.paths) + list(J_.iters):
            h = 0
            for e in p.ev:
                if e.name == "pthread_mutex_lock":
                    h += 1
                    J_.check(h == 1, "lock", p, "takes the lock of the list twice", e)
                elif e.name == "pthread_mutex_unlock":
                    h -= 1
                    J_.check(h == 0, "lock", p, "gives back the lock of the list without holding it", e)
                elif e.name == "=" and (gl(e.args[0]) in ("conns", "conns_len", "conns_cap") or any(isglobal(x, "conns") for x in walk(e.args[0]))):
                    J_.check(h > 0, "unlocked", p, "changes the list of monitors without its lock", e)
                elif e.name == "conn_write" and any(isglobal(x, "conns") for x in walk(e.args[0])):
                    J_.check(h > 0, "unlocked", p, "uses the list of monitors without its lock", e)
            if p.kind == "exit":
                J_.check(h == 0, "unlock", p, "keeps the lock of the list")
