"""C30: the life of a connection.  C32: what was answered reaches the client."""
import ir
from gensim import *
from semlib import isnow, iscall, isglobal, sign, under
from p_sem import ASSUME
from p_save import evs, call1, idx, truthv, mentions, loops_of, fval, lsub_add
from p_frame import res, zero, nonzero
from p_whole import fromfirst, instbefore, phis_in, onephi

EXPLAIN = {}
ACC = "an accepted socket is taken up or closed, once"
CNT = "open connections are counted, limited and forgotten again"
QUE = "every connection with something to do is queued once, for what it needs"
FIN = "a connection that has ended is closed and given up exactly once"
MAP = "the table of connections finds every open connection"
ORD = "the steps of the event loop follow each other"
QC = "struct.qthreadctx"
NC = "struct.net_conn"
PAIR = {"nqreads": ("qreads",), "nqins": ("qins", "qinpkts", "qinpktlens"), "nqattachs": ("qattachs",), "nqouts": ("qouts",), "nqcloses": ("qcloses",)}
ARR = {a: n for n, l in PAIR.items() for a in l}
FREE = ("xfree", "free")


def C30(prog, R, tier):
    EXPLAIN["C30"] = ("every path through one turn of qaccept, qattach, qread, qprocess, qwrite, qclose and the loop of qthread, of handle_read, conn_new, conn_free, of the "
                      "connection table and of evopened and evclosed")
    qaccept(prog, R)
    handle(prog, R)
    qread(prog, R)
    qprocess(prog, R)
    qwrite(prog, R)
    qclose(prog, R)
    qreset(prog, R)
    qthread(prog, R)
    cmap(prog, R)
    connmem(prog, R)
    evmem(prog, R)


def slot(prog, A, member=None):
    """(array, {index atoms}, constant) of an element address of an array of the queue context"""
    d = linz(A)
    if d is None:
        return None
    base = [x for x, m in d[1].items() if m == 1 and x.k == "ld" and (ldfield(x, prog) or ("",))[0] == QC and ldfield(x, prog)[1] in ARR]
    if len(base) != 1:
        return None
    return ldfield(base[0], prog)[1], {x: m for x, m in d[1].items() if x is not base[0]}, d[0]


def puts(prog, p, seg):
    """[(array, index {atoms}, const, value, event)] of the elements stored to the queues"""
    out = []
    for e in seg:
        if e.name == "=":
            s = slot(prog, e.args[0])
            if s:
                out.append(s + (e.args[1], e))
    return out


def bumps(prog, p, seg):
    """[(counter, event)] of the stores to the queue counters"""
    return [(fieldof(prog, e.args[0])[1], e) for e in stores(p, prog, QC, seg=seg) if fieldof(prog, e.args[0])[1] in PAIR]


def isctr(prog, x, n):
    return ldfield(x, prog) == (QC, n)


def queued(J_, p, seg):
    """names of the queues a connection was put into on the segment, each put judged"""
    prog = J_.prog
    ps, bs = puts(prog, p, seg), bumps(prog, p, seg)
    out = []
    for n, e in bs:
        d = linz(e.args[1])
        J_.check(d[0] == 1 and len(d[1]) == 1 and isctr(prog, next(iter(d[1])), n) if d and (not d[1] or any(isctr(prog, x, n) for x in d[1])) else None, "count " + n, p,
                 "counts a queue wrongly", e, rule=QUE)
        for a in PAIR[n]:
            m = [q for q in ps if q[0] == a]
            J_.check(True if m else False, "put " + a, p, "an element of %s is counted but not set" % a, e, rule=QUE)
        out.append(n)
    for a, ix, c, v, e in ps:
        if c == 0 and not ix:
            J_.check(None, "at " + a, p, "", e)
            continue
        own = len(ix) == 1 and isctr(prog, next(iter(ix)), ARR[a]) and c == 0
        other = len(ix) == 1 and (ldfield(next(iter(ix)), prog) or ("",))[0] == QC
        J_.check(True if own else False if other else None, "at " + a, p, "an element of %s is put where the next one is not looked for" % a, e, rule=QUE)
        J_.check(ARR[a] in [n for n, _ in bs], "add " + a, p, "an element of %s is set but not counted: the connection is lost" % a, e, rule=QUE)
    return out


def connof(prog, p, seg):
    return [q[3] for q in puts(prog, p, seg) if q[0] in ("qreads", "qins", "qattachs", "qouts", "qcloses")]


def lastrange(p, prog, field):
    r = [p.range(t) for t in p.facts if ldfield(t, prog) == field]
    for pr, x, y, v, t in cmpfacts(p):
        if ldfield(x, prog) == field and isc(y) and y.a[0] == 0 and pr == "eq":
            r.append((0, 0, frozenset()) if v else (-2 ** 63, 2 ** 63 - 1, frozenset((0,))))
        if pr == "ult" and isc(strip(x)) and strip(x).a[0] == 0 and ldfield(y, prog) == field:
            r.append((1, 2 ** 63 - 1, frozenset()) if v else (0, 0, frozenset()))
    return r[-1] if r else None


def gname(A):
    return show(A).split(":")[-1] if A.k in ("g", "gl", "glob") or ":" in show(A) else None


def net(prog, p, seg, what):
    """sum of the changes of an atomic counter on the segment, or None"""
    s = 0
    for e in seg:
        if e.name == "rmw":
            nm = ("ctx." + fieldof(prog, e.args[0])[1]) if fieldof(prog, e.args[0]) else gname(e.args[0])
            if nm == what:
                v = strip(e.args[1])
                if not isc(v) or e.x not in ("add", "sub"):
                    return None
                k = v.a[0] if v.a[0] < 2 ** 31 else v.a[0] - (2 ** 32 if v.a[0] < 2 ** 32 else 2 ** 64)
                s += k if e.x == "add" else -k
    return s


def isres(t, e):
    t = strip(t)
    return t.k == "call" and t.a[0] == e.I.id


def unchecked(p, e):
    return not any(x.k == "call" and x.a[0] == e.I.id for t in p.facts for x in walk(t))


def failed(p, e):
    """a call that answers -1 on failure: True failed, False done, None unknown"""
    r = res(p, e)
    if r[1] < 0:
        return True
    if r[0] >= 0 or -1 in r[2]:
        return False
    return None


def need(J_, p, seg, q, key):
    """the queue chosen is the one for the state of the connection"""
    prog = J_.prog
    bg, ol, cl = lastrange(p, prog, (NC, "bgctx")), lastrange(p, prog, (NC, "outlen")), lastrange(p, prog, (NC, "closed"))
    e = bumps(prog, p, seg)[-1][1] if bumps(prog, p, seg) else None
    if q in ("nqcloses", "nqreads", "nqins"):
        J_.check(False if ol is None or nonzero(ol) else True if zero(ol) else None, key + " pending", p, "%s a connection that still has something to send" % ("closes" if q == "nqcloses" else "reads from"), e, rule=QUE)
    if q == "nqcloses":
        J_.check(False if cl is None or zero(cl) else True if nonzero(cl) else None, key + " open", p, "closes a connection that nobody closed", e, rule=QUE)
    if q in ("nqreads", "nqins"):
        J_.check(False if cl is None or nonzero(cl) else True if zero(cl) else None, key + " closed", p, "reads from a connection that was closed", e, rule=QUE)
    if q == "nqouts":
        J_.check(False if (ol and zero(ol)) and (cl is None or nonzero(cl)) else True, key + " nothing", p, "writes although there is nothing to write", e, rule=QUE)


def qaccept(prog, R):
    F = func(prog, "qaccept", "net.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, ACC, rmw=True)
    every(J_, "nevents", "an event is left out")
    for p in J_.iters:
        seg = p.segment()
        acc = evs(p, "accept", seg) + evs(p, "accept4", seg)
        get = evs(p, "cmap_get", seg)
        qs = queued(J_, p, seg)
        cl = evs(p, "close", seg)
        new = evs(p, "conn_new", seg)
        op = [e for e in evs(p, "*indirect*", seg) if ldfield(e.args[0], prog) == (QC, "opened")]
        n0, nx, nt, nr = [net(prog, p, seg, k) for k in ("nconns", "ctx.nconns", "tconns", "rconns")]
        if acc:
            e = acc[0]
            J_.check(not qs and not new and not n0, "listen", p, "takes a listening socket for a connection", e)
            f = failed(p, e)
            ar = [x for x in evs(p, "addread", seg) if isres(x.args[1], e)]
            cs = [x for x in cl if isres(x.args[0], e)]
            other = [x for x in cl if not isres(x.args[0], e)]
            J_.check(not other, "closed other", p, "closes another socket than the one accepted", other[0] if other else None)
            if unchecked(p, e):
                J_.check(False, "unchecked", p, "does not look whether a connection could be accepted", e)
                continue
            if f:
                J_.check(not ar and not cs, "failed", p, "uses a socket that was never accepted", (ar + cs)[0] if ar + cs else None)
                continue
            if f is None:
                continue
            bad = [x for x in seg if x.name in ("setnonblock", "setkeepalive", "settcpnodelay", "setquickack") and failed(p, x)]
            af = failed(p, ar[-1]) if ar else None
            if ar and unchecked(p, ar[-1]):
                J_.check(False, "unchecked add", p, "does not look whether the socket could be watched", ar[-1])
            if not ar:
                J_.check(len(cs) == 1, "leak", p, "leaves an accepted socket open that nobody watches" if not cs else "closes a socket twice", bad[0] if bad else cs[-1] if cs else e)
            elif af is True:
                J_.check(len(cs) == 1, "leak2", p, "leaves an accepted socket open that could not be watched" if not cs else "closes a socket twice", ar[-1])
                sv, dv = evs(p, "save_tls_fd", seg), evs(p, "del_tls_fd", seg)
                J_.check(len(dv) >= 1 if sv else None, "tlsleft", p, "a later plain connection is taken for a TLS one", ar[-1])
            elif af is False:
                J_.check(not cs, "closed", p, "closes a socket that was taken up", cs[0] if cs else None)
                J_.check(len(ar) == 1, "twice", p, "takes a socket up twice", ar[-1])
                nb = [x for x in evs(p, "setnonblock", seg) if isres(x.args[0], e)]
                J_.check(False if not nb else True if same(nb[-1].args[1], C(1)) else None if not isc(strip(nb[-1].args[1])) else False, "block", p, "a connection can hold up all the others: its socket blocks", ar[-1])
                for x in nb:
                    J_.check(idx(seg, x) < idx(seg, ar[0]), "block order", p, "takes a socket up before it is prepared", x)
                sv = evs(p, "save_tls_fd", seg)
                for x in sv:
                    J_.check(idx(seg, x) < idx(seg, ar[0]), "tls order", p, "notes a TLS socket after another thread may have used it", x)
                g = [x.args[0] for x in get] + [x.args[0] for x in evs(p, "event_fd", seg)]
                tl = None
                for pr, x, y, v, t in cmpfacts(p):
                    if pr == "eq":
                        for a, b in ((x, y), (y, x)):
                            k = sfd(prog, b)
                            if k == 8:
                                tl = v
                            elif v and k is not None and tl is None:
                                pass
                J_.check(None if tl is None else len(sv) == (1 if tl else 0), "tls", p, "a connection to the TLS port is not noted as one" if tl else "a plain connection is noted as TLS", ar[-1])
                q = [x for x in ar if ldfield(x.args[0], prog) == (QC, "qfd")]
                J_.check(True if q else None, "qfd", p, "", ar[-1])
            J_.check(not bad or not (ar and af is False), "prepared", p, "takes up a socket that could not be prepared", bad[0] if bad else None)
            continue
        g = get[0] if get else None
        known = res(p, g) if g else None
        if known is None or not (zero(known) or nonzero(known)):
            R.unknown += 1
            continue
        efd = strip(g.args[1])
        if nonzero(known):
            J_.check(not new and not cl and not op and not n0 and not nx and not nt and not nr, "again", p, "counts a connection again that is open already", new[0] if new else cl[0] if cl else g, rule=CNT)
            J_.check(len(qs) == 1, "queue", p, "an event of a connection is lost" if not qs else "puts a connection into two queues", bumps(prog, p, seg)[-1][1] if qs else g, rule=QUE)
            for v in connof(prog, p, seg):
                J_.check(strip(v).k == "call" and strip(v).a[0] == g.I.id if strip(v).k == "call" else None, "which", p, "queues another connection than the one with the event", g, rule=QUE)
        else:
            tg = evs(p, "del_tls_fd", seg)
            lim = None
            rm = [e for e in seg if e.name == "rmw" and gname(e.args[0]) == "nconns" and e.x == "add"]
            terms = [x for t in p.facts for x in walk(t) if x.k == "rmw" and rm and x.a[0] == rm[0].I.id]
            mx = [x for t in p.facts for x in walk(t) if ldfield(x, prog) == (QC, "maxconns") and x.k == "ld"]
            seen = False
            if terms and mx:
                for pr, x, y, v, t in cmpfacts(p):
                    if mentions(t, lambda q: q is terms[0]) and mentions(t, lambda q: q is mx[0]):
                        seen = True
                lim = le(p, terms[0], mx[0], strict=True)
                if seen and lim is None:
                    # x <= maxconns recorded: one connection too many or too few
                    w = le(p, terms[0], mx[0])
                    if w is not None and qs:
                        J_.check(False, "limit", p, "allows another number of connections than asked for", rm[0], rule=CNT)
            if qs:
                J_.check(len(qs) == 1, "queue", p, "puts a connection into two queues", bumps(prog, p, seg)[-1][1], rule=QUE)
                J_.check(not cl, "closed", p, "closes the socket of an open connection", cl[0] if cl else None, rule=FIN)
                J_.check(n0 == 1 if n0 is not None else None, "nconns", p, "a new connection changes the number of connections by %s" % n0, g, rule=CNT)
                J_.check(nx == 1 if nx is not None else None, "ctx nconns", p, "a new connection changes the number of connections of the thread by %s" % nx, g, rule=CNT)
                J_.check(nt == 1 if nt is not None else None, "tconns", p, "a new connection changes the total number of connections by %s" % nt, g, rule=CNT)
                J_.check(nr == 0 if nr is not None else None, "rconns", p, "counts an accepted connection as rejected", g, rule=CNT)
                J_.check(len(new) == 1, "new", p, "makes %d connections for one socket" % len(new), g, rule=CNT)
                ins = evs(p, "cmap_insert", seg)
                J_.check(len(ins) == 1, "insert", p, "a new connection is entered %d times in the table" % len(ins), g, rule=MAP)
                J_.check(len(op) == 1, "opened", p, "a new connection is announced %d times" % len(op), g, rule=CNT)
                if rm:
                    J_.check(False if not seen and not mx else lim if lim is not None else None, "limit", p, "allows more connections than asked for", rm[0], rule=CNT)
                if new:
                    isn = lambda v: isres(v, new[0])
                    J_.check(same(new[0].args[0], efd) if strip(new[0].args[0]).k == "call" else None, "fd", p, "makes a connection for another socket", new[0], rule=CNT)
                    for x in ins:
                        J_.check(isn(x.args[1]) or None, "insert which", p, "", x, rule=MAP)
                    for x in op:
                        J_.check(True if any(isn(a) for a in x.args[1:2]) else None, "opened which", p, "", x)
                    fr = [x for x in seg if x.name in ("conn_free",) + FREE and x.args and isn(x.args[0])]
                    J_.check(not fr, "freed", p, "gives up a connection that is in use", fr[0] if fr else None, rule=FIN)
                    for v in connof(prog, p, seg):
                        J_.check(isn(v) if strip(v).k == "call" else None, "which", p, "queues another connection than the new one", g, rule=QUE)
                    if op:
                        first = min([idx(seg, b) for _, b in bumps(prog, p, seg)])
                        J_.check(idx(seg, op[0]) < first, "announced first", p, "", op[0]) if idx(seg, op[0]) < first else None
                J_.check(True if tg else False, "tls", p, "a later connection is taken for a TLS one", g, rule=CNT)
            else:
                if any(sfdtrue(prog, p)):
                    continue
                mine = [x for x in cl if same(x.args[0], efd)]
                J_.check(len(mine) == 1, "refused", p, "a connection that is not taken up is closed %d times" % len(mine), mine[-1] if mine else g, rule=FIN)
                J_.check(n0 == 0 if n0 is not None else None, "refused count", p, "a refused connection changes the number of connections by %s" % n0, g, rule=CNT)
                J_.check(nx == 0 if nx is not None else None, "refused count2", p, "a refused connection changes the number of connections of the thread by %s" % nx, g, rule=CNT)
                J_.check(not op, "refused opened", p, "announces a refused connection", op[0] if op else None, rule=CNT)
                ins, dl = evs(p, "cmap_insert", seg), evs(p, "cmap_delete", seg)
                J_.check(len(ins) == len(dl), "refused insert", p, "a refused connection stays in the table", ins[0] if ins else g, rule=MAP)
                fr = [x for x in seg if x.name == "conn_free"]
                J_.check(len(fr) == len(new), "refused memory", p, "does not give up a refused connection" if new else "", new[0] if new else g, rule=FIN)
                if lim is False:
                    J_.check(nr == 1 if nr is not None else None, "rejected", p, "a rejected connection changes the number of rejected connections by %s" % nr, g, rule=CNT)
                    J_.check(True if tg else False, "rejected tls", p, "a later connection is taken for a TLS one", g, rule=CNT)
                elif lim is True:
                    J_.check(nr == 0 if nr is not None else None, "not rejected", p, "counts a connection as rejected for another reason than the limit", g, rule=CNT)
                    J_.check(True if evs(p, "tls_accept", seg) else False, "why", p, "refuses a connection although there is room", g, rule=CNT)
        if len(qs) == 1 and qs[0] != "nqattachs":
            need(J_, p, seg, qs[0], "accept")


def sfd(prog, t):
    """which of the listening sockets a value is (byte offset in the array), or None"""
    d = linz(t)
    t = strip(t)
    if t.k == "ld":
        d = linz(t.a[1])
        if d and len(d[1]) == 1 and ldfield(next(iter(d[1])), prog) == (QC, "sfd"):
            return d[0]
    return None


def sfdtrue(prog, p):
    for pr, x, y, v, t in cmpfacts(p):
        if pr == "eq" and v and (sfd(prog, x) is not None or sfd(prog, y) is not None):
            yield True


def every(J_, ctr, msg, seen=None):
    """the loop takes the elements 0 .. ctr-1 one after the other"""
    prog = J_.prog
    bnd = {}
    for p in J_.iters:
        for pr, x, y, v, t in cmpfacts(p):
            if pr in ("slt", "ult") and v is True and mentions(y, lambda q: ldfield(q, prog) == (QC, ctr)) and strip(x).k == "phi":
                bnd.setdefault(p.hdr, set()).add(strip(x))
    for p in J_.iters:
        for (a, b) in p.phis.values():
            if a in bnd.get(p.hdr, ()):
                d = lsub(b, a) if b is not None else None
                J_.check(d == (1, {}) if d is not None and not d[1] else None, "step", p, msg, rule=QUE)
    for p in J_.enters:
        for i, (a, b) in p.phis.items():
            if a is None:
                a = next((x for x in bnd.get(p.hdr, ()) if x.a[0] == i), None)
            if a in bnd.get(p.hdr, ()) and b is not None and isc(strip(b)):
                J_.check(strip(b).a[0] == 0, "first", p, msg, rule=QUE)
    allb = {x for s in bnd.values() for x in s}
    for p in J_.paths:
        for pr, x, y, v, t in cmpfacts(p):
            if pr in ("slt", "ult") and strip(x) in allb and mentions(y, lambda q: ldfield(q, prog) == (QC, ctr)):
                d = linz(y)
                if v is False and d and len(d[1]) == 1:
                    J_.check(d[0] == 0, "last", p, msg, rule=QUE)
                elif v is True:
                    J_.check(False, "early", p, msg, rule=QUE)


def elem(prog, v, arr):
    """index atoms of the element of a queue array a value was read from"""
    v = strip(v)
    if v.k != "ld":
        return None
    s = slot(prog, v.a[1])
    return s if s and s[0] == arr else None


def handle(prog, R):
    F = func(prog, "handle_read", "net.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, QUE)
    n, pkt = mk("p", 0), mk("p", 1)
    J_.check(True if any(prange(p, n)[0] < 0 and "nqcloses" in [q for q, _ in bumps(prog, p, p.ev)] for p in J_.paths) else False if J_.paths else None, "error close",
             J_.paths[0], "a connection that cannot be read is not closed")
    for p in J_.paths:
        qs = queued(J_, p, p.ev)
        J_.check(len(qs) == 1, "queue", p, "a connection that was read from is lost" if not qs else "puts a connection into two queues")
        lo, hi, ex = prange(p, n)
        er = [p.range(t) for t in p.facts if t.k == "ld" and t.a[1].k == "call" and t.a[1].a[1] == "__errno_location"]
        again = None
        if er:
            again = True if any(r[0] == r[1] == 11 for r in er) else False if any(11 in r[2] or r[0] > 11 or r[1] < 11 for r in er) else None
        if er and lo < 0 <= hi and 0 not in ex:
            J_.check(False, "eof errno", p, "tells the end of a connection by an error number")
        for q in qs:
            if lo == hi == 0:
                J_.check(q == "nqcloses", "end", p, "goes on with a connection whose client has gone")
            elif lo > 0:
                J_.check(q == "nqins", "data", p, "does not carry out what was received")
            elif hi < 0 and again is True:
                J_.check(q == "nqins" or q == "nqreads" or None, "again", p, "closes a connection because nothing has been received yet") if q != "nqcloses" else \
                    J_.check(False, "again", p, "closes a connection because nothing has been received yet")
            elif hi < 0 and not any(again for _ in (0,)) and q != "nqcloses":
                J_.check(False if again is False or not er else None, "error", p, "goes on with a connection that cannot be read")
            elif q == "nqins" and lo < 0 and not er:
                J_.check(False if lo < -1 and hi >= 0 and 0 not in ex else None, "any", p, "")
            if q == "nqins":
                ln = [x for x in puts(prog, p, p.ev) if x[0] == "qinpktlens"]
                pk = [x for x in puts(prog, p, p.ev) if x[0] == "qinpkts"]
                for x in pk:
                    J_.check(same(x[3], pkt) or None, "pkt", p, "", x[4])
                for x in ln:
                    if lo > 0:
                        J_.check(same(x[3], n), "len", p, "carries out another number of bytes than received", x[4])
                    elif hi < 0:
                        J_.check(strip(x[3]).a[0] == 0 if isc(strip(x[3])) else False if same(x[3], n) else None, "len0", p, "carries out bytes that were not received", x[4])
                nul = [e for e in p.ev if e.name == "=" and linz(e.args[0]) and pkt in linz(e.args[0])[1] and isc(strip(e.args[1]))]
                for e in nul:
                    d = lsub(e.args[0], pkt)
                    if lo > 0:
                        J_.check(d == linz(n), "nul", p, "changes what was received", e)


def prange(p, t):
    """range of a parameter from the facts"""
    lo, hi, ex = -2 ** 63, 2 ** 63 - 1, set()
    for f in p.facts:
        if strip(f) is t:
            a, b, c = p.range(f)
            lo, hi = max(lo, a), min(hi, b)
            ex |= set(c)
    return lo, hi, ex


def qread(prog, R):
    F = func(prog, "qread", "net.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, QUE, keep=("handle_read",))
    every(J_, "nqreads", "a connection with received data is left out")
    for p in J_.iters:
        seg = p.segment()
        rd = [e for e in seg if e.name in ("read", "recv", "tls_read")]
        h = evs(p, "handle_read", seg)
        if not rd:
            J_.check(False if any(ldfield(x, prog) == (QC, "nqreads") for t in p.facts for x in walk(t)) else None, "read", p, "a connection is not read from")
            continue
        J_.check(len(rd) == 1, "read", p, "reads twice: what was read first is lost", rd[-1])
        J_.check(len(h) == 1, "handle", p, "what was read is handled %d times" % len(h), rd[-1])
        for e in rd:
            k = 1 if e.name != "tls_read" else 2
            buf, n = e.args[k], strip(e.args[k + 1])
            d = linz(buf)
            st = [m for x, m in d[1].items() if x.k == "phi"] if d else []
            if d and not any(ldfield(x, prog) == (QC, "inpkts") for x in d[1]):
                st = []
                if len(d[1]) == 1:
                    for (a, b) in p.phis.values():
                        if a is not None and b is not None and a in d[1] and lsub(b, a) and not lsub(b, a)[1]:
                            st = [lsub(b, a)[0]]
            if isc(n) and len(st) == 1:
                J_.check(0 < n.a[0] < st[0], "slot", p, "reads past the space of one connection", e)
                J_.check(d[0] == 0, "slot0", p, "reads past the space of one connection", e) if d[0] + n.a[0] < st[0] else J_.check(False, "slot0", p, "reads past the space of one connection", e)
                qread.stride = st[0]
            elif isc(n) and d and not st and any(ldfield(x, prog) == (QC, "inpkts") for x in d[1]):
                J_.check(False, "slot", p, "reads the data of all connections to the same place", e)
            fd = [a for a in e.args[:k] if ldfield(a, prog) == (NC, "fd")]
            src = [x for a in fd for x in walk(strip(a).a[1]) if elem(prog, x, "qreads")] if fd else []
            for x in h:
                J_.check(True if isres(x.args[0], e) else None if strip(x.args[0]).k not in ("c",) else False, "n", p, "", x)
                J_.check(same(x.args[1], buf) if linz(x.args[1]) and d and x.args[1].k == buf.k else None, "buf", p, "handles other bytes than were read", x)
                if src:
                    J_.check(same(x.args[2], src[0]) if elem(prog, x.args[2], "qreads") else None, "conn", p, "handles what was read as sent by another client", x)
            tl = lastrange(p, prog, (NC, "tls"))
            if tl:
                J_.check(e.name == "tls_read" if nonzero(tl) else e.name != "tls_read" if zero(tl) else None, "tls", p, "reads a connection the wrong way", e)


def qprocess(prog, R):
    F = func(prog, "qprocess", "net.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, QUE)
    every(J_, "nqins", "received data is left out")
    for p in J_.iters:
        seg = p.segment()
        c = [e for e in evs(p, "*indirect*", seg) if ldfield(e.args[0], prog) == (QC, "data")]
        qs = queued(J_, p, seg)
        J_.check(len(c) == 1, "data", p, "what was received is handled %d times" % len(c), c[-1] if c else None)
        for e in c:
            ix = []
            for k, arr in ((1, "qins"), (2, "qinpkts"), (3, "qinpktlens")):
                s = elem(prog, e.args[k], arr)
                J_.check(True if s else False if elem2(prog, e.args[k]) else None, arr, p, "handles other data than was received", e)
                if s:
                    ix.append((arr, tuple(x for x in s[1]), s[2]))
            if len(ix) == 3:
                J_.check(len({i[1] for i in ix}) == 1 and not any(i[2] for i in ix), "same", p, "handles the data of another connection", e)
            for v in connof(prog, p, seg):
                s = elem(prog, v, "qins")
                J_.check(same(v, e.args[1]) if s else None, "which", p, "queues another connection", e)
            qi = [idx(seg, b) for _, b in bumps(prog, p, seg)]
            J_.check(all(i > idx(seg, e) for i in qi), "order", p, "queues a connection before its requests are carried out", e)
        bg, ol, cl = [lastrange(p, prog, (NC, k)) for k in ("bgctx", "outlen", "closed")]
        J_.check(len(qs) <= 1, "queue", p, "puts a connection into two queues", c[-1] if c else None)
        if qs:
            J_.check(qs[0] in ("nqouts", "nqcloses"), "kind", p, "queues a connection for what has been done in this turn already", bumps(prog, p, seg)[-1][1])
            if qs[0] in ("nqouts", "nqcloses"):
                need(J_, p, seg, qs[0], "process")
        elif not (bg and nonzero(bg)):
            J_.check(False if ol is None or nonzero(ol) else True if zero(ol) else None, "unsent", p, "the answer to a request is not sent", c[-1] if c else None)
            J_.check(False if cl is None or nonzero(cl) else True if zero(cl) else None, "unclosed", p, "a closed connection is kept", c[-1] if c else None)


def elem2(prog, v):
    v = strip(v)
    return v.k == "ld" and slot(prog, v.a[1]) is not None


def qwrite(prog, R):
    F = func(prog, "qwrite", "net.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, QUE, keep=("flush_conn",))
    every(J_, "nqouts", "a connection with something to send is left out")
    for p in J_.iters:
        seg = p.segment()
        fl = evs(p, "flush_conn", seg)
        qs = queued(J_, p, seg)
        J_.check(len(fl) == 1, "flush", p, "the answers of a connection are sent %d times" % len(fl), fl[-1] if fl else None)
        J_.check(len(qs) <= 1, "queue", p, "puts a connection into two queues")
        for e in fl:
            J_.check(True if elem(prog, e.args[0], "qouts") else False if elem2(prog, e.args[0]) else None, "which", p, "sends the answers of another connection", e)
            w = strip(e.args[1])
            J_.check(w.a[0] == 0 if isc(w) else None, "from", p, "leaves out the first bytes of the answers", e)
            J_.check(all(idx(seg, b) > idx(seg, e) for _, b in bumps(prog, p, seg)), "order", p, "", e) if bumps(prog, p, seg) else None
            for v in connof(prog, p, seg):
                J_.check(same(v, e.args[0]) if elem(prog, v, "qouts") else None, "conn", p, "closes another connection", e)
        cl = lastrange(p, prog, (NC, "closed"))
        if qs:
            J_.check(qs[0] == "nqcloses" and (False if cl is None or zero(cl) else True if nonzero(cl) else None), "close", p, "closes a connection that nobody closed", bumps(prog, p, seg)[-1][1])
        else:
            J_.check(False if cl is None or nonzero(cl) else True if zero(cl) else None, "unclosed", p, "a connection that was closed or could not be written to is kept", fl[-1] if fl else None)


def qclose(prog, R):
    F = func(prog, "qclose", "net.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, FIN, rmw=True, keep=("conn_free",))
    every(J_, "nqcloses", "a closed connection is left open")
    for p in J_.iters:
        seg = p.segment()
        cb = [e for e in evs(p, "*indirect*", seg) if ldfield(e.args[0], prog) == (QC, "closed")]
        sh = [e for e in seg if e.name in ("close", "tls_close")]
        dl, fr = evs(p, "cmap_delete", seg), evs(p, "conn_free", seg)
        last = fr[-1] if fr else dl[-1] if dl else sh[-1] if sh else None
        J_.check(len(cb) == 1, "callback", p, "the end of a connection is announced %d times" % len(cb), cb[-1] if cb else last)
        J_.check(len(sh) == 1, "close", p, "the socket is closed %d times" % len(sh), sh[-1] if sh else last)
        J_.check(len(dl) == 1, "delete", p, "a closed connection is taken out of the table %d times" % len(dl), dl[-1] if dl else last)
        J_.check(len(fr) == 1, "free", p, "the memory of a connection is given up %d times" % len(fr), fr[-1] if fr else last)
        for k, nm in (("nconns", "connections"), ("ctx.nconns", "connections of the thread")):
            s = net(prog, p, seg, k)
            J_.check(s == -1 if s is not None else None, k, p, "the end of a connection changes the number of %s by %s" % (nm, s), last)
        for k in ("tconns", "rconns"):
            s = net(prog, p, seg, k)
            J_.check(s == 0 if s is not None else None, k, p, "the end of a connection changes a total by %s" % s, last)
        if fr:
            i = idx(seg, fr[0])
            c = fr[0].args[0]
            J_.check(True if elem(prog, c, "qcloses") else None, "which", p, "", fr[0])
            for e in cb + sh + dl:
                J_.check(idx(seg, e) < i, "after", p, "uses the memory of a connection after it was given up", e)
            for e in cb:
                J_.check(same(e.args[1], c) or None, "cb which", p, "", e)
            for e in dl:
                J_.check(same(e.args[1], c) or None, "del which", p, "", e)
        # once the descriptor is closed another thread may use it again: the table entry must already be unreachable by then only for this thread
        for e in sh:
            f = [a for a in e.args if ldfield(a, prog) == (NC, "fd")]
            J_.check(True if f else None, "fd", p, "", e)
            tl = lastrange(p, prog, (NC, "tls"))
            if tl:
                J_.check((e.name == "tls_close") if nonzero(tl) else (e.name == "close") if zero(tl) else None, "tls", p, "closes a connection the wrong way", e)
        for e in cb:
            for x in sh:
                J_.check(True, "order", p, "", x)
        nt = [x for x in stores(p, prog, QC, "ntlsconns", seg=seg)]
        tl = lastrange(p, prog, (NC, "tls"))
        if tl and nonzero(tl):
            J_.check(len(nt) == 1 and lsub_one(nt[0].args[1]) == -1, "ntls", p, "", nt[0] if nt else last) if nt else None


def lsub_one(v):
    d = linz(v)
    return d[0] if d and len(d[1]) == 1 else None


def qreset(prog, R):
    F = func(prog, "qreset", "net.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, ORD)
    for p in J_.paths:
        for n in PAIR:
            s = list(stores(p, prog, QC, n))
            J_.check(True if s and same(s[-1].args[1], ZERO) else False if not s and not any(e.name not in ("=",) for e in p.ev) or s and isc(strip(s[-1].args[1])) else None, n, p,
                     "the connections of the last turn are worked on again (%s)" % n, s[-1] if s else None)


STEPS = ("qreset", "qaccept", "qattach", "qread", "qprocess", "qwrite", "qclose")
BEFORE = (("qreset", "qaccept"), ("qaccept", "qattach"), ("qaccept", "qread"), ("qattach", "qprocess"), ("qread", "qprocess"), ("qprocess", "qwrite"),
          ("qwrite", "qclose"), ("qattach", "qclose"), ("qread", "qclose"), ("qprocess", "qclose"))
ELEM = {"events": None, "qreads": 8, "qins": 8, "qinpkts": 8, "qinpktlens": 4, "qcloses": 8, "qouts": 8, "qattachs": 8, "inpkts": None}


def qthread(prog, R):
    F = func(prog, "qthread", "net.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, ORD, keep=STEPS + ("sumstats_global", "getevents"))
    for p in J_.iters:
        seg = p.segment()
        ge = evs(p, "getevents", seg)
        J_.check(len(ge) == 1, "wait", p, "waits for events %d times" % len(ge), ge[-1] if ge else None)
        for e in ge:
            J_.check(True if ldfield(e.args[2], prog) == (QC, "queuesize") else False if isc(strip(e.args[2])) and strip(e.args[2]).a[0] > 1 else None, "room", p,
                     "takes more events than there is room for", e)
            s = list(stores(p, prog, QC, "nevents", seg=seg))
            J_.check(True if s and isres(s[-1].args[1], e) else None, "nevents", p, "", e)
        some = [e for e in seg if e.name in STEPS]
        r = None
        for t in p.facts:
            if ge and isres(t, ge[0]) or ldfield(t, prog) == (QC, "nevents"):
                r = p.range(t)
        for pr, x, y, v, t in cmpfacts(p):
            if pr == "slt" and isc(strip(x)) and strip(x).a[0] == 0 and v is not None and ge and (isres(y, ge[0]) or ldfield(y, prog) == (QC, "nevents")):
                r = (1, 2 ** 31, frozenset()) if v else (-2 ** 31, 0, frozenset())
        if not some:
            J_.check(False if r and r[0] > 0 else True if r and r[1] <= 0 else None, "idle", p, "does nothing although there are events", ge[0] if ge else None)
            continue
        J_.check(False if r and r[1] < 0 else True, "failed", p, "works on events that it did not get", some[0])
        for n in STEPS:
            e = evs(p, n, seg)
            J_.check(len(e) == 1, n, p, "does the step %s %d times" % (n, len(e)), e[-1] if e else some[0])
        for a, b in BEFORE:
            ea, eb = evs(p, a, seg), evs(p, b, seg)
            if ea and eb:
                J_.check(idx(seg, ea[0]) < idx(seg, eb[0]), a + "<" + b, p, "does %s before %s: what it finds is left over or lost" % (b, a), eb[0])
    seen = {}
    for p in J_.enters + J_.ends + J_.paths:
        for e in p.ev:
            if e.name == "=":
                f = fieldof(prog, e.args[0])
                if f and f[0] == QC and f[1] in ELEM and strip(e.args[1]).k == "new":
                    seen.setdefault(f[1], (p, e))
                f2 = strip(e.args[1])
    for m, (p, e) in seen.items():
        d = linz(strip(e.args[1]).a[1])
        q = [k for x, k in d[1].items() if ldfield(x, prog) == (QC, "queuesize")] if d else []
        if len(d[1]) != 1 or not q:
            J_.check(False if not d[1] and m != "events" else None, "size " + m, p, "the room for %s does not depend on the number of events" % m, e)
            continue
        want = ELEM[m] or (qread.stride if m == "inpkts" else 12)
        if want:
            J_.check(q[0] >= want and d[0] >= 0, "size " + m, p, "there is not room for all connections in %s" % m, e)
    J_.check(len(seen) >= len(ELEM) or None, "arrays", J_.iters[0], "") if J_.iters else None


qread.stride = None


def cmap(prog, R):
    CM = "struct.cmap"
    hashes = {}
    F = func(prog, "cmap_insert", "net.c")
    conn = mk("p", 1)

    def bucket(A):
        """index part of the address of a bucket"""
        d = linz(A)
        if d is None:
            return None
        b = [x for x in d[1] if ldfield(x, prog) == (CM, "buckets")]
        if len(b) != 1:
            return None
        return frozenset((hkey(x), m) for x, m in d[1].items() if x is not b[0]), d[0]

    def hkey(x):
        """the index with the table and the descriptor replaced by markers"""
        s = []

        def w(t):
            t = strip(t)
            if ldfield(t, prog) == (NC, "fd") or t is mk("p", 1) and hkey.fd:
                return "FD"
            if ldfield(t, prog) == (CM, "nbuckets"):
                return "NB"
            if t.k == "ld":
                return "ld"
            if t.k == "call":
                return "call %s(%s)" % (t.a[1], ",".join(w(a) for a in t.a[2] if isinstance(a, T)) if len(t.a) > 2 and isinstance(t.a[2], tuple) else "")
            if t.k == "c":
                return str(t.a[0])
            return t.k + "(" + ",".join(w(a) if isinstance(a, T) else str(a) for a in t.a) + ")"
        return w(x)
    hkey.fd = False
    if F is not None:
        J_ = J(prog, R, F, MAP, keep=("cmap_grow",))
        for p in J_.paths:
            bs = [(e, bucket(e.args[0])) for e in p.ev if e.name == "=" and bucket(e.args[0])]
            nx = [e for e in stores(p, prog, NC, "next")]
            ln = [e for e in stores(p, prog, CM, "len")]
            bs = [(e, b) for e, b in bs if not fieldof(prog, e.args[0]) or fieldof(prog, e.args[0])[0] not in (CM, NC)]
            J_.check(len(bs) == 1 or (None if len(bs) > 1 else False), "bucket", p, "a connection is not entered into the table")
            J_.check(len(nx) >= 1, "next", p, "the connections of the same bucket are lost" if not nx else "")
            J_.check(len(ln) == 1 and lsub_one(ln[0].args[1]) == 1 if ln else False, "len", p, "counts the table wrongly", ln[-1] if ln else None)
            for e, b in bs:
                hashes.setdefault("insert", (b, J_, p, e))
                J_.check(same(e.args[1], conn) or (None if strip(e.args[1]).k in ("phi",) else False), "value", p, "enters something else than the connection", e)
                for x in nx[-1:]:
                    v = strip(x.args[1])
                    J_.check(bucket(v.a[1]) == b if v.k == "ld" else False if isc(v) else None, "chain", p, "the connections of the same bucket are lost", x)
                    if v.k == "ld":
                        J_.check(not (idx(p.ev, e) < idx(p.ev, x) and v.sites), "order", p, "", x) if idx(p.ev, x) < idx(p.ev, e) else \
                            J_.check(False if strip(x.args[1]) is conn else None, "order", p, "links a connection to itself", x)
            g = evs(p, "cmap_grow")
            for e in g:
                for b in bs:
                    ns = [x for x in walk(b[0].args[0]) if x.k == "ld" and ldfield(x, prog) in ((CM, "nbuckets"), (CM, "buckets"))]
                    old = [x for x in ns if x.a[0] == 0 or isinstance(x.a[0], int) and instbefore(J_.S.f, x.a[0], e.I.id)]
                    J_.check(not old, "stale", p, "enters a connection where it would have been in the old table", e)
                    J_.check(idx(p.ev, e) < idx(p.ev, b[0]), "grow", p, "makes the table larger after the place was chosen", e)
    F = func(prog, "cmap_get", "net.c")
    if F is not None:
        hkey.fd = True
        J_ = J(prog, R, F, MAP)
        for p in J_.paths:
            v = strip(p.ret)
            fds = []
            for pr, x, y, tv, t in cmpfacts(p):
                if pr == "eq":
                    for a, b in ((x, y), (y, x)):
                        if ldfield(a, prog) == (NC, "fd") and strip(b) is mk("p", 1):
                            fds.append(tv)
            if zero(pr_(p, v)):
                J_.check(True, "none", p, "")
            elif v.k != "c":
                J_.check(False if not fds or fds[-1] is False else True, "found", p, "finds another connection than the one asked for")
        for p in J_.iters:
            for (a, b) in p.phis.values():
                if a is not None and b is not None and strip(b).k == "ld":
                    f = ldfield(b, prog)
                    if f:
                        J_.check(f == (NC, "next"), "walk", p, "leaves out connections")
        for p in J_.enters:
            for i, (a, b) in p.phis.items():
                if b is not None and strip(b).k == "ld":
                    bk = bucket(strip(b).a[1])
                    if bk:
                        hashes.setdefault("get", (bk, J_, p, None))
        hkey.fd = False
    F = func(prog, "cmap_delete", "net.c")
    if F is not None:
        J_ = J(prog, R, F, MAP)
        for p in J_.enters:
            for i, (a, b) in p.phis.items():
                if b is not None and strip(b).k == "ld":
                    bk = bucket(strip(b).a[1])
                    if bk:
                        hashes.setdefault("delete", (bk, J_, p, None))
        for p in J_.paths:
            ln = [e for e in stores(p, prog, CM, "len")]
            J_.check(len(ln) == 1 and lsub_one(ln[0].args[1]) == -1 if ln else False, "len", p, "counts the table wrongly", ln[-1] if ln else None)
            nx = [e for e in p.ev if e.name == "=" and (fieldof(prog, e.args[0]) == (NC, "next") or (bucket(e.args[0]) and fieldof(prog, e.args[0]) is None))]
            via = [e for e in p.ev if e.name == "=" and e not in nx and fieldof(prog, e.args[0]) is None]
            J_.check(True if nx else None if via else False, "unlink", p, "a closed connection stays in the table")
            nx += via
            for e in nx:
                v = strip(e.args[1])
                J_.check(ldfield(v, prog) == (NC, "next") if v.k == "ld" else False if isc(v) else None, "rest", p, "connections of the same bucket are lost", e)
    ks = {k: v[0] for k, v in hashes.items()}
    for k, (b, J_, p, e) in hashes.items():
        for k2, b2 in ks.items():
            if k < k2:
                J_.check(b == b2 or (None if any("phi" in str(x) or "ssa" in str(x) for x in (b, b2)) else False), "hash %s %s" % (k, k2), p, "a connection is not looked for where it was entered (%s, %s)" % (k, k2), e)
    F = func(prog, "cmap_grow", "net.c")
    if F is not None:
        J_ = J(prog, R, F, MAP, keep=("cmap_insert",))
        for p in J_.iters:
            ins = evs(p, "cmap_insert", p.segment())
            for e in ins:
                J_.check(strip(e.args[0]).k != "p", "into", p, "enters the connections into the old table again", e)
                sn = [x for x in stores(p, prog, NC, "next", seg=p.segment())]
                for (a, b) in p.phis.values():
                    if a is not None and strip(e.args[1]) is a and b is not None and isc(strip(b)):
                        J_.check(False, "next", p, "loses the rest of a bucket", e)
                    if b is not None and strip(b).k == "ld" and ldfield(b, prog) == (NC, "next"):
                        t = strip(b)
                        if t.a[0] == 0:
                            J_.check(True, "next", p, "")
                            continue
                        J_.check(instbefore(J_.S.f, t.a[0], e.I.id) if isinstance(t.a[0], int) else None, "next", p, "loses the rest of a bucket", e)
                        for x in sn:
                            if idx(p.segment(), x) < idx(p.segment(), e) and isinstance(t.a[0], int):
                                J_.check(instbefore(J_.S.f, t.a[0], x.I.id), "next2", p, "loses the rest of a bucket", x)
        for p in J_.paths:
            fr = [e for e in p.ev if e.name in FREE]
            J_.check(len(fr) == 1, "free", p, "the old table is given up %d times" % len(fr), fr[-1] if fr else None)
        fromfirst(J_, "leaves out the first bucket")


def pr_(p, v):
    if isc(v):
        return v.a[0], v.a[0], frozenset()
    r = [p.range(t) for t in p.facts if strip(t) is v]
    return r[-1] if r else (-2 ** 63, 2 ** 63 - 1, frozenset())


def connmem(prog, R):
    F = func(prog, "conn_new", "net.c")
    if F is not None:
        J_ = J(prog, R, F, CNT)
        for p in J_.paths:
            v = strip(p.ret)
            if v.k != "new":
                R.unknown += 1
                continue
            sd = prog.structs.get(NC)
            st = {}
            for e in p.ev:
                if e.name == "=" and fieldof(prog, e.args[0]) and fieldof(prog, e.args[0])[0] == NC:
                    st[fieldof(prog, e.args[0])[1]] = (strip(e.args[1]), e)
            J_.check(st.get("fd", (None,))[0] is mk("p", 0) if "fd" in st else False, "fd", p, "a new connection has another socket", st.get("fd", (None, None))[1])
            J_.check(st.get("ctx", (None,))[0] is mk("p", 1) if "ctx" in st else False, "ctx", p, "a new connection does not know its thread", st.get("ctx", (None, None))[1])
            z = zeroed(p, v, sd["sz"] if sd and "sz" in sd else None)
            if z is False:
                for m in ("closed", "tls", "out", "outlen", "outcap", "addr", "bgctx"):
                    x = st.get(m)
                    J_.check(True if x and same(x[0], ZERO) else False, "zero " + m, p, "the member %s of a new connection is not set" % m)
            else:
                J_.check(z, "zero", p, "")
    F = func(prog, "conn_free", "net.c")
    if F is not None:
        J_ = J(prog, R, F, FIN)
        once(J_, NC, ("out", "addr"), mk("p", 0))


def zeroed(p, obj, size):
    """the object was filled with zeros (None: cannot tell)"""
    for k in p.st.mem:
        if k[0] == "Z" and k[1] is obj:
            return True
    for e in p.ev:
        if e.name in ("memset", "calloc", "xcalloc"):
            return True
    return None


def once(J_, struct, members, obj):
    """members and the object itself are given up once each, the object last"""
    prog = J_.prog
    for p in J_.paths:
        r = pr_(p, obj)
        if zero(r):
            J_.check(not [e for e in p.ev if e.name in FREE] or None, "null", p, "")
            continue
        fr = [e for e in p.ev if e.name in FREE and strip(e.args[0]) is obj]
        J_.check(len(fr) == 1, "self", p, "the memory of a connection is given up %d times" % len(fr), fr[-1] if fr else None)
        for m in members:
            fm = [e for e in p.ev if e.name in FREE and ldfield(e.args[0], prog) == (struct, m)]
            gone = [p.range(t) for t in p.facts if ldfield(t, prog) == (struct, m)]
            if gone and zero(gone[-1]):
                continue
            J_.check(len(fm) == 1, m, p, "the member %s is given up %d times" % (m, len(fm)), fm[-1] if fm else None)
            for e in fm:
                for f in fr:
                    J_.check(idx(p.ev, e) < idx(p.ev, f), "order " + m, p, "uses a connection after it was given up", e)


def evmem(prog, R):
    CO = "struct.conn"
    F = func(prog, "evclosed", "conn.c")
    if F is not None:
        J_ = J(prog, R, F, FIN, keep=("buf_clear", "args_free", "pg_free"))
        for p in J_.paths:
            obj = [e.args[0] for e in p.ev if e.name in FREE]
            J_.check(len(obj) == 1, "self", p, "the memory of a connection is given up %d times" % len(obj))
            if len(obj) != 1:
                continue
            o = strip(obj[0])
            fi = [i for i, e in enumerate(p.ev) if e.name in FREE][0]
            for n, m in (("buf_clear", "packet"), ("args_free", "args"), ("pg_free", "pg")):
                es = evs(p, n)
                gone = [p.range(t) for t in p.facts if ldfield(t, prog) == (CO, m)]
                if gone and zero(gone[-1]):
                    continue
                J_.check(len(es) == 1, n, p, "what a connection has in %s is given up %d times" % (m, len(es)), es[-1] if es else None)
                for e in es:
                    J_.check(idx(p.ev, e) < fi, "order " + n, p, "uses a connection after it was given up", e)
    F = func(prog, "evopened", "conn.c")
    if F is not None:
        J_ = J(prog, R, F, CNT)
        for p in J_.paths:
            su = evs(p, "net_conn_setudata")
            J_.check(len(su) == 1, "udata", p, "a new connection gets no state of its own", su[-1] if su else None)
            for e in su:
                v = strip(e.args[1])
                J_.check(v.k == "new" if v.k in ("new", "c", "g", "al") else None, "fresh", p, "a new connection gets the state of another", e)


# ---------------------------------------------------------------- what was answered reaches the client
SEND = "everything that was answered is sent, in order and once"
HOLD = "the output buffer keeps every byte until it is sent"


def C32(prog, R, tier):
    EXPLAIN["C32"] = ("every path through flush_conn and one turn of its loop (the bytes handed to the socket as linear forms over what was sent before), through the functions "
                      "that add to the output buffer, and through the steps that send it")
    flush_conn(prog, R)
    ensure(prog, R)
    outwrite(prog, R)
    access(prog, R)
    transport(prog, R)


def implied(p, l):
    """does a recorded comparison say that the linear form l is <= 0? True, False or None"""
    for pr, x, y, v, t in cmpfacts(p):
        if pr not in ("slt", "ult"):
            continue
        d = lsub(x, y)
        if d is None:
            continue
        k = combine(l, d, 1)        # l = d + k
        if k is not None:
            if v and k <= 1:        # d <= -1
                return True
            if not v and k > 0:     # d >= 0
                return False
        k = combine(l, d, -1)       # l = k - d
        if k is not None:
            if not v and k <= 0:
                return True
            if v and k >= 0:
                return False
    return None


def delta(lin, phis):
    """change of a linear form over one turn of a loop, or None"""
    acc, c = {}, 0
    for x, m in lin[1].items():
        if x.k != "phi":
            continue
        hit = [b for a, b in phis.values() if a is x]
        if not hit or hit[0] is None:
            return None
        d = lsub(hit[0], x)
        c += m * d[0]
        for k, v in d[1].items():
            acc[k] = acc.get(k, 0) + m * v
    return c, {k: v for k, v in acc.items() if v}


def flush_conn(prog, R):
    F = func(prog, "flush_conn", "net.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, SEND)
    WR = ("write", "send", "tls_write")
    isf = lambda t, m: ldfield(t, prog) == (NC, m)

    def args(e):
        k = 2 if e.name == "tls_write" else 1
        return e.args[k], e.args[k + 1]

    def errno_of(p):
        r = [p.range(t) for t in p.facts if t.k == "ld" and t.a[1].k == "call" and t.a[1].a[1] == "__errno_location"]
        return r[-1] if r else None
    any_ = False
    for p in J_.iters:
        seg = p.segment()
        ws = [e for e in seg if e.name in WR]
        for e in ws:
            any_ = True
            b, n = args(e)
            lb, s = linz(b), lsub_add(b, n)
            if s is None:
                continue
            ok = s[0] == 0 and len(s[1]) == 2 and {(ldfield(x, prog) or ("", ""))[1] for x in s[1]} == {"out", "outlen"} and all(m == 1 for m in s[1].values())
            d = delta(s, p.phis)
            recog = all(x.k == "phi" or isf(x, "out") or isf(x, "outlen") for x in s[1])
            if any(x.k == "phi" for x in s[1]):
                J_.check(d == (0, {}) if d is not None and recog else None, "rest", p, "does not send all of what is left", e)
            else:
                J_.check(ok if recog else None, "rest", p, "does not send exactly what is left", e)
            r = failed(p, e)
            if unchecked(p, e):
                J_.check(False, "unchecked", p, "does not look whether the bytes were sent", e)
                continue
            db = delta(lb, p.phis) if lb else None
            if db is None:
                continue
            if r is False and len(ws) == 1:
                J_.check(db[0] == 0 and len(db[1]) == 1 and list(db[1].values()) == [1] and isres(next(iter(db[1])), e), "advance", p, "goes on at another place than where the last write ended", e)
            elif r is True and len(ws) == 1:
                J_.check(db == (0, {}), "retry", p, "leaves bytes out after the socket was not ready", e)
                er = errno_of(p)
                J_.check(False if er is None else True if er[0] == er[1] and er[0] in (11, 4) else False if all(x in er[2] or er[0] > x or er[1] < x for x in (11, 4)) else None, "dead", p,
                         "tries for ever to send to a client that is gone", e)
    J_.check(True if any_ else None, "sends", J_.iters[0] if J_.iters else J_.paths[0], "")
    for p in J_.enters:
        for e in [x for q in J_.iters if q.hdr == p.hdr for x in q.segment() if x.name in WR][:1]:
            lb = linz(args(e)[0])
            if lb is None:
                continue
            c, acc = lb[0], {}
            good = True
            for x, m in lb[1].items():
                v = x
                if x.k == "phi":
                    h = [b for i, (a, b) in p.phis.items() if i == x.a[0]]
                    if not h:
                        good = False
                        break
                    v = h[0]
                l = linz(v)
                c += m * l[0]
                for k, n in l[1].items():
                    acc[k] = acc.get(k, 0) + m * n
            if good:
                ok = c == 0 and all(isf(x, "out") and m == 1 or strip(x) is mk("p", 1) and m == 1 for x, m in acc.items()) and any(isf(x, "out") for x in acc)
                J_.check(ok if all(isf(x, "out") or isf(x, "outlen") or x.k in ("p", "c") for x in acc) else None, "start", p, "does not begin with the first byte that was not sent")
    for p in J_.paths:
        ol = list(stores(p, prog, NC, "outlen"))
        J_.check(same(ol[-1].args[1], ZERO) if ol and isc(strip(ol[-1].args[1])) else False if not ol and not noneleft(prog, p) else None, "empty", p, "what was sent is sent again", ol[-1] if ol else None)
        cl = [e for e in stores(p, prog, NC, "closed")]
        dead = any(not same(e.args[1], ZERO) for e in cl)
        ws = [(e, failed(p, e)) for e in p.ev if e.name in WR]
        lo = loops_of(p)
        tail_ = ws[-1:] if ws and lo and idx(p.ev, ws[-1][0]) > lo[-1][1] else []
        if tail_:
            e, f = tail_[0]
            er = errno_of(p)
            if f is True:
                if er is None and dead or er and er[0] == er[1] == 11:
                    J_.check(False, "slow", p, "gives up on a client that is only slow" if dead else "drops what a slow client has not taken yet", e)
                else:
                    J_.check(dead, "gone", p, "keeps a connection that cannot be written to", e)
            elif f is False and not dead:
                b, n = args(e)
                t = [x for t in p.facts for x in walk(t) if isres(x, e)]
                l = lsub(n, t[0]) if t else None
                J_.check(implied(p, l) if l is not None and implied(p, l) is not None else None if any(implied(p, q) for q in ()) else None if l is None else False, "short", p,
                         "drops what one write did not take", e)
        elif not lo and not ws:
            l = None
            for t in p.facts:
                if isf(t, "outlen"):
                    l = p.range(t)
            # nothing to send
            J_.check(None, "none", p, "")
        if dead and not any(f is True for e, f in ws):
            J_.check(None if not ws else False, "why", p, "closes a connection that could be written to", cl[0])


def outterm(prog, t, m):
    return ldfield(t, prog) == (NC, m)


def ensure(prog, R):
    F = func(prog, "net_conn_out_ensure", "net.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, HOLD)
    amount = mk("p", 1)
    for p in J_.paths:
        so = list(stores(p, prog, NC, "out"))
        sc = list(stores(p, prog, NC, "outcap"))
        sl = list(stores(p, prog, NC, "outlen"))
        J_.check(not sl or None, "len", p, "", sl[0] if sl else None)
        fld = {}
        for t in p.facts:
            for x in walk(t):
                if x.k == "ld" and ldfield(x, prog) and ldfield(x, prog)[0] == NC:
                    fld.setdefault(ldfield(x, prog)[1], x)
        if not so:
            J_.check(not sc, "cap", p, "says that there is more room than there is", sc[0] if sc else None)
            if "outcap" in fld and "outlen" in fld:
                l = (0, {amount: 1, fld["outcap"]: -1, fld["outlen"]: 1})
                r = implied(p, l)
                J_.check(r if r is not None else False if partial(prog, p, amount, "outcap") else None, "enough", p, "does not make room for all of the bytes")
            else:
                J_.check(False if not p.facts or partial(prog, p, amount, "outcap") else None, "enough", p, "does not make room for all of the bytes")
            continue
        v = strip(so[-1].args[1])
        fr = [e for e in p.ev if e.name in FREE]
        if v.k != "new":
            continue
        J_.check(len(fr) == 1, "free", p, "the old buffer is given up %d times" % len(fr), fr[-1] if fr else so[-1])
        cp = [e for e in p.ev if e.name in ("memcpy", "memmove") and strip(e.args[0]) is v]
        J_.check(True if cp or noneleft(prog, p) else False, "copy", p, "loses what was answered before", so[-1])
        for e in cp[:1]:
            J_.check(outterm(prog, e.args[1], "out") if strip(e.args[1]).k == "ld" else None, "copy from", p, "", e)
            J_.check(outterm(prog, e.args[2], "outlen") or (False if isc(strip(e.args[2])) or same(e.args[2], amount) else None), "copy len", p, "loses a part of what was answered before", e)
            for f in fr:
                J_.check(idx(p.ev, e) < idx(p.ev, f), "copy order", p, "copies from a buffer that was given up", e)
        for e in sc[-1:]:
            J_.check(same(e.args[1], v.a[1]), "cap", p, "says that there is another amount of room than there is", e)
        J_.check(True if sc else False, "cap", p, "does not note how much room there is", so[-1])
        if "outlen" in fld:
            s = linz(v.a[1])
            l = (-s[0], {**{k: -m for k, m in s[1].items()}, amount: 1, fld["outlen"]: 1})
            l = (l[0], {k: m for k, m in l[1].items() if m})
            r = implied(p, l) if l[1] else l[0] <= 0
            J_.check(r if r is not None else False if partial(prog, p, amount, None) else None, "room", p, "does not make room for all of the bytes", so[-1])


def noneleft(prog, p):
    """the path knows that nothing is in the output buffer"""
    return any(zero(p.range(t)) for t in p.facts if outterm(prog, t, "outlen")) or \
        any(v == (pr == "eq") and isc(strip(y)) and strip(y).a[0] == 0 and outterm(prog, x, "outlen")
            for pr, x, y, v, t in cmpfacts(p) if pr in ("eq", "ne"))


def partial(prog, p, amount, m):
    """the number of bytes to add is compared with the size of the buffer, without what is in it already"""
    for pr, x, y, v, t in cmpfacts(p):
        d = lsub(x, y)
        if pr in ("ult", "slt") and d and amount in d[1] and len(d[1]) == 2 and not any(outterm(prog, q, "outlen") for q in d[1]):
            return True
    return False


def outwrite(prog, R):
    from outsim import inraw
    for nm, dat in (("net_conn_out_write", True), ("net_conn_out_write_byte", False)):
        F = func(prog, nm, "net.c")
        if F is None:
            R.unknown += 1
            continue
        J_ = J(prog, R, F, HOLD, inlinef=inraw())
        n = mk("p", 2) if dat else C(1)
        for p in J_.paths:
            en = evs(p, "net_conn_out_ensure")
            for e in en:
                d = lsub(e.args[1], n)
                J_.check(d[0] >= 0 if d is not None and not d[1] else None, "ensure", p, "makes room for fewer bytes than it adds", e)
            fld = {}
            for t in p.facts:
                for x in walk(t):
                    if x.k == "ld" and ldfield(x, prog) and ldfield(x, prog)[0] == NC:
                        fld.setdefault(ldfield(x, prog)[1], x)
            if not en:
                if "outcap" in fld and "outlen" in fld:
                    l = ladd2(linz(n), (0, {fld["outcap"]: -1, fld["outlen"]: 1}))
                    r = implied(p, l)
                    if r is None and dat and partial(prog, p, n, "outcap"):
                        r = False
                    if r is None and not dat:
                        eq = [v for pr, x, y, v, t in cmpfacts(p) if pr == "eq" and {strip(x), strip(y)} == {fld["outcap"], fld["outlen"]}]
                        r = True if eq and eq[-1] is False else False if eq else None
                    J_.check(r, "room", p, "writes past the end of the output buffer")
                else:
                    J_.check(False, "room", p, "writes past the end of the output buffer")
            sl = list(stores(p, prog, NC, "outlen"))
            if len(sl) != 1:
                J_.check(False if not sl else None, "len", p, "what was added is never sent")
                continue
            v = linz(sl[0].args[1])
            o = [x for x in v[1] if outterm(prog, x, "outlen")]
            d = ladd2(v, (0, {o[0]: -1})) if len(o) == 1 else None
            J_.check(d == linz(n) if d is not None else None, "len", p, "counts another number of bytes than was added", sl[0])
            if dat:
                cp = [e for e in p.ev if e.name in ("memcpy", "memmove")]
                J_.check(len(cp) == 1 or (None if cp else False), "copy", p, "does not add the bytes")
                for e in cp:
                    J_.check(same(e.args[1], mk("p", 1)) if strip(e.args[1]).k in ("p", "off") else None, "data", p, "adds other bytes", e)
                    J_.check(same(e.args[2], n) if strip(e.args[2]).k in ("p", "bin", "c") else None, "n", p, "adds another number of bytes", e)
                    a = linz(e.args[0])
                    J_.check(a[0] == 0 and len(a[1]) == 2 if a and all(outterm(prog, x, "out") or outterm(prog, x, "outlen") for x in a[1]) else None, "at", p, "adds the bytes at the wrong place", e)


def ladd2(a, b):
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) + v
    return a[0] + b[0], {k: v for k, v in d.items() if v}


def access(prog, R):
    for nm, m in (("net_conn_out", "out"), ("net_conn_out_len", "outlen"), ("net_conn_out_cap", "outcap"), ("net_conn_isclosed", "closed"), ("net_conn_udata", "udata")):
        F = func(prog, nm, "net.c")
        if F is None:
            continue
        J_ = J(prog, R, F, HOLD)
        for p in J_.paths:
            f = [ldfield(x, prog) for x in walk(p.ret) if x.k == "ld" and ldfield(x, prog)] if p.ret is not None else []
            J_.check((NC, m) in f if f else None, nm, p, "answers another member than %s" % m)
    for nm, m in (("net_conn_close", "closed"), ("net_conn_out_setlen", "outlen"), ("net_conn_setudata", "udata")):
        F = func(prog, nm, "net.c")
        if F is None:
            continue
        J_ = J(prog, R, F, HOLD)
        for p in J_.paths:
            s = list(stores(p, prog, NC, m))
            J_.check(True if s else False, nm, p, "does not set %s" % m)
            for e in s[-1:]:
                if m == "closed":
                    J_.check(isc(strip(e.args[1])) and strip(e.args[1]).a[0] & 1 == 1, nm + " value", p, "a closed connection counts as open", e)
                else:
                    J_.check(same(e.args[1], mk("p", 1)), nm + " value", p, "sets %s to another value" % m, e)


def transport(prog, R):
    """what was answered before is sent before the work of a command takes the connection; where it is dropped"""
    for mod in ("net.c", "conn.c", "postgres.c", "cmds.c", "http.c", "resp.c", "memcache.c"):
        M = prog.mods.get(mod)
        for F in (M.funcs.values() if M else ()):
            moved(prog, R, F)
    F = func(prog, "noreply_drop", "conn.c")
    if F is not None:
        J_ = J(prog, R, F, HOLD)
        for p in J_.paths:
            for e in evs(p, "net_conn_out_setlen"):
                J_.check(False if isc(strip(e.args[1])) else same(e.args[1], mk("p", 1)) or None, "mark", p, "drops the answers of earlier requests", e)
                d = [v for pr, x, y, v, t in cmpfacts(p) if pr in ("ult", "slt") and strip(x) is mk("p", 1)]
                nr = [p.range(t) for t in p.facts if ldfield(t, prog) == ("struct.conn", "noreply")]
                J_.check(False if not nr or zero(nr[-1]) else True if nonzero(nr[-1]) else None, "asked", p, "drops an answer that was asked for", e)
                pr_o = [p.range(t) for t in p.facts if ldfield(t, prog) == ("struct.conn", "proto")]
                J_.check(False if not pr_o or pr_o[-1][0] > 1 or pr_o[-1][1] < 1 else pr_o[-1][0] == pr_o[-1][1] == 1 or None, "memcache", p, "drops the answer of another protocol", e)
    F = func(prog, "evdata", "conn.c")
    if F is not None:
        J_ = J(prog, R, F, HOLD, keep=("parse_command", "evcommand", "pg_precommand", "pg_respond", "noreply_drop"))
        for p in J_.iters:
            seg = p.segment()
            for e in evs(p, "noreply_drop", seg) + evs(p, "net_conn_out_setlen", seg):
                m = strip(e.args[1])
                if m.k == "call" and m.a[1] == "net_conn_out_len":
                    w = [x for x in seg if x.name in ("evcommand", "conn_write_error", "pg_respond")]
                    b = [x for x in seg if x.I is not None and x.name == "net_conn_out_len" and x.I.id == m.a[0]]
                    if b and w:
                        J_.check(idx(seg, b[0]) < idx(seg, w[0]), "before", p, "", e) if idx(seg, b[0]) < idx(seg, w[0]) else None
                elif isc(m):
                    J_.check(False, "all", p, "drops the answers of earlier requests", e)


def moved(prog, R, F):
    """no pointer into the output buffer is used after the buffer may have moved"""
    out = ("struct.net_conn", prog.field_off("struct.net_conn", "out"))
    insts = list(F.insts())
    defs = {I.id: I for I in insts}

    def isout(I):
        if I.op == "call":
            return bool(I.callee) and I.callee[0] == "f" and I.callee[1] == "net_conn_out"
        if I.op == "load" and I.a[0][0] == "v" and I.a[0][1] in defs:
            g = defs[I.a[0][1]]
            return g.op == "getelementptr" and bool(g.d["path"]) and tuple(g.d["path"][-1]) == out
        return False

    src = [I for I in insts if isout(I)]
    if not src:
        return
    R.analysed(F)
    at = {}
    for bid, B in F.blocks.items():
        for k, I in enumerate(B.insts):
            at[I.id] = (bid, k)
    mv = []
    for I in insts:
        if I.op == "call" and I.callee and I.callee[0] == "f":
            G = prog.get(F.mod, I.callee[1])
            if G is not None and out in prog.modset_of(G):
                mv.append(I)

    def vals(I):
        r = [x[0] if isinstance(x[0], tuple) else x for x in I.a if x]
        return {x[1] for x in r if isinstance(x, tuple) and x[0] == "v"}

    def reach(a, b, avoid):
        """an execution can go from just after a to b without passing avoid"""
        (ba, ka), (bb, kb), av = at[a], at[b], at[avoid] if avoid is not None else (None, 0)
        if ba == bb and ka < kb and not (av[0] == ba and ka < av[1] < kb):
            return True
        if av[0] == ba and av[1] > ka:
            return False
        seen, w = set(), list(F.blocks[ba].succs)
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == bb and not (av[0] == x and av[1] < kb):
                return True
            if x != av[0]:
                w.extend(F.blocks[x].succs)
        return False

    for D in src:
        der = {D.id}
        again = True
        while again:
            again = False
            for I in insts:
                if I.id not in der and I.op in ("getelementptr", "bitcast", "phi", "select") and vals(I) & der:
                    der.add(I.id)
                    again = True
        uses = [I for I in insts if (I.op == "store" and I.a[1][0] == "v" and I.a[1][1] in der) or
                (I.op in ("load", "call") and vals(I) & der)]
        bad = [(K, U) for K in mv if reach(D.id, K.id, None) for U in uses if U.id != K.id and reach(K.id, U.id, D.id)]
        if bad:
            R.bad(HOLD, "%s|moved" % F.name, bad[0][1].loc, "%s: uses a pointer into the output buffer after '%s' may have moved it" % (F.name, bad[0][0].callee[1]), [])
        else:
            R.ok(HOLD, "%s pointer" % F.name)
