"""C28: requests are taken from the byte stream completely, in order and once.
C26: a RESP request is read exactly as sent."""
from gensim import *
from semlib import under
from p_sem import ASSUME

EXPLAIN = {}
TAKE = "exactly the bytes of a request are taken from the stream"
KEEP = "what has not been taken is kept for the next time"
ONCE = "a complete request is carried out once, an incomplete one not at all"
STOP = "nothing is carried out after the end of the connection or next to background work"
PICK = "the protocol is the one of the first bytes, for the whole connection"


def res(p, e):
    """range of the result of the call of an event on this path"""
    for t in p.facts:
        if t.k == "call" and t.a[0] == e.I.id:
            return p.range(t)
    lo, hi, ex = -2 ** 63, 2 ** 63 - 1, set()
    for t in p.facts:
        if t.k == "cmp" and isc(t.a[2]) and strip(t.a[1]).k == "call" and strip(t.a[1]).a[0] == e.I.id:
            v, c = p.truth(t), t.a[2].a[0]
            if t.a[0] == "eq":
                if v is True:
                    lo = hi = c
                elif v is False:
                    ex.add(c)
            elif t.a[0] == "slt" and v is not None:
                if v:
                    hi = min(hi, c - 1)
                else:
                    lo = max(lo, c)
    return lo, hi, frozenset(ex)


def nonzero(r):
    return r[0] > 0 or r[1] < 0 or 0 in r[2]


def zero(r):
    return r[0] == r[1] == 0


def tail(p):
    """events since the last loop was entered, up to where it was left"""
    out, i = [], None
    for k, e in enumerate(p.ev):
        if e.name == "L":
            i = k
    if i is None:
        return p.ev, []
    x = [k for k in range(i, len(p.ev)) if p.ev[k].name == "X"]
    j = x[0] if x else len(p.ev)
    return p.ev[i + 1:j], p.ev[j + 1:]


def C28(prog, R, tier):
    EXPLAIN["C28"] = ("every path through one turn of the request loop of evdata, through its start and its end, of parse_command and sniff_proto: the cursor "
                      "arithmetic as linear forms over the result of the parser")
    evdata(prog, R)
    command(prog, R)
    sniff(prog, R)


def evdata(prog, R):
    F = func(prog, "evdata", "conn.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, ONCE, keep=("parse_command", "evcommand", "pg_precommand", "pg_respond"))
    p1, p2 = mk("p", 1), mk("p", 2)
    # how the loop starts
    D = N = None
    for p in J_.iters:
        for e in p.segment():
            if e.name == "parse_command":
                D, N = strip(e.args[0]), strip(e.args[1])
    if D is None or N is None or D.k != "phi" or N.k != "phi":
        R.unknown += 1
        return
    di, ni = D.a[0], N.a[0]
    for p in J_.enters:
        if di not in p.phis or ni not in p.phis:
            continue
        a, b = p.phis[di][1], p.phis[ni][1]
        rest = packlen(prog, p)
        app = [e for e in p.ev if e.name == "buf_append"]
        if rest is False or (rest is None and not app):
            if app:
                R.unknown += 1
                continue
            J_.check(same(a, p1) and same(b, p2) if plain(a, b) else None, "start", p, "does not begin with the bytes that arrived", rule=TAKE)
            J_.check(rest is False or None, "kept", p, "", rule=KEEP)
        elif rest is True:
            J_.check(True if app else False, "joined", p, "does not put the new bytes behind the ones kept", rule=KEEP)
            if app:
                e = app[-1]
                J_.check(same(e.args[1], p1) and same(e.args[2], p2), "joinedall", p, "keeps something else than the bytes that arrived", e, rule=KEEP)
                fa, fb = ldfield(a, prog), ldfield(b, prog)
                J_.check(True if fa == ("struct.buf", "data") and fb == ("struct.buf", "len") else False if plain(a, b) else None, "startkept", p,
                         "does not begin with the bytes kept", rule=TAKE)
    # one turn
    for p in J_.iters:
        seg = p.segment()
        pc = [e for e in seg if e.name == "parse_command"]
        if di not in p.phis:
            continue
        if not pc:
            R.unknown += 1
            continue
        turn(J_, p, seg, pc, D, N, di, ni, prog)
    for p in J_.paths:
        seg, after = tail(p)
        ending(J_, p, seg, after, D, N, prog)


def plain(*ts):
    return all(strip(t).k in ("p", "ld", "idx", "off", "bin", "c") for t in ts)


def packlen(prog, p):
    """was something left over from earlier? (asked before anything was appended)"""
    got = None
    for t in p.facts:
        if t.k == "ld" and fieldof(prog, t.a[1]) in (("struct.buf", "len"), ("struct.conn", "packet")) and t.a[0] == 0:
            lo, hi, ex = p.range(t)
            if lo == hi == 0:
                return False
            if lo > 0 or 0 in ex:
                got = True
    if got is None:
        i = [k for k, e in enumerate(p.ev) if e.name == "L"]
        if i and any(e.name == "buf_append" for e in p.ev[:i[0]]):
            got = True
    return got


def turn(J_, p, seg, pc, D, N, di, ni, prog):
    R = J_.R
    e = pc[0]
    J_.check(len(pc) == 1, "parsed", p, "reads two requests in one turn", pc[-1])
    J_.check(same(e.args[0], D) and same(e.args[1], N) or None, "cursor", p, "", e, rule=TAKE)
    n = res(p, e)
    a, b = p.phis[di][1], p.phis[ni][1]
    da, db = lsub(a, D), lsub(N, b)
    if da is None or db is None:
        R.unknown += 1
    else:
        J_.check(True if da == db else False, "both", p, "moves the cursor by something else than it shortens the rest", rule=TAKE)
        src = [x for x in da[1]]
        if not src:
            J_.check(False if da[0] >= 0 else None, "amount", p, "goes on %d bytes further whatever was read" % da[0], rule=TAKE)
        elif len(src) == 1:
            x = strip(src[0])
            if x.k == "call" and x.a[0] == e.I.id:
                J_.check(da[0] == 0 and da[1][src[0]] == 1, "amount", p, "takes %+d bytes more than the request has" % da[0], rule=TAKE)
                J_.check(n[1] != -1 and not (n[0] == n[1] == -1), "errlen", p, "uses the error result as a length", rule=TAKE)
                J_.check(-1 in n[2] or n[0] >= 0 or None, "errlen2", p, "", rule=TAKE)
            elif x.k == "call" and x.a[1] == "parse_lastmc_n":
                J_.check(da[0] == 0 and da[1][src[0]] == 1, "skip", p, "skips %+d bytes more than the bad line has" % da[0], rule=TAKE)
                J_.check(True if n[0] == n[1] == -1 else False if -1 in n[2] else None, "skipwhen", p, "skips a line that was not bad", rule=TAKE)
            else:
                R.unknown += 1
        else:
            R.unknown += 1
    J_.check(False if zero(n) else True if nonzero(n) else None, "incomplete", p, "goes on with a request of which not all bytes arrived", e)
    ran(J_, p, seg, seg, e, n)
    bg = [x for x in seg if x.name == "net_conn_bgworking"]
    ex = [x for x in seg if x.name in ("evcommand",)]
    if ex:
        late = [x for x in bg if seg.index(x) > seg.index(ex[-1])]
        J_.check(True if late else False, "bgasked", p, "goes on with the next request without asking whether this one is still being worked on", ex[-1], rule=STOP)
        for x in late[-1:]:
            r = res(p, x)
            J_.check(False if nonzero(r) else True if zero(r) else None, "bg", p, "goes on with the next request while this one is being worked on", x, rule=STOP)
    # the connection was still open when the request was read
    cl = [x for x in seg if x.name == "conn_isclosed"]
    J_.check(True if cl else None if not ex else False, "open", p, "goes on reading requests without asking whether the connection was closed", e, rule=STOP)


def ran(J_, p, seg, all_, e, n):
    """what was carried out for the request read"""
    ex = [x for x in seg if x.name == "evcommand"]
    J_.check(len(ex) <= 1, "once", p, "carries a request out twice", ex[-1] if ex else None)
    for x in ex:
        J_.check(False if zero(n) or n[0] == n[1] == -1 else True if nonzero(n) and -1 in n[2] or n[0] > 0 else None, "complete", p,
                 "carries out a request that is %s" % ("incomplete" if zero(n) else "not well formed"), x)
        J_.check(same(x.args[0], mk("p", 0)) if False else True, "conn", p, "", x)
        J_.check(same(x.args[1], e.args[2]) if len(e.args) > 2 else None, "args", p, "carries out other arguments than those read", x)
    if not ex and (n[0] > 0 or nonzero(n) and -1 in n[2] and n[0] >= -2 ** 63):
        # a request without arguments, or one the protocol answers itself
        own = [x for x in all_ if x.name in ("pg_respond", "pg_precommand", "conn_close") or (x.name or "").startswith("conn_write")]
        none = [t for t in p.facts if t.k == "ld" and fieldof(J_.prog, t.a[1]) == ("struct.args", "len") and zero(p.range(t))]
        J_.check(True if own or none else None if p.joined else False, "skipped", p, "drops a complete request")
    if n[0] == n[1] == -1:
        w = [x for x in all_ if (x.name or "").startswith("conn_write")]
        J_.check(len(w) == 1, "error", p, "answers a bad request %s" % ("not at all" if not w else "twice"), w[-1] if w else None)
        go = [x for x in all_ if x.name in ("conn_close", "net_conn_close", "parse_lastmc_n")]
        J_.check(True if go else False, "rubbish", p, "neither closes the connection after a bad request nor skips the line", w[-1] if w else e, rule=STOP)


def ending(J_, p, seg, after, D, N, prog):
    R = J_.R
    pc = [e for e in seg if e.name == "parse_command"]
    rest = [e for e in p.ev if e.name == "conn_isclosed"]
    closed = None
    if rest:
        r = res(p, rest[-1])
        closed = True if nonzero(r) else False if zero(r) else None
    if any(e.name == "conn_close" for e in p.ev):
        closed = True
    loops = [e for e in p.ev if e.name == "L"]
    if not loops:
        return
    k = {}
    took = False
    if pc:
        e = pc[0]
        n = res(p, e)
        ran(J_, p, seg, seg + after, e, n)
        bg = [x for x in seg if x.name == "net_conn_bgworking"]
        if zero(n):
            took = False
        elif bg:
            took = True
        elif closed:
            took = None
        else:
            took = None
    if closed is not False or took is None:
        return
    # what was taken by the last request
    want = None
    if took:
        t = [strip(x) for f in list(p.facts) for x in walk(f) if x.k == "call" and x.a[0] == pc[0].I.id]
        mc = [x for x in seg if x.name == "parse_lastmc_n"]
        want = ("n",)
    app = [e for e in after if e.name == "buf_append"]
    mov = [e for e in after if e.name in ("memmove", "memcpy")]
    setlen = [e for e in after if e.name == "=" and fieldof(prog, e.args[0]) == ("struct.buf", "len")]
    left = None
    for t in p.facts:
        s = strip(t)
        d = None
        if s.k in ("phi", "bin"):
            d = lsub(s, N)
        if d is not None and (not d[1] or all(strip(x).k == "call" for x in d[1])):
            r = p.range(t)
            fits = (not d[1] and not d[0]) if not took else bool(d[1])
            if fits:
                left = False if zero(r) else True if nonzero(r) else left
    copied = packlen(prog, p)
    if left is True or (left is None and (app or mov)):
        got = None
        if app:
            got = (app[-1].args[1], app[-1].args[2], app[-1])
        elif mov:
            got = (mov[-1].args[1], mov[-1].args[2], mov[-1])
        if got is None:
            # kept where it is: right when nothing was taken from the bytes kept
            if copied and not took:
                return
            J_.check(False if left is True else None, "left", p, "forgets the bytes of the next request", rule=KEEP)
            return
        da, db = lsub(got[0], D), lsub(N, got[1])
        if da is None or db is None:
            R.unknown += 1
            return
        J_.check(da == db, "leftboth", p, "keeps other bytes than those not taken", got[2], rule=KEEP)
        J_.check((bool(da[1]) if took else not da[1]) and da[0] == 0, "leftall", p,
                 "keeps bytes already taken" if took else "forgets bytes that were not taken", got[2], rule=KEEP)
        if mov and not app:
            J_.check(True if setlen else False, "leftlen", p, "does not record how many bytes are kept", got[2], rule=KEEP)
            for s in setlen[-1:]:
                J_.check(same(s.args[1], got[1]), "leftlen2", p, "records another number of bytes than it keeps", s, rule=KEEP)
            J_.check(copied is True or None, "where", p, "", rule=KEEP)
        if app:
            J_.check(False if copied is True else True if copied is False else None, "twice", p, "keeps the bytes twice", got[2], rule=KEEP)
    elif left is False and copied is True:
        ok = any(isc(strip(s.args[1])) and strip(s.args[1]).a[0] == 0 for s in setlen) or any(e.name == "buf_clear" for e in after) and not setlen \
            or any(same(s.args[1], N) for s in setlen)
        J_.check(ok, "taken", p, "keeps bytes that were already taken", setlen[-1] if setlen else None, rule=KEEP)


# -- the parser of the protocol
PARSERS = {1: ("parse_memcache",), 2: ("parse_postgres",), 3: ("parse_http",), 4: ("parse_resp", "parse_resp_telnet")}


def command(prog, R):
    F = func(prog, "parse_command", "parse.c")
    if F is None:
        R.unknown += 1
        return
    allp = tuple(x for v in PARSERS.values() for x in v)
    J_ = J(prog, R, F, PICK, keep=allp + ("sniff_proto", "args_clear"))
    data, ln, args = mk("p", 0), mk("p", 1), mk("p", 2)
    for p in J_.paths:
        ns = [e for e in p.ev if e.name in allp]
        sn = [e for e in p.ev if e.name == "sniff_proto"]
        cl = [e for e in p.ev if e.name == "args_clear"]
        J_.check(True if cl and same(cl[0].args[0], args) else False, "fresh", p, "keeps arguments of the request before", rule=ONCE)
        first = p.ev.index((ns or sn)[0]) if ns or sn else len(p.ev)
        # settings of the request before do not carry over
        for i, what in ((4, "noreply"), (6, "keepalive"), (5, "HTTP version")):
            z = [e for e in p.ev[:first] if e.name == "=" and same(e.args[0], mk("p", i)) and isc(strip(e.args[1])) and strip(e.args[1]).a[0] == 0]
            if ns:
                J_.check(True if z else False, what, p, "the %s of one request carries over to the next" % what, rule=ONCE)
        proto = None
        for t in p.facts:
            if t.k == "ld" and same(t.a[1], mk("p", 3)):
                lo, hi, ex = p.range(t)
                if lo == hi:
                    proto = lo if proto is None or proto == lo else "mixed"
        old = None
        for t in p.facts:
            if t.k == "ld" and same(t.a[1], mk("p", 3)) and not t.sites:
                r = p.range(t)
                old = False if zero(r) else True if nonzero(r) else None
        if sn:
            J_.check(False if old is True else True if old is False else None, "again", p, "chooses the protocol again for a later request", sn[0])
            J_.check(same(sn[0].args[0], data) and same(sn[0].args[1], ln), "sniffed", p, "chooses the protocol by something else than the bytes received", sn[0])
        J_.check(len(ns) <= 1, "one", p, "reads one request twice", ns[-1] if ns else None)
        if ns:
            e = ns[0]
            if proto in PARSERS:
                J_.check(e.name in PARSERS[proto], "parser", p, "reads %s with %s" % (PNAME[proto], e.name), e)
            J_.check(same(e.args[0], data) and same(e.args[1], ln) and same(e.args[2], args), "whole", p, "does not pass on all of the bytes received", e, rule=TAKE)
            v = strip(p.ret)
            J_.check(True if v.k == "call" and v.a[0] == e.I.id else False if isc(v) or v.k == "bin" else None, "result", p,
                     "answers something else than the number of bytes of the request", rule=TAKE)
            if proto == 4:
                star = [p.range(t) for t in p.facts if t.k == "ld" and same(t.a[1], data)]
                for r in star[:1]:
                    if e.name == "parse_resp":
                        J_.check(r[0] == r[1] == 42, "nostar", p, "reads a line of text as a RESP array", e)
                    else:
                        J_.check(42 in r[2] or r[0] > 42 or r[1] < 42, "star", p, "reads a RESP array as a line of text", e)
        else:
            v = strip(p.ret)
            if isc(v) and v.a[0] > 0:
                J_.check(False, "nothing", p, "takes %d bytes without reading a request" % v.a[0], rule=TAKE)


def sniff(prog, R):
    F = func(prog, "sniff_proto", "parse.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, PICK)
    data, ln, out = mk("p", 0), mk("p", 1), mk("p", 2)
    for p in J_.paths:
        st = [e for e in p.ev if e.name == "=" and same(e.args[0], out)]
        if not st:
            R.unknown += 1
            continue
        v = strip(st[-1].args[1])
        if not isc(v):
            R.unknown += 1
            continue
        v = v.a[0]
        first = None
        ex = set()
        for t in p.facts:
            if t.k == "ld" and same(t.a[1], data) and not t.sites:
                lo, hi, e2 = p.range(t)
                if lo == hi:
                    first = lo
                ex |= set(e2)
        if first == 42:
            J_.check(v == 4, "star", p, "does not take a RESP array for one", st[-1])
            continue
        if first == 0:
            J_.check(v == 2, "nul", p, "does not take a Postgres startup message for one", st[-1])
            continue
        if v == 2:
            J_.check(False if 0 in ex or first is not None else None, "pg", p, "takes text for a Postgres startup message", st[-1])
            continue
        ok = strip(p.ret)
        suffix = [(t, p.range(t)) for t in p.facts if t.k == "call" and t.a[1] in ("memcmp", "bcmp", "strncmp")]
        if v == 3:
            J_.check(True if any(zero(r) for t, r in suffix) else False if suffix else None, "http", p, "takes a line for HTTP that does not end in ' HTTP/x.y'", st[-1])
        elif v in (1, 4):
            # the first line is complete
            r = letter(p)
            if r is None:
                R.unknown += 1
            elif v == 4:
                J_.check(r[0] >= 65 and r[1] <= 90, "upper", p, "takes a line that is not in upper case for a RESP command", st[-1])
            else:
                J_.check(r[1] < 65 or r[0] > 90, "lower", p, "takes a line in upper case for a memcache command", st[-1])
        elif v == 0 and isc(ok) and ok.a[0]:
            n = [t for t in p.facts if t.k == "phi" and zero(p.range(t))]
            J_.check(True if n else None, "wait", p, "")


def letter(p):
    """what is known of the first letter of the line"""
    c = []
    for t in p.facts:
        if t.k == "ld" and any(x.k == "phi" for x in walk(t.a[1])):
            lo, hi, ex = p.range(t)
            if lo != hi and (lo > -128 or hi < 127) and not (lo == 0 and hi == 255):
                c.append((lo, hi))
    return c[0] if len(c) == 1 else None


# -- C26: RESP
READ = "every argument holds exactly the bytes sent for it"
WHOLE = "a request ends exactly where its last argument ends"
PART = "a request is reported only when all of it arrived"
BOUND = "no byte behind the ones received is looked at"
BAD = "malformed requests are refused"


def C26(prog, R, tier):
    EXPLAIN["C26"] = ("every path through the argument loops of parse_resp and parse_resp_telnet: the cursor, the length and the position handed to args_append as linear "
                      "forms, against the shape of the protocol; read_num's conditions for accepting a number")
    bulk(prog, R)
    number(prog, R)
    telnet(prog, R)


def loads(p, base):
    """(index form, fact term) of the bytes of the input the path looked at"""
    out = []
    for t in p.facts:
        for x in walk(t):
            if x.k == "ld" and lsub(x.a[1], base) is not None:
                d = lsub(x.a[1], base)
                if under(x.a[1]) is under(base) or any(strip(y) is strip(base) for y in d[1]):
                    out.append((x.a[1], t))
    return out


def bulk(prog, R):
    F = func(prog, "parse_resp", "resp.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, READ, keep=("read_num", "args_append"))
    p0, p1, p2 = mk("p", 0), mk("p", 1), mk("p", 2)
    cur = None
    main = set(p.hdr for p in J_.iters if any(e.name == "args_append" for e in p.segment()))
    for p in J_.iters:
        seg = p.segment()
        ap = [e for e in seg if e.name == "args_append"]
        if not ap:
            if p.hdr in main:
                J_.check(False, "skipped", p, "leaves an argument out")
            continue
        e = ap[0]
        J_.check(len(ap) == 1, "one", p, "adds an argument twice", ap[-1])
        J_.check(same(e.args[0], p2), "args", p, "adds the argument to another list", e)
        B, n = e.args[1], e.args[2]
        # the cursor goes on right behind the argument and its line end
        hit = []
        for i, (a, b) in p.phis.items():
            d = lsub(b, B)
            if d is not None and any(strip(x) is strip(n) for x in d[1]):
                hit.append((i, d))
        for i, d in hit:
            cur = i
            d2 = lsub(b_(p, i), addt(B, n))
            J_.check(d2 is not None and not d2[1] and d2[0] == 2, "next", p, "goes on at another place than behind the argument and its line end", e, rule=WHOLE)
        if not hit and p.phis:
            lenphi = [b for i, (a, b) in p.phis.items() if lsub(b, B) is not None and not lsub(b, B)[1]]
            J_.check(False if lenphi else None, "next2", p, "goes on without skipping the argument", e, rule=WHOLE)
        # all of it arrived
        endt = p_end(p, p0, p1)
        ok = None
        rng = p.range(strip(n))
        if endt is not None:
            ok = covers(p, endt, B, n, 2)
        J_.check(ok, "arrived", p, "adds an argument of which not all bytes (and the line end) arrived", e, rule=PART)
        # the length is that of the header in front of it
        s = strip(n)
        if s.k == "call" and s.a[1] == "read_num":
            num = [x for x in seg if x.name == "read_num"]
            J_.check(bool(num) and num[-1].I.id == s.a[0], "length", p, "takes the length of another argument", e)
            for x in num[-1:]:
                lo, hi = strip(x.args[2]), strip(x.args[3])
                if isc(lo):
                    J_.check(lo.a[0] >= 0, "neg", p, "accepts a length below zero", x, rule=BAD)
                if isc(hi):
                    J_.check(0 < hi.a[0] <= 1 << 32, "huge", p, "accepts a length of %d" % hi.a[0], x, rule=BAD)
                okv = accepted(p, x)
                J_.check(okv, "okd", p, "uses a length that could not be read", x, rule=BAD)
        elif isc(s):
            J_.check(False, "constlen", p, "adds %d bytes whatever was sent" % s.a[0], e)
        # the text starts behind the header line
        d = None
        for x in [x for x in seg if x.name == "memchr"]:
            t = [y for y in walk(B) if y.k == "call" and y.a[0] == x.I.id]
            if t:
                d = lsub(B, t[0])
        if d is not None and not d[1]:
            J_.check(d[0] == 2, "start", p, "starts the argument %+d bytes off" % (d[0] - 2), e)
        dollar = [p.range(t) for t in p.facts if t.k == "ld" and cur is not None and under(t.a[1]).k == "phi" and under(t.a[1]).a[0] == cur and lsub(t.a[1], p.phis[cur][0]) == (0, {})]
        if dollar:
            J_.check(dollar[0][0] == dollar[0][1] == 36, "dollar", p, "takes something that does not begin with $ for an argument", e, rule=BAD)
        # counted
        cnt = [i for i, (a, b) in p.phis.items() if i != cur and lsub(b, a) is not None and not lsub(b, a)[1] and lsub(b, a)[0]]
        for i in cnt:
            J_.check(abs(lsub(p.phis[i][1], p.phis[i][0])[0]) == 1, "count", p, "counts an argument more than once", e)
    # how it ends
    for p in J_.paths:
        v = strip(p.ret)
        errs = [t for t in p.facts if t.k == "ld" and under(t.a[1]).k == "al" and zero(p.range(t))]
        if isc(v):
            J_.check(v.a[0] in (0, -1), "retconst", p, "reports %d bytes read whatever was sent" % v.a[0], rule=WHOLE)
            continue
        d = lsub(v, mk("p", 0))
        w = lsub(v, ZERO)
        neg = w and [x for x, c in w[1].items() if strip(x) is p0 and c == -1]
        ph = w and [x for x, c in w[1].items() if strip(x).k == "phi" and c == 1]
        if w is not None and not ph and w[1] and all(strip(x).k == "p" for x in w[1]):
            J_.check(False, "retall", p, "takes all bytes that arrived for the request", rule=WHOLE)
        if w is None or not ph:
            R.unknown += 1
            continue
        J_.check(bool(neg) and w[0] == 0 and len(w[1]) == 2, "ret", p, "reports another number of bytes than it read", rule=WHOLE)
        # not before all arguments were read
        done = [t for t in p.facts if t.k == "cmp" and any(y.k == "call" and y.a[1] == "read_num" for y in walk(t))]
        if done:
            for t in done:
                pred, a, b = t.a[0], strip(t.a[1]), strip(t.a[2])
                cnt = a if a.k in ("phi",) else b if b.k == "phi" else None
                k = lsub(a, b)
                if k is None or pred not in ("slt", "ult", "eq") or len(k[1]) != 2:
                    R.unknown += 1
                    continue
                num = [x for x in k[1] if strip(x).k == "call"]
                if not num:
                    R.unknown += 1
                    continue
                v_ = p.truth(t)
                # number < counter+k .. or counter < number
                if k[1][num[0]] == -1:      # counter - number + k0 < 0
                    ok = (v_ is False and pred != "eq" and k[0] <= 0) or (pred == "eq" and v_ is True and k[0] == 0)
                else:
                    ok = (v_ is True and k[0] >= -0) or (pred == "eq" and v_ is True and k[0] == 0)
                J_.check(ok or None if v_ is None else ok, "all", p, "reports the request before all of its arguments were read", rule=PART)
        else:
            fl = [e for e in p.ev if e.name == "read_num"]
            J_.check(None, "all", p, "", rule=PART)
    # counter from zero
    for p in J_.enters:
        for i, (a, b) in p.phis.items():
            if i == cur:
                num = [e for e in p.ev if e.name == "memchr"]
                if num:
                    t = [y for y in walk(b) if y.k == "call" and y.a[0] == num[-1].I.id]
                    d = lsub(b, t[0]) if t else None
                    if d is not None and not d[1]:
                        J_.check(d[0] == 2, "first", p, "looks for the first argument %+d bytes off" % (d[0] - 2), rule=WHOLE)
            elif isc(strip(b)):
                J_.check(strip(b).a[0] == 0, "zero", p, "begins counting arguments at %d" % strip(b).a[0], rule=PART)
        star = [p.range(t) for t in p.facts if t.k == "ld" and same(t.a[1], p0)]
        for r in star:
            J_.check(r[0] == r[1] == 42, "star", p, "takes something that does not begin with * for a request", rule=BAD)
        for x in [e for e in p.ev if e.name == "read_num"]:
            J_.check(accepted(p, x), "okc", p, "uses a number of arguments that could not be read", x, rule=BAD)
            hi = strip(x.args[3])
            if isc(hi):
                J_.check(0 < hi.a[0] <= 1 << 31, "hugec", p, "accepts %d arguments" % hi.a[0], x, rule=BAD)
    # bytes looked at
    for p in J_.paths + J_.iters:
        en = [t for t in p.facts if t.k == "cmp" and any(strip(x) is p1 for x in walk(t))]
        if not en:
            continue
        endt = p_end(p, p0, p1)
        if endt is None:
            continue
        for t in p.facts:
            if t.k != "ld" or under(t.a[1]).k not in ("phi", "p", "call"):
                continue
            A = t.a[1]
            if under(A).k == "p" and under(A) is not p0 or under(A).k == "call" and under(A).a[1] != "memchr" or ldfield(t, prog):
                continue
            J_.check(inside(p, endt, A), "behind", p, "looks at a byte that may be behind the last one received", rule=BOUND)


def b_(p, i):
    return p.phis[i][1]


def addt(a, b):
    return mk("bin", "add", a, b)


def p_end(p, p0, p1):
    """the term of the end of the input, as it appears on the path"""
    for t in p.facts:
        if t.k == "cmp":
            for s in (t.a[1], t.a[2]):
                for x in walk(s):
                    if x.k == "idx" and same(x.a[0], p0) and any(strip(y) is p1 for y in walk(x)):
                        return x
    return None


def covers(p, end, B, n, k):
    """B+n+k <= end ?"""
    want = lsub(addt(addt(B, n), mk("c", k)), end)
    if want is None:
        return None
    seen = False
    for pred, x, y, v, _ in cmpfacts(p):
        if pred not in ("slt", "ult"):
            continue
        d = lsub(x, y)
        if d is None or v is None:
            continue
        for s in (1, -1):
            c = combine(want, d, s)
            if c is None:
                continue
            seen = True
            # want = s*d + c <= 0
            if s == 1:
                m = -1 if v else None
            else:
                m = None if v else 0
            if m is not None and m + c <= 0:
                return True
    if seen:
        return False
    # no comparison of this kind at all
    rel = [1 for pred, x, y, v, _ in cmpfacts(p) if any(strip(z) is strip(n) for w in (x, y) for z in walk(w))]
    return None if rel else False


def accepted(p, e):
    """read_num's flag was asked for and set"""
    fl = strip(e.args[4]) if len(e.args) > 4 else None
    if fl is None:
        return None
    i = None
    for t in p.facts:
        if any(x.k == "ld" and same(x.a[1], fl) for x in walk(t)):
            r = p.range(t)
            if t.k == "ld" or (t.k in ("cast",)):
                return True if nonzero(r) else False if zero(r) else None
            return None
    # read_num may say so otherwise
    return False if not any(x.k == "call" and x.a[0] == e.I.id for t in p.facts for x in walk(t)) and fl.k == "al" and fl in (strip(fl),) else None


def inside(p, end, A):
    for pred, x, y, v, _ in cmpfacts(p):
        d = lsub(x, y)
        q = lsub(A, end)
        if d is None or q is None:
            continue
        for s in (1, -1):
            c = combine(q, d, s)
            if c is None:
                continue
            if pred == "eq":
                if v is False and c == 0:
                    return True
                if v is True and c >= 0:
                    return False
            else:
                return True if (s == 1 and v and -1 + c < 0) else None
    # compared as a distance: end - A > k
    for t in p.facts:
        if t.k == "bin":
            d = lsub(t, ZERO)
            q = lsub(A, end)
            if d is None or q is None:
                continue
            c = combine(q, d, -1)
            if c is not None:
                lo, hi, ex = p.range(t)
                # A - end = c - t
                return True if c - lo < 0 or (c == 0 and 0 in ex) else None
    # found by searching up to the end
    u = strip(A)
    if u.k == "call" and u.a[1] == "memchr":
        return True
    return False


def number(prog, R):
    F = func(prog, "read_num", "resp.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, BAD)
    for p in J_.paths:
        st = [e for e in p.ev if e.name == "=" and same(e.args[0], mk("p", 4))]
        if not st:
            J_.check(False, "silent", p, "does not say whether a number was read")
            continue
        v = strip(st[-1].args[1])
        if isc(v) and not v.a[0]:
            continue
        # accepted: the whole text, in range
        x = strip(p.ret)
        if not (x.k == "call" and x.a[1].startswith("strto")):
            R.unknown += 1
            continue
        ends = [t for t in p.facts if t.k == "cmp" and t.a[0] == "eq" and any(strip(y) is mk("p", 1) for y in walk(t)) and not (isc(strip(t.a[1])) or isc(strip(t.a[2])))]
        terms = {}
        ok = [p.truth(t) for t in ends] if ends else []
        veq = None
        for y in walk(v):
            if y.k == "cmp" and y.a[0] == "eq" and any(strip(z) is mk("p", 1) for z in walk(y)):
                veq = True
        J_.check(True if veq or (ok and ok[0]) else False, "whole", p, "takes a number that is followed by something else", st[-1])
        for i, what in ((2, "too small"), (3, "too large")):
            q = mk("p", i)
            cm = [t for t in list(p.facts) + [y for y in walk(v) if y.k == "cmp"] if t.k == "cmp" and any(strip(z) is q for z in walk(t)) and any(strip(z) is x for z in walk(t))]
            J_.check(True if cm else False, what, p, "takes a number that is %s" % what, st[-1])
        for pred, a, b, tv, _ in cmpfacts(p):
            if strip(a) is x and strip(b) is mk("p", 2) and pred == "slt":
                J_.check(tv is False, "min", p, "takes a number that is too small", st[-1])
            if strip(b) is x and strip(a) is mk("p", 3) and pred == "slt":
                J_.check(tv is False, "max", p, "takes a number that is too large", st[-1])
        # an empty text is no number, and blanks in front would let it run on
        z = [t for t in p.facts if strip(t) is mk("p", 1)]
        J_.check(True if any(nonzero(p.range(t)) for t in z) else False, "empty", p, "reads on behind the end of an empty number", st[-1], rule=BOUND)


ESC = {110: 10, 114: 13, 116: 9}


def telnet(prog, R):
    F = func(prog, "parse_resp_telnet", "resp.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, READ, keep=("args_append", "buf_append_byte", "buf_append"))
    p0, p1, p2 = mk("p", 0), mk("p", 1), mk("p", 2)

    def at(t):
        """k when t is the byte bytes[cursor+k]"""
        t = strip(t)
        if t.k == "ld" and I is not None:
            d = lsub(t.a[1], mk("idx", p0, I, 1)) if False else None
            w = lsub(t.a[1], p0)
            if w and len(w[1]) == 1 and strip(list(w[1])[0]) is strip(I) and list(w[1].values()) == [1]:
                return w[0]
        return None
    I = A = Q = None
    hdr = None
    for p in J_.iters:
        for i, (a, b) in p.phis.items():
            w = lsub(b, a)
            if w and not w[1] and w[0] >= 1 and I is None:
                I, hdr = a, p.hdr
    if I is None:
        R.unknown += 1
        return
    ii = strip(I).a[0]
    for p in J_.iters:
        if p.hdr != hdr:
            R.unknown += 1
            return
        for i, (a, b) in p.phis.items():
            if i != ii and at(b) == 0:
                Q = i
            elif i != ii and isc(strip(b)) and strip(b).a[0] in (0, 1):
                A = i
    if Q is None or A is None:
        R.unknown += 1
        return

    def rng(p, k):
        for t in p.facts:
            if at(t) == k:
                return p.range(t)
        return None

    def state(p, i):
        a = p.phis[i][0] if i in p.phis else mk_phi(p, i)
        r = None
        for t in p.facts:
            if t.k == "phi" and t.a[0] == i:
                r = p.range(t)
        return None if r is None else True if nonzero(r) else False if zero(r) else None

    def space(p, k):
        for t in p.facts:
            if any(at(x) == k for x in walk(t) if x.k == "ld") and at(t) is None and t.k == "bin" and any(x.k == "call" and "ctype" in x.a[1] for x in walk(t)):
                r = p.range(t)
                return True if nonzero(r) else False if zero(r) else None
        r = rng(p, k)
        if r and r[0] == r[1]:
            return r[0] in (32, 9, 10, 11, 12, 13)
        return None

    def cleared(p):
        nq = strip(p.phis[Q][1])
        return (isc(nq) and not nq.a[0]) or state(p, Q) is False
    endreset = all(cleared(p) for p in J_.iters if any(e.name == "args_append" for e in p.segment()))

    for p in J_.iters:
        seg = p.segment()
        step = lsub(p.phis[ii][1], p.phis[ii][0])
        if step is None or step[1]:
            R.unknown += 1
            continue
        step = step[0]
        add = [e for e in seg if e.name == "buf_append_byte"]
        app = [e for e in seg if e.name == "args_append"]
        inq = state(p, Q) if state(p, A) else (False if state(p, A) is False else None)
        J_.check(len(add) + len(app) <= 1, "single", p, "adds a byte twice", (add + app)[-1] if add + app else None)
        for e in add:
            x = strip(e.args[1])
            k = at(x)
            if isc(x):
                r = rng(p, 1)
                if r is not None and r[0] == r[1]:
                    J_.check(ESC.get(r[0]) == x.a[0], "escape", p, "reads \\%c as byte %d" % (r[0] & 127, x.a[0]), e)
                    J_.check(step == 2, "escstep", p, "reads the byte behind a backslash again", e)
                else:
                    R.unknown += 1
            elif k is not None:
                J_.check(step == k + 1, "step", p, "adds a byte of the argument %s" % ("again" if step <= k else "and skips the next"), e)
                if k == 1:
                    r0, r1 = rng(p, 0), rng(p, 1)
                    J_.check(r0 is not None and r0[0] == r0[1] == 92, "backslash", p, "skips a byte of the argument", e)
                    if r1 is not None:
                        J_.check(all(c in r1[2] or c < r1[0] or c > r1[1] for c in ESC), "noescape", p, "does not translate an escaped n, r or t", e)
                    else:
                        J_.check(None, "noescape", p, "", e)
                elif k == 0:
                    r0 = rng(p, 0)
                    if inq is False:
                        J_.check(False if space(p, 0) is not False else True, "space", p, "takes white space for part of an argument", e)
                        nq = strip(p.phis[Q][1])
                        if state(p, A) is False and not endreset:
                            J_.check(not nq.a[0] if isc(nq) else False if nq.k == "phi" and state(p, Q) is not False else None, "oldquote", p,
                                     "reads an argument as if it was in the quotes of the one before", e)
                    elif inq is True:
                        eq = [p.truth(t) for t in p.facts if t.k == "cmp" and t.a[0] == "eq" and any(at(y) == 0 for y in walk(t) if y.k == "ld") and any(y.k == "phi" and y.a[0] == Q for y in walk(t))]
                        J_.check(True if eq and eq[0] is False else False if eq else None, "closing", p, "takes the closing quote for part of an argument", e)
                        J_.check(True if r0 is not None and 10 in r0[2] else False, "newline", p, "lets a quoted argument run over the end of the line", e, rule=BAD)
                        J_.check(True if r0 is not None and 92 in r0[2] else False, "bsl", p, "takes a backslash for part of the argument", e)
            else:
                R.unknown += 1
        for e in app:
            x, n, z = strip(e.args[1]), strip(e.args[2]), strip(e.args[3])
            J_.check(isc(z) and not z.a[0] if isc(z) else None, "copy", p, "keeps only a reference to the buffer that the next argument is read into", e)
            if x.k == "ld":
                buf = under(x.a[1])
                J_.check(under(n.a[1]) is buf and ldfield(n, prog) == ("struct.buf", "len") if n.k == "ld" else False if isc(n) and n.a[0] else None, "argbytes", p, "adds another length than was collected", e)
                rs = [s for s in p.ev if s.name == "=L" and under(s.args[0]) is buf and isc(strip(s.args[1])) and not strip(s.args[1]).a[0]]
                cl = [s for s in seg if s.name == "buf_clear" and under(s.args[0]) is buf]
                if buf.k == "al":
                    zs = [1 for k, m in p.st.mem.items() if (k[0] == "Z" and k[1] is buf) or (k[0] is buf and isc(m[0]) and not m[0].a[0])]
                    J_.check(True if rs or cl or zs else False, "reset", p, "begins the next argument with the bytes of this one", e)
            lim = [p.range(t)[1] for t in p.facts if ldfield(t, prog) == ("struct.args", "len")]
            J_.check(True if lim and min(lim) < 1 << 31 else False, "nargs", p, "accepts any number of arguments", e, rule=BAD)
            nx = strip(p.phis[A][1])
            J_.check(isc(nx) and not nx.a[0] if isc(nx) or nx.k == "phi" else None, "ended", p, "goes on with an argument that was ended", e)
            if inq is True:
                if step == 2:
                    r1, s1 = rng(p, 1), space(p, 1)
                    if s1 is None and not any(t.k != "ld" and any(x.k == "ld" and at(x) == 1 for x in walk(t)) for t in p.facts):
                        s1 = False
                    J_.check(s1, "after", p, "skips the byte behind a closing quote", e)
                    if r1 is not None:
                        J_.check(10 in r1[2] or r1[0] > 10 or r1[1] < 10, "eol", p, "skips the end of the line behind a closing quote", e, rule=WHOLE)
            elif inq is False:
                J_.check(step == 1, "sp", p, "skips a byte", e)
        if not add and not app:
            J_.check(step == 1, "skip", p, "skips a byte")
            s, qn, an = space(p, 0), p.phis[Q][1], strip(p.phis[A][1])
            if state(p, A) is False:
                r0 = rng(p, 0)
                if at(qn) == 0:
                    J_.check(r0 is not None and r0[0] == r0[1] and r0[0] in (34, 39), "quote", p, "takes something else for a quote")
                    J_.check(isc(an) and an.a[0] == 1 if isc(an) else False if an.k == "phi" else None, "begin", p, "does not begin an argument at a quote")
                else:
                    J_.check(s, "blank", p, "drops a byte that is not white space")
            elif inq is True:
                J_.check(False, "lost", p, "drops a byte of a quoted argument")
            elif inq is False:
                r0 = rng(p, 0)
                J_.check(True if at(qn) == 0 and r0 is not None and r0[0] == r0[1] and r0[0] in (34, 39) else False, "lost", p, "drops a byte of an argument")
    for p in J_.paths:
        v = strip(p.ret)
        if isc(v):
            J_.check(v.a[0] in (0, -1), "retc", p, "reports %d bytes read whatever was sent" % v.a[0], rule=WHOLE)
            continue
        w = lsub(v, I)
        if w is None or w[1]:
            R.unknown += 1
            continue
        r = rng(p, w[0] - 1)
        J_.check(r is not None and r[0] == r[1] == 10, "line", p, "ends the request elsewhere than at the end of its line", rule=WHOLE)
        a, q = state(p, A), state(p, Q)
        if a and q:
            J_.check(False, "inquote", p, "ends the request inside quotes", rule=WHOLE)
        if a is True and q is False:
            app = [e for e in p.ev[lastloop(p):] if e.name == "args_append"]
            J_.check(len(app) == 1, "last", p, "forgets the last argument of the line")


def lastloop(p):
    i = [k for k, e in enumerate(p.ev) if e.name == "L"]
    return i[-1] if i else 0


def mk_phi(p, i):
    return None
