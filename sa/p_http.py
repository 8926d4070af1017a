"""C24: an HTTP request runs the command it stands for."""
from gensim import *
from semlib import under, isglobal
from p_sem import ASSUME
from p_save import evs
from p_frame import res, zero, nonzero
from p_auth import resultzero
from replies import text

EXPLAIN = {
    "C24": "every path through parse_http (loop by loop) and http_valid_key: the method, key, body and options a successful path has recognised against the arguments it appends, "
           "which query key sets which variable, and the reason of each refusal; and what evdata does after an HTTP request",
}
MAPR = "an HTTP request becomes the command it stands for"
OPTR = "the options of a PUT are passed on"
BODR = "a PUT stores exactly its body"
REFR = "an HTTP request is refused for its own reason"
KEYR = "the keys HTTP accepts"
CLOSE = "an HTTP connection is closed after its answer"
P0, P1, P2 = (mk("p", i) for i in range(3))
METHODS = {"GET": ("get", 2), "PUT": ("set", 3), "DELETE": ("del", 2)}
VALUED = {"cas": {"cas"}, "ex": {"ex", "ttl"}, "flags": {"flags"}}
PLAIN = {"xx": {"xx"}, "nx": {"nx"}}
OPTS = dict(VALUED, **PLAIN)
CMP = ("memcmp", "bcmp", "strncmp")
LOOKED = CMP + ("args_append", "http_valid_key", "memchr")
REFUSED = {0x7f} | {ord(c) for c in "%+@$?="}
LIMIT = 536870912


def C24(prog, R, tier):
    F = func(prog, "parse_http")
    if F is None:
        R.unknown += 1
    else:
        parse(prog, R, F)
    keys(prog, R)
    after(prog, R)


def texts(p, ev):
    """{text: (event, equal?)} of the comparisons with constant texts"""
    out = {}
    for e in ev:
        if e.name in CMP and len(e.args) >= 3:
            for a, b in ((0, 1), (1, 0)):
                t = text(strip(e.args[b]))
                if t is not None:
                    out[t] = (e, e.args[a], resultzero(p, e.res))
                    break
    return out


def method(p, ev):
    t = texts(p, ev)
    on = [m for m in t if t[m][2] is True]
    on = [m for m in on if m.isupper() and m.isalpha()]
    return on[0] if len(on) == 1 else None if on else ""


def appended(p):
    return [e for e in p.ev if e.name == "args_append" and strip(e.args[0]) is P2]


def parse(prog, R, F):
    J_ = J(prog, R, F, MAPR, cut=True, cap=12000)
    good, bad, sigs = [], [], set()
    for p in J_.paths:
        r = p.range(p.ret)
        if r[1] < 0:
            bad.append(p)
        elif r[0] == r[1] == 0:
            a = appended(p)
            if a:
                J_.check(False, "waits", p, "asks for more data after it has put together a command", a[0])
        else:
            g = (tuple((e.name, tuple(e.args), p.range(e.res) if e.res is not None else 0) for e in p.ev if e.name in LOOKED),
                 frozenset((t, p.range(t)) for t in p.facts if t.k == "phi"))
            if g not in sigs:
                sigs.add(g)
                good.append(p)
    style = {m for p in good for m in [method(p, p.ev)] if m}
    keyvars, kpaths = queries(J_)
    sites = set()
    for p in good:
        m = method(p, p.ev)
        a = appended(p)
        if any(e.name not in ("args_append",) and any(strip(x) is P2 for x in e.args) for e in p.ev):
            J_.check(None, "method", p, "")
            continue
        if m == "":
            if style == set(METHODS):
                J_.check(False, "unknown", p, "accepts a request that is not a GET, PUT or DELETE")
            else:
                J_.check(None, "method", p, "")
            continue
        if m is None:
            J_.check(None, "method", p, "")
            continue
        if m not in METHODS:
            J_.check(False, "method", p, "accepts a %s request" % m)
            continue
        name, n = METHODS[m]
        got = [text(strip(e.args[1])) for e in a]
        if not a:
            J_.check(False, m, p, "accepts a %s without a command" % m)
            continue
        if got[0] is None:
            J_.check(None, m, p, "")
            continue
        J_.check(got[0] == name and len_is(a[0], name), m, p, "turns a %s into '%s'" % (m, got[0]), a[0])
        if got[0] != name:
            continue
        J_.check(len(a) >= n, m + " args", p, "passes on too few arguments of a %s" % m, a[-1])
        if len(a) < n:
            continue
        J_.check(m == "PUT" or len(a) == n, m + " args", p, "passes on too many arguments of a %s" % m, a[-1])
        key(prog, J_, p, a[1])
        sites.add((a[1].args[1], a[1].args[2], None, None) if m != "PUT" else (a[1].args[1], a[1].args[2], a[2].args[1], a[2].args[2]))
        if m == "PUT":
            options(J_, p, a[3:], keyvars)
    for k, s in OPTS.items():
        for x in sorted(s):
            for q, (i, b, ln) in kpaths.get(x, {}).items():
                value(J_, q, x, i, b, ln)
    if keyvars and style == set(METHODS):
        for k, s in OPTS.items():
            for x in sorted(s):
                J_.check(x in keyvars, "?" + x, good[0], "ignores the option %s" % x, rule=OPTR)
    uri(J_, good, sites)
    body(prog, J_, good, sites)
    headers(J_)
    refusals(J_, bad, style, sites)
    waiting(J_, bad)


def len_is(e, t):
    n = strip(e.args[2])
    return not isc(n) or n.a[0] == len(t)


# ---------------------------------------------------------------- key
def key(prog, J_, p, a):
    v = evs(p, "http_valid_key")
    if not v:
        others = any(e.name == "http_valid_key" for q in J_.paths for e in q.ev)
        J_.check(False if others else None, "key", p, "accepts a key that was not examined", a)
        return
    e = v[-1]
    J_.check(nonzero(res(p, e)), "key", p, "accepts an invalid key", a)
    J_.check(same(e.args[0], a.args[1]), "key text", p, "passes on another key than the one it examined", a)
    J_.check(same(e.args[1], a.args[2]), "key length", p, "passes on another length of the key than the one it examined", a)


def ssaof(t):
    t = strip(t)
    return t.a[0] if t.k in ("ssa", "phi") else None


def sees(q, t):
    """value of a term of a later path in the state of an earlier one"""
    i = ssaof(t)
    if i is None:
        return None
    v = q.st.env.get(i)
    return v if isinstance(v, T) else None


def uri(J_, good, sites):
    """the key is what lies between the first '/' and the '?'"""
    pairs = {(a, b) for a, b, c, d in sites}
    seen = []
    for q in J_.cuts:
        if not evs(q, "memchr"):
            continue
        for a, b in pairs:
            va, vb = sees(q, a), sees(q, b)
            if va is not None and vb is not None:
                seen.append((q, va, vb))
    for p in good:
        a = appended(p)
        if len(a) > 1 and evs(p, "memchr"):
            seen.append((p, a[1].args[1], a[1].args[2]))
    for q, va, vb in seen:
        e = [e for e in evs(q, "memchr") if isc(strip(e.args[1])) and strip(e.args[1]).a[0] == ord("?")]
        if not e:
            continue
        e = e[-1]
        J_.check(same(e.args[0], va) or None, "uri", q, "", e)
        if not same(e.args[0], va):
            continue
        r = res(q, e)
        if zero(r):
            J_.check(same(vb, e.args[2]) or (False if lsub(vb, e.args[2]) and not lsub(vb, e.args[2])[1] else None), "uri", q, "takes a key that is not the whole path", e)
        elif nonzero(r):
            d = lsub(vb, mk("bin", "sub", e.res, va))
            J_.check(d == (0, {}) or (False if d is not None and (not d[1] or same(vb, e.args[2])) else None), "uri end", q, "takes a key that does not end at the '?'", e)
        # the path begins after '/'
        sl = [t for t in q.facts if t.k == "ld" and not isc(t) and q.range(t)[:2] == (47, 47)]
        pos = [lsub(va, t.a[1]) for t in sl]
        pos = [d[0] for d in pos if d is not None and not d[1]]
        if pos:
            J_.check(1 in pos, "slash", q, "takes a key that does not start right after the '/'", e)


# ---------------------------------------------------------------- query
def queries(J_):
    """({query key: {variables it sets}}, {query key: {path: (position, loop variables, ...)}})"""
    kv, kp = {}, {}
    for p in J_.iters:
        t = texts(p, p.segment())
        on = [x for x in t if t[x][2] is True and x in ("cas", "ex", "ttl", "flags", "xx", "nx", "auth")]
        if len(on) != 1:
            continue
        x = on[0]
        ch = {i: strip(b) for i, (a, b) in p.phis.items() if b is not None and not same(a, b)}
        if x not in kv:
            kv[x] = [set(ch), set(ch)]
        kv[x][0] &= set(ch)     # set by every iteration
        kv[x][1] |= set(ch)     # set by some
        kp.setdefault(x, {})[p] = (ch, t[x][1], t[x][0].args[2])
    # variables every key changes: positions
    if kv:
        pos = set.intersection(*[v[0] for v in kv.values()]) if len(kv) > 1 else set()
        for v in kv.values():
            v[0] -= pos
            v[1] -= pos
    return kv, kp


def byteat(p, t, c):
    """is the byte at this address known to be c"""
    for f in p.facts:
        if f.k == "ld" and p.range(f)[:2] == (c, c) and same(f.a[1], t):
            return True
    return False


def value(J_, p, x, ch, kptr, klen):
    """the key ends at '=' or '&' or the end; its value follows '=' and ends at '&' or the end"""
    if strip(kptr).k not in ("idx", "off", "phi"):
        return
    n = strip(klen)
    start = [y for y in walk(kptr) if y.k == "phi" and y.a[0] in ch]
    if len(start) != 1 or not isc(n):
        return
    j = start[0]
    if lsub(kptr, j)[1].get(j):
        return
    E = [f for f in p.facts if f.k in ("bin", "idx", "off") and p.range(f)[:2] == (n.a[0], n.a[0]) and (linz(f) or (0, {}))[1].get(j) == -1]
    if len(E) != 1:
        J_.check(None, "?key", p, "", rule=OPTR)
        return
    E = ladd_(kptr, E[0])
    NK = ladd_(kptr, mk("bin", "sub", ch[j.a[0]], j))

    def gap(a, b):
        d = lsub(a, b)
        return d[0] if d is not None and not d[1] else None

    def chk(d, want, key, msg):
        if d is not None:
            J_.check(d == want, key, p, msg % x, rule=OPTR)
    ptr = [v for v in ch.values() if v.k in ("idx", "off", "ld") and v is not ch[j.a[0]]]
    nums = [v for i, v in ch.items() if v.k == "bin" and (linz(v) or (0, {}))[1] and -1 in linz(v)[1].values()]
    amp = [f.a[1] for f in p.facts if f.k == "ld" and p.range(f)[:2] == (38, 38)]
    if x in ("cas", "ex", "ttl", "flags") and len(ptr) == 1:
        v = ptr[0]
        chk(gap(v, E), 1, "?value", "takes the value of %s from the wrong place")
        if len(nums) == 1:
            chk(gap(NK, ladd_(v, nums[0])), 1, "?length", "takes a wrong length of the value of %s")
        for a in amp:
            chk(gap(NK, a), 1, "?next", "does not go on right after the value of %s")
    elif x in ("cas", "ex", "ttl", "flags", "xx", "nx") and not ptr:
        chk(gap(NK, E), 1, "?next", "does not go on right after %s")
        for a in amp:
            chk(gap(E, a), 0, "?end", "does not find the end of %s")


def ladd_(a, b):
    return mk("bin", "add", a, b)


def options(J_, p, a, kv):
    got = {}
    i = 0
    while i < len(a):
        t = text(strip(a[i].args[1]))
        if t is None:
            J_.check(None, "options", p, "", rule=OPTR)
            return
        if t not in OPTS:
            J_.check(False, "options", p, "passes on the option '%s' that no request has" % t, a[i], rule=OPTR)
            return
        J_.check(t not in got, t + " once", p, "passes on %s twice" % t, a[i], rule=OPTR)
        J_.check(len_is(a[i], t), t + " text", p, "passes on a part of the word %s" % t, a[i], rule=OPTR)
        if t in VALUED:
            if i + 1 >= len(a) or text(strip(a[i + 1].args[1])) is not None:
                J_.check(False, t, p, "passes on %s without its value" % t, a[i], rule=OPTR)
                return
            got[t] = a[i + 1]
            i += 2
        else:
            got[t] = a[i]
            i += 1
    if not kv:
        return
    for t, e in got.items():
        if t not in VALUED:
            continue
        for v in (e.args[1], e.args[2]):
            i = ssaof(v)
            if i is None or strip(v).k != "phi":
                J_.check(None, t, p, "", rule=OPTR)
                continue
            for x, (al, some) in kv.items():
                if x in VALUED[t]:
                    J_.check(i in al or (False if any(i in s for _, s in kv.values()) else None), t + " from " + x, p, "passes on something else than the value of %s" % x, e, rule=OPTR)
                else:
                    J_.check(i not in some, t + " from " + x, p, "passes on the value of %s as %s" % (x, t), e, rule=OPTR)
    for t, s in OPTS.items():
        v = set.union(*[kv[x][0] for x in s if x in kv] or [set()])
        for x, (al, some) in kv.items():
            if x not in s:
                v -= some
        rs = {f.a[0]: p.range(f) for f in p.facts if f.k == "phi" and f.a[0] in v}
        every = set.union(*[k[1] for k in kv.values()])
        if not rs and v and t not in got and any(f.k == "phi" and f.a[0] in every for f in p.facts):
            J_.check(False, t + " kept", p, "drops the option %s" % t, rule=OPTR)
        for r in rs.values():
            if nonzero(r):
                J_.check(t in got, t + " kept", p, "drops the option %s" % t, rule=OPTR)
            elif zero(r) and t in got:
                J_.check(False, t + " given", p, "passes on the option %s that the request does not have" % t, got[t], rule=OPTR)


# ---------------------------------------------------------------- body
def body(prog, J_, good, sites):
    pairs = {(c, d) for a, b, c, d in sites if c is not None}
    seen = []
    for q in J_.cuts:
        if evs(q, "memchr") or any(e.name == "L" for e in q.ev):
            for a, b in pairs:
                if q.st.env.get(ssaof(a)) is not None and evs(q, "memchr"):
                    seen.append((q, sees(q, a), sees(q, b) if ssaof(b) is not None else b))
    for p in good:
        a = appended(p)
        if method(p, p.ev) == "PUT" and len(a) > 2 and evs(p, "memchr"):
            seen.append((p, a[2].args[1], a[2].args[2]))
    limits, unl = [], []
    for q, d, n in seen:
        if n is None or d is None:
            continue
        if isc(strip(n)):
            if strip(n).a[0] == 0:
                J_.check(True, "length", q, "", rule=BODR)
            continue
        end = mk("idx", P0, ((P1, 1),), 0)
        have = mk("bin", "sub", end, d)
        if linz(n) is not None and P1 in linz(n)[1]:
            J_.check(False, "length", q, "stores what has arrived and not what the content length says", rule=BODR)
            continue
        ok = le(q, n, have)
        if ok is None:
            near = [t for t in q.facts if t.k == "cmp" and any(x is strip(n) for x in walk(t))]
            own = strip(d) is not None and strip(d).k not in ("ssa", "phi")
            if strip(n).k == "phi" and own and all(loose(q, t, n, have) for t in near):
                ok = False
        limits.append((q, n))
        J_.check(ok, "complete", q, "stores a body that has not arrived completely", rule=BODR)
    # content-length
    live = leads(J_.S.f, "args_append", J_.S)
    for q in list(J_.cuts) + list(J_.iters):
        if q.kind == "cut" and q.hdr not in live:
            continue
        ev = q.segment() if q.kind == "iter" else q.ev
        h = [e for e in ev if e.name == "argeq_bytes" and text(strip(e.args[2])) is not None]
        on = [e for e in h if nonzero(res(q, e)) and text(strip(e.args[2])).lower() == "content-length"]
        if not on:
            continue
        pu = [e for e in ev if e.name == "parse_u64"]
        J_.check(bool(pu) or None, "read", q, "", rule=BODR)
        for e in pu[:1]:
            J_.check(nonzero(res(q, e)), "number", q, "goes on with a content length that is not a number", e, rule=BODR)
            r = outval(q, e)
            if r is None or r[1] > LIMIT:
                unl.append((q, e))
            else:
                J_.check(r[0] >= 0, "limit", q, "takes a negative content length", e, rule=BODR)
            for i in {ssaof(n) for _, n in limits}:
                if i in q.phis and q.kind == "iter":
                    v = strip(q.phis[i][1])
                    J_.check(True if v.k == "parsed" else None if v.k not in ("c", "phi") else False, "used", q, "does not use the content length it has read", e, rule=BODR)
    if unl and limits and all(q.range(n)[1] > LIMIT for q, n in limits):
        J_.check(False, "limit", unl[0][0], "takes a body beyond the size limit", unl[0][1], rule=BODR)


def loose(q, t, n, have):
    """a fact that lets the body be longer than what has arrived"""
    if t.a[0] not in ("ult", "slt"):
        return False
    d, e = lsub(t.a[1], t.a[2]), lsub(n, have)
    if d is None or e is None:
        return False
    v = q.truth(t)
    if v is True:
        k = combine(e, d, 1)
        return k is not None and k - 1 > 0 or combine(e, d, -1) is not None
    if v is False:
        k = combine(e, d, -1)
        return k is not None and k > 0 or combine(e, d, 1) is not None
    return False


def leads(f, callee, S):
    """blocks from which a call of the function can be reached"""
    live = {b for b, k in f.blocks.items() if any(I.op == "call" and S.callee_name(I) == callee for I in k.insts)}
    more = True
    while more:
        more = False
        for b, k in f.blocks.items():
            if b not in live and any(x in live for x in k.succs):
                live.add(b)
                more = True
    return live


def outval(q, e):
    """range of the number a conversion stored into its local"""
    loc = strip(e.args[2])
    for t in q.facts:
        if t.k == "parsed" and e.I is not None and t.a[0] == e.I.id:
            return q.range(t)
    for t in q.facts:
        if t.k == "ld" and strip(t.a[1]) is loc:
            return q.range(t)
    return None


def headers(J_):
    """names of headers do not depend on the case of their letters"""
    for q in list(J_.cuts) + list(J_.paths) + list(J_.iters):
        ev = q.segment() if q.kind == "iter" else q.ev
        for t, (e, d, z) in texts(q, ev).items():
            if t.lower() in ("content-length", "authorization", "connection", "accept"):
                J_.check(False, "header " + t.lower(), q, "knows the header %s only in this spelling" % t, e)
        for e in ev:
            if e.name == "argeq_bytes" and text(strip(e.args[2])) in ("content-length", "authorization"):
                J_.check(True, "header", q, "")
            if e.name == "parse_u64":
                value_begin(J_, q, e)


def value_begin(J_, q, e):
    """the value of a header begins behind all of the spaces that precede it, not behind at most one of them"""
    f = J_.S.f
    D = {I.id: I for b in f.blocks.values() for I in b.insts}

    def thr(o):
        while o[0] == "v" and o[1] in D and D[o[1]].op in ("sext", "zext", "trunc", "freeze", "bitcast"):
            o = D[o[1]].a[0]
        return D.get(o[1]) if o[0] == "v" else None
    t = strip(e.args[0])
    P = D.get(t.a[0]) if t.k in ("ssa", "phi") else None
    if P is None or P.op != "phi" or P.blk in f.loops and any(s in f.loops[P.blk] for (v, s) in P.a):
        return J_.check(None if P is None or P.op != "phi" else True, "header value", q, "", e)
    one = False
    vals = {v for v, s in P.a}
    for v in vals:
        G = thr(v)
        if G is None or G.op != "getelementptr" or G.d.get("off") != 1 or G.d.get("vars") or G.a[0] not in vals:
            continue
        pr = f.blocks[G.blk].preds
        I = f.blocks[pr[0]].insts[-1] if len(pr) == 1 else None
        c = thr(I.a[0]) if I is not None and I.op == "br" and I.a else None
        if c is not None and c.op == "icmp" and c.d.get("p") == "eq" and f.blocks[pr[0]].succs[0] == G.blk and c.a[1][0] == "c" and c.a[1][1] == 32:
            x = thr(c.a[0])
            one = one or x is not None and x.op == "load" and x.a[0] == G.a[0]
    J_.check(not one, "header value", q, "takes a second space in front of a header's value for a part of it", e)


# ---------------------------------------------------------------- refusals
def errtext(p):
    """texts the path has set as the parser's error (None for one that is not constant)"""
    out = []
    for e in p.ev:
        if e.name == "parse_seterror":
            out.append(text(strip(e.args[0])))
        elif e.name in ("snprintf", "strcpy", "strncpy", "sprintf", "strlcpy") and "parse_lasterr" in repr(e.args[0]):
            t = [text(strip(a)) for a in e.args[1:]]
            t = [a for a in t if a is not None and a != "%s"]
            out.append(t[-1] if t else None)
    return out


def refusals(J_, bad, style, sites):
    for p in bad:
        t = errtext(p)
        if not t:
            other = [e for e in p.ev if e.name not in ("L", "X", "=", "=L", "memcmp", "strncmp", "memchr", "argeq_bytes", "http_valid_key", "parse_u64", "strlen", "args_append", "memmem")
                     and not e.name.startswith(("stat_", "llvm."))]
            J_.check(False if not other else None, "reason", p, "refuses a request without saying why", rule=REFR)
            continue
        t = t[-1]
        if t is None:
            continue
        v = evs(p, "http_valid_key")
        m = method(p, p.ev)
        if v and zero(res(p, v[-1])):
            at = any(f.k == "ld" and p.range(f)[:2] == (64, 64) for f in p.facts)
            J_.check(t == "Invalid Key" or (None if at and t == "Bad Request" else False), "invalid key", p, "refuses an invalid key with '%s'" % t, rule=REFR)
        elif t == "Invalid Key":
            J_.check(False if v else None, "invalid key", p, "refuses a valid key", rule=REFR)
        if t == "Method Not Allowed":
            J_.check(False if m else True, "405", p, "does not allow a %s" % m, rule=REFR)
        elif m == "" and style == set(METHODS) and any(x in METHODS for x in texts(p, p.ev)):
            J_.check(False, "405", p, "refuses an unknown method with '%s'" % t, rule=REFR)
        if t.startswith("Show Help"):
            J_.check(False if m not in ("GET", None) else True, "help", p, "answers a %s with the help page" % (m or "other request"), rule=REFR)
            for n in {b for a, b, c, d in sites}:
                if any(y is strip(n) for f in p.facts for y in walk(f)):
                    w = possible(p, strip(n), (1, 2, 250))
                    if w is not None:
                        J_.check(not w, "help", p, "answers a request for a key with the help page", rule=REFR)
        if v and nonzero(res(p, v[-1])):
            J_.check(t == "Unauthorized" or None, "valid", p, "", rule=REFR)


def waiting(J_, bad):
    """data that ends before the end of the request is waited for; a request may have no headers"""
    live = leads(J_.S.f, "args_append", J_.S)
    err = leads(J_.S.f, "snprintf", J_.S)
    end = mk("idx", P0, ((P1, 1),), 0)
    ends = [q for q in J_.cuts if q.hdr in err and q.hdr not in live] + bad
    for q in ends:
        if not any(e.name == "argeq_bytes" for e in q.ev) and (q.kind == "cut" or any(e.name in CMP for e in q.ev)):
            continue
        out = False
        for pr, a, b, v, t in cmpfacts(q):
            for x, y in ((a, b), (b, a)):
                if same(y, end) and not isc(strip(x)):
                    if pr == "eq" and v or pr == "ult" and not v and y is b:
                        out = True
        J_.check(not out, "rest", q, "refuses a request because a part of it has not come yet", rule=BODR)
    f = J_.S.f
    hdr = {b for b, k in f.blocks.items() for I in k.insts
           if I.op == "call" and J_.S.callee_name(I) == "argeq_bytes"}
    goal = {b for b, k in f.blocks.items() if any(I.op == "call" and J_.S.callee_name(I) == "args_append" for I in k.insts)}
    if hdr and goal and f.entry not in hdr:
        seen, todo = {f.entry}, [f.entry]
        while todo:
            for x in f.blocks[todo.pop()].succs:
                if x not in seen and x not in hdr:
                    seen.add(x)
                    todo.append(x)
        J_.check(bool(seen & goal), "no headers", bad[0] if bad else J_.paths[0], "never accepts a request without headers")


# ---------------------------------------------------------------- keys
def keys(prog, R):
    F = func(prog, "http_valid_key")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, KEYR, loads="p")

    def byte(p, ev):
        out = []
        for t in p.facts:
            for x in walk(t):
                if x.k == "ld" and under(x.a[1]) is P0:
                    out.append(x)
                    break
        for e in ev:
            if e.name == "ld":
                pass
        return {strip(t) for t in out}

    def span(p, x):
        out = []
        for c in range(-128, 128):
            good = True
            for t in p.facts:
                if any(y is x for y in walk(t)):
                    k = agrees(p, t, x, c)
                    if k is None:
                        return None
                    if not k:
                        good = False
                        break
            if good:
                out.append(c)
        return out

    def ok(c):
        return 0x21 <= c <= 0x7e and c not in REFUSED
    for p in J_.iters:
        b = byte(p, p.segment())
        if len(b) != 1:
            J_.check(None, "byte", p, "")
            continue
        s = span(p, next(iter(b)))
        if s is None:
            J_.check(None, "byte", p, "")
            continue
        w = [c for c in s if not ok(c)]
        if any((lsub(v, o) or (0, {0: 0}))[1] for o, v in p.phis.values()):
            J_.check(None if w else True, "byte", p, "")
            continue
        J_.check(not w, "byte", p, "accepts the byte %s in a key" % (name(w[0]) if w else ""))
    for p in J_.enters:
        at = [x for q in J_.iters if q.hdr == p.hdr for x in byte(q, q.segment())]
        ph = [y for x in at[:1] for y in walk(x.a[1]) if y.k == "phi"]
        if len(ph) == 1 and ph[0].a[0] in p.phis:
            d = lsub(at[0].a[1], P0)
            v = strip(p.phis[ph[0].a[0]][1])
            if d is not None and d[1] == {ph[0]: 1} and isc(v):
                J_.check(d[0] + v.a[0] == 0, "all", p, "does not look at every byte of a key")
    for p in J_.paths:
        r = p.range(p.ret)
        b = byte(p, p.ev)
        n = p.range(P1)
        if zero(r):
            if not b:
                if any(e.name in ("L", "ld") for e in p.ev):
                    continue
                w = possible(p, P1, (1, 2, 100, 249, 250))
                J_.check(None if w is None else not w, "length", p, "refuses a key of %s bytes" % (w or [0])[0])
            elif len(b) == 1:
                s = span(p, next(iter(b)))
                if s is not None:
                    w = [c for c in s if ok(c)]
                    J_.check(not w, "refuse", p, "refuses the byte %s in a key" % (name(w[0]) if w else ""))
        elif nonzero(r) or not isc(strip(p.ret)):
            if nonzero(r):
                w = possible(p, P1, (0, 251, 252, 256, 1000, 1 << 16, 1 << 32, (1 << 32) + 5, 1 << 40))
                J_.check(None if w is None else not w, "long", p, "accepts a key of %s bytes" % (w or [0])[0])


def possible(p, x, vals):
    """those of the values the facts of the path allow x to have; None if that cannot be told"""
    out, known = [], False
    for v in vals:
        good = True
        for t in p.facts:
            if any(y is x for y in walk(t)):
                k = agrees(p, t, x, v)
                if k is not None:
                    known = True
                    if not k:
                        good = False
                        break
        if good:
            out.append(v)
    return out if known else None


def agrees(p, t, x, v):
    """does a fact of the path allow x to have the value; None if that cannot be told"""
    n = calc(t, x, v)
    if n is None:
        return None
    if t.k == "cmp":
        k = p.truth(t)
        return k is None or bool(n) == k
    lo, hi, ex = p.range(t)
    if not (lo >= 0 or n < 1 << 63):
        n -= 1 << 64
    return lo <= n <= hi and n not in ex


def calc(t, x, v):
    """the term as an unsigned number for this value of x; None if it depends on something else"""
    M = (1 << 64) - 1
    if t is x:
        return v & M
    if t.k == "c":
        return t.a[0] & M
    if t.k == "off":
        n = calc(t.a[0], x, v)
        return None if n is None else n + t.a[1] & M
    if t.k == "cast" and t.a[0] in ("zext", "sext", "trunc"):
        n = calc(t.a[1], x, v)
        if n is None:
            return None
        w = t.a[2] if t.a[0] != "trunc" else t.a[3]
        n &= (1 << w) - 1
        return (n | ~((1 << w) - 1)) & M if t.a[0] == "sext" and n >> (w - 1) else n
    if t.k == "bin" and t.a[0] in ("add", "sub"):
        a, b = calc(t.a[1], x, v), calc(t.a[2], x, v)
        return None if a is None or b is None else (a + b if t.a[0] == "add" else a - b) & M
    if t.k == "cmp":
        a, b = calc(t.a[1], x, v), calc(t.a[2], x, v)
        if a is None or b is None:
            return None
        s = lambda n: n - (1 << 64) if n >> 63 else n
        return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "slt": s(a) < s(b), "sle": s(a) <= s(b)}.get(t.a[0])
    return None


def name(c):
    return "'%s'" % chr(c) if 0x21 <= c < 0x7f else "%d" % (c & 255)


# ---------------------------------------------------------------- afterwards
def after(prog, R):
    F = func(prog, "evdata")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, CLOSE)
    for p in J_.iters:
        seg = p.segment()
        e = [x for x in seg if x.name == "evcommand"]
        if not e:
            continue
        k = [i for i, x in enumerate(seg) if x is e[-1]][0]
        pr = [p.range(t) for t in p.facts if ldfield(t, prog) == ("struct.conn", "proto")]
        if not any(r[0] == r[1] == 3 for r in pr) or any(r[0] > 3 or r[1] < 3 or 3 in r[2] for r in pr):
            continue
        J_.check(any(x.name in ("conn_close", "net_conn_close") for x in seg[k:]), "close", p, "goes on with an HTTP connection it promised to close", e[-1])


