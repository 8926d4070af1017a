"""C10 expiry arithmetic, C19 atomic read-modify-write commands."""
from semlib import *
from p_sem import (sems, oncache, keyarg, attime, norm, nlin, lin_key, known_atoms, completion, Carrier, lits, nextarg, parsedof, deref, ASSUME,
                   number, answered)
from p_cmds import groups, protos_of, feasible_name

EXPLAIN = {}


def letter_ok(p, name):
    """facts about the first letter of the command's name"""
    for t in p.facts:
        if t.k == "call" and t.a[1] in ("tolower", "toupper") and about0(t):
            lo, hi, ex = p.range(t)
            c = ord(name[0].lower() if t.a[1] == "tolower" else name[0].upper())
            if not lo <= c <= hi or c in ex:
                return False
    first = [t for t in p.facts if firstbyte(t)]
    if first:
        def fits(c):
            return all(p.range(t)[0] <= c <= p.range(t)[1] and c not in p.range(t)[2] for t in first)
        return fits(ord(name[0].lower())) or fits(ord(name[0].upper()))
    return True


def firstbyte(t):
    """the first byte of argument 0 itself"""
    x = strip(t)
    if x.k != "ld":
        return False
    r, o = akey(x.a[1])
    g = argref(r)
    return o == 0 and g is not None and g[1] == "data" and isc(g[0]) and g[0].a[0] == 0


def about0(t):
    """reads the first byte of argument 0"""
    for x in walk(t):
        if x.k == "ld" and argref(x) is not None and isc(argref(x)[0]) and argref(x)[0].a[0] == 0:
            return True
    return len(t.a) < 3 or not t.a[2]


def argis(p, i, want):
    """is the argument index i the wanted one: True, False, None"""
    i = strip(i)
    if isc(i):
        return i.a[0] == want
    lo, hi, ex = p.range(i)
    if lo == hi:
        return lo == want
    if plain(i) and lin_ok(i):
        return False if not lo <= want <= hi or want in ex or lo < want or hi > want else None
    return None


def lin_ok(i):
    """args->len plus a constant"""
    if islen(i):
        return True
    return i.k == "bin" and i.a[0] in ("add", "sub") and all(isc(x) or islen(strip(x)) for x in i.a[1:] if isinstance(x, T))


def mypaths(s):
    for p, proto in s.paths():
        if letter_ok(p, s.name):
            yield p, proto


# ---- C19 -------------------------------------------------------------------
RMW = {}
for _n in ("incr", "decr", "incrby", "decrby", "uincr", "udecr", "uincrby", "udecrby", "append", "prepend"):
    RMW[_n] = _n
OPS = ("__sa_load", "__sa_store", "__sa_delete", "__sa_iter", "__sa_sweep", "__sa_clear")


def batched(s, p, rule):
    """the operations of a path run inside one batch that is ended exactly once; returns False when broken"""
    begun = ended = 0
    handle = None
    ops = 0
    for e in p.ev:
        if e.name == "__sa_begin":
            begun += 1
            if begun > 1:
                s.bad(rule, "nested", p, "a second batch is begun", e)
                return False
        elif e.name == "__sa_batch":
            handle = e.res
        elif e.name == "__sa_end":
            ended += 1
            if ended > 1:
                s.bad(rule, "twice", p, "the batch is ended twice", e)
                return False
            if handle is None:
                s.bad(rule, "none", p, "a batch is ended that was never begun", e)
                return False
            s.check(True if strip(e.args[0]) is handle else None, rule, "end", p, "", e)
        elif e.name in OPS:
            ops += 1
            c = strip(e.args[0])
            if begun and not ended:
                if c is not handle and isglobal(c, "cache"):
                    s.bad(rule, "bypass|" + e.name, p, "an operation of the command goes past its batch: another client's write can come in between", e)
                    return False
                s.check(True if c is handle else None, rule, "handle", p, "", e)
            elif ended:
                s.bad(rule, "after|" + e.name, p, "an operation of the command runs after its batch has ended", e)
                return False
    if begun and not ended:
        s.bad(rule, "leak", p, "a batch is left open: the part of the cache it holds stays locked")
        return False
    if ops > 1 and not begun:
        s.bad(rule, "unbatched", p, "reads and writes the key in separate operations: another client's write can come in between")
        return False
    if begun:
        s.R.ok(rule, "%s: one batch" % s.NAME)
    return True


def sem_rmw(s):
    rule = "read-modify-write happens in one batch"
    for p, proto in mypaths(s):
        if not batched(s, p, rule):
            continue
        loads, stores = p.calls("__sa_load"), p.calls("__sa_store")
        for e in loads + stores:
            keyarg(s, p, e, 1, rule)
        if len(loads) == 1 and len(stores) == 1:
            lt, st = strip(loads[0].args[3]), strip(stores[0].args[S_TIME])
            if isnow(lt) and isnow(st):
                s.check(lt is st, rule, "time", p, "reads and writes at different times: an entry may expire in between")
        if len(stores) > 1 or len(loads) > 1:
            s.R.unknown += 1
            continue
        if s.name in ("append", "prepend"):
            concat(s, p, proto, loads, stores)
        else:
            arith(s, p, proto, loads, stores)
        conserved(s, p, loads, stores)


def hit(p, s):
    for e in p.ev:
        if e.name == "__sa_loadres":
            st = status(s.prog, e)
            return None if st is None else st == FOUND
    return None


def conserved(s, p, loads, stores):
    """an existing entry's expiry and flags survive; a new one has none"""
    rule = "expiry and flags survive"
    h = hit(p, s)
    if h is None or not stores:
        return
    e = stores[0]
    for k, nm in ((S_NX, "NX"), (S_XX, "XX"), (S_CASOP, "CAS")):
        t = e.args[k]
        s.check(t.a[0] == 0 if isc(t) else None, rule, nm.lower(), p, "stores with a condition (%s)" % nm, e)
    ex, fl, keep, ttl = strip(e.args[S_EXP]), strip(e.args[S_FLAGS]), e.args[S_KEEP], strip(e.args[S_TTL])
    s.check(ttl is ZERO if plain(ttl) else None, rule, "ttl", p, "stores with a lifetime of %s" % show(ttl), e)
    if h:
        kept = isc(keep) and keep.a[0] != 0
        s.check(True if kept or iscall(ex, "__sa_eexpires") else False if plain(ex) and isc(keep) else None, rule, "expires", p,
                "the entry's expiry becomes %s instead of staying as it was" % show(ex), e)
        s.check(True if iscall(fl, "__sa_eflags") else False if plain(fl) else None, rule, "flags", p,
                "the entry's flags become %s instead of staying as they were" % show(fl), e)
    else:
        s.check(True if ex is ZERO else False if plain(ex) else None, rule, "new-expires", p, "a new entry gets the expiry %s" % show(ex), e)
        s.check(True if fl is ZERO else False if plain(fl) else None, rule, "new-flags", p, "a new entry gets the flags %s" % show(fl), e)


def bufcontent(p, upto, t):
    """what a local buffer holds when event upto happens"""
    last = None
    for e in p.ev:
        if e is upto:
            break
        if e.name in ("u64toa", "i64toa") and under(e.args[1]) is under(t):
            last = ("num", strip(e.args[0]), e.name[0], e.res)
        elif e.name == "snprintf" and under(e.args[0]) is under(t):
            last = ("fmt", text(e.args[2]), tuple(e.args[3:]), e.res)
    return last


def arith(s, p, proto, loads, stores):
    rule = "counters move by exactly the amount given"
    unsigned = s.name[0] == "u"
    decr = "decr" in s.name
    by = s.name.endswith("by")
    h = hit(p, s)
    r = Reply(p, proto)
    if not stores:
        # nothing stored: the client must be told
        if loads and not r.unknown:
            told = r.err or (proto == MEMC and any(True for t in r.toks if t.k == "raw"))
            s.check(told, rule, "silent", p, "nothing is stored and the client is not told")
        return
    e = stores[0]
    c = bufcontent(p, e, e.args[S_VAL])
    if c is None or h is None:
        if argno(e.args[S_VAL], "data") is not None:
            s.bad(rule, "value", p, "the argument is stored as it is", e)
        s.R.unknown += 1
        return
    if c[0] == "fmt":
        if len(c[2]) != 1 or c[1] is None:
            s.R.unknown += 1
            return
        kind = "u" if c[1] in ("%lu", "%llu", "%zu") else "i" if c[1] in ("%ld", "%lld", "%zd") else None
        v = strip(c[2][0])
    else:
        kind, v = c[2], c[1]
    n = strip(e.args[S_VALLEN])
    s.check(True if n is strip(c[3]) or n.k == "pure" and n.a[0] == "strlen" else False if plain(n) else None, rule, "len", p,
            "stores %s bytes of the number's text" % show(n), e)
    if kind is not None:
        s.check((kind == "u") == unsigned, rule, "sign", p, "the new value is written as %s number" % ("an unsigned" if kind == "u" else "a signed"), e)
    # the arithmetic
    old = d = op = flag = None
    t = v
    if t.k == "ovfr" and t.a[0].k == "ovf":
        op, a, b = t.a[0].a[0], strip(t.a[0].a[1]), strip(t.a[0].a[2])
        flag = mkcmp("eq", mk("ovfr", t.a[0], 1), C(1))
    elif t.k == "bin" and t.a[0] in ("add", "sub"):
        op, a, b = t.a[0], strip(t.a[1]), strip(t.a[2])
    else:
        s.check(False if plain(t) else None, rule, "arith", p, "stores %s" % show(t), e)
        return
    isdelta = lambda x: (x.k == "parsed" and parsedarg(x) is not None) or (not by and isc(x) and x.a[0] != 0)
    isold = lambda x: (h and x.k == "parsed" and iscall(x.a[2], "__sa_eval")) or (not h and x is ZERO)
    sub = op.endswith("sub")
    if isold(a) and isdelta(b):
        dl = b
    elif isold(b) and isdelta(a) and not sub:
        dl = a
    elif all(plain(x) or x.k == "parsed" for x in (a, b)):
        s.bad(rule, "operands", p, "the new value is computed as %s of %s and %s" % (op, show(a), show(b)), e)
        return
    else:
        s.R.unknown += 1
        return
    if isc(dl):
        down = sub != (dl.a[0] < 0)
        s.check(abs(dl.a[0]) == 1, rule, "one", p, "the counter moves by %d" % abs(dl.a[0]), e)
        s.check(down == decr, rule, "direction", p, "the counter moves the wrong way", e)
    else:
        s.check(sub == decr, rule, "direction", p, "the counter moves the wrong way", e)
        i, fn = parsedarg(dl)
        s.check(argis(p, i, 2), rule, "delta", p, "the amount is taken from argument %s" % show(i), e)
        parsedok(s, p, dl, rule, "amount", unsigned)
    oldt = a if isold(a) else b
    if oldt.k == "parsed":
        parsedok(s, p, oldt, rule, "old value", unsigned)
    # overflow
    if flag is None:
        s.bad(rule, "overflow", p, "the result of the addition is stored without looking for overflow", e)
    else:
        if op[0] in "us":
            s.check((op[0] == "u") == unsigned, rule, "overflow-sign", p, "overflow is looked for in %s arithmetic" %
                    ("unsigned" if op[0] == "u" else "signed"), e)
        if proto != MEMC:
            f = p.truth(flag)
            s.check(False if f is True else True if f is False else None, rule, "overflow", p, "a counter that overflowed is stored", e)
            if f is None and not any(flag.a[1] in walk(x) for x in p.facts):
                s.bad(rule, "overflow", p, "the counter is stored without looking at whether it overflowed", e)
    # the reply
    st = lastres(p, s.prog)
    if st in (INSERTED, REPLACED) and not r.unknown:
        s.check(not r.err, rule, "reply-err", p, "a change that was made is answered with an error")
        w = None
        if proto in (RESP, MEMC):
            x = r.first("int")
            if x is not None:
                w = strip(x.a[0])
                s.check((x.a[1] == "u") == unsigned, rule, "reply-sign", p, "the new value is reported with the wrong signedness")
        elif proto == PG:
            x = r.first("row")
            if x is not None and x.a[1]:
                cc = x.a[1][0]
                if cc[0] == "fmt" and len(cc[2]) == 1:
                    w = strip(cc[2][0])
                    if cc[1] in ("%ld", "%lld", "%lu", "%llu"):
                        s.check(cc[1].endswith("u") == unsigned, rule, "reply-sign", p, "the new value is reported with the wrong signedness")
                elif cc[0] == "num":
                    w = cc[1]
            nm = {"uincr": "INCR", "udecr": "DECR", "uincrby": "INCRBY", "udecrby": "DECRBY"}.get(s.name, s.NAME)
            completion(s, p, r.toks, rule, nm, alt=(s.NAME,))
        if w is not None:
            s.check(True if w is v else False if plain(w) or w.k in ("ovfr", "parsed") else None, rule, "reply", p,
                    "answers %s, which is not the value stored" % show(w))
    elif st == NOMEM and not r.unknown:
        s.check(r.err, rule, "nomem", p, "running out of memory is not reported as an error")


def parsedok(s, p, t, rule, what, unsigned):
    """the number was really read"""
    ok = None
    for f in p.facts:
        if f.k == "call" and f.a[0] == t.a[0] and f.a[1] == t.a[1]:
            ok = p.truth(f)
            break
    s.check(ok if ok is not None else None, rule, what + "-parsed", p, "the %s is used although it could not be read as a number" % what)
    s.check((t.a[1] == "parse_u64") == unsigned, rule, what + "-sign", p, "the %s is read with %s" % (what, t.a[1]))


def concat(s, p, proto, loads, stores):
    rule = "appending keeps both parts, in order"
    h = hit(p, s)
    r = Reply(p, proto)
    if h is None:
        return
    if not stores:
        if loads and not r.unknown:
            told = r.err or (proto == MEMC and any(t.k == "raw" for t in r.toks))
            s.check(told, rule, "silent", p, "nothing is stored and the client is not told")
        if not h and proto == MEMC:
            try:
                x = r.text()
                s.check(x == "NOT_STORED\r\n" or r.err, rule, "notstored", p, "a missing key is answered with %r" % x)
            except (Skip, Bad):
                pass
        return
    e = stores[0]
    if not h:
        if proto == MEMC:
            s.bad(rule, "memc-create", p, "a key that does not exist is created by a memcache %s" % s.name, e)
        k = keyidx(e, S_VAL)
        s.check(None if k is None else False if k is False else k.a[0] == 2 if isc(k) else None, rule, "new", p,
                "a new entry does not get the value given", e)
        total = norm(e.args[S_VALLEN])
    else:
        buf = under(e.args[S_VAL])
        cps = []
        for x in p.ev:
            if x is e:
                break
            if x.name == "memcpy" and under(x.args[0]) is buf:
                cps.append(x)
        if buf.k != "new":
            s.check(False if plain(e.args[S_VAL]) else None, rule, "value", p, "stores %s" % show(e.args[S_VAL]), e)
            return
        parts = []
        for x in cps:
            src, n = x.args[1], strip(x.args[2])
            who = "old" if iscall(src, "__sa_eval") else "new" if argno(src, "data") is not None else None
            nn = "old" if iscall(n, "__sa_evallen") else "new" if argno(n, "len") is not None else None
            if who is None or (nn is None and not plain(n)):
                parts = None
                break
            if nn != who:
                s.bad(rule, "partlen", p, "%s bytes of the %s part are copied" % (show(n), who), x)
                return
            parts.append((who, x, n))
        if parts is None or len(parts) != 2 or {w for w, _, _ in parts} != {"old", "new"}:
            if parts is not None and len(parts) < 2 and cps:
                s.bad(rule, "parts", p, "only %d of two parts is copied into the new value" % len(parts), e)
            else:
                s.R.unknown += 1
            return
        offs = {}
        for w, x, n in parts:
            offs[w] = addroff(x.args[0], buf)
        first = "new" if s.name == "prepend" else "old"
        second = "old" if first == "new" else "new"
        ln = {w: n for w, x, n in parts}
        if offs[first] is None or offs[second] is None:
            s.R.unknown += 1
        else:
            s.check(offs[first] == (), rule, "order", p, "the %s part does not come first" % ("given" if first == "new" else "existing"), e)
            if offs[first] == ():
                s.check(offs[second] == norm(ln[first]), rule, "offset", p, "the second part is not put right behind the first", e)
        total = norm(e.args[S_VALLEN])
        want = nlin(mkbin("add", ln["old"], ln["new"]))
        s.check(True if total == lin_key(want) else False if plain(e.args[S_VALLEN]) else None, rule, "total", p,
                "stores %s bytes, not the length of both parts" % show(e.args[S_VALLEN]), e)
        al = norm(buf.a[1]) if len(buf.a) > 1 and isinstance(buf.a[1], T) else None
        if al is not None and plain(buf.a[1]):
            s.check(al == lin_key(want) or ge(al, lin_key(want)), rule, "alloc", p, "allocates %s bytes for both parts" % show(buf.a[1]), e)
    st = lastres(p, s.prog)
    if r.unknown:
        return
    if st in (INSERTED, REPLACED):
        s.check(not r.err, rule, "reply-err", p, "a change that was made is answered with an error")
        w = None
        if proto == RESP:
            x = r.first("int")
            w = x.a[0] if x is not None else None
        elif proto == PG:
            ts = completion(s, p, r.toks, rule, s.NAME, "n")
            w = ts[0] if len(ts) == 1 else None
        elif proto == MEMC:
            try:
                x = r.text()
                s.check(x == "STORED\r\n", rule, "memc", p, "a change that was made is answered with %r" % x)
            except (Skip, Bad):
                pass
        if w is not None:
            s.check(True if norm(w) == total else False if plain(w) else None, rule, "reply", p, "answers %s, not the new length" % show(w))
    elif st == NOMEM:
        s.check(r.err, rule, "nomem", p, "running out of memory is not reported as an error")


def ge(a, b):
    """a = b + nonnegative constant"""
    da, db = dict(a), dict(b)
    ca, cb = da.pop("1", 0), db.pop("1", 0)
    return da == db and ca >= cb


def addroff(A, root):
    """offset of an address into a fresh block as a linear form, None unknown"""
    if A is root:
        return ()
    r, o = akey(A)
    d = {1: o} if o else {}
    while r is not root:
        if r.k == "idx":
            for v, sc in r.a[1]:
                for x, c in nlin(v).items():
                    d[x] = d.get(x, 0) + c * sc
            if r.a[2]:
                d[1] = d.get(1, 0) + r.a[2]
            r, o = akey(r.a[0])
            if o:
                d[1] = d.get(1, 0) + o
        else:
            return None
    return lin_key(d)


def C19(prog, R, tier):
    for s in sems(prog, R, RMW):
        sem_rmw(s)
    R.need("read-modify-write happens in one batch", 10)


EXPLAIN["C19"] = ("Every path of INCR/DECR(BY), their unsigned forms, APPEND and PREPEND is enumerated per name, protocol and engine outcome: batch "
                  "begin/end pairing, the handle, key and time of each operation, the symbolic new value (old value, amount, direction, signedness, "
                  "overflow test; both parts, their order, offsets and lengths), kept expiry and flags, and the reply are compared with the "
                  "command's meaning.")


# ---- C10 -------------------------------------------------------------------
UNIT = {"ex": SECOND, "px": MILLI, "exat": SECOND, "pxat": MILLI}
MONTH = 30 * 24 * 3600 * SECOND
RX = "expiry arithmetic"


def clamped(s, p, v, key):
    """client numbers are only combined with saturating arithmetic"""
    for x in walk(v):
        if x.k == "bin" and x.a[0] in ("add", "mul", "shl") and any(y.k == "parsed" for y in walk(x)):
            # a difference of the number and the clock cannot overflow when the number is larger
            s.bad(RX, key + "-clamp", p, "%s can overflow for numbers a client may send" % show(x))
            return False
    return True


def exform(v):
    """canonical form of an expiry"""
    return dict(norm(v)) if norm(v)[:1] != ("div",) else None


def expect(s, p, proto, v, unit, absolute, key):
    """the expiry v computed on a path from a positive number"""
    v = strip(v)
    f = nlin(v)
    ps = [k for k in f if isinstance(k, str) and k == "parsed"]
    if not known_atoms(v, ("parsed", "sys_now", "sys_unixnow")):
        s.R.unknown += 1
        return
    rel = {"parsed": unit, "now": 1}
    ab = {"parsed": unit, "unix": -1, "now": 1}
    past = {"now": 1}
    got = {k: c for k, c in f.items()}
    if not clamped(s, p, v, key):
        return
    if got == past:
        # only for a moment that has passed
        if absolute or proto == MEMC:
            t = bigger(p)
            s.check(None if t is None else t is False, RX, key + "-past", p, "a time that lies ahead is treated as already passed")
        else:
            s.bad(RX, key + "-past", p, "the lifetime given is ignored: the entry expires at once")
        return
    if absolute:
        if got == ab:
            ahead(s, p, v, key)
        else:
            s.bad(RX, key, p, "the expiry is computed as %s, expected number*%d - unix time + now" % (show(v), unit))
    else:
        if got == rel:
            if proto == MEMC:
                m = month(p, unit)
                if m is True or isinstance(m, tuple) and m[1] < 1 << 62:
                    s.bad(RX, key + "-month", p, "a memcache expiry beyond 30 days is not taken as a unix time")
                    return
            s.R.ok(RX, "%s: number*%d + now" % (key, unit))
        elif got == ab and proto == MEMC:
            m = month(p, unit)
            s.check(m if m is None or m is True or m is False else m[0] >= MONTH, RX, key + "-month", p, "a memcache lifetime of up to 30 days is taken as a unix time")
            ahead(s, p, v, key)
        else:
            s.bad(RX, key, p, "the expiry is computed as %s, expected now + number*%d" % (show(v), unit))


def ahead(s, p, v, key):
    """an expiry measured against the unix clock was compared with it"""
    t = bigger(p)
    if t is False:
        s.bad(RX, key + "-ahead", p, "a time that has passed is treated as lying ahead")
    elif t is None and p.range(v)[0] < 1 and not any({"parsed", "unix"} <= set(nlin(x)) or x.k == "cmp" and
                                                     {"parsed", "unix"} <= set(nlin(x.a[1])) | set(nlin(x.a[2]))
                                                     for x in p.facts if x.k in ("bin", "pure", "cmp")):
        s.bad(RX, key + "-ahead", p, "a time that has passed may give an expiry of zero or less, which means none")
    else:
        s.R.ok(RX, "%s: unix time" % key)


def compared(p, num):
    """is something computed from the number looked at on the path"""
    return any(t is not num and num in walk(t) for t in p.facts)


def bigger(p):
    """is the number known to lie after the present unix time on the path"""
    for t in p.facts:
        if t.k != "cmp":
            continue
        a, b = t.a[1], t.a[2]
        fa, fb = nlin(a), nlin(b)
        if t.a[0] == "slt" and "parsed" in fb and fa == {"unix": 1}:
            return p.truth(t)
        if t.a[0] == "slt" and "parsed" in fa and fb == {"unix": 1}:
            r = p.truth(t)
            return None if r is None else not r
    return None


def month(p, unit):
    """is the number known to exceed 30 days: True, False, None (may be either: "open" when nothing was compared)"""
    top, bot = None, None
    for t in p.facts:
        if t.k == "cmp":
            continue
        try:
            f = nlin(t)
        except Exception:
            continue
        if not f or set(f) != {"parsed"} or f["parsed"] <= 0:
            continue
        lo, hi, ex = p.range(t)
        c = unit // f["parsed"]
        if c < 1 or unit % f["parsed"]:
            continue
        # the number itself times unit
        hi, lo = hi * c, lo * c
        top = hi if top is None else min(top, hi)
        bot = lo if bot is None else max(bot, lo)
    if bot is not None and bot > MONTH:
        return True
    if top is not None and top <= MONTH + unit:
        return False
    return None if top is None else (bot or 0, top)


def sem_setx(s):
    stores = [(p, e) for p in s.upaths() for e in p.calls("__sa_store")]
    its = s.iters()
    cars = {}
    for p, e in stores:
        c = Carrier(e.args[S_EXP])
        if c.ok:
            cars[c.pid if c.pid is not None else c.addr] = c
        t = strip(e.args[S_TTL])
        s.check(t is ZERO if plain(t) else None, RX, "ttl", p, "stores with an additional lifetime of %s" % show(t), e)
    if len(cars) != 1:
        s.R.unknown += 1
        return
    c = list(cars.values())[0]
    for p in its:
        L = lits(p)
        if len(L) != 1:
            s.R.unknown += 1
            continue
        lit = list(L)[0]
        v = c.final(p)
        if lit not in UNIT:
            if v is not None and v != "UNCH" and any(x.k == "parsed" for x in walk(v)) and plainish(v):
                s.bad(RX, "other-" + lit, p, "option %s changes the expiry to %s" % (lit.upper(), show(v)))
            continue
        if v is None:
            s.R.unknown += 1
            continue
        if v == "UNCH":
            s.bad(RX, lit + "-ignored", p, "option %s has no effect on the expiry" % lit.upper())
            continue
        q = parsedof(v)
        pos = None
        num = q
        if num is None:
            for f in p.facts:
                for x in walk(f):
                    if x.k == "parsed":
                        num = x
        if num is not None:
            pos = poszero(p, num)
            nextarg(s, p, num, lit, RX)
        for proto in p.protos():
            if proto == HTTP:
                continue
            if pos is False:
                if proto != MEMC:
                    s.bad(RX, lit + "-nonpositive", p, "a lifetime of zero or less is accepted")
                elif isc(strip(v)) and strip(v).a[0] <= 0:
                    s.bad(RX, lit + "-never", p, "a negative memcache expiry makes the entry live forever")
                else:
                    s.check(nlin(v) == {"now": 1} if known_atoms(v, ("parsed", "sys_now", "sys_unixnow")) else None, RX, lit + "-negative", p,
                            "a negative memcache expiry gives the expiry %s instead of the present" % show(v))
                continue
            if pos is None and proto != MEMC:
                s.check(None, RX, lit, p, "")
                if num is not None and (num not in p.facts or p.range(num)[0] == 0 and 0 not in p.range(num)[2] and not compared(p, num)):
                    s.bad(RX, lit + "-unchecked", p, "a lifetime of zero or less is not refused")
                continue
            expect(s, p, proto, v, UNIT[lit], lit.endswith("at"), lit)


def plainish(v):
    return known_atoms(v, ("parsed", "sys_now", "sys_unixnow", "__sa_eexpires"))


def sem_setexx(s):
    for p, proto in s.paths():
        for e in p.calls("__sa_store"):
            v = strip(e.args[S_EXP])
            num = parsedof(v)
            t = strip(e.args[S_TTL])
            if num is None and parsedof(t) is not None:
                if nlin(t) != {"parsed": SECOND}:
                    s.check(False if plainish(t) else None, RX, "setex", p, "the lifetime is computed as %s" % show(t), e)
                else:
                    s.R.ok(RX, "SETEX")
                continue
            if num is None:
                s.check(False if plain(v) and plain(t) else None, RX, "setex-ignored", p, "the lifetime given has no effect (expiry %s)" % show(v), e)
                continue
            pos = poszero(p, num)
            if pos is None and p.range(num)[0] <= 0 and not compared(p, num):
                pos = False
            s.check(pos, RX, "setex-nonpositive", p, "a lifetime of zero or less is accepted", e)
            i = parsedarg(num)
            if i is not None:
                s.check(argis(p, i[0], 2), RX, "setex-arg", p, "the lifetime is taken from argument %s" % show(i[0]), e)
            expect(s, p, proto if proto != MEMC else RESP, v, SECOND, False, "setex")


def sem_expirex(s):
    for p, proto in s.paths():
        for e in p.calls("__sa_update"):
            v = strip(e.args[2])
            num = parsedof(v)
            if num is None:
                # long past: any moment that has passed, but never "no expiry"
                if isc(v):
                    past = any(set(nlin(t)) == {"parsed", "now"} and p.range(t)[1] <= 0 for t in p.facts if t.k in ("pure", "bin"))
                    s.check(v.a[0] >= 1 and past, RX, "expire-const", p, "the expiry becomes the constant %d%s" %
                            (v.a[0], ": the entry would never expire" if v.a[0] <= 0 else ""), e)
                else:
                    s.check(False if plainish(v) else None, RX, "expire-ignored", p, "the lifetime given has no effect (expiry %s)" % show(v), e)
                continue
            i = parsedarg(num)
            if i is not None:
                s.check(argis(p, i[0], 2), RX, "expire-arg", p, "the lifetime is taken from argument %s" % show(i[0]), e)
            expect(s, p, RESP, v, SECOND, False, "expire")
            # zero would mean no expiry
            if nlin(v) == {"parsed": SECOND, "now": 1}:
                lo, hi, ex = p.range(v)
                s.check(lo >= 1 or 0 in ex and lo >= 0, RX, "expire-zero", p,
                        "a lifetime that lies far in the past gives an expiry of zero or less, which means none", e)


X10 = {"set": sem_setx, "setex": sem_setexx, "expire": sem_expirex}


def C10(prog, R, tier):
    for s in sems(prog, R, X10):
        X10[s.name](s)
    clampfns(prog, R)


EXPLAIN["C10"] = ("The expiry each path of SET, SETEX and EXPIRE hands to the engine is extracted as a symbolic term over the client's number, the "
                  "monotonic clock and the unix clock, per option, protocol and branch fact, brought to a linear normal form and compared with the "
                  "option's definition; saturating arithmetic is required wherever a client's number takes part.")


MAX64, MIN64 = (1 << 63) - 1, -(1 << 63)


def clampfns(prog, R):
    """the saturating helpers saturate exactly when the result does not fit"""
    rule = "saturating arithmetic saturates"
    for nm, op in (("int64_add_clamp", "add"), ("int64_mul_clamp", "mul")):
        for M in prog.mods.values():
            if nm in M.funcs:
                clampfn(prog, R, M.funcs[nm], op, rule)


def sumform(t, a, b):
    """[x, y, k] when t is x*a + y*b + k, None otherwise"""
    t = strip(t)
    if t is a:
        return [1, 0, 0]
    if t is b:
        return [0, 1, 0]
    if isc(t):
        return [0, 0, t.a[0]]
    if t.k == "bin" and t.a[0] in ("add", "sub"):
        x, y = sumform(t.a[1], a, b), sumform(t.a[2], a, b)
        if x is not None and y is not None:
            return [i + j if t.a[0] == "add" else i - j for i, j in zip(x, y)]
    return None


def signs(S, st, t):
    lo, hi, ex = S.get(st, t)
    return [g for g, ok in ((-1, lo < 0), (0, lo <= 0 <= hi and 0 not in ex), (1, hi > 0)) if ok]


def clampfn(prog, R, F, op, rule):
    from ir import flatten
    R.analysed(F)
    S = Sim(prog, flatten(prog, F, lambda G, I: prog.isnew(G)), ClampRule())
    S.run()
    a, b = mk("p", 0), mk("p", 1)
    where = F.file + ":" + str(F.line)

    def bounds(st):
        """(which bound, is it exceeded) for every comparison with one: (K, above?, exceeded?)"""
        out, odd = [], False
        for t in st.facts:
            if t.k != "cmp" or t.a[0] != "slt":
                continue
            x, y, v = strip(t.a[1]), strip(t.a[2]), S.truth(st, t)
            if op == "add":
                d = sumform(y, a, b), sumform(x, a, b)
                if None in d:
                    odd = True
                    continue
                d = [i - j for i, j in zip(*d)]
                # d > 0 holds exactly when v
                if d[:2] == [1, 1]:
                    out.append((-d[2], True, v, None, None))
                elif d[:2] == [-1, -1]:
                    out.append((d[2], False, v, None, None))
                else:
                    odd = True
                continue
            for c, o, above in ((x, y, True), (y, x, False)):
                if c.k == "bin" and c.a[0] == ("sub" if op == "add" else "sdiv") and isc(c.a[1]) and {strip(c.a[2]), o} == {a, b}:
                    K = strip(c.a[1]).a[0]
                    # K op' u < o  (above) or o < K op' u; u is the other operand
                    out.append((K, above, v, strip(c.a[2]), o))
                    break
            else:
                odd = True
        return out, odd

    for st, ret in S.rule.exits:
        ret = strip(ret)
        bs, odd = bounds(st)
        combos = [(x, y) for x in signs(S, st, a) for y in signs(S, st, b)]
        for t in st.facts:
            if t.k == "bin" and t.a[0] == "xor" and {strip(t.a[1]), strip(t.a[2])} == {a, b}:
                lo, hi, ex = S.get(st, t)
                neg = lambda g: g < 0
                combos = [c for c in combos if not (lo >= 0 and neg(c[0]) != neg(c[1])) and not (hi < 0 and neg(c[0]) == neg(c[1]))]
        ov = [t for t in st.facts if any(x.k == "ovf" for x in walk(t))]
        if ov or ret.k == "ovfr":
            if ret.k == "ovfr" and ret.a[1] == 0:
                f = S.truth(st, mkcmp("eq", mk("ovfr", ret.a[0], 1), C(1)))
                R.check(f is False and ret.a[0].a[0] == "s" + op, rule, F.name + "|plain", where, "%s returns the wrapped result" % F.name)
            elif isc(ret):
                R.check(ret.a[0] in (MAX64, MIN64), rule, F.name + "|bound", where, "%s returns %s on overflow" % (F.name, show(ret)))
                side(R, rule, F, op, combos, ret, where)
            continue
        if ret.k == "bin" and ret.a[0] == op and {strip(ret.a[1]), strip(ret.a[2])} == {a, b}:
            for sa_, sb_ in combos:
                if op == "add":
                    need = None if sa_ * sb_ <= 0 else (MAX64, True) if sa_ > 0 else (MIN64, False)
                    ok = need is None or any((K, ab) == need and v is False for K, ab, v, u, o in bs)
                else:
                    if sa_ * sb_ == 0:
                        ok = True
                    elif sa_ > 0 and sb_ > 0:
                        ok = any((K, ab, v) == (MAX64, True, False) for K, ab, v, u, o in bs)
                    elif sa_ < 0 and sb_ < 0:
                        ok = any((K, ab, v) == (MAX64, False, False) for K, ab, v, u, o in bs)
                    else:
                        # the negative one is compared with MIN divided by the positive one
                        pos = a if sa_ > 0 else b
                        ok = any((K, ab, v) == (MIN64, False, False) and u is pos for K, ab, v, u, o in bs)
                if ok:
                    R.ok(rule, F.name)
                elif odd:
                    R.unknown += 1
                else:
                    R.bad(rule, F.name + "|wraps", where, "%s may return a wrapped result (operands of sign %d and %d)" % (F.name, sa_, sb_))
            continue
        if isc(ret):
            R.check(ret.a[0] in (MAX64, MIN64), rule, F.name + "|bound", where, "%s returns the constant %s" % (F.name, show(ret)))
            known = [x for x in bs if x[2] is True]
            for K, ab, v, u, o in known:
                R.check(K in (MAX64, MIN64), rule, F.name + "|limit", where, "%s saturates at %d instead of where the result stops to fit" % (F.name, K))
            side(R, rule, F, op, [c for c in combos if 0 not in c], ret, where)
            if not known and not odd:
                R.bad(rule, F.name + "|always", where, "%s returns %s without a comparison with the bound" % (F.name, show(ret)))
            continue
        R.unknown += 1


def side(R, rule, F, op, combos, ret, where):
    for x, y in combos:
        if x * y == 0 or op == "add" and x * y < 0:
            continue
        neg = x < 0 if op == "add" else x * y < 0
        R.check((ret.a[0] < 0) == neg, rule, F.name + "|side", where, "%s saturates to the wrong side" % F.name)


class ClampRule(Rule):
    """collects what is known at each return; keeps every fact"""
    keepmem = True

    def __init__(self):
        self.exits = []

    def tracked(self, t):
        return True

    def exit(self, S, st, I, ret):
        self.exits.append((st.copy(), ret))
