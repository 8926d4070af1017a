"""C16: nothing is executed for a client that did not present the password."""
from gensim import *
from p_sem import ASSUME
from p_save import evs, call1, truthv, gl, mentions
from semlib import isglobal, argno, under
from replies import text
from guards import G

EXPLAIN = {}
GATE = "commands wait for the password"
GRANT = "access is granted only for exactly the password"
HTTPR = "an HTTP request carries the password"
FLAG = "the password is asked for when one is set"
CMPN = ("memcmp", "bcmp", "strncmp", "strcmp", "timingsafe_memcmp", "strcasecmp", "strncasecmp")
isauthpw = gl("auth")


def glrange(p, name):
    """range of the global on this path, or None when the path does not depend on it"""
    for t in p.facts:
        for x in walk(t):
            if isglobal(x, name):
                if x is t:
                    return p.range(t)
    return None


def known0(p, name):
    r = glrange(p, name)
    return r is not None and r[0] == r[1] == 0


def factrange(p, pred):
    for t in p.facts:
        if pred(t):
            return p.range(t)
    return None


def nonzero(r):
    return r is not None and (r[0] > 0 or r[1] < 0 or 0 in r[2])


def authed(p):
    r = factrange(p, lambda t: t.k == "pure" and t.a[0] == "auth" or t.k == "call" and len(t.a) > 1 and t.a[1] == "conn_auth")
    return nonzero(r)


def notauthed(p):
    r = factrange(p, lambda t: t.k == "pure" and t.a[0] == "auth" or t.k == "call" and len(t.a) > 1 and t.a[1] == "conn_auth")
    return r is not None and r[0] == r[1] == 0


def eqfacts(p, extra=()):
    """pairs known to be equal on the path"""
    for pr, a, b, v, t in cmpfacts(p):
        if pr == "eq" and v:
            yield a, b
    for t in p.facts:
        r = p.range(t)
        if r[0] == r[1] == 0 and t.k == "bin" and t.a[0] in ("sub", "xor"):
            yield t.a[1], t.a[2]


def pwcompare(p):
    """(event, data, length or None, equal?) of every comparison with the password"""
    for e in p.ev:
        if e.name in CMPN and len(e.args) >= 2:
            a = [isauthpw(strip(x)) or mentions(x, isauthpw) and strip(x).k in ("ld", "off", "idx") for x in e.args[:2]]
            if a[0] == a[1]:
                continue
            d = e.args[1] if a[0] else e.args[0]
            off0 = strip(e.args[0] if a[0] else e.args[1])
            v = resultzero(p, e.res)
            yield e, d, (e.args[2] if len(e.args) > 2 else None), v, isauthpw(off0)


def resultzero(p, res):
    r = p.range(res)
    if r[0] == r[1] == 0:
        return True
    if nonzero(r):
        return False
    for t in p.facts:
        if t.k == "cmp" and t.a[0] == "eq" and strip(t.a[1]) is strip(res) and isc(t.a[2]) and t.a[2].a[0] == 0:
            return p.truth(t)
    return None


def ispwlen(p, t):
    t = strip(t)
    return t.k in ("call", "pure", "strlen") and mentions(t, isauthpw) and ("strlen" in repr(t.a[:2]) or t.k == "strlen")


def fullmatch(p):
    """(True, data, length) when the path established that some text is exactly the password; (False, why) when it
    established less; (None,) when there is no comparison the analysis understands"""
    best = (None, None, None)
    for e, d, n, v, whole in pwcompare(p):
        if v is not True:
            continue
        if e.name in ("strcasecmp", "strncasecmp") or not whole:
            best = (False, e, "compares it loosely")
            continue
        if e.name == "strcmp":
            return True, d, None
        # the lengths are the same
        z = [t for t in p.facts if ispwlen(p, t) and p.range(t)[0] == p.range(t)[1] == 0]
        if z and (n is None or ispwlen(p, n) or isc(strip(n))) and d is ZERO:
            return True, d, None
        for a, b in eqfacts(p):
            for x, y in ((a, b), (b, a)):
                if ispwlen(p, x) and not ispwlen(p, y):
                    if n is None or same(n, x) or same(n, y) or ispwlen(p, n):
                        return True, d, y
        if any(ispwlen(p, x) for pr, a, b, vv, t in cmpfacts(p) for x in (a, b) if pr in ("ult", "slt")):
            best = (False, e, "compares only a part of it")
        elif best[0] is None:
            best = (False, e, "does not compare the lengths")
    return best


def mismatch(p):
    for e, d, n, v, whole in pwcompare(p):
        if v is False:
            return True
    for pr, a, b, v, t in cmpfacts(p):
        if pr == "eq" and v is False and (ispwlen(p, a) or ispwlen(p, b)):
            return True
    return False


def C16(prog, R, tier):
    EXPLAIN["C16"] = ("every path that runs a command, grants access or accepts a request: evcommand, the AUTH handler, the Postgres "
                      "startup, parse_http and every other caller of conn_setauth, with the comparisons it has passed")
    rows = dict(command_table(prog))
    ah = rows.get("auth")
    handlers = {h.name for n, h in rows.items()}
    dispatch(prog, R, ah, handlers)
    if ah is not None:
        handler(prog, R, ah)
    state(prog, R, ah)
    postgres(prog, R)
    http(prog, R)
    option(prog, R)


def dispatch(prog, R, ah, handlers):
    F = func(prog, "evcommand")
    if F is None or ah is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, GATE, keep=tuple(handlers))
    sawgate = False
    for p in J_.paths:
        free = known0(p, "useauth") or authed(p)
        http_ = p.protos() == [3] if notauthed(p) or not free else False
        seen = [e for e in p.ev if e.name == "*indirect*" or e.name in handlers]
        other = [e for e in seen if e.name != ah.name]
        if not free and not http_:
            sawgate = True
            J_.check(not other, "gate", p, "runs the command of a client that has not authenticated", other[0] if other else None)
            rep = [e for e in p.ev if is_reply(e.name)]
            if not other:
                J_.check(bool(rep) or any(e.name == ah.name for e in seen), "answer", p, "neither runs nor answers a command before authentication")
        if free or http_:
            direct = [e for e in seen if e.name == ah.name]
            J_.check(not direct, "free", p, "asks for the password although none is needed", direct[0] if direct else None)
    if not sawgate:
        J_.check(False, "gate", J_.paths[0], "never looks at whether the client has authenticated")


def handler(prog, R, ah):
    J_ = J(prog, R, ah, GRANT)
    for p in J_.paths:
        g = [e for e in p.ev if e.name == "conn_setauth"]
        m = fullmatch(p)
        isauth = p.argeq(0, "auth")
        for e in g:
            if strip(e.args[1]) is ZERO:
                continue
            if m[0] is None:
                anyc = any(mentions(a, isauthpw) for q in p.ev for a in q.args)
                x = strip(e.args[1])
                if x.k == "cmp" and p.truth(x) is False:
                    continue
                if x.k == "cmp" and p.truth(x) is True and e is g[-1] and mismatch(p):
                    anyc = False
                J_.check(None if anyc else False, "match", p, "grants access without comparing the password", e)
            else:
                J_.check(m[0], "match", p, "grants access although it %s" % (m[2] if not m[0] else ""), e)
            if m[0] is True:
                i = argno(strip(m[1]), "data")
                J_.check(None if i is None or not isc(i) else i.a[0] == 1, "argument", p, "takes the wrong argument for the password", e)
                if m[2] is not None and i is not None:
                    j = argno(strip(m[2]), "len")
                    J_.check(None if j is None else j is i, "length", p, "compares the length of another argument", e)
            n = [p.range(t) for t in p.facts if ldfield(t, prog) == ("struct.args", "len")]
            J_.check(not n or not all(r[1] > 2 and not (r[1] == 3 and 3 in r[2]) or r[0] <= 1 <= r[1] and 1 not in r[2] for r in n), "count", p,
                     "grants access to a command with other arguments than the password", e)
            J_.check(isauth is not False, "name", p, "grants access for a command that is not AUTH", e)
            J_.check(same(e.args[0], mk("p", 0)), "conn", p, "grants access to another connection", e)
        if m[0] is True and not g and isauth is not False:
            J_.check(False, "refused", p, "does not grant access for the right password")
        if not [e for e in p.ev if is_reply(e.name)]:
            J_.check(False, "silent", p, "gives no answer")
    cond = [1 for p in J_.paths if p.argeq(0, "auth") is False]
    J_.check(bool(cond) or None, "other-names", J_.paths[0], "")


def state(prog, R, ah):
    """who writes the flag"""
    pg = {F.name for M in prog.mods.values() for F in M.funcs.values() if M.name == "postgres.c"}
    for M in prog.mods.values():
        for F in M.funcs.values():
            if prog.isnew(F) or F.name.startswith("sa_stub"):
                continue
            for I in F.insts():
                if I.op == "call" and calleename(I) == "conn_setauth":
                    R.check(F is ah or M.name == "postgres.c", GRANT, "setauth|" + F.name, "%s:%s" % (F.file, I.line),
                            F.name + ": grants access outside of authentication")
    for n, want in (("conn_setauth", "set"), ("conn_auth", "get")):
        F = func(prog, n)
        if F is None:
            continue
        J_ = J(prog, R, F, GRANT)
        for p in J_.paths:
            if want == "get":
                f = ldfield(p.ret, prog) if p.ret is not None else None
                J_.check(None if f is None else f == ("struct.conn", "auth") and under(strip(p.ret).a[1]) is mk("p", 0), "reads", p, "does not report the connection's own state")
                if isc(strip(p.ret)):
                    J_.check(False, "reads", p, "reports a constant")
            else:
                ss = list(stores(p, prog, "struct.conn"))
                ok = [e for e in ss if fieldof(prog, e.args[0])[1] == "auth" and under(e.args[0]) is mk("p", 0)]
                J_.check(bool(ok) and all(carries(p, e.args[1]) is not False for e in ok), "writes", p, "does not record the connection's own state")
    F = func(prog, "evopened")
    if F is not None:
        J_ = J(prog, R, F, GRANT)
        for p in J_.paths:
            ud = call1(p, "net_conn_setudata")
            o = member_off(prog, "conn", "auth")
            if ud is None or o is None:
                R.unknown += 1
                continue
            v = strip(memat(J_.S, p, ud.args[1], o))
            J_.check(True if v is ZERO else False if isc(v) or ud.args[1].k == "new" and v.k == "ld" else None, "fresh", p,
                     "a new connection does not start unauthenticated")


def carries(p, v):
    """is the value the second parameter?"""
    v = strip(v)
    if v is mk("p", 1):
        return True
    if isc(v):
        r = factrange(p, lambda t: strip(t) is mk("p", 1))
        for t in p.facts:
            if r is None and t.k == "cmp" and strip(t.a[1]) is mk("p", 1) and isc(t.a[2]) and t.a[2].a[0] == 0 and p.truth(t) is not None:
                r = (0, 0, ()) if (t.a[0] == "eq") == p.truth(t) else (1, 1, ())
        if r is None:
            return False
        return r[0] == r[1] == 0 if v.a[0] == 0 else nonzero(r)
    return None if v.k in ("cmp", "bin") and any(x is mk("p", 1) for x in walk(v)) and not any(x.k in ("g", "ld") for x in walk(v)) else False


def memat(S, p, A, o, ty="i8"):
    st = p.st.copy()
    from psim import off as off_
    for k, e in st.mem.items():
        if k[0] == "Z" and k[1] is under(A) and k[2] <= o < k[3]:
            z = True
            break
    else:
        z = False
    x = st.mem.get((under(A), o))
    if x is not None:
        return x[0]
    return ZERO if z else mk("ld", "?", A, ())


def member_off(prog, struct, member):
    sd = prog.structs.get("struct." + struct) or prog.structs.get(struct)
    if not sd:
        return None
    for m in sd["m"]:
        if m.get("n") == member:
            return m["o"] // 8
    return None


def calleename(I):
    c = I.callee if hasattr(I, "callee") else None
    if isinstance(c, (list, tuple)):
        return c[1] if len(c) > 1 else None
    return c


def pgflag(p, prog, mem):
    return factrange(p, lambda t: ldfield(t, prog) == ("struct.pg", mem))


def postgres(prog, R):
    M = prog.mods.get("postgres.c")
    if M is None:
        R.unknown += 1
        return
    ready = set()
    work = []
    for F in M.funcs.values():
        if prog.isnew(F):
            continue
        fs = {f for f in (fieldst(prog, F, I) for I in F.insts() if I.op == "store") if f}
        calls = {calleename(I) for I in F.insts() if I.op == "call"}
        if ("struct.pg", "ready") in fs:
            ready.add(F.name)
        if ("struct.pg", "auth") in fs or "conn_setauth" in calls:
            work.append(F)
    for F in M.funcs.values():
        calls = {calleename(I) for I in F.insts() if I.op == "call"}
        if calls & ready and F not in work and not prog.isnew(F):
            work.append(F)
    for F in work:
        if F.name == "pg_new":
            continue
        J_ = J(prog, R, F, GRANT)
        for p in J_.paths:
            for e in stores(p, prog, "struct.pg", "auth"):
                if strip(e.args[1]) is ZERO:
                    continue
                m = fullmatch(p)
                J_.check(m[0] if m[0] is not None else (None if any(mentions(a, isauthpw) for q in p.ev for a in q.args) else False),
                         "password", p, "accepts a password message without an exact comparison", e)
            a = pgflag(p, prog, "auth")
            nopw = any(isauthpw(t) and p.range(t)[:2] == (0, 0) for t in p.facts) or known0(p, "useauth") or \
                any(t.k == "ld" and isauthpw(strip(t.a[1])) and p.range(t)[:2] == (0, 0) for t in p.facts)
            g = [e for e in p.ev if e.name == "conn_setauth" and strip(e.args[1]) is not ZERO]
            go = [e for e in p.ev if e.name in ready] + \
                [e for e in stores(p, prog, "struct.pg", "ready") if strip(e.args[1]) is not ZERO and F.name not in ready]
            for e in g:
                J_.check(nonzero(a) or fullmatch(p)[0] is True, "startup", p, "grants access before the password was checked", e)
            for e in go:
                J_.check(nonzero(a) or nopw or fullmatch(p)[0] is True, "ready", p, "lets a client start without the password", e)
                if nonzero(a) and not nopw:
                    J_.check(bool(g), "granted", p, "starts a session without granting access", e)
    F = func(prog, "evdata")
    if F is not None:
        J_ = J(prog, R, F, GATE)
        for p in J_.iters:
            seg = p.segment()
            e = [x for x in seg if x.name == "evcommand"]
            if not e:
                continue
            prs = [p.range(t) for t in p.facts if ldfield(t, prog) == ("struct.conn", "proto")]
            if any(r[0] == r[1] == 2 for r in prs) and not any(r[0] > 2 or r[1] < 2 or 2 in r[2] for r in prs):
                r = pgflag(p, prog, "ready")
                J_.check(nonzero(r), "started", p, "runs a command before the startup has finished", e[0])


def fieldst(prog, F, I):
    """(struct, member) a store writes to"""
    defs = _defs.get(F.key)
    if defs is None:
        defs = _defs[F.key] = {i.id: i for i in F.insts()}
    a = I.a[1]
    g = defs.get(a[1]) if a[0] == "v" else None
    if g is None or g.op != "getelementptr" or not g.d.get("path"):
        return None
    st, off = g.d["path"][-1]
    try:
        return st, prog.member(st, off)
    except Exception:
        return None


_defs = {}


def http(prog, R):
    F = func(prog, "parse_http")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, HTTPR, cut=True, cap=12000)
    for p in J_.paths:
        r = p.range(p.ret)
        if r[1] <= 0 and isc(strip(p.ret)):
            if mismatch(p) and fullmatch(p)[0] is None:
                # the error says so
                pass
            continue
        if known0(p, "useauth"):
            continue
        m = fullmatch(p)
        if m[0] is None:
            anyc = any(isauthpw(a) for q in p.ev if q.name in CMPN for a in q.args) or \
                any(x.k == "call" and mentions(x, isauthpw) for t in p.facts for x in walk(t))
            unk = glrange(p, "useauth") is None and not [1 for q in p.ev if any(mentions(a, isauthpw) for a in q.args)]
            J_.check(False if not anyc or unk else None, "match", p, "accepts a request without the password")
        else:
            J_.check(m[0], "match", p, "accepts a request although it %s" % (m[2] if not m[0] else ""), m[1] if m[0] is False else None)
        if m[0] is True and m[2] is not None:
            # text and length belong together
            d, n = strip(m[1]), strip(m[2])
            ld_, ln = linz(d), linz(n)
            if ld_ and ln and (ld_[0] or ln[0]):
                J_.check(ld_[0] == -ln[0], "bearer", p, "compares %d bytes too many or too few" % abs(ld_[0] + ln[0]))
                pre = [e for e in p.ev if e.name in ("strncmp", "memcmp", "strncasecmp") and any(same(x, off_(d, -ld_[0])) for x in e.args[:2])]
                ok = [e for e in pre if resultzero(p, e.res)]
                tx = [text(strip(x)) for e in ok for x in e.args[:2] if text(strip(x))]
                J_.check((True if tx[0] == "Bearer " and ld_[0] == 7 else False) if tx else None, "scheme", p, "takes the token from the wrong place")


def off_(t, k):
    from psim import off
    return off(t, k)


def option(prog, R):
    """useauth follows from the password"""
    M, n = None, 0
    for M in prog.mods.values():
        for F in M.funcs.values():
            if prog.isnew(F) or not any(I.op == "store" and globalname(I.a[1]) == "useauth" for I in F.insts()):
                continue
            R.analysed(F)
            g = G(prog, F)
            for I in g.stores("useauth"):
                n += 1
                where = "%s:%s" % (F.file, I.line)
                gs = [(pwset(g, c), t) for c, t in g.guards(g.blk[I.id])]
                given = [s == t for s, t in gs if s is not None]
                v = I.a[0]
                if v[0] != "c":
                    s = pwset(g, v)
                    if s is None:
                        continue
                    R.check(s is True, FLAG, F.name + "|useauth", where, F.name + ": the password is asked for when none is set and not when one is set")
                    continue
                on = v[1] != 0
                if given:
                    R.check(all(x == on for x in given), FLAG, F.name + "|useauth", where,
                            F.name + (": asks for a password although none is set" if on else ": does not ask for the password that is set"))
                elif on and not gs:
                    R.check(False, FLAG, F.name + "|useauth", where, F.name + ": asks for a password whether or not one is set")
            asked(prog, R, F, g)
    if not n:
        R.bad(FLAG, "useauth", "src/main.c:1", "no code asks for the password when one is set")


def asked(prog, R, F, g):
    """with a password set, no way to the start of the server leaves the flag unset"""
    on = set()
    for I in g.stores("useauth"):
        v = I.a[0]
        if v[0] == "c":
            if v[1] == 0:
                continue
            if not any(pwset(g, c) is not None for c, t in g.guards(g.blk[I.id])):
                return
        on.add(g.blk[I.id])
    goal = {g.blk[I.id] for I in g.insts() if g.callname(I) == "net_main"}
    if not on or not goal:
        R.unknown += 1
        return
    seen, todo = {g.f.entry}, [g.f.entry]
    while todo:
        b = todo.pop()
        if b in on:
            continue
        for s in g.f.blocks[b].succs:
            e = g.edge(b, s)
            if e is not None:
                k = pwset(g, e[0])
                if k is not None and (k == e[1]) is False:
                    continue
            if s not in seen:
                seen.add(s)
                todo.append(s)
    I = next(g.stores("useauth"))
    R.check(not (goal & seen), FLAG, F.name + "|asked", "%s:%s" % (F.file, I.line), F.name + ": does not always ask for a password that is set")


def pwset(g, o):
    """True when the value says that a password is set, False when it says that none is, None when it is about something else"""
    o = g.strip(o)
    I = g.d(o)
    neg = False
    while I is not None:
        if I.op == "xor" and I.a[1][0] == "c":
            neg = not neg
        elif I.op == "icmp" and I.a[1][0] in ("c", "n") and (I.a[1][0] == "n" or I.a[1][1] == 0) and I.d.get("p") in ("eq", "ne", "ugt", "sgt"):
            neg = neg != (I.d["p"] == "eq")
        elif I.op in ("zext", "sext", "trunc", "freeze"):
            pass
        elif I.op == "load" or g.callname(I) == "strlen":
            a = I.a[0]
            for _ in range(2):
                if g.loadof(a) == "auth" or g.gname(a) == "auth":
                    return not neg
                J_ = g.d(g.strip(a))
                if J_ is None or J_.op != "getelementptr":
                    break
                a = J_.a[0]
            return None
        else:
            return None
        I = g.d(I.a[0])
    return None


def globalname(o):
    if isinstance(o, (list, tuple)) and o and o[0] == "g":
        return str(o[1]).split(":")[-1]
    return None
