"""C18, C38: what commands report and do, per command name, protocol and engine outcome."""
from semlib import *
import semlib
from p_cmds import groups, protos_of, feasible_name, MEMC_CMDS, HTTP_CMDS

ASSUME = [
    "the bitcode of clang -O1 without the sanitizer represents the sources; the engine's operations are represented by the model in "
    "sa/stubs/sa_stub_engine.c, which offers every outcome each operation can have (C01-C09 decide the engine itself)",
    "loops are cut at their back edge: what one iteration does is decided for an arbitrary iteration, with the loop's variables symbolic",
    "string comparison of arguments, number parsing and formatting are atoms; their own code is not analysed here",
    "a construct whose symbolic shape is not recognised is counted as not decided and raises no alarm",
]
EXPLAIN = {}
RULE = "what a command reports follows from the outcome"


def sems(prog, R, names):
    for F, ns in groups(prog):
        hit = [n for n in ns if n in names]
        if not hit:
            continue
        Rr = simulate(prog, F)
        R.analysed(F)
        for n in hit:
            yield Sem(prog, R, F, ns, Rr, n)


# ---- common pieces ---------------------------------------------------------
def oncache(s, p, e, rule):
    c = e.args[0]
    s.check(True if isglobal(c, "cache") else None, rule, "cache", p, "does not operate on the server's cache", e)


def keyarg(s, p, e, want, rule):
    k = keyidx(e)
    if k is False:
        s.bad(rule, "key", p, "the key's data and length come from different arguments", e)
    elif k is None or not isc(k):
        s.R.unknown += 1
    else:
        s.check(k.a[0] == want, rule, "key", p, "operates on argument %d instead of %d" % (k.a[0], want), e)


def attime(s, p, t, rule, e):
    if isc(strip(t)):
        s.bad(rule, "time", p, "the operation is carried out for the fixed time %s" % show(t), e)
    elif isunix(t):
        s.bad(rule, "time", p, "the operation is carried out for the unix time, which the cache does not use", e)
    else:
        f = nlin(t)
        if set(f) <= {"now", 1} and f.get("now") == 1 and f.get(1, 0) != 0:
            s.bad(rule, "time", p, "the operation is carried out for the time %s" % show(t), e)
        else:
            s.check(True if isnow(t) else None, rule, "time", p, "", e)


def argsonly(t):
    """t depends on the number of arguments and on nothing else"""
    ls = [x for x in walk(t) if x.k not in ("c", "cmp", "bin", "zext", "sext", "trunc", "not", "select")]
    return bool(ls) and any(islen(x) for x in ls) and all(islen(x) or any(x in walk(y) for y in ls if islen(y)) for x in ls)


def touches(s, p, e, want, rule):
    t = strip(e.args[4])
    ok = (t.a[0] != 0) == (not want) if isc(t) else None
    if ok is None and argsonly(t):
        ok = False
    s.check(ok, rule, "touch", p,
            "reading %s as a use of the entry" % ("does not count" if want else "counts"), e)


def payload(s, p, c, n, rule, what="value", lenf="__sa_evallen", valf="__sa_eval"):
    """content and length operands are the loaded value, complete"""
    if c[0] == "val" and c[1].a[1] == valf:
        s.R.ok(rule)
    elif c[0] in ("arg", "lit", "val"):
        s.bad(rule, what, p, "the reply carries %s instead of the stored %s" % (cname(c), what))
        return
    else:
        s.R.unknown += 1
    if n is None:
        return
    if iscall(n, lenf):
        s.R.ok(rule)
    elif plain(n):
        s.bad(rule, what + "-len", p, "the length of the %s in the reply is %s" % (what, show(n)))
    else:
        s.R.unknown += 1


def cname(c):
    if c[0] == "arg":
        return "argument %s" % show(c[1])
    if c[0] == "lit":
        return "the text %r" % c[1]
    return show(c[1]) if len(c) > 1 and isinstance(c[1], T) else c[0]


def number(s, p, t, f, rule, what):
    """number term t is the engine's f"""
    t = strip(t)
    if iscall(t, f):
        s.R.ok(rule)
    elif plain(t):
        s.bad(rule, what, p, "reports %s as the %s" % (show(t), what))
    else:
        s.R.unknown += 1


def fmtnumber(s, p, c, f, rule, what, n=None):
    if c[0] in ("fmt", "num") and c[3] is not None and n is not None:
        n = strip(n)
        s.check(True if n is strip(c[3]) or n.k == "pure" and n.a[0] == "strlen" else False if plain(n) else None, rule, what + "-len", p,
                "the length of the %s column is not that of its text" % what)
    if c[0] == "fmt" and c[2] and len(c[2]) == 1:
        number(s, p, c[2][0], f, rule, what)
    elif c[0] == "num":
        number(s, p, c[1], f, rule, what)
    else:
        s.R.unknown += 1


def completion(s, p, toks, rule, name, count=None, alt=()):
    """the completion tag names the command and carries count (int: constant; term check by the caller); returns its terms"""
    cs = [t for t in toks if t.k == "complete"]
    if len(cs) != 1:
        return []
    txt, terms = fill(cs[0])
    if txt is None:
        s.R.unknown += 1
        return []
    if count is None:
        want = [name]
    elif count == "n":
        want = [name + " {}"]
    else:
        want = [name + " %s" % count]
    got = txt
    if "{}" in txt and want[0] != txt and count not in ("n", None):
        # a symbolic number: its value on this path
        v = terms[0] if len(terms) == 1 else None
        if v is not None:
            lo, hi, ex = p.range(v)
            tv = p.truth(v) if is_bool(v) else None
            if lo == hi:
                got = txt.replace("{}", str(lo))
            elif tv is not None:
                got = txt.replace("{}", "1" if tv else "0")
            else:
                s.R.unknown += 1
                return terms
    s.check(got in want or got in alt, rule, "completion", p, "completes with %r, expected %r" % (got, want[0]), cs[0].e)
    return terms


def outcome(p, prog):
    return lastres(p, prog)


def single(s, p, name, rule):
    """the one operation of that kind on the path"""
    es = p.calls(name)
    if len(es) == 1:
        return es[0]
    return None


def refused(s, p, proto):
    """the path refuses the request: an error reply and no engine operation"""
    r = Reply(p, proto)
    return r.err and not any(e.name in ENGINE for e in p.ev)


def answered(s, rule, engine):
    """paths that answer anything but an error have carried out the engine operation"""
    for p, proto in s.paths():
        if any(e.name in engine for e in p.ev) or any(e.name == "L" for e in p.ev):
            continue
        r = Reply(p, proto)
        if r.unknown or r.err:
            continue
        if any(t.k in ("bulk", "null", "int", "str", "http", "complete", "raw") for t in r.toks):
            s.bad(rule, "noop|%s" % PNAME[proto], p, "answers without having asked the cache")
        else:
            s.R.ok(rule)


# ---- readers ---------------------------------------------------------------
def sem_get(s):
    rule = "a read reports the stored value or a miss"
    answered(s, rule, ("__sa_load",))
    for p, proto in s.paths():
        e = single(s, p, "__sa_load", rule)
        if e is None:
            continue
        oncache(s, p, e, rule)
        keyarg(s, p, e, 1, rule)
        attime(s, p, e.args[3], rule, e)
        touches(s, p, e, True, rule)
        st = outcome(p, s.prog)
        r = Reply(p, proto)
        if r.unknown or st is None:
            s.R.unknown += 1
            continue
        hit = st == FOUND
        if proto == RESP:
            b = r.first("bulk")
            if hit:
                s.check(b is not None, rule, "hit-resp", p, "a hit is not answered with the value")
                if b:
                    payload(s, p, b.a[0], b.a[1], rule)
            else:
                s.check(b is None and r.first("null") is not None, rule, "miss-resp", p, "a miss is not answered with null")
        elif proto == HTTP:
            h = r.first("http")
            if h is None or r.code() is None:
                s.R.unknown += 1
                continue
            s.check(r.code() == (200 if hit else 404), rule, "http", p, "a %s is answered with status %d" % ("hit" if hit else "miss", r.code()))
            if hit and r.code() == 200:
                payload(s, p, h.a[2], h.a[3], rule)
        elif proto == PG:
            rows = r.all("row")
            s.check(len(rows) == (1 if hit else 0), rule, "pg-rows", p, "a %s gives %d rows" % ("hit" if hit else "miss", len(rows)))
            if hit and len(rows) == 1 and rows[0].a[1] and len(rows[0].a[1]) == 1:
                payload(s, p, rows[0].a[1][0], rows[0].a[2][0] if rows[0].a[2] else None, rule)
            completion(s, p, r.toks, rule, "GET", 1 if hit else 0)


VALUE_LINE = ("VALUE ", "key", " ", "flags", " ", "len")


def sem_mget(s):
    rule = "a read reports the stored value or a miss"
    cas = s.name == "mgets"
    s.overargs(rule, 1, ("__sa_load",))
    for p, e, it in s.ops("__sa_load"):
        oncache(s, p, e, rule)
        attime(s, p, e.args[3], rule, e)
        touches(s, p, e, True, rule)
    for p in s.iters():
        e = [x for x in p.segment() if x.name == "__sa_load"]
        if len(e) != 1:
            continue
        e = e[0]
        st = lastres(p, s.prog, p.segment())
        if st is None:
            continue
        hit = st == FOUND
        for proto in p.protos():
            if proto == HTTP:
                continue
            toks = [t for t in ptokens(p, proto) if t.k not in ("L", "X")]
            if any(t.k == "unknown" for t in toks):
                continue
            if not hit:
                if proto == RESP:
                    s.check([t.k for t in toks] == ["null"], rule, "miss-resp", p, "a missing key is answered with %s" % [t.k for t in toks])
                else:
                    s.check(not toks, rule, "miss-%s" % PNAME[proto], p, "something is written for a missing key")
                continue
            if proto == RESP:
                ks = [t.k for t in toks]
                want = ["array", "int", "int", "bulk"] if cas else ["bulk"]
                if s.check(ks == want, rule, "hit-resp", p, "a hit is answered with %s, expected %s" % (ks, want)):
                    payload(s, p, toks[-1].a[0], toks[-1].a[1], rule)
                    if cas:
                        number(s, p, toks[1].a[0], "__sa_eflags", rule, "flags")
                        number(s, p, toks[2].a[0], "__sa_ecas", rule, "unique value")
            elif proto == PG:
                rows = [t for t in toks if t.k == "row"]
                if not s.check(len(rows) == 1, rule, "hit-pg", p, "a hit gives %d rows" % len(rows)):
                    continue
                cols, lens = rows[0].a[1], rows[0].a[2]
                if not cols:
                    continue
                n = 4 if cas else 2
                if not s.check(len(cols) == n, rule, "cols-pg", p, "a row has %d columns, expected %d" % (len(cols), n)):
                    continue
                keycol(s, p, cols[0], lens[0], e, rule)
                payload(s, p, cols[-1], lens[-1], rule)
                if cas:
                    fmtnumber(s, p, cols[1], "__sa_eflags", rule, "flags", lens[1])
                    fmtnumber(s, p, cols[2], "__sa_ecas", rule, "unique value", lens[2])
            elif proto == MEMC:
                valueline(s, p, toks, e, cas, rule)
    for p, proto in s.paths():
        r = Reply(p, proto)
        if proto == PG and not r.err:
            for t in completion(s, p, r.toks, rule, "MGET", "n", alt=("MGETS {}",)):
                s.accum(rule, t, (FOUND,), p, "count")
            d = r.first("desc")
            if d is not None and d.a[1]:
                want = ["key", "flags", "cas", "value"] if cas else ["key", "value"]
                got = [text(x) if x is not None else None for x in d.a[1]]
                if None not in got:
                    s.check(got == want, rule, "desc", p, "rows are described as %s, expected %s" % (got, want))


def keycol(s, p, c, n, e, rule):
    k = keyidx(e)
    if c[0] == "arg" and k is not None and k is not False:
        s.check(c[1] is k, rule, "keycol", p, "the key reported is argument %s, not the one looked up" % show(c[1]))
        if n is not None and argref(n) is not None:
            a = argref(n)
            s.check(a[1] == "len" and a[0] is k, rule, "keycol-len", p, "the length of the reported key is %s" % show(n))
    elif c[0] in ("lit", "val"):
        s.bad(rule, "keycol", p, "the key column holds %s" % cname(c))
    else:
        s.R.unknown += 1


def valueline(s, p, toks, e, cas, rule):
    """VALUE <key> <flags> <bytes> [<cas>]\\r\\n<data>\\r\\n"""
    try:
        parts = memc_text(toks)
    except (Skip, Bad):
        return
    # merge adjacent literals
    seq = []
    for q in parts:
        if q[0] == "s" and seq and seq[-1][0] == "s":
            seq[-1] = ("s", seq[-1][1] + q[1])
        else:
            seq.append(q)
    shape = [q[1] if q[0] == "s" else q[0] for q in seq]
    want = ["VALUE ", "d", " ", "n", " ", "n"] + ([" ", "n"] if cas else []) + ["\r\n", "d", "\r\n"]
    if any(q[0] == "f" for q in seq):
        s.R.unknown += 1
        return
    if not s.check(shape == want, rule, "line", p, "a hit is answered with %s, expected %s" % (shape, want)):
        return
    keycol(s, p, seq[1][1], seq[1][3], e, rule)
    number(s, p, seq[3][1], "__sa_eflags", rule, "flags")
    number(s, p, seq[5][1], "__sa_evallen", rule, "number of bytes")
    if cas:
        number(s, p, seq[7][1], "__sa_ecas", rule, "unique value")
    payload(s, p, seq[-2][1], seq[-2][3], rule)


def sem_ttl(s):
    rule = "remaining lifetimes are reported in the command's unit"
    unit = MILLI if s.name == "pttl" else SECOND
    NAME = s.name.upper()
    answered(s, rule, ("__sa_load",))
    for p, proto in s.paths():
        e = single(s, p, "__sa_load", rule)
        if e is None:
            continue
        oncache(s, p, e, rule)
        keyarg(s, p, e, 1, rule)
        attime(s, p, e.args[3], rule, e)
        touches(s, p, e, False, rule)
        st = outcome(p, s.prog)
        r = Reply(p, proto)
        if r.unknown or st is None:
            continue
        v = None
        if proto == RESP:
            t = r.first("int")
            v = t.a[0] if t else None
        elif proto == PG:
            t = r.first("row")
            if t is not None and t.a[1] and t.a[1][0][0] == "num":
                v = t.a[1][0][1]
            s.check((t is not None) == (st == FOUND), rule, "pg-rows", p, "a %s gives %s row" % (SNAME[st], "a" if t else "no"))
            completion(s, p, r.toks, rule, NAME, 1 if st == FOUND else 0)
            d = r.first("desc")
            if d is not None and d.a[1] and d.a[1][0] is not None and text(d.a[1][0]) is not None:
                s.check(text(d.a[1][0]) == s.name, rule, "desc", p, "the column is called %r" % text(d.a[1][0]))
        if v is None:
            continue
        if st != FOUND:
            s.check(v.a[0] == -2 if isc(v) else None, rule, "missing", p, "a missing key is reported as %s instead of -2" % show(v))
            continue
        ex = [t for t in p.facts if iscall(t, "__sa_eexpires")]
        has = None
        for f in p.facts:
            if any(iscall(x, "__sa_eexpires") for x in walk(f)):
                pz = [x for x in walk(f) if iscall(x, "__sa_eexpires")][0]
                has = poszero(p, pz)
                break
        if isc(v):
            if has is True:
                s.bad(rule, "expiring", p, "an entry with an expiry is reported as %s" % show(v))
            elif has is False:
                s.check(v.a[0] == -1, rule, "noexpiry", p, "an entry without expiry is reported as %s instead of -1" % show(v))
            continue
        n = norm(v)
        if has is False:
            s.bad(rule, "noexpiry", p, "an entry without expiry is reported as %s instead of -1" % show(v))
            continue
        want = ("div", lin_key({"expires": 1, "now": -1}), unit)
        if n == want:
            s.R.ok(rule, "%s unit %d" % (NAME, unit))
        elif known_atoms(v, ("__sa_eexpires", "sys_now")):
            s.bad(rule, "value", p, "the remaining time is computed as %s, expected (expiry - now) / %d" % (show(v), unit))
        else:
            s.R.unknown += 1


def known_atoms(t, names):
    """t is built by arithmetic from the named calls and constants only"""
    t = strip(t)
    if isc(t):
        return True
    if t.k == "call":
        return t.a[1] in names
    if t.k == "parsed":
        return "parsed" in names
    if t.k == "bin":
        return all(known_atoms(x, names) for x in t.a[1:])
    if t.k == "pure" and t.a[0] in ("addclamp", "mulclamp"):
        return all(known_atoms(x, names) for x in t.a[1])
    return False


def lin_key(d):
    return tuple(sorted((str(k), v) for k, v in d.items() if v))


def norm(t):
    """canonical form: a tuple of (atom, coefficient), or ('div', form, c)"""
    d = nlin(t)
    if len(d) == 1:
        (k, v), = d.items()
        if isinstance(k, tuple) and k and k[0] == "div" and v == 1:
            return k
    return lin_key(d)


def atom(t):
    if iscall(t, "__sa_eexpires"):
        return "expires"
    if iscall(t, "sys_now"):
        return "now"
    if iscall(t, "sys_unixnow"):
        return "unix"
    if t.k == "parsed":
        return "parsed"
    return t


def nlin(t):
    t = strip(t)
    if isc(t):
        return {1: t.a[0]} if t.a[0] else {}
    k = None
    if t.k == "bin" and t.a[0] in ("add", "sub"):
        a, b = nlin(t.a[1]), nlin(t.a[2])
        sg = 1 if t.a[0] == "add" else -1
        out = dict(a)
        for x, v in b.items():
            out[x] = out.get(x, 0) + sg * v
        return {x: v for x, v in out.items() if v}
    if t.k == "pure" and t.a[0] == "addclamp":
        a, b = nlin(t.a[1][0]), nlin(t.a[1][1])
        out = dict(a)
        for x, v in b.items():
            out[x] = out.get(x, 0) + v
        return {x: v for x, v in out.items() if v}
    m = None
    if t.k == "bin" and t.a[0] == "mul":
        m = t.a[1:]
    elif t.k == "pure" and t.a[0] == "mulclamp":
        m = t.a[1]
    if m is not None:
        a, b = nlin(m[0]), nlin(m[1])
        if not b or not a:
            return {}
        if set(a) == {1}:
            a, b = b, a
        if set(b) == {1}:
            return {x: v * b[1] for x, v in a.items()}
        return {t: 1}
    if t.k == "bin" and t.a[0] in ("sdiv", "udiv") and isc(t.a[2]):
        a = nlin(t.a[1])
        c = t.a[2].a[0]
        if len(a) == 1:
            (x, v), = a.items()
            if isinstance(x, tuple) and x and x[0] == "div" and v == 1:
                return {("div", x[1], x[2] * c): 1}
        return {("div", lin_key(a), c): 1}
    return {atom(t): 1}


def sem_exists(s):
    rule = "counts of keys match the outcomes"
    s.overargs(rule, 1, ("__sa_load",))
    for p, e, it in s.ops("__sa_load"):
        oncache(s, p, e, rule)
        attime(s, p, e.args[3], rule, e)
        touches(s, p, e, s.name == "touch", rule)
    sem_count(s, rule, (FOUND,))


def sem_del(s):
    rule = "counts of keys match the outcomes"
    s.overargs(rule, 1, ("__sa_delete",))
    for p, e, it in s.ops("__sa_delete"):
        oncache(s, p, e, rule)
        attime(s, p, e.args[3], rule, e)
    sem_count(s, rule, (DELETED,))


WORDS = {"del": ("DELETED\r\n", "NOT_FOUND\r\n"), "touch": ("TOUCHED\r\n", "NOT_FOUND\r\n")}


def sem_count(s, rule, good):
    hdrs = {p.hdr for p, e, it in s.ops("__sa_load", "__sa_delete") if it}
    acc = set()
    later = []
    for p, proto in s.paths():
        r = Reply(p, proto)
        if r.err or r.unknown:
            continue
        if not any(e.name == "L" and e.x in hdrs for e in p.ev):
            continue
        if proto == RESP:
            t = r.first("int")
            if t is not None:
                acc.add(strip(t.a[0]))
                s.accum(rule, t.a[0], good, p, "count")
        elif proto == PG:
            row = r.first("row")
            if row is not None:
                c = row.a[1][0]
                if c[0] == "num":
                    s.accum(rule, c[1], good, p, "count")
                completion(s, p, r.toks, rule, s.NAME)
            else:
                for t in completion(s, p, r.toks, rule, s.NAME, "n"):
                    s.accum(rule, t, good, p, "count")
        else:
            later.append((p, proto, r))
    acc = {t for t in acc if t.k == "phi"}
    if len(acc) != 1:
        return
    t = acc.pop()
    for p, proto, r in later:
        # counters only grow from zero: not zero means at least one
        lo, hi, ex = p.range(t)
        some = True if lo > 0 or 0 in ex else False if hi <= 0 else None
        if some is None:
            if t not in p.facts:
                s.R.unknown += 1
                continue
            # split somewhere else than between none and one
            if hi < 1 << 32:
                some = True
            elif lo <= 0 < hi and lo > -(1 << 32):
                some = False
            else:
                s.R.unknown += 1
                continue
        if proto == HTTP and r.code() is not None:
            s.check(r.code() == (200 if some else 404), rule, "http", p,
                    "%s is answered with status %d" % ("success" if some else "nothing found", r.code()))
        elif proto == MEMC and s.name in WORDS:
            try:
                x = r.text()
            except (Skip, Bad):
                continue
            s.check(x == WORDS[s.name][0 if some else 1], rule, "word", p,
                    "%s is answered with %r" % ("success" if some else "nothing found", x))


def sem_dbsize(s):
    rule = "totals are those of the whole cache"
    answered(s, rule, ("__sa_count",))
    for p, proto in s.paths():
        e = single(s, p, "__sa_count", rule)
        if e is None:
            continue
        oncache(s, p, e, rule)
        attime(s, p, e.args[1], rule, e)
        one = e.args[2]
        s.check(one.a[0] == 0 if isc(one) else None, rule, "all", p, "only one part of the cache is counted", e)
        r = Reply(p, proto)
        v = None
        if proto == RESP:
            v = r.first("int").a[0] if r.first("int") else None
        elif proto == PG:
            row = r.first("row")
            v = row.a[1][0][1] if row is not None and row.a[1] and row.a[1][0][0] == "num" else None
            completion(s, p, r.toks, rule, "DBSIZE")
        if v is not None:
            number(s, p, v, "__sa_count", rule, "number of entries")


def sem_echo(s):
    rule = "echoed arguments come back unchanged"
    for p, proto in s.paths():
        if proto not in (RESP, PG):
            continue
        r = Reply(p, proto)
        if r.err or r.unknown:
            continue
        lo, hi, ex = arglen(p)
        c = n = None
        lit = None
        if proto == RESP:
            b = r.first("bulk")
            st = r.first("str")
            if b is not None:
                c, n = b.a[0], b.a[1]
            elif st is not None:
                c = st.a[0]
        else:
            row = r.first("row")
            if row is not None and row.a[1]:
                c, n = row.a[1][0], row.a[2][0] if row.a[2] else None
            completion(s, p, r.toks, rule, s.NAME)
        if c is None:
            continue
        if c[0] == "arg":
            s.check(c[1].a[0] == 1 if isc(c[1]) else None, rule, "arg", p, "argument %s comes back instead of argument 1" % show(c[1]))
            if n is not None and argref(n) is not None:
                a = argref(n)
                s.check(a[1] == "len" and a[0] is c[1], rule, "len", p, "the length of the echoed argument is %s" % show(n))
            elif n is not None and isc(n):
                s.bad(rule, "len", p, "the length of the echoed argument is %s" % show(n))
            elif n is not None and n.k == "pure" and n.a[0] == "strlen":
                s.bad(rule, "len", p, "the echoed argument ends at its first zero byte")
            if lo == hi == 1:
                s.bad(rule, "absent", p, "an argument that was not given is echoed")
        elif c[0] == "lit":
            if s.name == "ping":
                s.check(c[1] == "PONG", rule, "pong", p, "answers %r instead of PONG" % c[1])
                if lo >= 2:
                    s.bad(rule, "ignored", p, "the argument given is not echoed")
            else:
                s.bad(rule, "lit", p, "answers with the text %r" % c[1])


def arglen(p):
    for t in p.facts:
        if islen(t):
            return p.range(t)
    for t in p.facts:
        for x in walk(t):
            if islen(x):
                return p.range(x)
    return (0, 1 << 62, frozenset())


def sem_version(s):
    rule = "the version reported is the program's"
    for p, proto in s.paths():
        r = Reply(p, proto)
        if r.err or r.unknown:
            continue
        if proto == RESP:
            t = r.first("str")
            c = t.a[0] if t else None
        elif proto == PG:
            row = r.first("row")
            c = row.a[1][0] if row is not None and row.a[1] else None
            completion(s, p, r.toks, rule, "VERSION", 1)
        elif proto == MEMC:
            raws = r.all("raw")
            if len(raws) == 3:
                c = raws[1].a[0]
                s.check(raws[0].a[0] == ("lit", "VERSION "), rule, "word", p, "does not start with VERSION")
            else:
                c = None
        else:
            c = None
        if c is None:
            continue
        if c[0] == "lit":
            s.bad(rule, "lit", p, "the version reported is the text %r" % c[1])
        elif c[0] == "t":
            s.check(True if isglobal(c[1], "version") else False if isglobal(c[1], "githash") else None, rule, "version", p,
                    "reports %s" % show(c[1]))


# ---- writers ---------------------------------------------------------------
WR = "a write's reply states what happened"
SETWORD = {"ok": "STORED\r\n"}


def storereply(s, p, proto, st, rule, name, get):
    r = Reply(p, proto)
    if r.unknown:
        s.R.unknown += 1
        return
    if st == NOMEM:
        s.check(r.err, rule, "nomem-%s" % PNAME[proto], p, "running out of memory is not reported as an error")
        return
    stored = st in (INSERTED, REPLACED)
    sn = SNAME[st]
    s.check(not r.err, rule, "err-%s" % PNAME[proto], p, "a store with outcome %s is answered with an error" % sn)
    if r.err:
        return
    if proto == RESP:
        ok = r.first("str")
        s.check((ok is not None and ok.a[0] == ("lit", "OK")) == stored, rule, "ok-resp", p,
                "a store with outcome %s is answered with %s" % (sn, [t.k for t in r.toks if t.k not in "LX"]))
        if not stored:
            s.check(r.first("null") is not None, rule, "null-resp", p, "a refused store is not answered with null")
    elif proto == HTTP and r.code() is not None:
        s.check((r.code() == 200) == stored, rule, "http", p, "a store with outcome %s is answered with status %d" % (sn, r.code()))
    elif proto == PG:
        completion(s, p, r.toks, rule, name, 1 if stored else 0)
    elif proto == MEMC:
        try:
            x = r.text()
        except (Skip, Bad):
            return
        s.check((x == "STORED\r\n") == stored, rule, "memc", p, "a store with outcome %s is answered with %r" % (sn, x))
        if not stored and x:
            s.check(x == {FOUND: "EXISTS\r\n", NOTFOUND: "NOT_FOUND\r\n"}.get(st, x), rule, "memc-why", p,
                    "a store with outcome %s is answered with %r" % (sn, x))


def sem_set(s):
    rule = WR
    answered(s, rule, ("__sa_store",))
    val = 3 if s.name == "setex" else 2
    for p, proto in s.paths():
        e = single(s, p, "__sa_store", rule)
        if e is None:
            continue
        oncache(s, p, e, rule)
        keyarg(s, p, e, 1, rule)
        attime(s, p, e.args[S_TIME], rule, e)
        v = keyidx(e, S_VAL)
        if v is False:
            s.bad(rule, "val", p, "data and length of the value come from different arguments", e)
        elif v is not None and isc(v):
            s.check(v.a[0] == val, rule, "val", p, "stores argument %d as the value instead of %d" % (v.a[0], val), e)
        st = outcome(p, s.prog)
        if st is None:
            continue
        get = e.args[S_ENT]
        gv = (get.a[0] != 0) if isc(get) else p.truth(get)
        if gv is None:
            s.R.unknown += 1
        elif gv is False:
            storereply(s, p, proto, st, rule, s.NAME, False)
        elif proto in (RESP, PG):
            oldreply(s, p, proto, st, rule)
        ttl = strip(e.args[S_TTL])
        if s.name == "setex":
            for k, nm in ((S_NX, "NX"), (S_XX, "XX"), (S_CASOP, "CAS"), (S_KEEP, "KEEPTTL")):
                t = e.args[k]
                s.check(t.a[0] == 0 if isc(t) else None, rule, nm.lower(), p, "stores with %s without having been asked to" % nm, e)
    if s.name == "set":
        setoptions(s)


def oldreply(s, p, proto, st, rule):
    """SET ... GET answers with the previous value"""
    r = Reply(p, proto)
    if r.unknown:
        return
    if st == NOMEM:
        s.check(r.err, rule, "nomem-get", p, "running out of memory is not reported as an error")
        return
    # was there a previous value the veto callback saw?
    if proto == RESP:
        b = r.first("bulk")
        n = r.first("null")
        if b is not None:
            payload(s, p, b.a[0], b.a[1], rule, "previous value")
        s.check(b is None or n is None, rule, "get-both", p, "both a value and null are written")
        if st == REPLACED:
            s.check(b is not None, rule, "get-hit", p, "the previous value is not reported")
        if st in (INSERTED, NOTFOUND):
            s.check(b is None and n is not None, rule, "get-miss", p, "a value is reported although there was none")
    else:
        row = r.first("row")
        if row is not None and row.a[1]:
            payload(s, p, row.a[1][0], row.a[2][0] if row.a[2] else None, rule, "previous value")
        if st == REPLACED:
            s.check(row is not None, rule, "get-hit-pg", p, "the previous value is not reported")
            completion(s, p, r.toks, rule, "SET", 1)
        if st in (INSERTED, NOTFOUND):
            s.check(row is None, rule, "get-miss-pg", p, "a value is reported although there was none")
            completion(s, p, r.toks, rule, "SET", 0)


class Carrier:
    """where a loop keeps a value: a phi or a memory cell"""

    def __init__(self, t):
        t = base(t)
        self.t = t
        self.pid = self.addr = None
        if t.k == "phi":
            self.pid = t.a[0]
        elif t.k == "ld" and under(t.a[1]).k == "al":
            self.addr = t.a[1]
        self.ok = self.pid is not None or self.addr is not None

    def final(self, p):
        """value at the end of an iteration, UNCH when unchanged, None unknown"""
        if self.pid is not None:
            v = p.phis.get(self.pid)
            if v is None:
                return None
            return "UNCH" if v[1] is v[0] or strip(v[1]) is self.t else v[1]
        v = deref(p.S, p.st, self.addr)
        if v is None:
            return None
        if v is self.t:
            return "UNCH"
        return v


def lits(p, idx=None):
    """literals the current argument is known to equal on the path"""
    out = set()
    for t in p.facts:
        if t.k == "argeq" and not isc(t.a[1]) and p.truth(t) is True:
            out.add(t.a[2])
    return out


FLAGOPTS = ((S_NX, "nx"), (S_XX, "xx"), (S_KEEP, "keepttl"), (S_CASOP, "cas"), (S_ENT, "get"))


OPTWORDS = ("ex", "px", "exat", "pxat", "nx", "xx", "get", "keepttl", "flags", "cas")


def recognised(s, its, rule):
    """every option has a way through the options' loop; a word that is none of them has none"""
    words = {t.a[2] for p in its for t in p.facts if t.k == "argeq" and not isc(t.a[1])}
    if len(words) < 3 or any(e.name == "*indirect*" or "cmp" in e.name for p in its for e in p.segment()):
        s.R.unknown += 1
        return
    one = {w for p in its for w in lits(p)}
    joined = any(p.joined for p in its)
    for w in OPTWORDS:
        mine = [p for p in its if w in lits(p)]
        if joined or not its:
            s.R.unknown += 1
            continue
        s.check(bool(mine), rule, "word-" + w, mine[0] if mine else its[0], "option %s is not understood" % w.upper())
    for p in its:
        no = {t.a[2] for t in p.facts if t.k == "argeq" and not isc(t.a[1]) and p.truth(t) is False}
        if not lits(p) and len(no) >= 2 and not any("eq" in e.name or "cmp" in e.name for e in p.segment()):
            s.check(False, rule, "unknown-word", p, "a word that is none of the options is taken for one")


def setoptions(s):
    rule = "options take effect exactly as given"
    stores = [(p, e) for p in s.upaths() for e in p.calls("__sa_store")]
    its = s.iters()
    recognised(s, its, rule)
    for k, lit in FLAGOPTS:
        cars = {}
        for p, e in stores:
            c = Carrier(e.args[k])
            if c.ok:
                cars[c.t] = c
        if k == S_ENT:
            # the GET option shows as a fact
            cars = {}
            cand = {}
            for p, e in stores:
                if isc(e.args[k]):
                    for t in p.facts:
                        b = base(t)
                        if b.k == "phi" and p.range(t)[0] == p.range(t)[1]:
                            cand.setdefault(b, set()).add((p.truth(t), e.args[k].a[0] != 0))
            good = [b for b, v in cand.items() if v == {(True, True), (False, False)}]
            if len(good) == 1:
                cars[good[0]] = Carrier(good[0])
        if len(cars) != 1:
            s.R.unknown += 1
            continue
        c = list(cars.values())[0]
        if c.pid is None:
            s.R.unknown += 1
            continue
        h = loopof(s.Rr, c.pid)
        for p in s.enters(h):
            v = p.phis.get(c.pid)
            if v:
                s.check(v[1].a[0] == 0 if isc(v[1]) else None, rule, lit + "-start", p, "%s is in force without having been given" % lit.upper())
        for p in [q for q in its if q.hdr == h]:
            L = lits(p)
            if len(L) != 1:
                s.R.unknown += 1
                continue
            x = list(L)[0]
            v = c.final(p)
            if v is None:
                continue
            if x == lit:
                s.check(True if v != "UNCH" and isc(v) and v.a[0] != 0 else False if v == "UNCH" or plain(v) else None, rule, lit, p,
                        "option %s has no effect" % lit.upper() if v == "UNCH" else "option %s takes effect depending on %s" % (lit.upper(), show(v)))
            else:
                s.check(True if v == "UNCH" else False if isc(v) and v.a[0] != 0 else None, rule, lit + "-" + x, p,
                        "option %s also switches %s on" % (x.upper(), lit.upper()))
    # options that carry a value
    for k, lit in ((S_FLAGS, "flags"), (S_CAS, "cas")):
        cars = {}
        for p, e in stores:
            c = Carrier(e.args[k])
            if c.ok:
                cars[c.t if c.pid is not None else c.addr] = c
        if len(cars) != 1:
            s.R.unknown += 1
            continue
        c = list(cars.values())[0]
        for p in its:
            L = lits(p)
            if len(L) != 1:
                continue
            v = c.final(p)
            if list(L)[0] != lit:
                if v is not None and v != "UNCH" and (isc(v) and False or parsedof(v) is not None):
                    s.bad(rule, lit + "-" + list(L)[0], p, "option %s changes the %s" % (list(L)[0].upper(), lit))
                continue
            if v is None:
                continue
            if v == "UNCH" or isc(v):
                s.bad(rule, lit, p, "option %s has no effect" % lit.upper())
                continue
            q = parsedof(v)
            if q is None:
                s.R.unknown += 1
                continue
            nextarg(s, p, q, lit, rule)
            w = strip(v)
            if w.k == "bin" and w.a[0] == "and" and isc(w.a[2]):
                m = w.a[2].a[0] & 0xffffffffffffffff
                s.check((m & 0xffffffff) == 0xffffffff and (lit == "flags" or m == 0xffffffffffffffff), rule, lit + "-mask", p,
                        "option %s keeps only the bits %#x of the number given" % (lit.upper(), m))
            elif w is not q and plain(w):
                s.bad(rule, lit + "-value", p, "option %s takes the value %s" % (lit.upper(), show(w)))
    # conflicting options are refused
    cars = {}
    for k, lit in ((S_NX, "nx"), (S_XX, "xx"), (S_KEEP, "keepttl")):
        ts = {Carrier(e.args[k]).t for p, e in stores if Carrier(e.args[k]).pid is not None}
        if len(ts) == 1:
            cars[lit] = ts.pop()
    # a flag that is set by every option giving an expiry
    if stores:
        ex = ("ex", "px", "exat", "pxat")
        for pid in {i for p in its for i in p.phis}:
            t = site("phi", pid)
            mine = [p for p in its if pid in p.phis]
            sets = {l for p in mine for l in lits(p) if isc(p.phis[pid][1]) and p.phis[pid][1].a[0] == 1}
            if sets == set(ex) and all(isc(p.phis[pid][1]) and p.phis[pid][1].a[0] == 1 for p in mine if lits(p) & set(ex)):
                cars["expiry"] = t
                for p in s.enters(loopof(s.Rr, pid)):
                    v = p.phis.get(pid)
                    if v:
                        s.check(v[1].a[0] == 0 if isc(v[1]) else None, rule, "expiry-start", p, "an expiry counts as given without any option")
    for a, b in (("nx", "xx"), ("keepttl", "expiry")):
        if a not in cars or b not in cars:
            s.R.unknown += 1
            continue
        rule2 = AssumeRule(s.prog, {cars[a], cars[b]})
        Q = simulate(s.prog, s.F, rule=rule2)
        hit = [p for p in Q.paths if p.calls("__sa_store") and feasible_name(p, s.name)]
        for p in hit:
            s.bad(rule, "%s-%s" % (a, b), p, "stores although %s and %s are both given" % (a.upper(), b.upper()))
        if not hit:
            s.R.ok(rule, "%s with %s is refused" % (a.upper(), b.upper()))


class AssumeRule(CmdRule):
    """command paths on which the given loop variables are set when the loop ends"""

    def __init__(self, prog, phis, **kw):
        CmdRule.__init__(self, prog, **kw)
        self.phis = phis

    def tracked(self, t):
        if base(t) in self.phis:
            return True
        return CmdRule.tracked(self, t)

    def edge(self, S, st, src, dst):
        n = len(st.auto)
        CmdRule.edge(self, S, st, src, dst)
        if any(r[0] == "X" for r in st.auto[n:]):
            for t in self.phis:
                if not S.assume(st, mkcmp("eq", t, C(1)), True):
                    return False
        return None


def parsedof(v):
    """the parsed number a value is made of"""
    ps = [x for x in walk(v) if x.k == "parsed"]
    return ps[0] if len(ps) == 1 else None


def nextarg(s, p, q, lit, rule):
    """the number comes from the argument after the option's name"""
    r = parsedarg(q)
    if r is None:
        s.R.unknown += 1
        return
    i = r[0]
    cur = {t.a[1] for t in p.facts if t.k == "argeq" and t.a[2] == lit and p.truth(t) is True and not isc(t.a[1])}
    if len(cur) != 1:
        s.R.unknown += 1
        return
    cur = strip(cur.pop())
    d = delta(strip(i), cur)
    s.check(None if d is None else d == 1, rule, lit + "-arg", p, "the value of option %s is taken from %+d arguments on" % (lit.upper(), d or 0))


def sem_expire(s):
    rule = WR
    answered(s, rule, ("__sa_load",))
    for p, proto in s.paths():
        e = single(s, p, "__sa_load", rule)
        if e is None:
            continue
        oncache(s, p, e, rule)
        keyarg(s, p, e, 1, rule)
        attime(s, p, e.args[3], rule, e)
        st = outcome(p, s.prog)
        u = p.calls("__sa_update")
        if st is None:
            continue
        if st == FOUND:
            s.check(len(u) == 1, rule, "update", p, "an existing key's expiry is not changed")
        if u:
            keepcontent(s, p, u[0], rule)
        r = Reply(p, proto)
        if r.unknown:
            continue
        did = st == FOUND
        if r.err:
            s.check(st == NOMEM, rule, "err", p, "answers with an error for outcome %s" % SNAME[st])
        elif proto == RESP:
            t = r.first("int")
            if t is not None:
                v = p.range(t.a[0])
                b = t.a[0].a[0] if isc(t.a[0]) else v[0] if v[0] == v[1] else p.truth(t.a[0]) if is_bool(strip(t.a[0])) else None
                s.check(None if b is None else bool(b) == did, rule, "int", p, "reports %s for outcome %s" % (b, SNAME[st]))
        elif proto == PG:
            completion(s, p, r.toks, rule, "EXPIRE", 1 if did else 0)
        elif proto == MEMC:
            try:
                x = r.text()
            except (Skip, Bad):
                continue
            s.check(x == ("TOUCHED\r\n" if did else "NOT_FOUND\r\n"), rule, "memc", p, "reports %r for outcome %s" % (x, SNAME[st]))


def keepcontent(s, p, u, rule):
    """an update that only changes the expiry keeps value and flags"""
    v, n, ex, fl = u.args
    for t, f, what in ((v, "__sa_eval", "value"), (n, "__sa_evallen", "value's length"), (fl, "__sa_eflags", "flags")):
        t = strip(t)
        s.check(True if iscall(t, f) else False if isc(t) or (t.k == "call" and t.a[1].startswith("__sa_e")) else None,
                rule, "keep-" + what, p, "changing the expiry also changes the %s (to %s)" % (what, show(t)), u)


C18 = {"get": sem_get, "mget": sem_mget, "mgets": sem_mget, "ttl": sem_ttl, "pttl": sem_ttl, "exists": sem_exists, "dbsize": sem_dbsize,
       "echo": sem_echo, "ping": sem_echo, "version": sem_version}
C38 = {"set": sem_set, "setex": sem_set, "del": sem_del, "touch": sem_exists, "expire": sem_expire}
T18, T38 = C18, C38


def C18(prog, R, tier):
    for s in sems(prog, R, T18):
        T18[s.name](s)


def C38(prog, R, tier):
    for s in sems(prog, R, T38):
        T38[s.name](s)


EXPLAIN["C18"] = ("Every path of the reading commands (per name in the dispatch table, per protocol, per outcome of the lookup) is enumerated "
                  "with the operands of the lookup and of the replies as symbolic terms; key, time, use marking, reported value, length, flags, "
                  "unique value, lifetime arithmetic, hit/miss answers and counts are compared with what the command promises.")
EXPLAIN["C38"] = ("Every path of the writing commands is enumerated per name, protocol and engine outcome: key and value operands, the effect "
                  "of each option on the loop-carried flags, counts accumulated per outcome, and the reply are compared with the outcome table.")
