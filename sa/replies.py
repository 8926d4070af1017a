"""Replies as protocol-level tokens, from the event sequences of cmdsim."""
from psim import *
from cmdsim import *

PROG_ = psim.PROG


def strip(t):
    while isinstance(t, T) and t.k == "cast":
        t = t.a[1]
    return t


def text(t):
    """the constant string a term points to, or None"""
    if isinstance(t, T) and t.k == "g":
        return psim.PROG[0].string(t.a[0])
    return None


def argref(t):
    """(index term, 'data'|'len') when t is a field of args->bufs[i]"""
    t = strip(t)
    if t.k != "ld":
        return None
    A = t.a[1]
    s = ast(A)
    if s is None or s[0] != "struct.buf":
        return None
    fld = psim.PROG[0].member(*s)
    r, o = akey(A)
    if r.k == "idx":
        b = r.a[0]
        base, bo = akey(b)
        if len(r.a[1]) != 1:
            return None
        v, sc = r.a[1][0]
        if sc != 24:
            return None
        k = (o + r.a[2] + bo) // 24
        return (mkbin("add", strip(v), C(k)) if k else strip(v), fld, base)
    return (C(o // 24), fld, r)


def content(t, bufs):
    """what a pointer term points at: ('lit', s) ('arg', i) ('val', site) ('fmt', f, args) ('num', x) or ('t', t)"""
    s = text(t)
    if s is not None:
        return ("lit", s)
    a = argref(t)
    if a and a[1] == "data":
        return ("arg", a[0])
    u = under(t)
    if t.k == "call" and t.a[1] in ("__sa_eval", "__sa_ival", "__sa_ikey"):
        return ("val", t)
    if u in bufs and u is t:
        return bufs[u]
    return ("t", t)


KNOWN = {"conn_write_error", "conn_write_string", "conn_write_null", "conn_write_bulk", "conn_write_bulk_cstr",
         "conn_write_array", "conn_write_uint", "conn_write_int", "conn_write_raw", "conn_write_raw_cstr", "conn_write_http",
         "pg_write_row_desc", "pg_write_row_data", "pg_write_error", "pg_write_complete", "pg_write_completef", "pg_write_ready",
         "pg_write_simple_row_data_ready", "pg_write_simple_row_i64_ready", "pg_write_simple_row_str_ready",
         "pg_write_simple_row_i64_readyf", "pg_write_simple_row_str_readyf"}


class Tok:
    __slots__ = ("k", "a", "e")

    def __init__(self, k, a, e):
        self.k = k
        self.a = a
        self.e = e

    def __repr__(self):
        return "%s%s" % (self.k, tuple(show(x) if isinstance(x, T) else x for x in self.a))


def tokens(evs, proto, bufs=None):
    """reply tokens of an event list for one protocol; loop markers are kept"""
    out = []
    bufs = dict(bufs or {})

    def put(k, e, *a):
        out.append(Tok(k, a, e))

    for e in evs:
        n = e.name
        if n == "L":
            put("L", e, e.x)
        elif n == "X":
            put("X", e, e.x, e.args[0].a[0])
        elif n == "snprintf":
            bufs[under(e.args[0])] = ("fmt", text(e.args[2]), tuple(e.args[3:]), e.res)
        elif n in ("u64toa", "i64toa"):
            u = under(e.args[1])
            # digits behind something else: text that is not put together here
            bufs[u] = ("num", strip(e.args[0]), n[0], e.res) if u is strip(e.args[1]) else ("t", u)
        elif n == "conn_write_error":
            if proto == PG:
                put("err", e, content(e.args[1], bufs))
                put("ready", e, C(ord("I")))
            elif proto == HTTP:
                put("http", e, None, None, content(e.args[1], bufs), None)
            else:
                put("err", e, content(e.args[1], bufs))
        elif n == "conn_write_string":
            put("str", e, content(e.args[1], bufs))
        elif n == "conn_write_null":
            put("null", e)
        elif n == "conn_write_bulk":
            put("bulk", e, content(e.args[1], bufs), strip(e.args[2]))
        elif n == "conn_write_bulk_cstr":
            put("bulk", e, content(e.args[1], bufs), None)
        elif n == "conn_write_array":
            put("array", e, strip(e.args[1]))
        elif n in ("conn_write_uint", "conn_write_int"):
            put("int", e, strip(e.args[1]), n[11])
        elif n == "conn_write_raw":
            put("raw", e, content(e.args[1], bufs), strip(e.args[2]))
        elif n == "conn_write_raw_cstr":
            put("raw", e, content(e.args[1], bufs), None)
        elif n == "conn_write_http":
            put("http", e, e.args[1], text(e.args[2]), content(e.args[3], bufs), strip(e.args[4]))
        elif n == "pg_write_row_desc":
            put("desc", e, e.args[-1], e.x[0] if e.x else None)
        elif n == "pg_write_row_data":
            cols = tuple((content(c, bufs) if c is not None else ("t", None)) for c in e.x[0]) if e.x else None
            put("row", e, e.args[-1], cols, e.x[1] if e.x else None)
        elif n == "pg_write_error":
            put("err", e, content(e.args[1], bufs))
        elif n in ("pg_write_complete", "pg_write_completef"):
            put("complete", e, content(e.args[1], bufs), tuple(e.args[2:]))
        elif n == "pg_write_ready":
            put("ready", e, e.args[1])
        elif n.startswith("pg_write_simple_row_"):
            put("desc", e, C(1), (e.args[1],))
            if "_data_" in n:
                put("row", e, C(1), (content(e.args[2], bufs),), (strip(e.args[3]),))
                tag = 4
            elif "_i64_" in n:
                put("row", e, C(1), (("num", strip(e.args[2]), "i", None),), (None,))
                tag = 3
            else:
                put("row", e, C(1), (content(e.args[2], bufs),), (None,))
                tag = 3
            put("complete", e, content(e.args[tag], bufs), tuple(e.args[tag + 1:]))
            put("ready", e, C(ord("I")))
        elif is_reply(n):
            put("unknown", e, n)
    return out


def ptokens(path, proto):
    """tokens of a path, of its segment when it is an iteration"""
    t = path._tok.get(proto)
    if t is None:
        t = path._tok[proto] = tokens(path.segment() if path.kind == "iter" else path.ev, proto)
    return t


def writers(R, hdr, proto):
    """iterations of a loop that write something under proto"""
    c = R.__dict__.setdefault("_writers", {})
    if (hdr, proto) not in c:
        c[(hdr, proto)] = [p for p in R.iters if p.hdr == hdr and proto in p.protos() and
                           any(t.k not in ("L", "X") for t in ptokens(p, proto))]
    return c[(hdr, proto)]


class Trip:
    """iteration count of a loop: start a, bound B (term), per path"""

    def __init__(self, R, hdr):
        self.ok = False
        its = [p for p in R.iters if p.hdr == hdr]
        ens = [p for p in R.enters if p.hdr == hdr]
        cand = []
        for pid in (its[0].phis if its else ()):
            cur = site_phi(pid)
            if all(p.phis[pid][1] is mkbin("add", cur, C(1)) for p in its if pid in p.phis):
                st = {strip(p.phis[pid][1]) for p in ens if pid in p.phis}
                if len(st) == 1:
                    cand.append((pid, st.pop()))
        self.cand = cand

    def counts(self, path):
        """possible iteration counts B - a as terms"""
        out = []
        for pid, a in self.cand:
            cur = site_phi(pid)
            if not isc(a):
                continue
            for t in path.facts:
                if t.k == "cmp" and t.a[0] in ("slt", "ult") and strip(t.a[1]) is cur and path.truth(t) is False:
                    out.append((strip(t.a[2]), a.a[0]))
        return out


def site_phi(pid):
    return site("phi", pid)


def eqcount(n, B, a):
    """n == B - a: True / False / None when not comparable"""
    n = strip(n)
    B = strip(B)
    nb, no = (strip(n.a[1]), n.a[2].a[0]) if n.k == "bin" and n.a[0] == "add" and isc(n.a[2]) else (n, 0)
    bb, bo = (strip(B.a[1]), B.a[2].a[0]) if B.k == "bin" and B.a[0] == "add" and isc(B.a[2]) else (B, 0)
    if isc(n) and isc(B):
        return n.a[0] == B.a[0] - a
    if nb is bb or same(nb, bb):
        return no == bo - a
    return None


def same(a, b):
    """equal terms up to the version of a load from the same place"""
    if a is b:
        return True
    a, b = strip(a), strip(b)
    if a.k == "ld" and b.k == "ld":
        return a.a[1] is b.a[1] or (akey(a.a[1])[1] == akey(b.a[1])[1] and same(akey(a.a[1])[0], akey(b.a[1])[0]))
    return a is b


class Bad(Exception):
    pass


class Skip(Exception):
    pass


class RespShape:
    """one complete RESP value per reply"""

    def __init__(self, R):
        self.R = R
        self.trips = {}

    def check(self, path, toks):
        """number of top-level replies; raises Bad for a malformed one"""
        n, i = 0, 0
        while i < len(toks):
            if toks[i].k in ("L", "X"):
                i = self.loop(path, toks, i, None)
                continue
            i = self.item(path, toks, i)
            n += 1
        return n

    def loop(self, path, toks, i, n):
        """at an L marker: the loop must write n items in total (None: none)"""
        if toks[i].k == "X":
            return i + 1
        h = toks[i].a[0]
        j = i + 1
        depth = 0
        inner = []
        while j < len(toks):
            if toks[j].k == "X" and toks[j].a[0] == h:
                break
            inner.append(toks[j])
            j += 1
        it = self.itercount(h, path)
        if it is None:
            raise Skip()
        if n is None:
            if it != 0:
                raise Bad("a loop writes %d top-level repl%s per iteration outside any array" % (it, "y" if it == 1 else "ies"))
            k = self.check(path, inner)
            if k:
                raise Bad("__inner__") if False else Skip()
            return j + 1
        if it != 1:
            raise Bad("an iteration writes %d elements, each array element needs exactly one" % it)
        tr = self.trips.setdefault(h, Trip(self.R, h))
        cs = [eqcount(n, B, a) for B, a in tr.counts(path)]
        if any(c is True for c in cs):
            pass
        elif cs and all(c is False for c in cs):
            raise Bad("array header announces %s elements but the loop writes a different number" % show(n))
        return j + 1

    def itercount(self, h, path):
        """replies per iteration, when the same for every iteration that may
        run under the path's protocol"""
        cs = set()
        if not writers(self.R, h, RESP):
            return 0
        for p in self.R.iters:
            if p.hdr != h or RESP not in p.protos():
                continue
            if not compat(path, p):
                continue
            k = self.check(p, ptokens(p, RESP))
            cs.add(k)
        if not cs:
            return 0
        if len(cs) > 1:
            raise Bad("iterations of one loop write different numbers of replies (%s)" % sorted(cs))
        return cs.pop()

    def item(self, path, toks, i):
        t = toks[i]
        if t.k in ("bulk", "null", "int", "str", "err"):
            return i + 1
        if t.k == "array":
            n = t.a[0]
            if isc(n):
                i += 1
                for _ in range(n.a[0]):
                    while i < len(toks) and toks[i].k in ("L", "X") and not self.loopwrites(path, toks[i]):
                        i = self.loop(path, toks, i, None)
                    if i >= len(toks):
                        raise Bad("array of %d elements is cut short" % n.a[0])
                    i = self.item(path, toks, i)
                return i
            i += 1
            if i < len(toks) and toks[i].k == "L":
                return self.loop(path, toks, i, n)
            # a symbolic count without a loop: only right when it is zero
            lo, hi, ex = path.range(n)
            if lo == hi == 0:
                return i
            raise Skip()
        if t.k == "unknown":
            raise Skip()
        raise Bad("'%s' is not a RESP reply" % (t.e.name,))

    def loopwrites(self, path, tok):
        if tok.k == "X":
            return False
        return bool(self.itercount(tok.a[0], path))


def compat(path, it):
    """iteration it may belong to a run that ends as path: same facts outside the loop"""
    for t, r in it.facts.items():
        q = path.facts.get(t)
        if q is None:
            continue
        if max(r[0], q[0]) > min(r[1], q[1]) or (r[0] == r[1] and r[0] in q[2]) or (q[0] == q[1] and q[0] in r[2]):
            # only facts about values fixed before the loop count
            if not any(s in path.S.loopsites.get(it.hdr, ()) for s in t.sites):
                return False
    return True


def pg_shape(R, path, toks):
    """number of complete Postgres replies; raises Bad"""
    n = 0
    state = "start"
    cols = None
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.k == "L":
            for p in writers(R, t.a[0], PG):
                if compat(path, p):
                    for q in ptokens(p, PG):
                        if q.k in ("L", "X"):
                            continue
                        if q.k == "unknown":
                            raise Skip()
                        if q.k != "row":
                            raise Bad("'%s' is written once per iteration" % q.e.name)
                        if state not in ("desc", "rows"):
                            raise Bad("row data before its row description")
                        if isc(q.a[0]) and cols is not None and q.a[0].a[0] != cols:
                            raise Bad("row with %d columns after a description of %d" % (q.a[0].a[0], cols))
        elif t.k == "X":
            pass
        elif t.k == "unknown":
            raise Skip()
        elif t.k == "desc":
            if state != "start":
                raise Bad("second row description in one reply")
            state = "desc"
            cols = t.a[0].a[0] if isc(t.a[0]) else None
        elif t.k == "row":
            if state not in ("desc", "rows"):
                raise Bad("row data without a row description")
            if isc(t.a[0]) and cols is not None and t.a[0].a[0] != cols:
                raise Bad("row with %d columns after a description of %d" % (t.a[0].a[0], cols))
            state = "rows"
        elif t.k == "complete":
            if state == "done":
                raise Bad("command completed twice")
            state = "done"
        elif t.k == "err":
            if state == "done":
                raise Bad("error after command completion")
            state = "done"
        elif t.k == "ready":
            if state != "done":
                raise Bad("ready-for-query without a completed command or an error")
            if isc(t.a[0]) and t.a[0].a[0] != ord("I"):
                raise Bad("ready-for-query with transaction status %r" % chr(t.a[0].a[0] & 255))
            n += 1
            state = "start"
            cols = None
        else:
            raise Bad("'%s' does not write a Postgres message" % t.e.name)
        i += 1
    if state != "start":
        raise Bad("reply is not finished with ready-for-query")
    return n


def memc_text(toks):
    """list of ('s', literal) / ('d', what, len) / ('n', what)"""
    out = []
    for t in toks:
        if t.k in ("L", "X"):
            out.append((t.k, t.a[0]))
        elif t.k == "raw":
            c, n = t.a
            if c[0] == "lit":
                s = c[1]
                if n is None:
                    out.append(("s", s, t))
                elif isc(n):
                    k = n.a[0]
                    if k > len(s):
                        raise Bad("writes %d bytes of the %d byte text %r" % (k, len(s), s))
                    out.append(("s", s[:k], t))
                elif n.k == "pure" and n.a[0] == "strlen":
                    out.append(("s", s, t))
                else:
                    raise Skip()
            elif c[0] == "fmt" and c[1] is not None:
                out.append(("f", c[1], t, c[2]))
            elif c[0] == "num":
                out.append(("n", c[1], t))
            elif c[0] == "t" and under(c[1]).k == "al":
                raise Skip()
            else:
                out.append(("d", c, t, n))
        elif t.k == "int":
            out.append(("n", t.a[0], t))
        elif t.k == "err":
            out.append(("e", t.a[0], t))
        elif t.k == "unknown":
            raise Skip()
        else:
            raise Bad("'%s' writes a reply of another protocol to a memcache client" % t.e.name)
    return out


def memc_line(parts):
    """the text of one segment with placeholders, CRLFs kept"""
    s = ""
    for p in parts:
        if p[0] == "s":
            s += p[1]
        elif p[0] == "f":
            s += p[1]
        elif p[0] == "n":
            s += "\x01"
        elif p[0] == "d":
            s += "\x02"
        elif p[0] == "e":
            s += "\x03\r\n"
    return s
