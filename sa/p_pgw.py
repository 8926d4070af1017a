"""C40: the messages a Postgres client gets have the length and the content they announce."""
from gensim import *
from semlib import under, isglobal
from p_sem import ASSUME
from p_save import evs
from p_frame import zero, nonzero
from p_auth import resultzero
from p_http import possible
from psim import nbytes
from replies import text

EXPLAIN = {
    "C40": "every path through the writers of Postgres messages: where each byte of a message is put (as linear forms over the lengths of its texts), what one round of "
           "the loops over columns adds to its length and to its content, and what it announces; the words pg_precommand answers itself",
}
LEN = "a Postgres message has the length it announces"
TXT = "a Postgres message holds what it is to tell"
PRE = "transaction words and type words of Postgres"
P0, P1, P2, P3 = (mk("p", i) for i in range(4))
QUIET = {"=", "=L", "L", "X", "strlen", "xmalloc", "memcpy", "conn_write_raw", "xfree", "conn_pg", "pg_execute", "memset"}


def C40(prog, R, tier):
    W = Writers(prog, R)
    W.plain("pg_write_status", "S", [("s", P1), 0, ("s", P2), 0])
    W.plain("pg_write_complete", "C", [("s", P1), 0])
    W.plain("pg_write_error", "E", list(b"SERROR\0VERROR\0C23505\0M") + [("s", P1), 0, 0])
    W.plain("pg_write_auth", "R", [0, 0, 0, ("b", P1)])
    W.plain("pg_write_ready", "Z", [("b", P1)], when="pg_execute")
    W.table("pg_write_row_desc", "T", W.descitem, P2)
    W.table("pg_write_row_data", "D", W.dataitem, P3)
    W.describe()
    W.constants()
    W.rows()
    W.startup()
    precommand(prog, R)


# ---------------------------------------------------------------- forms
def ser(t, sub):
    """a term as text; loads without their generation, sub: term -> name"""
    if t in sub:
        return sub[t]
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(ser(x, sub) for x in t) + ")"
        return str(t)
    if t.k in ("off", "idx") or t.k == "bin" and t.a[0] in ("add", "sub", "mul", "shl") or t.k == "cast":
        l = form(t, sub)
        if l is not None and l != (0, {}) and not (len(l[1]) == 1 and l[0] == 0 and t.k == "bin"):
            return str((l[0], sorted(l[1].items())))
    if t.k == "ld":
        return "*" + ser(t.a[1], sub)
    if t.k in ("call",) and len(t.a) > 2 and t.a[1] == "strlen":
        return "strlen" + ser(t.a[2], sub)
    if t.k == "pure" and t.a[0] == "strlen":
        return "strlen" + ser(t.a[1], sub)
    return t.k + "(" + ",".join(ser(x, sub) for x in t.a) + ")"


def form(t, sub={}):
    l = linz(t)
    if l is None:
        return None
    d = {}
    for a, k in l[1].items():
        n = sub.get(a) or (ser(a, sub) if a.k not in ("off", "idx", "cast") else a.k + str(a.d))
        d[n] = d.get(n, 0) + k
    return l[0], {a: k for a, k in d.items() if k}


def fadd(a, b, m=1):
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) + m * v
    return a[0] + m * b[0], {k: v for k, v in d.items() if v}


def strlenof(t):
    """the text a length is the strlen of"""
    t = strip(t)
    a = None
    if t.k == "call" and len(t.a) > 2 and t.a[1] == "strlen":
        a = t.a[2]
    elif t.k == "pure" and t.a[0] == "strlen":
        a = t.a[1]
    return a[0] if isinstance(a, tuple) and a else a


def part(t):
    """(number, byte k from the low end) of a stored byte"""
    s = 0
    for _ in range(20):
        if t.k == "cast" and t.a[0] in ("zext", "sext", "trunc"):
            if t.a[0] == "zext" and s + 8 > t.a[2]:
                break           # a zero that is not of the number
            t = t.a[1]
        elif t.k == "bin" and t.a[0] == "and" and isc(t.a[2]) and t.a[2].a[0] & 255 == 255:
            t = t.a[1]
        elif t.k == "bin" and t.a[0] in ("lshr", "ashr") and isc(t.a[2]):
            s += t.a[2].a[0]
            t = t.a[1]
        elif t.k == "pure" and t.a[0].startswith("llvm.bswap.i") and s % 8 == 0:
            s = int(t.a[0][12:]) - 8 - s
            t = t.a[1][0]
        else:
            break
    return t, s


class Layout:
    """what the events of a path put where, relative to an address"""

    def __init__(self, p, seg, base, sub={}):
        self.cells, self.blocks, self.odd, self.sub = {}, [], False, sub
        b = form(base, sub)
        part_ = {}
        for e in seg:
            if e.name == "=" and e.I is not None and e.I.op == "call":
                part_.setdefault(e.I, []).append(form(e.args[0], sub)[0])
        for e in seg:
            if e.name not in ("=", "memcpy", "memset"):
                continue
            d = fadd(form(e.args[0], sub), b, -1)
            if any(k.startswith(("new", "phi", "al")) for k in d[1]):
                continue        # another object
            if e.name == "=":
                n = nbytes(e.I.d["vt"]) if e.I is not None and "vt" in e.I.d else 1
                if e.I in part_:
                    z = strip([x for x in seg if x.name == "memcpy" and x.I is e.I][0].args[2]) if [x for x in seg if x.name == "memcpy" and x.I is e.I] else None
                    m = form(e.args[0], sub)[0]
                    nx = [o for o in part_[e.I] if o > m]
                    n = min(nx) - m if nx else min(part_[e.I]) + z.a[0] - m if z is not None and isc(z) else 1
                v = e.args[1]
                for k in range(n or 1):
                    c = C(v.a[0] >> (8 * k) & 255) if isc(v) else v if n == 1 else mk("bin", "lshr", v, C(8 * k))
                    self.put(d, k, c, e)
            elif e.name == "memset":
                self.odd = True
            elif under(strip(e.args[1])).k == "al":
                if e.I not in part_:
                    self.odd = True
            else:
                s = text(strip(e.args[1]))
                n = strip(e.args[2])
                if s is not None and isc(n) and n.a[0] <= len(s) + 1:
                    for k in range(n.a[0]):
                        self.put(d, k, C(ord(s[k]) & 255 if k < len(s) else 0), e)
                else:
                    self.blocks.append((d, e.args[1], e.args[2], e))

    def put(self, d, k, v, e):
        self.cells[(d[0] + k, tuple(sorted(d[1].items())))] = (v, e)

    def cell(self, pos):
        return self.cells.get((pos[0], tuple(sorted(pos[1].items()))))

    def walk(self, pos, end, limit=200):
        """pieces from pos to end, or None"""
        out = []
        while pos != end and len(out) < limit:
            c = self.cell(pos)
            b = [x for x in self.blocks if x[0] == pos]
            if b:
                s, n = b[-1][1], b[-1][2]
                l = form(n, self.sub)
                t = None
                for x in walk(n):
                    t = t if t is not None else strlenof(x)
                ls = form(s, self.sub)
                if t is not None and form(t, self.sub) == ls and l[0] in (0, 1) and len(l[1]) == 1:
                    out.append(("s", s, b[-1][3]))
                    if l[0]:
                        out.append(("c", 0, b[-1][3]))
                else:
                    out.append(("m", s, n, b[-1][3]))
                pos = fadd(pos, l)
                continue
            if c is None:
                return out, pos
            v = strip(c[0])
            out.append(("c", v.a[0] & 255, c[1]) if isc(v) else ("v", c[0], c[1]))
            pos = fadd(pos, (1, {}))
        return out, pos

    def number(self, pos, n):
        """the number of n bytes announced at pos: ("c", value), ("t", form), ("bad", why) or None"""
        self.read = False
        cs = [self.cell(fadd(pos, (k, {}))) for k in range(n)]
        if any(c is None for c in cs):
            return None
        self.read = True
        if all(isc(strip(c[0])) for c in cs):
            return "c", sum((strip(c[0]).a[0] & 255) << (8 * (n - 1 - k)) for k, c in enumerate(cs))
        ps = [part(c[0]) for c in cs]
        f = {str(form(x, self.sub)) for x, s in ps}
        if any(x.k == "bin" and x.a[0] == "and" and isc(x.a[2]) and x.a[2].a[0] >> s & 255 != 255 for x, s in ps):
            return "bad", "bytes with bits left out"
        if any(a.k not in ("p", "ld", "phi", "call", "ssa") and strlenof(a) is None and not (a.k == "cast" and a.a[0] in ("trunc", "zext")) for x, s in ps for a in (linz(x) or (0, {}))[1]):
            return None
        if len(f) != 1:
            return "bad", "bytes of different numbers"
        if [s for x, s in ps] != [8 * (n - 1 - k) for k in range(n)]:
            return "bad", "bytes %s of a number, least first" % [s // 8 for x, s in ps]
        return "t", form(ps[0][0], self.sub), ps[0][0]


def numform(x):
    return None if x is None or x[0] == "bad" else (x[1], {}) if x[0] == "c" else x[1]


# ---------------------------------------------------------------- writers
class Writers:
    def __init__(self, prog, R):
        self.prog, self.R = prog, R

    def sim(self, n, **kw):
        F = func(self.prog, n, "postgres.c")
        if F is None:
            self.R.unknown += 1
            return None
        return J(self.prog, self.R, F, LEN, cap=1500, mods=("postgres.c",), copies=True, fills=True, snap=("conn_write_raw",), **kw)

    def sent(self, p):
        """(address, length form, event) of the one message written"""
        w = [e for e in p.ev if e.name == "conn_write_raw"]
        return w

    def local(self, e):
        """bytes of a local array handed to conn_write_raw"""
        A = strip(e.args[1])
        if A.k != "al" or not e.x:
            return None
        lay = Layout.__new__(Layout)
        lay.cells, lay.blocks, lay.odd, lay.sub = {}, [], True, {}
        for s in e.x:
            if s[0] == 1 and s[1] == "=":
                for k in range(s[3]):
                    v = s[4]
                    lay.cells[(s[2] + k, ())] = (C(v.a[0] >> (8 * k) & 255) if isc(v) else v, e)
            elif s[0] == 1 and s[1] == "Z":
                for k in range(s[2], s[3]):
                    lay.cells.setdefault((k, ()), (C(0), e))
        return lay

    def layout(self, p, e):
        A = strip(e.args[1])
        s = text(A)
        if s is not None:
            lay = Layout.__new__(Layout)
            lay.cells = {(k, ()): (C(ord(c) & 255), e) for k, c in enumerate(s + "\0")}
            lay.blocks, lay.odd, lay.sub = [], False, {}
            return lay
        if A.k == "al":
            return self.local(e)
        if under(A).k != "new":
            return None
        return Layout(p, p.ev[:p.ev.index(e)], A)

    def known(self, p):
        return all(e.name in QUIET or e.name.startswith("llvm.") for e in p.ev)

    def header(self, J_, p, e, lay, letter, N, table=False):
        """letter and length; True when both could be read"""
        c = lay.cell((0, {}))
        v = strip(c[0]) if c else None
        J_.check((v.a[0] & 255 == ord(letter)) if v is not None and isc(v) else None, "letter", p, "begins its message with another letter than '%s'" % letter, e, rule=TXT)
        x = lay.number((1, {}), 4)
        if x is None:
            J_.check(None if lay.odd or lay.read or J_.iters and not table or not self.known(p) else False, "length", p, "does not write the length of its message", e)
            return
        f = numform(x)
        if f is None:
            J_.check(False, "length", p, "writes the length of its message as %s" % x[1], e)
            return
        J_.check(fadd(f, N, -1) == (-1, {}), "length", p, "announces %s for a message of %s bytes" % (say(f), say(fadd(N, (-1, {})))), e)

    def plain(self, n, letter, want, when=None):
        J_ = self.sim(n)
        if J_ is None:
            return
        for p in J_.paths:
            w = self.sent(p)
            if when:
                g = evs(p, when)
                z = resultzero(p, g[-1].res) if g else None
                if z is False:
                    J_.check(not w, "silent", p, "says it is ready between the messages of an extended query", w[0] if w else None, rule=TXT)
                    continue
                if z is None:
                    J_.check(None if not self.known(p) else False if w and not g else None, "silent", p, "says it is ready without having asked whether an extended query is running", rule=TXT)
                    if not g:
                        continue
            if len(w) != 1:
                J_.check(False if not w and self.known(p) else None, "sent", p, "writes no message", rule=TXT)
                continue
            e = w[0]
            lay = self.layout(p, e)
            if lay is None:
                self.R.unknown += 1
                continue
            N = form(e.args[2])
            self.header(J_, p, e, lay, letter, N)
            self.room(J_, p, e, N)
            got, pos = lay.walk((5, {}), N)
            if pos != N:
                J_.check(None if lay.odd or J_.iters or not self.known(p) else False, "content", p, "leaves bytes of its message without content (from %s of %s)" % (say(pos), say(N)), e, rule=TXT)
                continue
            self.compare(J_, p, got, want, e, "")

    def room(self, J_, p, e, N):
        for m in evs(p, "xmalloc"):
            d = fadd(form(m.args[0]), N, -1)
            J_.check(None if d[1] else d[0] >= 0, "room", p, "makes room for %d bytes less than it writes" % -d[0], m)

    def compare(self, J_, p, got, want, e, what):
        """pieces against what is to be told"""
        ok = len(got) == len(want)
        for g, w in zip(got, want):
            if isinstance(w, int):
                ok = ok and (g[0] == "c" and g[1] == w or (None if g[0] == "v" and strip(part(g[1])[0]).k != "p" else False))
            elif w[0] == "b":
                ok = ok and g[0] == "v" and strip(part(g[1])[0]) is strip(w[1]) and part(g[1])[1] == 0
            elif w[0] == "s":
                ok = ok and (g[0] == "s" and same(g[1], w[1]))
            if ok is None:
                break
        J_.check(ok, "content" + what, p, "writes another content%s" % what, e, rule=TXT)

    # -- rows
    def loops(self, J_):
        """{header: iteration paths}"""
        L = {}
        for p in J_.iters:
            L.setdefault(p.hdr, []).append(p)
        return L

    def entries(self, J_, hdr):
        es = [p for p in J_.enters if p.hdr == hdr]
        out = {}
        for p in es:
            for i, (a, b) in p.phis.items():
                out.setdefault(i, set()).add(strip(b) if b is not None else None)
        return {i: next(iter(v)) for i, v in out.items() if len(v) == 1}

    def counter(self, p, ent):
        """(phi id, entry value, bound) of a loop that counts up by one while less than a bound"""
        for i, (a, b) in p.phis.items():
            x = strip(a)
            if b is None or x.k != "phi" or form(b) is None or fadd(form(b), form(x), -1) != (1, {}):
                continue
            if i not in ent or not isc(ent[i]):
                continue
            for pred, u, v, t, _ in cmpfacts(p):
                if pred in ("slt", "ult") and t and strip(u) is x:
                    return x, ent[i].a[0], strip(v), pred
                if pred in ("slt", "ult") and not t and strip(v) is x:
                    return x, ent[i].a[0], mkbin("add", strip(u), C(1)), pred
                if pred == "eq" and not t and x in (strip(u), strip(v)):
                    return x, ent[i].a[0], strip(v) if strip(u) is x else strip(u), pred
        return None

    def table(self, n, letter, item, count):
        J_ = self.sim(n)
        if J_ is None:
            return
        L = self.loops(J_)
        out = [p for p in J_.paths if len(self.sent(p)) == 1]
        writes = {h: ps for h, ps in L.items() if any(e.name in ("=", "memcpy") for p in ps for e in p.segment())}
        sizes = {h: ps for h, ps in L.items() if h not in writes}
        if len(writes) != 1 or len(sizes) != 1 or not out:
            self.R.unknown += 1
            return
        (hw, pw), (hs, ps) = next(iter(writes.items())), next(iter(sizes.items()))
        ew, es = self.entries(J_, hw), self.entries(J_, hs)
        add = None
        for p in ps:
            c = self.counter(p, es)
            acc = [(strip(a), b) for i, (a, b) in p.phis.items() if b is not None and c and strip(a) is not c[0] and strip(a).k == "phi"]
            if not c or len(acc) != 1 or add is not None and add[0] is not acc[0][0]:
                self.R.unknown += 1
                return
            inc = fadd(form(acc[0][1], {c[0]: "i"}), form(acc[0][0], {c[0]: "i"}), -1)
            s0 = es.get(acc[0][0].a[0])
            if add is not None and add[1] != inc or s0 is None or any(k.startswith("phi") for k in inc[1]):
                self.R.unknown += 1
                return
            add = (acc[0][0], inc, form(s0), c, p)
        ptr = None
        for p in pw:
            c = self.counter(p, ew)
            acc = [(strip(a), b) for i, (a, b) in p.phis.items() if b is not None and c and strip(a) is not c[0] and strip(a).k == "phi"]
            if not c or len(acc) != 1:
                self.R.unknown += 1
                return
            x = acc[0][0]
            sub = {c[0]: "i"}
            adv = fadd(form(acc[0][1], sub), form(x, sub), -1)
            ptr = (x, adv, c, p)
            ok = form(c[2]) == form(count)
            J_.check(ok if ok or not fadd(form(c[2]), form(count), -1)[1] or isc(c[2]) else None, "columns", p, "writes as many columns as %s" % say(form(c[2])), rule=TXT)
            J_.check(c[1] == 0, "columns", p, "begins with column %d" % c[1], rule=TXT)
            lay = Layout(p, p.segment(), x, sub)
            got, pos = lay.walk((0, {}), adv)
            if pos != adv:
                J_.check(None if lay.odd or not all(e.name in QUIET or e.name.startswith('llvm.') for e in p.segment()) else False, "column", p, "leaves bytes of a column without content, or moves on by another number of bytes", rule=TXT)
            else:
                item(J_, p, lay, got, c[0], sub)
            J_.check(adv == add[1], "column length", p, "writes %s bytes for a column counted as %s" % (say(adv), say(add[1])))
            J_.check(c[1] == add[3][1] and form(c[2]) == form(add[3][2]) or (None if not (isc(c[2]) or c[2].k == "p") else False), "columns counted", p,
                     "counts the bytes of other columns than it writes")
        for p in out:
            e = self.sent(p)[0]
            lay = self.layout(p, e)
            N = form(e.args[2])
            if lay is None or N is None:
                self.R.unknown += 1
                continue
            self.header(J_, p, e, lay, letter, N, True)
            self.room(J_, p, e, N)
            self.counted(J_, p, e, lay, count)
            d = fadd(N, form(add[0]), -1)
            p0 = ew.get(ptr[0].a[0])
            if d[1] or p0 is None:
                self.R.unknown += 1
                continue
            h = fadd(form(p0), form(strip(e.args[1])), -1)
            J_.check(None if h[1] else h[0] == 7, "first column", p, "puts the first column at byte %s of the message" % h[0], e)
            J_.check(None if add[2][1] or d[1] else add[2][0] + d[0] == 7, "length", p, "counts %s bytes for what stands before the columns" % (add[2][0] + d[0]), e)

    def counted(self, J_, p, e, lay, count):
        x = lay.number((5, {}), 2)
        f = numform(x)
        if x is None:
            J_.check(None if lay.odd or lay.read or not self.known(p) else False, "count", p, "does not write how many columns follow", e)
            return
        J_.check(f == form(count) if f is not None else False, "count", p, "announces another number of columns than it writes", e)

    def descitem(self, J_, p, lay, got, idx, sub):
        """name, then 18 bytes: table, column, type, size, modifier, format"""
        ok = len(got) == 20 and got[0][0] == "s"
        J_.check(ok if ok or not lay.odd else None, "field", p, "writes a field of another shape than name, zero, 18 bytes", rule=TXT)
        if not ok:
            return
        t = strip(got[0][1])
        want = mk("idx", P1, ((idx, 8),), 0, None)
        J_.check(t.k == "ld" and form(t.a[1], sub) == form(want, sub) or (None if t.k != "ld" else False), "field name", p, "writes another name than that of the field", got[0][2], rule=TXT)
        J_.check(got[1][0] == "c" and got[1][1] == 0, "field name end", p, "does not end a name with a zero byte", got[1][2], rule=TXT)
        off = fadd(fadd(form(got_len(got[0], sub), sub), (1, {})), (6, {}))
        x = lay.number(off, 4)
        self.oid(J_, p, x, got[0][-1])

    def oid(self, J_, p, x, e):
        if x is None:
            self.R.unknown += 1
            return
        if x[0] == "bad":
            J_.check(False, "type", p, "writes the type of a column as %s" % x[1], e, rule=TXT)
        elif x[0] == "c":
            J_.check(False, "type", p, "writes %d as the type of every column" % x[1], e, rule=TXT)
        else:
            f = ldfield(x[2], self.prog)
            J_.check(f == ("struct.pg", "oid") or (None if f is None else False), "type", p, "writes another type than the one that was chosen", e, rule=TXT)

    def dataitem(self, J_, p, lay, got, idx, sub):
        ok = len(got) == 5 and got[4][0] in ("m", "s")
        J_.check(ok if ok or not lay.odd else None, "value", p, "writes a value of another shape than length and bytes", rule=TXT)
        if not ok:
            return
        at = lambda P: form(mk("idx", P, ((idx, 8),), 0, None), sub)
        s, n = strip(got[4][1]), strip(got[4][2]) if got[4][0] == "m" else None
        J_.check(s.k == "ld" and form(s.a[1], sub) == at(P1) or (None if s.k != "ld" else False), "value bytes", p, "writes the bytes of another column", got[4][-1], rule=TXT)
        J_.check(n is not None and n.k == "ld" and form(n.a[1], sub) == at(P2) or (None if n is not None and n.k != "ld" and not form(n)[1] == {} else False), "value length", p,
                 "writes another number of bytes than the length of the column", got[4][-1], rule=TXT)
        x = lay.number((0, {}), 4)
        f = numform(x)
        if x is not None:
            J_.check(f is not None and n is not None and f == form(n, sub), "value announced", p, "announces another length for a value than the bytes it writes", got[4][-1])

    # -- the description of a statement or portal
    def describe(self):
        J_ = self.sim("parseD", keep=("portal_get", "statement_get"), copyin=True)
        if J_ is None:
            return
        prog = self.prog
        for p in J_.paths:
            d = [e for e in stores(p, prog, "struct.pg", "desc")]
            n = [e for e in stores(p, prog, "struct.pg", "desclen")]
            d = [e for e in d if under(strip(e.args[1])).k == "new"]
            if not d:
                if n and not isc(strip(n[-1].args[1])):
                    self.R.unknown += 1
                continue
            e = d[-1]
            base = strip(e.args[1])
            J_.check(bool(n) or None, "described", p, "")
            if not n:
                J_.check(False if all(x.name in QUIET | {"statement_get", "portal_get", "copyin"} for x in p.ev) else None, "described", p, "does not note the length of the description", e)
                continue
            N = form(n[-1].args[1])
            kind = "t" if evs(p, "statement_get") else "T"
            lay = Layout(p, p.ev, base)
            old = self.known
            self.known = lambda p: all(x.name in QUIET | {"statement_get", "portal_get", "copyin"} for x in p.ev)
            self.header(J_, p, e, lay, kind, N)
            for m in evs(p, "xmalloc"):
                if m.res is base or under(strip(m.res)) is base:
                    r = fadd(form(m.args[0]), N, -1)
                    J_.check(None if r[1] else r[0] >= 0, "room", p, "makes room for %d bytes less than it writes" % -r[0], m)
            # the loop that wrote it
            L = [q for q in J_.iters if any(x.name in ("=", "memcpy") for x in q.segment()) and evs(q, "statement_get" if kind == "t" else "portal_get")]
            for q in L:
                ent = self.entries(J_, q.hdr)
                c = self.counter(q, ent)
                acc = [(strip(a), b) for i, (a, b) in q.phis.items() if b is not None and c and strip(a) is not c[0] and strip(a).k == "phi"]
                if not c or len(acc) != 1:
                    self.R.unknown += 1
                    continue
                x, b = acc[0]
                adv = fadd(form(b), form(x), -1)
                bound = form(c[2])
                p0 = ent.get(x.a[0])
                J_.check(c[1] == 0, "described from", q, "begins with number %d" % c[1], rule=TXT)
                if p0 is not None and under(p0) is base:
                    h = fadd(form(p0), form(base), -1)
                    J_.check(None if h[1] else h[0] == 7, "described at", q, "puts the first type at byte %s" % h[0])
                want = 4 if kind == "t" else 19
                J_.check(None if adv[1] else adv[0] == want, "described each", q, "writes %s bytes for each parameter" % adv[0], rule=TXT)
                if not adv[1]:
                    tot = (7, {k: v * adv[0] for k, v in bound[1].items()})
                    tot = (7 + bound[0] * adv[0], tot[1])
                    J_.check(tot == N, "described length", q, "writes %s bytes for a description of %s bytes" % (say(tot), say(N)))
                lq = Layout(q, q.segment(), x)
                got, pos = lq.walk((0, {}), adv)
                if pos == adv:
                    self.oid(J_, q, lq.number((0 if kind == "t" else 7, {}), 4) if kind == "t" else None, got[0][-1] if got else None)
                elif not lq.odd:
                    J_.check(False, "described each", q, "leaves bytes of a description without content", rule=TXT)
                w = stmtcount(prog, c[2])
                J_.check(w == (("struct.pg_statement", "nparams") if kind == "t" else ("struct.pg_portal", "params")) or None, "described parameters", q, "")
                cnt = numform(lay.number((5, {}), 2))
                if cnt is not None:
                    J_.check(cnt == bound, "described count", p, "announces another number of parameters than it describes", e)
            self.known = old

    # -- constants
    def constants(self):
        """messages pg_respond writes as constant bytes"""
        F = func(self.prog, "pg_respond", "postgres.c")
        if F is None:
            self.R.unknown += 1
            return
        J_ = J(self.prog, self.R, F, LEN, cap=4000, mods=("postgres.c",), keep=("write_auth_ok", "pg_write_auth", "pg_write_ready"))
        seen = set()
        for p in J_.paths:
            for e in p.ev:
                if e.name != "conn_write_raw" or e.I in seen or text(strip(e.args[1])) is None or not isc(strip(e.args[2])):
                    continue
                seen.add(e.I)
                n = strip(e.args[2]).a[0]
                if n == 1:
                    continue
                lay = self.layout(p, e)
                x = lay.number((1, {}), 4)
                at = 0
                while at < n and x is not None and x[0] == "c" and x[1] >= 4:
                    at += 1 + x[1]
                    if at < n:
                        x = lay.number((at + 1, {}), 4)
                J_.check(at == n, "constant", p, "writes %d bytes of messages that announce %d" % (n, at), e)

    def rows(self):
        """description, row, tag, ready: in this order, each of what it was given"""
        prog = self.prog
        F = func(prog, "pg_write_simple_row_data_ready", "postgres.c")
        if F is None:
            self.R.unknown += 1
            return
        O = ("pg_write_row_desc", "pg_write_row_data", "pg_write_complete", "pg_write_ready")
        J_ = J(prog, self.R, F, TXT, cap=200, mods=("postgres.c",), keep=O)
        for p in J_.paths:
            g = [e for e in p.ev if e.name in O]
            other = [e for e in p.ev if e.name not in QUIET and e.name not in O]
            if other or J_.iters:
                self.R.unknown += 1
                continue
            J_.check([e.name for e in g] == list(O), "order", p, "writes %s" % ", ".join(e.name[9:] for e in g))
            for e in g:
                if e.name == "pg_write_row_desc":
                    v, n = e.x[0][0] if e.x else None, strip(e.args[2])
                    J_.check(None if v is None else same(v, P1), "name", p, "describes the row with another name", e)
                    J_.check(None if not isc(n) else n.a[0] == 1, "one", p, "describes %s columns" % show(n), e)
                elif e.name == "pg_write_row_data":
                    v, l, n = e.x[0][0] if e.x else None, e.x[1][0] if e.x else None, strip(e.args[3])
                    J_.check(None if v is None else same(v, P2), "row", p, "writes another row", e)
                    J_.check(None if l is None else same(l, P3), "row length", p, "writes another length of the row", e)
                    J_.check(None if not isc(n) else n.a[0] == 1, "one", p, "writes %s columns" % show(n), e)
                elif e.name == "pg_write_complete":
                    J_.check(same(e.args[1], mk("p", 4)), "tag", p, "writes another tag", e)

        F = func(prog, "pg_write_simple_row_str_ready", "postgres.c")
        if F is None:
            return
        J_ = J(prog, self.R, F, TXT, cap=200, mods=("postgres.c",), keep=("pg_write_simple_row_data_ready",))
        for p in J_.paths:
            for e in evs(p, "pg_write_simple_row_data_ready"):
                J_.check(same(e.args[2], P2), "row", p, "writes another row", e)
                t = strlenof(e.args[3])
                J_.check(None if t is None else same(t, P2), "row length", p, "writes the row with the length of another text", e)
                J_.check(same(e.args[1], P1) and same(e.args[4], P3), "name and tag", p, "writes another name or tag", e)

    def startup(self):
        prog = self.prog
        F = func(prog, "write_auth_ok", "postgres.c")
        if F is None:
            self.R.unknown += 1
            return
        O = ("pg_write_auth", "pg_write_status", "pg_write_ready")
        J_ = J(prog, self.R, F, TXT, cap=200, mods=("postgres.c",), keep=O)
        for p in J_.paths:
            g = [e for e in p.ev if e.name in O]
            if J_.iters or [e for e in p.ev if e.name not in QUIET and e.name not in O and e.name != "snprintf"]:
                self.R.unknown += 1
                continue
            a = [e for e in g if e.name == O[0]]
            r = [e for e in g if e.name == O[2]]
            J_.check(len(a) == 1 and isc(strip(a[0].args[1])) and strip(a[0].args[1]).a[0] & 255 == 0 and g[0] is a[0], "accepted", p, "does not begin with AuthenticationOk")
            J_.check(len(r) == 1 and g[-1] is r[0], "ready", p, "does not end with ReadyForQuery")
            for e in r:
                v = strip(e.args[1])
                J_.check(None if not isc(v) else v.a[0] & 255 == ord("I"), "idle", p, "says it is in a transaction", e)
            st = {text(strip(e.args[1])): text(strip(e.args[2])) for e in g if e.name == O[1]}
            for k in ("client_encoding", "server_encoding"):
                J_.check(st.get(k) == "UTF8", k, p, "does not tell that %s is UTF8" % k)


def got_len(g, sub):
    return mk("pure", "strlen", (g[1],))


def stmtcount(prog, t):
    t = strip(t)
    return ldfield(t, prog)


def say(f):
    if f is None:
        return "?"
    s = [("%d*" % v if v != 1 else "") + ("strlen" if k.startswith("strlen") else "the columns" if k.startswith("phi") else "n") for k, v in f[1].items()]
    return " + ".join(s + ([str(f[0])] if f[0] or not s else []))


# ---------------------------------------------------------------- words answered before any command
WORDS = {"begin": "BEGIN", "rollback": "ROLLBACK", "commit": "COMMIT"}
TYPES = {"::bytea": 17, "::bytes": 17, "::text": 25}


def precommand(prog, R):
    F = func(prog, "pg_precommand", "postgres.c")
    if F is None:
        R.unknown += 1
        return
    O = ("pg_write_completef", "pg_write_complete", "pg_write_ready", "pg_write_error", "args_remove_first", "args_eq", "argeq")
    J_ = J(prog, R, F, PRE, cap=2000, mods=("postgres.c",), keep=O)
    for p in J_.paths:
        q = [(text(strip(e.args[2])), resultzero(p, e.res)) for e in p.ev if e.name in ("args_eq", "argeq") and len(e.args) > 2 and isc(strip(e.args[1])) and strip(e.args[1]).a[0] == 0]
        is_ = [w for w, z in q if z is False]
        r = p.range(p.ret)
        w = [e for e in p.ev if e.name.startswith("pg_write")]
        tags = [text(strip(e.args[1])) for e in w if e.name.startswith("pg_write_complete")]
        ready = [e for e in w if e.name == "pg_write_ready"]
        oid = [strip(e.args[1]) for e in stores(p, prog, "struct.pg", "oid")]
        known = all(e.name in O or e.name in QUIET or e.name in ("snprintf", "tolower") for e in p.ev)
        un = None if not known else False
        if nonzero(r):
            J_.check(not w, "carried on", p, "answers a command that is still to be carried out", w[0] if w else None)
        elif zero(r):
            J_.check(bool(w) or un, "answered", p, "neither answers nor carries out")
            J_.check(bool(ready) or un, "ready", p, "answers without saying it is ready")
            if ready and w:
                J_.check(w[-1] is ready[-1] and len(ready) == 1, "ready last", p, "says it is ready before its answer", ready[0])
        word = [x for x in is_ if x in WORDS]
        if len(word) == 1 and len(is_) == 1:
            J_.check(zero(r), word[0], p, "carries out %s as a command" % word[0].upper())
            J_.check(tags == [WORDS[word[0]]] or (un if not tags else None if None in tags else False), word[0] + " tag", p, "answers %s with %s" % (word[0].upper(), tags))
        elif not is_ and not any(e.name == "pg_write_error" for e in p.ev):
            J_.check(nonzero(r) or (None if not zero(r) else un), "other", p, "does not carry out a command it does not know")
            J_.check(not evs(p, "args_remove_first"), "other", p, "drops the first argument of a command")
        asked = {x for x, z in q}
        if nonzero(r) and not is_:
            low = [t for t in p.facts if any(y.k in ("call", "pure") and "tolower" in y.a[:2] for y in walk(t)) and t.k != "cmp"]
            some = {t for t in p.facts if t.k == "ld" and ldfield(t, prog) in (("struct.args", "len"), ("struct.buf", "len"))}
            if low and not any(zero(p.range(t)) for t in some):
                for x in sorted(WORDS):
                    ok = possible(p, low[0], (ord(x[0]),))
                    J_.check(x in asked if ok and known and not any(ldfield(y, prog) == ("struct.buf", "len") for t in p.facts if t.k == "cmp" for y in walk(t)) else None, x + " asked", p, "carries out %s as a command" % x.upper())
                ok = possible(p, low[0], (58,))
                second = [t for t in p.facts if t.k == "ld" and t.a[2] == 1 and t not in low]
                if ok and any(possible(p, t, (58,)) for t in second):
                    J_.check(set(TYPES) <= asked if known else None, "types asked", p, "carries out a type word as a command")
        ty = [x for x in is_ if x in TYPES]
        if ty:
            v = [x.a[0] for x in oid if isc(x)]
            J_.check(v[-1:] == [TYPES[ty[-1]]] or (un if not oid else None if len(v) < len(oid) else False), ty[-1], p, "does not choose the type %s" % ty[-1][2:])
            rm = evs(p, "args_remove_first")
            J_.check(len(rm) == 1 or (un if not rm else False), ty[-1] + " removed", p, "leaves the type word in front of the command")
            if tags and rm and None not in tags:
                J_.check(tags[-1] == {17: "BYTEA", 25: "TEXT"}[TYPES[ty[-1]]], ty[-1] + " tag", p, "answers %s with %s" % (ty[-1], tags[-1]))
            ln = [x for x in {y for t in p.facts for y in walk(t)} if x.k == "ld" and ldfield(x, prog) == ("struct.args", "len")]
            if rm and len(ln) == 2 and known:
                new = max(ln, key=lambda x: (isinstance(x.a[0], int) and x.a[0] or 0) if not isinstance(x.a[0], tuple) else 1 << 30)
                v = possible(p, new, (0, 1, 2))
                if v:
                    J_.check(0 not in v if nonzero(r) else set(v) <= {0} if zero(r) else None, ty[-1] + " alone", p,
                             "carries out a type word without a command" if nonzero(r) else "answers a command behind a type word without carrying it out")
        elif evs(p, "pg_write_error") and not is_:
            J_.check(set(TYPES) <= asked if known else None, "types asked", p, "refuses a type word it knows")
        elif oid and not is_:
            J_.check(False if known else None, "type kept", p, "chooses a type without being told to")
