"""C25: a memcache request runs the command it stands for."""
from gensim import *
from semlib import under, isglobal
from p_sem import ASSUME
from p_save import evs
from p_frame import res, zero, nonzero
from p_auth import resultzero
from p_http import texts, errtext, possible, agrees, len_is, byteat, name, CMP
from replies import text

EXPLAIN = {
    "C25": "every path through parse_memcache, parse_memcache_telnet and mc_valid_key: the command word, counts and arguments a successful path has recognised against "
           "the arguments it hands on, what each refusal was recorded for, where the parser goes on; and what evdata does after a memcache request",
}
MAPR = "a memcache request becomes the command it stands for"
VALR = "a storage command stores exactly its data block"
CNTR = "a memcache command has its number of arguments"
KEYR = "the keys memcache accepts"
NORR = "noreply is honoured"
REFR = "a memcache request is refused for its own reason"
POSR = "the server goes on right after a memcache request"
WORDR = "a memcache line is split at its spaces"
P0, P1, P2, P3 = (mk("p", i) for i in range(4))
STORE = {"set": (), "add": ("nx",), "replace": ("xx",), "cas": ("cas",), "append": None, "prepend": None}
FIXED = {"delete": ("del", 1), "incr": ("uincrby", 2), "decr": ("udecrby", 2), "touch": ("expire", 2), "version": ("version", 0), "quit": ("quit", 0)}
MANY = {"get": "mget", "gets": "mgets", "stats": "stats"}
COUNT = {"set": {5}, "add": {5}, "replace": {5}, "append": {5}, "prepend": {5}, "cas": {6}, "delete": {2}, "incr": {3}, "decr": {3}, "touch": {3},
         "flush_all": {1, 2}, "get": set(range(2, 40)), "gets": set(range(2, 40)), "gat": set(range(3, 40)), "gats": set(range(3, 40)), "verbosity": {2}}
WORDS = set(STORE) | set(FIXED) | set(MANY) | {"flush_all", "gat", "gats", "verbosity"}
QUIETABLE = set(STORE) | {"incr", "decr", "delete", "touch", "flush_all"}
LIMIT = 536870912
PARSE = ("parse_i64", "parse_u64")
MEMCACHE = 1
KNOWN = {"parse_command", "parse_lasterror", "parse_lastmc_n", "conn_write_error", "evcommand", "net_conn_bgworking", "conn_isclosed", "conn_close", "net_conn_out_len", "net_conn_out_setlen",
         "L", "X", "=", "memcpy", "memmove", "buf_append", "xfree"}


def C25(prog, R, tier):
    F = func(prog, "parse_memcache")
    if F is None:
        R.unknown += 1
    else:
        Parse(prog, R, F)
    keys(prog, R)
    split(prog, R)
    after(prog, R)


class Parse:
    def __init__(self, prog, R, F):
        self.prog = prog
        self.J_ = J_ = J(prog, R, F, MAPR, cap=9000, copyin=True, mods=("memcache.c",), keep=("parse_memcache_telnet", "mc_valid_key"))
        self.BUFS, self.LEN = prog.field_off("struct.args", "bufs"), prog.field_off("struct.args", "len")
        self.DATA, self.BLEN = prog.field_off("struct.buf", "data"), prog.field_off("struct.buf", "len")
        self.SIZE = 24
        self.quiet = {}
        self.on = {}
        good, bad = [], []
        for p in J_.paths:
            if not evs(p, "parse_memcache_telnet"):
                continue
            self.N = evs(p, "parse_memcache_telnet")[0].res
            r = p.range(p.ret)
            n = p.range(self.N)
            if n[1] <= 0:
                J_.check(same(p.ret, self.N) or (False if isc(strip(p.ret)) and strip(p.ret).a[0] > 0 else None), "line", p, "accepts a request without a whole line", rule=POSR)
                continue
            if r[1] < 0:
                bad.append(p)
            elif r[0] == r[1] == 0:
                self.waits(p)
            else:
                good.append(p)
        self.records = any(self.lastn(p) is not None for p in good + bad)
        for p in good:
            self.one(p)
        for p in bad:
            self.refusal(p)
        for w in sorted(QUIETABLE):
            if w in self.on:
                J_.check(self.quiet.get(w, False), w + " noreply", self.on[w], "never honours the noreply of '%s'" % w, rule=NORR)
        self.loops()

    # -- arguments of the request
    def argof(self, a, off):
        """k when the address is that of args->bufs[k] + off"""
        b = [x for x in walk(a) if x.k == "ld" and under(x.a[1]) is P2 and lsub(x.a[1], P2) == (self.BUFS, {})]
        if not b:
            return None
        d = lsub(a, b[0])
        if d is None or d[1] or (d[0] - off) % self.SIZE or d[0] < off:
            return None
        return (d[0] - off) // self.SIZE

    def varof(self, a, off):
        """(v, k) when the address is that of args->bufs[v + k] + off with a variable v"""
        b = [x for x in walk(a) if x.k == "ld" and under(x.a[1]) is P2 and lsub(x.a[1], P2) == (self.BUFS, {})]
        if not b:
            return None
        d = lsub(a, b[0])
        if d is None or (d[0] - off) % self.SIZE or len(d[1]) != 1:
            return None
        v, c = next(iter(d[1].items()))
        return (strip(v), (d[0] - off) // self.SIZE) if c == self.SIZE and strip(v).k == "phi" else None

    def ldarg(self, t, off):
        t = strip(t)
        if t.k != "ld":
            return None
        return self.argof(t.a[1], off)

    def count0(self, p):
        """term of the number of arguments of the line"""
        for f in p.facts:
            for x in walk(f):
                if x.k == "ld" and lsub(x.a[1], P2) == (self.LEN, {}):
                    return x
        return None

    def word(self, p):
        """(command word, its comparison); '' when no known word was recognised, None when that cannot be told"""
        t = texts(p, p.ev)
        hit = [w for w in t if t[w][2] is True and self.ldarg(t[w][1], self.DATA) == 0]
        if len(hit) == 1:
            return hit[0]
        if hit:
            return None
        return "" if any(self.ldarg(t[w][1], self.DATA) == 0 for w in t) else None

    def nlen(self, p, k):
        """range of the length of argument k"""
        for f in p.facts:
            f = strip(f)
            if f.k == "ld" and self.argof(f.a[1], self.BLEN) == k:
                return p.range(f)
        return None

    def noreplyarg(self, p):
        t = texts(p, p.ev).get("noreply")
        return None if t is None else t[2]

    def zeroword(self, p, k):
        """is argument k the word '0'? (None: cannot be told)"""
        ln, by = None, None
        for f in p.facts:
            x = strip(f)
            if x.k == "ld":
                if self.argof(x.a[1], self.BLEN) == k:
                    ln = p.range(x)
                b = strip(x.a[1])
                if b.k == "ld" and self.argof(b.a[1], self.DATA) == k:
                    by = p.range(x)
        if ln is not None and (ln[0] > 1 or ln[1] < 1 or 1 in ln[2]):
            return False
        if by is not None and (by[0] > 48 or by[1] < 48 or 48 in by[2]):
            return False
        if ln is None and by is None:
            v = self.parsed(p, k)
            if v is not None and v[1] is not None:
                r = p.range(v[1])
                return True if r[0] == r[1] == 0 else False
            return None
        if ln is not None and by is not None and ln[:2] == (1, 1) and by[:2] == (48, 48):
            return True
        if (ln is None or by is None) and not any(e.name in CMP and any(self.ldarg(a, self.DATA) == k for a in e.args) for e in p.ev):
            v = self.parsed(p, k)
            if v is None or v[1] is None or p.range(v[1])[:2] != (0, 0):
                return False
        return None

    def parsed(self, p, k):
        """(call, number) of argument k read as a number on the path"""
        for e in p.ev:
            if e.name in PARSE and self.ldarg(e.args[0], self.DATA) == k and self.ldarg(e.args[1], self.BLEN) == k:
                v = [x for f in list(p.facts) + [p.ret] + [a for q in p.ev for a in q.args] for x in walk(f) if x.k == "parsed" and x.a[0] == e.I.id]
                return e, (v[0] if v else None)
        return None

    # -- arguments handed on
    def handed(self, p):
        """[(kind, value, event)] of what the path hands on; None when that cannot be told.
        kinds: text, arg (k), val (pointer, length)"""
        fin = [e for e in p.ev if e.name == "memcpy" and strip(e.args[0]) is P2]
        if fin:
            L = strip(fin[-1].args[1])
            if under(L).k != "al":
                return None
            out = []
            ev = list(p.ev)
            for i, e in enumerate(ev):
                if e.name == "args_append" and strip(e.args[0]) is L:
                    if isc(strip(e.args[1])) and isc(strip(e.args[2])) and strip(e.args[2]).a[0] == 0:
                        m = [x for x in ev[i + 1:] if x.name in ("memcpy", "args_append")][:1]
                        if not m or m[0].name != "memcpy":
                            return None
                        k = self.argof(m[0].args[1], 0)
                        if k is None or strip(m[0].args[2]) is not C(self.SIZE):
                            return None
                        out.append(("arg", k, e))
                        continue
                    out.append(self.item(p, ev, e, e.args[1], e.args[2]))
                elif any(strip(a) is L for a in e.args) and e.name not in ("memcpy", "args_free", "L"):
                    return None
            return out
        # rewritten in place
        n = self.count0(p)
        if n is None:
            return None
        r = p.range(n)
        st = [e for e in p.ev if e.name == "=" and under(e.args[0]) is P2 or e.name == "memcpy" and under(e.args[0]) is P2 or
              e.name in ("=", "memcpy") and any(x.k == "ld" and under(x.a[1]) is P2 for x in walk(e.args[0]))]
        cnt = r[0] if r[0] == r[1] else None
        cur = {}
        for e in st:
            if e.name == "=":
                if lsub(e.args[0], P2) == (self.LEN, {}):
                    v = strip(e.args[1])
                    if not isc(v):
                        return None
                    cnt = v.a[0]
                    continue
                for off, nm in ((self.DATA, 0), (self.BLEN, 1)):
                    k = self.argof(e.args[0], off)
                    if k is not None:
                        c = list(cur.get(k, (None, None, e)))
                        c[nm] = e.args[1]
                        c[2] = e
                        cur[k] = tuple(c)
                        break
            else:
                k, j = self.argof(e.args[0], 0), self.argof(e.args[1], 0)
                if k is None or j is None or strip(e.args[2]) is not C(self.SIZE):
                    return None
                cur[k] = cur.get(j, ("A", j, e))
        if cnt is None or cnt > 40:
            return None
        out = []
        for k in range(cnt):
            c = cur.get(k)
            if c is None:
                out.append(("arg", k, None))
            elif c[0] == "A":
                out.append(("arg", c[1], c[2]))
            elif c[0] is None or c[1] is None:
                return None
            else:
                out.append(self.item(p, p.ev, c[2], c[0], c[1]))
        return out

    def item(self, p, ev, e, ptr, n):
        t = text(strip(ptr))
        n_ = strip(n)
        if t is not None:
            if isc(n_) and n_.a[0] != len(t):
                return "text", t[:n_.a[0]] if n_.a[0] < len(t) else t + "?", e
            return "text", t, e
        k = self.ldarg(ptr, self.DATA)
        if k is not None:
            return ("arg", k, e) if self.ldarg(n, self.BLEN) == k else ("part", k, e)
        if strip(ptr).k == "al" or under(ptr).k == "al":
            for x in ev:
                if x.name in ("memcpy", "copyin") and same(x.args[0], ptr):
                    k = self.ldarg(x.args[1], self.DATA)
                    j = self.ldarg(x.args[2], self.BLEN)
                    if k is not None and j is not None:
                        return ("arg", k, e) if j == k else ("part", k, e)
            return "?", None, e
        if under(ptr) is P0:
            return "val", (ptr, n), e
        return "?", None, e

    # -- one accepted request
    def one(self, p):
        J_ = self.J_
        w = self.word(p)
        cnt = self.count0(p)
        if w is None or w not in WORDS:
            if w == "":
                t = [x for x, v in texts(p, p.ev).items() if x in WORDS]
                if len(t) >= 15:
                    J_.check(None if p.range(cnt)[1] <= 0 else False, "unknown", p, "accepts a word that is no memcache command")
                else:
                    J_.check(None, "unknown", p, "")
            else:
                J_.check(None, "word", p, "")
            if cnt is not None and p.range(cnt)[:2] == (0, 0):
                J_.check(same(p.ret, self.N) or None, "empty line", p, "", rule=POSR)
            return
        r = self.nlen(p, 0)
        if r is not None:
            J_.check(r[0] == r[1] == len(w), "word", p, "takes another word for '%s'" % w)
        nr = self.noreplyarg(p)
        self.on.setdefault(w, p)
        if nr is True and w in QUIETABLE:
            self.quiet[w] = True
        self.flag(p, w, nr)
        self.counts(p, w, cnt, nr)
        self.position(p, w)
        self.keysof(p, w)
        out = self.handed(p)
        if out is None:
            J_.check(None, w, p, "")
            return
        if out and out[0][:2] == ("arg", 0):
            out[0] = ("text", w, out[0][2])
        if w in STORE:
            self.store(p, w, out)
        elif w in FIXED:
            c, n = FIXED[w]
            self.expect(p, w, out, [("text", c)] + [("arg", i + 1) for i in range(n)])
        elif w in MANY:
            if cnt is not None and p.range(cnt)[0] == p.range(cnt)[1] and len(out) > 1:
                self.expect(p, w, out, [("text", MANY[w])] + [("arg", i) for i in range(1, p.range(cnt)[0])])
            else:
                self.expect(p, w, out, [("text", MANY[w])])
                self.passes(p, w)
        elif w == "flush_all":
            n = None if cnt is None else possible(p, cnt, range(2 if nr else 1, 5))
            if n is None:
                J_.check(None, w, p, "")
                return
            n = {x - (1 if nr else 0) for x in n}
            if n == {1}:
                self.expect(p, w, out, [("text", "flushall")])
            elif n == {2}:
                self.expect(p, w, out, [("text", "flushall"), ("text", "delay"), ("arg", 1)])
            elif n == {1, 2}:
                J_.check(False, w, p, "does the same for a flush_all with and without a delay")

    def expect(self, p, w, out, want):
        J_ = self.J_
        if any(k == "?" for k, v, e in out):
            J_.check(None, w, p, "")
            return False
        got = [(k, v) for k, v, e in out]
        if got != want and any(evs_(q.segment(), "args_append") for h in self.loopsof(p) for q in J_.iters if q.hdr == h):
            J_.check(None, w, p, "")
            return False
        ok = J_.check(got == want, w, p, "turns '%s' into (%s), not (%s)" % (w, self.show(out), self.show(want)), out[0][2] if out else None)
        return ok

    def show(self, out):
        s = []
        for o in out:
            k, v = o[0], o[1]
            s.append(v if k == "text" else "argument %d" % v if k == "arg" else "part of argument %d" % v if k == "part" else "value" if k == "val" else "?")
        return " ".join(s)

    def store(self, p, w, out):
        J_ = self.J_
        if any(k == "?" for k, v, e in out):
            J_.check(None, w, p, "")
            return
        c = w if w in ("append", "prepend") else "set"
        head = [(k, v) for k, v, e in out[:2]]
        J_.check(head == [("text", c), ("arg", 1)], w, p, "turns '%s' into (%s)" % (w, self.show(out)), out[0][2] if out else None)
        if head != [("text", c), ("arg", 1)]:
            return
        x = self.parsed(p, 4)
        num = None if x is None else x[1]
        if x is None:
            J_.check(not any(e.name in PARSE for e in p.ev) and None, "size", p, "", rule=VALR)
        if len(out) < 3 or out[2][0] != "val":
            J_.check(False if len(out) < 3 or out[2][0] in ("text", "arg", "part") else None, w + " value", p, "hands on (%s) without the data block" % self.show(out), out[-1][2], rule=VALR)
            return
        ptr, n = out[2][1]
        e = out[2][2]
        d = lsub(ptr, P0)
        J_.check(d == (0, {self.N: 1}) or (False if d is not None and not (set(d[1]) - {self.N}) else None), w + " value start", p, "stores a value that does not start after the line", e, rule=VALR)
        if num is None:
            if x is not None:
                J_.check(False if self.N in [strip(n)] or isc(strip(n)) else None, w + " value length", p, "stores a value that has not the given length", e, rule=VALR)
            return
        r = p.range(num)
        J_.check(r[0] >= 0, w + " size", p, "accepts a data block of negative size", x[0], rule=VALR)
        J_.check(r[1] <= LIMIT, w + " size", p, "accepts a data block over the limit", x[0], rule=VALR)
        J_.check(nonzero(res(p, x[0])) or (False if not zero(res(p, x[0])) else None), w + " size valid", p, "does not refuse a size that is no number", x[0], rule=VALR)
        d = lsub(n, num)
        J_.check(d == (0, {}) or (False if d is not None and not d[1] else None), w + " value length", p, "stores a value that has not the given length", e, rule=VALR)
        need = mk("bin", "add", num, C(2))
        k = le(p, need, mk("bin", "sub", P1, self.N))
        if k is not True:
            # any weaker bound that is known
            w_ = [j for j in (1, 0, -1, -2) if le(p, mk("bin", "add", num, C(j)), mk("bin", "sub", P1, self.N)) is True]
            anyb = any(P1 in walk(f) for f in p.facts)
            J_.check(False if w_ or not anyb else None, w + " wait", p, "does not wait for the whole data block", e, rule=VALR)
        else:
            J_.check(True, w + " wait", p, "", rule=VALR)
        for c, o in ((13, 0), (10, 1)):
            at = mk("bin", "add", mk("bin", "add", P0, self.N), mk("bin", "add", num, C(o)))
            if byteat(p, at, c):
                J_.check(True, w + " end", p, "", rule=VALR)
            else:
                other = [f for f in p.facts if f.k == "ld" and under(f.a[1]) is P0]
                near = [f for f in other if (lsub(f.a[1], at) or (0, {0: 1}))[1] == {}]
                calls = any(e.name in CMP and any(under(a) is P0 for a in e.args) for e in p.ev)
                J_.check(None if calls or len(other) > len(near) else False, w + " end", p, "does not require the line end after the data block", e, rule=VALR)
        for k, what in ((2, "flags"), (3, "expiry")):
            v = self.parsed(p, k)
            if v is None:
                if self.zeroword(p, k) is not True:
                    J_.check(None if any(e.name in PARSE and self.ldarg(e.args[0], self.DATA) is None for e in p.ev) else False, w + " " + what, p, "does not examine the %s" % what, rule=VALR)
            else:
                J_.check(not zero(res(p, v[0])) and (nonzero(res(p, v[0])) or False), w + " " + what, p, "accepts %s that are no number" % what, v[0], rule=VALR)
        self.options(p, w, out[3:])

    def options(self, p, w, rest):
        J_ = self.J_
        got, i = {}, 0
        while i < len(rest):
            k, v, e = rest[i]
            if k != "text":
                J_.check(False, w + " options", p, "hands on (%s) after the value of '%s'" % (self.show(rest), w), e)
                return
            if v in ("flags", "ex", "cas"):
                if i + 1 >= len(rest):
                    J_.check(False, w + " options", p, "hands on '%s' without its value" % v, e)
                    return
                J_.check(v not in got, w + " options", p, "hands on '%s' twice" % v, e)
                got[v] = rest[i + 1]
                i += 2
            else:
                J_.check(v not in got, w + " options", p, "hands on '%s' twice" % v, e)
                got[v] = None
                i += 1
        if STORE[w] is None:
            J_.check(not got, w + " options", p, "hands on options (%s) of '%s'" % (self.show(rest), w))
            return
        for o in STORE[w]:
            J_.check(o in got, w + " " + o, p, "forgets the %s of '%s'" % (o, w))
        for o in got:
            J_.check(o in STORE[w] or o in ("flags", "ex"), w + " " + o, p, "hands on '%s' for '%s'" % (o, w))
        for o, k in (("flags", 2), ("ex", 3), ("cas", 5)):
            if got.get(o) is not None:
                kk, v, e = got[o]
                J_.check((kk, v) == ("arg", k) or (False if kk in ("arg", "text", "part", "val") else None), w + " " + o, p, "hands on another argument as %s" % o, e)
        for o, k in (("flags", 2), ("ex", 3)):
            z = self.zeroword(p, k)
            if o not in got:
                J_.check(z if z is not False else False, w + " " + o, p, "forgets the %s of '%s'" % (o, w))
            elif o == "ex":
                J_.check(True if z is False else None if z is None else False, w + " " + o, p, "hands on the expiry 0 of '%s', which means none" % w)
        if "cas" in got and w == "cas":
            v = self.parsed(p, 5)
            J_.check(None if v is None else v[0].name == "parse_u64" and bool(nonzero(res(p, v[0]))), w + " cas valid", p, "accepts a cas number that is none")

    def counts(self, p, w, cnt, nr):
        J_ = self.J_
        if w not in COUNT or cnt is None:
            return
        want = {x + (1 if nr else 0) for x in COUNT[w]}
        got = possible(p, cnt, range(2 if nr else 1, 12))
        if got is None:
            J_.check(False, w, p, "accepts '%s' with any number of arguments" % w, rule=CNTR)
            return
        more = [x for x in got if x not in want]
        if w in ("get", "gets") and more and max(more) <= 1 + (1 if nr else 0):
            pass
        J_.check(not more, w, p, "accepts '%s' with %d arguments" % (w, (more or [0])[0] - 1 - (1 if nr else 0)), rule=CNTR)

    def flag(self, p, w, nr):
        J_ = self.J_
        st = [e for e in p.ev if e.name == "=" and strip(e.args[0]) is P3]
        if not st:
            J_.check(None, w + " flag", p, "", rule=NORR)
            return
        v = strip(st[-1].args[1])
        while v.k == "not":
            v = strip(v.a[0])
        if not isc(v):
            J_.check(False if v.k == "cmp" and p.truth(v) is None and w not in QUIETABLE and w not in ("quit", "verbosity") else None, w + " flag", p, "does not always answer '%s'" % w, st[-1], rule=NORR)
            return
        v = v.a[0] & 1
        if w in QUIETABLE:
            if nr is not None:
                J_.check(v == (1 if nr else 0), w + " flag", p, "answers '%s' with noreply" % w if nr else "does not answer '%s'" % w, st[-1], rule=NORR)
            else:
                J_.check(v == 0, w + " flag", p, "does not answer '%s'" % w, st[-1], rule=NORR)
        elif w not in ("quit", "verbosity"):
            J_.check(v == 0, w + " flag", p, "does not answer '%s'" % w, st[-1], rule=NORR)
        if nr is True:
            t = texts(p, p.ev)["noreply"]
            d = None
            if strip(t[1]).k == "ld":
                b = [x for x in walk(strip(t[1]).a[1]) if x.k == "ld" and lsub(x.a[1], P2) == (self.BUFS, {})]
                if b:
                    d = lsub(strip(t[1]).a[1], b[0])
            if d is not None and len(d[1]) == 1 and self.count0(p) in d[1]:
                J_.check(d[0] == self.DATA - self.SIZE, w + " last", p, "looks for noreply at the wrong argument", t[0], rule=NORR)

    def position(self, p, w):
        J_ = self.J_
        d = lsub(p.ret, self.N)
        if d is None:
            return
        if w in STORE:
            v = self.parsed(p, 4)
            if v is not None and v[1] is not None:
                d = lsub(p.ret, mk("bin", "add", self.N, v[1]))
                J_.check(d == (2, {}) or (False if d is not None and not (set(d[1]) - {v[1], self.N}) else None), w + " next", p, "does not go on right after the data block of '%s'" % w, rule=POSR)
        else:
            J_.check(d == (0, {}) or (False if not d[1] or set(d[1]) == {self.N} else None), w + " next", p, "does not go on right after the line of '%s'" % w, rule=POSR)

    def lastn(self, p):
        """value last recorded as the place to go on from"""
        v = [e for e in p.ev if e.name == "=" and "mc_n" in repr(e.args[0])]
        return v[-1] if v else None

    def keysof(self, p, w):
        J_ = self.J_
        if w in ("flush_all", "stats", "version", "quit", "verbosity", "gat", "gats"):
            return
        v = evs(p, "mc_valid_key")
        k = [e for e in v if isc(strip(e.args[1])) and strip(e.args[1]).a[0] == 1 and strip(e.args[0]) is P2]
        if k:
            J_.check(bool(nonzero(res(p, k[-1]))), w + " key", p, "accepts '%s' with an invalid key" % w, k[-1], rule=KEYR)
        elif w in ("get", "gets"):
            lp = self.loopsof(p)
            L = [q for h in lp for q in J_.iters if q.hdr == h]
            if any(evs_(q.segment(), "mc_valid_key") for q in L):
                J_.check(True, w + " key", p, "", rule=KEYR)
            else:
                J_.check(False if L or not v else None, w + " key", p, "does not examine the keys of '%s'" % w, rule=KEYR)
        else:
            J_.check(False if not any(not isc(strip(e.args[1])) for e in v) else None, w + " key", p, "does not examine the key of '%s'" % w, rule=KEYR)

    def loopsof(self, p):
        """headers of the loops the path has left"""
        out = []
        for f in p.facts:
            for x in walk(f):
                if x.k == "phi":
                    for q in self.J_.iters:
                        if x.a[0] in q.phis and q.hdr not in out:
                            out.append(q.hdr)
        return out

    def passes(self, p, w):
        """the remaining arguments are handed on by a loop"""
        J_ = self.J_
        L = [q for h in self.loopsof(p) for q in J_.iters if q.hdr == h]
        a = [q for q in L if evs_(q.segment(), "args_append")]
        J_.check(bool(a) or (False if len(L) == len([q for q in L if evs_(q.segment(), "mc_valid_key")]) else None), w + " arguments", p, "does not hand on the arguments of '%s'" % w)

    def loops(self):
        J_ = self.J_
        by, self.index = {}, {}
        for q in J_.iters:
            by.setdefault(q.hdr, []).append(q)
        for h, qs in by.items():
            for q in qs:
                seg = q.segment()
                K, A = evs_(seg, "mc_valid_key"), evs_(seg, "args_append")
                v, off = None, 0
                for e in K:
                    k = linz(strip(e.args[1]).a[1] if strip(e.args[1]).k == "cast" else e.args[1])
                    if k is not None and len(k[1]) == 1 and list(k[1].values()) == [1] and next(iter(k[1])).k == "phi":
                        v, off = next(iter(k[1])), k[0]
                        J_.check(bool(nonzero(res(q, e))), "each key", q, "accepts an invalid key among several", e, rule=KEYR)
                for e in A:
                    m = [x for x in seg[seg.index(e) + 1:] if x.name in ("memcpy", "args_append")][:1]
                    if m and m[0].name == "memcpy":
                        k = self.varof(m[0].args[1], 0)
                    else:
                        d = strip(e.args[1])
                        k = self.varof(d.a[1], self.DATA) if d.k == "ld" else None
                    if k is not None:
                        v, off = k
                if v is None or v.a[0] not in q.phis:
                    continue
                self.index[v.a[0]] = off
                d = lsub(q.phis[v.a[0]][1], v)
                J_.check(d == (1, {}) or (False if d is not None and not d[1] else None), "each", q, "skips arguments", rule=KEYR if K else MAPR)
                others = [r for r in qs if r is not q and not evs_(r.segment(), "mc_valid_key") and not evs_(r.segment(), "args_append")]
                for r in others:
                    J_.check(False, "each", r, "leaves out an argument", rule=KEYR if K else MAPR)
                for p in J_.enters:
                    if p.hdr == h and v.a[0] in p.phis:
                        i = strip(p.phis[v.a[0]][1])
                        if isc(i):
                            n = i.a[0] + off
                            J_.check(n == 1 or (n == 2 and bool(K) and bool(self.word(p) in ("gat", "gats", None))), "first", p, "starts at argument %d" % n, rule=KEYR if K else MAPR)
        # a loop ends at the last argument
        for p in J_.paths:
            for pred, x, y, t, f in cmpfacts(p):
                x_, y_ = strip(x), strip(y)
                ph = [z for z in walk(x) if z.k == "phi" and any(z.a[0] in q.phis for q in J_.iters)]
                if len(ph) == 1 and ph[0].a[0] in self.index and pred in ("ult", "slt") and t is False:
                    x0 = lsub(x, ph[0])
                    l = [z for z in walk(y) if z.k == "ld" and lsub(z.a[1], P2) == (self.LEN, {})]
                    if len(l) == 1:
                        d = lsub(y, l[0])
                        removed = [e for e in p.ev if e.name == "=" and lsub(e.args[0], P2) == (self.LEN, {})]
                        if d is not None and not d[1] and x0 is not None and not x0[1] and not removed:
                            J_.check(d[0] - x0[0] + self.index[ph[0].a[0]] >= 0, "last", p, "leaves out the last argument")

    # -- refusals and waiting
    def reasons(self, p):
        w = self.word(p)
        out = set()
        cnt = self.count0(p)
        if w == "":
            out.add("ERROR")
        nr = self.noreplyarg(p)
        if w in COUNT and cnt is not None:
            g = possible(p, cnt, range(2 if nr else 1, 12))
            if g is None:
                out.add(None)
            elif not set(g) & {x + (1 if nr else 0) for x in COUNT[w]}:
                out.add("ERROR")
                if w == "delete" and g and min(g) > 2:
                    out.add("BAD")
        if w in ("gat", "gats", "verbosity") or w is None:
            out.add(None)
        for e in p.ev:
            if e.name == "mc_valid_key" and not nonzero(res(p, e)):
                out.add("BAD")
            if e.name in PARSE:
                if zero(res(p, e)):
                    out.add("BAD")
                    continue
                k = self.ldarg(e.args[0], self.DATA)
                if k is None:
                    out.add(None)
                    continue
                v = [x for f in p.facts for x in walk(f) if x.k == "parsed" and x.a[0] == e.I.id]
                if v and w in STORE and k in (2, 4):
                    r = p.range(v[0])
                    if r[1] < 0 or r[0] > LIMIT and k == 4:
                        out.add("BAD")
        for f in p.facts:
            if f.k == "ld" and under(f.a[1]) is P0:
                r = p.range(f)
                d = [o for o in (13, 10) if r[0] > o or r[1] < o or o in r[2]]
                if d:
                    out.add("CHUNK")
        for e in p.ev:
            if e.name in CMP and any(under(a) is P0 for a in e.args[:2]):
                out.add("CHUNK" if resultzero(p, e.res) is False else None)
            elif e.name != "parse_memcache_telnet" and not e.loop and e.name not in ("=", "args_append") and any(under(a) is P0 for a in e.args):
                out.add(None)
        return out

    def refusal(self, p):
        J_ = self.J_
        if p.joined:
            return
        why = self.reasons(p)
        if None not in why:
            J_.check(bool(why), "refuse", p, "refuses a valid request" + (" ('%s')" % self.word(p) if self.word(p) else ""), rule=REFR)
        t = errtext(p)
        if t and t[-1] is not None and why and None not in why:
            x = t[-1]
            c = "ERROR" if x == "ERROR" else "CHUNK" if "chunk" in x else "BAD" if x.startswith("CLIENT_ERROR") else None
            if c is not None:
                J_.check(c in why, "reason", p, "answers '%s' to another mistake" % x, rule=REFR)
        e = self.lastn(p)
        if e is None:
            J_.check(False if self.records else None, "place", p, "does not record where to go on after a refused line", rule=POSR)
            return
        if under(e.args[0]).k == "p":
            return
        v = e.args[1]
        d = lsub(v, self.N)
        if "CHUNK" in why and len(why) == 1:
            num = self.parsed(p, 4)
            if num is not None and num[1] is not None:
                d = lsub(v, mk("bin", "add", self.N, num[1]))
                J_.check(d == (2, {}) or (False if d is not None and not (set(d[1]) - {num[1], self.N}) else None), "place", p, "does not go on after the bad data block", e, rule=POSR)
        elif None not in why and "CHUNK" not in why:
            J_.check(d == (0, {}) or (False if d is not None and (not d[1] or set(d[1]) == {self.N} or isc(strip(v))) else None), "place", p, "does not go on after the refused line", e, rule=POSR)

    def waits(self, p):
        """more data is asked for only while the data block is not there"""
        J_ = self.J_
        w = self.word(p)
        if w in STORE:
            x = self.parsed(p, 4)
            if x is None or x[1] is None:
                J_.check(None, "waits", p, "", rule=VALR)
                return
            need = mk("bin", "add", x[1], C(2))
            k = le(p, need, mk("bin", "sub", P1, self.N))
            ks = [j for j in (3, 4, 8) if le(p, mk("bin", "add", x[1], C(j)), mk("bin", "sub", P1, self.N)) is False]
            J_.check(True if k is False else (False if ks or not any(P1 in walk(f) for f in p.facts) else None), "waits", p, "waits for more than the data block", rule=VALR)
        elif w in WORDS:
            J_.check(False if w not in ("gat", "gats", "verbosity") else None, "waits", p, "waits for more after the line of '%s'" % w, rule=POSR)


def evs_(seg, n):
    return [e for e in seg if e.name == n]


# ---------------------------------------------------------------- keys
def keys(prog, R):
    F = func(prog, "mc_valid_key")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, KEYR)
    BL = prog.field_off("struct.buf", "len")

    def byte(p):
        out = set()
        for t in p.facts:
            for x in walk(t):
                if x.k == "ld" and any(y.k == "phi" or y.k == "ld" and y is not x for y in walk(x.a[1])):
                    y = strip(x.a[1])
                    if any(z.k == "phi" for z in walk(y)):
                        out.add(x)
                        break
        return out

    def length(p):
        out = set()
        for t in p.facts:
            for x in walk(t):
                if x.k == "ld" and not any(z.k == "phi" for z in walk(x)) and P1 in walk(x) and under(x.a[1]) is not P2 and (linz(x.a[1]) or (0, {}))[0] == BL:
                    out.add(x)
        return out

    def span(p, x):
        out = []
        for c in range(-128, 128):
            good = True
            for t in p.facts:
                if any(y is x for y in walk(t)):
                    k = agrees(p, t, x, c)
                    if k is None:
                        return None
                    if not k:
                        good = False
                        break
            if good:
                out.append(c)
        return [c & 255 for c in out]

    def ok(c):
        return c > 32 and c != 127
    for p in J_.iters:
        b = byte(p)
        if len(b) != 1:
            J_.check(None, "byte", p, "")
            continue
        s = span(p, next(iter(b)))
        if s is None:
            J_.check(None, "byte", p, "")
            continue
        w = [c for c in s if not ok(c)]
        if any((lsub(v, o) or (0, {0: 0}))[1] for o, v in p.phis.values()):
            J_.check(None if w else True, "byte", p, "")
            continue
        J_.check(not w, "byte", p, "accepts the byte %s in a key" % (name(w[0]) if w else ""))
        for i, (o, nw) in p.phis.items():
            d = lsub(nw, o)
            if d is not None and not d[1] and any(y.k == "phi" and y.a[0] == i for x in b for y in walk(x.a[1])):
                J_.check(d[0] == 1, "every byte", p, "does not look at every byte of a key")
    for p in J_.enters:
        at = {y.a[0] for q in J_.iters if q.hdr == p.hdr for x in byte(q) for y in walk(x.a[1]) if y.k == "phi"}
        for i, (o, v) in p.phis.items():
            v = strip(v)
            if isc(v) and i in at:
                J_.check(v.a[0] == 0, "every byte", p, "does not look at the first byte of a key")
    for p in J_.paths:
        b, n = byte(p), length(p)
        if zero(p.range(p.ret)):
            if len(b) == 1:
                s = span(p, next(iter(b)))
                if s is not None:
                    w = [c for c in s if ok(c)]
                    J_.check(not w, "refuse", p, "refuses the byte %s in a key" % (name(w[0]) if w else ""))
            elif not b and len(n) == 1 and not any(e.name == "L" for e in p.ev):
                w = possible(p, next(iter(n)), (1, 2, 100, 249, 250))
                J_.check(None if w is None else not w, "length", p, "refuses a key of %s bytes" % (w or [0])[0])
        elif nonzero(p.range(p.ret)):
            if len(n) == 1:
                w = possible(p, next(iter(n)), (0, 251, 252, 256, 1000, 1 << 16, 1 << 32, (1 << 32) + 5))
                J_.check(None if w is None else not w, "long", p, "accepts a key of %s bytes" % (w or [0])[0])


# ---------------------------------------------------------------- words
def split(prog, R):
    F = func(prog, "parse_memcache_telnet")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, WORDR, cut=False)
    end = mk("bin", "add", P0, P1)

    def ch(p):
        """(address, {possible bytes}) of the byte the path looks at"""
        out = {}
        for t in p.facts:
            for x in walk(t):
                if x.k == "ld" and any(z.k == "phi" for z in walk(x.a[1])):
                    out[x] = 1
                    break
        if len(out) != 1:
            return None
        x = next(iter(out))
        g = []
        for c in range(256):
            k = [agrees(p, t, x, c if c < 128 else c - 256) for t in p.facts if any(y is x for y in walk(t))]
            if None in k:
                return None
            if all(k):
                g.append(c)
        return x.a[1], g

    def roles():
        """phis of (position, start of the word)"""
        pos, st = set(), set()
        for p in J_.iters:
            c = ch(p)
            if c is None:
                continue
            for i, (o, v) in p.phis.items():
                if o is not None and same(c[0], o):
                    pos.add(i)
        for p in J_.iters:
            for e in evs_(p.segment(), "args_append"):
                s = strip(e.args[1])
                if s.k == "phi" and s.a[0] in p.phis:
                    st.add(s.a[0])
        return pos, st
    pos, st = roles()
    if len(pos) != 1 or len(st) != 1:
        J_.check(None, "shape", J_.paths[0], "")
        return
    pos, st = pos.pop(), st.pop()
    for p in J_.iters:
        c = ch(p)
        if c is None or pos not in p.phis or st not in p.phis:
            J_.check(None, "byte", p, "")
            continue
        o, v = p.phis[pos]
        J_.check(same(v, mk("bin", "add", o, C(1))) or None, "byte", p, "")
        a = evs_(p.segment(), "args_append")
        s, s2 = p.phis[st]
        if 10 in c[1]:
            J_.check(False, "line end", p, "does not stop at the end of the line")
        elif c[1] == [32]:
            J_.check(len(a) == 1, "space", p, "does not end a word at a space", a[0] if a else None)
            if len(a) == 1:
                e = a[0]
                d = lsub(e.args[2], mk("bin", "sub", o, s))
                J_.check(same(e.args[1], s) or None, "word", p, "", e)
                J_.check(d == (0, {}) or (False if d is not None and not d[1] else None), "word", p, "takes a word that does not end right before the space", e)
                d = lsub(s2, mk("bin", "add", o, C(1)))
                J_.check(d == (0, {}) or (False if d is not None and (not d[1] or same(s2, s)) else None), "next word", p, "does not start the next word right after the space", e)
        elif 32 not in c[1]:
            J_.check(not a, "other", p, "ends a word at %s" % name(c[1][0]) if c[1] else "", a[0] if a else None)
            J_.check(same(s, s2) or (False if lsub(s, s2) is not None else None), "other", p, "forgets the start of a word")
    for p in J_.enters:
        for i in (pos, st):
            if i in p.phis:
                d = lsub(p.phis[i][1], P0)
                J_.check(d == (0, {}) or (False if d is not None and not d[1] else None), "start", p, "does not start at the first byte")
    for p in J_.paths:
        r = p.range(p.ret)
        c = ch(p)
        if r[0] == r[1] == 0:
            if c is not None and c[1] == [10]:
                J_.check(False, "whole line", p, "asks for more data although the line is there")
            continue
        if c is None:
            continue
        if c[1] != [10]:
            J_.check(False if 10 not in c[1] else None, "line end", p, "takes a line to end at %s" % (name(c[1][0]) if c[1] else ""))
            continue
        o = mk("phi", pos)
        o = [x for f in list(p.facts) + [p.ret] for x in walk(f) if x.k == "phi" and x.a[0] == pos][:1]
        if not o:
            continue
        o = o[0]
        d = lsub(p.ret, mk("bin", "sub", mk("bin", "add", o, C(1)), P0))
        J_.check(d == (0, {}) or (False if d is not None and not d[1] else None), "next", p, "does not go on right after the line", rule=POSR)
        a = evs(p, "args_append")
        last = [x for f in p.facts for x in walk(f) if x.k == "phi" and x.a[0] not in (pos, st)]
        cr = None
        for x in last:
            r = p.range(x)
            cr = True if r[:2] == (13, 13) else False if r[0] > 13 or r[1] < 13 or 13 in r[2] else cr
        sv = [x for f in list(p.facts) + [p.ret] for x in walk(f) if x.k == "phi" and x.a[0] == st][:1]
        if not sv:
            continue
        wn = mk("bin", "sub", o, sv[0])

        def can(k):
            """may the word up to the '\n' be k bytes long"""
            for f in p.facts:
                d = lsub(f, wn)
                if d is not None and not d[1]:
                    r = p.range(f)
                    v = k + d[0]
                    if v < 0 and r[0] >= 0:
                        v += 1 << 64
                        if v > r[1] and r[1] >= (1 << 63) - 1:
                            v = r[1]
                    if v < r[0] or v > r[1] or v in r[2]:
                        return False
            for pred, x, y, t, f in cmpfacts(p):
                d = lsub(mk("bin", "sub", x, y), wn)
                e = lsub(mk("bin", "sub", x, y), mk("bin", "sub", sv[0], o))
                if d is not None and not d[1] and y.k != "c":
                    v = k + d[0]
                elif e is not None and not e[1] and x.k != "c":
                    v = e[0] - k
                else:
                    d = lsub(x, wn)
                    if d is None or d[1] or not isc(strip(y)):
                        continue
                    v = k + d[0] - strip(y).a[0]
                    if pred == "ult" and k + d[0] < 0:
                        v = 1
                if pred in ("ult", "slt") and (v < 0) != t or pred == "eq" and (v == 0) != t:
                    return False
            return True
        for e in a[-1:]:
            s = strip(e.args[1])
            if s.k != "phi" or s.a[0] != st:
                continue
            d = lsub(e.args[2], wn)
            if cr is not None and d is not None and not d[1]:
                J_.check(d[0] == (-1 if cr else 0), "last word", p, "takes a last word that does not end right before the line end", e)
                J_.check(d[0] >= 0 or not can(0), "blank", p, "takes a word of a negative length after the last space", e)
        if not a and cr is not None:
            J_.check(not can(2 if cr else 1), "last word", p, "forgets the last word of the line")


# ---------------------------------------------------------------- afterwards
def after(prog, R):
    F = func(prog, "evdata")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, POSR)
    for p in J_.iters + J_.paths:
        seg = p.segment() if p.kind == "iter" else p.ev
        e = [x for x in seg if x.name == "parse_command"]
        if not e:
            continue
        e = e[-1]
        i = seg.index(e)
        pr = [p.range(t) for t in p.facts if ldfield(t, prog) == ("struct.conn", "proto")]
        mc = None
        if pr:
            mc = True if all(x[0] == x[1] == MEMCACHE for x in pr) else False if any(x[0] > MEMCACHE or x[1] < MEMCACHE or MEMCACHE in x[2] for x in pr) else None
        r = p.range(e.res)
        if r[0] == r[1] == -1 and mc is True:
            j = [k for k, x in enumerate(seg) if k > i and x.name in ("conn_isclosed", "net_conn_isclosed", "net_conn_bgworking")][:1]
            cl = [x for x in seg[i:j[0] if j else None] if x.name in ("conn_close", "net_conn_close")]
            J_.check(not cl, "stays", p, "closes a memcache connection for a refused request", cl[0] if cl else None)
            n = [x for x in seg[i:] if x.name == "parse_lastmc_n"]
            if p.kind == "iter" and not cl:
                if not n:
                    J_.check(False if not any(x.name not in KNOWN for x in seg[i:]) else None, "goes on", p, "does not go on after a refused memcache request", e)
                else:
                    for j, (o, v) in p.phis.items():
                        d = lsub(v, o)
                        if d is None or not d[1]:
                            continue
                        a = strip(n[-1].res)
                        if set(d[1]) == {a}:
                            J_.check(d[0] == 0 and abs(d[1][a]) == 1, "goes on", p, "does not go on at the place the parser left", n[-1])
                        elif strip(e.res) in d[1]:
                            J_.check(False, "goes on", p, "does not go on at the place the parser left", n[-1])
        if mc is False or not [x for x in seg if x.name == "evcommand"]:
            dr = [x for x in seg[i:] if x.name == "net_conn_out_setlen"]
            J_.check(not dr or None, "keeps", p, "", rule=NORR)
            continue
        c = [k for k, x in enumerate(seg) if x.name == "evcommand"][-1]
        quiet(prog, J_, p, seg, c, mc)
    D = func(prog, "done5")
    if D is not None:
        J_ = J(prog, R, D, NORR)
        for p in J_.paths:
            pr = [p.range(t) for t in p.facts if ldfield(t, prog) == ("struct.conn", "proto")]
            c = [k for k, x in enumerate(p.ev) if x.name == "<indirect>" or x.name is None or x.name.startswith(("*", "ind", "ld"))]
            if not c:
                c = [k for k, x in enumerate(p.ev) if x.name not in ("net_conn_out_len", "net_conn_out_setlen", "xfree", "L", "X")][:1]
            if not c:
                continue
            if not any(x[0] > MEMCACHE or x[1] < MEMCACHE or MEMCACHE in x[2] for x in pr):
                quiet(prog, J_, p, list(p.ev), c[-1], bool(pr) and all(x[0] == x[1] == MEMCACHE for x in pr) or None)


def quiet(prog, J_, p, seg, c, mc):
    """what the command wrote is dropped when no reply was asked for"""
    fl = [p.range(t) for t in p.facts if ldfield(t, prog) == ("struct.conn", "noreply")]
    on = None
    if fl:
        on = True if all(nonzero(x) for x in fl) else False if any(zero(x) for x in fl) else None
    dr = [(k, x) for k, x in enumerate(seg) if x.name == "net_conn_out_setlen" and k > c]
    if mc is None and (dr or fl or elsewhere(prog)):
        if dr and on is not False:
            J_.check(None, "answers", p, "", rule=NORR)
        return
    if on is False:
        J_.check(not dr, "answers", p, "drops the answer to a memcache request that did not say noreply", dr[0][1] if dr else None, rule=NORR)
    elif on is None:
        if dr:
            J_.check(False, "answers", p, "drops the answer to a memcache request whether or not it said noreply", dr[0][1], rule=NORR)
        elif not fl and not any(ldfield(a, prog) == ("struct.conn", "noreply") for x in seg for a in x.args):
            J_.check(None if any(x.name not in KNOWN for x in seg[c + 1:]) else False, "drops", p, "answers a memcache request that said noreply", seg[c], rule=NORR)
    elif dr:
        m = [x for k, x in enumerate(seg) if x.name == "net_conn_out_len" and k < c and same(x.res, dr[0][1].args[1])]
        a = [x for k, x in enumerate(seg) if x.name == "net_conn_out_len" and k > c and same(x.res, dr[0][1].args[1])]
        J_.check(True if m else False if a or isc(strip(dr[0][1].args[1])) else None, "drops", p, "does not drop exactly what the command wrote", dr[0][1], rule=NORR)
    else:
        l = [x for k, x in enumerate(seg) if x.name == "net_conn_out_len" and k > c]
        m = [x for k, x in enumerate(seg) if x.name == "net_conn_out_len" and k < c]
        grew = [le(p, b.res, a.res) for a in m for b in l]
        if any(x.name not in KNOWN for x in seg[c + 1:]):
            J_.check(None, "drops", p, "", rule=NORR)
        else:
            J_.check(True if True in grew else None if None in grew and grew else False, "drops", p, "answers a memcache request that said noreply", seg[c], rule=NORR)


def elsewhere(prog):
    """functions other than the two judged that look at the noreply of a connection"""
    o = prog.field_off("struct.conn", "noreply")
    for F in prog.funcs():
        if F.name in ("evdata", "done5", "noreply_drop"):
            continue
        for b in F.blocks.values():
            for I in b.insts:
                if I.op == "getelementptr" and I.d.get("path") and I.d["path"][-1] == ("struct.conn", o):
                    return True
    return False
