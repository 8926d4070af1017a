"""C39: the text of a Postgres query becomes the arguments it spells."""
from gensim import *
from semlib import under
from p_sem import ASSUME
from p_save import evs
from p_frame import zero, nonzero
from p_auth import resultzero
from p_pg import value, BASE, M64
from p_http import errtext
from replies import text

EXPLAIN = {
    "C39": "every loop and path of parse_query_args, the two functions that decode quoted strings, the decoding of \\u characters and the table of parameter numbers; "
           "the conditions under which each piece is taken are evaluated for every byte",
}
SPLIT = "a Postgres query is split into the arguments it spells"
QUOTE = "quoted strings of a Postgres query are decoded"
PARAM = "parameters of a Postgres query are numbered without a gap"
TYPES = "the kind of each argument of a Postgres query is noted"
P0, P1, P2, P3 = (mk("p", i) for i in range(4))
KEEP = ("pmap_insert", "pmap_exists", "pmap_init", "pmap_free", "arg_append_unescape_str", "arg_append_unescape_simplestr", "pmap_grow")
APP = ("args_append", "arg_append_unescape_str", "arg_append_unescape_simplestr")
SP = (9, 10, 11, 12, 13, 32)
CT, CT2 = 1 << 42, 1 << 43
ALL = (0, 1, 9, 10, 11, 12, 13, 31, 32, 33, 34, 35, 36, 37, 39, 40, 42, 47, 48, 57, 58, 59, 60, 64, 65, 68, 69, 70, 92, 95, 97, 101, 102, 117, 122, 127, 128, 160, 255)


def C39(prog, R, tier):
    F = func(prog, "parse_query_args", "postgres.c")
    if F is None:
        R.unknown += 1
    else:
        Q(prog, R, F).all()
    simple(prog, R)
    unescape(prog, R)
    decoding(prog, R)
    table(prog, R)


def name(c):
    return chr(c) if 32 < c < 127 else "byte %d" % c


def envof(p, x, data, extra=()):
    """environment in which x points to the bytes of data (offset -> byte)"""
    env = {x: BASE}
    env.update(extra)

    def mem(t, a):
        n = t.a[2] if len(t.a) > 2 and isinstance(t.a[2], int) else 1
        if a == CT and n == 8:
            return CT2
        if CT2 - 256 <= a <= CT2 + 512 and n == 2:
            c = a - CT2 >> 1
            c = c & 255
            return (0x2000 if c in SP else 0) | (0x800 if 48 <= c <= 57 else 0) | (0x400 if chr(c).isalpha() and c < 128 else 0)
        if n == 1:
            return data.get(a - BASE)
        return None
    env["bytes"] = mem
    return env


class Facts:
    """conditions of a piece that depend on the bytes at a pointer"""

    def __init__(self):
        self.memo = {}

    def of(self, p, x):
        k = (id(p), x)
        if k not in self.memo:
            out = []
            for t in p.facts:
                ws = list(walk(t))
                if x not in ws:
                    continue
                ct = {y for y in ws if y.k == "call" and len(y.a) > 1 and y.a[1] == "__ctype_b_loc"}
                out.append((t, ct))
            self.memo[k] = out
        return self.memo[k]

    def feasible(self, p, x, data, extra=()):
        """do the conditions on these bytes hold: True, False, None"""
        sure = True
        for t, ct in self.of(p, x):
            env = envof(p, x, data, extra)
            for c in ct:
                env[c] = CT
            n = value(t, env)
            if n is None:
                sure = None
            elif not agree(p, t, n):
                return False
        return sure


def agree(p, t, n):
    if t.k == "cmp":
        k = p.truth(t)
        return k is None or bool(n) == k
    from p_pg import width
    lo, hi, ex = p.range(t)
    w = width(t) or 64
    n &= (1 << w) - 1
    s = n - (1 << w) if n >> (w - 1) else n
    return (lo <= s <= hi and s not in ex) or (lo <= n <= hi and n not in ex and lo >= 0)


def ctenv(t, env):
    for y in walk(t):
        if y.k == "call" and len(y.a) > 1 and y.a[1] == "__ctype_b_loc":
            env[y] = CT


class Q:
    def __init__(self, prog, R, F):
        self.prog, self.R, self.F = prog, R, F
        self.J = J(prog, R, F, SPLIT, cut=True, cap=8000, mods=("postgres.c",), keep=KEEP)
        self.f = Facts()

    def all(self):
        J_, R = self.J, self.R
        self.loops = {}
        for p in J_.iters:
            self.loops.setdefault(p.hdr, []).append(p)
        main = {h for h, ps in self.loops.items() if any(e.name in APP for p in ps for e in p.segment())}
        if len(main) != 1:
            R.unknown += 1
            return
        self.M = main.pop()
        pos = set()
        for p in self.loops[self.M]:
            for e in p.segment():
                if e.name == "args_append" and len(e.args) > 2:
                    for a in walk(e.args[1]):
                        if a.k == "phi" and a.a[0] in p.phis:
                            pos.add(a)
        if len(pos) != 1:
            R.unknown += 1
            return
        self.pos = pos.pop()
        self.joined()
        self.pieces(self.pos)
        self.starts()
        if not self.dispatch():
            return
        self.simple()
        self.escaped()
        self.keyword()
        self.param()
        self.tail()
        self.kinds()
        self.ends()

    # -- pieces that begin where a pointer stands
    def cfgtext(self, dst):
        """the error the block a loop is left for reports"""
        S = self.J.S
        seen = 0
        b = S.f.blocks.get(dst)
        while b is not None and seen < 6:
            for I in b.insts:
                if I.op == "call":
                    n = S.callee_name(I)
                    if n in ("snprintf", "parse_seterror"):
                        return n
            T_ = b.insts[-1]
            nx = list(b.succs)
            if len(nx) != 1:
                return "" if any(I.op == "load" and I.ty == "i8" for I in b.insts) else None
            dst = nx[0]
            b = S.f.blocks.get(dst)
            seen += 1
        return None

    def pieces(self, x):
        """[(what, path)] of pieces that test bytes at x"""
        out = []
        for h, ps in self.loops.items():
            for p in ps:
                if self.f.of(p, x):
                    out.append((("iter", h), p))
        for p in self.J.cuts:
            if self.f.of(p, x):
                out.append((("cut", p.I, p.hdr), p))
        for p in self.J.enters:
            if self.f.of(p, x):
                out.append((("enter", p.hdr), p))
        for p in self.J.paths:
            if self.f.of(p, x):
                out.append((("path",), p))
        return out

    def owner(self, x):
        for h, ps in self.loops.items():
            if ps and x.a[0] in ps[0].phis:
                return h
        return None

    def delta(self, p, t, x):
        d = lsub(t, x) if t is not None else None
        return d[0] if d is not None and not d[1] else None

    def inloop(self, h, I):
        b = self.J.S.f.loops.get(h)
        return b is not None and any(I in self.J.S.f.blocks[k].insts for k in b)

    def starts(self):
        """the loop over the query begins with its first byte (behind white space)"""
        for p in self.J.enters:
            if p.hdr != self.M:
                continue
            b = p.phis.get(self.pos.a[0], (None, None))[1]
            if b is None:
                continue
            b = strip(b)
            ok = same(b, P0)
            if b.k == "phi":
                h = self.owner(b)
                e = [q.phis[b.a[0]][1] for q in self.J.enters if q.hdr == h and b.a[0] in q.phis]
                ok = bool(e) and all(same(x, P0) for x in e)
                for c in ALL:
                    it = self.outcome(b, {0: c}, h)
                    self.J.check(None if it is None else (it == 1) == (c in SP), "begin", p, "does not begin with the first word of the query (%s)" % name(c))
            self.J.check(ok if ok or b.k in ("off", "p") else None, "begin", p, "does not begin with the first byte of the query")

    def outcome(self, x, data, h):
        """what the loop of pointer x does at these bytes: bytes moved (iteration), 0 (left), None unknown"""
        res = set()
        for w, p in self.cached(x):
            k = self.f.feasible(p, x, data)
            if k is False:
                continue
            if w == ("iter", h):
                n = p.phis.get(x.a[0], (None, None))[1]
                d = self.delta(p, n, x)
                res.add((d, k))
            elif w[0] == "cut" and self.inloop(h, w[1]):
                res.add((0, k))
            elif w[0] in ("enter", "path", "cut"):
                continue
        if len({d for d, k in res}) == 1 and any(k for d, k in res):
            return res.pop()[0]
        return None

    def cached(self, x):
        if not hasattr(self, "pc"):
            self.pc = {}
        if x not in self.pc:
            seen = {}
            for w, p in self.pieces(x):
                k = (w, tuple(sorted((id(t), str(p.range(t)) if t.k != "cmp" else p.truth(t)) for t, c in self.f.of(p, x))), tuple((i, b) for i, (a, b) in p.phis.items()),
                     tuple((e.name, tuple(e.args)) for e in (p.segment() if p.kind == "iter" else ())))
                seen.setdefault(k, (w, p))
            self.pc[x] = list(seen.values())
        return self.pc[x]

    # -- what a byte begins
    def begin(self, data):
        """{what: [paths]} of what begins at these bytes"""
        out, sure = {}, True
        for w, p in self.cached(self.pos):
            k = self.f.feasible(p, self.pos, data)
            if k is False:
                continue
            if w[0] == "enter" and w[1] != self.M:
                x = self.ptr(p)
                if x is None:
                    continue
                key = ("enter", w[1], self.delta(p, p.phis[x][1], self.pos))
            elif w[0] == "iter" and w[1] == self.M:
                n = p.phis.get(self.pos.a[0], (None, None))[1]
                app = [e for e in p.segment() if e.name in APP]
                if not any(y is self.pos for y in walk(n)) and not any(e.name == "strtol" for e in p.segment()):
                    continue        # ends with another pointer: begun elsewhere
                key = ("iter", bool(app), self.delta(p, n, self.pos))
            elif w[0] == "cut" and self.inloop(self.M, w[1]) and not any(self.inloop(h, w[1]) for h in self.loops if h != self.M):
                key = ("error",) if self.cfgtext(w[2]) else ("end",)
            else:
                continue
            out.setdefault(key, []).append((p, k))
        return out

    def ptr(self, p):
        """the phi of an entered loop that is entered with a pointer near pos"""
        c = [i for i, (a, b) in p.phis.items() if b is not None and self.delta(p, b, self.pos) is not None]
        return c[0] if len(c) == 1 else None

    def dispatch(self):
        J_ = self.J
        second = (0, 32, 39, 47, 48, 53, 57, 58, 97)
        self.S = self.E = self.K = None
        want = {}
        for c in ALL:
            for d in second if c in (36, 69, 101, 39, 97) else (97, 39):
                data = {0: c, 1: d}
                o = self.begin(data)
                ks = set(o)
                if c in (0, 59):
                    self.one(o, ks, {("end",)}, c, "is taken for the end of a command" if 0 else "does not end the command at %s" % name(c))
                elif c == 34:
                    self.one(o, ks, {("error",)}, c, "does not refuse an identifier in double quotes")
                elif c == 36 and 48 <= d <= 57:
                    self.one(o, ks, None, c, "does not take $%s for a parameter" % chr(d), lambda k: k[0] == "iter" and k[1] or k == ("error",) and len(ks) > 1)
                elif c == 36:
                    self.one(o, ks, {("error",)}, c, "does not refuse $ without a number (before %s)" % name(d))
                elif c in SP:
                    self.one(o, ks, {("iter", False, 1)}, c, "does not skip white space (%s)" % name(c))
                elif c == 39:
                    h = [k for k in ks if k[0] == "enter"]
                    if len(h) == 1 and len(ks) == 1:
                        self.S = h[0][1]
                        self.one(o, ks, {("enter", self.S, 1)}, c, "does not begin a string behind its quote")
                    else:
                        self.one(o, ks, None, c, "does not begin a string at '", lambda k: k[0] == "enter")
                elif c in (69, 101) and d == 39:
                    h = [k for k in ks if k[0] == "enter"]
                    if len(h) == 1 and len(ks) == 1:
                        self.E = h[0][1]
                        self.one(o, ks, {("enter", self.E, 2)}, c, "does not begin a string behind %s'" % chr(c))
                    else:
                        self.one(o, ks, None, c, "does not begin a string at %s'" % chr(c), lambda k: k[0] == "enter")
                else:
                    h = [k for k in ks if k[0] == "enter"]
                    if len(h) == 1 and len(ks) == 1:
                        if self.K is None:
                            self.K = h[0][1]
                        self.one(o, ks, {("enter", self.K, 0)}, c, "does not begin a word at %s" % name(c))
                    else:
                        self.one(o, ks, None, c, "does not begin a word at %s" % name(c), lambda k: k[0] == "enter")
        if None in (self.S, self.E, self.K):
            self.R.unknown += 1
            return False
        J_.check(len({self.S, self.E, self.K}) == 3 or None, "strings", J_.iters[0], "")
        return True

    def one(self, o, ks, want, c, msg, pred=None):
        """only the expected may happen"""
        J_ = self.J
        good = [k for k in ks if (k in want if want is not None else pred(k))]
        bad = [k for k in ks if k not in good]
        for k in bad:
            p = [q for q, s in o[k] if s and not q.joined]
            J_.check(False if p else None, "byte %d" % c, p[0] if p else o[k][0][0], msg)
        if good:
            J_.check(True, "byte %d" % c, o[good[0]][0][0], msg)
        elif not ks:
            self.R.unknown += 1

    def loopptr(self, h, d):
        """the pointer phi of a loop entered from pos + d"""
        r = set()
        for p in self.J.enters:
            if p.hdr == h:
                for i, (a, b) in p.phis.items():
                    if b is not None and self.delta(p, b, self.pos) == d:
                        r.add(strip(a) if a is not None else None)
        ids = {i for p in self.J.enters if p.hdr == h for i, (a, b) in p.phis.items() if b is not None and self.delta(p, b, self.pos) == d}
        for p in self.loops.get(h, ()):
            for i in ids:
                return strip(p.phis[i][0])
        return None

    def flag(self, h, x):
        """the other phi of the loop, if there is just one"""
        for p in self.loops.get(h, ()):
            o = [strip(a) for i, (a, b) in p.phis.items() if i != x.a[0]]
            return o[0] if len(o) == 1 else None

    def strings(self, h, d, what):
        x = self.loopptr(h, d)
        if x is None:
            self.R.unknown += 1
            return None, None
        return x, self.flag(h, x)

    # -- 'text'
    def simple(self):
        x, fl = self.strings(self.S, 1, "string")
        if x is None:
            return
        J_ = self.J
        p0 = self.loops[self.S][0]
        for c in ALL:
            for d in (0, 32, 39, 97) if c in (39, 97, 92) else (97,):
                o = self.outcome(x, {0: c, 1: d, -1: 97}, self.S)
                want = 0 if c == 0 or (c == 39 and d != 39) else 2 if c == 39 else 1
                self.J.check(None if o is None else o == want, "string at %d" % c, p0,
                             {0: "does not end a string at %s%s" % (name(c), name(d)), 2: "does not take '' for a quote inside a string", 1: "does not take %s as a byte of a string" % name(c)}[want], rule=QUOTE)
        if fl is not None:
            for p in self.loops[self.S]:
                n = p.phis[fl.a[0]][1]
                dd = self.f.feasible(p, x, {0: 39, 1: 39})
                if dd and self.f.of(p, x):
                    v = strip(n)
                    self.J.check((v.a[0] != 0) if isc(v) else None if v is not fl else False, "doubled", p, "does not remember that a string holds a doubled quote", rule=QUOTE)
            for p in self.J.enters:
                if p.hdr == self.S and fl.a[0] in p.phis and p.phis[fl.a[0]][1] is not None:
                    pass
        else:
            self.undecoded(self.S, x, "arg_append_unescape_simplestr", "string")
        self.append(self.S, x, fl, "arg_append_unescape_simplestr", "string")

    def undecoded(self, h, x, un, what):
        """nothing is remembered about the escapes of a string: it has to be decoded always"""
        for p in self.loops[self.M]:
            ap = [e for e in p.segment() if e.name in APP]
            if len(ap) == 1 and any(y is x for e in ap for a in e.args[1:] for y in walk(a)) and ap[0].name == "args_append":
                other = [e for e in p.segment() if e.name not in KNOWN]
                hs = [q for q in self.loops[h] if len(q.phis) > 1]
                self.J.check(None if other or hs else False, what + " decoded", p, "keeps the escapes of a string", ap[0], rule=QUOTE)

    def append(self, h, x, fl, un, what):
        """what happens behind the loop: the argument is the text between the quotes"""
        for p in self.loops[self.M]:
            ap = [e for e in p.segment() if e.name in APP]
            if len(ap) != 1 or not any(y is x for e in ap for a in e.args[1:] for y in walk(a)):
                continue
            e = ap[0]
            s = strip(e.args[1])
            self.J.check(self.begun(h, s, x, what), what + " start", p, "does not begin the argument behind the quote", e, rule=QUOTE)
            d = lsub(e.args[2], mk("bin", "sub", x, s))
            self.J.check(self.length(e, x, s, d, (39,)), what + " end", p, "does not end the argument before the quote", e, rule=QUOTE)
            self.J.check(e.name in ("args_append", un), what + " decoded", p, "decodes a string as one of the other kind", e, rule=QUOTE)
            if e.name == "args_append" and fl is not None:
                r = p.range(fl)
                self.J.check(None if r is None else True if zero(r) else False if nonzero(r) or r == (None,) else None if self.f.of(p, fl) == [] else False, what + " decoded", p,
                             "keeps the escapes of a string", e, rule=QUOTE)
                z = strip(e.args[3])
                self.J.check(None if not isc(z) else True, what + " kept", p, "", e)
            n = p.phis.get(self.pos.a[0], (None, None))[1]
            dd = self.delta(p, n, x)
            self.J.check(None if dd is None else dd == 1, what + " next", p, "goes on %s bytes after the quote that ends a string" % dd, e)
            bad = [c for c in (0, 97, 92) if self.f.feasible(p, x, {0: c, 1: 97, -1: 97}) is True]
            if self.f.of(p, x):
                self.J.check(not bad, what + " closed", p, "takes a string without its end", e)
        self.unterminated(h, x, what)

    def length(self, e, x, s, d, ends):
        """is the length of an argument the distance from its begin to the place reached"""
        if d is not None and not d[1]:
            return d == (0, {})
        for c in ends:
            n = value(e.args[2], envof(None, x, {0: c, -1: 97, 1: 97}, {s: BASE - 5}))
            if n is not None and n != 5:
                return False
        return None

    def unterminated(self, h, x, what):
        """at the end of the text the string is refused"""
        done = False
        for w, p in self.cached(x):
            if w[0] == "cut" and not self.inloop(h, w[1]) and self.inloop(self.M, w[1]) and self.f.feasible(p, x, {0: 0, 1: 97, -1: 97}):
                k = self.cfgtext(w[2])
                if k or w[2] is not None:
                    self.J.check(True if k else None, what + " unterminated", p, "")
                done = done or bool(k)

    def begun(self, h, s, x, what):
        """is a term the place where the loop began"""
        if s.k == "ssa" or not any(y is x for y in walk(s)):
            ok = None
            for q in self.J.enters:
                if q.hdr == h:
                    v = q.st.env.get(s.a[0]) if s.k == "ssa" else s
                    b = q.phis[x.a[0]][1]
                    if v is None or b is None:
                        continue
                    if same(v, b):
                        ok = True if ok is None else ok
                    elif lsub(v, b) is not None and not lsub(v, b)[1]:
                        ok = False
            return ok
        return None if s.k not in ("phi", "off") else False if any(y is x for y in walk(s)) else None

    # -- E'text'
    def escaped(self):
        x, fl = self.strings(self.E, 2, "escaped string")
        if x is None:
            return
        p0 = self.loops[self.E][0]
        inner = None
        for p in self.J.enters:
            if p.hdr not in (self.M, self.S, self.K) and p.hdr in self.loops and self.f.of(p, x) and self.f.feasible(p, x, {0: 39, 1: 97, -1: 97}) and p.hdr != self.E:
                b = self.J.S.f.loops.get(p.hdr)
                e = self.J.S.f.loops.get(self.E)
                if b is not None and e is not None and set(b) < set(e):
                    inner = p.hdr
        skip = None
        for c in ALL:
            o = self.outcome(x, {0: c, 1: 97, -1: 97}, self.E)
            if c == 92:
                skip = o
                self.J.check(None if o is None else o == (1 if inner is not None else 2), "escaped at 92", p0, "goes on %s bytes after a backslash" % o, rule=QUOTE)
            elif c == 39 and inner is None:
                self.J.check(None if o is None else o == 0, "escaped at 39", p0, "does not end an escaped string at its quote", rule=QUOTE)
            elif c != 39:
                self.J.check(None if o is None else o == (0 if c == 0 else 1), "escaped at %d" % c, p0, "moves by %s bytes at %s in an escaped string" % (o, name(c)), rule=QUOTE)
        if fl is not None:
            for p in self.loops[self.E]:
                if self.f.of(p, x) and self.f.feasible(p, x, {0: 92, 1: 97, -1: 97}) and not self.f.feasible(p, x, {0: 97, 1: 97, -1: 97}):
                    v = strip(p.phis[fl.a[0]][1])
                    e = envof(p, x, {0: 92, 1: 110, -1: 97}, {y: BASE for y in walk(v) if y.k == "ssa" and self.begun(self.E, y, x, "")})
                    self.J.check((v.a[0] != 0) if isc(v) else False if v is fl or value(v, e) == 0 else None, "backslash", p, "does not remember that a string holds a backslash", rule=QUOTE)
        if inner is not None:
            self.parity(inner, x)
        self.append(self.E, x, fl, "arg_append_unescape_str", "escaped string")

    def parity(self, h, x):
        """the backslashes before a quote are counted, an even number ends the string"""
        ps = self.loops[h]
        ks = [strip(a) for i, (a, b) in ps[0].phis.items()]
        if len(ks) != 1:
            self.R.unknown += 1
            return
        k = ks[0]
        ent = {strip(p.phis[k.a[0]][1]) for p in self.J.enters if p.hdr == h and p.phis.get(k.a[0], (0, None))[1] is not None}
        z = [e.a[0] for e in ent if isc(e)]
        if len(ent) != 1 or len(z) != 1:
            self.R.unknown += 1
            return
        for p in ps:
            if not self.f.of(p, x):
                continue
            d = self.delta(p, p.phis[k.a[0]][1], k)
            self.J.check(None if d is None else d == 1, "backslashes", p, "counts a backslash as %s" % d, rule=QUOTE)
            for j in range(3):
                for c in (92, 97, 39):
                    data = {-i: 97 if c == 92 else 92 for i in range(j + 2, j + 4)}
                    data.update({-i: 92 for i in range(1, j + 1)})
                    data[-j - 1] = c
                    data[0] = 39
                    data[1] = 97
                    r = self.f.feasible(p, x, data, [(k, z[0] + j)])
                    if r is not None:
                        self.J.check(r == (c == 92) or (None if p.joined else False), "backslashes", p, "counts %s as a backslash" % name(c) if r else "does not count a backslash", rule=QUOTE)
        for n in range(4):
            out = set()
            for q in self.loops[self.E]:
                if not self.f.of(q, x) and self.parityof(q, k, n):
                    out.add(("goes on", self.delta(q, q.phis[x.a[0]][1], x)))
            for q in self.J.cuts:
                if self.inloop(self.E, q.I) and q.hdr not in self.J.S.f.loops[self.E] and not self.f.of(q, x) and self.parityof(q, k, n):
                    out.add(("ends", 0))
            if len(out) == 1:
                o = next(iter(out))
                self.J.check(o == (("ends", 0) if n % 2 == 0 else ("goes on", 1)), "parity", self.loops[self.E][0],
                             "%s at a quote behind %d backslashes" % ("ends an escaped string" if o[0] == "ends" else "goes on %s bytes" % o[1], n), rule=QUOTE)
            else:
                self.R.unknown += 1

    def parityof(self, q, k, n):
        for t in q.facts:
            ws = list(walk(t))
            if k in ws and not any(y.k == "ld" for y in ws):
                v = value(t, {k: n})
                if v is None:
                    return False
                if not agree(q, t, v):
                    return False
        return any(k in set(walk(t)) and not any(y.k == "ld" for y in walk(t)) for t in q.facts)

    # -- words
    def keyword(self):
        x, _ = self.strings(self.K, 0, "word")
        if x is None:
            return
        p0 = self.loops[self.K][0]
        for c in ALL:
            o = self.outcome(x, {0: c, 1: 97}, self.K)
            want = 0 if c in SP or c in (0, 34, 36, 39, 59) else 1
            self.J.check(None if o is None else o == want, "word at %d" % c, p0, "%s a word at %s" % ("does not end" if want == 0 else "ends", name(c)))
        # behind the word: the argument, then white space
        done = False
        for L in (self.J.enters, self.loops[self.M]):
            for p in L:
                ap = [e for e in (p.segment() if p.kind == "iter" else p.ev) if e.name in APP]
                if len(ap) != 1 or not any(y is x for a in ap[0].args[1:] for y in walk(a)):
                    continue
                e = ap[0]
                s = strip(e.args[1])
                done = True
                self.J.check(same(s, self.pos) or self.begun(self.K, s, x, "word"), "word start", p, "does not begin the argument with the first byte of the word", e)
                d = lsub(e.args[2], mk("bin", "sub", x, s))
                self.J.check(self.length(e, x, s, d, (0, 32, 59, 36, 39)), "word end", p, "does not end the argument with the word", e)
                self.J.check(e.name == "args_append", "word kept", p, "decodes a word", e)
                if p.kind != "iter":
                    self.spaces(p, x)
                else:
                    n = p.phis.get(self.pos.a[0], (None, None))[1]
                    dd = self.delta(p, n, x)
                    self.J.check(None if dd is None else dd == 0, "word next", p, "goes on %s bytes after the end of a word" % dd, e)
        if not done:
            self.R.unknown += 1

    def spaces(self, p, x):
        """the white space behind a word is skipped"""
        ids = [i for i, (a, b) in p.phis.items() if b is not None and self.delta(p, b, x) is not None]
        if len(ids) != 1 or p.hdr not in self.loops:
            self.R.unknown += 1
            return
        d = self.delta(p, p.phis[ids[0]][1], x)
        self.J.check(d == 0, "word next", p, "goes on %s bytes after the end of a word" % d)
        y = strip(self.loops[p.hdr][0].phis[ids[0]][0])
        if getattr(self, "spdone", None) is y:
            return
        self.spdone = y
        for c in ALL:
            o = self.outcome(y, {0: c, 1: 97}, p.hdr)
            self.J.check(None if o is None else o == (1 if c in SP else 0), "space at %d" % c, p, "%s behind a word" % ("skips %s" % name(c) if o else "does not skip white space"))
        for q in self.loops[self.M]:
            n = q.phis.get(self.pos.a[0], (None, None))[1]
            if n is not None and any(z is y for z in walk(n)):
                dd = self.delta(q, n, y)
                self.J.check(None if dd is None else dd == 0, "space next", q, "goes on %s bytes after the white space" % dd)

    # -- $n
    def param(self):
        for p in self.loops[self.M]:
            st = [e for e in p.segment() if e.name == "strtol"]
            ap = [e for e in p.segment() if e.name in APP]
            if not st or not ap:
                continue
            s, e = st[-1], ap[0]
            J_ = self.J
            d = self.delta(p, s.args[0], self.pos)
            J_.check(None if d is None else d == 1, "number", p, "reads the number of a parameter %s bytes after the $" % d, s, rule=PARAM)
            J_.check(None if not isc(strip(s.args[2])) else strip(s.args[2]).a[0] == 10, "number", p, "does not read the number of a parameter as decimal", s, rule=PARAM)
            for n in (0, 1, 2, 9, 255, 256, 65535, 65536, 65537, 1 << 32, M64 >> 1):
                ok = True
                for t in p.facts:
                    if any(y is s.res for y in walk(t)):
                        v = value(t, {s.res: n & M64})
                        if v is None:
                            ok = None
                        elif not agree(p, t, v):
                            ok = False
                            break
                if 1 <= n <= 65535:
                    if ok is False:
                        self.refuse = getattr(self, "refuse", set()) | {n}
                    elif ok:
                        self.accept = getattr(self, "accept", set()) | {n}
                else:
                    J_.check(None if ok is None else not ok, "range", p, "takes $%d for a parameter" % n, s, rule=PARAM)
            ins = [x for x in p.segment() if x.name == "pmap_insert"]
            J_.check(bool(ins) or (None if any(x.name not in KNOWN for x in p.segment()) else False), "noted", p, "does not note a parameter", s, rule=PARAM)
            for x in ins:
                v = strip(x.args[1])
                J_.check(v is strip(s.res) or same(v, s.res) or (None if any(y is s.res for y in walk(v)) and not lsub(v, s.res)[0] else False), "noted", p, "notes another parameter than the one named", x, rule=PARAM)
            J_.check(e.name == "args_append" and same(e.args[1], self.pos) or (None if e.name != "args_append" else False), "text", p, "does not keep $ and number as the argument", e, rule=PARAM)
            end = p.phis.get(self.pos.a[0], (None, None))[1]
            l = lsub(e.args[2], mk("bin", "sub", end, self.pos)) if end is not None else None
            J_.check(None if l is None else l == (0, {}) or (None if l[1] else False), "length", p, "goes on at another place than the end of the parameter", e, rule=PARAM)
            if end is not None:
                b = strip(end)
                loc = b.k == "ld" and same(b.a[1], s.args[1])
                dl = lsub(end, b)
                J_.check(loc or (False if not any(y.k == "ld" and same(y.a[1], s.args[1]) for y in walk(end)) and any(y is self.pos for y in walk(end)) else False if dl is not None and loc and dl[0] else None),
                         "behind", p, "does not go on behind the number", s, rule=PARAM)
        miss = getattr(self, "refuse", set()) - getattr(self, "accept", set())
        if getattr(self, "accept", None):
            self.J.check(not miss, "range", self.J.iters[0], "does not take $%s for a parameter" % (min(miss) if miss else 0), rule=PARAM)

    # -- behind ';'
    def tail(self):
        for h in self.loops:
            if h == self.M:
                continue
            x = None
            for p in self.J.enters:
                if p.hdr == h and h not in (self.S, self.E, self.K):
                    for i, (a, b) in p.phis.items():
                        if b is not None and strip(b) is self.pos and not any(e.name in APP for e in p.ev):
                            x = strip(self.loops[h][0].phis[i][0])
            if x is None or self.inloop(self.M, self.J.S.f.blocks[h].insts[-1]):
                continue
            p0 = self.loops[h][0]
            for c in (0, 34, 36, 39, 58, 59, 60, 65, 97, 122):
                o = self.outcome(x, {0: c, 1: 97}, h)
                self.J.check(None if o is None else o == (1 if c == 59 else 0), "tail at %d" % c, p0, "%s behind the ; that ends a query" % ("accepts %s" % name(c) if o else "does not accept another ;"))
                if o == 0 and c not in SP:
                    for w, p in self.cached(x):
                        if w[0] == "cut" and self.inloop(h, w[1]) and self.f.feasible(p, x, {0: c, 1: 97}):
                            k = self.cfgtext(w[2])
                            if k == "":     # the block behind the loop looks at the byte again
                                continue
                            self.J.check(bool(k) == (c != 0) or (None if p.joined else False), "tail at %d" % c, p,
                                         "refuses a query at its end" if k else "carries out a query with %s behind its end" % name(c))

    # -- kinds of arguments
    def joined(self):
        self.join = None
        for p in self.loops[self.M]:
            for e in p.segment():
                if e.name == "buf_append_byte" and same(e.args[0], P3):
                    for y in walk(e.args[1]):
                        if y.k == "phi" and y.a[0] in p.phis:
                            self.join = y

    def kinds(self):
        J_ = self.J
        if self.join is None:
            self.R.unknown += 1
            return
        j = self.join
        for p in list(self.loops[self.M]) + list(J_.enters):
            seg = p.segment() if p.kind == "iter" else p.ev
            ap = [e for e in seg if e.name in APP]
            tb = [e for e in seg if e.name == "buf_append_byte" and same(e.args[0], P3)]
            if len(ap) != 1:
                continue
            r = p.range(P3)
            if zero(r):
                J_.check(not tb, "none", p, "notes the kind of an argument nobody asked for", tb[0] if tb else None, rule=TYPES)
                continue
            if not nonzero(r):
                continue
            J_.check(len(tb) == 1 or (None if any(e.name not in KNOWN for e in seg) else False), "noted", p, "does not note the kind of an argument", ap[0], rule=TYPES)
            prm = any(e.name == "pmap_insert" for e in seg)
            for e in tb:
                got = [value(e.args[1], {j: k}) for k in (0, 1)]
                if None in got:
                    self.R.unknown += 1
                    continue
                got = [g & 255 for g in got]
                want = [80, 81] if prm else [65, 66]
                for k in (0, 1):
                    f = [t for t in p.facts if t is j]
                    if f and not agree(p, f[0], k):
                        continue
                    J_.check(got[k] == want[k], "kind", p, "notes %s for %s%s" % (chr(got[k]), "a parameter" if prm else "an argument", " that joins the one before" if k else ""), e, rule=TYPES)
            if p.kind == "iter":
                self.next(p, ap[0], p.phis[j.a[0]][1], p.phis[self.pos.a[0]][1], p)
            else:
                # the word: decided before the white space
                for q in self.loops[self.M]:
                    n = strip(q.phis[j.a[0]][1])
                    if n.k == "ssa":
                        v = p.st.env.get(n.a[0])
                        x = self.loopptr(self.K, 0)
                        if v is not None and x is not None:
                            self.next(p, ap[0], v, x, p)

    def next(self, p, e, v, end, q):
        """the note whether something follows directly, for each byte that may follow"""
        if v is None or end is None:
            return
        root = None
        for y in walk(end):
            if y.k == "phi" or (y.k == "ld" and y is strip(end)):
                root = y
                break
        if root is None:
            return
        d = self.delta(p, end, root)
        if d is None:
            return
        for c in (0, 9, 10, 32, 36, 39, 65, 97, 59, 128):
            data = {d: c, -1: 97}
            if d == 1:
                data[0] = 39
            env = envof(p, root, data)
            ok = True
            for t in p.facts:
                ws = list(walk(t))
                if root in ws and t is not root:
                    e2 = dict(env)
                    ctenv(t, e2)
                    n = value(t, e2)
                    if n is None:
                        ok = None
                    elif not agree(p, t, n):
                        ok = False
                        break
            if not ok:
                continue
            ctenv(v, env)
            if v.k == "not":
                continue
            n = value(v, env)
            if n is None:
                n = notof(v, env)
            if n is None:
                self.R.unknown += 1
                continue
            self.J.check(bool(n & 1) == (c != 0 and c not in SP), "joined", p, "notes that %s follows directly" % name(c) if n & 1 else "does not note that %s follows directly" % name(c), e, rule=TYPES)

    # -- the result
    def ends(self):
        J_ = self.J
        prog = self.prog
        for p in J_.paths:
            r = p.range(p.ret)
            t = [e for e in p.ev if e.name in ("snprintf", "parse_seterror")]
            other = [e for e in p.ev if e.name not in KNOWN]
            if t:
                J_.check(zero(r) if zero(r) or nonzero(r) else None, "refused", p, "reports an error and goes on", t[0])
            n = [e for e in p.ev if e.name == "=" and same(e.args[0], P2)]
            J_.check(bool(n) or (None if other else False), "count", p, "does not tell how many parameters there are", rule=PARAM)
            for e in n:
                f = ldfield(e.args[1], prog)
                J_.check(f == ("struct.pmap", "count") or (None if f is None and not isc(e.args[1]) else False), "count", p, "tells another number of parameters", e, rule=PARAM)
            b = [e for e in p.ev if e.name == "buf_append_byte" and same(e.args[0], P3)]
            z = p.range(P3)
            if zero(z):
                J_.check(not b, "end", p, "", rule=TYPES)
            elif nonzero(z):
                J_.check(bool(b) and isc(strip(b[-1].args[1])) and strip(b[-1].args[1]).a[0] & 255 == 0 or (None if other else False), "end", p, "does not end the kinds with a zero byte", rule=TYPES)
            J_.check(bool(evs(p, "pmap_free")) or (None if other else False), "released", p, "does not release the table of parameters", rule=PARAM)
            for e in evs(p, "pmap_exists"):
                if resultzero(p, e.res):
                    J_.check(zero(r) or (None if not nonzero(r) else False), "missing", p, "accepts a query with a missing parameter", e, rule=PARAM)
        # the check of the parameters
        for h, ps in self.loops.items():
            for p in ps:
                if any(e.name == "pmap_exists" for e in p.segment()):
                    for q in J_.enters:
                        t = [e for e in q.ev if e.name in ("snprintf", "parse_seterror")]
                        if q.hdr == h and t:
                            J_.check(False, "refused", q, "reports an error and goes on", t[0])
                for e in [e for e in p.segment() if e.name == "pmap_exists"]:
                    i = [strip(a) for k, (a, b) in p.phis.items()]
                    if len(i) != 1:
                        self.R.unknown += 1
                        continue
                    i = i[0]
                    en = {strip(q.phis[i.a[0]][1]) for q in J_.enters if q.hdr == h and q.phis.get(i.a[0], (0, None))[1] is not None}
                    if len(en) != 1 or not isc(next(iter(en))):
                        self.R.unknown += 1
                        continue
                    first = next(iter(en)).a[0]
                    d = self.delta(p, strip(e.args[1]), i)
                    J_.check(None if d is None else first + d == 1, "from 1", p, "begins to look for parameters at $%s" % (first + (d or 0)), e, rule=PARAM)
                    J_.check(self.delta(p, p.phis[i.a[0]][1], i) == 1 or None, "each", p, "", e, rule=PARAM)
                    J_.check(not resultzero(p, e.res), "missing", p, "goes on behind a missing parameter", e, rule=PARAM)
                    for t in p.facts:
                        ws = [y for y in walk(t) if y.k == "ld" and ldfield(y, prog) == ("struct.pmap", "count")]
                        if t.k == "cmp" and ws and i in set(walk(t)):
                            for n in (1, 3):
                                lastok = [k for k in range(first, first + n + 2) if bool(value(t, {i: k, ws[0]: n})) == p.truth(t)]
                                if value(t, {i: first, ws[0]: n}) is None:
                                    self.R.unknown += 1
                                    continue
                                J_.check(lastok == list(range(first, first + n)), "all", p, "looks for %d of %d parameters" % (len(lastok), n), e, rule=PARAM)


def notof(v, env):
    """value of a negated condition"""
    if v.k == "not":
        n = value(v.a[0], env)
        if n is None:
            n = notof(v.a[0], env)
        return None if n is None else not n
    if v.k == "cast":
        return notof(v.a[1], env)
    return None


KNOWN = {"=", "=L", "L", "X", "snprintf", "parse_seterror", "strtol", "__ctype_b_loc", "buf_append_byte", "args_append", "arg_append_unescape_str", "arg_append_unescape_simplestr",
         "pmap_insert", "pmap_exists", "pmap_init", "pmap_free", "llvm.threadlocal.address.p0", "memcpy", "xfree", "xmalloc", "__assert_fail"}


def tail(J_, name_):
    """what the decoded bytes become: an argument of its own"""
    for p in J_.paths:
        if p.joined:
            continue
        ap = evs(p, "args_append")
        other = [e for e in p.ev if e.name not in KNOWN]
        if len(ap) != 1:
            J_.check(None if other or len(ap) else False, "argument", p, "%s adds no argument" % name_)
            continue
        a = ap[0].args
        new = strip(a[1])
        J_.check(same(a[0], P0), "argument", p, "", ap[0]) if same(a[0], P0) else None
        J_.check((strip(a[3]).a[0] & 1) == 0 if isc(strip(a[3])) else None, "kept", p, "the decoded argument points at memory that is released", ap[0])
        fr = [e for e in evs(p, "xfree") if same(e.args[0], new)]
        J_.check((p.ev.index(ap[0]) < p.ev.index(fr[0])) if fr else (None if other or evs(p, "xfree") else False), "released", p, "the decoded bytes are not released after use", ap[0])
        J_.check(False if same(a[2], P2) else None if strip(a[2]).k != "phi" else True, "length", p, "keeps the length of the undecoded string", ap[0])
    return {strip(e.args[2]) for p in J_.paths for e in evs(p, "args_append")}


class Loop:
    """the loop that reads a quoted string byte by byte"""

    def __init__(self, prog, R, name_, **kw):
        self.R, self.ok, self.name = R, False, name_
        F = func(prog, name_, "postgres.c")
        if F is None:
            R.unknown += 1
            return
        self.J = J_ = J(prog, R, F, QUOTE, cut=True, cap=8000, mods=("postgres.c",), **kw)
        out = [t for t in tail(J_, name_) if t.k == "phi"]
        if len(set(out)) != 1:
            R.unknown += 1
            return
        self.out = out[0]
        self.H = None
        ins = {}
        for p in J_.iters:
            for t in p.facts:
                for y in walk(t):
                    if y.k == "ld" and P1 in set(walk(y.a[1])):
                        for z in walk(y.a[1]):
                            if z.k == "phi" and z.a[0] in p.phis and self.out.a[0] in p.phis:
                                ins.setdefault(p.hdr, set()).add(z)
        if len(ins) != 1 or len(next(iter(ins.values()))) != 1:
            R.unknown += 1
            return
        self.H = next(iter(ins))
        self.inp = next(iter(ins[self.H]))
        self.others = [i for p in J_.iters if p.hdr == self.H for i in p.phis if i not in (self.out.a[0], self.inp.a[0])]
        for q in J_.enters:
            if q.hdr == self.H:
                for t, w in ((self.out, "writes"), (self.inp, "reads")):
                    v = q.phis.get(t.a[0], (0, None))[1]
                    if v is not None and isc(strip(v)):
                        J_.check(strip(v).a[0] == 0, "from the start", q, "%s a quoted string from byte %d on" % (w, strip(v).a[0]))
                for i in q.phis:
                    v = q.phis[i][1]
                    if i in self.others and v is not None and P2 in set(walk(v)) and set(y.k for y in walk(v)) <= {"p", "bin", "c", "cast"}:
                        n = value(v, {P2: 9})
                        J_.check(None if n is None else n == 9, "whole", q, "takes a string of 9 bytes for one of %s" % n)
        self.ok = True

    I, O, NEW = 3, 2, 1 << 45

    def env(self, p, data, n):
        """environment of one turn: data are the bytes still to be read, n of them belong to the string"""
        e = envof(p, P1, {self.I + k: c for k, c in enumerate(data)}, {P2: self.I + n, self.inp: self.I, self.out: self.O})
        for i in self.others:
            for t in (y for f in p.facts for y in walk(f)):
                if t.k == "phi" and t.a[0] == i:
                    e[t] = self.I + n
        mem = e["bytes"]
        for ev in p.ev:
            if ev.name == "xmalloc" and ev.res is not None:
                e[ev.res] = self.NEW
        for t in {y for ev in p.ev for a in ev.args if isinstance(a, T) for y in walk(a) if y.k == "new"}:
            e[t] = self.NEW
        for ev in p.ev:
            if ev.name == "decode_hex":
                a = value(ev.args[0], e)
                if a is None:
                    continue
                bs = [data[a - BASE - self.I + k] if 0 <= a - BASE - self.I + k < len(data) else None for k in range(4)]
                if None not in bs:
                    e[ev.res] = hexval(bs)
            elif ev.name == "decode_codepoint":
                a, b = (value(x, e) for x in ev.args[:2])
                if a is not None and b is not None:
                    e[ev.res] = pair(a, b)
        e["bytes"] = mem
        return e

    def feasible(self, p, env):
        sure = True
        roots = {P1, P2, self.inp} | {ev.res for ev in p.ev if ev.name in ("decode_hex", "decode_codepoint") and ev.res is not None}
        for t in p.facts:
            if not roots & set(walk(t)):
                continue
            n = value(t, env)
            if n is None:
                sure = None
            elif not agree(p, t, n):
                return False
        return sure

    def turn(self, data, n):
        """paths of one turn that these bytes take"""
        if not hasattr(self, "turns"):
            self.turns, seen = [], set()
            for p in self.J.iters + self.J.cuts + self.J.enters:
                if p.joined or (p.hdr != self.H if p.kind == "iter" else p.kind == "enter" and p.hdr == self.H):
                    continue
                if p.kind == "cut" and any(e.name == "encode_codepoint" for e in p.ev):
                    continue
                if not any(self.inp in set(walk(t)) for t in p.facts):
                    continue
                k = (p.kind, p.hdr, frozenset((t, p.range(t)) for t in p.facts), tuple((i, v[1]) for i, v in sorted(p.phis.items())),
                     tuple((e.name, e.args) for e in p.ev if e.name in ("=", "decode_hex", "decode_codepoint", "encode_codepoint")))
                try:
                    if k in seen:
                        continue
                    seen.add(k)
                except TypeError:
                    pass
                self.turns.append(p)
        for p in self.turns:
            e = self.env(p, data, n)
            f = self.feasible(p, e)
            if f:
                yield p, e
            elif f is None:
                self.R.unknown += 1

    def stores(self, p, env):
        out = {}
        for e in p.segment() if p.kind == "iter" else p.ev:
            if e.name == "=":
                a = value(e.args[0], env)
                b = value(e.args[1], env)
                if a is None:
                    return None
                if a >> 40 == self.NEW >> 40:
                    out[a - self.NEW] = None if b is None else b & 255
        return out

    def expect(self, p, env, what, code, byte, step):
        """one byte stored and the reading moved on"""
        st = self.stores(p, env)
        J_ = self.J
        if p.kind == "cut":
            J_.check(False if st is not None and not st else None, code, p, "stops at %s" % what)
            return
        if st is None or None in st.values():
            J_.check(None, code, p, "")
            return
        J_.check(st == {self.O: byte}, code, p, "turns %s into %s" % (what, "nothing" if not st else " ".join("%d" % v for v in st.values()) + (" at another place" if self.O not in st else "")))
        d = value(p.phis[self.inp.a[0]][1], env) if p.phis.get(self.inp.a[0], (0, None))[1] is not None else None
        J_.check(None if d is None else d - self.I == step, code, p, "reads on %s bytes behind %s" % (d - self.I if d is not None else 0, what))
        d = value(p.phis[self.out.a[0]][1], env) if p.phis.get(self.out.a[0], (0, None))[1] is not None else None
        J_.check(None if d is None else d - self.O == 1, code, p, "writes the next byte %s places behind %s" % (d - self.O if d is not None else 0, what))


def hexval(bs):
    n = 0
    for c in bs:
        ch = chr(c).lower()
        n = n << 4 | ("0123456789abcdef".index(ch) if ch in "0123456789abcdef" else 0)
    return n


def pair(a, b):
    return 65536 + (a - 0xd800 << 10 | b - 0xdc00) if 0xd800 <= a < 0xdc00 and 0xdc00 <= b < 0xe000 else 65533


def utf8(c):
    return list(chr(c if c <= 0x10ffff and not 0xd800 <= c < 0xe000 else 65533).encode())


def simple(prog, R):
    L = Loop(prog, R, "arg_append_unescape_simplestr")
    if not L.ok:
        return
    for c in ALL:
        for n, rest in ((1, [39]), (1, [0]), (3, [97, 98]), (3, [92, 39])):
            if c == 39:
                continue
            for p, e in L.turn([c] + rest + [0] * 4, n):
                L.expect(p, e, name(c), "byte", c, 1)
    for n in (2, 5):
        for p, e in L.turn([39, 39, 39, 97, 0, 0, 0], n):
            L.expect(p, e, "''", "doubled", 39, 2)
    nothing(L)


def nothing(L):
    for p, e in L.turn([97, 98, 99], 0):
        st = L.stores(p, e)
        L.J.check(None if st is None else not st and p.kind == "cut", "end", p, "reads behind the end of the string")


TABLE = {92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9, 34: 34, 39: 39}


def unescape(prog, R):
    L = Loop(prog, R, "arg_append_unescape_str", keep=("decode_hex", "decode_codepoint", "encode_codepoint"))
    if not L.ok:
        return
    J_ = L.J
    for c in ALL:
        if c != 92:
            for n, rest in ((1, [92]), (3, [39, 98]), (3, [117, 39])):
                for p, e in L.turn([c] + rest + [48] * 12, n):
                    L.expect(p, e, name(c), "byte", c, 1)
    for c in TABLE:
        for n in (2, 3, 6, 7):
            for p, e in L.turn([92, c] + [97] * 14, n):
                L.expect(p, e, "\\" + chr(c), "escape", TABLE[c], 2)
    for c in (0x41, 0xe9, 0x20ac, 0xd7ff, 0xe000, 0xffff, 0, 0xd800, 0xdbff, 0xdc00, 0xdfff):
        h = [ord(x) for x in "%04x" % c]
        U = [92, 117]
        surr = 0xd800 <= c < 0xe000
        cases = [(h, 6, [97] * 8, None), (h, 9, [97] * 8, None), (h, 14, U + [ord(x) for x in "0041"] + [97] * 4, 0x41),
                 (h, 12, U + [ord(x) for x in "dc00"], 0xdc00), (h, 20, U + [ord(x) for x in "DFFF"] + [97] * 8, 0xdfff), (h, 11, U + [ord(x) for x in "dc0"] + [97] * 4, None),
                 (h, 14, [92, 110] + [97] * 10, None), (h, 14, [97, 117] + [97] * 10, None), (h, 14, U + [ord(x) for x in "d83d"] + [97] * 4, 0xd83d)]
        for h_, n, rest, second in cases:
            two = surr and second is not None
            want, step = (pair(c, second), 12) if two else (c, 6)
            for p, e in L.turn(U + h_ + rest, n):
                what = "\\u%04x" % c + (" and \\u%04x" % second if second is not None else "")
                en = [x for x in p.ev if x.name == "encode_codepoint"]
                if p.kind == "cut" or p.kind == "iter" and not en:
                    st = L.stores(p, e)
                    J_.check(False if st is not None and not st and not en else None, "unicode", p, "drops %s" % what)
                    continue
                if p.kind != "enter" or not en:
                    continue
                cp = value(en[-1].args[1], e)
                J_.check(None if cp is None else utf8(cp & 0xffffffff) == utf8(want), "unicode", p, "decodes %s as character %s" % (what, cp), en[-1])
                body(L, p, en[-1], e, what, step)
    for n in (2, 3, 5):
        for p, e in L.turn([92, 117, 48, 48, 52, 49, 48, 48, 48], n):
            for x in p.ev:
                if x.name == "decode_hex":
                    a = value(x.args[0], e)
                    J_.check(None if a is None else a + 4 - BASE <= L.I + n, "cut off", p, "reads the digits of a \\u behind the end of the string", x)
            st = L.stores(p, e)
            J_.check(None if st is None else not st, "cut off", p, "turns an incomplete \\u into a byte")
    for p, e in L.turn([92, 110, 97, 97, 97, 97], 1):
        st = L.stores(p, e)
        J_.check(None if st is None else not st, "cut off", p, "reads an escape behind the end of the string")
    nothing(L)


def body(L, q, en, env, what, step):
    """the loop that copies the bytes of one character; q enters it"""
    J_ = L.J
    b = strip(en.args[0])
    seen = L.__dict__.setdefault("seen", set())
    for p in J_.iters:
        if p.hdr != q.hdr or p.joined or (q.hdr, b) in seen:
            continue
        o = [e for e in p.segment() if e.name == "=" and any(y.k == "new" for y in walk(e.args[0]))]
        if len(o) != 1:
            J_.check(None, "copy", p, "")
            continue
        oi = {y for y in walk(o[0].args[0]) if y.k == "phi" and y.a[0] in p.phis}
        ji = {y for y in walk(o[0].args[1]) if y.k == "phi" and y.a[0] in p.phis}
        if not ji and len(p.phis) == 2:
            ji = {strip(v[0]) for i, v in p.phis.items() if not any(y.a[0] == i for y in oi)}
        ev = {t: L.NEW for t in walk(o[0].args[0]) if t.k == "new"}
        ev[b] = BASE
        if len(oi) == 1 and len(ji) == 1:
            oi, ji = oi.pop(), ji.pop()
            for k in range(4):
                ev.update({oi: L.O + k, ji: k})
                ev["bytes"] = lambda t, a: 100 + a - BASE if 0 <= a - BASE < 8 else None
                a, v = value(o[0].args[0], ev), value(o[0].args[1], ev)
                J_.check(None if a is None else a - L.NEW == L.O + k, "copy", p, "stores a character at another place", o[0])
                J_.check(None if v is None else (v & 255) == 100 + k, "copy", p, "stores byte %s of a character as byte %d" % ((v or 0) - 100, k), o[0])
                for t, d in ((oi, L.O + k + 1), (ji, k + 1)):
                    v = p.phis[t.a[0]][1]
                    n = value(v, ev) if v is not None else None
                    J_.check(None if n is None else n == d, "copy", p, "does not go on with the next byte of a character", o[0])
            for t, w in ((oi, L.O), (ji, 0)):
                v = q.phis.get(t.a[0], (0, None))[1]
                n = value(v, env) if v is not None else None
                J_.check(None if n is None else n == w, "copy", q, "copies a character from byte %s on" % n, en)
            for f in p.facts:
                ls = [y for y in walk(f) if y.k == "call" and len(y.a) > 1 and y.a[1] == "encode_codepoint"]
                if f.k == "cmp" and ls and ji in set(walk(f)):
                    for n in (1, 2, 3, 4):
                        got = [k for k in range(6) if bool(value(f, {ji: k, ls[0]: n})) == p.truth(f)]
                        if value(f, {ji: 0, ls[0]: n}) is not None:
                            J_.check(got == list(range(n)), "copy", p, "copies %d of the %d bytes of a character" % (len(got), n))
    seen.add((q.hdr, b))
    for p in J_.iters:
        if p.hdr != L.H:
            continue
        o, i = (p.phis.get(t.a[0], (0, None))[1] for t in (L.out, L.inp))
        if o is None or i is None:
            continue
        o, i = strip(o), strip(i)
        ss = [y for y in walk(i) if y.k == "ssa"]
        if o.k == "phi" and o.a[0] in q.phis and ss:
            ee = {}
            for y in ss:
                v = q.st.env.get(y.a[0])
                v = value(v, env) if v is not None else None
                if v is not None:
                    ee[y] = v
            n = value(i, ee)
            J_.check(None if n is None else n - L.I == step, "unicode", q, "reads on %s bytes behind %s" % (n - L.I if n is not None else 0, what), en)


def gbytes(prog, g):
    """bytes of a constant table"""
    def flat(i):
        if i[0] == "s":
            return [ord(c) for c in i[1]]
        if i[0] == "sb":
            return list(i[1])
        if i[0] == "agg":
            return [b for x in i[2] for b in flat(x)]
        if i[0] == "z":
            m = [int(x) for x in i[1].strip("[]").split() if x.isdigit()]
            return [0] * (m[0] if m else 0)
        raise ValueError
    d = prog.glob(g)
    if not d or not d.get("init"):
        return None
    try:
        return flat(d["init"])
    except (ValueError, IndexError, TypeError, KeyError):
        return None


def decoding(prog, R):
    F = func(prog, "decode_hex", "postgres.c")
    if F:
        J_ = J(prog, R, F, QUOTE, mods=("postgres.c",))
        tabs = {}
        for p in J_.paths:
            if p.joined or p.ret is None:
                continue
            for bs in [[ord(c) for c in s] for s in ("0000", "1234", "89ab", "cdef", "ABCD", "EF97", "5678", "fFaA", "0001", "8000")]:
                env = {P0: BASE}
                for y in walk(p.ret):
                    if y.k == "g":
                        tabs.setdefault(y, gbytes(prog, y.a[0]))
                        env[y] = (1 << 46) + (list(tabs).index(y) << 20)
                tl = list(tabs)

                def mem(t, a, bs=bs):
                    if a >> 46:
                        b = tabs[tl[(a - (1 << 46)) >> 20]]
                        k = a & 0xfffff
                        return b[k] if b and k < len(b) else None
                    return bs[a - BASE] if 0 <= a - BASE < 4 else None
                env["bytes"] = mem
                if any(zz is False for zz in [agree(p, t, n) for t in p.facts for n in [value(t, env)] if n is not None]):
                    continue
                n = value(p.ret, env)
                J_.check(None if n is None or any(value(t, env) is None for t in p.facts) else n & 0xffffffff == hexval(bs), "digits", p, "reads the digits %s as %x" % ("".join(map(chr, bs)), (n or 0) & 0xffffffff))
    for nm, cases, want in (("is_surrogate", [(c,) for c in (0, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff)], lambda c: 0xd800 <= c < 0xe000),
                            ("decode_codepoint", [(a, b) for a in (0xd7ff, 0xd800, 0xd83d, 0xdbff, 0xdc00, 0x41) for b in (0xdbff, 0xdc00, 0xde00, 0xdfff, 0xe000, 0x41)], pair)):
        F = func(prog, nm, "postgres.c")
        if F is None:
            continue
        J_ = J(prog, R, F, QUOTE, mods=("postgres.c",))
        for p, env, a in given(J_, cases):
            n = value(p.ret, env) if p.ret is not None else None
            J_.check(None if n is None else n & 0xffffffff == int(want(*a)), nm, p, "%s of %s gives %x" % (nm, ", ".join("%x" % x for x in a), (n or 0) & 0xffffffff))
    F = func(prog, "encode_codepoint", "postgres.c")
    if F:
        J_ = J(prog, R, F, QUOTE, mods=("postgres.c",))
        for p, env, a in given(J_, [(BASE, c) for c in (0, 0x41, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x20001, 0x40fc0, 0xfffff, 0x3ffff,  0x10ffff, 0x110000, 0xffffffff)]):
            want = utf8(a[1])
            n = value(p.ret, env) if p.ret is not None else None
            J_.check(None if n is None else n & 0xffffffff == len(want), "encoded", p, "character %x becomes %s bytes" % (a[1], n))
            got = {}
            for e in p.ev:
                if e.name == "=":
                    x, v = value(e.args[0], env), value(e.args[1], env)
                    if x is None or v is None:
                        got = None
                        break
                    got[x - BASE] = v & 255
            J_.check(None if got is None else [got.get(k) for k in range(len(want))] == want, "encoded", p, "character %x becomes other bytes" % a[1])


def given(J_, cases):
    """paths a function takes for these arguments"""
    for a in cases:
        env = {mk("p", i): v for i, v in enumerate(a)}
        for p in J_.paths:
            if p.joined:
                continue
            vs = [(t, value(t, env)) for t in p.facts]
            if any(n is not None and not agree(p, t, n) for t, n in vs):
                continue
            if any(n is None for t, n in vs):
                J_.R.unknown += 1
                continue
            yield p, env, a


def field(t, prog, f):
    t = strip(t)
    return t.k == "ld" and ldfield(t, prog) == ("struct.pmap", f)


def slotread(p, base_):
    """load of the slot a loop looks at: (load, index)"""
    out = set()
    for t in p.facts:
        for y in walk(t):
            if y.k == "ld" and y.a[1].k == "idx" and base_(y.a[1].a[0]) and len(y.a[1].a[1]) == 1:
                i = y.a[1].a[1][0][0]
                if i.k == "phi":
                    out.add((y, i))
    return next(iter(out)) if len(out) == 1 else (None, None)


def table(prog, R):
    mods = dict(mods=("postgres.c",), keep=("pmap_exists", "pmap_grow", "pmap_insert0", "mix13"))
    starts = {}
    for nm in ("pmap_exists", "pmap_insert0"):
        F = func(prog, nm, "postgres.c")
        if F is None:
            R.unknown += 1
            continue
        J_ = J(prog, R, F, PARAM, **mods)
        ex = nm == "pmap_exists"
        par = P1 if ex else P2
        bk = (lambda t: field(t, prog, "buckets")) if ex else (lambda t: strip(t) == P0)
        nb = (lambda t: field(t, prog, "nbuckets")) if ex else (lambda t: strip(t) == P1)
        for p in J_.enters:
            for i, (a, b) in p.phis.items():
                if b is None:
                    continue
                env = {}
                for y in walk(b):
                    if y.k == "call" and len(y.a) > 1 and y.a[1] == "mix13":
                        env[y] = 0x12345
                        e = [e for e in evs(p, "mix13") if e.res == y]
                        if e:
                            J_.check(same(strip(e[0].args[0]), par) or None, "place", p, "", e[0])
                    if nb(y):
                        env[y] = 1000
                n = value(b, env)
                if n is not None:
                    starts[nm] = (n, p, J_)
        for p in J_.iters:
            y, i = slotread(p, bk)
            if y is None or i.a[0] not in p.phis or p.joined:
                J_.check(None, "slot", p, "")
                continue
            J_.check(not zero(p.range(y)), "slot", p, "goes on behind an empty place")
            v = p.phis[i.a[0]][1]
            for k in (0, 3, 7):
                env = {i: k}
                env.update({z: 8 for t in [v] + list(p.facts) for z in walk(t) if nb(z)})
                n = value(v, env)
                if any(w is not None and not agree(p, t, w) for t in p.facts if i in set(walk(t)) for w in [value(t, env)]):
                    continue
                J_.check(None if n is None else n == (k + 1) % 8, "slot", p, "goes from place %d of 8 to place %s" % (k, n))
            if ex:
                for r, b in ((5, 6),):
                    env = {par: r, y: r}
                    f = [t for t in p.facts if par in set(walk(t)) and y in set(walk(t))]
                    if f:
                        J_.check(not all(value(t, env) is not None and agree(p, t, value(t, env)) for t in f), "slot", p, "goes past a number that is there")
        for p in J_.paths:
            y, i = slotread(p, bk)
            if y is None or p.joined:
                J_.check(None, "slot", p, "")
                continue
            if ex:
                if p.ret is None:
                    continue
                for r, s in ((5, 0), (5, 5), (5, 6), (65535, 65535)):
                    env = {par: r, y: s}
                    vs = [value(t, env) for t in p.facts if par in set(walk(t)) or y in set(walk(t))]
                    ts = [t for t in p.facts if par in set(walk(t)) or y in set(walk(t))]
                    if None in vs or not all(agree(p, t, v) for t, v in zip(ts, vs)):
                        continue
                    n = value(p.ret, env)
                    J_.check(None if n is None else s in (0, r) and bool(n & 255) == (s == r), "found", p, "number %d with %d in its place counts as %s" % (r, s, "noted" if n else "missing"))
            else:
                st = [e for e in p.ev if e.name == "=" and bk(base(e.args[0])) or e.name == "=" and strip(e.args[0]) == y.a[1]]
                J_.check(zero(p.range(y)) or (None if not nonzero(p.range(y)) else False), "empty", p, "writes over a number that is there")
                J_.check(bool(st) or None if any(e.name == "=" for e in p.ev) else False, "stored", p, "does not note the number")
                for e in st:
                    J_.check(same(e.args[0], y.a[1]) or None, "stored", p, "", e)
                    J_.check(same(strip(e.args[1]), P2) or (False if isc(strip(e.args[1])) else None), "stored", p, "notes another number", e)
    if len(starts) == 2:
        (a, p, J_), (b, q, K) = starts.values()
        J_.check(a == b, "place", p, "looks for a number at place %d where it is put at place %d" % (a, b))
    F = func(prog, "pmap_grow", "postgres.c")
    if F:
        grow(prog, R, F, mods)
    F = func(prog, "pmap_insert", "postgres.c")
    if F:
        insert(prog, R, F, mods)


def grow(prog, R, F, mods):
    J_ = J(prog, R, F, PARAM, **mods)
    bk = lambda t: field(t, prog, "buckets")
    for p in J_.enters:
        for i, (a, b) in p.phis.items():
            if b is not None and isc(strip(b)):
                J_.check(strip(b).a[0] == 0, "grow", p, "moves the numbers from place %d on" % strip(b).a[0])
    for p in J_.iters:
        y, i = slotread(p, bk)
        if y is None or p.joined:
            J_.check(None, "grow", p, "")
            continue
        put = [e for e in p.segment() if e.name == "pmap_insert0"]
        other = [e for e in p.segment() if e.name not in ("pmap_insert0", "L", "X")]
        for n in (1, 2, 255, 256, 65535):
            ts = [t for t in p.facts if y in set(walk(t))]
            vs = [value(t, {y: n}) for t in ts]
            if None not in vs and all(agree(p, t, v) for t, v in zip(ts, vs)):
                J_.check(bool(put) or (None if other else False), "grow", p, "loses a number that is there")
        for e in put:
            J_.check(strip(e.args[2]) == y or (None if any(z.k == "ld" for z in walk(e.args[2])) else False), "grow", p, "moves another number", e)
            n = value(e.args[1], {z: 8 for z in walk(e.args[1]) if field(z, prog, "nbuckets")})
            J_.check(None if n is None else n > 8, "grow", p, "moves the numbers into %s places" % n, e)
        for t in p.facts:
            ls = [z for z in walk(t) if field(z, prog, "nbuckets")]
            if t.k == "cmp" and ls and i in set(walk(t)):
                got = [k for k in range(12) if bool(value(t, {i: k, ls[0]: 8})) == p.truth(t)]
                if value(t, {i: 0, ls[0]: 8}) is not None:
                    J_.check(got == list(range(8)), "grow", p, "moves %d of 8 places" % len(got))
    for p in J_.paths:
        if p.joined:
            continue
        al = evs(p, "xmalloc")
        env = {z: 8 for e in p.ev for a in e.args if isinstance(a, T) for z in walk(a) if field(z, prog, "nbuckets")}
        sb = [e for e in p.ev if e.name == "=" and ldfield_(e.args[0], prog) == "buckets"]
        sn = [e for e in p.ev if e.name == "=" and ldfield_(e.args[0], prog) == "nbuckets"]
        other = [e for e in p.ev if e.name not in KNOWN and e.name not in ("pmap_insert0", "memset")]
        J_.check(bool(sb) or (None if other else False), "grow", p, "keeps the old places")
        J_.check(bool(sn) or (None if other else False), "grow", p, "keeps the old number of places")
        if al and sn:
            m, n = value(al[-1].args[0], env), value(sn[-1].args[1], env)
            J_.check(None if m is None or n is None else m >= 2 * n, "grow", p, "has memory for %s places and counts %s" % ((m or 0) // 2, n), sn[-1])
        for e in evs(p, "xfree"):
            d = [t for t in p.facts if t.k == "cmp" and any(z.k in ("off", "fld", "f") or "def" in show(z) for z in walk(t)) and "def" in show(t)]
            for t in d:
                tr = p.truth(t)
                if t.a[0] in ("eq", "ne") and tr is not None:
                    J_.check(tr != (t.a[0] == "eq"), "grow", p, "releases the places inside the structure", e)


def ldfield_(a, prog):
    """name of the member of a parameter table an address points to"""
    a = strip(a)
    if a.k == "off" and same(a.a[0], P0):
        try:
            return prog.member("struct.pmap", a.a[1])
        except Exception:
            return None
    if a == P0:
        try:
            return prog.member("struct.pmap", 0)
        except Exception:
            return None
    return None


def insert(prog, R, F, mods):
    J_ = J(prog, R, F, PARAM, **mods)
    checked = False     # does someone else look for the number
    G = func(prog, "pmap_insert0", "postgres.c")
    if G is None:
        checked = True
    else:
        for p in J(prog, R, G, PARAM, **mods).paths:
            checked = checked or any(P2 in set(walk(t)) for t in p.facts)
    for G in prog.mods["postgres.c"].funcs.values():
        cs = [I.callee[1] for I in G.insts() if I.op == "call" and I.callee and I.callee[0] == "f"]
        if G.name != F.name and "pmap_insert" in cs and cs.count("pmap_exists") > 1:
            checked = True
    for p in J_.paths:
        if p.joined:
            continue
        ex = evs(p, "pmap_exists")
        put = evs(p, "pmap_insert0")
        cnt = [e for e in p.ev if e.name == "=" and ldfield_(e.args[0], prog) == "count"]
        other = [e for e in p.ev if e.name not in KNOWN and e.name not in ("pmap_insert0", "pmap_grow")]
        if ex and resultzero(p, ex[0].res):
            J_.check(bool(put) or (None if other else False), "insert", p, "does not note a new number")
            J_.check(bool(cnt) or (None if other else False), "insert", p, "does not count a new number")
        for e in put:
            if not ex and not J_.iters and not checked:
                J_.check(None if other or any(t.k == "cmp" and P1 in set(walk(t)) for t in p.facts) else False, "insert", p, "notes a number without looking for it first", e)
            J_.check(not ex or not nonzero(p.range(ex[0].res)), "insert", p, "notes a number twice", e)
            J_.check(field(e.args[0], prog, "buckets") or None, "insert", p, "", e)
            J_.check(same(strip(e.args[2]), P1) or (False if isc(strip(e.args[2])) else None), "insert", p, "notes another number", e)
        for e in cnt:
            env = {z: 5 for z in walk(e.args[1]) if field(z, prog, "count")}
            n = value(e.args[1], env)
            J_.check(None if n is None else n == 6, "insert", p, "counts %s after 5" % n, e)
            J_.check(not ex or not nonzero(p.range(ex[0].res)), "insert", p, "counts a number twice", e)
        if put:
            grown = bool(evs(p, "pmap_grow"))
            fs = [t for t in p.facts if any(field(z, prog, "count") for z in walk(t))]
            for nb in (8, 16):
                env = {z: nb for t in fs for z in walk(t) if field(z, prog, "nbuckets")}
                env.update({z: nb - 1 for t in fs for z in walk(t) if field(z, prog, "count")})
                # every number is added one at a time: the table must have grown before the last free place is taken
                full = [c for c in range(nb) if all(value(t, dict(env, **{}) | {z: c for z in walk(t) if field(z, prog, "count")}) is not None and
                        agree(p, t, value(t, env | {z: c for z in walk(t) if field(z, prog, "count")})) for t in fs)]
                if fs and grown:
                    J_.check(bool(full), "room", p, "never grows a table of %d places" % nb, put[0])
                elif not fs and not grown:
                    J_.check(None if other else False, "room", p, "never grows the table", put[0])
