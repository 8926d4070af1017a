"""C27: Postgres messages are taken apart, and prepared statements run, as sent."""
from gensim import *
from semlib import under, isglobal
from p_sem import ASSUME
from p_save import evs
from p_frame import res, zero, nonzero
from p_auth import resultzero, fieldst
from p_http import errtext, possible, byteat
from replies import text

EXPLAIN = {
    "C27": "every path through parse_postgres, parse_message, parse_magic and the parsers of the single messages, the names and values they take out of a message, "
           "the bounds of every byte they read, and the answer pg_respond gives for each thing a parser noted; path conditions are evaluated for message lengths "
           "around every boundary",
}
FRAME = "a Postgres message has the length it announces"
BOUND = "a Postgres message is read within its bounds"
START = "a Postgres connection starts with its startup message"
PREP = "a prepared statement runs with its own parameters"
ANSR = "each Postgres message gets its own answer"
PASS = "only the right password is accepted"
P0, P1, P2, P3 = (mk("p", i) for i in range(4))
M64 = (1 << 64) - 1
LETTERS = {"Q": "parseQ", "P": "parseP", "X": "parseX", "E": "parseE", "p": "parsep", "D": "parseD", "B": "parseB", "S": "parseS"}
MAGIC = {0x04D2162F: "parse_magic_ssl", 0x00030000: "parse_magic_proto3", 0xFFFF0000: "parse_magic_cancel"}
KEEP = ("portal_insert", "statement_insert", "portal_get", "statement_get", "parse_query_args")


def C27(prog, R, tier):
    message(prog, R)
    magic(prog, R)
    entry(prog, R)
    E = Ext2(prog, R)
    E.all()
    respond(prog, R)


# ---------------------------------------------------------------- evaluation of path conditions
def value(t, env):
    """the term as an unsigned 64 bit number; env: term -> number, or a callable for the bytes of loads"""
    v = env.get(t)
    if v is not None:
        return v & M64
    k = t.k
    if k == "c":
        return t.a[0] & M64
    if k == "off":
        n = value(t.a[0], env)
        return None if n is None else n + t.a[1] & M64
    if k == "idx":
        n = value(t.a[0], env)
        if n is None:
            return None
        n += t.a[2] or 0
        for x, s in t.a[1]:
            m = value(x, env)
            if m is None:
                return None
            n += m * s
        return n & M64
    if k == "not":
        n = value(t.a[0], env)
        return None if n is None else int(not n)
    if k == "ld" and "bytes" in env:
        a = value(t.a[1], env)
        if a is None:
            return None
        return env["bytes"](t, a)
    if k == "cast" and t.a[0] in ("zext", "sext", "trunc"):
        n = value(t.a[1], env)
        if n is None:
            return None
        w = t.a[2] if t.a[0] != "trunc" else t.a[3]
        n &= (1 << w) - 1
        return (n | ~((1 << w) - 1)) & M64 if t.a[0] == "sext" and n >> (w - 1) else n
    if k == "cast":
        return value(t.a[1], env)
    if k in ("bin", "cmp"):
        a, b = value(t.a[1], env), value(t.a[2], env)
        if a is None or b is None:
            return None
        s = lambda n: n - (1 << 64) if n >> 63 else n
        op = t.a[0]
        if k == "cmp":
            w = max(width(t.a[1]) or 0, width(t.a[2]) or 0)
            if 0 < w < 64:
                a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
                s = lambda n: n - (1 << w) if n >> (w - 1) else n
            return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "slt": s(a) < s(b), "sle": s(a) <= s(b)}.get(op)
        if op in ("shl", "lshr", "ashr"):
            if b > 63:
                return None
            return (a << b if op == "shl" else a >> b if op == "lshr" else s(a) >> b) & M64
        if op in ("urem", "udiv", "srem", "sdiv"):
            if not b or op[0] == "s" and (a >> 63 or b >> 63):
                return None
            return a % b if op.endswith("rem") else a // b
        f = {"add": a + b, "sub": a - b, "mul": a * b, "or": a | b, "and": a & b, "xor": a ^ b}.get(op)
        return None if f is None else f & M64
    return None


def holds(p, env):
    """are all conditions of the path true for these values; None: they allow it, but some cannot be told"""
    sure = True
    for t in p.facts:
        n = value(t, env)
        if n is None:
            sure = None
            continue
        if t.k == "cmp":
            k = p.truth(t)
            if k is not None and bool(n) != k:
                return False
            continue
        lo, hi, ex = p.range(t)
        w = width(t) or 64
        n &= (1 << w) - 1
        n = n - (1 << w) if n >> (w - 1) else n
        if not lo <= n <= hi or n in ex:
            return False
    return sure


def width(t, d=0):
    """bits of an integer term; None unknown"""
    if d > 12:
        return None
    if t.k == "cast" and t.a[0] in ("zext", "sext", "trunc"):
        return t.a[3]
    if t.k == "ld" and len(t.a) > 2 and isinstance(t.a[2], int):
        return 8 * t.a[2]
    if t.k == "bin":
        for x in (t.a[1], t.a[2]):
            w = width(x, d + 1)
            if w:
                return w
    return None


def header(n, at, letter=None, more=()):
    """bytes of a message: the number at offset at, most significant byte first"""
    b = {}
    if letter is not None:
        b[0] = ord(letter)
    for k in range(4):
        b[at + k] = (n >> (24 - 8 * k)) & 255
    for o, m in more:
        for k in range(4):
            b[o + k] = (m >> (24 - 8 * k)) & 255
    return b


def memory(data, start):
    def f(t, a):
        v = 0
        for k in range(t.a[2] if len(t.a) > 2 and isinstance(t.a[2], int) else 1):
            x = data.get(a - start + k)
            if x is None:
                return None
            v |= x << (8 * k)
        return v
    return f


BASE = 1 << 40


def message(prog, R):
    F = func(prog, "parse_message", "postgres.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, FRAME, cap=4000, mods=("postgres.c",), keep=tuple(LETTERS.values()))
    seen = {e.name for p in J_.paths for e in p.ev}
    if J_.iters or not seen & set(LETTERS.values()):
        R.unknown += 1
        return
    for c in sorted(LETTERS) + ["Z"]:
        for L in (-2147483648, -5, -2, -1, 0, 3, 4, 5, 6, 100, 70000, 2147483647):
            for N in sorted({0, 1, 4, 5, 6, max(L, 0), max(L + 1, 0), max(L + 2, 0), 1 << 33}):
                for out in (0, -1, 1):
                    sample(prog, J_, c, L & 0xffffffff, L, N, out, 5, c in LETTERS and LETTERS[c])


def sample(prog, J_, c, U, L, N, out, hdr, want):
    """what happens to a message announcing L bytes when N have arrived; out: how the parser of the message ends"""
    if N > BASE:
        return
    data = {k: v for k, v in header(U, 1, c).items() if k < N}
    early(J_, N, data, "message")
    for p in J_.paths:
        env = {P0: BASE, P1: N, "bytes": memory(data, BASE)}
        called = [e for e in p.ev if e.name in LETTERS.values()]
        n = L - 4
        for e in called:
            env[e.res] = n if out == 0 else M64 if out == -1 else n + 1
            env[strip(e.res)] = env[e.res]
        h = holds(p, env)
        if h is not True:
            if h is None:
                J_.R.unknown += 1
            continue
        r = value(p.ret, env)
        if r is None:
            J_.R.unknown += 1
            continue
        r = r - (1 << 64) if r >> 63 else r
        lab = "message of %d bytes with %d received" % (L, N)
        if N < 5:
            J_.check(r == 0 and not called, "short", p, "does not wait for the letter and the length of a message (%d bytes received)" % N)
        elif L < 4:
            J_.check(r < 0 and not called, "length", p, "does not refuse the announced length %d, which is less than the length itself" % L)
        elif N < L + 1:
            J_.check(r == 0 and not called, "wait", p, "does not wait for the whole message: a " + lab)
        else:
            if want:
                others = func(prog, want, "postgres.c") is not None
                J_.check((len(called) == 1 and called[0].name == want) or (False if others or any(e.name == LETTERS[x] for x in LETTERS if x != c for e in called) else None), "letter " + c, p,
                         "a message '%s' is not handed to %s" % (c, want))
                for e in called:
                    a, m = value(e.args[0], env), value(e.args[1], env)
                    if a is not None and m is not None:
                        J_.check(a == BASE + 5 and m == L - 4, "payload", p, "%s gets %d bytes from offset %d of a message announcing %d" % (e.name, m, a - BASE, L), e)
            else:
                J_.check(not called, "letter", p, "an unknown message is handed to a parser")
                J_.check(any(e.name == "=" and member(prog, e) == "error" for e in p.ev) or r < 0, "unknown", p, "an unknown message is not refused")
            if out == 0 or not called:
                J_.check(r == L + 1 or (r < 0 if not called else False), "next", p, "goes on %d bytes after the start of a message of %d bytes" % (r, L + 1))
            else:
                J_.check(r < 0, "result", p, "goes on after a message whose parser %s" % ("failed" if out < 0 else "did not end at its end"))


def early(J_, N, data, what):
    """no condition reads a byte that has not arrived"""
    for p in J_.paths:
        missed = []

        def mem(t, a, f=memory(data, BASE)):
            v = f(t, a)
            if v is None and a >= BASE + N and a < BASE + 64:
                missed.append(a - BASE)
            return v
        if holds(p, {P0: BASE, P1: N, "bytes": mem}) is not False and missed:
            J_.check(False, "early", p, "reads byte %d of a %s of which %d bytes have arrived" % (missed[0], what, N), rule=BOUND)


def member(prog, e):
    f = fieldof(prog, e.args[0])
    return f[1] if f and f[0] == "struct.pg" else None


def flags(prog, p, seg=None):
    """{member of the connection's Postgres state: value written}"""
    out = {}
    for e in (p.ev if seg is None else seg):
        if e.name == "=":
            m = member(prog, e)
            if m:
                out[m] = strip(e.args[1])
    return out


def magic(prog, R):
    F = func(prog, "parse_magic", "postgres.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, START, cap=4000, mods=("postgres.c",), keep=tuple(MAGIC.values()))
    if J_.iters:
        R.unknown += 1
        return
    for m in sorted(MAGIC) + [0x00020000, 0]:
        for L in (-1, -65536, 0, 4, 7, 8, 9, 50, 65536, 65537, 2147483647):
            for N in sorted({1, 3, 4, 7, 8, 9, max(L - 1, 0), max(L, 0), max(L + 1, 0)}):
                for out in (0, -1, 1):
                    data = {k: v for k, v in header(L & 0xffffffff, 0, None, [(4, m)]).items() if k < N}
                    early(J_, N, data, "startup message")
                    for p in J_.paths:
                        startup(prog, J_, p, m, L, N, out, data)


def startup(prog, J_, p, m, L, N, out, data):
    env = {P0: BASE, P1: N, "bytes": memory(data, BASE)}
    called = [e for e in p.ev if e.name in MAGIC.values()]
    for e in called:
        env[e.res] = L - 8 if out == 0 else M64 if out == -1 else L - 7
        env[strip(e.res)] = env[e.res]
    if holds(p, env) is not True:
        return
    r = value(p.ret, env)
    if r is None:
        J_.R.unknown += 1
        return
    r = r - (1 << 64) if r >> 63 else r
    if N < 4:
        J_.check(r == 0 and not called, "short", p, "does not wait for the length of a startup message")
    elif L < 0 or L > 65536:
        J_.check(r < 0 and not called, "large", p, "does not refuse a startup message announcing %d bytes" % L)
    elif N < L:
        J_.check(r == 0 and not called, "wait", p, "does not wait for a whole startup message (%d of %d bytes)" % (N, L))
    elif L < 8:
        J_.check(r < 0 and not called, "small", p, "does not refuse a startup message announcing %d bytes" % L)
    else:
        want = MAGIC.get(m)
        if want:
            J_.check([e.name for e in called] == [want], "code %08x" % m, p, "a startup message with code %08x is not handed to %s" % (m, want))
            for e in called:
                a, n = value(e.args[0], env), value(e.args[1], env)
                if a is not None and n is not None:
                    J_.check(a == BASE + 8 and n == L - 8, "payload", p, "%s gets %d bytes from offset %d of a startup message announcing %d" % (e.name, n, a - BASE, L), e)
        else:
            J_.check(r < 0 and not called, "code", p, "does not refuse a startup message with the unknown code %08x" % m)
            return
        if out == 0:
            J_.check(r == L, "next", p, "goes on %d bytes after the start of a startup message of %d bytes" % (r, L))
        else:
            J_.check(r < 0, "result", p, "goes on after a startup message whose parser failed")


def entry(prog, R):
    F = func(prog, "parse_postgres", "postgres.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, START, cap=2000, mods=("postgres.c",), keep=("parse_magic", "parse_message", "pg_new", "print_packet"))
    for N, b in ((0, 0), (1, 0), (8, 0), (5, 81), (5, 1), (5, 255)):
        for p in J_.paths:
            env = {P0: BASE, P1: N, "bytes": memory({0: b} if N else {}, BASE)}
            if holds(p, {k: v for k, v in env.items()}) is False:
                continue
            got = [e for e in p.ev if e.name in ("parse_magic", "parse_message")]
            if N == 0:
                J_.check(not got, "empty", p, "reads a message of which nothing has arrived")
                continue
            want = "parse_message" if b else "parse_magic"
            J_.check([e.name for e in got] == [want], "first byte", p, "a message that begins with %d is not handed to %s" % (b, want))
            for e in got:
                J_.check(same(e.args[0], P0) and same(e.args[1], P1), "data", p, "hands on other bytes than those received", e)
                J_.check(same(p.ret, e.res) or (False if isc(strip(p.ret)) else None), "result", p, "does not go on where the parser ended", e)
    # an error noted for an earlier message is not answered again
    for p in J_.paths:
        if any(e.name in ("parse_magic", "parse_message") for e in p.ev):
            k = min(i for i, e in enumerate(p.ev) if e.name in ("parse_magic", "parse_message"))
            f = flags(prog, p, p.ev[:k])
            J_.check((isc(f["error"]) and f["error"].a[0] == 0) if "error" in f else (None if resets(prog, F) else False), "error", p,
                     "keeps the error of an earlier message")


def resets(prog, F):
    """does any other function set the error of a connection's Postgres state to 0"""
    for G in prog.funcs():
        if G is F:
            continue
        for I in G.insts():
            if I.op == "store" and fieldst(prog, G, I) == ("struct.pg", "error") and I.a[0] in (("c", 0), ("n",)):
                return True
    return False


# ---------------------------------------------------------------- single messages
def entryof(J_, i):
    """values a loop variable has when its loop is entered"""
    out = []
    for q in J_.enters:
        if i in q.phis:
            v = strip(q.phis[i][1])
            if v not in out:
                out.append(v)
    return out


def nul(p, t):
    """is the byte at this address known to be 0 on the path"""
    return byteat(p, t, 0)


def strno(J_, p, t, first, d=0):
    """which of the strings of the message begins at t: 0, 1, ..; None unknown"""
    t = strip(t)
    if same(t, first):
        return 0
    if d > 6:
        return None
    for f in p.facts:
        if f.k == "ld" and p.range(f)[:2] == (0, 0):
            g = lsub(t, f.a[1])
            if g == (1, {}):
                z = strip(f.a[1])
                if z.k == "phi":
                    v = entryof(J_, z.a[0])
                    if len(v) == 1:
                        n = strno(J_, p, v[0], first, d + 1)
                        return None if n is None else n + 1
    if t.k == "phi":
        v = entryof(J_, t.a[0])
        # a pointer moved on over blanks
        if len(v) == 1 and not any(f.k == "ld" and same(f.a[1], t) and p.range(f)[:2] == (0, 0) for f in p.facts):
            return strno(J_, p, v[0], first, d + 1)
    return None


def bounds(p, A, end):
    """(least known distance from A to the end, is anything known)"""
    want = lsub(end, A)
    best, any_ = None, False
    if want is None:
        return None, False
    for t in p.facts:
        D = None
        if t.k == "cmp" and t.a[0] in ("ult", "slt"):
            v = p.truth(t)
            D = lsub(t.a[2], t.a[1])        # y - x
            lo, hi = (1, None) if v else (None, 0) if v is False else (None, None)
        elif t.k == "bin" and t.a[0] in ("sub", "add"):
            D = linz(t)
            lo, hi, _ = p.range(t)
            lo = lo if lo > -(1 << 62) else None
            hi = hi if hi < 1 << 62 else None
        elif t.k == "cmp" and t.a[0] == "eq" and p.truth(t):
            D = lsub(t.a[2], t.a[1])
            lo, hi = 0, 0
        elif t is P1:
            D = linz(t)
            lo, hi, ex = p.range(t)
            lo = max(lo, 0)
            while lo in ex:
                lo += 1
            hi = hi if hi < 1 << 62 else None
        if D is None:
            continue
        for s in (1, -1):
            k = combine(want, D, s)
            if k is None:
                continue
            any_ = True
            b = lo if s == 1 else None if hi is None else -hi
            if b is not None and (best is None or b + k > best):
                best = b + k
    if want[1] == {} and best is None:
        best = want[0]
    return best, any_


def byteloads(p):
    """terms of the bytes the path reads"""
    seen = set()
    for t in list(p.facts) + [a for e in p.segment() for a in e.args if isinstance(a, T)]:
        for x in walk(t):
            if x.k == "ld" and len(x.a) > 2 and x.a[2] in (1, 2, 4, 8) and x not in seen:
                seen.add(x)
                yield x


LAST = {"parseQ": 0, "parsep": 0, "parseD": 0, "parseE": 4}
FLAG = {"parseP": "parse", "parseB": "bind", "parseX": "close", "parseS": "sync", "parsep": "auth", "parseE": "execute"}
OWN = {"parse", "bind", "close", "sync", "auth", "execute", "describe", "empty_query", "ssl", "startup"}


class Ext:
    def __init__(self, prog, R):
        self.prog, self.R = prog, R
        self.J = {}
        for n in LETTERS.values():
            F = func(prog, n, "postgres.c")
            if F is not None:
                self.J[n] = J(prog, R, F, PREP, cap=6000, copies=True, copyin=True, fills=True, mods=("postgres.c",), keep=KEEP)
        self.end = mk("bin", "add", P0, P1)

    def all(self):
        for n, J_ in sorted(self.J.items()):
            self.bounds(n, J_)
            self.whole(n, J_)
            self.flags(n, J_)
            self.names(n, J_)
        for n, f in (("parseB", self.bind), ("parseP", self.parse), ("parseE", self.execute), ("parseQ", self.query), ("parsep", self.password), ("parseD", self.describe)):
            if n in self.J:
                f(self.J[n])
        self.tables()
        self.startup()

    def good(self, J_):
        return [p for p in J_.paths if p.ret is not None and same(p.ret, P1)]

    # -- every byte read lies in the message
    def bounds(self, n, J_):
        ptrs = {}
        for p in J_.iters + J_.paths:
            for t in p.facts:
                for x in walk(t):
                    if x.k == "phi":
                        r = [f for f in (t,) if any(y is P1 for y in walk(f)) and any(y is P0 for y in walk(f))]
                        if r:
                            ptrs[x] = True
        for p in J_.iters + J_.paths:
            for x in byteloads(p):
                A = x.a[1]
                at = [y for y in (linz(A) or (0, {}))[1]]
                if len(at) != 1 or not (at[0] is P0 or at[0] in ptrs):
                    continue
                b, known = bounds(p, A, self.end)
                if b is None and not known and at[0] is P0:
                    b = None
                J_.check(b is not None and b >= x.a[2] or (False if known or at[0] is P0 else None), "byte", p,
                         "reads a byte of the message without having checked that the message reaches so far", rule=BOUND)
        # a string that is searched for its end stops at the end of the message
        for p in J_.iters:
            for f in p.facts:
                if f.k == "ld" and 0 in p.range(f)[2] and strip(f.a[1]).k == "phi" and strip(f.a[1]).a[0] in p.phis and same(p.phis[strip(f.a[1]).a[0]][1], mk("off", f.a[1], 1)):
                    x = strip(f.a[1])
                    if x in ptrs:
                        continue
                    v = entryof(J_, x.a[0])
                    if len(v) == 1 and (same(v[0], P0) or any(nul(q, mk("bin", "sub", v[0], mk("c", 1))) for q in J_.enters if x.a[0] in q.phis)):
                        J_.check(False, "string", p, "searches the end of a string beyond the message", rule=BOUND)

    # -- a message is accepted only when it was taken apart to its end
    def whole(self, n, J_):
        def ended(p):
            for t in p.facts:
                if t.k == "cmp" and t.a[0] == "eq":
                    D, v = lsub(t.a[2], t.a[1]), p.truth(t)
                elif t.k == "bin" or t is P1:
                    D, r = linz(t), p.range(t)
                    v = True if r[:2] == (0, 0) else False
                else:
                    continue
                if v and D is not None and abs(D[1].get(P1, 0)) == 1 and (P0 in D[1] or len(D[1]) == 1):
                    return D
            return None
        some = any(ended(p) for p in J_.paths)
        for p in self.good(J_):
            if "error" in flags(self.prog, p):
                continue
            D = ended(p)
            J_.check(D is not None or (False if some or not any(e.name not in KNOWN for e in p.ev) else None), "whole", p, "accepts a message without having reached its end", rule=FRAME)
            if D is None:
                continue
            # nothing was read past the place compared with the end
            for x in byteloads(p):
                b, known = bounds(p, x.a[1], self.end)
                d = lsub(self.end, x.a[1])
                if n in LAST and len(D[1]) and x.a[2] == 1 and p.range(x)[:2] == (0, 0) and d is not None and d[1] in (D[1], {k: -v for k, v in D[1].items()}):
                    s = 1 if d[1] == D[1] else -1
                    if strno(J_, p, mk("off", x.a[1], 1), P0 if n != "parseD" else mk("off", P0, 1)) == 1:
                        J_.check(d[0] - s * D[0] == 1 + LAST[n], "size", p, "expects a message to end %d bytes after its last string" % (d[0] - s * D[0] - 1), rule=FRAME)
                if d is not None and {k: v for k, v in d[1].items()} in ({k: v for k, v in D[1].items()}, {k: -v for k, v in D[1].items()}):
                    s = 1 if d[1] == D[1] else -1
                    J_.check(d[0] - s * D[0] >= x.a[2], "last", p, "takes the end of the message to lie before what it has read", rule=FRAME)

    # -- what a parser notes for the answer
    def flags(self, n, J_):
        own = FLAG.get(n)
        sets = any(own in flags(self.prog, p) for p in J_.paths)
        for p in J_.paths:
            f = {k: v for k, v in flags(self.prog, p).items() if isc(v)}
            err = "error" in f and f["error"].a[0] != 0
            ok = same(p.ret, P1)
            on = {k for k in OWN if k in f and f[k].a[0] != 0}
            if err:
                J_.check(not on, "error", p, "notes both an error and %s" % "/".join(sorted(on)), rule=ANSR)
                J_.check(any(errtext(p)) or bool(errtext(p)) or any(e.name == "parse_query_args" for e in p.ev) or (None if [e for e in p.ev if e.name not in ("=", "=L", "llvm.threadlocal.address.p0")] else False),
                         "reason", p, "notes an error without a reason", rule=ANSR)
            elif ok and own and sets:
                J_.check(on == {own} or (False if on or not any(e.name not in KNOWN for e in p.ev) else None), "noted", p,
                         "accepts a message without noting it (%s)" % own, rule=ANSR)
            elif ok:
                r = errtext(p)
                if r:
                    J_.check(False, "reason", p, "does not note the error '%s'" % r[-1], rule=ANSR)
            if not ok and own and on:
                J_.check(False, "failed", p, "notes a message it refuses (%s)" % "/".join(sorted(on)), rule=ANSR)

    # -- names fit where they are kept
    def names(self, n, J_):
        for p in J_.paths:
            for e in evs(p, "strcpy"):
                d = e.args[0]
                if under(d).k != "al":
                    continue
                f = fieldof(self.prog, d)
                size = arraysize(self.prog, f)
                if size is None:
                    continue
                L = [x for t in p.facts for x in walk(t) if x.k in ("call", "pure") and "strlen" in x.a[:2] and any(isinstance(a, T) and same(a, e.args[1]) for a in flat(x))]
                hi = min([upper(p, x) for x in L] or [1 << 62])
                J_.check(hi < size, "fit", p, "copies a name of %s bytes into the %d bytes of %s" % ("any number of" if hi > 1 << 40 else "up to %d" % hi, size, f[1]), e, rule=BOUND)

    def order(self, J_, p, e, k, want, what):
        n = strno(J_, p, e.args[k], P0)
        J_.check(None if n is None else n == want, what, p, "takes string %s of the message for the %s" % (n, what), e)


KNOWN = {"memset", "parse_seterror", "parse_errorf", "=", "=L", "L", "X", "strlen", "strcpy", "strcmp", "memcpy", "copyin", "args_clear", "args_append", "buf_clear", "parse_query_args", "portal_get", "portal_insert",
         "statement_get", "statement_insert", "__ctype_b_loc", "llvm.threadlocal.address.p0", "xmalloc", "xfree", "snprintf", "buf_append", "parse_u64"}


def flat(t):
    for a in t.a:
        if isinstance(a, T):
            yield a
        elif isinstance(a, (tuple, list)):
            for b in a:
                if isinstance(b, T):
                    yield b


def copied(J_, al):
    """is this local variable of the function read anywhere"""
    if al.k != "al":
        return True
    ids = {al.a[0]}
    insts = [I for b in J_.S.f.blocks.values() for I in b.insts]
    for I in insts:
        if I.op in ("getelementptr", "bitcast") and I.a and I.a[0][0] == "v" and I.a[0][1] in ids:
            ids.add(I.id)
    for I in insts:
        if I.op == "load" and I.a[0][0] == "v" and I.a[0][1] in ids:
            return True
        if I.op == "call" and "mem" in str(I.callee) and len(I.a) > 1 and I.a[1][0] == "v" and I.a[1][1] in ids:
            return True
    return False


def agreesall(p, t, env):
    """does this fact of the path hold for the values; None unknown"""
    n = value(t, env)
    if n is None:
        return None
    if t.k == "cmp":
        k = p.truth(t)
        return None if k is None else bool(n) == k
    lo, hi, ex = p.range(t)
    n = n - (1 << 64) if n >> 63 else n
    return lo <= n <= hi and n not in ex


def upper(p, x):
    """largest value of a term the facts of the path allow"""
    hi = p.range(x)[1]
    for t in p.facts:
        if t.k == "cmp" and t.a[0] in ("ult", "slt", "ule", "sle"):
            v = p.truth(t)
            if v is None:
                continue
            D = lsub(t.a[2], t.a[1])
            least, most = (1 if t.a[0][1:] == "lt" else 0, None) if v else (None, 0 if t.a[0][1:] == "lt" else -1)
        elif t.k == "bin":
            D, (least, most, _) = linz(t), p.range(t)
        else:
            continue
        if D is None or set(D[1]) != {x} or abs(D[1][x]) != 1:
            continue
        if D[1][x] < 0 and least is not None:
            hi = min(hi, D[0] - least)          # D0 - x >= least
        elif D[1][x] > 0 and most is not None and most < 1 << 62:
            hi = min(hi, most - D[0])
    return hi if hi >= 0 else 1 << 62


def arraysize(prog, f):
    """size of the character array that is this member, in bytes"""
    if f is None:
        return None
    for m in prog.structs.get(f[0], {"m": ()})["m"]:
        if m["n"] == f[1]:
            return m["c"] if m["c"] and m["es"] == 8 else None
    return None


class Ext2(Ext):
    def query(self, J_):
        """a simple query runs only when it was parsed and has no parameters"""
        for p in self.good(J_):
            q = evs(p, "parse_query_args")
            f = flags(self.prog, p)
            err = "error" in f and isc(f["error"]) and f["error"].a[0] != 0
            for e in q:
                self.order(J_, p, e, 0, 0, "query")
                J_.check(same(e.args[1], P2), "args", p, "parses the query into other arguments than those to be run", e)
                r = resultzero(p, e.res)
                if r is True:
                    J_.check(err, "refused", p, "runs a query that could not be parsed", e)
                elif r is False:
                    n = [t for t in p.facts if t.k == "ld" and same(t.a[1], e.args[2]) and p.range(t)[:2] != (-(1 << 63), (1 << 63) - 1)]
                    lo = max([p.range(t)[0] for t in n] or [-1])
                    hi = min([p.range(t)[1] for t in n] or [1 << 62])
                    if lo > 0:
                        J_.check(err, "parameters", p, "runs a simple query with parameters", e)
                    elif n and hi > 0 and not err:
                        J_.check(False, "parameters", p, "runs a simple query with parameters", e)
                    elif not n and not err and not any(e.name not in KNOWN for e in p.ev):
                        J_.check(False, "parameters", p, "runs a simple query without having looked for parameters", e)
                    elif err and hi <= 0:
                        J_.check(False, "parameters", p, "refuses a simple query without parameters", e)
            if err and q:
                J_.check(bool(evs(p, "args_clear")) or None if any(e.name not in KNOWN for e in p.ev) else bool(evs(p, "args_clear")), "clear", p, "leaves arguments of a refused query to be run")
            n = [p.range(t) for t in p.facts if t.k == "ld" and fieldof(self.prog, t.a[1]) == ("struct.args", "len")]
            if q and not err and n:
                r = n[-1]
                f = flags(self.prog, p)
                if zero(r):
                    J_.check("empty_query" in f, "empty", p, "does not note that the query is empty", rule=ANSR)
                elif nonzero(r):
                    J_.check("empty_query" not in f, "empty", p, "notes a query as empty that is not", rule=ANSR)

    def password(self, J_):
        for p in J_.paths:
            f = flags(self.prog, p)
            v = [e for e in p.ev if e.name in ("strcmp", "memcmp", "strncmp") and any(isglobal(x, "auth") or any(isglobal(y, "auth") for y in walk(x)) for x in e.args[:2])]
            if "auth" in f and isc(f["auth"]) and f["auth"].a[0]:
                J_.check(any(resultzero(p, e.res) for e in v) or (None if not v and any(e.name not in KNOWN for e in p.ev) else False), "password", p, "accepts a password that is not the one set", rule=PASS)
                for e in v:
                    o = [x for x in e.args[:2] if not any(isglobal(y, "auth") for y in walk(x))]
                    if len(o) == 1:
                        n = strno(J_, p, o[0], P0)
                        J_.check(None if n is None else n == 0, "password text", p, "compares something else than the password sent", e, rule=PASS)
                    if e.name != "strcmp" and len(e.args) > 2:
                        L = [x for x in walk(e.args[2]) if x.k in ("call", "pure") and "strlen" in x.a[:2]]
                        both = [x for t in p.facts for x in walk(t) if x.k in ("call", "pure") and "strlen" in x.a[:2]]
                        J_.check(False if len(L) == 1 and o and any(same(a, o[0]) for a in flat(L[0])) and not [x for x in both if x is not L[0]] else None, "password length", p,
                                 "accepts the beginning of the password", e, rule=PASS)
            elif v and any(resultzero(p, e.res) is False for e in v):
                J_.check(same(p.ret, P1) is False or not same(p.ret, P1), "wrong", p, "goes on after a wrong password", v[0], rule=PASS)

    # -- Bind
    def bind(self, J_):
        prog = self.prog
        for p in J_.iters:
            for e in evs(p, "args_append", p.segment()):
                self.param(J_, p, e)
            self.counted(J_, p, {2}, "args_append")
        for p in self.good(J_):
            ins = evs(p, "portal_insert")
            f = flags(prog, p)
            if "bind" not in f:
                J_.check(not ins, "kept", p, "keeps a portal it refuses", ins[0] if ins else None)
                continue
            J_.check(bool(ins) or (None if any(e.name not in KNOWN for e in p.ev) else False), "kept", p, "accepts a Bind without keeping its portal")
            if not ins:
                continue
            for e in evs(p, "strcpy"):
                m = fieldof(prog, e.args[0])
                if m == ("struct.pg_portal", "name"):
                    self.order(J_, p, e, 1, 0, "portal's name")
                elif m == ("struct.pg_portal", "stmt"):
                    self.order(J_, p, e, 1, 1, "statement's name")
            cl = [e for e in p.ev if e.name == "args_clear"]
            app = any(evs(q, "args_append", q.segment()) for q in J_.iters)
            J_.check(bool(cl) or (False if app and not any(e.name not in KNOWN for e in p.ev) else None), "fresh", p, "does not begin the parameters of a Bind anew")
            took = [e for e in p.ev if e.name == "copyin" and fieldof(prog, e.args[1]) == ("struct.pg", "targs")]
            if took:
                k = p.ev.index(took[-1])
                reset = [e for e in p.ev[k:] if (e.name in ("memset", "memcpy", "=") and e.args and within(prog, e.args[0], "targs")
                                             and not (e.name == "=" and (fieldof(prog, e.args[0]) or ("", ""))[1] in ("len", "cap")))]
                J_.check(bool(reset) or (None if any(e.name not in KNOWN for e in p.ev[k:]) else False), "handed over", p,
                         "keeps using the parameters it has handed to the portal", took[-1])
        # formats
        for p in J_.iters:
            if evs(p, "args_append", p.segment()):
                continue
            X = pointer(p)
            if X is None:
                continue
            for v in (0, 1, 2, 256, 65535):
                env = {X: BASE, "bytes": memory({0: v >> 8, 1: v & 255}, BASE)}
                if any(f.k == "cast" and f.a[0] == "trunc" and X in (linz_atoms(f)) for f in p.facts) and holds(p, env) is not False:
                    J_.check(v in (0, 1), "format", p, "accepts the parameter format %d" % v)

    def param(self, J_, p, e):
        """a parameter's bytes follow its length"""
        A, n = e.args[1], e.args[2]
        X = pointer(p)
        if X is None:
            return
        nxt = p.phis[X.a[0]][1]
        for v in (0, 1, 5, 300, 70000, 0xFFFFFFFF, 0x80000000):
            env = {X: BASE, "bytes": memory({k: b for k, b in header(v, 0).items()}, BASE)}
            if holds(p, env) is False or not any(value(t, env) is not None and any(y.k == "ld" and X in (linz(y.a[1]) or (0, {}))[1] for y in walk(t)) for t in p.facts):
                continue
            want = 0 if v >> 31 else v
            a, m, z = value(A, env), value(n, env), value(nxt, env)
            lab = "-1 (null)" if v >> 31 else str(v)
            J_.check(None if m is None else m == want, "length", p, "takes %s bytes for a parameter of length %s" % (m, lab), e)
            J_.check(None if a is None else a == BASE + 4 or (want == 0 and m == 0), "bytes", p, "takes the bytes of a parameter from %s bytes after its length" % (a - BASE - 4 if a is not None else ""), e)
            J_.check(None if z is None else z == BASE + 4 + want, "next", p, "goes on %s bytes after the length of a parameter of %s bytes" % (z - BASE - 4 if z is not None else "", lab), e)
        if not isc(strip(n)):
            b, known = bounds(p, mk("bin", "add", A, n), self.end)
            J_.check(b is not None and b >= 0 or (False if bounds(p, A, self.end)[1] else None), "inside", p, "takes a parameter's bytes beyond the end of the message", e, rule=BOUND)
        J_.check((fieldof(self.prog, e.args[0]) == ("struct.pg", "targs")) or None, "list", p, "", e)

    def counted(self, J_, p, steps, not_):
        """the items of a counted list have the size they are announced with, and the list begins after its count"""
        if evs(p, not_, p.segment()):
            return
        X = pointer(p)
        if X is None:
            return
        d = lsub(p.phis[X.a[0]][1], X)
        cnt = [i for i, (a, b) in p.phis.items() if i != X.a[0] and lsub(b, a) == (1, {})]
        num = None
        for f in p.facts:
            if f.k == "cmp" and f.a[0] in ("slt", "ult") and p.truth(f) and strip(f.a[1]).k == "phi" and strip(f.a[1]).a[0] in cnt:
                num = f.a[2]
        if num is None or d is None or d[1]:
            return
        J_.check(d[0] in steps, "item", p, "takes items of %d bytes" % d[0])
        at = [x.a[1] for x in walk(num) if x.k == "ld"]
        if not at:
            return
        # value of the count
        roots = {y for A in at for y in (linz(A) or (0, {}))[1]}
        if len(roots) != 1:
            return
        r = next(iter(roots))
        lo = min(lsub(A, r)[0] for A in at)
        n = value(num, {r: BASE, "bytes": memory({lo: 1, lo + 1: 2}, BASE)})
        J_.check(None if n is None else n == 258, "count", p, "takes the bytes 1, 2 for the number %s" % n)
        for v in entryof(J_, X.a[0]):
            g = lsub(v, r)
            if g is not None and not g[1]:
                J_.check(g[0] - lo == 2, "list", p, "begins a list %d bytes after its count" % (g[0] - lo))
        z = any(nul(p, r) for _ in (0,))
        if strip(r).k == "phi":
            J_.check(lo == (1 if z else 0), "count at", p, "reads a count %d bytes after the %s" % (lo, "end of a string" if z else "last item"))

    # -- Parse
    def parse(self, J_):
        prog = self.prog
        for p in J_.iters:
            self.counted(J_, p, {4}, "args_append")
            for e in evs(p, "args_append", p.segment()):
                f = fieldof(prog, e.args[0])
                a, n = ldfield(e.args[1], prog), ldfield(e.args[2], prog)
                for x in {x for x in walk(e.args[1]) if x.k == "phi" and x.a[0] in p.phis}:
                    v = entryof(J_, x.a[0])
                    if len(v) == 1 and isc(v[0]) and lsub(p.phis[x.a[0]][1], x) == (1, {}):
                        J_.check(v[0].a[0] == 0, "copy", p, "keeps the arguments of a statement from number %d on only" % v[0].a[0], e)
                if a and n:
                    J_.check(a[1] == "data" and n[1] == "len" and lsub(strip(e.args[1]).a[1], strip(e.args[2]).a[1]) in ((-DL(prog), {}),) or
                             (False if a[1] == "data" and n[1] == "len" and lsub(strip(e.args[1]).a[1], strip(e.args[2]).a[1])[1] == {} else None), "copy", p,
                             "keeps another text than that of the argument", e)
        for p in self.good(J_):
            q = evs(p, "parse_query_args")
            ins = evs(p, "statement_insert")
            for e in q:
                self.order(J_, p, e, 0, 1, "query")
                r = resultzero(p, e.res)
                J_.check(True if r is False else None if r is None else not ins, "parsed", p, "keeps a statement that could not be parsed", e)
                types = strip(e.args[3])
                J_.check(not isc(types) or types.a[0] != 0, "types", p, "does not note which arguments are parameters", e)
            f = flags(prog, p)
            if "parse" in f:
                J_.check(bool(ins) or (None if any(e.name not in KNOWN for e in p.ev) else False), "kept", p, "accepts a Parse without keeping its statement")
            if ins:
                self.kept(J_, p, ins[-1], q)
                for e in evs(p, "strcpy"):
                    if fieldof(prog, e.args[0]) == ("struct.pg_statement", "name"):
                        self.order(J_, p, e, 1, 0, "statement's name")
                J_.check(bool(evs(p, "args_clear")) or (None if any(e.name not in KNOWN for e in p.ev) else False), "clear", p, "leaves the arguments of a prepared statement to be run at once")
            elif q and any(errtext(p) or [1]):
                J_.check(bool(evs(p, "args_clear")) or (None if any(e.name not in KNOWN for e in p.ev) else False), "clear", p, "leaves arguments of a refused statement to be run")

    def kept(self, J_, p, e, q):
        """the statement kept is the one parsed"""
        prog = self.prog
        if not q or not isinstance(e.x, tuple):
            return
        off = prog.field_off("struct.pg_statement", "nparams")
        v = [c[4] for c in e.x if c[0] == 1 and c[1] == "=" and c[2] == off]
        if v:
            x = strip(v[0])
            J_.check((x.k == "ld" and same(x.a[1], q[-1].args[2])) or (False if isc(x) or (lsub(x, x) and [1 for y in walk(x) if y is not x and y.k == "ld" and same(y.a[1], q[-1].args[2])
                                                                                           and lsub(x, y)[1] == {}]) else None), "parameters", p,
                     "keeps a statement with another number of parameters than it has", e)
        off = prog.field_off("struct.pg_statement", "argtypes") + prog.field_off("struct.buf", "data")
        z = [c for c in e.x if c[0] == 1 and c[1] == "Z" and c[2] <= off < c[3]]
        v = [c for c in e.x if c[0] == 1 and c[1] == "=" and c[2] == off]
        J_.check(bool(v) and not isc(strip(v[0][4])) or (False if not copied(J_, strip(q[-1].args[3])) or (z and not v) or (v and isc(strip(v[0][4]))) else None), "types kept", p,
                 "does not keep which arguments of a statement are parameters", e)

    # -- Execute
    def execute(self, J_):
        prog = self.prog
        T0 = prog.field_off("struct.buf", "data")
        for p in J_.iters:
            seg = p.segment()
            out = [e for e in seg if e.name in ("args_append", "buf_append")]
            if not out:
                continue
            ty = [t for t in p.facts if t.k == "ld" and len(t.a) > 2 and t.a[2] == 1 and any(x.k == "phi" and x.a[0] in p.phis for x in walk(t.a[1]))
                  and any(x.k == "ld" and fieldof(prog, x.a[1]) == ("struct.buf", "data") for x in walk(t.a[1])) and not any(parsedin(x) for x in walk(t.a[1]))]
            ty = [t for t in ty if fromtypes(prog, t)]
            e = out[-1]
            J_.check(len(out) == 1, "once", p, "adds %d arguments for one of the statement" % len(out), e)
            src = e.args[1]
            isparam = any(x.k == "parsed" for x in walk(src))
            joined = e.name == "buf_append"
            if len(ty) == 1:
                for v in (65, 66, 80, 81):
                    env = {ty[0]: v}
                    if holds(p, env) is False:
                        continue
                    J_.check(isparam == (v in (80, 81)), "kind", p, "takes %s for %s of the statement" % (("the statement's text", "a parameter") if not isparam else ("a parameter", "a text")), e)
                    J_.check(joined == (v in (66, 81)), "joined", p, "%s an argument that %s follows another directly" % (("joins", "does not") if joined else ("does not join", "")), e)
            if isparam:
                q = [x for x in walk(src) if x.k == "parsed"][0]
                J_.check(q in set(walk(e.args[2])) or (None if strip(e.args[2]).k != "ld" else False), "size", p, "takes another length than the parameter's", e)
                for k, fld in ((1, "data"), (2, "len")):
                    a = strip(e.args[k])
                    if a.k != "ld":
                        continue
                    D = linz(a.a[1])
                    c = D[1].get(q) if D else None
                    if c:
                        J_.check(D[0] == prog.field_off("struct.buf", fld) - c, "which", p, "takes parameter number %s for $1" % ((D[0] - prog.field_off("struct.buf", fld)) // c + 2), e)
                pc = [x for x in seg if x.name == "parse_u64"]
                if pc:
                    a, n = pc[-1].args[0], pc[-1].args[1]
                    da = [x for x in walk(a) if x.k == "ld" and fieldof(prog, x.a[1]) == ("struct.buf", "data")]
                    dn = [x for x in walk(n) if x.k == "ld" and fieldof(prog, x.a[1]) == ("struct.buf", "len")]
                    if len(da) == 1 and len(dn) == 1:
                        J_.check(lsub(a, da[0]) == (1, {}) and lsub(n, dn[0]) == (-1, {}), "number", p, "takes the parameter's number from the wrong part of $n", pc[-1])
            else:
                a, n = strip(e.args[1]), strip(e.args[2])
                if a.k == "ld" and n.k == "ld":
                    d = lsub(a.a[1], n.a[1])
                    J_.check(d == (-DL(prog), {}) or (None if d is None or d[1] else False), "text", p, "takes another text than that of the argument", e)
        for p in self.good(J_):
            f = flags(prog, p)
            pg, sg = evs(p, "portal_get"), evs(p, "statement_get")
            for e in pg:
                self.order(J_, p, e, 1, 0, "portal's name")
            for e in sg:
                J_.check(fieldof(prog, e.args[1]) == ("struct.pg_portal", "stmt") or (False if pg and under(e.args[1]) is under(pg[-1].args[2]) else None), "statement", p, "runs another statement than the portal's", e)
            if "execute" not in f:
                continue
            for e in pg + sg:
                J_.check(True if resultzero(p, e.res) is False else False if resultzero(p, e.res) else None, "found", p, "runs a %s that does not exist" % e.name.split("_")[0], e)
            J_.check(bool(pg) and bool(sg) or (None if any(e.name not in KNOWN for e in p.ev) else False), "found", p, "runs without having looked up the portal and its statement")
            cmp_ = []
            for t in p.facts:
                m = {fieldof(prog, x.a[1]) for x in walk(t) if x.k == "ld"}
                if ("struct.args", "len") in m and ("struct.pg_statement", "nparams") in m:
                    D, v = (lsub(t.a[1], t.a[2]), p.truth(t)) if t.k == "cmp" else (linz(t), p.range(t)[:2] == (0, 0))
                    cmp_.append((t.k != "cmp" or t.a[0] == "eq") and v is True)
            for t in p.facts:
                at = {fieldof(prog, x.a[1]): x for x in walk(t) if x.k == "ld"}
                a, b = at.get(("struct.args", "len")), at.get(("struct.pg_statement", "nparams"))
                if a is not None and b is not None:
                    for i, j in ((0, 1), (1, 0), (2, 1), (1, 2), (3, 1)):
                        J_.check(agreesall(p, t, {a: i, b: j}) is False or None, "how many", p, "")
                        if agreesall(p, t, {a: i, b: j}) and len([1 for u in p.facts if a in set(walk(u))]) == 1:
                            J_.check(False, "how many", p, "runs a statement with %d parameters that was given %d" % (j, i))
            J_.check(any(cmp_) or (None if cmp_ or any(e.name not in KNOWN for e in p.ev) else False), "how many", p, "runs a statement without as many parameters as it has")
            clear = [e for e in p.ev if e.name == "args_clear"]
            J_.check(bool(clear) or (None if any(e.name not in KNOWN for e in p.ev) else False), "fresh", p, "does not begin the arguments anew")
            take = [k for k, e in enumerate(p.ev) if e.name == "memcpy" and same(e.args[0], P2) and within(prog, e.args[1], "targs")]
            other = [e for e in p.ev if e.name in ("=", "memcpy", "memset") and under(e.args[0]) is P2]
            J_.check(bool(take) or (None if other or any(e.name not in KNOWN for e in p.ev) else False), "run", p, "does not run the arguments it has put together")
            if take:
                rest = [e for e in p.ev[take[-1] + 1:] if e.name in ("memcpy", "memset", "=") and within(prog, e.args[0], "targs")]
                J_.check(bool(rest) or (None if any(e.name not in KNOWN for e in p.ev) else False), "handed over", p, "keeps the arguments it has handed over to be run", p.ev[take[-1]])

    # -- Describe
    def describe(self, J_):
        prog = self.prog
        for p in self.good(J_):
            f = flags(prog, p)
            for e in evs(p, "portal_get") + evs(p, "statement_get"):
                what = e.name.split("_")[0]
                n = strno(J_, p, e.args[1], mk("off", P0, 1))
                J_.check(None if n is None else n == 0, what, p, "describes a %s of another name" % what, e)
                J_.check("error" in f or resultzero(p, e.res) is not True, "found", p, "describes a %s that does not exist" % what, e)
            t = [x for x in p.facts if x.k == "ld" and same(x.a[1], P0) and x.a[2] == 1]
            if t and (evs(p, "portal_get") or evs(p, "statement_get")):
                w = possible(p, t[0], (80, 83, 88))
                if w:
                    J_.check(w == ([83] if evs(p, "statement_get") else [80]), "type", p, "looks up a %s for a Describe of type %s" % ("statement" if evs(p, "statement_get") else "portal", "/".join(map(chr, w))))
            if "desc" in f and "desclen" in f:
                self.described(J_, p, f)

    def described(self, J_, p, f):
        d = strip(f["desc"])
        if under(d).k != "new":
            return
        size = [e for e in p.ev if e.name == "xmalloc"]
        if not size:
            return

    # -- the tables of statements and portals
    def tables(self):
        prog, R = self.prog, self.R
        for n, free in (("statement_insert", "pg_statement_free"), ("portal_insert", "pg_portal_free")):
            F = func(prog, n, "postgres.c")
            if F is None:
                continue
            J_ = J(prog, R, F, PREP, cap=1000, mods=("postgres.c",), keep=(free,), copyin=True)
            for p in J_.paths:
                h = evs(p, "hashmap_set")
                if len(h) != 1:
                    J_.check(None if any(e.name.startswith("hashmap_") and e.name != "hashmap_new_with_allocator" for e in p.ev) else False, "kept", p, "does not keep it")
                    continue
                J_.check(same(h[0].args[1], P1), "kept", p, "keeps something else than what it was given", h[0])
                r = resultzero(p, h[0].res)
                if r is False:
                    J_.check(bool(evs(p, free)) or (None if any(e.name not in KNOWN and not e.name.startswith("hashmap") and e.name != free for e in p.ev) else False), "replaced", p,
                             "does not release the one it replaces", h[0])
                elif r is True:
                    J_.check(not evs(p, free), "replaced", p, "releases one although none was replaced", h[0])
        for n in ("statement_get", "portal_get"):
            F = func(prog, n, "postgres.c")
            if F is None:
                continue
            J_ = J(prog, R, F, PREP, cap=1000, mods=("postgres.c",), copies=True, copyin=True)
            for p in J_.paths:
                self.names(n, J_) if p is J_.paths[0] else None
                g = evs(p, "hashmap_get")
                r = p.range(p.ret)
                if g and nonzero(r):
                    J_.check(resultzero(p, g[-1].res) is False or (False if resultzero(p, g[-1].res) else None), "found", p, "finds one that does not exist", g[-1])
                    cp = [e for e in p.ev if e.name == "memcpy" and same(e.args[0], P2)]
                    J_.check(bool(cp) or (None if any(e.name in ("=", "memcpy") for e in p.ev) else False), "copied", p, "does not give back the one it found", g[-1])
                    sc = evs(p, "strcpy")
                    J_.check(any(same(e.args[1], P1) for e in sc) or (None if not sc else False), "name", p, "looks for another name", g[-1])
                elif g and zero(r):
                    J_.check(resultzero(p, g[-1].res) is not False, "found", p, "does not find one that exists", g[-1])
        for n in ("pg_statement_compare", "pg_portal_compare"):
            F = func(prog, n, "postgres.c")
            if F is None:
                continue
            J_ = J(prog, R, F, PREP, cap=200, mods=("postgres.c",), copyin=True)
            for p in J_.paths:
                c = [e for e in p.ev if e.name in ("strcmp", "strncmp", "memcmp", "strcasecmp")]
                if c:
                    J_.check(c[-1].name != "strcasecmp" and same(p.ret, c[-1].res) or (None if not same(p.ret, c[-1].res) else False), "names", p, "does not tell names apart by all of their bytes", c[-1])
                    mem = [fieldof(prog, a) for a in c[-1].args[:2]]
                    if all(mem):
                        J_.check({m[1] for m in mem} == {"name"}, "names", p, "compares something else than the names", c[-1])
        F = func(prog, "pg_free", "postgres.c")
        if F is not None:
            J_ = J(prog, R, F, PREP, cap=200, mods=("postgres.c",), keep=("statments_free", "portals_free"))
            want = {"application_name", "database", "user", "buf", "statements", "portals", "targs", "desc"}
            for p in J_.paths:
                if not evs(p, "xfree"):
                    continue
                got = set()
                for e in p.ev:
                    for a in e.args:
                        for x in walk(a):
                            f = fieldof(prog, x.a[1] if x.k == "ld" else x) if isinstance(x, T) else None
                            if f and f[0] == "struct.pg":
                                got.add(f[1])
                J_.check(want <= got or (None if any(e.name not in ("xfree", "buf_clear", "statments_free", "portals_free", "args_free", "=") for e in p.ev) else False), "free", p,
                         "does not release %s" % ", ".join(sorted(want - got)))
                J_.check(any(same(e.args[0], P0) for e in evs(p, "xfree")), "free pg", p, "does not release the state itself")

    # -- the startup message
    def startup(self):
        prog, R = self.prog, self.R
        F = func(prog, "parse_magic_proto3", "postgres.c")
        if F is None:
            return
        J_ = J(prog, R, F, START, cap=4000, mods=("postgres.c",))
        end = mk("bin", "add", P0, P1)
        for p in J_.iters:
            for x in byteloads(p):
                if x.a[2] == 1 and strip(x.a[1]).k == "phi" and entryof(J_, strip(x.a[1]).a[0]) == [P0]:
                    b, known = bounds(p, x.a[1], end)
                    if lsub(p.phis.get(strip(x.a[1]).a[0], (None, None))[1], x.a[1]) == (1, {}):
                        J_.check(b is not None and b >= 1, "byte", p, "reads beyond the startup message", rule=BOUND)
        names = {}
        for p in J_.iters:
            eq = [e for e in evs(p, "strcmp", p.segment()) if resultzero(p, e.res)]
            for e in eq:
                t = text(strip(e.args[0])) or text(strip(e.args[1]))
                ch = {i for i, (a, b) in p.phis.items() if strip(b).k == "phi" and strip(b) is not strip(a)}
                if t:
                    names.setdefault(t, []).append(ch)
        for p in J_.paths:
            r = p.range(p.ret)
            f = flags(prog, p)
            bad = [e for e in evs(p, "strcmp") if text(strip(e.args[1])) == "UTF8" and resultzero(p, e.res) is False]
            if bad:
                J_.check("startup" not in f, "encoding", p, "accepts another encoding than UTF8", bad[0])
                continue
            enc = [e for e in evs(p, "strcmp") if text(strip(e.args[1])) == "UTF8"]
            for e in enc:
                if "startup" in f:
                    J_.check(resultzero(p, e.res) is True, "encoding", p, "accepts another encoding than UTF8", e)
            if "startup" not in f:
                continue
            for m in ("user", "database", "application_name"):
                if m not in f or m not in names:
                    continue
                w = [k for k, e in enumerate(p.ev) if e.name == "=" and member(prog, e) == m]
                fr = [e for e in p.ev[:w[0]] if e.name == "xfree" and ldfield(e.args[0], prog) == ("struct.pg", m)]
                J_.check(bool(fr) or (None if any(e.name not in KNOWN for e in p.ev) else False), m + " before", p, "does not release the %s of an earlier startup message" % m, p.ev[w[0]])
                cp = [e for e in evs(p, "strcpy") if same(e.args[0], f[m])]
                if not cp:
                    continue
                s = strip(cp[-1].args[1])
                if s.k != "phi" and names[m] and all(names[m]) and text(s) is not None:
                    J_.check(False, m, p, "does not keep the %s" % m, cp[-1])
                if s.k == "phi":
                    J_.check(not any(s.a[0] in c for t in names if t != m for c in names[t]), m, p, "keeps another value as the %s" % m, cp[-1])
                    J_.check(any(s.a[0] in c for c in names[m]) or (False if any(s.a[0] in c for t in names for c in names[t]) else None), m, p, "keeps another value as the %s" % m, cp[-1])
                mal = [e for e in evs(p, "xmalloc") if same(e.res, f[m])]
                for e in mal:
                    L = [x for x in walk(e.args[0]) if x.k in ("call", "pure") and "strlen" in x.a[:2]]
                    if len(L) == 1:
                        D = lsub(e.args[0], L[0])
                        src = [a for a in flat(L[0])]
                        if D is not None and not D[1] and any(same(a, s) for a in src):
                            J_.check(D[0] >= 1, m + " size", p, "makes room for %d bytes more than the length of the %s only" % (D[0], m), e, rule=BOUND)


def within(prog, A, member):
    """does the address lie in this member of the connection's Postgres state"""
    f = fieldof(prog, A)
    if f == ("struct.pg", member):
        return True
    d = lsub(A, P3)
    if d is None or d[1]:
        return False
    for m in prog.structs.get("struct.pg", {"m": ()})["m"]:
        if m["n"] == member:
            return m["o"] // 8 <= d[0] < (m["o"] + m["s"]) // 8
    return False


def DL(prog):
    return prog.field_off("struct.buf", "len") - prog.field_off("struct.buf", "data")


def parsedin(x):
    return x.k == "parsed"


def fromtypes(prog, t):
    """is this byte one of the list of argument types"""
    for x in walk(t.a[1]):
        if x.k == "ld":
            f = x.a[1]
            for m in prog.structs.get("struct.pg_statement", {"m": ()})["m"]:
                if m["n"] == "argtypes":
                    u = under(f)
                    d = lsub(f, u)
                    if u.k == "al" and d is not None and not d[1] and d[0] == m["o"] // 8 + prog.field_off("struct.buf", "data"):
                        return True
    return False


def linz_atoms(t):
    return {y for x in walk(t) if x.k == "ld" for y in (linz(x.a[1]) or (0, {}))[1]}


def pointer(p):
    """the loop variable of an iteration that moves through the message"""
    out = []
    for i, (a, b) in p.phis.items():
        if b is None or a is None:
            continue
        x = strip(a)
        if x.k != "phi":
            continue
        if any(y.k == "ld" and x in (linz(y.a[1]) or (0, {}))[1] for t in list(p.facts) + [z for e in p.segment() for z in e.args if isinstance(z, T)] + [strip(b)] for y in walk(t)):
            out.append(x)
        elif any(x in (linz(t) or (0, {}))[1] and any(y is P1 for y in walk(t)) for t in p.facts if t.k == "bin"):
            out.append(x)
    return out[0] if len(out) == 1 else None


# ---------------------------------------------------------------- answers
def respond(prog, R):
    F = func(prog, "pg_respond", "postgres.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, ANSR, cap=4000, mods=("postgres.c",), keep=("write_auth_ok", "pg_write_auth", "pg_write_ready"))
    K = ["error", "empty_query", "parse", "bind", "describe", "sync", "close", "ssl", "auth", "startup"]
    for on in [{k} for k in K] + [{"auth", "startup"}, {"error", "parse"}]:
        for aset in (False, True):
            for p in J_.paths:
                env = {}
                for t in p.facts:
                    for x in walk(t):
                        if x.k == "ld":
                            f = fieldof(prog, x.a[1])
                            if f and f[0] == "struct.pg" and f[1] in K:
                                env[x] = 1 if f[1] in on else 0
                            elif isglobal(x, "auth"):
                                env[x] = BASE
                            elif isglobal(x.a[1], "auth") or (x.a[1].k == "ld" and isglobal(x.a[1], "auth")):
                                env[x] = 65 if aset else 0
                if holds(p, env) is False:
                    continue
                answer(prog, J_, p, on, aset)


def bytesof(e):
    t = text(strip(e.args[1]))
    return t


def answer(prog, J_, p, on, aset):
    f = flags(prog, p)
    raw = [e for e in p.ev if e.name in ("conn_write_raw", "conn_write_raw_cstr")]
    other = [e for e in p.ev if e.name not in CALM]
    r = p.range(p.ret)
    call = lambda n: [e for e in p.ev if e.name == n]

    def chk(c, key, msg, e=None):
        J_.check(c if c or not other else None, key, p, msg, e)

    def cleared(*ks):
        for k in ks:
            chk(k in f and isc(f[k]) and f[k].a[0] == 0, k + " cleared", "answers '%s' again with the next message" % k)

    def code(letter, what):
        ok = any(first(prog, e) == ord(letter) for e in raw) or (None if any(first(prog, e) is None for e in raw) else False)
        chk(ok, what, "does not answer %s with '%s'" % (what, letter))
    if "error" in on:
        e = call("conn_write_error") + call("pg_write_error")
        chk(bool(e), "error", "does not report an error")
        for x in e:
            chk(any(y.k in ("call", "pure") and "parse_lasterror" in y.a[:2] for y in walk(x.args[1])) or x.args[1].k != "c" and None, "error text", "reports another error than the one recorded", x)
        chk(not raw, "error", "answers a message that was refused")
        return
    if on == {"empty_query"}:
        code("I", "an empty query")
        chk(any(first(prog, e) == ord("Z") for e in raw) or bool(call("pg_write_ready")) or (None if any(first(prog, e) is None for e in raw) else False), "empty ready", "does not say it is ready after an empty query")
        cleared("empty_query")
    elif on == {"parse"}:
        code("1", "a Parse")
        cleared("parse")
    elif on == {"bind"}:
        code("2", "a Bind")
        cleared("bind")
    elif on == {"describe"}:
        d = [e for e in raw if ldfield(e.args[1], prog) == ("struct.pg", "desc")]
        chk(bool(d), "describe", "does not answer a Describe with its description")
        for e in d:
            chk(ldfield(e.args[2], prog) == ("struct.pg", "desclen"), "describe length", "answers a Describe with the wrong number of bytes", e)
        fr = [e for e in call("xfree") if ldfield(e.args[0], prog) == ("struct.pg", "desc")]
        if fr:
            chk("desc" in f and isc(f["desc"]) and f["desc"].a[0] == 0, "describe released", "keeps the description it has released", fr[0])
            if d:
                chk(p.ev.index(fr[0]) > p.ev.index(d[0]), "describe order", "writes a description it has released", d[0])
        cleared("describe")
    elif on == {"sync"}:
        w = call("pg_write_ready")
        chk(bool(w), "sync", "does not say it is ready after a Sync")
        if w:
            k = p.ev.index(w[0])
            g = flags(prog, p, p.ev[:k])
            chk("execute" in g and isc(g["execute"]) and g["execute"].a[0] == 0, "sync execute", "does not end the extended query at a Sync", w[0])
            chk(isc(strip(w[0].args[1])) and strip(w[0].args[1]).a[0] & 255 == ord("I"), "sync state", "says it is in a transaction", w[0])
        cleared("sync")
    elif on == {"close"}:
        chk(zero(r), "close", "does not end the connection when asked to")
    elif on == {"ssl"}:
        t = [e for e in call("conn_istls")]
        tls = None
        for e in t:
            tls = {True: False, False: True, None: None}[resultzero(p, e.res)]
        if tls is False:
            chk(any(first(prog, e) == ord("N") for e in raw) or (None if any(first(prog, e) is None for e in raw) else False), "ssl", "does not decline an SSL request on a plain connection")
            chk(not any(first(prog, e) in (ord("Y"), ord("S")) for e in raw), "ssl", "grants an SSL request on a plain connection")
        cleared("ssl")
    elif on == {"auth", "startup"}:
        s = call("conn_setauth")
        chk(bool(s) and nonzero(p.range(strip(s[-1].args[1]))) if s else False, "auth", "does not let in a client with the right password")
        chk(bool(call("write_auth_ok")), "auth answer", "does not tell the client that its password was right")
        cleared("auth", "startup")
    elif on == {"auth"}:
        chk(zero(r), "auth first", "takes a password before a startup message")
        chk(not call("conn_setauth"), "auth first", "lets in a client before its startup message")
    elif on == {"startup"}:
        chk(not call("conn_setauth"), "startup", "lets in a client that has not given its password")
        if aset:
            chk(not call("write_auth_ok"), "startup", "lets in a client that has not given its password")
            w = call("pg_write_auth")
            chk(bool(w), "startup", "does not ask for the password")
            for e in w:
                chk(isc(strip(e.args[1])) and strip(e.args[1]).a[0] == 3, "startup ask", "asks for another kind of password", e)
        else:
            chk(bool(call("write_auth_ok")), "startup", "does not answer a startup message")
            cleared("startup")
    if "close" not in on and on != {"auth"}:
        chk(not zero(r), "goes on", "ends the connection after answering %s" % "/".join(sorted(on)))


CALM = {"=", "=L", "L", "X", "conn_write_error", "pg_write_error", "parse_lasterror", "conn_write_raw", "conn_write_raw_cstr", "pg_write_ready", "pg_write_auth", "write_auth_ok",
        "conn_setauth", "conn_istls", "xfree", "__assert_fail"}


def first(prog, e):
    """first byte written"""
    t = strip(e.args[1])
    s = text(t)
    if s:
        return ord(s[0])
    return None
