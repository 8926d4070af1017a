"""C12: an entry holds exactly the key, value, flags, expiry and unique value it was made with."""
from gensim import *
from semlib import under
from p_sem import ASSUME
from p_pg import value, M64
from p_pgq import agree

EXPLAIN = {
    "C12": "every path of the functions that make, read and compare entries, evaluated together over the bytes of an entry for every combination of optional parts, packed and plain keys "
           "and the sizes around each width of the length prefix; every turn of the loops that pack keys and write lengths; the tables of the packing",
}
MAKE = "an entry is as large as its parts and keeps each of them in place"
READ = "reading an entry returns what it was made with"
PACK = "packing a key and unpacking it returns the key"
LEN = "a length that is written is read back"
CMP = "two entries compare equal exactly when their keys are equal"
P = [mk("p", i) for i in range(10)]
KEEP = ("sixpack", "unsixpack", "varint_write_u64", "varint_read_u64")
KW = dict(cap=3000, mods=("pogocache.c",), copies=True, fills=True, keep=KEEP)
ENT, ENT2, CTX, KEY, VAL, OUT, LOC, GLB = 1 << 44, (1 << 44) + (1 << 40), 1 << 33, 1 << 41, 1 << 42, 1 << 34, 1 << 35, 1 << 37
ALPHA = "-.0123456789:ABCDEFGHIJKLMNOPRSTUVWXY_abcdefghijklmnopqrstuvwxy"


def C12(prog, R, tier):
    tab = packing(prog, R)
    if tab:
        pack(prog, R, tab)
        unpack(prog, R, tab)
    varwrite(prog, R)
    varread(prog, R)
    entries(prog, R)


class Mem:
    """bytes given, and what stores and copies put over them"""

    def __init__(self, prog):
        self.prog = prog
        self.base = {}
        self.segs = []
        self.env = {"bytes": self.rd}
        self.nal = 0
        self.fill = None

    def put(self, a, bs):
        for k, b in enumerate(bs):
            self.base[a + k] = b & 255

    def ctx(self, **f):
        for m in self.prog.structs["struct.pgctx"]["m"]:
            if m.get("n") in f:
                self.put(CTX + m["o"] // 8, [f[m["n"]]])

    def byte(self, a):
        for s, n, kind, v in reversed(self.segs):
            if s <= a < s + n:
                if kind == "n":
                    return None if v is None else v >> 8 * (a - s) & 255
                return self.base.get(v + a - s)
        b = self.base.get(a)
        if b is None and self.fill is not None and self.fill[0] <= a < self.fill[1]:
            return self.fill[2]
        return b

    def rd(self, t, a):
        n = t.a[2] if len(t.a) > 2 and isinstance(t.a[2], int) else 1
        return self.num(a, n)

    def num(self, a, n):
        v = [self.byte(a + k) for k in range(n)]
        return None if None in v else sum(b << 8 * k for k, b in enumerate(v))

    def store(self, a, n, v):
        self.segs.append((a, n, "n", v))

    def copy(self, a, src, n):
        """later copies from a place follow where it was copied from"""
        for s, l, v in self.pieces(src, n):
            self.segs.append((a + s - src, l) + v)

    def pieces(self, a, n):
        cuts = sorted({a, a + n} | {x for s, m, _, _ in self.segs for x in (s, s + m) if a < x < a + n})
        out = []
        for x, y in zip(cuts, cuts[1:]):
            for s, m, kind, v in reversed(self.segs):
                if s <= x < s + m:
                    out.append((x, y - x, (kind, None if v is None else v >> 8 * (x - s) if kind == "n" else v + x - s)))
                    break
            else:
                out.append((x, y - x, ("a", x)))
        return out

    def origin(self, a, n):
        """the places the n bytes at a were copied from: [(place, length)], place None: stored or unknown"""
        out = []
        for x, l, (kind, v) in self.pieces(a, n):
            v = v if kind == "a" else None
            if out and out[-1][0] is not None and v == out[-1][0] + out[-1][1]:
                out[-1] = (out[-1][0], out[-1][1] + l)
            else:
                out.append((v, l))
        return out

    def is_text(self, a, n, text):
        """do the n bytes at a read as text; text: bytes, or the place they come from"""
        if isinstance(text, int):
            return n == 0 or self.origin(a, n) == [(text, n)]
        v = [self.byte(a + k) for k in range(n)]
        return None if None in v else bytes(v) == text

    def snapshot(self):
        m = Mem(self.prog)
        m.base, m.segs, m.nal, m.fill = dict(self.base), list(self.segs), self.nal, self.fill
        m.env.update({t: n for t, n in self.env.items() if t != "bytes"})
        return m

    def locals(self, p):
        for t in [x for e in p.ev for a in e.args if isinstance(a, T) for x in walk(a)] + [x for t in p.facts for x in walk(t)] + ([x for x in walk(p.ret)] if p.ret is not None else []):
            if t.k == "al" and t not in self.env:
                self.nal += 1
                self.env[t] = LOC + (self.nal << 12)

    def val(self, t):
        return value(t, self.env)


def storewidth(e, evs):
    if e.I is not None and e.I.op == "store":
        w = e.I.d.get("vt")
        if w == "ptr":
            return 8
        return int(w[1:]) // 8 if w and w[0] == "i" and w[1:].isdigit() and int(w[1:]) >= 8 else None
    cp = [x for x in evs if x.I is e.I and x.name in ("memcpy", "memmove")]
    if len(cp) == 1 and sum(x.name == "=" and x.I is e.I for x in evs) == 1 and isc(cp[0].args[2]):
        return cp[0].args[2].a[0]


def play(m, p, calls):
    """the effects of the events of a path over the memory; calls: name -> function(event, values), which sets the result in m.env; True: the path is taken for these values, None: cannot be told"""
    m.locals(p)
    sure = True
    left = list(p.facts)

    def facts():
        nonlocal sure, left
        rest = []
        for t in left:
            n = m.val(t)
            if n is None:
                rest.append(t)
            elif not agree(p, t, n):
                return False
        left = rest
        return True
    if not facts():
        return False
    for e in p.ev:
        if e.name in ("L", "X"):
            continue
        if e.name == "copyin":
            # a local variable that is read in parts begins with zero
            a, b, n = (m.val(x) for x in e.args[:3])
            if None in (a, b, n) or e.args[0].k != "al":
                return None
            if m.byte(a) is None:
                m.put(a, [0] * 16)
            m.copy(a, b, n)
        elif e.name == "=":
            a, v, w = m.val(e.args[0]), m.val(e.args[1]), storewidth(e, p.ev)
            if a is None or w is None:
                return None
            m.store(a, w, v)
        elif e.name in ("memcpy", "memmove"):
            a, b, n = (m.val(x) for x in e.args[:3])
            if a is None or n is None:
                return None
            if any(x.name == "=" and x.I is e.I for x in p.ev):
                continue
            if b is None or under(e.args[1]).k == "al" and not any(m.byte(b + k) is not None for k in range(min(n, 1))) and n:
                m.store(a, n, None)
            else:
                m.copy(a, b, n)
        else:
            f = calls.get(e.name)
            if f is None:
                if e.name in ("__assert_fail",):
                    return False
                return None
            if f(e, [m.val(x) for x in e.args]) is None:
                return None
        if not facts():
            return False
    return None if left else True


class Sieve:
    """the paths of a function that the values of a case allow before anything is called"""

    def __init__(self, paths):
        self.paths = [p for p in paths if not p.joined and p.kind == "exit"]
        self.by = {}
        for i, p in enumerate(self.paths):
            for t in p.facts:
                g = self.by.setdefault(t, {})
                lo, hi, ex = p.range(t)
                k = (p.truth(t), lo, hi, tuple(sorted(ex)))
                q, b = g.get(k, (p, 0))
                g[k] = (q, b | 1 << i)

    def __call__(self, m):
        left = (1 << len(self.paths)) - 1
        for t, g in self.by.items():
            n = m.val(t)
            if n is None:
                continue
            for p, b in g.values():
                if left & b and not agree(p, t, n):
                    left &= ~b
        return [p for i, p in enumerate(self.paths) if left >> i & 1]


# -- tables
def table(prog, M, name):
    g = M.globals.get(name)
    if not g or not g.get("init"):
        return None

    def flat(x, n=None):
        if x[0] == "s":
            return [ord(c) & 255 for c in x[1]]
        if x[0] == "agg":
            out = []
            import re
            ns = [int(y) for y in re.findall(r"\[(\d+) x i8\]", x[1])]
            if len(ns) != len(x[2]):
                ns = [None] * len(x[2])
            for y, k in zip(x[2], ns):
                z = flat(y, k)
                if z is None:
                    return None
                out += z
            return out
        if x[0] == "z":
            return [0] * n if n else None
        if x[0] == "c" and isinstance(x[1], int):
            return [x[1] & 255]
        return None
    t = flat(g["init"], g.get("sz"))
    return t if t and len(t) == g.get("sz") else None


def packing(prog, R):
    """the tables: every character that packs unpacks to itself"""
    F, G = func(prog, "sixpack", "pogocache.c"), func(prog, "unsixpack", "pogocache.c")
    if F is None or G is None:
        R.unknown += 1
        return None
    out = []
    for f, n in ((F, 256), (G, 64)):
        gs = {t.a[0] if isinstance(t.a[0], str) else t for p in (lambda r: r.iters + r.paths)(gsim(prog, f, **KW)) for x in [*[a for e in p.ev for a in e.args if isinstance(a, T)], *p.facts] for t in walk(x) if t.k == "g"}
        tabs = [(g, table(prog, f.mod, str(g).split(":")[-1])) for g in gs]
        tabs = [(g, t) for g, t in tabs if t and len(t) >= n]
        if len(tabs) != 1:
            R.unknown += 1
            return None
        out.append(tabs[0])
    (tn, to), (fn, fr) = out
    for c in range(256):
        k = to[c]
        if k == 0:
            continue
        tcheck(R, k < 64 and fr[k] == c, F, "the byte %d packs to %d, which unpacks to %s" % (c, k, fr[k] if k < 64 else "nothing"))
    tcheck(R, fr[0] == 0, G, "the padding of a packed key unpacks to the byte %d" % fr[0])
    # the documented characters pack
    for c in ALPHA:
        tcheck(R, to[ord(c)] != 0, F, "the character %s is not packed" % c)
    return {"to": to, "from": fr, "n": (tn, fn)}


def tcheck(R, cond, F, msg):
    R.check(cond, PACK, "%s|table" % F.name, "%s:%s" % (F.file, F.line), msg, inst="%s table" % F.name)


def codes(tab, data):
    return [tab["to"][b] for b in data]


def packed(cs):
    """six bits each, most significant first"""
    n = 0
    for c in cs:
        n = n << 6 | c
    pad = -6 * len(cs) % 8
    n <<= pad
    return n.to_bytes((6 * len(cs) + pad) // 8, "big")


KEYS = [b"a", b"yY", b"-.0", b"y_xw", b"abcde", b"user:1", b"Y-Y-Y-Y", b"yyyyyyyy", b"key:000123"]


def roles(J_, n):
    """the phis of the only loop: those that begin with 0"""
    hs = {p.hdr for p in J_.iters}
    if len(hs) != 1:
        return None
    ids = {i for p in J_.iters for i in p.phis}
    return sorted(ids) if len(ids) == n else None


def phiof(J_, i):
    for p in J_.iters + J_.paths:
        for x in [*[a for e in p.ev for a in e.args if isinstance(a, T)], *p.facts, *([p.ret] if p.ret is not None else [])] + [y[1] for y in p.phis.values() if y[1] is not None]:
            for t in walk(x):
                if t.k == "phi" and t.a[0] == i:
                    return t


def phis(J_):
    hs = {p.hdr for p in J_.iters}
    if len(hs) != 1:
        return {}
    out = {}
    for i in {i for p in J_.iters for i in p.phis}:
        t = phiof(J_, i)
        if t is not None:
            out[i] = t
    return out


def turns(J_, m, p, want, mem, txt, rule, frees=()):
    """a turn or the end of a loop in one state: want: phi -> number after the turn, mem: place -> byte afterwards"""
    for i, n in want.items():
        v = p.phis.get(i.a[0], (0, None))[1]
        v = m.val(v) if v is not None else None
        J_.check(None if v is None else v & 0xffffffff == n & 0xffffffff if abs(n) < 1 << 31 else v == n, "turn", p, "%s: goes on with %s in place of %d" % (txt, v, n), rule=rule)


def seg(p):
    """the events of the turn, or those behind the last turn"""
    if p.kind == "iter":
        return p.segment()
    n = [i for i, e in enumerate(p.ev) if e.name == "L"]
    return p.ev[n[-1] + 1:] if n else p.ev


def effects(m, evs):
    for e in evs:
        if e.name == "=":
            a, v, w = m.val(e.args[0]), m.val(e.args[1]), storewidth(e, evs)
            if a is None or w is None:
                return False
            m.store(a, w, v)
        elif e.name not in ("L", "X"):
            return False
    return True


def feasible(m, p):
    sure = True
    for t in p.facts:
        n = m.val(t)
        if n is None:
            sure = None
        elif not agree(p, t, n):
            return False
    return sure


def glob(J_, m, tab):
    for p in J_.iters + J_.paths:
        for x in [*[a for e in p.ev for a in e.args if isinstance(a, T)], *p.facts]:
            for t in walk(x):
                if t.k == "g":
                    if t.a[0] == tab["n"][0]:
                        m.env[t] = GLB
                    elif t.a[0] == tab["n"][1]:
                        m.env[t] = GLB + 4096
    m.put(GLB, tab["to"])
    m.put(GLB + 4096, tab["from"])


def usedin(ts, base):
    """phis in places of memory under base"""
    out = set()
    for x in ts:
        for t in walk(x):
            if t.k == "idx" and under(t) is base:
                out |= {z for z in walk(t) if z.k == "phi"}
    return out


def reads(p):
    return [x for e in p.ev for a in e.args if isinstance(a, T) for x in walk(a) if x.k == "ld"] + [x for t in p.facts for x in walk(t) if x.k == "ld"]


def packroles(J_):
    ph = phis(J_)
    if not ph:
        return None
    ps = J_.iters + J_.paths
    src = {z for p in ps for x in reads(p) for z in usedin([x.a[1]], P[0])}
    dst = {z for p in ps for e in seg(p) if e.name == "=" for z in usedin([e.args[0]], P[2])}
    if len(src) != 1 or len(dst) != 1 or src == dst:
        return None
    i, j = src.pop(), dst.pop()
    rest = [t for t in ph.values() if t not in (i, j)]
    return i, j, rest


def pack(prog, R, tab):
    F = func(prog, "sixpack", "pogocache.c")
    J_ = J(prog, R, F, PACK, **KW)
    ro = packroles(J_)
    if ro is None or ro[2]:
        R.unknown += 1
        return
    i, j, _ = ro
    for p in J_.enters:
        m = Mem(prog)
        for t in (i, j):
            v = p.phis.get(t.a[0], (0, None))[1]
            n = m.val(v) if v is not None else None
            J_.check(None if n is None else n == 0, "begin", p, "begins with %s" % n, rule=PACK)
    for key in KEYS:
        for at in range(len(key) + 1):
            for bad in (0, 1) if at < len(key) else (0,):
                m0 = Mem(prog)
                glob(J_, m0, tab)
                data = bytearray(key)
                if bad:
                    data[at] = (0x20, 0xff, 0x7a)[at % 3]
                m0.put(KEY, data)
                m0.put(KEY + len(key), b"aaaa")
                done = packed(codes(tab, key[:at]))
                m0.put(OUT, done + bytes([0xa5] * 4))
                m0.env.update({P[0]: KEY, P[1]: len(key), P[2]: OUT, i: at, j: len(done)})
                for p in J_.iters + J_.paths:
                    if p.joined:
                        continue
                    if p.kind != "iter" and not any(i in set(walk(t)) for t in p.facts):
                        continue
                    m = m0.snapshot()
                    f = feasible(m, p)
                    if f is not True:
                        R.unknown += f is None
                        continue
                    txt = "character %d of the key %s" % (at, bytes(data).decode("latin1"))
                    if p.kind == "iter":
                        J_.check(at < len(key), "end", p, "packs more than the key", rule=PACK)
                        J_.check(not bad, "bad", p, "%s: packs a byte that has no code" % txt, rule=PACK)
                        if at >= len(key) or bad or not effects(m, seg(p)):
                            continue
                        want = packed(codes(tab, key[:at + 1]))
                        turns(J_, m, p, {i: at + 1, j: len(want)}, None, txt, PACK)
                        got = [m.byte(OUT + k) for k in range(len(want))]
                        J_.check(None if None in got else bytes(got) == want, "packed", p, "%s: packs %s in place of %s" % (txt, got, list(want)), rule=PACK)
                    elif p.ret is not None:
                        n = m.val(p.ret)
                        if n is None:
                            continue
                        if bad:
                            J_.check(n == 0, "bad", p, "%s has no code and the key counts as packed" % txt, rule=PACK)
                        elif at < len(key):
                            J_.check(n & 0xffffffff == 0 and None, "early", p, "", rule=PACK)
                        else:
                            J_.check(n & 0xffffffff == len(done), "length", p, "reports %s packed bytes in place of %d" % (n, len(done)), rule=PACK)


def unpack(prog, R, tab):
    F = func(prog, "unsixpack", "pogocache.c")
    J_ = J(prog, R, F, PACK, **KW)
    ro = packroles(J_)
    if ro is None or len(ro[2]) > 1:
        R.unknown += 1
        return
    i, j, rest = ro
    for p in J_.enters:
        m = Mem(prog)
        for t in (i, j, *rest):
            v = p.phis.get(t.a[0], (0, None))[1]
            n = m.val(v) if v is not None else None
            J_.check(None if n is None else n == 0, "begin", p, "begins with %s" % n, rule=PACK)
    for key in KEYS:
        pk = packed(codes(tab, key))
        whole = key + b"\0" if len(pk) * 8 // 6 > len(key) else key
        for at in range(len(pk) + 1):
            m0 = Mem(prog)
            glob(J_, m0, tab)
            m0.put(KEY, pk + b"\xa5\xa5")
            m0.put(KEY - 2, b"\x5a\x5a")
            done = whole[:at * 8 // 6]
            m0.put(OUT, done + bytes([0x11] * 4))
            m0.env.update({P[0]: KEY, P[1]: len(pk), P[2]: OUT, i: at, j: len(done)})
            for k in rest:
                m0.env[k] = at % 3
            for p in J_.iters + J_.paths:
                if p.joined:
                    continue
                if p.kind != "iter" and not any(i in set(walk(t)) for t in p.facts):
                    continue
                m = m0.snapshot()
                f = feasible(m, p)
                if f is not True:
                    R.unknown += f is None
                    continue
                txt = "byte %d of the packed key %s" % (at, key.decode("latin1"))
                if p.kind == "iter":
                    J_.check(at < len(pk), "end", p, "unpacks more than the packed key", rule=PACK)
                    if at >= len(pk) or not effects(m, seg(p)):
                        continue
                    want = whole[:(at + 1) * 8 // 6]
                    turns(J_, m, p, dict({i: at + 1, j: len(want)}, **{}), None, txt, PACK)
                    for k in rest:
                        turns(J_, m, p, {k: (at + 1) % 3}, None, txt, PACK)
                    got = [m.byte(OUT + k) for k in range(len(want))]
                    J_.check(None if None in got else bytes(got) == want, "unpacked", p, "%s: unpacks %s in place of %s" % (txt, got, list(want)), rule=PACK)
                elif p.ret is not None:
                    n = m.val(p.ret)
                    J_.check(None if n is None else at == len(pk), "early", p, "%s: ends before the packed key does" % txt, rule=PACK)
                    if at == len(pk):
                        J_.check(None if n is None else n & 0xffffffff == len(key), "length", p, "the key %s unpacks to %s characters" % (key.decode(), n), rule=PACK)


# -- lengths
def varint(x):
    out = []
    while x >= 128:
        out.append(x & 127 | 128)
        x >>= 7
    return bytes(out + [x])


NUMS = [0, 1, 96, 127, 128, 129, 255, 300, 16383, 16384, 16385, 2097151, 2097152, 0xffffffff, 0x100000000, 0x123456789abcd, (1 << 63) - 1, 1 << 63, M64]


def varwrite(prog, R):
    F = func(prog, "varint_write_u64", "pogocache.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, LEN, **KW)
    ph = phis(J_)
    ps = J_.iters + J_.paths
    n_ = {z for p in ps for e in seg(p) if e.name == "=" for z in usedin([e.args[0]], P[0])}
    if len(n_) != 1 or len(ph) != 2:
        R.unknown += 1
        return
    n_ = n_.pop()
    x_ = [t for t in ph.values() if t is not n_][0]
    # in which state the loop is begun
    for X in NUMS:
        want = varint(X)
        reach = set()
        for p in J_.enters:
            m = Mem(prog)
            m.env.update({P[0]: OUT, P[1]: X})
            if feasible(m, p) is not True or not effects(m, p.ev):
                continue
            states = p.phis
            n, x = (m.val(states[t.a[0]][1]) if t.a[0] in states and states[t.a[0]][1] is not None else None for t in (n_, x_))
            J_.check(None if n is None or x is None or n > 9 else x == X >> 7 * n, "begin", p, "%d begins with %s at byte %s" % (X, x, n), rule=LEN)
            reach.add(n)
        for n in range(len(want)):
            m0 = Mem(prog)
            m0.put(OUT, want[:n])
            m0.env.update({P[0]: OUT, P[1]: X, n_: n, x_: X >> 7 * n})
            for p in ps:
                if p.joined:
                    continue
                loop = p.kind == "iter" or any(t in (n_, x_) for f in list(p.facts) + [p.ret] if f is not None for t in walk(f))
                if n and not loop or loop and n not in reach:
                    continue
                m = m0.snapshot()
                f = feasible(m, p)
                if f is not True:
                    R.unknown += f is None
                    continue
                if not effects(m, seg(p)):
                    continue
                txt = "%d" % X
                if p.kind == "iter":
                    k = m.val(p.phis[n_.a[0]][1])
                    x = m.val(p.phis[x_.a[0]][1])
                    J_.check(None if k is None or x is None else n < k <= len(want) and x == X >> 7 * k, "turn", p, "%s: goes on with %s at byte %s" % (txt, x, k), rule=LEN)
                    if k is None or not n < k <= len(want):
                        continue
                    reach.add(k)
                    got = [m.byte(OUT + y) for y in range(k)]
                    J_.check(None if None in got else bytes(got) == want[:k], "bytes", p, "%s: writes %s in place of %s" % (txt, got, list(want[:k])), rule=LEN)
                elif p.ret is not None:
                    k = m.val(p.ret)
                    J_.check(None if k is None else k & 0xffffffff == len(want), "size", p, "%s: reports %s bytes in place of %d" % (txt, k, len(want)), rule=LEN)
                    got = [m.byte(OUT + y) for y in range(len(want))]
                    J_.check(None if None in got else bytes(got) == want, "bytes", p, "%s: writes %s in place of %s" % (txt, got, list(want)), rule=LEN)


def varread(prog, R):
    F = func(prog, "varint_read_u64", "pogocache.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, LEN, **KW)
    ph = phis(J_)
    ps = J_.iters + J_.paths
    i_ = {z for p in ps for x in reads(p) for z in usedin([x.a[1]], P[0])}
    if len(i_) != 1:
        R.unknown += 1
        return
    i_ = i_.pop()
    acc = [t for t in ph.values() if t is not i_]
    if len(acc) > 1:
        R.unknown += 1
        return
    for X in NUMS:
        bs = varint(X)
        begun = False
        for p in J_.enters:
            m = Mem(prog)
            m.put(KEY, bs + b"\xff\x01")
            m.env.update({P[0]: KEY, P[1]: OUT})
            if feasible(m, p) is not True or not effects(m, p.ev):
                continue
            begun = True
            v = p.phis.get(i_.a[0], (0, None))[1]
            n = m.val(v) if v is not None else None
            J_.check(None if n is None else n == 0, "begin", p, "begins at byte %s" % n, rule=LEN)
            if not acc and n == 0:
                J_.check(m.num(OUT, 8) == 0 if m.num(OUT, 8) is not None else None, "begin", p, "begins with the number %s" % m.num(OUT, 8), rule=LEN)
        for n in range(len(bs)):
            m0 = Mem(prog)
            m0.put(KEY, bs + b"\xff\x01")
            part = X & (1 << 7 * n) - 1
            m0.put(OUT, part.to_bytes(8, "little"))
            m0.env.update({P[0]: KEY, P[1]: OUT, i_: n})
            for a in acc:
                m0.env[a] = part
            seen = {"turn": [], "end": []}
            for p in ps:
                if p.joined:
                    continue
                loop = p.kind == "iter" or any(i_ in set(walk(f)) for f in list(p.facts) + [p.ret] if f is not None)
                if n and not loop or loop and not begun:
                    continue
                m = m0.snapshot()
                f = feasible(m, p)
                if f is not True:
                    R.unknown += f is None
                    continue
                if not effects(m, seg(p)):
                    seen["turn" if p.kind == "iter" else "end"].append((p, None))
                    continue
                if p.kind == "iter":
                    J_.check(n + 1 < len(bs), "turn", p, "%d: goes on behind the last byte" % X, rule=LEN)
                    v = m.val(p.phis[i_.a[0]][1])
                    J_.check(None if v is None else v == n + 1, "turn", p, "%d: goes on at byte %s" % (X, v), rule=LEN)
                    seen["turn"].append((p, m.val(p.phis[acc[0].a[0]][1]) if acc else m.num(OUT, 8)))
                elif p.ret is not None:
                    v = m.val(p.ret)
                    J_.check(None if v is None else v & 0xffffffff == len(bs), "size", p, "%d: reports %s bytes in place of %d" % (X, v, len(bs)), rule=LEN)
                    seen["end"].append((p, m.num(OUT, 8)))
            # what the first turn stores is known from what was stored before the loop: of the paths of a turn one has to read on
            for k, want in (("turn", X & (1 << 7 * (n + 1)) - 1), ("end", X)):
                got = [x for p, x in seen[k]]
                if got:
                    J_.check(True if want in got else None if None in got else False, "number", seen[k][0][0], "%d: has read %s after byte %d" % (X, got[0], n), rule=LEN)


# -- entries
class Case:
    def __init__(self, key, packs, vallen, expires, flags, cas, usecas, nosixpack=0, keylen=None):
        self.key, self.packs, self.vallen = key, packs, vallen
        self.keylen = len(key) if keylen is None else keylen
        self.expires, self.flags, self.cas, self.usecas, self.nosixpack = expires, flags, cas, usecas, nosixpack

    def __str__(self):
        return "key of %d bytes%s, value of %d%s%s%s" % (self.keylen, " (packed)" if self.packs and not self.nosixpack else "", self.vallen, ", expiry" if self.expires else "", ", flags" if self.flags else "", ", unique value" if self.usecas else "")


def cases(thorough):
    out = []
    X, Y, Z = 0x1122334455667788, 0xa1b2c3d4, 0x99aabbccddeeff01
    for ex in (0, X):
        for fl in (0, Y):
            for uc in (0, 1):
                for key, packs in ((b"abcde", 1), (b"a", 1), (b"y_xw", 1), (b"a b", 0), (b"k" * 127 + b"!", 0), (b"k" * 128, 1), (b"k" * 129, 1), (b"Q" * 200, 0), (b"", 0)):
                    for v in (0, 1, 40, 200, 70000):
                        out.append(Case(key, packs, v, ex, fl, Z, uc))
                out.append(Case(b"abcde", 1, 7, ex, fl, Z, uc, 1))
                out.append(Case(b"k" * 129, 1, 7, ex, fl, 0, uc, 0))
                over = 16 + 8 * bool(ex) + 4 * bool(fl) + 8 * uc + 1 + 2
                for b in (0xff, 0xffff, 0xffffffff):
                    for d in (-9, -6, -5, -4, -3, -2, -1, 0, 1, 2, 5):
                        out.append(Case(b"a!", 0, b + d - over, ex, fl, Z, uc))
                out.append(Case(b"a!", 0, 5000000000, ex, fl, Z, uc))
                out.append(Case(b"a!", 0, 9, ex, fl, 1, uc))
                out.append(Case(b"", 0, 9, ex, 1, 1, uc, keylen=300000))
                out.append(Case(b"", 0, 9, 1, fl, 1, uc, keylen=16383))
    return out


def entries(prog, R):
    F = func(prog, "entry_new", "pogocache.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, MAKE, **KW)
    if J_.iters:
        R.unknown += 1
        return
    lim = buflimit(prog)
    made = []
    sieve = Sieve(J_.paths)
    for c in cases(False):
        m = make(prog, R, J_, c, lim, sieve)
        if m is not None:
            made.append((c, m))
    readers(prog, R, made)
    compare(prog, R)


def buflimit(prog):
    """the smallest array a key is unpacked into"""
    ns = []
    for F in [f for M in prog.mods.values() for f in M.funcs.values()] if isinstance(prog.mods, dict) else [f for M in prog.mods for f in M.funcs.values()]:
        if "pogocache.c" not in F.mod.name:
            continue
        inst = {I.id: I for I in F.insts()}
        for I in inst.values():
            i = {"entry_key": 2, "entry_extract": 3}.get(I.callee[1]) if I.op == "call" and I.callee and I.callee[0] == "f" else None
            if i is None or len(I.a) <= i or I.a[i][0] != "v":
                continue
            D = inst.get(I.a[i][1])
            if D is not None and D.op == "getelementptr" and D.a[0][0] == "v":
                D = inst.get(D.a[0][1])
            if D is not None and D.op == "alloca" and D.d.get("sz"):
                ns.append(D.d["sz"])
    return min(ns) if ns else None


def base(prog, c):
    m = Mem(prog)
    m.ctx(usecas=c.usecas, nosixpack=c.nosixpack)
    m.put(KEY, c.key)
    return m


TAB = {}


def pk(key):
    return packed([ALPHA.index(chr(b)) + 1 for b in key])


def make(prog, R, J_, c, lim, sieve):
    got = None
    m0 = base(prog, c)
    m0.env.update({P[0]: KEY, P[1]: c.keylen, P[2]: VAL, P[3]: c.vallen, P[4]: c.expires, P[5]: c.flags, P[6]: c.cas, P[7]: CTX})
    ps = sieve(m0)
    for garbage in (0, 0xff):
        for p in ps:
            m = m0.snapshot()
            m.fill = (ENT, ENT + 64, garbage)
            info = {"size": None, "packed": False, "klen": c.keylen}

            def six(e, v):
                if v[0] != KEY or v[1] is None or v[1] & 0xffffffff != c.keylen or v[2] is None:
                    return None
                n = 0
                if c.packs:
                    b = pk(c.key)
                    m.put(v[2], b)
                    n = len(b)
                    info["packed"] = True
                    info["buf"] = v[2]
                    info["e"] = e
                m.env[e.res] = n
                return True

            def vw(e, v):
                if v[0] is None or v[1] is None:
                    return None
                b = varint(v[1])
                m.put(v[0], b)
                m.env[e.res] = len(b)
                info["klen"] = v[1]
                return True

            def alloc(e, v):
                if len(e.args) != 2 or v[1] is None:
                    return None
                info["size"] = v[1]
                info["ae"] = e
                m.env[e.res] = ENT
                return True
            f = play(m, p, {"sixpack": six, "varint_write_u64": vw, "*indirect*": alloc, "malloc": alloc})
            if f is not True:
                R.unknown += f is None
                continue
            n = m.val(p.ret) if p.ret is not None else None
            if info["size"] is None or n != ENT:
                J_.check(None if n is None or info["size"] is None else False, "made", p, "%s: returns %s in place of the entry" % (c, n), rule=MAKE)
                continue
            S = info["size"]
            for s, l, kind, v in m.segs:
                if s >> 40 == ENT >> 40 and l:
                    J_.check(s + l <= ENT + S and s >= ENT, "inside", p, "%s: writes %d bytes at %d of an entry of %d bytes" % (c, l, s - ENT, S), info["ae"], rule=MAKE)
            if info["packed"] and lim is not None:
                J_.check(c.keylen <= lim, "fits", p, "%s: a packed key does not fit the %d bytes it is unpacked into" % (c, lim), info.get("e"), rule=PACK)
            rc = field(prog, "rc")
            if rc is not None and not garbage:
                J_.check(None if m.num(ENT + rc, 4) is None else m.num(ENT + rc, 4) == 1, "held", p, "%s: a new entry is held %s times" % (c, m.num(ENT + rc, 4)), rule=MAKE)
            if info["packed"] and c.keylen > (lim or 128):
                continue
            c.ispacked = info["packed"]
            got = (m, S, p) if garbage else got
    return got


def field(prog, nm, st="struct.entry"):
    for x in prog.structs[st]["m"]:
        if x.get("n") == nm:
            return x["o"] // 8


def reader(prog, R, nm):
    F = func(prog, nm, "pogocache.c")
    if F is None:
        R.unknown += 1
        return None
    J_ = J(prog, R, F, READ, **dict(KW, copyin=True))
    if J_.iters:
        R.unknown += 1
        return None
    return J_


def calls(m, c, state):
    def vr(e, v):
        if None in v[:2]:
            return None
        n = k = 0
        while True:
            b = m.byte(v[0] + k)
            if b is None or k > 9:
                return None
            n |= (b & 127) << 7 * k
            k += 1
            if b < 128:
                break
        m.store(v[1], 8, n)
        m.env[e.res] = k
        return True

    def un(e, v):
        if None in v[:3]:
            return None
        state.setdefault("un", []).append((e, v))
        b = [m.byte(v[0] + k) for k in range(min(v[1] & 0xffffffff, 200))]
        if None in b:
            return None
        n = "".join("{:08b}".format(x) for x in b)
        cs = [int(n[k:k + 6], 2) for k in range(0, len(n) // 6 * 6, 6)]
        if cs and cs[-1] == 0:
            cs.pop()
        m.segs.append((v[2], max(len(cs), 1), "n", sum((ord(ALPHA[x - 1]) if x else 0) << 8 * k for k, x in enumerate(cs))))
        m.env[e.res] = len(cs)
        return True

    return {"varint_read_u64": vr, "unsixpack": un}


KO, LO, VO, WO, EO, FO, UO, BUF = (OUT + 64 * k for k in range(1, 9))
BUFA = OUT + 65536


def readers(prog, R, made):
    js, sv = {}, {}

    def run(nm, env, judge, only=None):
        J_ = js.get(nm) or js.setdefault(nm, reader(prog, R, nm))
        if J_ is None:
            return
        sieve = sv.get(nm) or sv.setdefault(nm, Sieve(J_.paths))
        for c, (m0, S, mp) in made:
            if only and not only(c):
                continue
            m1 = m0.snapshot()
            m1.env = {"bytes": m1.rd}
            m1.env.update(env)
            for a in (KO, LO, VO, WO, EO, FO, UO):
                m1.put(a, [0xa5] * 16)
            for p in sieve(m1):
                m = m1.snapshot()
                st = {}
                f = play(m, p, calls(m, c, st))
                if f is not True:
                    R.unknown += f is None
                    continue
                judge(J_, p, m, c, S, m.val(p.ret) if p.ret is not None else None)

    def ck(J_, p, cond, tag, c, txt):
        J_.check(cond, tag, p, "%s: %s" % (c, txt), rule=READ)

    def eq(n, want):
        return None if n is None else n == want

    def size(J_, p, m, c, S, r):
        ck(J_, p, eq(r, S), "size", c, "has a size of %s in place of the %d bytes of its memory" % (r, S))

    def expires(J_, p, m, c, S, r):
        ck(J_, p, eq(r, c.expires), "expiry", c, "has the expiry %s in place of %d" % (r, c.expires))

    def cas(J_, p, m, c, S, r):
        ck(J_, p, eq(r, c.cas if c.usecas else 0), "unique", c, "has the unique value %s in place of %d" % (r, c.cas))

    def keytext(J_, p, m, c, a, n):
        ck(J_, p, eq(n, c.keylen), "key", c, "has a key of %s bytes" % n)
        if n == c.keylen and n and a is not None:
            want = c.key if c.ispacked else KEY
            v = m.is_text(a, n, want)
            if v is False and isinstance(want, int) and c.key:
                v = m.is_text(a, n, c.key)
            ck(J_, p, v, "key", c, "has a key with other bytes")

    def valtext(J_, p, m, c, a, n):
        ck(J_, p, eq(n, c.vallen), "value", c, "has a value of %s bytes" % n)
        if n == c.vallen and n and a is not None:
            ck(J_, p, m.is_text(a, n, VAL), "value", c, "has a value with other bytes")

    def key(J_, p, m, c, S, r):
        keytext(J_, p, m, c, r, m.num(KO, 8))

    def val(J_, p, m, c, S, r):
        valtext(J_, p, m, c, r, m.num(KO, 8))

    def raw(J_, p, m, c, S, r):
        n = m.num(KO, 8)
        if c.ispacked:
            b = pk(c.key)
            ck(J_, p, eq(n, len(b)), "raw", c, "has a packed key of %s bytes" % n)
            if n == len(b):
                ck(J_, p, m.is_text(r, n, b) if r is not None else None, "raw", c, "has a packed key with other bytes")
        else:
            keytext(J_, p, m, c, r, n)

    def extract(mask):
        def f(J_, p, m, c, S, r):
            ck(J_, p, eq(r, S), "size", c, "has a size of %s in place of the %d bytes of its memory" % (r, S))
            if mask & 1:
                keytext(J_, p, m, c, m.num(KO, 8), m.num(LO, 8))
            if mask & 2:
                valtext(J_, p, m, c, m.num(VO, 8), m.num(WO, 8))
            if mask & 4:
                n = m.num(EO, 8)
                ck(J_, p, eq(n, c.expires), "expiry", c, "has the expiry %s in place of %d" % (n, c.expires))
            if mask & 8:
                n = m.num(FO, 4)
                ck(J_, p, eq(n, c.flags), "flags", c, "has the flags %s in place of %d" % (n, c.flags))
                ck(J_, p, not any(s <= FO + 4 < s + l for s, l, _, _ in m.segs), "flags", c, "writes behind the flags")
            if mask & 16:
                n = m.num(UO, 8)
                ck(J_, p, eq(n, c.cas if c.usecas else 0), "unique", c, "has the unique value %s in place of %d" % (n, c.cas))
        return f

    def alive(now):
        def f(J_, p, m, c, S, r):
            if r is not None:
                r &= 1
            ck(J_, p, eq(r, int(c.expires == 0 or c.expires > now)), "alive", c, "expiring at %d is %s at %d" % (c.expires, "alive" if r else "dead", now))
        return f
    some = lambda c: c.vallen in (0, 40) and c.keylen < 10
    run("entry_memsize", {P[0]: ENT}, size)
    run("entry_expires", {P[0]: ENT}, expires)
    run("entry_cas", {P[0]: ENT, P[1]: CTX}, cas)
    run("entry_rawkey", {P[0]: ENT, P[1]: KO, P[2]: CTX}, raw)
    run("entry_key", {P[0]: ENT, P[1]: KO, P[2]: BUFA, P[3]: CTX}, key)
    run("entry_value", {P[0]: ENT, P[1]: KO, P[2]: CTX}, val)
    for now in (1, 0x1122334455667787, 0x1122334455667788, 0x1122334455667789):
        run("entry_alive", {P[0]: ENT, P[1]: now}, alive(now), some)
    for mask in (31, 30, 29, 27, 23, 15, 3, 1, 2, 4, 8, 16):
        env = {P[0]: ENT, P[3]: BUFA if mask & 1 else 0, P[9]: CTX}
        for b, regs in ((1, ((1, KO), (2, LO))), (2, ((4, VO), (5, WO))), (4, ((6, EO),)), (8, ((7, FO),)), (16, ((8, UO),))):
            for i, a in regs:
                env[P[i]] = a if mask & b else 0
        run("entry_extract", env, extract(mask), None if mask in (31,) else some)


def compare(prog, R):
    F = func(prog, "entry_compare", "pogocache.c")
    N = func(prog, "entry_new", "pogocache.c")
    if F is None or N is None:
        R.unknown += 1
        return
    class Quiet:
        unknown = 0

        def analysed(self, *a):
            pass
        ok = bad = analysed
    Jn = J(prog, Quiet(), N, MAKE, **KW)
    J_ = J(prog, R, F, CMP, **KW)
    if Jn.iters or J_.iters:
        R.unknown += 1
        return
    sieve, sc = Sieve(Jn.paths), Sieve(J_.paths)
    es = []
    for key, packs in ((b"abcde", 1), (b"abcdf", 1), (b"abc", 1), (b"abcdefgh", 1), (b"abcd ", 0), (b"abc de", 0), (b"Abcde", 1), (b"", 0), (b"zbcde", 0), (b"a" * 130, 0), (b"a" * 131, 0)):
        for no in (0, 1) if packs else (0,):
            for uc in (0, 1):
                for ex in (0, 5):
                    c = Case(key, packs, 0, ex, 0, 9, uc, no)
                    g = make(prog, Quiet(), Jn, c, None, sieve)
                    if g is None:
                        continue
                    bs = [g[0].byte(ENT + k) for k in range(g[1])]
                    es.append((c, [b if b is not None else 0xa5 for b in bs]))
    for a, ab in es:
        for b, bb in es:
            if a.usecas != b.usecas or a.usecas and (a.expires or not b.expires):
                continue
            m1 = Mem(prog)
            m1.ctx(usecas=a.usecas, nosixpack=a.nosixpack)
            m1.put(ENT, ab)
            m1.put(ENT2, bb)
            m1.env.update({P[0]: ENT, P[1]: ENT2, P[2]: CTX})
            for p in sc(m1):
                m = m1.snapshot()

                def mc(e, v):
                    if None in v[:3]:
                        return None
                    for q, (z, zb) in zip(v[:2], ((ENT, ab), (ENT2, bb))):
                        if z <= q < z + (1 << 39):
                            J_.check(q + v[2] <= z + len(zb), "inside", p, "%s and %s: %d bytes are compared, more than the entry has" % (desc(a), desc(b), v[2]), e, rule=CMP)
                    x, y = ([m.byte(q + k) for k in range(min(v[2], 400))] for q in v[:2])
                    if None in x or None in y:
                        return None
                    m.env[e.res] = (x > y) - (x < y) & M64
                    return True
                f = play(m, p, dict(calls(m, a, {}), memcmp=mc))
                if f is not True:
                    R.unknown += f is None
                    continue
                n = m.val(p.ret) if p.ret is not None else None
                J_.check(None if n is None else (n & 0xffffffff == 0) == (a.key == b.key), "same", p, "%s and %s count as %s" % (desc(a), desc(b), "equal" if n is not None and n & 0xffffffff == 0 else "different"), rule=CMP)


def desc(c):
    return "the %s key '%s'" % ("packed" if c.ispacked else "plain", c.key.decode()[:12])
