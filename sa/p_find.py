"""C11: a stored key is found until it is removed: the hash table of a shard."""
from gensim import *
from semlib import under
from p_sem import ASSUME
from p_save import evs
from p_frame import zero, nonzero
from p_auth import resultzero
from p_pg import value, M64
from p_pgq import agree
from replies import text

EXPLAIN = {
    "C11": "every turn of the loops that look up, insert, remove and move entries of a shard's hash table, compared with robin hood hashing for every place, chain and "
           "displacement of a set of tables; the hash and shard every operation uses, and the sizes a table can take",
}
FIND = "a lookup follows the chain of a key to its end"
PUT = "an entry is put where its key is looked for"
GONE = "removing an entry keeps the others reachable"
SIZE = "a table that changes its size keeps every entry"
HASH = "a key has one hash and one shard"
P0, P1, P2, P3, P4, P5 = (mk("p", i) for i in range(6))
KEEP = ("bucket_eq", "entry_compare", "map_init", "resize", "delbkt", "entry_memsize", "entry_free", "notify", "map_delete", "map_insert", "map_get_bucket", "entry_key", "tryshrink", "delentry_at_bkt")
KW = dict(cap=3000, mods=("pogocache.c",), copies=True, bytewise=True, fills=True)
MAP, BK, LOC, BK2 = 1 << 33, 1 << 34, 1 << 40, 1 << 35
NB = 8
BS, HO, DO = 10, 6, 9      # size of a bucket, place of the hash and of the displacement in it


def C11(prog, R, tier):
    if not layout(prog, R):
        R.unknown += 1
        return
    lookup(prog, R)
    equal(prog, R)
    insert(prog, R)
    remove(prog, R)
    move(prog, R)
    sizes(prog, R)
    hashes(prog, R)


def layout(prog, R):
    """where the parts of a bucket are, from the functions that read them"""
    global HO, DO
    ok = True
    F = func(prog, "get_dib", "pogocache.c")
    if F:
        rs = {strip(p.ret) for p in gsim(prog, F, **KW).paths if p.ret is not None}
        offs = [value(r.a[1], {P0: 0}) for r in rs if r.k == "ld"]
        if len(rs) == 1 and len(offs) == 1 and offs[0] is not None:
            DO = offs[0]
    F = func(prog, "get_hash", "pogocache.c")
    if F:
        rs = {p.ret for p in gsim(prog, F, **KW).paths if p.ret is not None}
        offs = sorted(x for r in rs for y in walk(r) if y.k == "ld" for x in [value(y.a[1], {P0: 0})] if x is not None)
        if len(rs) == 1 and offs:
            HO = offs[0]
            ok = offs[-1] - offs[0] <= 3
    return ok and HO < DO < 16


def bits():
    """the bits of a hash that a bucket keeps"""
    return (1 << 8 * (DO - HO)) - 1


# -- tables
def hashof(home, i):
    return home | 8 * (i + 1) | 0x400000


def build(homes):
    """a table of robin hood hashing: [None or (dib, hash, entry)]"""
    t = [None] * NB
    for i, h in enumerate(homes):
        e = (1, hashof(h, i), entry(i))
        j = h
        while t[j] is not None:
            if t[j][0] < e[0]:
                t[j], e = e, t[j]
            e = (e[0] + 1,) + e[1:]
            j = (j + 1) % NB
        t[j] = e
    return t


def entry(i):
    return 0x123456780000 + 64 * (i + 1)


SMALL = [[7], [2, 2, 3], [6, 6, 6, 7], [0, 0, 1, 1, 7], [4, 4, 5, 4, 4]]
TABLES = [[], [3], [7], [7, 7], [2, 2, 3], [6, 6, 6, 7], [7, 7, 7, 0], [1, 2, 3, 4], [5, 5, 5, 5, 6, 7], [0, 0, 1, 1, 7], [6, 7, 7, 0, 0, 6], [4, 4, 5, 4, 4]]


def bucketbytes(b):
    d, h, e = b if b is not None else (0, 0x5a5a5a, 0x777777777777)
    out = {}
    for k in range(6):
        out[k] = e >> 8 * k & 255
    for k in range(3):
        out[HO + k] = h >> 8 * k & 255
    out[DO] = d
    return out


def parse(bs):
    """(dib, hash, entry) of bytes, parts that are not known are None"""
    def num(o, n):
        v = [bs.get(o + k) for k in range(n)]
        return None if None in v else sum(b << 8 * k for k, b in enumerate(v))
    return num(DO, 1), num(HO, 3), num(0, 6)


class State:
    """memory in which the terms of one turn are evaluated"""

    def __init__(self, prog, table, nb=NB, base=BK, mapat=MAP, fields=None):
        self.prog = prog
        self.mem = {}
        self.env = {"bytes": self.read}
        for i, b in enumerate(table):
            for k, v in bucketbytes(b).items():
                self.mem[base + BS * i + k] = v
        # what is behind a table looks like a chain that goes on
        for k, v in bucketbytes((3, hashof(nb - 1, 30), entry(30))).items():
            self.mem.setdefault(base + BS * nb + k, v)
        self.fields(mapat, dict({"mask": nb - 1, "nbuckets": nb, "buckets": base, "count": sum(b is not None for b in table), "total": 100, "growat": nb - 1, "cap": 4, "entsize": 5000, "shrinkat": 0}, **(fields or {})))
        self.al = {}

    def fields(self, at, f):
        for m in self.prog.structs["struct.map"]["m"]:
            if m.get("n") in f:
                n = 8 if m["n"] in ("buckets", "total", "entsize") else 4
                self.put(at + m["o"] // 8, f[m["n"]], n)

    def field(self, mem, name):
        for m in self.prog.structs["struct.map"]["m"]:
            if m.get("n") == name:
                return mem + m["o"] // 8

    def put(self, a, v, n):
        for k in range(n):
            self.mem[a + k] = v >> 8 * k & 255

    def read(self, t, a):
        n = t.a[2] if len(t.a) > 2 and isinstance(t.a[2], int) else 1
        v = [self.mem.get(a + k) for k in range(n)]
        return None if None in v else sum(b << 8 * k for k, b in enumerate(v))

    def local(self, t, content=None):
        if t not in self.al:
            self.al[t] = LOC + (len(self.al) << 12)
            self.env[t] = self.al[t]
        for k, v in (content or {}).items():
            self.mem[self.al[t] + k] = v

    def locals(self, p, seg):
        for t in [x for e in seg for a in e.args if isinstance(a, T) for x in walk(a)] + [x for t in p.facts for x in walk(t)]:
            if t.k == "al":
                self.local(t)

    def val(self, t):
        return value(t, self.env)

    def feasible(self, p, only=None):
        sure = True
        # what the turn takes local structures to hold when it begins
        e = [e for e in p.ev if e.name == "L"][-1:]
        for a, v in zip(e[0].args[::2], e[0].args[1::2]) if e else ():
            a, v = self.val(a), self.val(v)
            if a is not None and v is not None and self.mem.get(a, v) & 255 != v & 255:
                return False
        for t in p.facts:
            if only is not None and not only & set(walk(t)):
                continue
            n = self.val(t)
            if n is None:
                sure = None
            elif not agree(p, t, n):
                return False
        return sure

    def effects(self, seg):
        """address -> byte stored (None: not known), or None when a store goes to an unknown place"""
        out = {}
        for e in seg:
            if e.name == "=":
                a, v = self.val(e.args[0]), self.val(e.args[1])
                if a is None:
                    return None
                n = width8(e.args[1], self.prog, e.args[0])
                for k in range(n):
                    out[a + k] = None if v is None else v >> 8 * k & 255
            elif e.name in ("memcpy", "memmove"):
                a, b, n = (self.val(x) for x in e.args[:3])
                if a is None:
                    return None
                for k in range(n or 0):
                    c = out.get(b + k, self.mem.get(b + k)) if b is not None else None
                    if a + k not in out or out[a + k] is None:
                        out[a + k] = c
        return out


def width8(v, prog, addr):
    f = fieldof(prog, addr)
    if f and f[0] == "struct.map":
        return 8 if f[1] in ("buckets", "total", "entsize") else 4
    return 1


def slots(st, eff, base=BK, nb=NB):
    """the table behind the stores"""
    out = []
    for i in range(nb):
        bs = {k: eff.get(base + BS * i + k, st.mem.get(base + BS * i + k)) for k in range(BS)}
        out.append(parse(bs))
    return out


def index(p):
    """the phi that walks over the buckets"""
    out = set()
    for t in p.facts:
        for y in walk(t):
            if y.k == "idx" and len(y.a[1]) == 1 and y.a[1][0][1] == BS:
                for z in walk(y.a[1][0][0]):
                    if z.k == "phi":
                        out.add(z)
    return out


# -- looking up
def lookup(prog, R):
    for nm in ("map_get_bucket", "map_delete"):
        F = func(prog, nm, "pogocache.c")
        if F is None:
            R.unknown += 1
            continue
        J_ = J(prog, R, F, FIND, keep=KEEP[:-1] if nm == "map_delete" else KEEP, **KW)
        walker(prog, R, J_, nm)


def walker(prog, R, J_, nm):
    hs = {p.hdr for p in J_.iters}
    if len(hs) != 1:
        R.unknown += 1
        return
    ix = {z for p in J_.iters for z in index(p) if z.a[0] in p.phis}
    if len(ix) != 1:
        R.unknown += 1
        return
    ix = ix.pop()
    for p in J_.enters:
        v = p.phis.get(ix.a[0], (0, None))[1]
        for h in (0, 5, 0x400007, 0xab00000d, 0xffffffff):
            for nb in (8, 64, 1 << 28):
                s = State(prog, [], nb=nb)
                s.env.update({P0: MAP, P3: h})
                n = s.val(v) if v is not None else None
                J_.check(None if n is None else n == (h & (nb - 1) & bits()), "begin", p, "begins at bucket %s of %d for the hash %x" % (n, nb, h))
    for homes in TABLES:
        tab = build(homes)
        for h in range(NB):
            for i in range(NB):
                hh = hashof(h, 20)
                for eq in (0, 1):
                    if tab[i] is None and eq:
                        continue
                    s = State(prog, tab)
                    s.env.update({P0: MAP, P3: hh | 0x5a000000, ix: i})
                    # only places reached when the chain is followed from the home of the key
                    if any(tab[(h + k) % NB] is None for k in range((i - h) % NB)):
                        continue
                    judge(prog, R, J_, nm, s, ix, i, tab, eq, hh)


def judge(prog, R, J_, nm, s, ix, i, tab, eq, hh):
    for p in J_.iters + J_.paths:
        if p.joined:
            continue
        seg = p.segment() if p.kind == "iter" else p.ev
        if p.kind != "iter" and not any(ix in set(walk(t)) for t in p.facts):
            continue
        be = [e for e in seg if e.name == "bucket_eq"]
        for e in be:
            s.env[e.res] = eq
        f = s.feasible(p, {ix})
        if f:
            for e in be:
                f = f and agree_all(p, e.res, eq)
        if f is not True:
            if f is None:
                R.unknown += 1
            continue
        for e in be:
            vs = [s.val(a) for a in e.args]
            J_.check(None if vs[1] is None else vs[1] & 0xffffffff == i, "compared", p, "compares bucket %s in place of %d" % (vs[1], i), e, rule=FIND)
            J_.check(None if vs[4] is None else vs[4] == hh, "compared", p, "compares the key with the hash %x in place of its %x" % (vs[4] or 0, hh), e, rule=FIND)
            J_.check(same(strip(e.args[2]), P1) and same(strip(e.args[3]), P2) or None, "compared", p, "", e, rule=FIND)
        if p.kind == "iter":
            if not be:
                J_.check(tab[i] is not None, "end", p, "goes on behind an empty bucket", rule=FIND)
                J_.check(None if tab[i] is None or any(e.name not in ("bucket_eq",) for e in seg) else False, "compared", p, "passes a bucket without comparing its key", rule=FIND)
            else:
                J_.check(tab[i] is not None, "end", p, "goes on behind an empty bucket", rule=FIND)
                J_.check(not eq, "match", p, "passes the bucket of the key", rule=FIND)
            v = p.phis[ix.a[0]][1]
            n = s.val(v)
            J_.check(None if n is None else n & 0xffffffff == (i + 1) % NB, "next", p, "goes from bucket %d of %d to bucket %s" % (i, NB, n), rule=FIND)
            continue
        if tab[i] is not None and eq and be:
            if nm == "map_get_bucket":
                n = s.val(p.ret) if p.ret is not None else None
                J_.check(None if n is None else n & 0xffffffff == i, "found", p, "finds the key in bucket %d and reports bucket %s" % (i, n), rule=FIND)
            else:
                n = s.val(p.ret) if p.ret is not None else None
                J_.check(None if n is None else n == tab[i][2], "found", p, "returns another entry than the one removed", rule=GONE)
                d = [e for e in p.ev if e.name == "delbkt"]
                o = [e for e in p.ev if e.name not in ("bucket_eq", "entry_memsize", "=", "L", "X", "__assert_fail")]
                J_.check(bool(d) or (None if o else False), "removed", p, "does not remove the bucket it found", rule=GONE)
                for e in d:
                    n = s.val(e.args[1])
                    J_.check(None if n is None else n & 0xffffffff == i, "removed", p, "removes bucket %s in place of %d" % (n, i), e, rule=GONE)
        elif tab[i] is None:
            n = s.val(p.ret) if p.ret is not None else None
            J_.check(None if n is None else n & 0xffffffff == (0xffffffff if nm == "map_get_bucket" else 0), "missing", p, "reports a key that is missing as found", rule=FIND)
        else:
            # left at a bucket that is taken and not the key's
            n = s.val(p.ret) if p.ret is not None else None
            J_.check(False if not [t for t in p.facts if unread(s, t)] else None, "end", p, "stops at bucket %d where another key is" % i, rule=FIND)


def unread(s, t):
    return s.val(t) is None


def agree_all(p, t, n):
    for f in p.facts:
        if t in set(walk(f)):
            v = value(f, {t: n})
            if v is not None and not agree(p, f, v):
                return False
    return True


def equal(prog, R):
    F = func(prog, "bucket_eq", "pogocache.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, FIND, keep=KEEP, **KW)
    tab = build([3, 3, 4])
    for i in (3, 4, 5):
        for h in (tab[i][1], tab[i][1] ^ 1, tab[i][1] ^ 0x800000, tab[i][1] ^ 0x8000):
            for l in (0, 1, 5, -2):
                for m in (0, 1):
                    for p in J_.paths:
                        if p.joined or p.ret is None:
                            continue
                        s = State(prog, tab)
                        s.env.update({P0: MAP, P1: i, P2: LOC - 64, P4: h, P3: 5})
                        s.locals(p, p.ev)
                        ek = [e for e in p.ev if e.name == "entry_key"]
                        for e in ek:
                            n = s.val(e.args[0])
                            J_.check(None if n is None else n == tab[i][2], "entry", p, "compares with the key of another entry", e)
                            s.env[e.res] = LOC - 128
                            a = s.val(e.args[1])
                            if a is not None:
                                s.put(a, 5 - l, 8)
                        mc = [e for e in p.ev if e.name == "memcmp"]
                        for e in mc:
                            s.env[e.res] = m
                        f = s.feasible(p)
                        if not f:
                            continue
                        n = s.val(p.ret)
                        want = h == tab[i][1] and l == 0 and m == 0
                        if n is not None and bool(n & 255) != want and not (bool(n & 255) is False and want):
                            J_.check(False, "equal", p, "takes a key with %s for the one looked for" % ("another hash" if h != tab[i][1] else "another length" if l else "other bytes"))
                        elif n is not None and want and not n & 255 and (mc or not [e for e in p.ev if e.name not in ("entry_key", "memcmp")]):
                            J_.check(False, "equal", p, "does not recognise the key looked for")
                        elif n is not None:
                            J_.check(True, "equal", p, "")
                        if want:
                            for e in mc:
                                n = s.val(e.args[2])
                                J_.check(None if n is None else n == 5, "bytes", p, "compares %s bytes of a key of 5" % n, e)
                                J_.check(any(same(strip(a), P2) for a in e.args[:2]) or None, "bytes", p, "", e)


# -- inserting
def ebkt(J_):
    """the local structure that is put into buckets"""
    out = set()
    for p in J_.iters + J_.paths:
        for e in p.ev:
            if e.name in ("memcpy", "memmove") and under(strip(e.args[1])).k == "al" and under(strip(e.args[0])).k != "al":
                n = e.args[2]
                if isc(n) and n.a[0] == BS:
                    out.add(strip(e.args[1]))
    return out


def put(s, table, i, eb, eq):
    """robin hood hashing: (what, table, carried bucket, next place)"""
    t = list(table)
    if t[i] is None:
        t[i] = eb
        return "new", t, None, None
    if eq:
        t[i] = (t[i][0], t[i][1], eb[2])
        return "replaced", t, None, None
    if t[i][0] < eb[0]:
        t[i], eb = eb, t[i]
    return "next", t, (eb[0] + 1,) + eb[1:], (i + 1) % NB


def states(homes, home):
    """(place, carried bucket, table) of every turn of an insertion into a table"""
    tab = build(homes)
    eb = (1, hashof(home, 20), entry(20))
    i = home
    while True:
        yield i, eb, tab
        w, tab, eb, i = put(None, tab, i, eb, 0)
        if w != "next":
            return


def insert(prog, R):
    F = func(prog, "map_insert", "pogocache.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, PUT, keep=KEEP, **KW)
    if any(p.joined for p in J_.iters):
        R.unknown += 1
    al = ebkt(J_)
    ix = {z for p in J_.iters for z in index(p) if z.a[0] in p.phis}
    if len(ix) != 1 or len(al) != 1:
        R.unknown += 1
        return
    ix, al = ix.pop(), al.pop()
    for p in J_.enters:
        v = p.phis.get(ix.a[0], (0, None))[1]
        for h in (5, 0x400007, 0xab00000d, 0xffffffff):
            for nb in (8, 64, 1 << 28):
                s = State(prog, [], nb=nb)
                s.env.update({P0: MAP, P1: entry(20), P2: h})
                n = s.val(v) if v is not None else None
                J_.check(None if n is None else n == (h & (nb - 1) & bits()), "begin", p, "begins at bucket %s of %d for the hash %x" % (n, nb, h))
                bs = {k: (None if p.st.mem.get((al, k)) is None or p.st.mem[(al, k)][1] != 1 else s.val(p.st.mem[(al, k)][0])) for k in range(BS)}
                bs = {k: b & 255 if b is not None else None for k, b in bs.items()}
                got = parse(bs)
                for g, w, what in zip(got, (1, h & 0xffffff, entry(20)), ("displacement %s in place of %x", "hash %x in place of %x", "entry %x in place of %x")):
                    J_.check(None if g is None else g == w, "bucket", p, "makes a bucket with " + what % (g or 0, w))
    first = {i for i in (p.phis[ix.a[0]][1] for p in J_.enters if p.phis.get(ix.a[0])) if i is not None}
    for homes in TABLES:
        for home in range(NB):
            for i, eb, tab in states(homes, home):
                own = eb[2] == entry(20)
                for eq in (0, 1, 2, 3):
                    # 1: the same key; 2, 3: another key with the same hash
                    if eq and (tab[i] is None or not own or tab[i][0] != eb[0]):
                        continue
                    t2 = list(tab)
                    if eq:
                        t2[i] = (tab[i][0], eb[1], tab[i][2])
                    s = State(prog, t2)
                    s.env.update({P0: MAP, P1: eb[2], P2: eb[1] | 0x5a000000, P3: LOC - 4096, ix: i})
                    s.mem.update({s.field(MAP, "growat") + k: 0 for k in ()})
                    s.local(al, bucketbytes(eb))
                    turn(prog, R, J_, s, ix, al, i, eb, t2, eq)


def kept(p, al, k):
    """a byte of a local structure that was not known when the turn began and was not written since"""
    e = [e for e in p.ev if e.name == "L"][-1:]
    return bool(e) and not any(psim.akey(a) == (al, k) for a in e[0].args[::2])


def turn(prog, R, J_, s, ix, al, i, eb, tab, eq, base=BK, cmp=True, rule=PUT):
    what, want, carried, nxt = put(s, tab, i, eb, eq == 1)
    for p in J_.iters + J_.paths:
        if p.joined:
            continue
        if cmp and p.kind != "iter" and not any(ix in set(walk(t)) for t in p.facts):
            continue
        if p.kind == "iter" and ix.a[0] not in p.phis and cmp:
            continue
        seg = p.segment() if p.kind == "iter" else p.ev
        ec = [e for e in p.ev if e.name == "entry_compare"]
        for e in p.ev:
            if e.name == "entry_compare":
                s.env[e.res] = 0 if eq == 1 else -1 if eq == 3 else 1
            elif e.name in ("resize", "map_init"):
                s.env[e.res] = 1
            elif e.name == "entry_memsize":
                s.env[e.res] = 100
        s.locals(p, seg)
        f = s.feasible(p, {ix})
        if f and ec:
            f = all(agree_all(p, e.res, s.env[e.res]) for e in ec)
        if f is not True:
            if f is None:
                R.unknown += 1
            continue
        eff = s.effects(seg)
        if eff is None:
            R.unknown += 1
            continue
        got = slots(s, eff, base)
        for k in range(NB):
            w = want[k]
            g = got[k]
            if w is None:
                J_.check(None if g[0] is None else g[0] == 0, "buckets", p, "fills bucket %d for an entry of bucket %d" % (k, i), rule=rule)
                continue
            for a, b, n in zip(g, w, ("displacement", "hash", "entry")):
                J_.check(None if a is None else a == b, "buckets", p, "%s: leaves %s %x in bucket %d where %x belongs" % (
                    {"new": "an empty bucket", "replaced": "the bucket of the key", "next": "a bucket of another key"}[what], n, a or 0, k, b), rule=rule)
        if p.kind == "iter" and p.phis.get(ix.a[0], (0, None))[1] is not None and (cmp or p.hdr == J_.inner):
            J_.check(what == "next", "ends", p, "goes on although the entry has its bucket", rule=rule)
            if what != "next":
                continue
            n = s.val(p.phis[ix.a[0]][1])
            J_.check(None if n is None else n & 0xffffffff == nxt, "next", p, "goes from bucket %d of %d to bucket %s" % (i, NB, n), rule=rule)
            bs = {}
            for k in range(BS):
                e = p.st.mem.get((al, k))
                v = s.val(e[0]) if e is not None and e[1] == 1 else s.mem.get(s.al[al] + k) if e is None and kept(p, al, k) else None
                bs[k] = v & 255 if v is not None else None
            for a, b, n in zip(parse(bs), carried, ("displacement", "hash", "entry")):
                J_.check(None if a is None else a == b, "carried", p, "goes on with %s %x in place of %x" % (n, a or 0, b), rule=rule)
        elif p.kind != "iter" or not cmp:
            J_.check(what != "next", "ends", p, "ends at a bucket of another key", rule=rule)
            if not cmp:
                continue
            n = s.val(p.ret) if p.ret is not None else None
            J_.check(None if n is None else bool(n & 255), "done", p, "reports that nothing was inserted", rule=rule)
            o = [e for e in p.ev if e.name == "=" and same(e.args[0], P3)]
            J_.check(bool(o) or None, "old", p, "", rule=rule)
            for e in o[-1:]:
                n = s.val(e.args[1])
                w = tab[i][2] if what == "replaced" else 0
                J_.check(None if n is None else n == w, "old", p, "reports %s as the entry replaced" % ("nothing" if not n else "an entry"), e, rule=rule)
            c = eff.get(s.field(MAP, "count"))
            w = sum(b is not None for b in want)
            if what == "new":
                J_.check(c == w if c is not None else None if s.field(MAP, "count") in eff else False, "counted", p, "does not count the new entry", rule=rule)


# -- removing
def remove(prog, R):
    F = func(prog, "delbkt", "pogocache.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, GONE, keep=KEEP, **KW)
    ix = {z for p in J_.iters + J_.paths for z in index(p) if any(z.a[0] in q.phis for q in J_.iters)}
    if len(ix) != 1:
        R.unknown += 1
        return
    ix = ix.pop()
    for p in J_.enters:
        v = p.phis.get(ix.a[0], (0, None))[1]
        for i in (0, 5, 7):
            s = State(prog, build([5, 5, 6]))
            s.env.update({P0: MAP, P1: i})
            n = s.val(v) if v is not None else None
            J_.check(None if n is None else n in (i, (i + 1) % NB), "begin", p, "begins at bucket %s to remove bucket %d" % (n, i))
            if n is not None and n != i:
                return      # another way to walk
    for homes in TABLES:
        for i in range(NB):
            tab = build(homes)
            if tab[i] is None:
                continue
            h = i
            tab[h] = (0,) + tab[h][1:]
            while True:
                j = (h + 1) % NB
                nx = tab[j]
                cleared = False
                for p in J_.iters + J_.paths:
                    if p.joined:
                        continue
                    s = State(prog, tab)
                    s.env.update({P0: MAP, P1: i, ix: h})
                    f = s.feasible(p, {ix})
                    if f is not True:
                        continue
                    seg = p.segment() if p.kind == "iter" else [e for e in p.ev]
                    if p.kind != "iter":
                        # stores before the loop go to the bucket that is removed
                        seg = [e for e in seg if e.name != "=" or ix in set(walk(e.args[0])) or fieldof(prog, e.args[0]) and fieldof(prog, e.args[0])[0] == "struct.map"]
                    eff = s.effects(seg)
                    if eff is None:
                        R.unknown += 1
                        continue
                    got = slots(s, eff)
                    stop = nx is None or nx[0] <= 1
                    if p.kind == "iter":
                        J_.check(not stop, "shift", p, "moves bucket %d, which is %s, into the bucket before it" % (j, "empty" if nx is None or not nx[0] else "at its home"))
                        if stop:
                            continue
                        n = s.val(p.phis[ix.a[0]][1])
                        J_.check(None if n is None else n & 0xffffffff == j, "next", p, "goes from bucket %d of %d to bucket %s" % (h, NB, n))
                        want = (nx[0] - 1,) + nx[1:]
                        cleared = cleared or got[j][0] in (0, None)
                        for a, b, w in zip(got[h], want, ("displacement", "hash", "entry")):
                            J_.check(None if a is None else a == b, "shift", p, "moves a bucket with %s %x in place of %x" % (w, a or 0, b))
                    else:
                        J_.check(stop, "shift", p, "leaves the bucket behind the removed one %d places from its home with a gap before it" % ((nx[0] - 1) if nx else 0))
                        if not stop:
                            continue
                        J_.check(None if got[h][0] is None else got[h][0] == 0, "empty", p, "leaves the last bucket of the chain filled")
                        c = eff.get(s.field(MAP, "count"))
                        J_.check(None if c is None and s.field(MAP, "count") in eff else c is not None and c == (s.mem[s.field(MAP, "count")] - 1) & 255, "counted", p, "does not count the entry out")
                    for k in range(NB):
                        if k != h and tab[k] is not None and tab[k][0] and not (k == j and got[k][0] == 0):
                            J_.check(None if None in got[k] else got[k] == tab[k], "others", p, "changes bucket %d to remove bucket %d" % (k, i))
                if nx is None or nx[0] <= 1:
                    break
                tab[h] = (nx[0] - 1,) + nx[1:]
                h = j
                if cleared:
                    tab[h] = (0,) + tab[h][1:]


# -- changing the size
def move(prog, R):
    F = func(prog, "resize", "pogocache.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, SIZE, keep=KEEP, **KW)
    al = ebkt(J_)
    pre = {h: [p for p in J_.enters if p.hdr == h] for h in {p.hdr for p in J_.enters}}
    inner = [h for h in pre if any(z.a[0] in p.phis for p in J_.iters if p.hdr == h for z in index(p))]
    if len(al) != 1 or not inner:
        R.unknown += 1
        return
    al = al.pop()
    # the loop whose every turn goes to the next bucket of the new table is inside the loop over the old one
    L = J_.S.f.loops
    inner = [h for h in inner if not any(g != h and set(L[g]) < set(L[h]) for g in L)]
    if len(inner) != 1:
        R.unknown += 1
        return
    J_.inner = inner = inner[0]
    outer = [h for h in L if set(L[inner]) < set(L[h])]
    ix = {z for p in J_.iters if p.hdr == inner for z in index(p) if z.a[0] in p.phis}
    if len(ix) != 1 or len(outer) != 1:
        R.unknown += 1
        return
    ix, outer = ix.pop(), outer[0]
    ox = {z for p in J_.iters if p.hdr == outer for z in index(p) if z.a[0] in p.phis} | {z for p in J_.enters if p.hdr == inner for z in index(p)}
    ox.discard(ix)
    if len(ox) != 1:
        R.unknown += 1
        return
    ox = ox.pop()
    new = {x for p in J_.enters if p.hdr == inner for e in p.ev if e.name == "map_init" for x in [strip(e.args[0])]}
    if len(new) != 1:
        R.unknown += 1
        return
    new = new.pop()
    # every bucket of the old table is looked at
    for p in J_.enters:
        if p.hdr == outer:
            v = p.phis.get(ox.a[0], (0, None))[1]
            J_.check(None if v is None or not isc(strip(v)) else strip(v).a[0] == 0, "from 0", p, "begins with bucket %s of the old table" % (strip(v).a[0] if v is not None and isc(strip(v)) else ""))
    old = [(2, hashof(3, 2), entry(2)), None, (1, hashof(2, 3), entry(3)), None] * 2

    def env(tab, i, j, eb):
        s = State(prog, old)
        s.env.update({P0: MAP, P1: NB, ox: i, ix: j})
        for k, b in enumerate(tab):
            for o, v in bucketbytes(b).items():
                s.mem[BK2 + BS * k + o] = v
        if new.k == "al":
            s.local(new)
            s.fields(s.al[new], {"mask": NB - 1, "nbuckets": NB, "buckets": BK2, "count": 0, "total": 0, "growat": NB - 1, "cap": NB, "entsize": 0})
        s.local(al, bucketbytes(eb) if eb else None)
        return s
    for i in (0, 1, 2, 6, 7, 8, 9):
        for p in J_.iters + J_.enters + J_.paths:
            if p.joined or p.kind == "iter" and (p.hdr != outer or through(p, inner)) or p.kind == "enter" and p.hdr != inner:
                continue
            if not any(ox in set(walk(t)) for t in p.facts):
                continue
            s = env([None] * NB, i, 0, None)
            if i >= NB:
                s.mem.update({BK + BS * i + k: v for k, v in bucketbytes((1, 5, entry(3))).items()})
            for e in evs(p, "map_init"):
                s.env[e.res] = 1
            f = s.feasible(p, {ox})
            if not f:
                R.unknown += f is None
                continue
            if i >= NB:
                J_.check(p.kind == "exit", "all", p, "reads bucket %d of a table of %d" % (i, NB))
                continue
            if p.kind == "exit":
                J_.check(False, "all", p, "ends before bucket %d of a table of %d" % (i, NB))
            elif p.kind == "enter":
                J_.check(old[i] is not None, "all", p, "moves a bucket that is empty")
                if old[i] is None:
                    continue
                v = p.phis.get(ix.a[0], (0, None))[1]
                for nb in (8, 64):
                    s.fields(s.al.get(new, MAP), {"mask": nb - 1, "nbuckets": nb})
                    n = s.val(v) if v is not None else None
                    J_.check(None if n is None else n == old[i][1] & (nb - 1), "begin", p, "begins at bucket %s of %d for the hash %x" % (n, nb, old[i][1]))
                bs = {}
                for k in range(BS):
                    e = p.st.mem.get((al, k))
                    x = s.val(e[0]) if e is not None and e[1] == 1 else None
                    bs[k] = x & 255 if x is not None else None
                for a, b, w in zip(parse(bs), (1,) + old[i][1:], ("displacement", "hash", "entry")):
                    J_.check(None if a is None else a == b, "bucket", p, "moves a bucket with %s %x in place of %x" % (w, a or 0, b))
            else:
                J_.check(old[i] is None, "all", p, "leaves the entry of bucket %d behind" % i)
                n = s.val(p.phis[ox.a[0]][1]) if p.phis.get(ox.a[0], (0, None))[1] is not None else None
                J_.check(None if n is None else n == i + 1, "all", p, "goes from bucket %d of the old table to bucket %s" % (i, n))
    for homes in SMALL:
        for home in range(NB):
            for j, eb, tab in states(homes, home):
                s = env(tab, 0, j, eb)
                s.fields(MAP, {"mask": 3, "cap": 4})
                # the first turns know the bucket as that of the old table
                for o, v in bucketbytes(eb).items():
                    s.mem[BK + o] = v
                s.env["x"] = None
                resized(prog, R, J_, s, ix, ox, al, j, eb, tab, outer)
    # what the table is afterwards
    for p in J_.paths:
        mi = evs(p, "map_init")
        if not mi or resultzero(p, mi[-1].res):
            fr = [e for e in p.ev if e.name == "*indirect*"]
            n = p.range(p.ret) if p.ret is not None else None
            J_.check(None if fr else zero(n) if zero(n) or nonzero(n) else None, "failed", p, "reports a table that could not be made as made")
            continue
        cp = [e for e in p.ev if e.name in ("memcpy", "memmove") and same(strip(e.args[0]), P0) and strip(e.args[1]) == new]
        s = State(prog, old, fields={"cap": 16, "count": 4, "entsize": 5000, "total": 100})
        if new.k == "al":
            s.local(new)
            s.fields(s.al[new], {"mask": 31, "nbuckets": 32, "buckets": BK2, "count": 0, "total": 0, "growat": 30, "cap": 32, "entsize": 0, "shrinkat": 3})
        s.env.update({P0: MAP, P1: 32})
        s.locals(p, p.ev)
        eff, by = {}, {}
        for e in p.ev:
            if e in cp:
                n = s.val(e.args[2])
                for k in range(n or 0):
                    # members that are known come before the copy they are part of
                    if by.get(MAP + k) is not e.I:
                        eff[MAP + k] = s.mem.get(s.al.get(new, 0) + k)
            elif e.name == "=L":
                # a member of the new table
                a, v = s.val(e.args[0]), s.val(e.args[1])
                for k in range(width8(e.args[1], prog, e.args[0]) if a is not None else 0):
                    s.mem[a + k] = None if v is None else v >> 8 * k & 255
            elif e.name == "=":
                a, v = s.val(e.args[0]), s.val(e.args[1])
                if a is None:
                    continue
                for k in range(width8(e.args[1], prog, e.args[0])):
                    eff[a + k] = None if v is None else v >> 8 * k & 255
                    by[a + k] = e.I
        for f, w, n in (("cap", 16, 4), ("count", 4, 4), ("entsize", 5000, 8), ("total", 100, 8), ("mask", 31, 4), ("nbuckets", 32, 4), ("buckets", BK2, 8), ("growat", 30, 4)):
            a = s.field(MAP, f)
            v = [eff.get(a + k, s.mem.get(a + k)) for k in range(n)]
            v = None if None in v else sum(b << 8 * k for k, b in enumerate(v))
            J_.check(None if v is None else v == w, "kept" if f in ("cap", "count", "entsize", "total") else "taken over", p, "leaves %s as %s in place of %s" % (f, v, w))
        J_.check(nonzero(p.range(p.ret)) or (None if p.ret is None or not zero(p.range(p.ret)) else False), "done", p, "reports a new table as failed")


def through(p, hdr):
    """a turn passes through an inner loop"""
    return any(e.name == "L" and e.x == hdr for e in p.segment())


def resized(prog, R, J_, s, ix, ox, al, j, eb, tab, outer):
    what, want, carried, nxt = put(s, tab, j, eb, 0)
    for p in J_.iters:
        if p.joined or p.hdr not in (J_.inner, outer) or p.hdr == outer and not through(p, J_.inner):
            continue
        if not any(ix in set(walk(t)) for t in p.facts):
            continue
        for e in p.ev:
            if e.name == "map_init":
                s.env[e.res] = 1
        s.locals(p, p.segment())
        f = s.feasible(p, {ix})
        if f is not True:
            R.unknown += f is None
            continue
        eff = s.effects(p.segment())
        if eff is None:
            R.unknown += 1
            continue
        # a turn of the outer loop also holds what happened since its begin
        got = slots(s, eff, BK2)
        for k in range(NB):
            w, g = want[k], got[k]
            if w is None:
                J_.check(None if g[0] is None else g[0] == 0, "buckets", p, "fills bucket %d for an entry of bucket %d" % (k, j))
                continue
            for a, b, n in zip(g, w, ("displacement", "hash", "entry")):
                J_.check(None if a is None else a == b, "buckets", p, "%s: leaves %s %x in bucket %d where %x belongs" % (
                    {"new": "an empty bucket", "next": "a bucket that is taken"}[what], n, a or 0, k, b))
        if p.hdr == J_.inner:
            J_.check(what == "next", "ends", p, "goes on although the entry has its bucket")
            if what != "next":
                continue
            n = s.val(p.phis[ix.a[0]][1])
            J_.check(None if n is None else n == nxt, "next", p, "goes from bucket %d of %d to bucket %s" % (j, NB, n))
            bs = {}
            for k in range(BS):
                e = p.st.mem.get((al, k))
                v = s.val(e[0]) if e is not None and e[1] == 1 else s.mem.get(s.al[al] + k) if e is None and kept(p, al, k) else None
                bs[k] = v & 255 if v is not None else None
            for a, b, n in zip(parse(bs), carried, ("displacement", "hash", "entry")):
                J_.check(None if a is None else a == b, "carried", p, "goes on with %s %x in place of %x" % (n, a or 0, b))
        else:
            J_.check(what != "next", "ends", p, "drops an entry at a bucket that is taken")


def fval(t, env):
    """terms with fractions"""
    if t in env:
        return env[t]
    if t.k == "c":
        return t.a[0]
    if t.k == "d":
        try:
            return float(t.a[0])
        except (TypeError, ValueError):
            return None
    if t.k == "cast":
        v = fval(t.a[1], env)
        if v is None:
            return None
        return int(v) if t.a[0] in ("fptosi", "fptoui") else v
    if t.k == "bin":
        a, b = fval(t.a[1], env), fval(t.a[2], env)
        if a is None or b is None:
            return None
        op = t.a[0]
        if op in ("fmul", "mul"):
            return a * b
        if op in ("fadd", "add"):
            return a + b
        if op in ("fsub", "sub"):
            return a - b
        if op == "fdiv":
            return a / b if b else None
        if op in ("sdiv", "udiv"):
            return a // b if b else None
        if op == "shl":
            return a << b if isinstance(a, int) and 0 <= b < 64 else None
        if op in ("lshr", "ashr"):
            return a >> b if isinstance(a, int) and 0 <= b < 64 else None
    if t.k == "cmp":
        a, b = fval(t.a[1], env), fval(t.a[2], env)
        if a is None or b is None:
            return None
        return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "slt": a < b, "sle": a <= b}.get(t.a[0])
    return None


def fields(t, prog):
    """{load: member} of the loads of members in a term"""
    out = {}
    for y in walk(t):
        if y.k == "ld":
            f = fieldof(prog, y.a[1])
            if f:
                out[y] = f
    return out


def follow(J_, prog, known):
    """the calls of resize reached when the loops of a function are followed with known values: (path, call, values)"""
    def holds(p, env):
        for t in p.facts:
            f = {y: known.get(m[1]) for y, m in fields(t, prog).items()}
            v = fval(t, {**env, **{y: n for y, n in f.items() if n is not None}})
            if v is None:
                if any(y.k == "phi" for y in walk(t)):
                    return None
                continue
            if not agree(p, t, v):
                return False
        return True
    if any(p.joined for p in J_.iters + J_.paths):
        return
    seen = set()
    for p in J_.paths:
        for e in evs(p, "resize"):
            if not [x for x in p.ev if x.name == "L"] and holds(p, {}):
                yield p, e, {}
    for p in J_.enters:
        if not holds(p, {}) or [x for x in p.ev if x.name == "L"]:
            continue
        env, hdr = {}, p.hdr
        for i, (a, b) in p.phis.items():
            v = fval(strip(b), {y: known.get(m[1]) for y, m in fields(b, prog).items()}) if b is not None else None
            if v is None:
                return
            env[mk("phi", i)] = v
        for _ in range(40):
            nxt = [q for q in J_.iters if q.hdr == hdr and holds(q, env) is True]
            out = [q for q in J_.paths if [x for x in q.ev if x.name == "L" and x.x == hdr] and holds(q, env) is True]
            if len({id(q) for q in nxt}) and out or not nxt and not out:
                return
            if out:
                for q in out:
                    for e in evs(q, "resize"):
                        k = (e.I.line, tuple(sorted(map(str, env.items()))))
                        if k not in seen:
                            seen.add(k)
                            yield q, e, env
                return
            new = {}
            for i, (a, b) in nxt[0].phis.items():
                if b is None:
                    return
                v = fval(strip(b), {**env, **{y: known.get(m[1]) for y, m in fields(b, prog).items()}})
                if v is None:
                    return
                new[mk("phi", i)] = v
            env = new


def pow2(n):
    return isinstance(n, int) and n > 0 and n & (n - 1) == 0


def sizes(prog, R):
    F = func(prog, "map_init", "pogocache.c")
    if F:
        J_ = J(prog, R, F, SIZE, keep=KEEP[:2] + KEEP[3:], **KW)
        for p in J_.paths:
            if not nonzero(p.range(p.ret)):
                continue
            st = {}
            for e in stores(p, prog, "struct.map"):
                st[fieldof(prog, e.args[0])[1]] = e
            for cap in (64, 1024, 1 << 20):
                for lf in (0.55, 0.75, 0.95):
                    def ev(t):
                        env = {P1: cap}
                        for y, f in fields(t, prog).items():
                            if f[1] == "loadfactor":
                                env[y] = lf
                            elif f[1] == "shrinkfactor":
                                env[y] = 0.1
                            elif f[1] in ("nbuckets", "mask"):
                                env[y] = cap - (f[1] == "mask")
                        return fval(t, env)
                    n = ev(st["nbuckets"].args[1]) if "nbuckets" in st else None
                    if "nbuckets" in st:
                        J_.check(None if n is None else n == cap, "buckets", p, "makes %s buckets for %d" % (n, cap), st["nbuckets"])
                    if "mask" in st:
                        m = ev(st["mask"].args[1])
                        J_.check(None if m is None else m == cap - 1, "mask", p, "uses the mask %s for %d buckets" % (m, cap), st["mask"])
                    if "growat" in st:
                        m = ev(st["growat"].args[1])
                        J_.check(None if m is None else 1 <= m < cap, "grows", p, "grows a table of %d buckets at %s entries" % (cap, m), st["growat"])
                    if "shrinkat" in st:
                        m = ev(st["shrinkat"].args[1])
                        J_.check(None if m is None else m < cap // 2, "shrinks", p, "shrinks a table of %d buckets at %s entries" % (cap, m), st["shrinkat"])
                    for e in p.ev:
                        if e.name == "*indirect*" and fields(e.args[0], prog) and list(fields(e.args[0], prog).values())[0][1] == "malloc":
                            m = ev(e.args[1])
                            J_.check(None if m is None else m >= BS * cap, "memory", p, "takes %s bytes for %d buckets" % (m, cap), e)
                            fl = [x for x in p.ev if x.name in ("memset", "fill") and x.args and strip(x.args[0]) == strip(e.res)]
                            for x in fl:
                                m = ev(x.args[2]) if len(x.args) > 2 else None
                                J_.check(None if m is None else m >= BS * cap, "cleared", p, "clears %s bytes of %d buckets" % (m, cap), x)
                                J_.check(not isc(strip(x.args[1])) or strip(x.args[1]).a[0] & 255 == 0, "cleared", p, "does not clear new buckets", x)
                            other = [x for x in p.ev if x.name not in ("=", "*indirect*", "L", "X", "memset", "fill")]
                            J_.check(bool(fl) or (None if other or J_.iters else False), "cleared", p, "does not clear new buckets", e)
    for nm in ("map_insert", "tryshrink", "shard_init"):
        F = func(prog, nm, "pogocache.c")
        if F is None:
            R.unknown += 1
            continue
        J_ = J(prog, R, F, SIZE, keep=KEEP, **KW)
        seen = set()
        for p in J_.paths + J_.iters:
            for e in p.ev:
                if e.name == "map_init" and nm == "shard_init":
                    n = strip(e.args[1])
                    J_.check(None if not isc(n) else pow2(n.a[0]) and n.a[0] >= 4, "power of two", p, "makes a table of %s buckets" % (n.a[0] if isc(n) else ""), e)
                if e.name == "resize" and nm == "map_insert":
                    for nb in (64, 4096):
                        n = fval(strip(e.args[1]), {y: nb for y, f in fields(e.args[1], prog).items() if f[1] in ("nbuckets",)})
                        J_.check(None if n is None else pow2(n) and n > nb, "grows to", p, "grows a table of %d buckets to %s" % (nb, n), e)
            if nm == "map_insert":
                rs = evs(p, "resize")
                for cnt, ga in ((10, 48), (47, 48), (48, 48), (60, 48), (63, 48)):
                    ts = [(t, f) for t in p.facts for f in [fields(t, prog)] if f and {x[1] for x in f.values()} <= {"count", "growat", "nbuckets", "mask"} and not any(y.k == "phi" for y in walk(t))]
                    vs = [(t, fval(t, {y: {"count": cnt, "growat": ga, "nbuckets": 64, "mask": 63}[m[1]] for y, m in f.items()})) for t, f in ts]
                    if not vs or any(v is None or not agree(p, t, v) for t, v in vs):
                        continue
                    if cnt >= (ga if all("growat" in {x[1] for x in f.values()} for t, f in ts) else 63):
                        J_.check(bool(rs) or (None if any(x.name not in ("=", "L", "X", "entry_memsize", "entry_compare", "memcpy") for x in p.ev) else False), "grows", p, "puts an entry into a table that is full")
        if nm == "tryshrink":
            for cnt, cap, nb, lf in ((20, 64, 512, 0.75), (47, 64, 512, 0.75), (48, 64, 512, 0.75), (49, 64, 1024, 0.75), (97, 64, 2048, 0.75), (100, 64, 4096, 0.55), (61, 64, 512, 0.95)):
                known = {"count": cnt, "cap": cap, "nbuckets": nb, "loadfactor": lf, "shrinkat": nb // 8, "allowshrink": 1, "mask": nb - 1}
                for p, e, env in follow(J_, prog, known):
                    n = fval(strip(e.args[1]), {**env, **{y: known.get(m[1]) for y, m in fields(e.args[1], prog).items()}})
                    J_.check(None if n is None else pow2(n) and int(n * lf) > cnt, "shrinks to", p, "moves %d entries to a table of %s buckets with the load factor %s" % (cnt, n, lf), e)
    F = func(prog, "opts_to_ctx", "pogocache.c")
    if F:
        J_ = J(prog, R, F, SIZE, keep=KEEP, **KW)
        for p in J_.paths:
            if p.joined:
                continue
            for e in p.ev:
                if e.name != "=":
                    continue
                f = fieldof(prog, e.args[0])
                if f is None or f[1] != "loadfactor":
                    continue
                for n in (-5, 0, 1, 54, 55, 75, 95, 96, 99, 100, 400):
                    ts = [(t, {y: n for y, m in fields(t, prog).items() if m[1] == "loadfactor"}) for t in p.facts]
                    vs = [(t, fval(t, en)) for t, en in ts if en]
                    if any(v is not None and not agree(p, t, v & M64 if isinstance(v, int) else v) for t, v in vs):
                        continue
                    v = fval(e.args[1], {y: n for y, m in fields(e.args[1], prog).items() if m[1] == "loadfactor"})
                    J_.check(None if v is None or any(x is None for _, x in vs) else 0.1 < v < 1, "load factor", p, "fills a table to %s for the load factor %d" % (v, n), e)


# -- the hash of a key
def hashes(prog, R):
    F = func(prog, "acquire_for_key", "pogocache.c")
    if F:
        J_ = J(prog, R, F, HASH, keep=KEEP + ("lock", "th64"), cap=1500, mods=("pogocache.c",))
        for p in J_.paths:
            th = evs(p, "th64")
            if not th:
                J_.check(None, "hash", p, "")
                continue
            for e in th:
                J_.check(same(strip(e.args[0]), P0) and same(strip(e.args[1]), P1) or (False if isc(strip(e.args[1])) else None), "hash", p, "hashes other bytes than the key", e)
                f = list(fields(e.args[2], prog).values())
                J_.check((False if any(y.k == "call" for y in walk(e.args[2])) else None) if not f else f[0][1] == "seed", "hash", p, "hashes a key with another seed", e)
            h = th[-1].res
            ho = [e for e in p.ev if e.name == "=" and same(strip(e.args[0]), P2)]
            for e in ho:
                n = value(e.args[1], {h: 0x123456789abcdef0, **{y: 1000 for y, m in fields(e.args[1], prog).items() if m[1] == "nshards"}})
                J_.check(None if n is None else n & 0xffffff == 0xbcdef0, "hash", p, "passes on other bits than those of the hash", e)
            so = [e for e in p.ev if e.name == "=" and same(strip(e.args[0]), P4)]
            for e in so:
                f = {y: 1000 for y, m in fields(e.args[1], prog).items() if m[1] == "nshards"}
                got = {}
                for x in (0x123456789abcdef0, 0xfedcba9876543210, 5, M64):
                    n = value(e.args[1], {**f, h: x}) if h in set(walk(e.args[1])) else None
                    if n is not None:
                        got[x] = n & 0xffffffff
                J_.check(None if len(got) < 4 else all(0 <= n < 1000 for n in got.values()), "shard", p, "chooses a shard that does not exist", e)
                J_.check(h in set(walk(e.args[1])) or (False if isc(strip(e.args[1])) else None), "shard", p, "does not choose the shard of the key", e)
    # the operations use the hash they were given, or that of the same key
    ops = ("map_get_bucket", "map_delete", "map_insert")
    for F in prog.mods["pogocache.c"].funcs.values():
        cs = [I for I in F.insts() if I.op == "call" and I.callee and I.callee[0] == "f" and I.callee[1] in ops]
        if not cs or F.name in ops:
            continue
        J_ = J(prog, R, F, HASH, keep=KEEP + ("th64", "evict_entry", "auto_evict_entry", "notify", "entry_new", "loadop", "storeop", "deleteop", "entry_alive", "entry_lock", "entry_extract", "entry_fetch", "load_opts", "pogocache_now", "getnow", "entry_cas", "entry_flags", "entry_expires", "entry_value", "varint_read_u64", "entry_free", "entry_retain", "entry_release"), cap=1500, mods=("pogocache.c",))
        hp = hashparam(prog, F)
        for p in J_.paths + J_.iters:
            for e in p.ev:
                if e.name not in ops:
                    continue
                a = strip(e.args[2] if e.name == "map_insert" else e.args[3])
                th = [x for x in p.ev if x.name == "th64"]
                if th and any(a2 is th[-1].res for a2 in walk(a)):
                    x = th[-1]
                    ok = e.name == "map_insert" or same(strip(x.args[0]), strip(e.args[1])) and same(strip(x.args[1]), strip(e.args[2]))
                    J_.check(ok or None, "same hash", p, "", e)
                    n = value(a, {x.res: 0x123456789abcdef0})
                    J_.check(None if n is None else n & 0xffffff == 0xbcdef0, "same hash", p, "looks for a key with other bits of its hash", e)
                elif hp is not None:
                    n = value(a, {hp: 0x9abcdef0})
                    J_.check((n & 0xffffff == 0xbcdef0) if n is not None else False if isc(a) else None, "same hash", p, "looks for a key with another hash than its own", e)
    # and the callers pass on what acquire_for_key gave them
    for nm in ("pogocache_load", "pogocache_store", "pogocache_delete"):
        F = func(prog, nm, "pogocache.c")
        if F is None:
            continue
        for I in F.insts():
            if I.op == "call" and I.callee and I.callee[0] == "f" and I.callee[1] in ("loadop", "storeop", "deleteop"):
                G = func(prog, I.callee[1], "pogocache.c")
                h = hashparam(prog, G) if G else None
                if h is None:
                    continue
                J_ = J(prog, R, F, HASH, keep=KEEP + ("acquire_for_key", "lock", "loadop", "storeop", "deleteop", "batch"), cap=1500, mods=("pogocache.c",))
                for p in J_.paths:
                    for e in evs(p, I.callee[1]):
                        q = [x for x in evs(p, "acquire_for_key")]
                        a = strip(e.args[h.a[0]])
                        k = [j for x in q for j in range(2, len(x.args)) if a.k == "ld" and strip(a.a[1]) == strip(x.args[j])]
                        J_.check(k == [2] or (False if isc(a) or len(k) == 1 else None), "passed on", p, "passes on another hash than the one of its key", e)


def hashparam(prog, F):
    """the parameter a function gets the hash of its key in"""
    c = [i for i, t in enumerate(F.ditypes[1:]) if t == "unsigned int"] if F.ditypes else []
    return mk("p", c[0]) if len(c) == 1 else None
