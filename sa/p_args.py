"""C22: a command reads only arguments that were sent."""
from gensim import *
from p_sem import ASSUME
from semlib import under
import cmdsim

EXPLAIN = {}
READ = "an argument is read only if it was sent"


COUNT = "a command with too few or too many arguments is refused"

# number of arguments, the name included
ARITY = {
    "get": (2, 2), "set": (3, None), "setex": (4, 4), "del": (2, None), "mget": (2, None), "mgets": (2, None), "ttl": (2, 2), "pttl": (2, 2),
    "expire": (3, None), "dbsize": (1, 1), "echo": (2, 2), "exists": (2, None), "monitor": (1, 1), "purge": (1, 2), "keys": (2, 2),
    "select": (2, 2), "ping": (1, 2), "touch": (2, None), "debug": (2, None), "incrby": (3, 3), "decrby": (3, 3), "incr": (2, 2), "decr": (2, 2),
    "uincrby": (3, 3), "udecrby": (3, 3), "uincr": (2, 2), "udecr": (2, 2), "append": (3, 3), "prepend": (3, 3), "stats": (1, 1), "scan": (2, None),
}


class ArgRule(GenRule):
    """looks at every read of an element of an argument list"""

    def __init__(self, prog, named=True, **kw):
        GenRule.__init__(self, prog, **kw)
        self.reads = {}
        self.named = named      # the first argument is the command's name

    def tracked(self, t):
        # what is known about the number of arguments
        b = t.a[1] if t.k == "cmp" and isc(t.a[2]) else t
        if b.k == "ld" and fieldof(self.prog, b.a[1]) == ("struct.args", "len"):
            return True
        return GenRule.tracked(self, t)

    def step(self, S, st, I):
        if I.op == "load":
            A = S.val(st, I.a[0])
            r = element(self.prog, A)
            if r is not None:
                L, idx, fld = r
                v = verdict(self, S, st, L, idx, I)
                k = (I.id, v)
                if k not in self.reads:
                    self.reads[k] = (L, idx, fld, I, S.trace(st) if v is False else None, cmdsim.JOINED in st.facts)
        elif I.op == "call" and S.callee_name(I) == "argeq" and len(I.a) >= 2:
            # reads the element without asking whether it is there
            L, idx = listof(self.prog, S, st, S.val(st, I.a[0])), S.val(st, I.a[1])
            if L is not None:
                L, k = L
                idx = strip(mkadd(strip(idx), k))
                v = verdict(self, S, st, L, idx, I)
                k = (I.id, v)
                if k not in self.reads:
                    self.reads[k] = (L, idx, "text", I, S.trace(st) if v is False else None, cmdsim.JOINED in st.facts)
        GenRule.step(self, S, st, I)


def element(prog, A):
    """(list, index term, field) when the address is list->bufs[index].field"""
    s = ast(A)
    if s is None or s[0] != "struct.buf":
        return None
    try:
        fld = prog.member(*s)
    except Exception:
        return None
    r, o = akey(A)
    if r.k == "idx":
        base, bo = akey(r.a[0])
        if len(r.a[1]) != 1 or r.a[1][0][1] != 24:
            return None
        idx, k = r.a[1][0][0], (r.a[2] or 0) + bo + o
    else:
        base, idx, k = r, C(0), o
    # the fields of one element are 0, 8, 16
    n = (k - {"data": 0, "len": 8, "cap": 16}.get(fld, 0)) // 24
    base = strip(base)
    if base.k != "ld":
        return None
    f = fieldof(prog, base.a[1])
    if f != ("struct.args", "bufs"):
        return None
    return under(base.a[1]), mkadd(idx, n), fld


def listof(prog, S, st, A):
    """(list, offset) for an argument list passed on, which may be a copy that leaves out the first ones"""
    if A.k != "al":
        return A, 0
    e = st.mem.get((A, 8))
    if e is None:
        return None
    b, o = akey(e[0])
    b = strip(b)
    if b.k != "ld" or fieldof(prog, b.a[1]) != ("struct.args", "bufs") or o % 24:
        return None
    return under(b.a[1]), o // 24


def mkadd(t, n):
    if n == 0:
        return t
    if isc(t):
        return C(t.a[0] + n)
    return mk("bin", "add", t, C(n))


def lens(prog, p, L):
    """terms known to be the length of the list"""
    out = []
    seen = set()
    for t in p.facts:
        for x in walk(t):
            if x in seen:
                continue
            seen.add(x)
            if x.k == "ld" and under(x.a[1]) is L and fieldof(prog, x.a[1]) == ("struct.args", "len"):
                out.append(x)
    return out


def verdict(rule, S, st, L, idx, I):
    p = Path(S, st, I, None, "read")
    ls = lens(rule.prog, p, L)
    idx = strip(idx)
    if isc(idx):
        n = idx.a[0]
        if n < 0:
            return False
        if n == 0 and rule.named:
            return True
        for f in p.facts:
            if f.k == "argeq" and isc(f.a[1]) and f.a[1].a[0] >= n and p.truth(f) is True:
                return True
        if not ls:
            # nothing was asked about the length
            return False
        for f in p.facts:
            # an argument that is equal to something is there: no such path
            if f.k == "argeq" and isc(f.a[1]) and p.truth(f) is True and any(p.range(x)[1] <= f.a[1].a[0] for x in ls):
                return True
        for x in ls:
            lo, hi, ex = p.range(x)
            m = max(lo, 1 if rule.named else 0)
            while m in ex:
                m += 1
            if m > n:
                return True
        for x in ls:
            if le(p, idx, x, True):
                return True
        # related to something else that is known?
        for pr, a, b, v, t in cmpfacts(p):
            for x in ls:
                if (any(y is x for y in walk(a)) or any(y is x for y in walk(b))) and not (isc(strip(a)) or isc(strip(b))):
                    return None
        return False
    if not ls:
        return None
    for x in ls:
        if le(p, idx, x, True):
            return True
    # i <= len and i != len
    for x in ls:
        if le(p, idx, x) and differ(p, idx, x):
            return True
    for f in p.facts:
        if f.k == "argeq" and p.truth(f) is True and same(f.a[1], idx):
            return True
    for f in p.facts:
        if f.k == "argeq" and p.truth(f) is True:
            d = lsub(f.a[1], idx)
            if d is not None and not d[1] and d[0] > 0:
                return True
    # known only for an earlier element
    for x in ls:
        for k in (1, 2, 3):
            if le(p, mkadd(idx, -k), x, True):
                return False
    return None


def differ(p, a, b):
    for pr, x, y, v, t in cmpfacts(p):
        if pr == "eq" and v is False:
            d, e = lsub(x, y), lsub(a, b)
            if d and e and (d == e or (d[0] == -e[0] and d[1] == {k: -w for k, w in e[1].items()})):
                return True
    return False


def C22(prog, R, tier):
    EXPLAIN["C22"] = ("every read of an element of an argument list in the command handlers, in the memcache translation and in the Postgres entry points, "
                      "on every path, against what the path knows about the number of arguments")
    hs = {}
    for n, H in command_table(prog):
        hs.setdefault(H.key, (H, []))[1].append(ARITY.get(n))
    work = [(H, dict(arity=a[0] if a and all(x == a[0] for x in a) else None)) for H, a in hs.values()]
    for n in ("evcommand", "pg_precommand", "monitor_cmd"):
        F = func(prog, n)
        if F is not None:
            work.append((F, {}))
    F = func(prog, "parse_memcache")
    if F is not None:
        work.append((F, dict(mods=("memcache.c",), cut=True, named=False)))
    for F, kw in work:
        one(prog, R, F, **kw)


def one(prog, R, F, arity=None, **kw):
    import psim
    R.analysed(F)
    old, psim.MAXD = psim.MAXD, 40
    try:
        rule = ArgRule(prog, stores=False, **dict({"mods": ("cmds.c",)}, **kw))
        try:
            simulate(prog, F, cap=4000, cache=False, rule=rule)
        except Broken:
            R.unknown += 1
            return
    finally:
        psim.MAXD = old
    for (iid, v), (L, idx, fld, I, tr, joined) in sorted(rule.reads.items(), key=lambda x: (x[0][0], str(x[0][1]))):
        if v is None or v is False and joined:
            R.unknown += 1
        elif v:
            R.ok(READ, "%s argument %s" % (F.name, show(idx)[:40]))
        else:
            R.bad(READ, "%s|%s|%s" % (F.name, show(idx)[:60], fld), "%s:%s" % (I.fn.file, I.line),
                  "%s: reads argument %s, which need not have been sent" % (F.name, show(idx)[:60]), tr)

    if arity is not None:
        count(prog, R, F, rule, *arity)
        if F.name != "cmdDEBUG":    # its sub-commands have numbers of their own
            refused(prog, R, F, rule, *arity)


def count(prog, R, F, rule, lo, hi):
    L = mk("p", 1)
    n = 0
    for p in rule.paths:
        if any(e.name.startswith("conn_write_error") for e in p.ev):
            continue
        if not any(e.name and e.name.startswith(("conn_", "pg_write", "pogocache_")) for e in p.ev):
            continue
        low, high = lo <= 1, hi is None
        ls = lens(prog, p, L)
        for x in ls:
            l, h, ex = p.range(x)
            l = max(l, 1)
            while l in ex:
                l += 1
            while h in ex:
                h -= 1
            low = low or l >= lo or le(p, C(lo - 1), x, True)
            if hi is not None:
                high = high or h <= hi and l <= h or le(p, x, C(hi))
        if p.joined and not ls:
            R.unknown += 1
            continue
        n += 1
        if not low or not high:
            if p.joined:
                R.unknown += 1
                continue
            R.bad(COUNT, F.name, "%s:%s" % (F.file, F.line), "%s: carried out with %s arguments (%s wanted)"
                  % (F.name, "too few" if not low else "more than %d" % (hi - 1), lo - 1 if lo == hi else "%d or more" % (lo - 1) if hi is None else "%d to %d" % (lo - 1, hi - 1)), p.trace())
            return
    if n:
        R.ok(COUNT, F.name)



def possible(p, x, v):
    """can the number of arguments be v on this path?"""
    l, h, ex = p.range(x)
    if not (l <= v <= h) or v in ex:
        return False
    from p_save import evalat
    for t in p.facts:
        if any(y is x for y in walk(t)) and t is not x:
            r, w = evalat(t, x, v), p.truth(t)
            if r is None or w is None or bool(r) != bool(w):
                return False
    return True


def refused(prog, R, F, rule, lo, hi):
    """a number of arguments the command takes is not called wrong"""
    for p in rule.paths:
        if p.joined:
            continue
        w = [e for e in p.ev if e.name == "conn_write_error" and len(e.args) > 1 and e.args[1].k == "g" and "wrong number" in (prog.string(e.args[1].a[0]) or "")]
        ls = lens(prog, p, mk("p", 1))
        if not w or not ls or any(e.name in ("L", "X", "*indirect*") for e in p.ev):
            continue
        if any(t.k == "cmp" and not isc(t.a[2]) and any(y in ls for y in walk(t)) for t in p.facts):
            R.unknown += 1
            continue
        bad = None
        for v in list(range(lo, (hi or lo + 8) + 1)) + ([] if hi else [100, 129, 1001, 70000]):
            if all(possible(p, x, v) for x in ls):
                bad = v
                break
        if bad is not None:
            R.bad(COUNT, F.name + "|refused", "%s:%s" % (w[0].I.fn.file, w[0].I.line), "%s: refuses %d argument%s as the wrong number" % (F.name, bad - 1, "" if bad == 2 else "s"), p.trace())
            return
    R.ok(COUNT, F.name + " takes what it is to take")
