"""Vocabulary for the meaning of command paths: keys, options, statuses, replies."""
import re
from psim import *
from cmdsim import *
from replies import *
from ir import Broken

SECOND, MILLI = 1000000000, 1000000
(INSERTED, REPLACED, FOUND, NOTFOUND, DELETED, CANCELED, NOMEM, FINISHED) = range(8)
SNAME = ("INSERTED", "REPLACED", "FOUND", "NOTFOUND", "DELETED", "CANCELED", "NOMEM", "FINISHED")
# operands of __sa_store
(S_CACHE, S_KEY, S_KEYLEN, S_VAL, S_VALLEN, S_TIME, S_EXP, S_TTL, S_CAS, S_FLAGS, S_KEEP, S_CASOP, S_NX, S_XX, S_LOW, S_ENT) = range(16)

_codes = {}


def codes(prog):
    if id(prog) not in _codes:
        g = prog.mods[STUBMOD].globals["sa_status_codes"]
        _codes[id(prog)] = {v[1]: i for i, v in enumerate(g["init"][2])}
    return _codes[id(prog)]


def status(prog, e):
    """symbolic status of a result event, or None"""
    if not isc(e.args[0]):
        return None
    return codes(prog).get(e.args[0].a[0])


def base(t):
    """term under casts, boolean wrappers"""
    while True:
        if t.k == "cast":
            t = t.a[1]
        elif t.k == "not":
            t = t.a[0]
        elif t.k == "cmp" and t.a[0] == "eq" and isc(t.a[2]) and t.a[2].a[0] in (0, 1):
            t = t.a[1]
        elif t.k == "bin" and t.a[0] == "and" and isc(t.a[2]) and t.a[2].a[0] in (1, 255, 0xffffffff):
            t = t.a[1]
        else:
            return t


def isnow(t):
    t = strip(t)
    return t.k == "call" and t.a[1] == "sys_now"


def isunix(t):
    t = strip(t)
    return t.k == "call" and t.a[1] == "sys_unixnow"


def iscall(t, *names):
    t = strip(t)
    return t.k == "call" and len(t.a) > 1 and t.a[1] in names


def isglobal(t, name):
    """load of the named global"""
    t = strip(t)
    if t.k != "ld":
        return False
    u = under(t.a[1])
    return u.k == "g" and u.a[0].split(":")[-1] == name


def argno(t, fld):
    """index term of args->bufs[i].<fld>, else None"""
    a = argref(t)
    if a is None or a[1] != fld:
        return None
    return a[0]


def keyidx(e, k=1):
    """index of the argument an engine call is given as key: a term, or None when not recognised, or False when data and length
    come from different arguments"""
    d, n = argno(e.args[k], "data"), argno(e.args[k + 1], "len")
    if d is None or n is None:
        return None
    if d is not n:
        return False
    return d


def parsedarg(t):
    """index of the argument a parsed number comes from (term), with the parser's name"""
    t = strip(t)
    if t.k != "parsed":
        return None
    d, n = argno(t.a[2], "data"), argno(t.a[3], "len")
    if d is None or n is None or d is not n:
        return None
    return d, t.a[1]


def sign(path, t):
    """'+', '0', '-', None"""
    if isc(t):
        n = t.a[0]
        return "+" if n > 0 else "0" if n == 0 else "-"
    lo, hi, ex = path.range(t)
    if lo > 0:
        return "+"
    if lo == hi == 0:
        return "0"
    if hi < 0:
        return "-"
    if 0 in ex:
        return "+" if lo >= 0 else "n"
    return None


def poszero(path, t):
    """True: greater than zero, False: not, None"""
    s = sign(path, t)
    if s in ("+", "n"):
        return True
    if s in ("0", "-"):
        return False
    r = path.truth(mkcmp("sgt", t, ZERO))
    if r is None and path.range(t)[1] <= 0:
        return False
    return r


def fill(tok):
    """text of a Postgres completion tag; unknown parts as {}; returns (text, [terms])"""
    c = tok.a[0]
    if c[0] != "lit":
        return None, []
    s, args = c[1], list(tok.a[1]) if len(tok.a) > 1 else []
    out, terms, i = "", [], 0
    for m in re.finditer(r"%(-?\d*(?:\.\d+|\.\*)?)(ll|l|z|h|hh|j)?([a-zA-Z%])", s):
        out += s[i:m.start()]
        i = m.end()
        if m.group(3) == "%":
            out += "%"
            continue
        if not args:
            return None, []
        a = args.pop(0)
        if m.group(3) == "s":
            x = text(a)
            if x is None:
                out += "{}"
                terms.append(a)
            else:
                out += x
        else:
            a = strip(a)
            if isc(a):
                out += str(a.a[0])
            else:
                out += "{}"
                terms.append(a)
    out += s[i:]
    return out, terms


def lastres(path, prog, seg=None):
    """status of the last engine operation with a status in the events"""
    for e in reversed(seg if seg is not None else path.ev):
        if e.name in ("__sa_loadres", "__sa_storeres", "__sa_deleteres"):
            return status(prog, e)
    return None


def isval(c, what="__sa_eval"):
    return c[0] == "val" and c[1].a[1] == what


def loopof(Rr, pid):
    for h, body in Rr.S.f.loops.items():
        for I in Rr.S.f.blocks[h].insts:
            if I.op != "phi":
                break
            if I.id == pid:
                return h
    return None


class Reply:
    """the tokens of a reply in a protocol-independent reading: kind in
    ok, err, null, int, data, line, close..."""

    def __init__(self, path, proto):
        self.toks = [t for t in ptokens(path, proto)]
        self.proto = proto
        self.top = [t for t in self.toks]
        ks = [t.k for t in self.toks]
        self.err = "err" in ks or (proto == HTTP and any(t.k == "http" and t.a[0] is None for t in self.toks))
        self.unknown = "unknown" in ks

    def first(self, k):
        for t in self.toks:
            if t.k == k:
                return t
        return None

    def all(self, k):
        return [t for t in self.toks if t.k == k]

    def text(self):
        """memcache text outside loops"""
        d, out = 0, []
        for t in self.toks:
            if t.k == "L":
                d += 1
            elif t.k == "X":
                d -= 1
            elif not d:
                out.append(t)
        return memc_line(memc_text(out))

    def code(self):
        t = self.first("http")
        if t is None or t.a[0] is None or not isc(t.a[0]):
            return None
        return t.a[0].a[0]


class Sem:
    """paths of one command name"""

    def __init__(self, prog, R, F, names, Rr, name):
        self.prog, self.R, self.F, self.Rr, self.name = prog, R, F, Rr, name
        self.NAME = name.upper()

    def bad(self, rule, key, path, msg, e=None):
        if path.joined:
            self.R.unknown += 1
            return
        self.R.bad(rule, "%s|%s" % (self.name, key), loc(path, e), "%s: %s" % (self.NAME, msg), path.trace())

    def check(self, cond, rule, key, path, msg, e=None):
        """cond: True, False, or None = not decided"""
        if cond is None:
            self.R.unknown += 1
            return None
        if cond:
            self.R.ok(rule, "%s %s" % (self.NAME, key))
        else:
            self.bad(rule, key, path, msg, e)
        return cond

    def paths(self):
        from p_cmds import feasible_name, protos_of
        ok = protos_of([self.name])
        for p in self.Rr.paths:
            if feasible_name(p, self.name):
                for proto in p.protos():
                    if proto in ok:
                        yield p, proto

    def upaths(self):
        from p_cmds import feasible_name
        return [p for p in self.Rr.paths if feasible_name(p, self.name)]

    def iters(self, hdr=None):
        from p_cmds import feasible_name
        return [p for p in self.Rr.iters if (hdr is None or p.hdr == hdr) and feasible_name(p, self.name)]

    def enters(self, hdr=None):
        from p_cmds import feasible_name
        return [p for p in self.Rr.enters if (hdr is None or p.hdr == hdr) and feasible_name(p, self.name)]

    def ops(self, *names):
        """every engine operation on any path: (path, event, in iteration?)"""
        for p in self.upaths():
            for e in p.calls(*names):
                yield p, e, False
        for p in self.iters():
            for e in p.segment():
                if e.name in names:
                    yield p, e, True

    # -- loops over the arguments
    def overargs(self, rule, first, names, key="keys"):
        """the given operation runs once for each argument from first to the last"""
        S = self.Rr.S
        hdrs = {p.hdr for p, e, it in self.ops(*names) if it}
        if not hdrs:
            return None
        for h in hdrs:
            its = self.iters(h)
            idx = None
            for p in its:
                n = [e for e in p.segment() if e.name in names]
                if len(n) != 1:
                    self.check(False if len(n) == 0 else None, rule, key + "-once", p,
                               "an iteration does not carry out the operation for its argument")
                    continue
                i = keyidx(n[0])
                if i is None or i is False:
                    self.check(None if i is None else False, rule, key + "-pair", p,
                               "data and length of the key come from different arguments", n[0])
                    continue
                if i.k != "phi":
                    self.check(False if isc(i) else None, rule, key + "-index", p,
                               "every iteration operates on the same argument", n[0])
                    continue
                idx = i.a[0]
                nw = p.phis.get(idx)
                if nw is None:
                    continue
                st = nw[1] is mkbin("add", i, C(1))
                self.check(True if st else False if lin(nw[1], i) else None, rule, key + "-step", p,
                           "the loop does not advance by exactly one argument")
            if idx is None:
                continue
            cur = site("phi", idx)
            for p in self.enters(h):
                v = p.phis.get(idx)
                if v is not None:
                    v = strip(v[1])
                    self.check(v.a[0] == first if isc(v) else None, rule, key + "-first", p,
                               "the loop starts with argument %s instead of %d" % (show(v), first))
            for p in self.upaths():
                ls = [i for i, e in enumerate(p.ev) if e.name == "L" and e.x == h]
                if not ls:
                    continue
                # an argument handled after the last turn began (test at the end of the loop)
                late = 1 if any(cur in walk(a) for e in p.ev[ls[-1] + 1:] if e.name not in ("L", "X") for a in e.args if isinstance(a, T)) else 0
                fs = [t for t in p.facts if t.k == "cmp" and cur in walk(t)]
                err = any(any(t.k == "err" for t in ptokens(p, pr)) for pr in p.protos()[:1])
                verdict = None

                def slack(t):
                    # only says that some argument is left at the start of the turn: i + a < len + b
                    if t.a[0] not in ("slt", "ult") or p.truth(t) is not True:
                        return False
                    a, b = delta(t.a[1], cur), lenoff(t.a[2])
                    return a is not None and b is not None and a <= b

                for t in fs:
                    a, b = delta(t.a[1], cur), lenoff(t.a[2])
                    tv = p.truth(t)
                    if t.a[0] == "eq" and a is not None and b is not None and tv is True:
                        verdict = a + late >= b
                    if t.a[0] not in ("slt", "ult"):
                        continue
                    if a is not None and b is not None:
                        if tv is False:
                            # i + a >= len + b
                            verdict = (b - a) + late >= 0
                            break
                        if tv is True and verdict is None and b - a + late <= 0:
                            verdict = False
                    else:
                        # len + b <= i + a, the other way round
                        a, b = delta(t.a[2], cur), lenoff(t.a[1])
                        if a is not None and b is not None and tv is True:
                            verdict = b - a + 1 + late >= 0
                            break
                if verdict is None and fs and len(fs) == len([t for t in p.facts if cur in walk(t)]) and all(slack(t) for t in fs):
                    verdict = False
                if verdict is False and err:
                    continue
                self.check(verdict, rule, key + "-all", p, "the loop can end before the last argument was handled")

    def accum(self, rule, t, good, path, key):
        """t counts the iterations whose operation ended in status good"""
        t = strip(t)
        if isc(t):
            self.check(False, rule, key, path, "the reported count is the constant %s" % show(t))
            return
        if t.k != "phi":
            self.R.unknown += 1
            return
        h = loopof(self.Rr, t.a[0])
        if h is None:
            self.R.unknown += 1
            return
        for p in self.enters(h):
            v = p.phis.get(t.a[0])
            if v:
                v = strip(v[1])
                self.check(v is ZERO if isc(v) else None, rule, key + "-start", p, "the count does not start from zero")
        for p in self.iters(h):
            v = p.phis.get(t.a[0])
            s = lastres(p, self.prog, p.segment())
            if v is None or s is None:
                continue
            d = delta(v[1], t)
            want = 1 if s in good else 0
            if d is None and isc(strip(v[1])):
                self.check(False, rule, "%s-%s" % (key, SNAME[s]), p, "the count is set to %s for a key whose outcome is %s" % (show(v[1]), SNAME[s]))
                continue
            self.check(None if d is None else d == want, rule, "%s-%s" % (key, SNAME[s]), p,
                       "the count changes by %s for a key whose outcome is %s" % (d, SNAME[s]))


def loc(path, e=None):
    I = e.I if e is not None and e.I is not None else path.I
    return "%s:%s" % (I.fn.file, I.line)


def lin(t, x):
    """t is x plus a constant"""
    return delta(t, x) is not None


def delta(t, x):
    t = strip(t)
    if t is x:
        return 0
    if t.k == "bin" and t.a[0] == "add" and strip(t.a[1]) is x and isc(t.a[2]):
        return t.a[2].a[0]
    return None


def islen(t):
    t = strip(t)
    if t.k != "ld":
        return False
    s = ast(t.a[1])
    return s is not None and s[0] == "struct.args" and psim_member(s) == "len"


def lenoff(t):
    """args->len plus a constant"""
    t = strip(t)
    if islen(t):
        return 0
    if t.k == "bin" and t.a[0] == "add" and isc(t.a[2]) and islen(t.a[1]):
        return t.a[2].a[0]
    return None


def psim_member(s):
    import psim
    return psim.PROG[0].member(*s)


PLAIN = ("__sa_eval", "__sa_evallen", "__sa_eexpires", "__sa_eflags", "__sa_ecas", "__sa_count", "__sa_size", "__sa_total", "sys_now", "sys_unixnow",
         "snprintf", "u64toa", "i64toa")


def plain(t):
    """a term whose meaning is known: arithmetic over constants, arguments, clocks and what the engine handed out"""
    t = strip(t)
    if isc(t) or t.k == "parsed" or t.k == "argeq":
        return True
    if t.k == "call":
        return t.a[1] in PLAIN
    if t.k == "ld":
        return argref(t) is not None or islen(t)
    if t.k in ("bin", "cmp"):
        return all(plain(x) for x in t.a[1:] if isinstance(x, T))
    if t.k == "not":
        return plain(t.a[0])
    if t.k == "pure" and t.a[0] in ("addclamp", "mulclamp"):
        return all(plain(x) for x in t.a[1])
    return False
