"""C20: numbers in requests are read exactly."""
import re
from semlib import *
from psim import Rule, Sim, under, akey, nbytes
from p_sem import ASSUME
from ir import flatten

EXPLAIN = {}
STRTO = {"strtoll": True, "strtol": True, "strtoimax": True, "strtoull": False, "strtoul": False, "strtoumax": False}
RULE = "a number is accepted only when the whole text is one"
USE = "a number that could not be read is not used"


class NumRule(Rule):
    keepmem = True

    def __init__(self):
        self.exits = []

    def tracked(self, t):
        return True

    def step(self, S, st, I):
        if I.op == "store":
            v, A = S.val(st, I.a[0]), S.val(st, I.a[1])
            if strip(v) is ZERO:
                st.auto = st.auto + (("zero", A),)
        elif I.op == "call":
            n = S.callee_name(I) or ""
            if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove", "strncpy"):
                a = [S.val(st, x) for x in I.a[:3]]
                st.auto = st.auto + (("copy", a[0], a[1], a[2]),)
            elif n in STRTO:
                clear = any(k[0] != "Z" and k[0].k == "call" and k[0].a[1] == "__errno_location" and strip(e[0]) is ZERO
                            for k, e in st.mem.items() if isinstance(k[0], T))
                a = [S.val(st, x) for x in I.a[:3]]
                st.auto = st.auto + (("strto", I.id, n, a[0], a[1], a[2], clear),)

    def exit(self, S, st, I, ret):
        self.exits.append((st.copy(), ret))


def parser(prog, R, F, signed):
    R.analysed(F)
    S = Sim(prog, flatten(prog, F, lambda G, I: prog.isnew(G)), NumRule())
    S.run()
    data, ln, out = mk("p", 0), mk("p", 1), mk("p", 2)
    where = F.file + ":" + str(F.line)

    def check(c, key, msg):
        if c is None:
            R.unknown += 1
        else:
            R.check(c, RULE, F.name + "|" + key, where, F.name + " " + msg)

    for st, ret in S.rule.exits:
        ret = strip(ret)
        if isc(ret) and ret.a[0] == 0:
            continue
        calls = [e for e in st.auto if e[0] == "strto"]
        lo, hi, ex = S.get(st, ln)
        if not calls:
            R.unknown += 1
            continue
        _, sid, fn, buf, endp, base_, clear = calls[-1]
        check(lo >= 1 or 0 in ex, "empty", "takes an empty text for the number 0")
        check(STRTO[fn] == signed, "kind", "reads with %s" % fn)
        b = strip(base_)
        check(b.a[0] == 10 if isc(b) else None, "base", "reads in base %s" % show(b))
        # the text is copied and terminated
        root = under(buf)
        size = allocsize(S, root)
        copies = [e for e in st.auto if e[0] == "copy" and under(e[1]) is root]
        if copies and size is not None:
            c = copies[-1]
            check(strip(c[3]) is ln if strip(c[3]) is ln or plainlen(c[3], ln) else None, "copy", "looks at %s bytes of the text" % show(c[3]))
            check(hi <= size - 1, "room", "copies up to %d bytes and a terminator into %d" % (hi, size))
            zs = [e[1] for e in st.auto if e[0] == "zero" and under(e[1]) is root]
            t = [z for z in zs if idxof(z) is ln or strip(idxof(z) or ZERO) is ln]
            check(True if t else False if not zs else None, "nul", "does not terminate the copy of the text")
            # nothing is left after the number
            eq = []
            for f in list(st.facts) + [ret]:
                for x in walk(f):
                    if x.k == "cmp" and x.a[0] in ("eq", "ne"):
                        u = [x.a[1], x.a[2]]
                        if any(under(y) is root for y in u) and any(isend(y, endp) for y in u):
                            eq.append((x, f))
            good = False
            for x, f in eq:
                at = [y for y in (x.a[1], x.a[2]) if under(y) is root][0]
                if not (idxof(at) is not None and strip(idxof(at)) is ln):
                    continue
                if f is ret or S.truth(st, x) is (x.a[0] == "eq"):
                    good = True
            if not good:
                # the byte at the end is the terminator and as many bytes were read
                other = any(isend(y, endp) for f in list(st.facts) + [ret] for y in walk(f))
                check(None if other and not eq else False, "rest", "accepts text that goes on after the number")
            else:
                check(True, "rest", "")
        # range
        e0 = None
        for f in st.facts:
            if any(x.k == "call" and x.a[1] == "__errno_location" for x in walk(f)):
                a, b2, ex2 = S.get(st, f)
                if f.k == "ld":
                    e0 = e0 or (a == b2 == 0) or 34 in ex2 or not a <= 34 <= b2
        if e0 is None and not any(x.k == "call" and x.a[1] == "__errno_location" for x in walk(ret)):
            anyerr = any(x.k == "call" and x.a[1] == "__errno_location" for f in st.facts for x in walk(f))
            lim = any(isc(x) and x.a[0] in ((1 << 63) - 1, -(1 << 63), -1) for f in st.facts for x in walk(f))
            check(None if anyerr or lim else False, "range", "accepts a number that does not fit")
        elif e0 is not None:
            check(e0, "range", "accepts a number that does not fit")
        if e0 is not None:
            check(clear, "errno", "does not clear errno before it reads the number: an earlier error makes it refuse a good number")
        # the first byte
        first = [f for f in st.facts if anyfirst(f, data, root)]
        dash = None
        for f in first:
            if f.k == "ld":
                l, h, ex2 = S.get(st, f)
                if 45 in ex2 or not l <= 45 <= h:
                    dash = True
        if not signed:
            check(True if dash else False if not [f for f in first if f.k not in ("bin", "pure")] else None, "minus",
                  "reads a negative number as a huge unsigned one")
        check(True if [f for f in first if f.k in ("bin", "call", "pure", "cmp")] or [f for f in first if f.k == "ld" and 32 in S.get(st, f)[2]]
              else False if not [f for f in first if not dash or f.k != "ld"] else None, "space", "skips over leading white space")
        # what is handed out
        v = [e[0] for k, e in st.mem.items() if k[0] is out and k[1] == 0]
        if v:
            x = strip(v[0])
            check(True if x.k == "call" and x.a[0] == sid else False if isc(x) else None, "out", "hands out %s instead of the number" % show(x))


def anyfirst(f, data, root):
    for x in walk(f):
        if x.k == "ld" and (x.a[1] is data or x.a[1] is root or under(x.a[1]) is root and akey(x.a[1]) == (root, 0)):
            return True
    return False


def plainlen(t, ln):
    t = strip(t)
    return isc(t) or t.k == "bin" and all(isc(x) or strip(x) is ln for x in t.a[1:] if isinstance(x, T))


def idxof(A):
    """index of an address base[index], None when it is not of that form"""
    if A.k == "idx" and len(A.a[1]) == 1 and not A.a[2]:
        v, sc = A.a[1][0]
        return v if sc == 1 else None
    return None


def isend(t, endp):
    return t.k == "ld" and t.a[1] is endp


def allocsize(S, root):
    if root.k != "al":
        return None
    for I in S.f.insts():
        if I.op == "alloca" and I.id == root.a[0]:
            m = re.match(r"\[(\d+) x i8\]$", I.d.get("at") or "")
            return int(m.group(1)) if m else None
    return None


def C20(prog, R, tier):
    for nm, signed in (("parse_i64", True), ("parse_u64", False)):
        for M in prog.mods.values():
            if nm in M.funcs:
                parser(prog, R, M.funcs[nm], signed)
    names = {"parse_i64", "parse_u64", "argi64", "argu64"}
    for M in prog.mods.values():
        for F in M.funcs.values():
            used = None
            for I in F.insts():
                if I.op == "call" and I.callee and I.callee[0] == "f" and I.callee[1] in names:
                    if used is None:
                        used = usedvals(F)
                    R.analysed(F)
                    R.check(I.id in used, USE, "%s|%s" % (F.name, I.callee[1]), I.loc,
                            "%s does not look at whether %s could read the number" % (F.name, I.callee[1]))


def usedvals(F):
    out = set()
    for I in F.insts():
        for a in I.a:
            if isinstance(a, tuple) and a and a[0] == "v":
                out.add(a[1])
            elif isinstance(a, (list, tuple)) and a and isinstance(a[0], (list, tuple)) and a[0][0] == "v":
                out.add(a[0][1])
    return out


EXPLAIN["C20"] = ("Each path of the number parsers that can report success is checked for the conditions that make the text a number: not empty, no "
                  "leading white space or (unsigned) sign, copied and terminated within the buffer, read in base 10, in range, nothing left over.")
