"""C36: growing buffers and the arguments of a request."""
import ir
from gensim import *
from semlib import isnow, iscall, isglobal, sign, under
from p_sem import ASSUME
from p_save import evs, call1, idx, truthv, mentions, loops_of
from p_frame import res, zero, nonzero
from p_net import implied
from outsim import ladd, lneg
from p_out import getf, closed
from psim import akey

BUF = "struct.buf"
ARGS = "struct.args"
BUFR = "a growing buffer holds all of its bytes and frees only its own"
ARGR = "the arguments of a request keep their bytes and owner"
EXPLAIN = {
    "C36": "every path through the functions of buf.c and args.c: the room before each write, what the memory is replaced by, which slot an argument is put into and with which bytes, "
           "and what is freed, as linear forms over the length and capacity",
}
FREE = ("xfree", "free")
REALLOC = ("xrealloc", "realloc")
ALLOC = ("xmalloc", "malloc")
P0, P1, P2, P3 = (mk("p", i) for i in range(4))


def C36(prog, R, tier):
    ensure(prog, R)
    append(prog, R)
    clear(prog, R)
    varints(prog, R)
    argsappend(prog, R)
    argsclear(prog, R)
    removefirst(prog, R)
    argseq(prog, R)


def lin(prog, t, gen0=True):
    """linear form of a size over names: len, cap, parameters; None if something else is in it"""
    l = linz(t)
    if l is None:
        return None
    d = {}
    for x, m in l[1].items():
        f = ldfield(x, prog)
        if f and f[0] in (BUF, ARGS):
            k = f
        elif x.k in ("p",):
            k = x
        else:
            return None
        d[k] = d.get(k, 0) + m
    return l[0], {k: v for k, v in d.items() if v}


def fld(prog, t, st, m):
    return ldfield(t, prog) == (st, m)


def bstores(p, prog, st, m):
    return [e for e in p.ev if e.name == "=" and fieldof(prog, e.args[0]) == (st, m)]


def enough(prog, p, m, amount):
    """the path knows that len+amount fits into m: True, False (known not to be asked), None"""
    a = linz(amount)
    r = None
    for pr, x, y, v, t in cmpfacts(p):
        if pr not in ("ult", "slt") or linz(x) is None or linz(y) is None:
            continue
        d = ladd(linz(x), lneg(linz(y)))      # v: d <= -1; not v: d >= 0
        ln = [k for k in d[1] if fld(prog, k, BUF, "len")]
        if isinstance(m, tuple):
            cap = [k for k in d[1] if fld(prog, k, *m)]
            if len(cap) != 1:
                continue
            ml = (0, {cap[0]: 1})
        else:
            ml = linz(m)
        if len(ln) != 1 or ml is None:
            continue
        rest = ladd(ladd(ml, (0, {ln[0]: -1})), lneg(a))   # to be >= 0
        if not v and d[1] == rest[1]:
            r = r or d[0] - rest[0] <= 0
        elif v and {k: -c for k, c in d[1].items()} == rest[1]:
            r = r or d[0] + rest[0] >= -1
    return r


def ensure(prog, R):
    F = getf(prog, "buf_ensure", "buf.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, BUFR)
    for p in J_.paths:
        ra = [e for e in p.ev if e.name in REALLOC]
        al = [e for e in p.ev if e.name in ALLOC]
        sc = bstores(p, prog, BUF, "cap")
        sd = bstores(p, prog, BUF, "data")
        if not ra and not al:
            if any(e.name not in ("=", "L", "X") for e in p.ev):
                continue
            J_.check(not sc, "cap", p, "says that there is more room than there is", sc[-1] if sc else None)
            a = enough(prog, p, (BUF, "cap"), P1)
            J_.check(a if a is not None else False if onlyfields(prog, p) else None, "enough", p, "does not make room for all of the bytes")
            continue
        if len(ra) != 1 or al:
            J_.check(None, "memory", p, "")
            continue
        e = ra[0]
        old = strip(e.args[0])
        J_.check(True if isc(old) and old.a[0] == 0 or fld(prog, old, BUF, "data") else None, "old", p, "", e)
        if fld(prog, old, BUF, "data"):
            # memory that belongs to somebody else must not be given to realloc
            r = [p.range(t) for t in p.facts if fld(prog, t, BUF, "cap")]
            J_.check(True if r and nonzero(r[-1]) else False if not r or zero(r[-1]) else None, "borrowed", p, "resizes memory that belongs to somebody else", e)
        elif isc(old):
            r = [p.range(t) for t in p.facts if fld(prog, t, BUF, "cap")]
            J_.check(True if r and zero(r[-1]) else False if r and nonzero(r[-1]) else None, "lost", p, "loses what is in the buffer", e)
        J_.check(True if sc else False, "cap", p, "does not note how much room there is", e)
        J_.check(True if sd else False, "data", p, "does not keep the new memory", e)
        for s in sc[-1:]:
            J_.check(True if same(s.args[1], e.args[1]) else False if lsub(s.args[1], e.args[1]) and not lsub(s.args[1], e.args[1])[1] else None, "cap", p, "notes another amount of room than there is", s)
        for s in sd[-1:]:
            J_.check(True if e.res is not None and strip(s.args[1]) is strip(e.res) else None, "data", p, "", s)
        n = strip(e.args[1])
        a = enough(prog, p, n, P1)
        if a is None and n.k == "phi":
            # some bound on the new size was tested, without what is in the buffer
            ts = [lsub(x, y) for pr, x, y, v, t in cmpfacts(p) if pr in ("ult", "slt") and (mentions(x, lambda q: q is n) or mentions(y, lambda q: q is n))]
            if ts and all(d and not any(fld(prog, k, BUF, "len") for k in d[1]) for d in ts):
                a = False
        elif a is None:
            l = lin(prog, n)
            if l and (BUF, "cap") in l[1] and P1 not in l[1] and onlyfields(prog, p):
                a = False
            if l and l[1] == {(BUF, "len"): 1, P1: 1}:
                a = l[0] >= 0
        J_.check(a, "room", p, "does not make room for all of the bytes", e)


def onlyfields(prog, p):
    """everything the path knows is about the fields and the parameters"""
    for t in p.facts:
        for x in walk(t):
            if x.k in ("phi", "ssa", "call", "vread"):
                return False
    return True


def append(prog, R):
    F = getf(prog, "buf_append", "buf.c")
    if F is not None:
        J_ = J(prog, R, F, BUFR)
        for p in J_.paths:
            cp = [e for e in p.ev if e.name in ("memcpy", "memmove")]
            en = evs(p, "buf_ensure")
            sl = bstores(p, prog, BUF, "len")
            oth = [e for e in p.ev if e.name not in ("=", "memcpy", "memmove", "buf_ensure")]
            if oth:
                continue
            z = [p.range(P2)]
            if not cp:
                J_.check(True if zero(z[0]) else False if all(t is P2 for t in p.facts) else None, "bytes", p, "leaves bytes out")
                J_.check(not sl or None, "len", p, "", sl[0] if sl else None)
                continue
            for e in cp:
                l = lsub(e.args[0], mk("c", 0)) if False else linz(e.args[0])
                ok = None
                if l:
                    d = [x for x in l[1] if fld(prog, x, BUF, "data")]
                    ln = [x for x in l[1] if fld(prog, x, BUF, "len")]
                    if len(d) == 1 and len(l[1]) <= 2 and l[1][d[0]] == 1 and all(x in d + ln for x in l[1]):
                        ok = l[0] == 0 and len(ln) == 1 and l[1][ln[0]] == 1
                        g = [x for x in en]
                        if g and idx(p.ev, g[0]) < idx(p.ev, e):
                            # the data pointer must be read after it may have moved
                            J_.check(False if d[0].a[0] == 0 and stale(p, d[0], g[0]) else True, "moved", p, "writes to the memory from before it was replaced", e)
                J_.check(ok, "end", p, "does not write behind what is in the buffer", e)
                J_.check(True if same(e.args[1], P1) else False if closed(e.args[1]) else None, "bytes", p, "adds other bytes", e)
                J_.check(True if same(e.args[2], P2) else False if lin(prog, e.args[2]) else None, "bytes", p, "adds another number of bytes", e)
                b = [x for x in en if idx(p.ev, x) < idx(p.ev, e)]
                a = enough(prog, p, (BUF, "cap"), P2)
                J_.check(True if b or a else False if a is None and onlyfields(prog, p) or en else None, "room", p, "writes without having made room", e)
                for x in b:
                    l = lsub(x.args[1], P2)
                    J_.check(l[0] >= 0 if l and not l[1] else None, "room", p, "makes room for fewer bytes than it writes", x)
            J_.check(True if sl else False, "len", p, "the bytes that were added do not count", cp[-1])
            for s in sl[-1:]:
                l = lin(prog, s.args[1])
                J_.check(l == (0, {(BUF, "len"): 1, P2: 1}) if l else None, "len", p, "counts another number of bytes than it added", s)
    F = getf(prog, "buf_append_byte", "buf.c")
    if F is not None:
        J_ = J(prog, R, F, BUFR)
        for p in J_.paths:
            w = [e for e in p.ev if e.name == "=" and fieldof(prog, e.args[0]) is None or e.name == "=" and fieldof(prog, e.args[0])[0] != BUF]
            sl = bstores(p, prog, BUF, "len")
            ap = evs(p, "buf_append")
            for e in w:
                l = linz(e.args[0])
                d = [x for x in l[1] if fld(prog, x, BUF, "data")] if l else []
                ln = [x for x in l[1] if fld(prog, x, BUF, "len")] if l else []
                if len(d) != 1 or len(ln) != 1:
                    continue
                J_.check(l[0] == 0, "end", p, "does not write behind what is in the buffer", e)
                J_.check(True if same(e.args[1], P1) else None, "byte", p, "", e)
                en = [x for x in evs(p, "buf_ensure") if idx(p.ev, x) < idx(p.ev, e)]
                a = True if en else None
                for pr, x, y, v, t in cmpfacts(p):
                    dd = lsub(x, y)
                    if pr in ("ult", "slt") and dd and len(dd[1]) == 2 and all(fld(prog, k, BUF, "len") or fld(prog, k, BUF, "cap") for k in dd[1]):
                        k = [k for k in dd[1] if fld(prog, k, BUF, "len")][0]
                        if dd[1][k] == 1 and v:         # len + d0 < cap
                            a = dd[0] >= 0
                        elif dd[1][k] == -1 and not v:  # cap + d0 >= len
                            a = dd[0] <= -1
                    elif pr == "eq" and dd and len(dd[1]) == 2 and not v and dd[0] == 0:
                        a = True if a is None else a
                J_.check(a if a is not None else False if onlyfields(prog, p) else None, "room", p, "writes past the end of the buffer", e)
                J_.check(True if sl else False, "len", p, "the byte does not count", e)
            for s in sl[-1:]:
                l = lin(prog, s.args[1])
                J_.check(l == (1, {(BUF, "len"): 1}) if l else None, "len", p, "counts another number of bytes than it added", s)
            for e in ap:
                J_.check(same(e.args[2], mk("c", 1)) if isc(strip(e.args[2])) else None, "byte", p, "adds %s bytes for one" % show(e.args[2]), e)
            J_.check(bool(w or ap) if all(e.name in ("=", "buf_append", "buf_ensure") for e in p.ev) else None, "byte", p, "leaves the byte out")


def stale(p, ld, e):
    return False


def clear(prog, R):
    F = getf(prog, "buf_clear", "buf.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, BUFR, fills=True)
    for p in J_.paths:
        fr = [e for e in p.ev if e.name in FREE]
        r = [p.range(t) for t in p.facts if fld(prog, t, BUF, "cap")]
        for e in fr:
            J_.check(True if r and nonzero(r[-1]) else False if not r and all(ldfield(t, prog) and ldfield(t, prog)[0] == BUF for t in p.facts) or r and zero(r[-1]) else None, "borrowed", p, "frees memory that belongs to somebody else", e)
            J_.check(True if fld(prog, e.args[0], BUF, "data") else None, "data", p, "", e)
        J_.check(len(fr) <= 1, "twice", p, "frees its memory twice", fr[-1] if fr else None)
        if not fr:
            J_.check(True if r and zero(r[-1]) else False if (not r or nonzero(r[-1])) and onlycap(prog, p) else None, "leak", p, "does not free its memory")
        gone(prog, J_, p, P0, fr)


def onlycap(prog, p):
    return all(fld(prog, t, BUF, "cap") for t in p.facts) and all(e.name in ("=", "memset") for e in p.ev)


def gone(prog, J_, p, obj, fr):
    """the buffer is empty and owns nothing"""
    for m, o in (("data", 0), ("len", 8), ("cap", 16)):
        st = bstores(p, prog, BUF, m)
        ms = [e for e in p.ev if e.name == "memset" and isc(strip(e.args[2])) and strip(e.args[2]).a[0] > prog.field_off(BUF, m) and isc(strip(e.args[1])) and strip(e.args[1]).a[0] == 0]
        ok = bool(ms) or bool(st) and isc(strip(st[-1].args[1])) and strip(st[-1].args[1]).a[0] == 0
        if m == "data" and not ok and any(True for e in p.ev):
            ok = None if not fr or st else None
        J_.check(ok if ok or all(e.name in ("=", "memset") + FREE for e in p.ev) else None, "empty", p, "a buffer that was given up keeps its %s" % m)
        for e in ms:
            for f in fr:
                J_.check(idx(p.ev, f) < idx(p.ev, e) or None, "order", p, "", e)


def varints(prog, R):
    for n, w in (("buf_append_uvarint", "varint_write_u64"), ("buf_append_varint", "varint_write_i64")):
        F = getf(prog, n, "buf.c")
        if F is None:
            continue
        J_ = J(prog, R, F, BUFR, keep=(w,))
        for p in J_.paths:
            en = evs(p, "buf_ensure")
            ws = evs(p, w)
            sl = bstores(p, prog, BUF, "len")
            for e in ws:
                l = linz(e.args[0])
                d = [x for x in l[1] if fld(prog, x, BUF, "data")] if l else []
                if len(d) != 1:
                    continue
                ln = [x for x in l[1] if fld(prog, x, BUF, "len")]
                J_.check(l[0] == 0 and len(ln) == 1 and len(l[1]) == 2 if len(l[1]) <= 2 else None, "end", p, "does not write behind what is in the buffer", e)
                b = [x for x in en if idx(p.ev, x) < idx(p.ev, e)]
                J_.check(True if b else False if not p.facts else None, "room", p, "writes without having made room", e)
                for x in b[-1:]:
                    c = strip(x.args[1])
                    J_.check(c.a[0] >= 10 if isc(c) else None, "room", p, "makes room for fewer bytes than a number may have", x)
                J_.check(True if same(e.args[1], P1) else None, "number", p, "", e)
                J_.check(True if sl else False, "len", p, "the number does not count", e)
                for s in sl[-1:]:
                    l = linz(s.args[1])
                    rs = [x for x in l[1] if mentions(x, lambda q: q.k == "call" and q.a[1] == w)] if l else []
                    lens = [x for x in l[1] if fld(prog, x, BUF, "len")] if l else []
                    if l and len(l[1]) == len(rs) + len(lens):
                        J_.check(l[0] == 0 and len(rs) == 1 == len(lens), "len", p, "counts another number of bytes than it added", s)


def slot(prog, A):
    """(offset linear form from args->bufs or the new memory) of an address"""
    l = linz(A)
    if l is None:
        return None
    b = [x for x in l[1] if l[1][x] == 1 and (fld(prog, x, ARGS, "bufs") or x.k == "call" and x.a[1] in REALLOC or x.k == "new")]
    if len(b) != 1:
        return None
    d = {}
    for k, v in l[1].items():
        if k is not b[0]:
            f = ldfield(k, prog)
            d[f if f else k] = d.get(f if f else k, 0) + v
    return b[0], (l[0], d)


def argsappend(prog, R):
    F = getf(prog, "args_append", "args.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, ARGR, fills=True)
    sz = prog.structs[BUF]["s"] // 8 if "s" in prog.structs[BUF] else 24
    end = (0, {(ARGS, "len"): sz})
    for p in J_.paths:
        zc = p.range(P3)
        ra = [e for e in p.ev if e.name in REALLOC]
        # is there room for one more
        full = None
        for pr, x, y, v, t in cmpfacts(p):
            d = lsub(x, y)
            if d and len(d[1]) == 2 and d[0] == 0 and {ldfield(k, prog) for k in d[1]} == {(ARGS, "len"), (ARGS, "cap")}:
                k = [k for k in d[1] if fld(prog, k, ARGS, "len")][0]
                if pr == "eq":
                    full = v
                elif pr in ("ult", "slt"):
                    # len < cap, or cap < len
                    full = not v if d[1][k] == 1 else (None if v else full)
        sc = bstores(p, prog, ARGS, "cap")
        if ra:
            e = ra[0]
            J_.check(True if full else None, "grow", p, "", e)
            J_.check(True if fld(prog, e.args[0], ARGS, "bufs") else None, "grow", p, "", e)
            J_.check(True if sc else False, "grow", p, "does not note how many arguments there is room for", e)
            for s in sc[-1:]:
                l = linz(e.args[1])
                c = linz(s.args[1])
                ok = None
                if l and c:
                    ok = (c[0] * sz, {k: v * sz for k, v in c[1].items()}) == l or mulsz(e.args[1], s.args[1], sz)
                J_.check(ok if ok else False if l and c and isc(strip(e.args[1])) and isc(strip(s.args[1])) else None, "grow", p, "notes room for more arguments than there is memory for", s)
                v = strip(s.args[1])
                if isc(v):
                    J_.check(v.a[0] >= 1, "grow", p, "does not make room for an argument", s)
            J_.check(True if bstores(p, prog, ARGS, "bufs") else False, "grow", p, "does not keep the new memory", e)
            ms = [x for x in p.ev if x.name == "memset" and idx(p.ev, x) > idx(p.ev, e)]
            J_.check(True if ms else (False if uses_old(prog, p, e) else None), "fresh", p, "takes what happens to be in new memory for an argument", e)
            for x in ms:
                s = slot(prog, x.args[0])
                if s and s[0] is not None:
                    J_.check(s[1] == end if s[1][1].keys() <= {(ARGS, "len")} else None, "fresh", p, "does not clear the new memory from its start", x)
        else:
            J_.check(False if full is True else True if full is False else (False if not [t for t in p.facts if mentions(t, lambda q: fld(prog, q, ARGS, "cap"))] and onlyfields(prog, p) else None), "room", p, "writes an argument where there is no room")
        # the slot
        ap = evs(p, "buf_append")
        bl = [e for e in bstores(p, prog, BUF, "len")]
        bd = [e for e in bstores(p, prog, BUF, "data")]
        bc = [e for e in bstores(p, prog, BUF, "cap")]
        cl = evs(p, "buf_clear")
        for e in ap + bl + bd + bc + cl:
            s = slot(prog, e.args[0])
            if s is None:
                continue
            o = {"len": prog.field_off(BUF, "len"), "cap": prog.field_off(BUF, "cap")}.get(fieldof(prog, e.args[0])[1] if e.name == "=" and fieldof(prog, e.args[0]) else "", 0)
            J_.check((s[1][0] - o, s[1][1]) == end if s[1][1].keys() <= {(ARGS, "len")} else None, "slot", p, "puts an argument at another place than behind the others", e)
            if ra:
                J_.check(False if fld(prog, s[0], ARGS, "bufs") and s[0].a[0] == 0 else True, "moved", p, "uses the memory of the arguments from before it was replaced", e)
        if ap:
            # copied
            for e in ap:
                J_.check(True if same(e.args[1], P1) else False if closed(e.args[1]) else None, "bytes", p, "keeps other bytes", e)
                J_.check(True if same(e.args[2], P2) else False if lin(prog, e.args[2]) else None, "bytes", p, "keeps another number of bytes", e)
                before = [x for x in bl if idx(p.ev, x) < idx(p.ev, e)]
                J_.check(True if before and isz(before[-1].args[1]) or [x for x in cl if idx(p.ev, x) < idx(p.ev, e)] else False if not before and not ra else None, "left", p,
                         "adds an argument to what was left of an earlier one", e)
            J_.check(True if zero(zc) else None, "copy", p, "", ap[-1])
        elif bd:
            for e in bd[-1:]:
                J_.check(True if same(e.args[1], P1) else None, "bytes", p, "", e)
                if same(e.args[1], P1):
                    J_.check(False if zero(zc) else True if nonzero(zc) else False, "copy", p, "keeps a pointer to bytes it was asked to copy", e)
                    own = [x for x in cl if idx(p.ev, x) < idx(p.ev, e)]
                    cz = [x for x in bc if isz(x.args[1])]
                    for x in bc[-1:]:
                        J_.check(True if isz(x.args[1]) else False if isc(strip(x.args[1])) or same(x.args[1], P2) else None, "owner", p, "takes the bytes of the request for its own, and frees them", x)
                    J_.check(True if own or cz else False if not ra or not [x for x in p.ev if x.name == "memset"] else None, "owner", p, "takes the bytes of the request for its own, and frees them", e)
            J_.check(True if bl else False, "bytes", p, "does not know how long an argument is", bd[-1])
            for e in bl[-1:]:
                J_.check(True if same(e.args[1], P2) else False if lin(prog, e.args[1]) else None, "bytes", p, "keeps another number of bytes", e)
        else:
            J_.check(False if all(e.name in ("=", "memset", "buf_clear") + REALLOC for e in p.ev) else None, "bytes", p, "leaves an argument out")
        sl = bstores(p, prog, ARGS, "len")
        J_.check(True if sl else False, "count", p, "an argument does not count")
        for e in sl[-1:]:
            l = lin(prog, e.args[1])
            J_.check(l == (1, {(ARGS, "len"): 1}) if l else None, "count", p, "counts an argument %s" % show(e.args[1]), e)
        # args.zerocopy only when nothing has to be freed
        sz_ = bstores(p, prog, ARGS, "zerocopy")
        lz = [p.range(t) for t in p.facts if fld(prog, t, ARGS, "len")]
        first = zero(lz[-1]) if lz else None
        for e in sz_[-1:]:
            v = strip(e.args[1])
            if isc(v):
                val = bool(v.a[0] & 1)
            else:
                t = truthv(p, v)
                val = t if t is not None else (not zero(p.range(v)) if zero(p.range(v)) or nonzero(p.range(v)) else None)
            if ap:
                J_.check(False if val is True else True if val is False else None, "owned", p, "the copy of an argument is never freed", e)
            elif val is True and first is not True:
                old = [p.range(t) for t in p.facts if fld(prog, t, ARGS, "zerocopy")]
                J_.check(True if old and nonzero(old[-1]) else False if first is False and not old or old and zero(old[-1]) else None, "owned", p, "the copies of earlier arguments are never freed", e)
        if ap and not sz_:
            old = [p.range(t) for t in p.facts if fld(prog, t, ARGS, "zerocopy")]
            J_.check(True if old and zero(old[-1]) else False if onlyfields(prog, p) else None, "owned", p, "the copy of an argument is never freed", ap[-1])


def isz(v):
    v = strip(v)
    return isc(v) and v.a[0] == 0


def mulsz(a, b, n):
    a = strip(a)
    return a.k == "bin" and a.a[0] == "mul" and (same(a.a[1], b) and isc(a.a[2]) and a.a[2].a[0] == n or same(a.a[2], b) and isc(a.a[1]) and a.a[1].a[0] == n) or \
        (linz(a) is not None and linz(b) is not None and linz(a) == (linz(b)[0] * n, {k: v * n for k, v in linz(b)[1].items()}))


def uses_old(prog, p, e):
    """the slot is read (cleared, appended to) before it is filled"""
    for x in p.ev[idx(p.ev, e):]:
        if x.name in ("buf_clear", "buf_append"):
            return True
    return False


def argsclear(prog, R):
    F = getf(prog, "args_clear", "args.c")
    if F is not None:
        J_ = J(prog, R, F, ARGR, fills=True)
        for p in J_.paths:
            sl = bstores(p, prog, ARGS, "len")
            J_.check(True if sl and isz(sl[-1].args[1]) else False if not sl or isc(strip(sl[-1].args[1])) else None, "none", p, "arguments are left", sl[-1] if sl else None)
            z = [p.range(t) for t in p.facts if fld(prog, t, ARGS, "zerocopy")]
            lp = loops_of(p)
            if not lp and all(e.name == "=" for e in p.ev):
                ln = [p.range(t) for t in p.facts if fld(prog, t, ARGS, "len")]
                J_.check(True if z and nonzero(z[-1]) or ln and zero(ln[-1]) else False, "free", p, "the copies of arguments are never freed")
        each(prog, J_, "free", "buf_clear")
        ends = [p for p in J_.iters]
        if not ends and not J_.enters:
            J_.check(False if all(e.name in ("=",) for p in J_.paths for e in p.ev) else None, "free", J_.paths[0], "the copies of arguments are never freed")
    F = getf(prog, "args_free", "args.c")
    if F is not None:
        J_ = J(prog, R, F, ARGR)
        for p in J_.paths:
            fr = [e for e in p.ev if e.name in FREE]
            cl = evs(p, "args_clear")
            J_.check(len(fr) == 1 if len(fr) > 1 or all(e.name in FREE + ("args_clear", "=") for e in p.ev) else None, "memory", p, "the memory of the arguments is freed %d times" % len(fr), fr[-1] if fr else None)
            J_.check(True if cl else False if all(e.name in FREE + ("=",) for e in p.ev) else None, "free", p, "the copies of arguments are never freed")
            for e in cl:
                for f in fr:
                    J_.check(idx(p.ev, e) < idx(p.ev, f), "order", p, "uses the arguments after their memory was freed", e)


def each(prog, J_, key, name):
    """the loop does it for the elements 0 .. len-1"""
    for p in J_.enters:
        for i, (a, b) in p.phis.items():
            v = strip(b)
            if isc(v) and len(p.phis) == 1:
                J_.check(v.a[0] == 0, key, p, "leaves out the first argument")
    for p in J_.iters:
        seg = p.segment()
        cs = [e for e in seg if e.name == name]
        if not cs and all(e.name == "=" for e in seg) and not any(mentions(t, lambda q: fld(prog, q, BUF, "cap") or fld(prog, q, BUF, "data")) for t in p.facts):
            J_.check(False, key, p, "leaves out an argument")
        for pr, x, y, v, t in cmpfacts(p):
            d = lsub(y, x)
            if pr in ("ult", "slt") and v and d and len(d[1]) == 2:
                ph = [k for k in d[1] if k.k == "phi" and d[1][k] == -1]
                ln = [k for k in d[1] if fld(prog, k, ARGS, "len") and d[1][k] == 1]
                if ph and ln and ph[0].a[0] in p.phis:
                    b = p.phis[ph[0].a[0]][1]
                    st = lsub(b, ph[0])
                    start = [strip(q.phis[ph[0].a[0]][1]) for q in J_.enters if ph[0].a[0] in q.phis]
                    if st == (1, {}) and start and all(isc(s) for s in start):
                        J_.check(d[0] >= 0, key, p, "leaves out the last argument")
                        for e in cs:
                            s = slot(prog, e.args[0])
                            if s and set(s[1][1]) == {ph[0]} and s[1][1][ph[0]] == 24:
                                J_.check(s[1][0] == -24 * min(x.a[0] for x in start) or s[1][0] == 0, key, p, "does it for another argument", e)
                            elif s and not s[1][1]:
                                J_.check(False, key, p, "does it for the same argument again and again", e)


def removefirst(prog, R):
    F = getf(prog, "args_remove_first", "args.c")
    if F is None:
        return
    J_ = J(prog, R, F, ARGR, fills=True)
    for p in J_.paths:
        ln = [p.range(t) for t in p.facts if fld(prog, t, ARGS, "len")]
        sl = bstores(p, prog, ARGS, "len")
        if ln and zero(ln[-1]):
            J_.check(not sl, "none", p, "removes an argument where there is none", sl[-1] if sl else None)
            continue
        J_.check(True if sl else False if all(e.name in ("=", "L", "X", "buf_clear", "memset", "memmove", "memcpy") for e in p.ev) else None, "count", p, "the argument removed still counts")
        for e in sl[-1:]:
            l = lin(prog, e.args[1])
            J_.check(l == (-1, {(ARGS, "len"): 1}) if l else None, "count", p, "another number of arguments counts", e)
        cl = evs(p, "buf_clear")
        for e in cl:
            s = slot(prog, e.args[0])
            if s and not s[1][1]:
                J_.check(s[1][0] == 0, "first", p, "frees another argument than the first", e)
        mv = [i for i, e in enumerate(p.ev) if e.name in ("L", "memmove")]
        J_.check(True if cl and (not mv or idx(p.ev, cl[0]) < mv[0]) else False if all(e.name in ("=", "L", "X", "memset", "memmove", "memcpy", "buf_clear") for e in p.ev) else None, "free", p,
                 "the argument removed is never freed" if not cl else "frees the argument that took its place")
        # the slot that is left must not own the memory of the last argument
        ms = [e for e in p.ev if e.name == "memset" and mv and idx(p.ev, e) > mv[0]]
        zs = [m for m in ("data", "cap") for e in bstores(p, prog, BUF, m) if mv and idx(p.ev, e) > mv[0] and isz(e.args[1])]
        J_.check(True if ms or "cap" in zs else False if mv and all(e.name in ("=", "L", "X", "memset", "memmove", "buf_clear") for e in p.ev) else None, "twice", p,
                 "two arguments own the memory of the last one")
        for e in ms:
            s = slot(prog, e.args[0])
            if s and s[1][1] == {(ARGS, "len"): 24}:
                J_.check(s[1][0] in (-24,) or (s[1][0] == 0 and [x for x in sl if idx(p.ev, x) < idx(p.ev, e)]) and None, "twice", p, "clears another slot than the one that is left", e)
    for p in J_.enters:
        if len(p.phis) == 1:
            (a, b), = p.phis.values()
            v = strip(b)
            so = [slot(prog, e.args[1]) for q in J_.iters for e in q.segment() if e.name in ("memcpy", "memmove")]
            so = [s[1][0] // 24 for s in so if s and len(s[1][1]) == 1]
            if isc(v) and so:
                J_.check(v.a[0] + min(so) <= 1, "shift", p, "an argument is lost")
    for p in J_.iters:
        ds = [slot(prog, e.args[0]) for e in bstores(p, prog, BUF, "data") if e in p.segment()]
        if ds and all(ds) and not any(e.name in ("memcpy", "memmove", "buf_clear", "buf_append") for e in p.segment()):
            J_.check(True if bstores(p, prog, BUF, "cap") else False, "shift", p, "an argument that moves loses or takes another owner")
        for e in p.segment():
            if e.name in ("memcpy", "memmove"):
                d, s = slot(prog, e.args[0]), slot(prog, e.args[1])
                if d and s and set(d[1][1]) == set(s[1][1]) and len(s[1][1]) == 1:
                    J_.check(d[1][0] - s[1][0] == -24, "shift", p, "an argument does not move to the place before it", e)
        for pr, x, y, v, t in cmpfacts(p):
            d = lsub(y, x)
            if pr in ("ult", "slt") and v and d and len(d[1]) == 2:
                ph = [k for k in d[1] if k.k == "phi" and d[1][k] == -1]
                ln = [k for k in d[1] if fld(prog, k, ARGS, "len") and d[1][k] == 1]
                start = [strip(q.phis[ph[0].a[0]][1]) for q in J_.enters if ph and ph[0].a[0] in q.phis]
                so = [slot(prog, e.args[1]) for e in p.segment() if e.name in ("memcpy", "memmove")]
                so = [s[1][0] // 24 for s in so if s and set(s[1][1]) == set(ph)]
                if ph and ln and start and so:
                    J_.check(d[0] + max(so) >= 0, "shift", p, "the last argument is lost")


def argseq(prog, R):
    F = getf(prog, "args_eq", "args.c")
    if F is None:
        return
    J_ = J(prog, R, F, ARGR)
    for p in J_.paths:
        if p.ret is None or not isc(strip(p.ret)):
            continue
        yes = bool(strip(p.ret).a[0] & 1)
        if not yes:
            continue
        lens = bound = None
        for pr, x, y, v, t in cmpfacts(p):
            d = lsub(x, y)
            if d is None:
                continue
            if pr == "eq" and d[0] == 0 and len(d[1]) == 2 and any(fld(prog, k, BUF, "len") for k in d[1]) and any(k.k == "pure" and k.a[0] == "strlen" for k in d[1]):
                lens = v
            if pr in ("ult", "slt") and len(d[1]) == 2 and any(fld(prog, k, ARGS, "len") for k in d[1]):
                k = [k for k in d[1] if fld(prog, k, ARGS, "len")][0]
                bound = v and d[0] >= 0 if d[1][k] == -1 else (not v and d[0] <= -1)
        J_.check(True if lens else False if lens is False or known(p) else None, "length", p, "an argument is taken for a word it only begins with")
        J_.check(True if bound else False if bound is False or known(p) and not any(mentions(t, lambda q: fld(prog, q, ARGS, "len")) for t in p.facts) else None, "bound", p, "reads an argument that is not there")
        cmpd = loops_of(p) or any(e.name in ("strncasecmp", "memcmp", "strcasecmp") for e in p.ev)
        J_.check(True if cmpd else False if known(p) else None, "bytes", p, "does not compare the bytes")


def known(p):
    return all(e.name in ("strlen", "L", "X", "tolower", "toupper", "=", "*indirect*") for e in p.ev)
