"""C13 (SAVE writes a complete image or fails cleanly), C14 (LOAD restores what was saved and rejects damage), C15 (start and stop)."""
from gensim import *
from semlib import isnow, isunix, iscall, isglobal, sign
import report
CANCELED = 7

EXPLAIN = {}
ASSUME = ["LZ4, crc32, the varint codec, buf_* and the C library do what their names say; a process crash between two system calls "
          "is covered by the order of the calls (write all, then rename), not by modelling the disk",
          "pogocache_iter visits every live entry of the part it is given (C03, C04, C09, C10 and the engine checks)"]


def call1(p, name, seg=None):
    for e in (p.ev if seg is None else seg):
        if e.name == name:
            return e


def evs(p, name, seg=None):
    return [e for e in (p.ev if seg is None else seg) if e.name == name]


def retv(p):
    """'0', '-', '+', 'n' or None for an int result"""
    if p.ret is None:
        return None
    if isc(p.ret):
        return sign(p, p.ret)
    return sign(p, p.ret)


def fails(p, r):
    """result r of a POSIX call: True failed for sure, False succeeded for sure, None"""
    if r is None:
        return None
    lo, hi, ex = p.range(r)
    if hi < 0:
        return True
    if lo >= 0 or (-1 in ex and 0 not in ex):
        return False
    return None


def truthv(p, t):
    """truth of a value used as boolean"""
    if t is None:
        return None
    t = strip(t)
    if isc(t):
        return t.a[0] != 0
    v = p.truth(t) if t.k in ("cmp", "not") else None
    if v is not None:
        return v
    lo, hi, ex = p.range(t)
    if lo == hi == 0:
        return False
    if 0 in ex or lo > 0 or hi < 0:
        return True
    return None


def fval(prog, st, mem):
    """matcher of a value loaded from struct member"""
    def f(t):
        return t is not None and ldfield(t, prog) == ("struct." + st, mem)
    return f


def C13(prog, R, tier):
    EXPLAIN["C13"] = ("every path of flush, save_entry, thsave and save: blocks are complete, checksummed and fully written before success "
                      "is reported; all parts are covered by exactly one worker; the file is renamed only after every worker reported success")
    flush(prog, R)
    save_entry(prog, R)
    thsave(prog, R)
    save(prog, R)


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


def flush(prog, R):
    F = func(prog, "flush", "save.c")
    if F is None or "LZ4_compress_default" not in {prog.calleename(I) if hasattr(prog, "calleename") else (I.callee[1] if I.callee and I.callee[0] == "f" else None)
                                                   for I in F.insts() if I.op == "call"}:
        R.unknown += 1
        return
    J_ = J(prog, R, F, "block")
    lenf = fval(prog, "buf", "len")
    for p in J_.paths:
        z = call1(p, "LZ4_compress_default")
        r = sign(p, p.ret)
        ws = evs(p, "write")
        # the writing loop's last write is only seen on paths that leave from inside the loop
        for w in ws:
            if fails(p, w.res) is True:
                J_.check(r != "0", "write-failure", p, "reports success although writing to the file failed", w)
        lk, ul = len(evs(p, "pthread_mutex_lock")), len(evs(p, "pthread_mutex_unlock"))
        J_.check(lk == ul, "lock", p, "the write lock is taken %d and released %d times" % (lk, ul))
        if r != "0":
            continue
        if z is None:
            # nothing to write
            n = [t for t in p.facts if ldfield(t, prog) == ("struct.savectx", "nentries") and p.range(t)[1] == 0]
            J_.check(bool(n), "skip", p, "reports success without writing although there may be entries to write")
            zl = [e for e in stores(p, prog, "struct.buf", "len") if same(e.args[1], ZERO)]
            own = clearsblock(prog, R)
            J_.check(bool(zl) or bool(evs(p, "buf_clear")) or (None if own else False), "skip-reset", p, "leaves the time stamp of a part without entries in the block")
            continue
        zn = sign(p, z.res)
        J_.check(zn in ("+", "n") or None if zn is None or zn in ("+", "n") else False, "compressed", p,
                 "goes on with a block that could not be compressed", z)
        if zn is None:
            J_.check(0 in p.range(z.res)[2], "compressed", p, "does not notice when a block could not be compressed", z)
        src, dst, n, cap = z.args[:4]
        J_.check(lenf(strip(n)), "whole", p, "does not compress the whole block", z)
        for e in evs(p, "buf_ensure"):
            if e.res is None or idx(p.ev, e) > idx(p.ev, z):
                continue
            d, c, g = linz(dst), linz(e.args[1]), linz(cap)
            if d and c and g and c[1] == g[1]:
                J_.check(c[0] - g[0] >= d[0], "room", p, "the compressed data can reach past the space made for it", e)
        crc = call1(p, "crc32")
        J_.check(crc is not None and same(crc.args[0], dst) and same(crc.args[1], z.res), "crc", p,
                 "the checksum does not cover exactly the compressed data", crc or z)
        want = {4: ("checksum", crc.res if crc else None), 8: ("plain length", n), 12: ("compressed length", z.res)}
        got = {}
        for e in evs(p, "write_u32"):
            d = lsub(e.args[0], dst)
            if d is not None and not d[1]:
                got[d[0] + 16] = e
        tag = None
        for e in evs(p, "memcpy"):
            d = lsub(e.args[0], dst)
            if d == (-16, {}) and isc(e.args[2]) and e.args[2].a[0] == 4:
                u = under(e.args[1])
                tag = prog.string(u.a[0]) if u.k == "g" else None
        if evs(p, "memcpy"):
            J_.check(tag is not None and tag[:4] == "POGO", "tag", p, "a block does not start with the POGO tag")
        for o, (what, v) in sorted(want.items()):
            e = got.get(o)
            if e is None and not got:
                R.unknown += 1
                continue
            J_.check(e is not None and (same(e.args[1], v) or ldsame(e.args[1], v)), "header-%d" % o, p,
                     "the block header does not carry the %s at byte %d" % (what, o), e or z)
        # written completely: the loop ended because the end was reached
        done = False
        for pr, a, b, v, t in cmpfacts(p):
            if mentions(t, lambda x: x is z.res) and mentions(t, lambda x: x.k == "phi"):
                done = True
        if not done:
            done = any(t.k == "phi" for t in p.facts)
        J_.check(done, "complete", p, "reports success without making sure that all bytes were written", z)
        for pr, a, b, v, t in cmpfacts(p):
            # phi < end is false: end must be dst+16+len or beyond
            if pr in ("ult", "slt") and v is False and strip(a).k == "phi" and b.k in ("idx", "off"):
                d = lsub(b, dst)
                e = lsub(b, z.res)
                if d is None:
                    continue
                dd = dict(d[1])
                k = dd.pop(strip_key(dd, z.res), 0) if strip_key(dd, z.res) is not None else 0
                if not dd:
                    J_.check(k == 1 and d[0] >= 0, "complete-end", p, "stops writing %s" %
                             ("before the end of the block" if k == 1 else "at a position unrelated to the block's length"), z)
        zero = {f[1] for e in p.ev if e.name == "=" and same(e.args[1], ZERO) for f in [fieldof(prog, e.args[0])] if f}
        J_.check("len" in zero and "nentries" in zero, "reset", p, "leaves the block's content in place after writing it (it would be written twice)")
    for p in J_.iters:
        seg = p.segment()
        for w in evs(p, "write", seg):
            if len(w.args) < 3:
                continue
            fdo = ldfield(w.args[0], prog)
            J_.check(fdo in (("struct.savectx", "fd"), None) or None, "fd", p, "writes to something else than the save file", w)
            ul = evs(p, "pthread_mutex_unlock", seg)
            J_.check(not ul, "lock-held", p, "other workers can write between two pieces of a block", ul[0] if ul else w)
            # the position advances by what was written
            f = [t for t in linz(w.args[1])[1] if t.k == "phi"]
            for (a, b) in p.phis.values():
                if a in f:
                    J_.check(lsub(b, a) == (0, {strip(w.res): 1}) or same2(lsub(b, a), w.res), "advance", p,
                             "does not continue with the byte after the last one written", w)
                    # never more than what remains
                    e2 = lsub_add(w.args[1], w.args[2])
                    if e2 is not None and not isc(strip(w.args[2])):
                        J_.check(steady(p, e2), "remaining", p, "the amount to write does not shrink as the position advances", w)
    for p in J_.enters:
        z = call1(p, "LZ4_compress_default")
        if z is None:
            continue
        for (a, b) in p.phis.values():
            if b is None:
                continue
            d = lsub(b, z.args[1])
            if d is not None and not d[1]:
                J_.check(d[0] == -16, "first", p, "does not start writing at the block's header")


def clearsblock(prog, R):
    """does the worker itself empty the block before each part?"""
    F = func(prog, "thsave", "save.c")
    if F is None:
        return True
    for q in J(prog, R, F, "worker").iters:
        seg = q.segment()
        if list(stores(q, prog, "struct.buf", "len", seg)) or evs(q, "buf_clear", seg) or evs(q, "memset", seg):
            return True
    return False


def steady(p, d):
    """a linear form that has the same value in the next round of the loop"""
    c, acc = 0, {}
    for (a, b) in p.phis.values():
        k = d[1].get(a)
        if k and b is not None:
            e = lsub(b, a)
            c += k * e[0]
            for x, v in e[1].items():
                acc[strip(x)] = acc.get(strip(x), 0) + k * v
    return c == 0 and not any(acc.values())


def strip_key(d, r):
    for k in d:
        if strip(k) is strip(r):
            return k
    return None


def same2(d, r):
    return d is not None and d[0] == 0 and len(d[1]) == 1 and strip_key(d[1], r) is not None and d[1][strip_key(d[1], r)] == 1


def lsub_add(a, b):
    la, lb = linz(a), linz(b)
    if la is None or lb is None:
        return None
    d = dict(la[1])
    for k, v in lb[1].items():
        d[k] = d.get(k, 0) + v
    return la[0] + lb[0], {k: v for k, v in d.items() if v}


P_ = lambda n: mk("param", n)


def params(F):
    return list(F.params)


def save_entry(prog, R):
    # the callback given to pogocache_iter by the saver
    T_ = func(prog, "thsave", "save.c")
    F = func(prog, "save_entry", "save.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, "entry")
    pr = {}
    for p in J_.paths:
        seq = []
        fl = None
        tail = []
        for e in p.ev:
            if e.name in ("buf_append_byte", "buf_append_uvarint", "buf_append"):
                (seq if fl is None else tail).append(e)
            elif e.name == "flush":
                fl = e
        V = lambda i: psim_param(i)
        exp = V(6)
        lo, hi, ex = p.range(exp)
        es = "0" if hi <= 0 else "+" if lo > 0 or lo == 0 and 0 in ex else None
        ttl = mkbin("sub", exp, V(1)) if es == "+" or es is None and lo >= 0 else ZERO
        want = [("buf_append_byte", "entry kind", (ZERO,)), ("buf_append_uvarint", "key length", (V(3),)), ("buf_append", "key", (V(2), V(3))),
                ("buf_append_uvarint", "value length", (V(5),)), ("buf_append", "value", (V(4), V(5))),
                ("buf_append_uvarint", "time to live", (ttl,)), ("buf_append_uvarint", "flags", (V(7),)), ("buf_append_uvarint", "unique value", (V(8),))]
        if len(seq) != len(want) or any(e.name != w[0] for e, w in zip(seq, want)):
            known = all(all(plainarg(a) for a in e.args[1:]) for e in seq)
            J_.check(False if known and len(seq) < len(want) else None, "fields", p, "writes %d fields of an entry instead of %d" % (len(seq), len(want)))
        else:
            for e, w in zip(seq, want):
                for a, b in zip(e.args[1:], w[2]):
                    if b is None:
                        continue
                    good = same(a, b)
                    if w[1] == "time to live" and good and es is None:
                        good = False
                    J_.check(good if good or plainarg(a) else None, w[1].replace(" ", "-"), p, "does not save the entry's %s" % w[1], e)
        cnt = [e for e in stores(p, prog, "struct.savectx", "nentries")]
        if not any(e.name == "*indirect*" for e in p.ev):
            J_.check(len(cnt) == 1 and isc(lsub2(cnt[0].args[1])) if cnt else False, "count", p, "an entry is not counted (the block would be dropped as empty)")
        if fl is not None:
            s = flres(p, fl)
            r = sign(p, p.ret)
            if s is True:
                J_.check(r in ("+", "n", "-") if r is not None else None, "block-failure", p, "goes on although a block could not be written", fl)
            elif s is None and r == "0" and not any(mentions(t, lambda x: x is strip(fl.res)) for t in p.facts if strip(t) is not strip(fl.res)):
                J_.check(False, "block-failure", p, "does not notice when a block could not be written", fl)
            elif s is False:
                if r == "0":
                    J_.check(len(tail) == 1 and tail[0].name == "buf_append_uvarint" and ldfield(tail[0].args[1], prog) == ("struct.savectx", "unixtime")
                             if tail else False, "new-block", p, "a further block of the part does not start with the time stamp", tail[0] if tail else fl)
        else:
            J_.check(sign(p, p.ret) == "0", "continue", p, "stops saving after an entry although nothing failed")


def lsub2(t):
    d = linz(t)
    if d and d[0] == 1 and len(d[1]) == 1 and list(d[1].values()) == [1]:
        return C(1)
    return t


def flres(p, e):
    """a call that answers 0 or -1"""
    lo, hi, ex = p.range(e.res)
    if hi < 0 or lo > 0 or 0 in ex:
        return True
    if lo == hi == 0 or -1 in ex or lo >= 0:
        return False
    return None


def psim_param(i):
    return mk("p", i)


def plainarg(t):
    t = strip(t)
    if isc(t) or t.k == "p":
        return True
    if t.k == "bin":
        return plainarg(t.a[1]) and plainarg(t.a[2])
    if t.k == "cast":
        return plainarg(t.a[1])
    return False


def thsave(prog, R):
    F = func(prog, "thsave", "save.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, "worker")
    okst = lambda seg: [e for e in seg if e.name == "=" and fieldof(prog, e.args[0]) == ("struct.savectx", "ok")]
    for p in J_.paths:
        o = okst(p.ev)
        good = any(truthv(p, e.args[1]) for e in o)
        may = any(truthv(p, e.args[1]) is None for e in o)
        it, fl = evs(p, "pogocache_iter"), evs(p, "flush")
        bad = None
        for e in it:
            lo, hi, ex = p.range(e.res)
            if lo == hi == CANCELED:
                bad = ("a failure while collecting the entries", e)
        for e in fl:
            if flres(p, e) is True:
                bad = ("a block that could not be written", e)
        if bad:
            J_.check(not good if not may else None, "failure", p, "the worker reports success in spite of " + bad[0], bad[1])
        if good:
            # leaves the loop because all parts were done
            lim = [v for pr_, a, b, v, t in cmpfacts(p) if mentions(t, lambda x: ldfield(x, prog) == ("struct.savectx", "count") if x.k == "ld" else False)]
            J_.check((False in lim) or None if lim else False, "all-parts", p, "the worker reports success without having gone through all its parts")
        elif not bad and not may:
            J_.check(False if not p.joined else None, "success", p, "the worker reports failure although nothing failed")
        for nm in ("buf", "dst"):
            pass
    seen = 0
    for p in J_.iters:
        seg = p.segment()
        it, fl = evs(p, "pogocache_iter", seg), evs(p, "flush", seg)
        if not it:
            J_.check(False, "visit", p, "goes on to the next part without saving the current one")
            continue
        seen += 1
        e = it[-1]
        J_.check(len(it) == 1, "once", p, "saves a part twice", e)
        lo, hi, ex = p.range(e.res)
        J_.check(CANCELED in ex or hi < CANCELED or lo > CANCELED, "canceled", p, "goes on after a failure while collecting entries", e)
        J_.check(len(fl) == 1 and idx(p.ev, fl[0]) > idx(p.ev, e) if fl else False, "written", p, "does not write the block of a part", e)
        for f in fl:
            J_.check(flres(p, f) is False, "flush", p, "goes on after a block could not be written", f)
        st = [x for x in seg if x.name == "buf_append_uvarint"]
        J_.check(bool(st) and idx(p.ev, st[0]) < idx(p.ev, e) and isunix(st[0].args[1]) if st else False, "stamp", p,
                 "the block does not start with the current time", st[0] if st else e)
        us = list(stores(p, prog, "struct.savectx", "unixtime", seg))
        if us and st:
            J_.check(same(us[-1].args[1], st[0].args[1]), "stamp-kept", p, "further blocks of the part would carry a different time stamp", us[-1])
        o = lambda m: optcell(prog, e, 1, "pogocache_iter_opts", m)
        J_.check(truthv(p, o("oneshard")), "one-part", p, "does not restrict the pass to one part", e)
        ix = o("oneshardidx")
        d = linz(ix) if ix is not None else None
        if d is not None:
            ph = [t for t in d[1] if t.k == "phi"]
            rest = [t for t in d[1] if t.k != "phi"]
            okx = d[0] == 0 and len(ph) == 1 and len(rest) == 1 and ldfield(rest[0], prog) == ("struct.savectx", "start")
            okx = okx or (d[0] == 0 and len(ph) == 1 and not rest and None)
            J_.check(okx if okx is not False or all(t.k in ("phi", "ld", "bin") for t in d[1]) else None, "part", p, "does not save the parts assigned to the worker", e)
            for (a, b) in p.phis.values():
                if a in ph:
                    J_.check(lsub(b, a) == (1, {}), "next-part", p, "skips or repeats parts", e)
        tm, ux = o("time"), st[0].args[1] if st else None
        if tm is not None and isnow(tm) and ux is not None and isunix(ux):
            inn = [any(x.res is strip(t) for x in seg) for t in (tm, ux)]
            J_.check(inn[0] or not inn[1], "time-apart", p, "the time to live of the entries is counted from another time than the one written", e)
        J_.check(isnow(o("time")) if o("time") is not None else False, "time", p, "does not give the current time (expired entries would be saved)", e)
        en = o("entry")
        J_.check(en is not None and en.k == "f" and en.a[0].split(":")[-1] == "save_entry" if en is not None and en.k == "f" else (None if en is not None else False),
                 "entry", p, "does not save the entries", e)
        u = o("udata")
        J_.check(u is not None and u.k == "p" if u is not None else False, "udata", p, "the entries are not collected in the worker's own block", e)
    for p in J_.enters:
        for (a, b) in p.phis.values():
            if b is not None and isc(b):
                J_.check(b.a[0] == 0, "first-part", p, "skips its first part")


def idx(l, e):
    for i, x in enumerate(l):
        if x is e:
            return i
    return -1


def loops_of(p):
    """[(header, index of L, index of X, normal)]"""
    out, op = [], {}
    for i, e in enumerate(p.ev):
        if e.name == "L":
            op[e.x] = i
        elif e.name == "X":
            out.append((e.x, op.pop(e.x, None), i, same(e.args[0], C(1))))
    return out


def save(prog, R):
    F = func(prog, "save", "save.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, "file")
    okf, thf = fval(prog, "savectx", "ok"), fval(prog, "savectx", "th")
    roles = {}
    for p in J_.iters:
        seg = p.segment()
        ro = roles.setdefault(p.hdr, set())
        for e in seg:
            if e.name in ("pthread_create", "thsave", "pthread_join"):
                ro.add(e.name)
        if any(okf(strip(t)) for t in p.facts):
            ro.add("ok") if not seg or "ok" not in ro else None
    # facts of other loops remain on the path: a loop that checks is one whose iterations never continue with ok false
    chk = {}
    for p in J_.iters:
        v = [truthv(p, t) for t in p.facts if okf(strip(t)) and mentions(t, lambda x: x.k == "phi" and x in [a for a, b in p.phis.values()])]
        chk.setdefault(p.hdr, []).append(bool(v) and all(x is True for x in v))
    checkers = {h for h, l in chk.items() if l and all(l)}
    soft = {p.hdr for p in J_.iters for a, b in p.phis.values() if a is not None and b is not None and b is not a and
            (lsub(b, a) is None or lsub(b, a)[1]) and (any(okf(strip(t)) for t in p.facts) or mentions(b, okf))}
    has = lambda h, r: r in roles.get(h, ())
    for p in J_.paths:
        op = call1(p, "open")
        rn = evs(p, "rename")
        r = sign(p, p.ret)
        if op is None:
            J_.check(r != "0", "open", p, "reports success without writing a file")
            continue
        of = fails(p, op.res)
        if of is True:
            J_.check(r not in ("0", None), "open-failure", p, "reports success although the work file could not be created", op)
            continue
        work = op.args[0]
        J_.check(work.k != "p", "workfile", p, "writes into the live file instead of a work file", op)
        if isc(op.args[1]) and not op.args[1].a[0] & 0o200:
            for w in evs(p, "snprintf") + evs(p, "sprintf"):
                if same(w.args[0], work):
                    v = w.args[3:] if w.name == "snprintf" else w.args[2:]
                    J_.check(not all(isc(strip(x)) or strip(x) is psim_param(0) or strip(x).k == "g" for x in v), "work-name", p,
                             "two saves to the same path write into the same work file", w)
        if isc(op.args[1]):
            J_.check(op.args[1].a[0] & 3 in (1, 2) and bool(op.args[1].a[0] & 0o100), "open-flags", p, "the work file is not created for writing", op)
        for w in evs(p, "open") + evs(p, "fopen"):
            if w is not op:
                R.unknown += 1
        for w in rn:
            J_.check(same(w.args[0], work), "rename-from", p, "renames something else than the work file", w)
            J_.check(w.args[1].k == "p" and w.args[1] is psim_param(0) if w.args[1].k == "p" else None, "rename-to", p, "renames the work file to the wrong name", w)
            lo = [l for l in loops_of(p) if l[2] < idx(p.ev, w)]
            ck = [l for l in lo if l[0] in checkers and l[3]]
            J_.check(True if ck else None if soft & {l[0] for l in lo} else False, "all-ok", p, "installs the new file without having checked that every worker succeeded", w)
            if ck:
                for role in ("pthread_join", "thsave"):
                    js = [l for l in loops_of(p) if has(l[0], role)]
                    if not js and not any(has(h, role) for h in roles):
                        J_.check(False if not call1(p, role) else None, role, p, "never %s the workers" % ("waits for" if role == "pthread_join" else "runs"), w)
                        continue
                    J_.check(bool(js) and max(l[2] for l in js) < min(l[1] for l in ck), role, p, "looks at the workers' results before they have finished", w)
            un = [e for e in evs(p, "unlink") if same(e.args[0], work) and idx(p.ev, e) < idx(p.ev, w)]
            J_.check(not un, "unlink-first", p, "removes the work file before installing it", w)
            cl = [e for e in evs(p, "unlink") if e.args[0].k == "p"]
            J_.check(not cl, "unlink-live", p, "removes the live file", w)
        if r == "0":
            J_.check(bool(rn) and all(fails(p, w.res) is False for w in rn), "installed", p, "reports success although the new file is not in place", rn[0] if rn else op)
        elif rn and all(fails(p, w.res) is False for w in rn):
            J_.check(False if r in ("-", "n", "+") else None, "report", p, "reports failure although the file was saved", rn[0])
        if r != "0":
            J_.check(any(same(e.args[0], work) for e in evs(p, "unlink")), "leftover", p, "leaves the work file behind when saving failed", op)
        J_.check(any(same(e.args[0], op.res) for e in evs(p, "close")), "close", p, "does not close the file", op)
    # loops run over all workers
    parts = []
    for p in J_.iters:
        seg = p.segment()
        mine = [a for a, b in p.phis.values() if a is not None]
        for (a, b) in p.phis.values():
            if a is None or b is None:
                continue
            if any(pr in ("slt", "ult", "eq") and mentions(t, lambda x: x is a) for pr, x, y, v, t in cmpfacts(p)) and lsub(b, a) is not None and not lsub(b, a)[1]:
                J_.check(lsub(b, a)[0] == 1, "worker-step", p, "skips workers")
        ro = roles.get(p.hdr, ())
        if "thsave" in ro or "pthread_join" in ro:
            ths = [truthv(p, t) for t in p.facts if thf(strip(t)) and mentions(t, lambda x: x in mine)]
            th = ths[-1] if ths else None
            n = len(evs(p, "thsave", seg))
            j = len(evs(p, "pthread_join", seg))
            if "thsave" in ro and th is not None:
                J_.check(n == (0 if th else 1), "inline-run", p, "a worker %s" % ("with a thread of its own is run a second time" if th else "without a thread is never run"))
            if "pthread_join" in ro and th is not None:
                J_.check(j == (1 if th else 0), "join", p, "a worker's thread is not waited for" if th else "waits for a thread that does not exist")
        if "pthread_create" in ro:
            cr = evs(p, "pthread_create", seg)
            lo = {}
            for e in seg:
                if e.name == "=":
                    f = fieldof(prog, e.args[0])
                    if f and f[0] == "struct.savectx":
                        lo.setdefault(f[1], []).append(e)
            for e in cr:
                ok = p.range(e.res)
                if ok[0] < 0 < ok[1] and not ok[2] and not evs(p, "pthread_create", seg)[1:]:
                    J_.check(False, "unchecked", p, "does not look whether the worker's thread could be started", e)
                failed = True if 0 in ok[2] or ok[0] > 0 or ok[1] < 0 else False if ok[0] == ok[1] == 0 else None
                z = [s for s in lo.get("th", ()) if idx(seg, s) > idx(seg, e) and same(s.args[1], ZERO)]
                if failed is True:
                    J_.check(bool(z), "no-thread", p, "a worker whose thread could not be started is neither run nor reported", e)
                elif failed is False:
                    J_.check(not z, "thread-lost", p, "a started worker is treated as not started (its part would be saved twice)", e)
                for m in ("start", "count", "fd", "lock"):
                    s = lo.get(m)
                    if s:
                        J_.check(idx(seg, s[-1]) < idx(seg, e), "ready-" + m, p, "a worker is started before its %s is set" % m, s[-1])
            fd = lo.get("fd")
            if fd:
                J_.check(iscall(fd[-1].args[1], "open"), "worker-fd", p, "a worker writes to another file", fd[-1])
            st, ct = lo.get("start"), lo.get("count")
            if st and ct:
                s, c = st[-1].args[1], ct[-1].args[1]
                ph = strip(s)
                for (a, b) in p.phis.values():
                    if a is ph:
                        d = lsub(b, a)
                        dc = linz(c)
                        J_.check(d == dc if d is not None else None, "partition", p, "the next worker does not continue where this one stops", ct[-1])
                parts.append((p, ct[-1], linz(c), lsub_add(s, c)))
                # the last one takes the rest
                last = None
                for pr, x, y, v, t in cmpfacts(p):
                    if pr == "eq" and v in (True, False) and any(m_ in mine for m_ in walk(t)) and not mentions(t, lambda q: q is ph):
                        last = v if last is None else last
                for t in p.facts:
                    if strip(t).k == "phi" and strip(t) in mine and strip(t) is not ph and last is None:
                        rg = p.range(t)
                        if rg[0] == rg[1]:
                            last = True
                bnd = [y for pr, x, y, v, t in cmpfacts(p) if pr in ("slt", "ult") and v is True and strip(x).k == "phi" and strip(x) in mine]
                at = [(x, y) if strip(x).k == "phi" else (y, x) for pr, x, y, v, t in cmpfacts(p)
                      if pr == "eq" and v is True and any(q in mine and q is not ph for q in (strip(x), strip(y)))]
                for x, y in at:
                    if bnd and last is True:
                        dd = lsub(bnd[-1], y)
                        J_.check(dd[0] == 1 if dd is not None and not dd[1] else None, "last-one", p, "gives the rest to another worker than the last", ct[-1])
                if last is True:
                    d = lsub_add(s, c)
                    J_.check(d is not None and d[0] == 0 and len(d[1]) == 1 and iscall(list(d[1])[0], "pogocache_nshards") if d else None, "rest", p,
                             "the last worker does not cover the remaining parts", ct[-1])
    def even(d):
        return d is not None and d[0] == 0 and len(d[1]) == 1 and list(d[1])[0].k == "bin" and list(d[1])[0].a[0] in ("sdiv", "udiv")
    parts = [q for q in parts if not (q[2] and len(q[2][1]) == 1 and iscall(list(q[2][1])[0], "pogocache_nshards"))]
    if parts and all(even(d) for _, _, d, _ in parts):
        J_.check(False, "rest", parts[0][0], "the parts left over by the division among the workers are saved by none", parts[0][1])
    # every loop over the workers covers the same range
    ctr = {}
    for p in J_.iters:
        for (a, b) in p.phis.values():
            if a is not None and b is not None and lsub(b, a) == (1, {}):
                ctr.setdefault(p.hdr, set()).add(a)

    def bound(p, h):
        for pr, x, y, v, t in cmpfacts(p):
            if pr in ("slt", "ult") and strip(x) in ctr.get(h, ()) and v is False:
                d = linz(y)
                return d[0], tuple(sorted((show(k), n) for k, n in d[1].items()))
        for t in p.facts:
            if strip(t) in ctr.get(h, ()):
                return p.range(t)[0], ()
        return None
    creators = {h for h in roles if has(h, "pthread_create")}
    for p in J_.paths:
        for w in evs(p, "rename"):
            bs = {h: bound(p, h) for h in creators | checkers | {h for h in roles if has(h, "pthread_join") or has(h, "thsave")}}
            ref = [b for h, b in bs.items() if h in creators and b is not None]
            for h, b in bs.items():
                if h not in creators and b is not None and ref:
                    what = "checks" if h in checkers else "waits for" if has(h, "pthread_join") else "runs"
                    J_.check(b == ref[0] or (None if len(b[1]) != len(ref[0][1]) else False), "all-workers", p, "%s only some of the workers" % what, w)
    cid = {(p.hdr, i) for p in J_.iters for i, (a, b) in p.phis.items() if a is not None and b is not None and b is not a and
           lsub(b, a) is not None and (lsub(b, a) == (1, {}) or any(v == 1 for v in lsub(b, a)[1].values()) and not lsub(b, a)[0])}
    for p in J_.enters:
        for i, (a, b) in p.phis.items():
            if b is not None and isc(b) and (p.hdr, i) in cid:
                J_.check(b.a[0] == 0, "first-worker", p, "skips the first worker or part")


def C14(prog, R, tier):
    EXPLAIN["C14"] = ("every path of load_block, thload and load: a block is used only after tag, length and checksum were verified, fields are "
                      "read in the order they are saved and never past the block's end, entries get the saved key, value, flags and remaining "
                      "time to live, and success is reported only when every block was")
    load_block(prog, R)
    thload(prog, R)
    load(prog, R)


def load_block(prog, R):
    F = func(prog, "load_block", "save.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, "restore")
    for p in list(J_.paths) + list(J_.iters):
        seg = p.ev
        isit = p in J_.iters
        z = call1(p, "LZ4_decompress_safe")
        if z is None:
            continue
        n = [v for pr, a, b, v, t in cmpfacts(p) if pr == "eq" and mentions(t, lambda x: strip(x) is strip(z.res))]
        rg = p.range(z.res)
        good = True in n and rg[0] >= 0
        if isit or sign(p, p.ret) in ("+", "n"):
            J_.check(good or (None if True in n else False), "decompressed", p, "uses a block that was not decompressed to exactly its announced length", z)
        if not isit:
            r = sign(p, p.ret)
            lo = loops_of(p)
            bad = False
            for e in evs(p, "varint_read_u64"):
                if p.range(e.res)[1] <= 0:
                    bad = e
            if bad:
                J_.check(r == "0", "damaged", p, "accepts a block with an unreadable field", bad)
            if r in ("+", "n"):
                full = [v for pr, a, b, v, t in cmpfacts(p) if pr in ("ult", "slt") and any(x.k == "phi" for x in linz(a)[1]) and
                        mentions(b, lambda x: ldfield(x, prog) == ("struct.cblock", "dlen")) and not mentions(b, lambda x: x.k in ("phi", "vread"))]
                J_.check((False in full) if full else None, "to-the-end", p, "accepts a block without having read it to its end")
            if r == "0" and lo and lo[0][3] and not bad and not [1 for e in p.ev[lo[0][2]:] if e.name in ("printf", "perror")]:
                pass
            continue
        # one entry
        seg = p.segment()
        rd = evs(p, "varint_read_u64", seg)
        vals = {}
        for t in p.facts:
            for x in walk(t):
                if x.k == "vread":
                    vals[x.a[0]] = x
        for e in seg:
            for a in e.args:
                for x in walk(a):
                    if x.k == "vread":
                        vals[x.a[0]] = x
        phs = [a for a, b in p.phis.values() if a is not None]
        if len(rd) != 5 or not phs:
            J_.check(None if len(rd) > 5 else False if not any(e.name == "*indirect*" for e in seg) and rd else None, "fields", p, "reads %d of the 5 fields of an entry" % len(rd))
            continue
        for e in rd:
            J_.check(p.range(e.res)[0] >= 1, "readable", p, "uses a field that could not be read", e)
        out = [vals.get(e.I.id) or mk("vread", e.I.id, e.args[0]) for e in rd]
        klen, vlen, ttl, flg, cas = out
        # positions
        pos = rd[0].args[0]
        d0 = [lsub(pos, a) for a in phs]
        J_.check((1, {}) in d0, "kind-byte", p, "does not read the key length right after the entry's kind", rd[0])
        kd = [p.range(t) for t in p.facts if t.k == "ld" and any(t.a[1] is a for a in phs)]
        J_.check(any(x[0] == x[1] == 0 for x in kd) if kd else False, "kind", p, "accepts entries of unknown kind")
        adv = [klen, vlen, None, None]
        cur = pos
        for k in range(4):
            # next position = cur + n + (len)
            nx = rd[k + 1].args[0]
            d = lsub(nx, cur)
            want = {strip(rd[k].res): 1}
            if adv[k] is not None:
                want[strip(adv[k])] = 1
            J_.check(d is not None and d[0] == 0 and {strip(x): v for x, v in d[1].items()} == want, "position-%d" % (k + 1), p,
                     "a field is read from the wrong position", rd[k + 1])
            cur = nx
        for (a, b) in p.phis.values():
            if a is None or lsub(pos, a) != (1, {}):
                continue
            d = lsub(b, cur)
            J_.check(d is not None and d[0] == 0 and {strip(x): v for x, v in d[1].items()} == {strip(rd[4].res): 1}, "next-entry", p,
                     "the next entry is read from the wrong position")
        # end: position + remaining
        for e in rd:
            ed = lsub_add(e.args[0], e.args[1])
            if ed is not None:
                J_.check(not any(x.k in ("phi", "vread") for x in ed[1]), "bound", p, "the space left in the block is computed wrongly", e)
        for what, ln, nxt in (("key", klen, rd[1]), ("value", vlen, rd[2])):
            # end - (position of the data) >= length
            ed = rd[0]
            rem = None
            okb = False
            for pr, x, y, v, t in cmpfacts(p):
                if (pr == "ult" or pr == "slt" and p.range(ln)[0] >= 0) and v is False and strip(y) is strip(ln):
                    dd = lsub_add(x, mkadd(nxt.args[0], ln, -1))
                    # x = end - datapos: x + datapos must be free of phi
                    if dd is not None and dd == lsub_add(rd[0].args[0], rd[0].args[1]):
                        okb = True
                if pr in ("ult", "slt") and v is False and not okb and 0 <= p.range(ln)[0] <= p.range(ln)[1] < 1 << 62:
                    # end < datapos+len is false
                    dd = lsub(y, nxt.args[0])
                    if dd == (0, {}) and linz(x) == lsub_add(rd[0].args[0], rd[0].args[1]):
                        okb = True
                if pr in ("ult",) and v is True and strip(x) is strip(ln) and isc(y):
                    pass
            J_.check(okb, what + "-inside", p, "a %s that reaches past the end of the block is accepted" % what, nxt)
        lo_, hi_, _ = p.range(flg)
        J_.check(hi_ <= 0xffffffff and lo_ >= 0, "flags-range", p, "flags that do not fit are accepted and cut", rd[3])
        lo_, hi_, _ = p.range(ttl)
        J_.check(lo_ >= 0, "ttl-range", p, "a negative time to live is accepted", rd[2])
        st = evs(p, "pogocache_store", seg)
        stamp = [x for x in vals.values() if x.a[0] not in [e.I.id for e in rd]]
        # expired?
        ex = None
        for pr, x, y, v, t in cmpfacts(p):
            if pr == "slt" and (isunix(x) or isunix(y)) and mentions(t, lambda q: q is ttl):
                o = y if isunix(x) else x
                if isunix(x):       # now < expires
                    ex = not v
                    exact = True
                else:               # expires < now
                    ex = True if v else None
                    J_.check(False if not v else None, "expired-exact", p, "an entry that expires at the very moment of loading is kept")
        if ex is True:
            J_.check(not st, "expired", p, "an entry that has expired since it was saved is restored", st[0] if st else None)
            continue
        s0 = sign(p, ttl)
        if s0 == "+" and ex is None:
            J_.check(None if mentionsany(p, ttl) else False, "expiry-checked", p, "restores an entry without checking whether it has expired since", st[0] if st else None)
        if s0 == "0" or ex is False:
            J_.check(len(st) == 1, "stored", p, "an entry that is still alive is not restored" if not st else "an entry is restored twice", st[0] if st else None)
        for e in st:
            kp = lsub(rd[1].args[0], e.args[1])
            J_.check(same(e.args[2], klen) and kp is not None and kp[0] == 0 and {strip(x): v for x, v in kp[1].items()} == {strip(klen): 1},
                     "key", p, "the key restored is not the key saved", e)
            vp = lsub(rd[2].args[0], e.args[3])
            J_.check(same(e.args[4], vlen) and vp is not None and vp[0] == 0 and {strip(x): v for x, v in vp[1].items()} == {strip(vlen): 1},
                     "value", p, "the value restored is not the value saved", e)
            o = lambda m: optcell(prog, e, 5, "pogocache_store_opts", m)
            fl = o("flags")
            J_.check(fl is not None and strip(fl) is strip(flg) and not narrowed(fl, 32), "flags", p, "the flags restored are not the flags saved", e)
            J_.check(isnow(o("time")) if o("time") is not None else False, "time", p, "the entry is stored at a wrong time", e)
            tt, xp = o("ttl"), o("expires")
            if s0 == "0":
                J_.check((tt is None or sign(p, tt) == "0") and (xp is None or sign(p, xp) == "0"), "no-expiry", p, "an entry without expiry gets one", e)
            elif ex is False and tt is not None:
                # (stamp + ttl) - now
                d = linz(tt)
                good = d is not None and d[0] == 0 and any(isunix(x) and v == -1 for x, v in d[1].items())
                if good:
                    rest = {x: v for x, v in d[1].items() if not isunix(x)}
                    if len(rest) == 1 and list(rest)[0].k == "pure" and list(rest)[0].a[0] == "addclamp":
                        ops = {strip(x) for x in list(rest)[0].a[1]}
                    else:
                        ops = {strip(x) for x in rest}
                        if ttl in ops and p.range(ttl)[1] >= (1 << 63) - 1:
                            J_.check(False, "ttl-overflow", p, "the time of expiry of an entry with a long time to live overflows", e)
                    if all(x.k == "vread" for x in ops):
                        J_.check(ttl in ops and len(ops) == 2 and all(x is ttl or x not in out for x in ops), "ttl", p,
                                 "the time to live restored is not the time that was left", e)
                    else:
                        J_.check(False if any(isunix(x) for x in ops) else None, "ttl-base", p,
                                 "the time to live restored is not counted from the time of the save", e)
                else:
                    J_.check(False if d is not None and all(x.k in ("vread", "pure") or isunix(x) for x in d[1]) else None, "ttl", p,
                             "the time to live restored is not the time that was left", e)
            for m in ("keepttl", "nx", "xx", "casop"):
                v = o(m)
                if v is not None:
                    J_.check(truthv(p, v) is not True, m, p, "the restored entry is stored conditionally (%s)" % m, e)


def mkadd(a, b, s):
    return mkbin("add" if s > 0 else "sub", a, b)


def mentionsany(p, t):
    return any(x is t for f in p.facts if f is not t for x in walk(f))


def thload(prog, R):
    F = func(prog, "thload", "save.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, "queue")

    def via(A, m):
        """address is *ctx-><m>"""
        return A.k == "ld" and fieldof(prog, A.a[1]) == ("struct.loadctx", m)

    def val(p, m):
        r = None
        for t in p.facts:
            u = strip(t)
            if u.k == "ld" and via(u.a[1], m):
                r = p.range(t)
        return r
    for p in list(J_.paths) + list(J_.iters):
        isit = p in J_.iters
        seg = p.segment() if isit else p.ev
        h = 0 if not isit else 1
        for e in seg:
            if e.name in ("L", "X"):
                continue
            if e.name == "pthread_mutex_lock":
                h += 1
            elif e.name == "pthread_mutex_unlock":
                h -= 1
            elif e.name == "=" and via(e.args[0], "failure") or e.name == "=" and via(e.args[0], "nblocks"):
                J_.check(h == 1, "shared", p, "changes the shared queue without holding the lock", e)
            elif e.name == "pthread_cond_wait":
                J_.check(h == 1, "wait-locked", p, "waits without holding the lock", e)
        J_.check(h == (1 if isit else 0), "lock", p, "the lock is not balanced")
        for e in evs(p, "load_block", seg):
            after = seg[idx(seg, e):]
            setf = [x for x in after if x.name == "=" and via(x.args[0], "failure") and truthv(p, x.args[1])]
            bad = truthv(p, e.res)
            if bad is None:
                for t in p.facts:
                    if ldfield(t, prog) == ("struct.loadctx", "ok"):
                        bad = truthv(p, t)
            if bad is False:
                J_.check(bool(setf), "failure", p, "a block that could not be loaded is not reported to the reader", e)
            elif bad is None:
                J_.check(bool(setf), "failure-unseen", p, "does not look whether the block could be loaded", e)
        lb = evs(p, "load_block", seg)
        n, d, f = val(p, "nblocks"), val(p, "donereading"), val(p, "failure")
        if isit and not lb:
            w = evs(p, "pthread_cond_wait", seg)
            if w:
                J_.check((d is not None and d[:2] == (0, 0)) if d is not None else False, "wait-done", p, "may wait for ever after the reader has finished", w[0])
                J_.check((n is not None and n[1] <= 0) if n is not None else False, "wait-empty", p, "waits although there is a block to load", w[0])
        if isit and lb:
            dec = [e for e in seg if e.name == "=" and via(e.args[0], "nblocks")]
            if dec:
                x = linz(dec[0].args[1])
                J_.check(len(dec) == 1 and x is not None and x[0] == -1 and len(x[1]) == 1, "take", p, "does not take the block out of the queue", dec[0])
            else:
                J_.check(False, "take", p, "does not take the block out of the queue", lb[0])
            J_.check(len(lb) == 1, "load-once", p, "loads a block twice", lb[-1])
        if not isit:
            lastw = max([i for i, e in enumerate(p.ev) if e.name == "load_block"], default=-1)
            if lastw < 0 and not p.joined:
                ok = (f is not None and (0 in f[2] or f[0] > 0 or f[1] < 0)) or \
                    (n is not None and n[1] <= 0 and d is not None and (0 in d[2] or d[0] > 0 or d[1] < 0))
                J_.check(ok, "finish", p, "stops although there may be blocks left to load")


def cellof(p, A, n=None):
    e = p.st.mem.get(akey(A))
    return e[0] if e else None


def shared(J_, prog, mem):
    """the local whose address is handed to the loaders as ctx-><mem>"""
    for p in J_.iters + J_.paths:
        for e in stores(p, prog, "struct.loadctx", mem):
            if e.args[1].k == "al":
                return e.args[1]
    return None


def room(J_, p, e, cell):
    """a block is put into the queue only after it was seen not to be full"""
    A = e.args[0]
    if A.k != "idx" or len(A.a[1]) != 1 or A.a[0].k != "new" or cell is None or cell not in p.st.esc:
        return
    v, sz = A.a[1][0]
    v = strip(v)
    if v.k != "ld" or under(v.a[1]) is not cell:
        return
    cap = linz(A.a[0].a[1]) if isinstance(A.a[0].a[1], T) else None
    if cap is None:
        return
    ok = None
    if not cap[1]:
        lo, hi, ex = p.range(v)
        n = cap[0] // sz
        ok = hi < n or n in ex
    elif len(cap[1]) == 1 and cap[0] == 0:
        x = strip(next(iter(cap[1])))
        ok = False
        for pr, a, b, tv, t in cmpfacts(p):
            a, b = strip(a), strip(b)
            if pr == "eq" and tv is False and {a, b} == {x, v} or pr in ("slt", "ult") and a is v and b is x and tv is True:
                ok = True
            elif ok is False and (v in walk(t)) and not (pr in ("slt", "ult") and {a, b} == {x, v}):
                ok = None
    J_.check(ok, "queue-full", p, "puts a block into the queue although it may be full", e)


def load(prog, R):
    F = func(prog, "load", "save.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, "stream")
    thf = fval(prog, "loadctx", "th")
    fail, donerd = shared(J_, prog, "failure"), shared(J_, prog, "donereading")
    cells = shared(J_, prog, "nblocks")
    for p in J_.paths:
        op = call1(p, "open")
        r = sign(p, p.ret)
        if op is not None and fails(p, op.res) is True:
            J_.check(r not in ("0", None), "open", p, "reports success although the file could not be opened", op)
            continue
        rd = evs(p, "read")
        hd = [e for e in rd if same(e.args[2], C(16))]
        dt = [e for e in rd if not isc(e.args[2])]
        if r == "0":
            if hd:
                lo, hi, ex = p.range(hd[-1].res)
                if hi < 16:
                    J_.check(hi <= 0, "short-header", p, "a file that ends within a block's header is accepted", hd[-1])
                    J_.check(lo >= 0 or -1 in ex, "read-error", p, "a read error is taken for the end of the file", hd[-1])
                else:
                    J_.check(lo >= 16 or None if lo >= 16 else False, "short-header", p, "a block's header may be used although it was not read completely", hd[-1])
            for e in dt:
                if p.range(e.res)[1] <= 0:
                    J_.check(False, "short-data", p, "a file that ends within a block is accepted", e)
            for e in evs(p, "memcmp"):
                lo, hi, ex = p.range(e.res)
                if 0 in ex or lo > 0 or hi < 0:
                    J_.check(False, "tag", p, "a block without the POGO tag is accepted", e)
            for e in evs(p, "crc32"):
                v = [v for pr, a, b, v, t in cmpfacts(p) if pr == "eq" and mentions(t, lambda x: x is e.res)]
                J_.check(True in v, "checksum", p, "a block whose checksum does not match is accepted", e)
            if fail is not None:
                c = cellof(p, fail)
                fl = truthv(p, c) if c is not None else None
                if fl is None:
                    for t in p.facts:
                        u = strip(t)
                        if u.k == "ld" and under(u.a[1]) is fail:
                            fl = truthv(p, t)
                J_.check(fl is False, "failure", p, "reports success although a block could not be loaded")
        else:
            J_.check(r in ("-", "n", "+") or None, "report", p, "")
        if op is not None:
            J_.check(any(same(e.args[0], op.res) for e in evs(p, "close")), "close", p, "does not close the file")
        if donerd is not None:
            ds = [i for i, e in enumerate(p.ev) if e.name == "=L" and e.args[0] is donerd and truthv(p, e.args[1])]
            lk = [l for l in loops_of(p) if any(q.hdr == l[0] and evs(q, "pthread_join", q.segment()) for q in J_.iters)]
            if lk and donerd in p.st.esc:
                J_.check(bool(ds) and ds[-1] < lk[0][1], "done", p, "waits for the loaders without telling them that there is nothing more to come")
                # under the lock
                h = 0
                for i, e in enumerate(p.ev):
                    h += 1 if e.name == "pthread_mutex_lock" else -1 if e.name == "pthread_mutex_unlock" else 0
                    if ds and i == ds[-1]:
                        J_.check(h > 0, "done-locked", p, "tells the loaders that it is done without holding the lock (the wake-up can be lost)", e)
            if ds and lk:
                J_.check(any(ds[-1] < i for i, e in enumerate(p.ev) if e.name == "pthread_cond_broadcast") and
                         any(ds[-1] < i < lk[0][1] for i, e in enumerate(p.ev) if e.name in ("pthread_cond_broadcast",)), "wake", p,
                         "does not wake all loaders before waiting for them")
        lkn = [l for l in loops_of(p) if any(q.hdr == l[0] and evs(q, "pthread_join", q.segment()) for q in J_.iters)]
        J_.check(bool(lkn) or (None if not any(evs(q, "pthread_join") for q in J_.iters) else False), "joined", p, "returns while loaders may still be running")
    for p in J_.iters:
        seg = p.segment()
        mine = [a for a, b in p.phis.values() if a is not None]
        hd = [e for e in evs(p, "read", seg) if same(e.args[2], C(16))]
        dt = [e for e in evs(p, "read", seg) if not isc(e.args[2])]
        if hd and evs(p, "buf_ensure", seg):
            lo, hi, ex = p.range(hd[-1].res)
            J_.check(lo >= 16, "short-header", p, "a block's header may be used although it was not read completely", hd[-1])
            mc = evs(p, "memcmp", seg)
            J_.check(bool(mc) and p.range(mc[-1].res)[:2] == (0, 0), "tag", p, "a block without the POGO tag is accepted", hd[-1])
            q = evs(p, "memcpy", seg) + [e for e in seg if e.name == "=" and fieldof(prog, e.args[0]) and fieldof(prog, e.args[0])[0] == "struct.cblock"]
            if q:
                cr = evs(p, "crc32", seg)
                v = [v for e in cr for pr, a, b, v, t in cmpfacts(p) if pr == "eq" and mentions(t, lambda x: x is e.res)]
                J_.check(True in v, "checksum", p, "a block is handed on without its checksum having been verified", q[0])
                for e in q:
                    room(J_, p, e, cells)
                lens = evs(p, "buf_ensure", seg)
                for e in cr:
                    J_.check(same(e.args[1], lens[-1].args[1]), "checksum-length", p, "the checksum is not computed over the block's data", e)
                h = 0
                for e in seg:
                    h += 1 if e.name == "pthread_mutex_lock" else -1 if e.name == "pthread_mutex_unlock" else 0
                    if e in q:
                        J_.check(h == 1, "queue-locked", p, "puts a block into the queue without holding the lock", e)
        for e in dt:
            J_.check(p.range(e.res)[0] >= 1, "progress", p, "goes on reading after the file has ended", e)
            ph = [t for t in linz(e.args[1])[1] if t in mine] or [t for t in linz(e.args[2])[1] if t in mine]
            for (a, b) in p.phis.values():
                if a in ph:
                    J_.check(same2(lsub(b, a), e.res), "advance", p, "does not continue with the byte after the last one read", e)
                    ed = lsub_add(e.args[1], e.args[2])
                    J_.check(ed is None or steady(p, ed), "remaining", p, "reads more than the block holds", e)
        cr = evs(p, "pthread_create", seg)
        for e in cr:
            lo, hi, ex = p.range(e.res)
            if 0 in ex or lo > 0 or hi < 0:
                z = [s for s in stores(p, prog, "struct.loadctx", "th", seg) if same(s.args[1], ZERO)]
                J_.check(bool(z), "no-thread", p, "a loader that could not be started would be waited for", e)
                J_.check(any(b is not None and b is not a and lsub(b, a) != (1, {}) for a, b in p.phis.values() if a is not None), "no-thread-fail", p,
                         "a loader that could not be started is not remembered as a failure", e)
        for e in evs(p, "pthread_join", seg):
            th = [truthv(p, t) for t in p.facts if thf(strip(t)) and mentions(t, lambda x: x in mine)]
            J_.check(th[-1] if th else None, "join", p, "waits for a loader that does not exist", e)
        if any(evs(q, "pthread_join", q.segment()) for q in J_.iters if q.hdr == p.hdr) and not evs(p, "pthread_join", seg):
            th = [truthv(p, t) for t in p.facts if thf(strip(t)) and mentions(t, lambda x: x in mine)]
            J_.check((not th[-1]) if th and th[-1] is not None else None, "join-all", p, "a loader is not waited for")


# ---------------------------------------------------------------- start and stop
def gl(name):
    def f(t):
        return isglobal(t, name)
    return f


def persist0(t):
    """first byte of the configured file name"""
    t = strip(t)
    return t.k == "ld" and isglobal(t.a[1], "persist")


def factv(p, pred, first=False):
    """truth of the last (first) fact whose term satisfies pred"""
    r = None
    for t in p.facts:
        if pred(t):
            v = truthv(p, t)
            if v is not None:
                r = v
                if first:
                    break
    return r


def C15(prog, R, tier):
    EXPLAIN["C15"] = ("every path of the start-up callback, the termination thread, the signal handler and the SAVE/LOAD work and reply "
                      "functions: the server counts as loaded only after a complete load, saves on termination only when loaded, and reports the outcome")
    ACK = "start"
    F = func(prog, "listening", "main.c")
    if F is not None:
        J_ = J(prog, R, F, "start", mods=())
        for p in list(J_.paths) + list(J_.ends):
            seg = p.ev
            st = [e for e in seg if e.name == "=" and under(e.args[0]).k == "g" and under(e.args[0]).a[0].split(":")[-1] == "loaded"]
            on = any(truthv(p, e.args[1]) for e in st)
            ld = evs(p, "load")
            has_ = factv(p, persist0)
            ex = evs(p, "access")
            for e in ld:
                J_.check(isglobal(e.args[0], "persist"), "load-path", p, "does not load the configured file", e)
                lo, hi, xx = p.range(e.res)
                bad = True if 0 in xx or lo > 0 or hi < 0 else False if lo == hi == 0 else None
                if bad:
                    J_.check(not on, "load-failure", p, "starts serving although the saved data could not be loaded (the next save would overwrite it)", e)
                    J_.check(p.kind == "end", "load-failure-stop", p, "goes on after the saved data could not be loaded", e)
                elif bad is None and on:
                    J_.check(False, "load-unchecked", p, "does not look whether the saved data could be loaded", e)
            if p.kind == "end":
                x = p.ev[-1]
                if ld and isc(x.args[0]):
                    J_.check(x.args[0].a[0] != 0, "load-exit", p, "exits with success although the saved data could not be loaded", x)
                if ld:
                    J_.check(x.name in ("_Exit", "_exit", "abort"), "load-exit-kind", p, "runs exit handlers while other threads are active", x)
                continue
            if not ld and has_ is not False:
                a = [p.range(e.res) for e in ex]
                for e in ex:
                    J_.check(e.args[1].a[0] == 0 if isc(e.args[1]) else None, "absent", p, "takes a file it may not use for an absent one (it would be overwritten)", e)
                absent = any(0 in r[2] or r[1] < 0 or r[0] > 0 for r in a)
                J_.check(not on or absent, "load-skipped", p, "starts serving without loading the configured file")
            if not ld and has_ is False:
                J_.check(on, "no-persist", p, "never counts as loaded without a persistence file")
            if ld and not [1 for e in ld if p.range(e.res)[:2] != (0, 0)]:
                J_.check(on, "loaded", p, "never counts as loaded after a successful load (nothing would be saved at the end)", ld[-1])
            for e in evs(p, "cleanwork"):
                J_.check(truthv(p, e.res) is not False or not on, "cleanwork", p, "starts serving although the directory of the persistence file is unusable", e)
    # nothing else may declare the server loaded
    for M in prog.mods.values():
        for G in M.funcs.values():
            for I in G.insts():
                if I.op == "store" and I.a[1][0] == "g" and I.a[1][1].split(":")[-1] == "loaded" and G.name != "listening":
                    R.bad("start", "loaded|%s" % G.name, "%s:%s" % (G.file, I.line), "%s declares the data loaded" % G.name)
    F = func(prog, "sigtermticker", "main.c")
    if F is not None:
        J_ = J(prog, R, F, "stop")
        for p in J_.ends + J_.paths:
            sv = evs(p, "save")
            ldd, has_ = factv(p, gl("loaded")), factv(p, persist0)
            for e in sv:
                J_.check(ldd is True, "not-loaded", p, "saves although the data was not loaded (the saved data would be overwritten)", e)
                J_.check(isglobal(e.args[0], "persist"), "save-path", p, "does not save to the configured file", e)
                J_.check(has_ is not False, "no-file", p, "saves without a configured file", e)
            if not sv:
                J_.check(ldd is False or has_ is False, "unsaved", p, "stops without saving although data was loaded and a file is configured")
            J_.check(len(sv) <= 1, "twice", p, "saves twice")
            if p.kind == "end" and sv and isc(p.ev[-1].args[0]):
                x = p.ev[-1]
                lo, hi, xx = p.range(sv[-1].res)
                bad = True if 0 in xx or lo > 0 or hi < 0 else False if lo == hi == 0 else None
                if bad is not False:
                    J_.check(x.args[0].a[0] != 0, "exit-code", p, "exits with success although saving failed", x)
                else:
                    J_.check(x.args[0].a[0] == 0, "exit-ok", p, "exits with failure although saving succeeded", x)
            sg = factv(p, gl("sigexit"))
            J_.check(sg is not False, "asked", p, "stops without having been asked to")
        for p in J_.iters:
            sg = factv(p, gl("sigexit"))
            J_.check(sg is not True, "stop", p, "keeps running after having been asked to stop")
    # the handler
    F = func(prog, "sigterm", "main.c")
    SAFE = {"write", "_exit", "_Exit", "strlen", "sigprint", "kill", "raise"}
    if F is not None:
        R.analysed(F)
        seen, w = set(), [F]
        while w:
            G = w.pop()
            if G in seen:
                continue
            seen.add(G)
            for I in G.insts():
                if I.op == "call" and I.callee and I.callee[0] == "f":
                    n = I.callee[1]
                    if n.startswith("llvm.") or n.startswith("__asan"):
                        continue
                    H = prog.get(G.mod, n)
                    if H is not None:
                        w.append(H)
                    else:
                        R.check(n in SAFE, "signal", "%s|%s" % (G.name, n), "%s:%s" % (G.file, I.line),
                                "the signal handler calls %s, which must not be called from one" % n)
        J_ = J(prog, R, F, "signal")
        for p in J_.paths:
            st = [e for e in p.ev if e.name == "=" and under(e.args[0]).k == "g" and under(e.args[0]).a[0].split(":")[-1] == "sigexit"]
            rg = p.range(psim_param(0))
            if rg[0] == rg[1] and rg[0] in (2, 15):
                J_.check(bool(st) and truthv(p, st[-1].args[1]), "request", p, "a termination signal is ignored")
    # signals are routed
    F = func(prog, "main", "main.c")
    if F is not None:
        R.analysed(F)
        sigs = {}
        names_ = set()
        for I in F.insts():
            if I.op == "call" and I.callee and I.callee[0] == "f":
                names_.add(I.callee[1])
                if I.callee[1] == "signal" and len(I.a) == 2 and I.a[0][0] == "c":
                    h = I.a[1]
                    sigs[I.a[0][1]] = h[1] if h[0] == "f" else h[1] if h[0] == "c" else h[0]
        if sigs:
            for n, nm in ((15, "SIGTERM"), (2, "SIGINT")):
                R.check(str(sigs.get(n)).split(":")[-1] == "sigterm", "signal", "main|%s" % nm, "src/main.c:main", "%s does not lead to a save" % nm)
            R.check(sigs.get(13) not in (None, 0, "null"), "signal", "main|SIGPIPE", "src/main.c:main", "a client that disconnects would end the server (SIGPIPE)")
    cleanwork(prog, R)
    saveload(prog, R)


def evalat(t, x, n):
    """value of a term when x is n, or None"""
    if strip(t) is strip(x) and t.k != "c":
        return n
    if isc(t):
        return t.a[0]
    if t.k == "cast":
        return evalat(t.a[1], x, n)
    if t.k == "not":
        v = evalat(t.a[0], x, n)
        return None if v is None else int(not v)
    if t.k == "cmp":
        a, b = evalat(t.a[1], x, n), evalat(t.a[2], x, n)
        if a is None or b is None:
            return None
        if t.a[0] == "ult":
            a, b = a & (1 << 64) - 1, b & (1 << 64) - 1
        return int(a == b if t.a[0] == "eq" else a < b)
    if t.k == "bin":
        a, b = evalat(t.a[1], x, n), evalat(t.a[2], x, n)
        if a is None or b is None:
            return None
        r = mkbin(t.a[0], C(a), C(b))
        return r.a[0] if isc(r) else None
    return None


def iserrno(t):
    return t.k == "ld" and any(isinstance(a, T) and "__errno_location" in show(a) for a in t.a)


def cleanwork(prog, R):
    F = func(prog, "cleanwork", "save.c")
    if F is None:
        return
    J_ = J(prog, R, F, "work files")
    ext = ".pogocache.work"
    isext = lambda t: t.k == "g" and prog.string(t.a[0]) == ext
    name = lambda t: mentions(t, lambda x: ldfield(x, prog) == ("struct.dirent", "d_name") or x.k == "off" and False) or "d_name" in show(t)
    for p in J_.iters + J_.paths:
        for u in evs(p, "unlink") + evs(p, "unlinkat") + evs(p, "remove"):
            ok = None
            seen = False
            for e in p.ev:
                if e.name in ("strcmp", "strncmp", "memcmp") and any(isext(a) for a in e.args[:2]):
                    o = e.args[1] if isext(e.args[0]) else e.args[0]
                    seen = True
                    if name(o) and p.range(e.res)[:2] == (0, 0):
                        # the compared part ends where the name ends
                        d = linz(o)
                        n = e.name == "strcmp" or isc(e.args[2]) and e.args[2].a[0] >= len(ext)
                        if d and n:
                            st = [v for x, v in d[1].items() if x.k == "pure" and x.a[0] == "strlen"]
                            ok = True if e.name == "strcmp" or st == [1] else None
                elif e.name == "strstr" and len(e.args) > 1 and isext(e.args[1]) and name(e.args[0]):
                    seen = True
                    if ok is None:
                        ok = False
            if not seen and not any(e.name == "*indirect*" or prog_fn(prog, e.name) for e in p.ev):
                ok = False
            J_.check(ok, "only-work", p, "removes a file that is not a work file", u)
            for e in evs(p, "snprintf"):
                if same(e.args[0], u.args[0] if u.name != "unlinkat" else u.args[1]) and e.args[2].k == "g" and prog.string(e.args[2].a[0]) == "%s/%s":
                    d = linz(e.args[1])
                    st = {x: v for x, v in d[1].items()} if d else {}
                    if d and len(st) == 2 and all(x.k == "pure" and x.a[0] == "strlen" and v == 1 for x, v in st.items()):
                        J_.check(d[0] >= 2, "whole-name", p, "the name of the file removed is cut off", e)


def prog_fn(prog, n):
    return any(n in M.funcs for M in prog.mods.values())


def saveload(prog, R):
    F = func(prog, "bgsaveloadwork", "cmds.c")
    C_ = "struct.bgsaveloadctx"
    fv = lambda p, m: factv(p, lambda t: ldfield(t, prog) == (C_, m))
    if F is not None:
        J_ = J(prog, R, F, "command")
        for p in J_.paths:
            s, l = evs(p, "save"), evs(p, "load")
            w = factv(p, lambda t: ldfield(t, prog) == (C_, "load"), True)
            ops = s + l
            J_.check(len(ops) == 1, "one", p, "performs %d operations" % len(ops))
            for e in ops:
                if w is not None:
                    J_.check((e.name == "load") == w, "which", p, "performs the wrong one of SAVE and LOAD", e)
                J_.check(ldfield(e.args[0], prog) == (C_, "path"), "path", p, "does not use the path given", e)
                J_.check(ldfield(e.args[1], prog) == (C_, "fast") or None, "fast", p, "", e)
                o = [x for x in stores(p, prog, C_, "ok")]
                if o:
                    v = strip(o[-1].args[1])
                    good = None
                    if isc(v):
                        lo, hi, xx = p.range(e.res)
                        z = True if lo == hi == 0 else False if (0 in xx or lo > 0 or hi < 0) else None
                        good = (z == (v.a[0] != 0)) if z is not None else (False if v.a[0] else None)
                    else:
                        y, n = evalat(v, e.res, 0), evalat(v, e.res, -1)
                        if y is not None and n is not None:
                            good = y != 0 and n == 0
                        ls = [x for x in walk(v) if x.k in ("ld", "call", "phi", "p", "res")]
                        if y is None and n is None and e.res not in walk(v) and ls and any(x.k == "ld" for x in ls) \
                                and all(iserrno(x) or any(x is not z and iserrno(z) and x in walk(z) for z in ls) for x in ls):
                            good = False
                    J_.check(good, "outcome", p, "the outcome noted is not the outcome of the operation", o[-1])
                else:
                    J_.check(False if fv(p, "ok") is None else None, "outcome", p, "the outcome is not noted", e)
    F = func(prog, "bgsaveloaddone", "cmds.c")
    if F is not None:
        J_ = J(prog, R, F, "command", mods=())
        for p in J_.paths:
            ok = fv(p, "ok")
            err = [e for e in p.ev if e.name == "conn_write_error"]
            good = [e for e in p.ev if e.name in ("pg_write_completef", "pg_write_complete", "conn_write_raw_cstr", "conn_write_string")]
            if ok is True:
                J_.check(not err and bool(good), "report-ok", p, "a successful operation is reported as failed")
            elif ok is False:
                J_.check(bool(err) and not good, "report-failure", p, "a failed operation is reported as successful")
            else:
                J_.check(False if err or good else None, "report", p, "the reply does not depend on the outcome")
            fr = evs(p, "xfree")
            J_.check(len(fr) == 2 and any(ldfield(e.args[0], prog) == (C_, "path") for e in fr) and any(e.args[0].k == "p" for e in fr) or (None if len(fr) > 2 else False),
                     "freed", p, "the request is not released exactly once")
    F = func(prog, "cmdSAVELOAD", "cmds.c")
    if F is not None:
        J_ = J(prog, R, F, "command")
        for p in J_.paths:
            bg = evs(p, "conn_bgwork")
            for e in bg:
                w, d = e.args[1], e.args[2]
                J_.check(w.k == "f" and w.a[0].split(":")[-1] == "bgsaveloadwork" and d.k == "f" and d.a[0].split(":")[-1] == "bgsaveloaddone" if w.k == "f" and d.k == "f" else None,
                         "work", p, "starts something else", e)
                ld = [x for x in stores(p, prog, C_, "load")]
                if ld:
                    v = strip(ld[-1].args[1])
                    cmd = [p.truth(t) if t.k in ("cmp", "not") else truthv(p, t) for t in p.facts if t.k == "argeq" and t.a[2] == "load" and isc(t.a[1]) and t.a[1].a[0] == 0]
                    if isc(v) and cmd:
                        J_.check(bool(v.a[0]) == cmd[-1], "which", p, "SAVE and LOAD are mixed up", ld[-1])
                ok = truthv(p, e.res)
                fr = evs(p, "xfree")
                er = evs(p, "conn_write_error")
                if ok is False:
                    J_.check(len(fr) == 2 and len(er) == 1, "not-started", p, "work that could not be started is not reported or not released", e)
                elif ok is True:
                    J_.check(not fr and not er, "started", p, "the request is released or answered while the work is under way", e)
                # path is terminated where it ends
                cp = [x for x in p.ev if x.name == "memcpy" and x.args[0].k == "new"]
                for x in cp:
                    z = [y for y in p.ev if y.name == "=" and same(y.args[1], ZERO) and lsub(y.args[0], x.args[0]) is not None and
                         lsub(y.args[0], x.args[0]) == linz(x.args[2])]
                    J_.check(bool(z), "terminated", p, "the path is not terminated where it ends", x)
                    al = x.args[0]
                    d = lsub(al.a[1], x.args[2]) if len(al.a) > 1 and isinstance(al.a[1], T) else None
                    if d is not None and not d[1]:
                        J_.check(d[0] >= 1, "room", p, "the copy of the path is too small", x)
            if not bg:
                J_.check(any(e.name in ("conn_write_error",) for e in p.ev), "error", p, "neither works nor answers")
