"""C21: a command name selects exactly its own command."""
from gensim import *
from semlib import under
from p_sem import ASSUME

EXPLAIN = {}
TABLE = "every documented name belongs to its command"
TEXT = "names and option words are compared over their whole length, in either case"
LOOK = "the lookup finds a command exactly when the name is one"
EXEC = "the command named is carried out once, an unknown one is answered with an error"

ROWS = {
    "set": "cmdSET", "get": "cmdGET", "del": "cmdDEL", "mget": "cmdMGET", "mgets": "cmdMGET", "ttl": "cmdTTL", "pttl": "cmdTTL",
    "expire": "cmdEXPIRE", "setex": "cmdSETEX", "dbsize": "cmdDBSIZE", "quit": "cmdQUIT", "echo": "cmdECHO", "exists": "cmdEXISTS",
    "flushdb": "cmdFLUSHALL", "flushall": "cmdFLUSHALL", "flush": "cmdFLUSHALL", "monitor": "cmdMONITOR", "purge": "cmdPURGE",
    "sweep": "cmdSWEEP", "keys": "cmdKEYS", "select": "cmdSELECT", "ping": "cmdPING", "touch": "cmdTOUCH", "debug": "cmdDEBUG",
    "incrby": "cmdINCRBY", "decrby": "cmdDECRBY", "incr": "cmdINCR", "decr": "cmdDECR", "uincrby": "cmdINCRBY", "udecrby": "cmdDECRBY",
    "uincr": "cmdINCR", "udecr": "cmdDECR", "append": "cmdAPPEND", "prepend": "cmdPREPEND", "auth": "cmdAUTH", "save": "cmdSAVELOAD",
    "load": "cmdSAVELOAD", "stats": "cmdSTATS", "version": "cmdVERSION", "scan": "cmdSCAN",
}


def C21(prog, R, tier):
    EXPLAIN["C21"] = ("the rows of the command table; every comparison of an argument with a word; every path of the comparison functions, of the lookup, of the "
                      "construction of its hash table and of evcommand")
    table(prog, R)
    words(prog, R)
    for n in ("argeq_bytes", "args_eq"):
        F = func(prog, n)
        if F is not None:
            compare(prog, R, F)
    lookup(prog, R)
    build(prog, R)
    execute(prog, R)


def table(prog, R):
    rows = command_table(prog)
    known = set(ROWS.values())
    by = {}
    for n, H in rows:
        R.analysed(H)
        if n in by and by[n] is not H:
            R.bad(TABLE, "twice|" + n, H.file, "the name %s belongs to two commands" % n)
        by.setdefault(n, H)
        if n != n.lower():
            R.bad(TABLE, "case|" + n, H.file, "the name %s can never match: requests are compared in lower case" % n)
    for n, h in ROWS.items():
        H = by.get(n)
        if H is None:
            R.bad(TABLE, n, "cmds.c", "the command %s is not in the table" % n.upper())
        elif H.name == h:
            R.ok(TABLE, n)
        elif H.name in known:
            R.bad(TABLE, n, "%s:%s" % (H.file, H.line), "%s runs %s instead of %s" % (n.upper(), H.name, h))
        else:
            R.unknown += 1


def words(prog, R):
    for M in prog.mods.values():
        for F in M.funcs.values():
            for I in F.insts():
                if I.op != "call" or len(I.a) < 3:
                    continue
                if (I.callee or (0, 0))[0] != "f" or I.callee[1] not in ("argeq", "argeq_bytes"):
                    continue
                s = literal(prog, F, I.a[2])
                if s is None:
                    continue
                if s == s.lower():
                    R.ok(TEXT, "%s '%s'" % (F.name, s))
                else:
                    R.bad(TEXT, "%s|%s" % (F.name, s), "%s:%s" % (F.file, I.line), "%s: the word '%s' can never match, arguments are compared in lower case" % (F.name, s))


def literal(prog, F, o):
    try:
        if o[0] == "g":
            return prog.string(prog.gname(F.mod, o[1]))
    except Exception:
        pass
    return None


# -- the comparison
def compare(prog, R, F):
    J_ = J(prog, R, F, TEXT)
    n = 0
    for p in J_.paths:
        r = p.ret
        if r is None:
            continue
        v = strip(r)
        if isc(v) and v.a[0] == 0:
            # refused for a reason
            why = [1 for pr, a, b, t, _ in cmpfacts(p) if pr == "eq" and t is False or pr in ("ult", "slt")]
            why += [1 for t in p.facts if t.k in ("ld", "phi") and p.range(t)[:2] != (0, 0) or t.k in ("phi", "call") and p.range(t)[:2] == (0, 0)]
            J_.check(True if why else None, "refused", p, "")
            continue
        n += 1
        held = [(x, p.truth(x)) for x in p.facts if x.k == "cmp"] + [(y, True) for y in conj(v)]
        held += [(x, None) for x in p.facts if x.k in ("ld",) and p.range(x)[:2] == (0, 0)]
        J_.check(True if any(textend(x, t) for x, t in held) else False, "length", p, "accepts a name that goes on after the word")
        J_.check(True if any(wordend(x, t) for x, t in held) else False, "word", p, "accepts a name that is only the beginning of the word")
    seen = False
    hd = {p.hdr for p in J_.iters if comparison(p) is not None}
    for p in J_.iters:
        pair = comparison(p)
        if pair is None:
            J_.check(False if p.hdr in hd else None, "every", p, "does not look at every byte")
            continue
        seen = True
        a, b = pair
        low = [lowered(x) for x in pair]
        J_.check(True if any(low) else False, "case", p, "compares the bytes without regard to case only by chance")
        # the comparison decides: going on means the bytes are equal
        t = [p.truth(x) for x in p.facts if x.k == "cmp" and x.a[0] == "eq" and {x.a[1], x.a[2]} == {a, b}]
        flag = any(new is not None and any(x.k == "cmp" and {x.a[1], x.a[2]} == {a, b} for x in walk(new)) for old, new in p.phis.values())
        J_.check(True if True in t or flag else False if False in t else None, "decides", p, "goes on after bytes that differ")
        # the flag is asked before the next byte, or before the answer
        if flag:
            ph = [i for i, (old, new) in p.phis.items() if new is not None and any(x.k == "cmp" and {x.a[1], x.a[2]} == {a, b} for x in walk(new))]
            on = any(x.k == "phi" and x.a[0] in ph and (0 in p.range(x)[2] or p.range(x)[0] > 0) for x in p.facts)
            J_.check(True if on else False if all(strip(p.phis[i][1]).k in ("cmp", "not") for i in ph) else None, "kept", p, "goes on after bytes that differ")
            for q in J_.paths:
                v = strip(q.ret) if q.ret is not None else ZERO
                if isc(v) and v.a[0] == 0:
                    continue
                ok = any(x.k == "phi" and x.a[0] in ph and (0 in q.range(x)[2] or q.range(x)[0] > 0) for x in q.facts) \
                    or any(y.k == "phi" and y.a[0] in ph for y in walk(v))
                J_.check(True if ok else None if q.joined else False, "asked", q, "accepts a name although a byte differs")
        # both cursors move on by one
        mv = [lsub(new, old) for old, new in p.phis.values() if old is not None and new is not None]
        mv = [d[0] for d in mv if d is not None and not d[1]]
        J_.check(True if mv and all(x == 1 for x in mv) else None if not mv else False, "step", p, "does not look at every byte")
    R.unknown += not seen
    R.unknown += not n


def conj(v):
    """the parts of a conjunction"""
    out, todo = [], [v]
    while todo:
        x = strip(todo.pop())
        if x.k == "bin" and x.a[0] == "and":
            todo += [x.a[1], x.a[2]]
        elif x.k == "not":
            todo.append(x.a[0])
        else:
            out.append(x)
    return out


def deref(x):
    x = strip(x)
    return x.a[1] if x.k == "ld" else None


def isword(a):
    """address inside the word (a plain C string parameter, the last one)"""
    return a is not None


def textend(x, t):
    """does the fact say that the text ends here?"""
    if x.k != "cmp":
        return False
    a, b = strip(x.a[1]), strip(x.a[2])
    if isc(a) or isc(b):
        return False
    if x.a[0] == "eq" and t is not False:
        # cursor == data + len, or strlen(word) == len
        if "strlen" in (nm(a), nm(b)):
            return True
        return not (islow(a) or islow(b))
    if x.a[0] in ("ult", "slt") and t is False and any(y.k == "phi" for y in walk(a)) and not any(nm(y) == "strlen" for y in walk(b)):
        # no more bytes
        return True
    return False


def wordend(x, t):
    if x.k == "ld":
        return True     # the byte under the cursor is zero
    if x.k != "cmp":
        return False
    a, b = strip(x.a[1]), strip(x.a[2])
    if x.a[0] == "eq" and t is not False:
        if "strlen" in (nm(a), nm(b)):
            return True
        if isc(b) and b.a[0] == 0 and a.k == "ld":
            return True
    if x.a[0] in ("ult", "slt") and t is False and "strlen" in (nm(a), nm(b)):
        return True
    return False


def nm(t):
    return t.a[1] if t.k == "call" and len(t.a) > 1 else t.a[0] if t.k == "pure" else None


def islow(t):
    return any(nm(x) in ("tolower", "toupper") for x in walk(t)) or any(x.k == "ld" for x in walk(t))


def lowered(t):
    return any(nm(x) in ("tolower", "toupper") for x in walk(t))


def comparison(p):
    """the two bytes compared in this iteration"""
    cands = [x for x in p.facts if x.k == "cmp"]
    for old, new in p.phis.values():
        if new is not None:
            cands += [x for x in walk(new) if x.k == "cmp"]
    for x in cands:
        if x.a[0] == "eq" and not isc(strip(x.a[1])) and not isc(strip(x.a[2])) and islow(x.a[1]) and islow(x.a[2]):
            return x.a[1], x.a[2]
    return None


# -- the lookup
def lookup(prog, R):
    F = func(prog, "get_cmd", "cmds.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, LOOK, keep=("argeq_bytes", "build_commands_table"))
    data, n = mk("p", 0), mk("p", 1)
    for p in J_.paths:
        v = strip(p.ret)
        eqs = [e for e in p.ev if e.name in ("argeq_bytes", "args_eq", "argeq")]
        if isc(v) and v.a[0] == 0:
            # only because the slot is free, or nothing is left to look at
            free = [t for t in p.facts if t.k == "ld" and fname(prog, t) == "name" and p.range(t)[:2] == (0, 0)]
            J_.check(True if free else None, "absent", p, "")
            match = [t for t in p.facts if t.k == "call" and t.a[1] == "argeq_bytes" and p.range(t)[:2] != (0, 0) and 0 in p.range(t)[2]]
            J_.check(not match, "found", p, "answers 'no such command' after finding it")
            continue
        for h in [e for e in p.ev if e.name == "fnv1a_case"]:
            hashargs(J_, p, h, data, n)
        if not eqs:
            J_.check(False, "asked", p, "returns a command whose name was not compared")
            continue
        e = eqs[-1]
        J_.check(same(e.args[0], data) if len(e.args) > 2 else None, "text", p, "compares another text than the name given", e)
        J_.check(same(e.args[1], n) if len(e.args) > 2 else None, "all", p, "does not compare the whole name given", e)
        t = [x for x in p.facts if x.k == "call" and x.a[0] == e.I.id]
        J_.check(True if any(0 in p.range(x)[2] or p.range(x)[0] > 0 for x in t) else False if any(p.range(x)[:2] == (0, 0) for x in t) else None,
                 "equal", p, "returns a command whose name differs", e)
        w = strip(e.args[2]) if len(e.args) > 2 else None
        if w is not None and w.k == "ld":
            J_.check(True if same(w.a[1], v) else None if not same(under(w.a[1]), under(v)) else False, "same", p, "returns another slot than the one compared", e)
    for p in J_.iters:
        for old, new in p.phis.values():
            d = lsub(new, old) if old is not None and new is not None else None
            if d is not None and not d[1]:
                J_.check(d[0] in (1, 16), "next", p, "skips slots of the table")


def hashargs(J_, p, h, data, n):
    J_.check(same(h.args[0], data), "hash", p, "looks under the hash of something else than the name", h)
    J_.check(same(h.args[1], n), "hashlen", p, "looks under the hash of %s bytes of the name" % show(h.args[1]), h)


def fname(prog, t):
    f = fieldof(prog, t.a[1])
    return f[1] if f else None


def build(prog, R):
    F = func(prog, "build_commands_table", "cmds.c")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, LOOK)
    total = len(command_table(prog))
    for p in J_.paths:
        ns = names(p)
        if not any(n == "pthread_mutex_lock" for n in ns):
            continue
        # nothing shared is touched outside the lock
        held = False
        for e in p.ev:
            if e.name == "pthread_mutex_lock":
                held = True
            elif e.name == "pthread_mutex_unlock":
                held = False
            elif e.name == "=" and under(e.args[0]).k == "g" and not held:
                J_.check(False, "locked", p, "changes the shared table without the lock", e)
        J_.check(not held, "unlock", p, "leaves the table locked")
        # every row was entered: the loop over the rows ended because all of them were
        outs = [e for e in p.ev if e.name == "X"]
        for pr, a, b, v, t in cmpfacts(p):
            pass
        new = [e for e in p.ev if e.name in ("xmalloc", "xcalloc")]
        if new:
            rng = [p.range(t) for t in p.facts if t.k == "phi"]
            bound = [r for r in rng if total <= r[0]]
            low = [r for r in rng if 1 < r[0] < total]
            nb = [p.range(t) for t in p.facts if t.k == "ld" and gl(t.a[1]) == "nbuckets"]
            J_.check(True if any(r[0] > total for r in nb) else False if any(1 < r[0] for r in nb) else None, "room", p,
                     "makes a table without a free slot to end a search")
            J_.check(True if bound else False if low else None, "rows", p, "enters only the first %s of %d commands" % (low[0][0] if low else "", total))
    H = func(prog, "fnv1a_case")
    if H is not None:
        K = J(prog, R, H, LOOK)
        for p in K.iters:
            by = [x for old, new in p.phis.values() if new is not None for x in walk(new)]
            K.check(True if any(nm(x) in ("tolower", "toupper") for x in by) else False if any(x.k == "ld" for x in by) else None, "case", p,
                    "a name in upper case is looked for in another place than it was entered")
    for p in J_.iters:
        seg = p.segment()
        for h in [e for e in seg if e.name == "fnv1a_case"]:
            a, b = h.args[0], strip(h.args[1])
            J_.check(True if nm(b) == "strlen" and any(same(a, x) for x in b.a[-1] if isinstance(x, T)) else False if isc(b) or b.k == "bin" else None,
                     "hash", p, "enters a name under the hash of %s bytes of it" % show(b), h)
        cp = [e for e in seg if e.name == "memcpy" or e.name == "=" and any(x.k == "ld" and gl(x.a[1]) == "buckets" for x in walk(e.args[0]))]
        for e in cp:
            slot = e.args[0]
            free = [t for t in p.facts if t.k == "ld" and fname(prog, t) == "name" and p.range(t)[:2] == (0, 0) and same(under(t.a[1]), under(slot))]
            J_.check(True if free else None, "free", p, "", e)
        # nothing is entered where a name already is
        busy = [t for t in p.facts if t.k == "ld" and fname(prog, t) == "name" and (0 in p.range(t)[2] or p.range(t)[0] > 0)]
        for e in cp:
            if busy and any(same(t.a[1], e.args[0]) for t in busy):
                J_.check(False, "busy", p, "overwrites the command already there", e)


def gl(a):
    a = under(a)
    return a.a[0].split(":")[-1] if a.k == "g" else None


# -- carrying out
def execute(prog, R):
    F = func(prog, "evcommand")
    if F is None:
        R.unknown += 1
        return
    J_ = J(prog, R, F, EXEC, keep=("get_cmd", "monitor_cmd", "cmdAUTH"))
    conn, args = mk("p", 0), mk("p", 1)
    for p in J_.paths:
        look = [e for e in p.ev if e.name == "get_cmd"]
        run = [e for e in p.ev if e.name == "*indirect*"]
        err = [e for e in p.ev if e.name and e.name.startswith("conn_write_error")]
        auth = [e for e in p.ev if e.name == "cmdAUTH"]
        if not look:
            J_.check(True if auth else None, "refused", p, "")
            J_.check(not run, "unasked", p, "runs a command without looking it up")
            continue
        e = look[0]
        a0 = strip(e.args[0])
        J_.check(True if a0.k == "ld" and argfield(prog, a0) == ("data", 0) else None if a0.k != "ld" or argfield(prog, a0) is None else False,
                 "name", p, "looks up something else than the first argument", e)
        a1 = strip(e.args[1])
        J_.check(True if a1.k == "ld" and argfield(prog, a1) == ("len", 0) else False if isc(a1) or a1.k == "bin" or argfield(prog, a1) is not None else None,
                 "length", p, "looks up %s bytes of the name" % show(a1), e)
        found = None
        for t in p.facts:
            if t.k == "call" and t.a[1] == "get_cmd":
                lo, hi, ex = p.range(t)
                found = False if lo == hi == 0 else True if 0 in ex or lo > 0 else found
        if found is True:
            J_.check(len(run) == 1, "once", p, "runs the command %s" % ("twice" if run else "not at all"), run[-1] if run else None)
            J_.check(not err, "noerror", p, "answers an error for a known command", err[0] if err else None)
            for r in run[:1]:
                fp = strip(r.args[0])
                J_.check(True if fp.k == "ld" and any(x.k == "call" and x.a[1] == "get_cmd" for x in walk(fp)) else None, "func", p, "", r)
                J_.check(same(r.args[1], conn) and same(r.args[2], args) if len(r.args) > 2 else None, "args", p, "runs the command with other arguments", r)
                mon = [m for m in p.ev if m.name == "monitor_cmd"]
                J_.check(True if mon and p.ev.index(mon[0]) < p.ev.index(r) else False, "monitor", p, "does not show the command to the monitors first", r)
                if mon:
                    J_.check(len(mon) == 1, "monitor1", p, "shows the command to the monitors twice", mon[-1])
                    J_.check(same(mon[0].args[-1], args), "monitorargs", p, "shows the monitors something else than the command", mon[0])
        elif found is False:
            J_.check(not run, "unknown", p, "runs something for an unknown command", run[0] if run else None)
            J_.check(len(err) == 1, "error", p, "answers an unknown command %s" % ("twice" if err else "not at all"), err[-1] if err else None)
            if err:
                J_.check(same(err[0].args[0], conn), "to", p, "answers someone else", err[0])
        else:
            R.unknown += 1


def argfield(prog, t):
    """(field, index) of args->bufs[index].field"""
    import p_args
    t = strip(t)
    if t.k != "ld":
        return None
    r = p_args.element(prog, t.a[1])
    if r is None or not isc(strip(r[1])):
        return None
    return r[2], strip(r[1]).a[0]
