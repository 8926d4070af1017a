"""C29: what is answered has the form of the client's protocol."""
import re
import ir
from gensim import *
from semlib import isnow, iscall, isglobal, sign, under
from p_sem import ASSUME
from p_save import evs, call1, idx, truthv, mentions, loops_of, fval, lsub_add
from p_frame import res, zero, nonzero
from p_net import outterm
from outsim import output, bufoutput, inraw, ladd, lneg
from replies import text

FORM = "values are written in the form of the client's protocol"
ERRF = "an error is answered in the form of the client's protocol"
EXPLAIN = {
    "C29": "every path through the functions that write a value, a number, a line, an array header or an error to a client: what the path puts into the output buffer is put together from "
           "the bytes, copies and number conversions at their places in the buffer, and compared with the form of the protocol",
}
INL = ("writeln", "conn_write_raw", "conn_write_raw_cstr", "conn_write_http")
P0, P1, P2, P3 = (mk("p", i) for i in range(4))
CRLF = ("lit", b"\r\n")


def C29(prog, R, tier):
    values(prog, R)
    line(prog, R)
    http(prog, R)
    errors(prog, R)
    digits(prog, R)


# ---------------------------------------------------------------- forms
def expand(items):
    """formatted text as literals, numbers and strings; None if a conversion is not known"""
    out = []

    def put(x):
        if x[0] == "lit":
            b = x[1] if isinstance(x[1], bytes) else x[1].encode("latin1")
            if not b:
                return
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + b)
            else:
                out.append(("lit", b))
        else:
            out.append(x)
    for i in items:
        if i[0] == "lit":
            put(("lit", i[1]))
        elif i[0] == "fmt":
            a = list(i[2])
            for c in re.split(r"(%[-+ #0]*[0-9]*(?:\.[0-9]+)?(?:hh|h|ll|l|z|j)?[a-zA-Z%])", i[1]):
                if not c:
                    continue
                if c[0] != "%":
                    put(("lit", c))
                elif c == "%%":
                    put(("lit", "%"))
                elif not a:
                    return None
                elif c == "%s":
                    t = text(strip(a[0]))
                    put(("lit", t) if t is not None else ("cs", a[0]))
                    a.pop(0)
                elif c in ("%d", "%i", "%u", "%zu", "%zd", "%ld", "%lu", "%llu", "%lld"):
                    put(("dec", a.pop(0), "i64toa" if c[-1] in "di" else "u64toa"))
                elif c == "%c":
                    put(("byte", a.pop(0)))
                else:
                    return None
        elif i[0] == "s":
            n = strip(i[2])
            if n.k == "pure" and n.a[0] == "strlen" and strip(n.a[1][0]) is strip(i[1]):
                put(("cs", i[1]))
            elif isc(n) and n.a[0] == 0:
                pass
            else:
                put(i)
        else:
            put(i)
    return out


def closed(t):
    """made of parameters, constants and fields alone"""
    return all(x.k not in ("call", "phi", "ssa", "vread", "al", "new") for x in walk(t))


def agree(p, i, t):
    """does item i have the form t: True, False, None"""
    if t[0] == "lit":
        if i[0] == "lit":
            return i[1] == t[1]
        return False if i[0] in ("dec", "cs", "s") else None
    if t[0] == "dec":
        if i[0] == "dec":
            if same(i[1], t[1]):
                return True if len(t) < 3 or i[2] == t[2] or nonneg(p, i[1]) else False
            return False if closed(i[1]) else None
        return False if i[0] == "lit" else None
    if t[0] == "cs":
        if i[0] == "cs":
            return True if same(i[1], t[1]) else False if closed(i[1]) else None
        if i[0] == "s":
            return None
        return False if i[0] in ("lit", "dec") else None
    if t[0] == "s":
        if i[0] == "s":
            if not same(i[1], t[1]):
                return False if closed(i[1]) else None
            if same(i[2], t[2]):
                return True
            return False if closed(i[2]) else None
        return False if i[0] in ("lit", "dec", "cs") else None
    if t[0] == "byte":
        if i[0] == "byte":
            return True if same(i[1], t[1]) else False if closed(i[1]) else None
        return None
    return None


def nonneg(p, v):
    r = p.range(v)
    return r[0] >= 0


def match(p, items, tmpl):
    """all items have the form of the template: True, False (certainly not), None"""
    if items is None:
        return None
    un = [i for i in items if i[0] not in ("lit", "dec", "cs", "s", "byte")]
    if len(items) != len(tmpl):
        return None if un else False
    r = True
    for i, t in zip(items, tmpl):
        a = agree(p, i, t)
        if a is False and not un:
            return False
        if not a:
            r = None
    return r


def show1(items):
    o = []
    for i in items or ():
        o.append(repr(i[1])[2:-1] if i[0] == "lit" else {"dec": "<number>", "cs": "<text>", "s": "<bytes>", "byte": "<byte>"}.get(i[0], "<...>"))
    return " ".join(o)[:80]


def getf(prog, n, f):
    return (prog.mods.get(f) and prog.mods[f].funcs.get(n)) or next((F for F in prog.funcs() if F.name == n), None)


def protos(prog, p):
    """the protocols a path may be for"""
    s = set(range(0, 5))
    seen = False
    for t in p.facts:
        if ldfield(t, prog) == ("struct.conn", "proto"):
            a = p.range(t)
            s &= set(range(max(a[0], 0), min(a[1], 4) + 1))
            seen = True
        elif t.k == "cmp" and t.a[0] in ("eq", "ne") and p.truth(t) is not None:
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if ldfield(x, prog) == ("struct.conn", "proto") and isc(strip(y)):
                    if (t.a[0] == "eq") == p.truth(t):
                        s &= {strip(y).a[0]}
                    else:
                        s -= {strip(y).a[0]}
                    seen = True
    for t in p.facts:
        if ldfield(t, prog) == ("struct.conn", "proto"):
            s -= excluded(p, t)
    return s


def excluded(p, t):
    return set(p.range(t)[2])


def paths(prog, R, F, kind):
    J_ = J(prog, R, F, kind, inlinef=inraw(INL))
    return J_, [p for p in J_.paths]


def room(prog, J_, p, O):
    """there is room for everything that is stored without a check"""
    raw = [e for e in p.ev if e.name == "=" and fieldof(prog, e.args[0]) == ("struct.net_conn", "outlen")]
    if not raw or not O.room:
        return
    if len(O.room) != 1 or not O.known:
        return
    need = (0, {})
    for i in O.items:
        if i[0] == "lit":
            need = ladd(need, (len(i[1]), {}))
        elif i[0] == "byte":
            need = ladd(need, (1, {}))
        elif i[0] == "dec":
            need = ladd(need, (20, {}))
        elif i[0] == "s":
            l = linz(i[2])
            if l is None:
                return
            need = ladd(need, l)
        else:
            return
    d = ladd(O.room[0][0], lneg(need))
    if d[1]:
        # a number that is written has at most 20 bytes; its length may be the room asked for
        left = {k: v for k, v in d[1].items()}
        if len(left) == 1:
            k, v = list(left.items())[0]
            if k.k == "call" and v == 1 and str(k.a[1]).endswith("64toa"):
                n = sum(1 for i in O.items if i[0] == "dec")
                J_.check(d[0] + 20 * n >= 0, "room", p, "does not make room for all it writes", O.room[0][1])
            elif v < 0 and d[0] <= 0 and k.k in ("p", "pure"):
                J_.check(False, "room", p, "does not make room for all it writes", O.room[0][1])
        return
    J_.check(d[0] >= 0, "room", p, "makes room for %d bytes less than it may write" % -d[0], O.room[0][1])


# ---------------------------------------------------------------- values
def values(prog, R):
    def cstr(x):
        return ("cs", x)
    one = {
        "conn_write_bulk": lambda pr: [("lit", b"$"), ("dec", P2, "u64toa"), CRLF, ("s", P1, P2), CRLF],
        "conn_write_array": lambda pr: [("lit", b"*"), ("dec", P1, "u64toa"), CRLF],
        "conn_write_uint": lambda pr: [("dec", P1, "u64toa")] if pr == {1} else [("lit", b"+"), ("dec", P1, "u64toa"), CRLF] if 1 not in pr else None,
        "conn_write_int": lambda pr: [("dec", P1, "i64toa")] if pr == {1} else [("lit", b":"), ("dec", P1, "i64toa"), CRLF] if 1 not in pr else None,
        "conn_write_string": lambda pr: [("lit", b"+"), cstr(P1), CRLF],
        "conn_write_null": lambda pr: [("lit", b"$-1\r\n")],
        "conn_write_raw": lambda pr: [("s", P1, P2)],
        "conn_write_raw_cstr": lambda pr: [cstr(P1)],
    }
    for n, form in one.items():
        F = getf(prog, n, "conn.c")
        if F is None:
            R.unknown += 1
            continue
        R.analysed(F)
        J_, ps = paths(prog, R, F, FORM)
        for p in ps:
            O = output(prog, p)
            if O.problem:
                J_.check(False, "whole", p, O.problem[0], O.problem[1])
                continue
            if not O.known:
                J_.check(None, "form", p, "")
                continue
            it = expand(O.items)
            pr = protos(prog, p)
            f = form(pr)
            if f is None:
                # the same for memcache and the others
                a, b = match(p, it, form({1})), match(p, it, form({0}))
                J_.check(False if it is not None and (a is False or b is False) else None, "form", p, "answers memcache and other clients in the same form (%s)" % show1(it), O.last)
                continue
            J_.check(match(p, it, f), "form", p, "answers with '%s' instead of '%s'" % (show1(it), show1(f)), O.last)
            room(prog, J_, p, O)
            if n == "conn_write_string":
                J_.check(cleaned(p, it), "clean", p, "a CR or LF in the text ends the line", O.last)
    F = getf(prog, "conn_write_bulk_cstr", "conn.c")
    if F is not None:
        J_ = J(prog, R, F, FORM)
        R.analysed(F)
        for p in J_.paths:
            cs = evs(p, "conn_write_bulk")
            J_.check(len(cs) == 1 if all(e.name in ("conn_write_bulk", "strlen") for e in p.ev) else None, "once", p, "writes %d values" % len(cs))
            for e in cs:
                J_.check(same(e.args[1], P1), "text", p, "writes another text", e)
                n = strip(e.args[2])
                J_.check(True if n.k == "pure" and n.a[0] == "strlen" and same(n.a[1][0], P1) else False if closed(n) else None, "length", p, "writes a part of the text", e)
    F = getf(prog, "resp_write_bulk", "conn.c")
    if F is not None:
        J_ = J(prog, R, F, FORM)
        R.analysed(F)
        for p in J_.paths:
            if any(e.name == "=" or e.name in ("memcpy", "buf_ensure") for e in p.ev if e.name != "=" or strip(e.args[0]).k != "al"):
                J_.check(None, "form", p, "")
                continue
            O = bufoutput(prog, p)
            it = expand(O.items)
            J_.check(match(p, it, [("lit", b"$"), ("dec", P2, "u64toa"), CRLF, ("s", P1, P2), CRLF]), "form", p, "writes '%s' for a value" % show1(it), O.last)


def line(prog, R):
    """one line: a mark, the text, the end; the text cannot end the line"""
    F = getf(prog, "writeln", "conn.c")
    if F is None:
        R.unknown += 1
        return
    R.analysed(F)
    J_ = J(prog, R, F, FORM, inlinef=inraw(INL))
    for p in J_.paths:
        O = output(prog, p)
        if O.problem:
            J_.check(False, "whole", p, O.problem[0], O.problem[1])
            continue
        if not O.known:
            continue
        it = expand(O.items)
        r = p.range(P3)
        if it and len(it) == 3:
            J_.check(agree(p, it[0], ("byte", P1)), "mark", p, "begins a line with something else than its mark", O.last)
            if it[1][0] == "cs":
                J_.check(same(it[1][1], P2) and r[1] < 0 if closed(it[1][1]) else None, "text", p, "a text of given length is sent up to its first zero byte", O.last)
            elif it[1][0] == "s":
                J_.check((same(it[1][1], P2) and same(it[1][2], P3) and r[0] >= 0) if closed(it[1][1]) and closed(it[1][2]) else None, "text", p, "a text is not sent with its length", O.last)
            J_.check(agree(p, it[2], CRLF), "end", p, "does not end a line with CR LF", O.last)
        elif it is not None and all(i[0] in ("lit", "s", "cs", "byte") for i in it):
            J_.check(False, "form", p, "a line is not mark, text and end: '%s'" % show1(it), O.last)
        room(prog, J_, p, O)
    # bytes that would end the line are replaced
    fix = 0
    for p in J_.iters:
        for t in p.facts:
            b = strip(t)
            if b.k != "ld" or not linz(b.a[1]) or not any(outterm(prog, x, "out") for x in linz(b.a[1])[1]):
                continue
            lo, hi = p.range(t)[:2]
            st = [e for e in p.segment() if e.name == "=" and same(e.args[0], b.a[1])]
            if st:
                fix += 1
                v = strip(st[-1].args[1])
                J_.check(v.a[0] & 255 not in (10, 13) if isc(v) else None, "replace", p, "puts an end of line into a line", st[-1])
            else:
                bad = [c for c in (10, 13) if lo <= c <= hi and not ruledout(p, t, c)]
                J_.check(False if bad else True, "replace", p, "a %s in the text of a line ends the line" % {10: "LF", 13: "CR"}[bad[0]] if bad else "")
    if not J_.iters:
        J_.check(None if calls_other(J_) else False, "replace", J_.paths[0] if J_.paths else None, "a CR or LF in the text of a line ends the line")
    for p in J_.enters:
        if len(p.phis) != 1:
            continue
        (a, b), = p.phis.values()
        l = linz(b)
        if l and len(l[1]) == 1 and outterm(prog, list(l[1])[0], "outlen"):
            J_.check(l[0] <= 1, "from", p, "leaves out the first bytes of the text")
        elif l and not l[1]:
            # an offset from the start of the text, or the start of the whole buffer
            J_.check(l[0] == 0 or None, "from", p, "")
    for p in J_.iters:
        for pr, x, y, v, t in cmpfacts(p):
            if pr not in ("ult", "slt") or v is not True:
                continue
            l = lsub(y, x)
            if l is None:
                continue
            ph = [k for k in l[1] if k.k == "phi" and l[1][k] == -1]
            ol = [k for k in l[1] if outterm(prog, k, "outlen")]
            n = [k for k in l[1] if same(k, P3) or k.k == "pure" and k.a[0] == "strlen"]
            if len(ph) == 1 and len(ol) == 1 and len(l[1]) <= 3:
                J_.check(False if not n else l[0] >= 1 if len(l[1]) == 3 else None, "to", p, "leaves out the last bytes of the text")
            elif len(ph) == 1 and not ol and len(l[1]) == 2 and n:
                e = [q.phis for q in J_.enters]
                if e and all(len(q) == 1 and isoutlen(prog, list(q.values())[0][1]) for q in e):
                    J_.check(False, "to", p, "leaves out the last bytes of the text")


def cleaned(p, it):
    """a text that was given goes through the loop that replaces what would end the line"""
    if not any(i[0] in ("cs", "s") for i in it):
        return True
    if any(x.k in ("phi", "ssa", "vread") for t in p.facts for x in walk(t)):
        return True
    return False if all(e.name in QUIET + ("net_conn_out_ensure", "net_conn_out_write", "net_conn_out_write_byte", "memcpy", "u64toa", "i64toa", "rmw") for e in p.ev) else None


def isoutlen(prog, v):
    l = linz(v)
    return bool(l) and any(outterm(prog, k, "outlen") for k in l[1])


def calls_other(J_):
    known = ("=", "strlen", "net_conn_out_ensure", "net_conn_out_write", "net_conn_out_write_byte", "memcpy", "rmw")
    return any(e.name not in known for p in J_.paths for e in p.ev)


def ruledout(p, t, c):
    for pr, x, y, v, q in cmpfacts(p):
        if pr in ("eq", "ne") and strip(x) is strip(t) and isc(strip(y)) and strip(y).a[0] == c and v == (pr == "ne"):
            return True
    return c in excluded(p, t)


# ---------------------------------------------------------------- HTTP
def http(prog, R):
    F = getf(prog, "conn_write_http", "conn.c")
    if F is None:
        R.unknown += 1
        return
    R.analysed(F)
    J_ = J(prog, R, F, FORM, inlinef=inraw(INL))
    P4 = mk("p", 4)
    for p in J_.paths:
        O = output(prog, p)
        it = expand(O.items)
        if O.problem:
            J_.check(False, "whole", p, O.problem[0], O.problem[1])
        if it is None or not O.known or O.problem or any(i[0] == "call" for i in it):
            continue
        # split into head and body
        k = next((j for j, i in enumerate(it) if i[0] == "lit" and b"\r\n\r\n" in i[1]), None)
        if k is None:
            J_.check(False, "head", p, "the head of a response does not end: '%s'" % show1(it), O.last)
            continue
        a, b = it[k][1].split(b"\r\n\r\n", 1)
        head = it[:k] + [("lit", a + b"\r\n")]
        body = ([("lit", b)] if b else []) + it[k + 1:]
        J_.check(head[0][0] == "lit" and head[0][1] in (b"HTTP/1.1 ", b"HTTP/1.0 ") and len(head) > 1 if head[0][0] == "lit" else None, "status", p, "does not begin with a status line: '%s'" % show1(head), O.last)
        if len(head) > 3 and head[0][0] == "lit":
            J_.check(agree(p, head[1], ("dec", P1)), "code", p, "answers with another status code", O.last)
            J_.check(head[2] == ("lit", b" ") if head[2][0] == "lit" else None, "code", p, "the status line is not in order: '%s'" % show1(head), O.last)
            J_.check(agree(p, head[3], ("cs", P2)), "code", p, "answers with another status text", O.last)
        ln = None
        for j, i in enumerate(head):
            if i[0] == "lit" and i[1].lower().endswith(b"\r\ncontent-length: ") and j + 1 < len(head):
                ln = head[j + 1]
        J_.check(True if ln else False, "length", p, "does not say how long the body is", O.last)
        for j, i in enumerate(head):
            if i[0] == "lit" and j > 4:
                for l in i[1].split(b"\r\n")[1:]:
                    J_.check(True if not l or b": " in l else False if b":" not in l else None, "fields", p, "a line of the head is not a field: %r" % l[:30], O.last)
        J_.check(len(body) <= 1 or None, "body", p, "", O.last)
        if ln is None or ln[0] != "dec":
            continue
        L = strip(ln[1])
        if not body:
            r = p.range(L)
            J_.check(True if r[1] <= 0 else False if r[0] > 0 or closed(L) and not zero(p.range(P3)) and all(closed(t) for t in p.facts) else None, "body", p, "a body is announced and not sent", O.last)
            if isc(L):
                J_.check(L.a[0] == 0, "body", p, "a body is announced and not sent", O.last)
        elif len(body) == 1:
            i = body[0]
            if i[0] == "s":
                J_.check(True if same(i[2], L) else False if closed(i[2]) and closed(L) else None, "length", p, "the body has another length than announced", O.last)
                r = p.range(P4)
                J_.check(agree(p, i, ("s", P3, P4)), "body", p, "sends another body", O.last)
            elif i[0] == "cs":
                J_.check(True if L.k == "pure" and L.a[0] == "strlen" and same(L.a[1][0], i[1]) else False if closed(L) else None, "length", p, "the body has another length than announced", O.last)
                r = p.range(P4)
                J_.check(False if r[0] <= 0 <= r[1] and 0 not in r[2] or r[0] > 0 else True, "body", p, "a body of given length is sent up to its first zero byte", O.last)
            elif i[0] == "lit":
                J_.check(L.a[0] == len(i[1]) if isc(L) else None, "length", p, "the body has another length than announced", O.last)


# ---------------------------------------------------------------- errors
def prefix(prog, p, s, lit):
    """does the path know that the text s begins with lit: True, False, None"""
    r = None
    for t in p.facts:
        for x in walk(t):
            if x.k == "call" and x.a[1] in ("strstr", "strncmp", "memcmp"):
                e = [e for e in p.ev if e.I is not None and e.I.id == x.a[0] and e.name == x.a[1]]
                if not e or text(strip(e[-1].args[1])) != lit or not same(e[-1].args[0], s):
                    continue
                if x.a[1] == "strstr":
                    if t.k == "cmp" and t.a[0] in ("eq", "ne") and (same(t.a[1], s) or same(t.a[2], s)):
                        v = p.truth(t)
                        if v is not None:
                            r = v == (t.a[0] == "eq")
                elif t is x:
                    r = True if zero(p.range(t)) else False if nonzero(p.range(t)) else r
    return r


def isstr(prog, p, s, e_):
    """the texts a path knows s to be, and those it knows it not to be"""
    yes, no = set(), set()
    for t in p.facts:
        if t.k == "call" and t.a[1] == "strcmp":
            e = [e for e in p.ev if e.I is not None and e.I.id == t.a[0] and e.name == "strcmp"]
            if not e:
                continue
            for a, b in ((0, 1), (1, 0)):
                x = text(strip(e[-1].args[b]))
                if x is not None:
                    (yes if zero(p.range(t)) else no).add((strip(e[-1].args[a]), x))
    return yes, no


CODES = {"Show Help HTML": (200,), "Show Help TEXT": (200,), "Method Not Allowed": (405,), "Unauthorized": (401,), "Bad Request": (400,)}
ERRP = "ERR "


def errors(prog, R):
    F = getf(prog, "write_error", "conn.c")
    if F is None or len(F.params) != 3:
        R.unknown += 1
    else:
        R.analysed(F)
        J_ = J(prog, R, F, ERRF, inlinef=inraw(("writeln", "conn_write_raw", "conn_write_raw_cstr")))
        for p in J_.paths:
            pr = protos(prog, p)
            O = output(prog, p)
            if O.problem:
                J_.check(False, "whole", p, O.problem[0], O.problem[1])
                continue
            if not O.known:
                continue
            it = expand(O.items)
            pre = prefix(prog, p, P1, ERRP)
            J_.check(True if it else False if it is not None and (len(pr) <= 1 or all(e.name in QUIET for e in p.ev)) else None, "some", p, "an error is not answered", O.last)
            if not it:
                continue
            if pr == {1}:
                memc(prog, J_, p, O, it, pre)
            elif pr == {2}:
                pg(prog, J_, p, O, it, pre)
            elif pr == {3}:
                web(prog, J_, p, O, it, pre)
            elif pr and not pr & {1, 2, 3}:
                J_.check(match(p, it, [("lit", b"-"), ("cs", P1), CRLF]), "resp", p, "answers an error as '%s'" % show1(it), O.last)
                J_.check(cleaned(p, it), "clean", p, "a CR or LF in the text of an error ends its line", O.last)
        ov = [e for p in J_.paths for e in p.ev if e.name == "snprintf"]
        for p in J_.paths:
            for i, e in enumerate(p.ev):
                if e.name == "snprintf":
                    sizes(prog, J_, p, e)
                    mem = [f for f in p.ev[:i] if f.name in ("xfree",) and same(f.args[0], e.args[0])]
                    J_.check(not mem, "freed", p, "writes a text to memory that was given up", e)
    F = getf(prog, "conn_write_error", "conn.c")
    if F is not None:
        J_ = J(prog, R, F, ERRF)
        R.analysed(F)
        for p in J_.paths:
            cs = evs(p, "write_error")
            J_.check(len(cs) == 1 if cs or not [e for e in p.ev if e.name not in QUIET] else None, "once", p, "answers an error %d times" % len(cs), cs[-1] if cs else None)
            for e in cs:
                J_.check(True if same(e.args[1], P1) else False if closed(e.args[1]) else None, "text", p, "answers with another error", e)
                yes, no = isstr(prog, p, P1, e)
                oom = [x for s, x in yes if s is P1]
                v = strip(e.args[2])
                if isc(v) and (yes or no):
                    J_.check(bool(v.a[0] & 1) == any("memory" in x for x in oom), "server", p, "running out of memory is answered as the client's fault, or another error as the server's", e)


QUIET = ("=", "strlen", "strcmp", "strstr", "strncmp", "xfree", "xmalloc", "snprintf")


def sizes(prog, J_, p, e):
    """the text fits into its memory"""
    d = strip(e.args[0])
    f = text(strip(e.args[2]))
    if f is None:
        return
    sz = linz(e.args[1])
    it = expand([("fmt", f if isinstance(f, str) else f.decode("latin1"), tuple(e.args[3:]), None, e)])
    if it is None or sz is None:
        return
    need = (1, {})
    for i in it:
        if i[0] == "lit":
            need = ladd(need, (len(i[1]), {}))
        elif i[0] == "cs":
            l = linz(i[1])
            base = [k for k in l[1] if l[1][k] == 1] if l else []
            if not l or len(l[1]) != 1 or not base:
                return
            # a pointer k bytes into a text: the rest is k bytes shorter
            t = mk("pure", "strlen", (base[0],))
            k = [x for x in sz[1] if x.k == "pure" and x.a[0] == "strlen"]
            if len(k) == 1 and same(k[0].a[1][0], i[1]):
                need = ladd(need, (0, {k[0]: 1}))
            elif len(k) == 1 and same(k[0].a[1][0], base[0]):
                need = ladd(need, (-l[0], {k[0]: 1}))
            elif not k:
                J_.check(False if closed(e.args[1]) and not sz[1] else None, "fits", p, "a long error is cut off", e)
                return
            else:
                return
        else:
            return
    r = ladd(sz, lneg(need))
    if not r[1]:
        J_.check(r[0] >= 0, "fits", p, "the end of an error is cut off", e)
    if d.k == "new":
        r = ladd(linz(d.a[1]), lneg(sz))
        if not r[1]:
            J_.check(r[0] >= 0, "memory", p, "writes %d bytes past the memory of the text" % -r[0], e)


def memc(prog, J_, p, O, it, pre):
    J_.check((it[-1][0] == "lit" and it[-1][1].endswith(b"\r\n")) if it[-1][0] in ("lit", "dec", "cs") else None, "line", p, "an error of memcache does not end its line: '%s'" % show1(it), O.last)
    n = b"".join(i[1] if i[0] == "lit" else b"?" for i in it).count(b"\r\n")
    J_.check(n <= 1, "line", p, "an error of memcache has %d lines" % n, O.last)
    w = it[0][1] if it[0][0] == "lit" else None
    sv = p.range(P2)
    server = True if nonzero(sv) else False if zero(sv) else None
    if w is not None:
        kind = next((k for k in (b"SERVER_ERROR ", b"CLIENT_ERROR ", b"ERROR\r\n") if w.startswith(k)), None)
        J_.check(kind is not None, "kind", p, "an error of memcache begins with '%s'" % show1(it), O.last)
        if kind and server is not None:
            J_.check(kind.startswith(b"SERVER") == server, "side", p, "an error of the %s is answered as '%s'" % ("server" if server else "request", show1(it)), O.last)
        if kind and kind.startswith(b"CLIENT"):
            J_.check(True if pre else False if pre is False and prefix(prog, p, P1, "CLIENT_ERROR ") is not True else None, "kind", p, "an unknown command is not answered with ERROR", O.last)
        if kind == b"ERROR\r\n":
            J_.check(False if pre or prefix(prog, p, P1, "CLIENT_ERROR ") else True, "kind", p, "the reason of an error is lost", O.last)
    elif it[0][0] == "cs":
        J_.check(True if prefix(prog, p, P1, "CLIENT_ERROR ") else False if prefix(prog, p, P1, "CLIENT_ERROR ") is False else None, "kind", p, "an error is answered in the form of another protocol", O.last)
    for i in it:
        if i[0] == "cs":
            l = lsub(i[1], P1)
            if l is not None and not l[1]:
                J_.check(l[0] == (4 if pre else 0) if pre is not None else (None if l[0] in (0, 4) else False), "text", p, "the text of an error is cut wrongly", O.last)


def pg(prog, J_, p, O, it, pre):
    ev = [i[1] for i in it if i[0] == "call"]
    if len(ev) != len(it):
        J_.check(None, "pg", p, "")
        return
    names = [e.name for e in ev]
    J_.check(names.count("pg_write_error") == 1, "pg", p, "an error is answered %d times" % names.count("pg_write_error"), O.last)
    J_.check(names.count("pg_write_ready") == 1, "pg", p, "after an error the client is %s" % ("not told that the next query may come" if "pg_write_ready" not in names else "told more than once that the next query may come"), O.last)
    if names.count("pg_write_error") == 1 == names.count("pg_write_ready"):
        J_.check(names.index("pg_write_error") < names.index("pg_write_ready"), "pg", p, "the error comes after the end of the query", O.last)
    for e in ev:
        if e.name == "pg_write_error":
            l = lsub(e.args[1], P1)
            if l is not None and not l[1] and pre is not None:
                J_.check(l[0] == (4 if pre else 0), "pg text", p, "the text of an error is cut wrongly", e)


def web(prog, J_, p, O, it, pre):
    ev = [i[1] for i in it if i[0] == "call"]
    if len(ev) != len(it) or any(e.name != "conn_write_http" for e in ev):
        J_.check(None if any(i[0] == "call" for i in it) else False, "http", p, "an error of HTTP is answered as '%s'" % show1(it), O.last)
        return
    J_.check(len(ev) == 1, "http", p, "an error is answered %d times" % len(ev), O.last)
    e = ev[0]
    code = strip(e.args[1])
    yes, no = isstr(prog, p, P1, e)
    ys = [x for s, x in yes if (lsub(s, P1) or (0, {0: 0}))[1] == {}]
    if not isc(code):
        return
    c = code.a[0]
    for y in ys:
        if y in CODES:
            J_.check(c in CODES[y], "code", p, "'%s' is answered with %d" % (y, c), e)
    if not ys:
        allno = {x for s, x in no}
        J_.check(c >= 500 if allno >= set(CODES) else c != 200 or None, "code", p, "an error is answered with %d" % c, e)
    st = text(strip(e.args[2]))
    if st is not None:
        b = st if isinstance(st, str) else st.decode("latin1")
        want = {200: "OK", 400: "Bad Request", 401: "Unauthorized", 405: "Method Not Allowed", 404: "Not Found", 500: "Internal Server Error"}
        if c in want:
            J_.check(b == want[c], "status", p, "status %d is called '%s'" % (c, b), e)
    ln = strip(e.args[4])
    bd = strip(e.args[3])
    if isc(ln):
        m = ln.a[0] & (2**32 - 1)
        t = text(bd)
        J_.check(True if m == 2**32 - 1 else m == len(t) if t is not None else None, "body", p, "the body is cut off or read past its end", e)
    if bd.k == "new":
        i = idx(p.ev, e)
        fr = [f for f in p.ev[:i] if f.name == "xfree" and same(f.args[0], bd)]
        J_.check(not fr, "freed", p, "answers with memory that was given up", e)
        w = [f for f in p.ev[:i] if f.name == "snprintf" and same(f.args[0], bd)]
        J_.check(True if w else None, "text", p, "", e)
        for f in w[-1:]:
            x = expand([("fmt", text(strip(f.args[2])) or "", tuple(f.args[3:]), None, f)])
            for i in x or ():
                if i[0] == "cs":
                    l = lsub(i[1], P1)
                    if l is not None and not l[1] and pre is not None:
                        J_.check(l[0] == (4 if pre else 0), "text", p, "the text of an error is cut wrongly", f)


# ---------------------------------------------------------------- the text of a number
DIG = "a number is written as its decimal digits"


def litof(prog, t):
    """bytes of a constant text a pointer stands for"""
    x = text(strip(t))
    return x if isinstance(x, str) else None


def digits(prog, R):
    F = prog.get("util.c", "i64toa")
    if F is not None:
        J_ = J(prog, R, F, DIG, keep=("u64toa",), stores=True)
        for p in J_.paths:
            signed(prog, J_, p)
    F = prog.get("util.c", "u64toa")
    if F is not None:
        J_ = J(prog, R, F, DIG, stores=True, copies=True)
        unsigned(prog, J_)


def signed(prog, J_, p):
    ret = p.ret
    lo, hi, ex = p.range(P0)
    calls = [e for e in p.ev if e.name == "u64toa"]
    put = {}
    odd = False
    for e in p.ev:
        if e.name == "=":
            d = lsub(e.args[0], P1)
            if d is None or d[1]:
                odd = True
            else:
                put[d[0]] = strip(e.args[1])
    lit = [e for e in p.ev if e.name in ("memcpy", "strcpy") and same(e.args[0], P1)]
    if lit and not calls:
        x = litof(prog, lit[-1].args[1])
        n = lit[-1].args[2] if len(lit[-1].args) > 2 else None
        if x is None or n is not None and not isc(n):
            return J_.check(None, "text", p, "")
        if ret is not None and isc(strip(ret)):
            J_.check(strip(ret).a[0] == len(x), "length", p, "tells a length of %d for the %d bytes of '%s'" % (strip(ret).a[0], len(x), x), lit[-1])
        if lo == hi:
            J_.check(x == str(lo), "text", p, "writes '%s' for %d" % (x, lo), lit[-1])
        if n is not None:
            J_.check(n.a[0] >= len(x), "copy", p, "copies %d bytes of '%s'" % (n.a[0], x), lit[-1])
        return
    if len(calls) != 1 or lit or odd:
        return J_.check(None, "text", p, "")
    e = calls[0]
    d = lsub(e.args[1], P1)
    r = lsub(ret, e.res) if ret is not None else None
    if d is None or d[1] or r is None or r[1]:
        return J_.check(None, "text", p, "")
    J_.check(r[0] == d[0], "length", p, "tells a length of %+d beside its digits, which begin at %d" % (r[0], d[0]), e)
    v = strip(e.args[0])
    if hi < 0:
        J_.check(d[0] == 1, "sign", p, "writes the digits of a negative number at %d" % d[0], e)
        J_.check(0 in put and isc(put[0]) and put[0].a[0] == 45 if 0 not in put or isc(put[0]) else None, "sign", p, "writes no '-' for a negative number", e)
        m = linz(v)
        if m is not None and len(m[1]) == 1:
            J_.check(m[0] == 0 and list(m[1].items())[0] == (P0, -1), "value", p, "writes %s for a negative number" % show(v), e)
    elif lo >= 0:
        J_.check(d[0] == 0, "sign", p, "writes the digits of a number that is not negative at %d" % d[0], e)
        m = linz(v)
        if m is not None:
            J_.check(m == (0, {P0: 1}), "value", p, "writes %s for a number" % show(v), e)


def digit(v):
    """the number whose last digit a byte holds: (term, divisor); divisor None for a digit alone"""
    v = strip(v)
    m = linz(v)
    if m is None or len(m[1]) != 1:
        return None
    t, k = list(m[1].items())[0]
    if k != 1:
        return None
    x = strip(t)
    if x.k == "bin" and x.a[0] in ("urem", "srem") and isc(strip(x.a[2])):
        return x.a[1], strip(x.a[2]).a[0], m[0]
    return x, None, m[0]


def unsigned(prog, J_):
    dig = []
    for q in J_.iters:
        ev = [e for e in q.segment() if e.name == "="]
        if len(ev) == 1:
            e = ev[0]
            g = digit(e.args[1])
            d = lsub(e.args[0], P1)
            if g is None or g[1] is None or d is None:
                J_.check(None, "digit", q, "")
                continue
            J_.check(g[1] == 10, "digit", q, "writes digits of base %d" % g[1], e)
            J_.check(g[2] == 48, "digit", q, "writes the digit 0 as the byte %d" % g[2], e)
            ph = {strip(a): strip(b) for a, b in q.phis.values() if a is not None and b is not None}
            n = strip(g[0])
            if n in ph:
                b = ph[n]
                if b.k == "bin" and b.a[0] in ("udiv", "sdiv") and isc(strip(b.a[2])) and strip(b.a[1]) is n:
                    J_.check(strip(b.a[2]).a[0] == 10, "digit", q, "divides by %d after a digit" % strip(b.a[2]).a[0], e)
                    # more is written as long as something is left
                    z = q.truth(mkcmp("eq", b, ZERO))
                    J_.check(False if z is True else True if z is False else None, "digit", q, "goes on although nothing is left of the number", e)
                    dig.append((q, e, d, ph))
            for i in d[1]:
                if i in ph:
                    s = lsub(ph[i], i)
                    J_.check(abs(s[0]) == 1 if s is not None and not s[1] else None, "digit", q, "leaves %d bytes between digits" % (s[0] if s else 0), e)
        elif len(ev) == 2:
            swap(J_, q, ev)
        else:
            J_.check(None, "digit", q, "")
    for p in J_.paths:
        ev = [e for e in p.ev if e.name == "="]
        r = strip(p.ret) if p.ret is not None else None
        if r is None:
            continue
        if isc(r) and not any(e.name == "L" for e in p.ev):
            got = {}
            for e in ev:
                d = lsub(e.args[0], P1)
                if d is not None and not d[1]:
                    got[d[0]] = e
            e = got.get(0)
            if e is None or any(lsub(x.args[0], P1) is None for x in ev):
                J_.check(None, "one digit", p, "")
                continue
            n = sum(1 for k, x in got.items() if not (isc(strip(x.args[1])) and strip(x.args[1]).a[0] == 0))
            J_.check(r.a[0] == n, "length", p, "tells a length of %d for %d digits" % (r.a[0], n), e)
            g = digit(e.args[1])
            if n == 1 and g is not None and same(g[0], P0):
                J_.check(g[2] == 48, "digit", p, "writes the digit 0 as the byte %d" % g[2], e)
                lo, hi, ex = p.range(P0)
                J_.check(0 <= lo and hi <= 9 if g[1] is None else None, "one digit", p, "writes a number of up to %d as one digit" % hi, e)
            continue
        # the length follows from the last place written
        for q, e0, d0, ph in dig:
            last = [e for e in ev if e.I is e0.I]
            if not last:
                continue
            d = lsub(last[-1].args[0], P1)
            b = linz(p.ret)
            if d is None or b is None:
                continue
            up = all(lsub(ph[i], i) == (1, {}) for i in d0[1] if i in ph) and d0[1]
            if up and b[1] == d[1]:
                J_.check(b[0] - d[0] == 1, "length", p, "tells a length of %+d beside the place of its last digit" % (b[0] - d[0]), last[-1])
            z = [t for t in p.facts if t.k == "bin" and t.a[0] in ("udiv", "sdiv")]
            for t in z:
                if strip(t.a[1]) in ph:
                    rest = [e for e in ev if e.I is not last[-1].I and not (isc(strip(e.args[1])) and strip(e.args[1]).a[0] == 0)]
                    lo, hi, ex = p.range(t)
                    J_.check(None if rest else lo == hi == 0 if 0 <= lo and hi < 1 << 32 else None, "digit", p, "stops although digits are left", last[-1])
    # the other end of the digits when they are turned round
    for q in J_.enters:
        ev = [e for e in q.ev if e.name == "="]
        w = [s for s in SWAPS.get(id(J_), ()) if s[0] == q.hdr]
        if not w or not dig:
            continue
        last = [e for e in ev if any(e.I is e0.I for _, e0, _, _ in dig)]
        d = lsub(last[-1].args[0], P1) if last else None
        for h, up, dn, ids in w:
            for i, (a, b) in q.phis.items():
                if b is None or d is None:
                    continue
                if i == ids[0]:
                    J_.check(isc(strip(b)) and strip(b).a[0] == 0 if isc(strip(b)) else None, "order", q, "leaves the first digits as they are")
                if i == ids[1]:
                    l = linz(b)
                    if l is not None and l[1] == d[1]:
                        J_.check(l[0] == d[0], "order", q, "turns the digits round about a place %+d from the last" % (l[0] - d[0]))
    SWAPS.pop(id(J_), None)


SWAPS = {}


def swap(J_, q, ev):
    """one turn of putting the digits in order"""
    (a1, v1), (a2, v2) = [(e.args[0], strip(e.args[1])) for e in ev]
    if v1.k != "ld" or v2.k != "ld":
        return J_.check(None, "order", q, "")
    J_.check(same(v1.a[1], a2) and same(v2.a[1], a1) if same(v1.a[1], a2) or same(v2.a[1], a1) else None, "order", q, "does not exchange two digits", ev[0])
    ids = {}
    for i, (a, b) in q.phis.items():
        if a is None or b is None:
            continue
        s = lsub(b, a)
        if s is None or s[1]:
            continue
        for A in (a1, a2):
            d = lsub(A, P1)
            if d is not None and d == (0, {strip(a): 1}):
                ids[s[0]] = i
    if len(ids) == 2:
        J_.check(set(ids) == {1, -1}, "order", q, "moves by %s between exchanges" % sorted(ids), ev[0])
        if set(ids) == {1, -1}:
            SWAPS.setdefault(id(J_), []).append((q.hdr, 1, -1, (ids[1], ids[-1])))
