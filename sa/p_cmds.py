"""Properties of the command layer: replies, truthfulness, atomic read-modify-write."""
import re
from psim import *
from cmdsim import *
from replies import *
import replies
from ir import Broken

ASSUME = [
    "the bitcode of clang -O1 without the sanitizer represents the sources; the engine's operations are represented by the model in "
    "sa/stubs/sa_stub_engine.c, which offers every outcome each operation can have (C01-C09 decide the engine itself)",
    "loops are cut at their back edge: what one iteration does is decided for an arbitrary iteration, with the loop's variables symbolic",
    "string comparison of arguments, number parsing and formatting are atoms; their own code is not analysed here",
]
EXPLAIN = {}

MEMC_CMDS = {"set", "mget", "mgets", "del", "uincrby", "udecrby", "append", "prepend", "expire", "flushall", "flush", "flushdb",
             "quit", "version", "stats"}
HTTP_CMDS = {"get", "set", "del"}


def groups(prog):
    """[(handler Func, [names])] in table order"""
    by, order = {}, []
    for n, F in command_table(prog):
        if F.key not in by:
            by[F.key] = (F, [])
            order.append(F.key)
        by[F.key][1].append(n)
    return [by[k] for k in order]


def protos_of(names):
    ps = [PG, RESP]
    if any(n in MEMC_CMDS for n in names):
        ps.append(MEMC)
    if any(n in HTTP_CMDS for n in names):
        ps.append(HTTP)
    return ps


def sims(prog, R):
    for F, names in groups(prog):
        S = simulate(prog, F)
        R.analysed(F)
        yield F, names, S


def loc(path, e=None):
    I = e.I if e is not None and e.I is not None else path.I
    return "%s:%s" % (I.file if hasattr(I, "file") else I.fn.file, I.line)


def fnref(prog, t, mod):
    t = strip(t)
    while t.k in ("cast",):
        t = t.a[1]
    if t.k == "f":
        return prog.byname(t.a[0]) if ":" in t.a[0] else prog.get(mod, t.a[0])
    return None


def replies_of(Rr, path, proto):
    """number of complete replies on a path under one protocol"""
    toks = ptokens(path, proto)
    if proto == RESP:
        return RespShape(Rr).check(path, toks)
    if proto == PG:
        return pg_shape(Rr, path, toks)
    if proto == HTTP:
        return http_shape(Rr, path, toks)
    return memc_shape(Rr, path, toks)


def http_shape(Rr, path, toks):
    n = 0
    for t in toks:
        if t.k == "L":
            for p in writers(Rr, t.a[0], HTTP):
                if compat(path, p):
                    raise Bad("an HTTP response is written once per iteration")
        elif t.k == "X":
            pass
        elif t.k == "unknown":
            raise Skip()
        elif t.k == "http":
            n += 1
            code = t.a[0]
            if code is not None and isc(code) and t.a[1] is not None:
                want = {200: "OK", 404: "Not Found", 405: "Method Not Allowed", 401: "Unauthorized", 400: "Bad Request",
                        500: "Internal Server Error"}.get(code.a[0])
                if want is not None and want != t.a[1]:
                    raise Bad("status %d is named '%s'" % (code.a[0], t.a[1]))
        else:
            raise Bad("'%s' is not an HTTP response" % t.e.name)
    return n


LINE = re.compile(r"^[^\r\n]+\r\n$", re.S)
VALUE = re.compile(r"^VALUE \x02 (\x01|%u|%zu|%lu) (\x01|%zu|%lu)( (\x01|%lu|%zu))?\r\n\x02\r\n$", re.S)
STAT = re.compile(r"^STAT [^\r\n]+\r\n$", re.S)


def memc_shape(Rr, path, toks):
    """complete memcache replies: one line, or item* END"""
    # loops first: what an iteration writes
    items = False
    flatt = []
    depth = 0
    for t in toks:
        if t.k == "L":
            depth += 1
            for p in writers(Rr, t.a[0], MEMC):
                if not compat(path, p):
                    continue
                q = ptokens(p, MEMC)
                if any(x.k == "L" for x in q):
                    raise Skip()
                s = memc_line(memc_text(q))
                if s == "":
                    continue
                if not VALUE.match(s) and not STAT.match(s) and not re.match(r"^\x03\r\n$", s):
                    raise Bad("an iteration writes %r, which is not one complete item" % vis(s))
                items = True
            continue
        if t.k == "X":
            depth -= 1
            continue
        if depth:
            # part of an iteration that left the loop early
            raise Skip()
        flatt.append(t)
    s = memc_line(memc_text(flatt))
    if s == "":
        if items:
            raise Bad("items are not followed by END")
        return 0
    if items:
        if s != "END\r\n":
            raise Bad("items are followed by %r instead of END" % vis(s))
        return 1
    if s == "END\r\n":
        return 1
    n = 0
    for part in re.findall(r"[^\n]*\n|[^\n]+$", s):
        if not LINE.match(part):
            raise Bad("%r is not one complete line" % vis(s))
        n += 1
    m = re.match(r"^(VALUE [^\r\n]*\r\n)\x02\r\nEND\r\n$", s, re.S)
    if m:
        return 1
    return n


def vis(s):
    return s.replace("\x01", "<num>").replace("\x02", "<data>").replace("\x03", "<error>")


EXPLAIN["C17"] = ("Every path of every command handler (helpers inlined, engine operations replaced by a model with all their outcomes) and of "
                  "every completion routine of background work is enumerated per protocol; the sequence of reply calls on it must form "
                  "exactly one complete reply of that protocol: RESP values with array headers matching the number of elements (loop trip "
                  "counts compared with the announced count), Postgres row description / rows / completion / one ready-for-query, one HTTP "
                  "response, one memcache line or items followed by END, with literal lengths matching their text.")


def C17(prog, R, tier):
    seen = set()
    for F, names, Rr in sims(prog, R):
        one_reply(prog, R, F, names, Rr, protos_of(names), seen)
    R.need("one complete reply per path", 100)


def one_reply(prog, R, F, names, Rr, protos, seen, want=1, tag=None):
    nm = tag or ("/".join(names).upper())
    RULE = "one complete reply per path"
    later = {}
    for path in Rr.paths:
        bgs = [e for e in path.ev if e.name == "conn_bgwork"]
        closes = any(e.name == "conn_close" for e in path.ev)
        for proto in path.protos():
            if proto not in protos:
                continue
            if tag is None and not any(feasible_name(path, n) and n in allowed(proto, names) for n in names):
                continue
            if proto in (MEMC, HTTP) and any(e.name == "__sa_store" and nz(e.args[15]) for e in path.ev):
                continue    # the GET option cannot be given there
            started = [b for b in bgs if path.truth(b.res) is True]
            unknown = [b for b in bgs if path.truth(b.res) is None]
            for b in unknown:
                if not any(b.res in walk(t) for t in path.facts):
                    R.bad(RULE, "%s|%s|bgwork" % (F.name, PNAME[proto]), loc(path, b),
                          "%s does not look at whether the background work could be started: if not, the client never gets a reply" % nm,
                          path.trace())
            if unknown:
                R.ok(RULE)
                continue
            try:
                n = replies_of(Rr, path, proto)
            except Skip:
                R.unknown += 1
                R.ok("reply of unrecognised shape (not decided)")
                continue
            except Bad as ex:
                if path.joined or any(p.joined for p in Rr.iters):
                    R.unknown += 1
                    R.ok("widened path (not decided)")
                    continue
                R.bad(RULE, "%s|%s|%s" % (F.name, PNAME[proto], str(ex)[:60]), loc(path),
                      "%s (%s): %s" % (nm, PNAME[proto], ex), path.trace())
                continue
            if started:
                # the rest of the reply is the completion routine's
                ok = n <= want
                for b in started:
                    later.setdefault((b.args[2], proto), set()).add(want - n)
            else:
                ok = n == want or (closes and n < want) or path.joined
                if proto == RESP and names == ["quit"] and n != 1:
                    ok = False
            R.check(ok, RULE, "%s|%s|%d" % (F.name, PNAME[proto], n), loc(path),
                    "%s (%s): a path writes %d complete replies, expected %d" % (nm, PNAME[proto], n, want), path.trace(),
                    inst="%s %s" % (nm, PNAME[proto]))
    for (t, proto), ws in later.items():
        done = fnref(prog, t, F.mod)
        if done is None:
            continue
        for w in ws:
            if (done.key, proto, w) in seen:
                continue
            seen.add((done.key, proto, w))
            R.analysed(done)
            one_reply(prog, R, done, names, simulate(prog, done), [proto], seen, w,
                      tag="%s completion (%s)" % ("/".join(names).upper(), done.name))


def nz(t):
    return not (isc(t) and t.a[0] == 0)


def allowed(proto, names):
    if proto == MEMC:
        return MEMC_CMDS
    if proto == HTTP:
        return HTTP_CMDS
    return set(names)


def feasible_name(path, name):
    """may the path run for the command called name (argument 0)?"""
    for t in path.facts:
        if t.k == "argeq" and isc(t.a[1]) and t.a[1].a[0] == 0:
            v = path.truth(t)
            if v is True and t.a[2] != name:
                return False
            if v is False and t.a[2] == name:
                return False
    return True
