"""What a path writes to the client, as a text of literals, numbers and byte ranges."""
from gensim import *
from replies import text

NC = "struct.net_conn"
RAW = ("net_conn_out_write_nocheck", "net_conn_out_write_byte_nocheck", "net_conn_out", "net_conn_out_len", "net_conn_out_setlen", "net_conn_out_cap")


def inraw(names=()):
    """inline the unchecked output functions (and the named ones)"""
    ns = set(RAW) | set(names)

    def f(F, I):
        return True if F.name in ns else None
    return f


class Out:
    """items: ('lit', bytes) ('byte', term) ('dec', term) ('fmt', text, args, size term, n term) ('s', source, n) ('call', event)"""

    def __init__(self):
        self.items = []
        self.room = []      # (spare bytes as linear form, event)
        self.problem = None  # text of a definite defect, event
        self.known = True
        self.last = None

    def put(self, it):
        if it[0] == "lit" and self.items and self.items[-1][0] == "lit":
            self.items[-1] = ("lit", self.items[-1][1] + it[1])
        else:
            self.items.append(it)


def group(prog, A):
    """(key, offset linear form) of an address in the output buffer"""
    d = linz(A)
    if d is None:
        return None
    o = [x for x, m in d[1].items() if ldfield(x, prog) == (NC, "out") and m == 1]
    if len(o) != 1:
        return None
    return o[0], (d[0], {x: m for x, m in d[1].items() if x is not o[0]})


def ladd(a, b):
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) + v
    return a[0] + b[0], {k: v for k, v in d.items() if v}


def lneg(a):
    return -a[0], {k: -v for k, v in a[1].items()}


def source(p, i, src, n, evl):
    """what the n bytes at src are, looking at the events before the i-th"""
    s, nn = strip(src), strip(n)
    t = text(s)
    if t is not None and isc(nn):
        b = t if isinstance(t, bytes) else t.encode("latin1")
        k = nn.a[0]
        return ("lit", b[:k], k - len(b))
    if t is not None and nn.k == "pure" and nn.a[0] == "strlen":
        b = t if isinstance(t, bytes) else t.encode("latin1")
        return ("lit", b, 0)
    for e in reversed(evl[:i]):
        if e.name in ("u64toa", "i64toa") and strip(e.args[1]) is s:
            if nn.k == "call" and nn.a[0] == e.I.id or nn.k == "pure" and nn.a[0] == "strlen" and strip(nn.a[1][0]) is s:
                return ("dec", e.args[0], e.name)
            return None
        if e.name in ("snprintf", "sprintf") and strip(e.args[0]) is s:
            k = 2 if e.name == "snprintf" else 1
            f = text(strip(e.args[k]))
            if f is not None and (nn.k == "call" and nn.a[0] == e.I.id or nn.k == "pure" and nn.a[0] == "strlen" and strip(nn.a[1][0]) is s):
                return ("fmt", f if isinstance(f, str) else f.decode("latin1"), tuple(e.args[k + 1:]), e.args[1] if k == 2 else None, e)
            return None
    return ("s", src, n)


def output(prog, p, seg=None, calls=("conn_write_", "pg_write_", "writeln", "resp_write_")):
    evl = p.ev if seg is None else seg
    O = Out()
    cur = None      # [base key, {offset: item}, final]

    def close():
        nonlocal cur
        if cur is None:
            return
        key, parts, start, fin, ev = cur
        cur = None
        if start is None:
            O.known = False
            return
        pos = start
        left = list(parts)
        while True:
            nx = None
            for q in left:
                if q[0] == pos:
                    nx = q
                    break
            if nx is None:
                break
            left.remove(nx)
            O.put(nx[2])
            pos = ladd(pos, nx[1])
        O.last = ev
        if left:
            # bytes at places that were not reached: a gap or an overlap
            d = ladd(left[0][0], lneg(pos))
            if not d[1]:
                O.problem = ("leaves a gap of %d bytes in the answer" % d[0] if d[0] > 0 else "writes over %d bytes of the answer" % -d[0], left[0][3])
            else:
                O.known = False
        if fin is not None:
            d = ladd(fin, lneg(pos))
            if not left and not d[1] and d[0] != 0:
                O.problem = ("sends %d bytes that were not written" % d[0] if d[0] > 0 else "does not send the last %d bytes" % -d[0], ev)
            elif d[1]:
                O.known = False
        elif parts:
            O.problem = ("does not send what was written", ev)

    def at(e, A, ln, it):
        nonlocal cur
        g = group(prog, A)
        if g is None:
            return False
        if cur is not None and cur[0] is not g[0]:
            close()
        if cur is None:
            cur = [g[0], [], None, None, e]
        off = g[1]
        if cur[2] is None:
            # first byte of the group: where the output ended
            ol = [x for x in off[1] if ldfield(x, prog) == (NC, "outlen")]
            if len(ol) == 1 and off[1][ol[0]] == 1:
                cur[2] = (0, {ol[0]: 1})
        cur[1].append((off, ln, it, e))
        cur[4] = e
        return True

    for i, e in enumerate(evl):
        if e.name == "=":
            if fieldof(prog, e.args[0]) == (NC, "outlen"):
                v = linz(e.args[1])
                if cur is None:
                    cur = [None, [], None, None, e]
                    ol = [x for x in v[1] if ldfield(x, prog) == (NC, "outlen")] if v else []
                    cur[2] = (0, {ol[0]: 1}) if len(ol) == 1 else None
                cur[3] = cut(prog, v)
                cur[4] = e
                if cur[0] is None and cur[1] == []:
                    # the length goes up before the byte is stored
                    pass
                continue
            g = group(prog, e.args[0])
            if g is not None:
                v = strip(e.args[1])
                it = ("lit", bytes((v.a[0] & 255,))) if isc(v) else ("byte", e.args[1])
                if cur is not None and cur[0] is None:
                    cur[0] = g[0]
                at(e, e.args[0], (1, {}), it)
        elif e.name in ("memcpy", "memmove", "llvm.memcpy"):
            g = group(prog, e.args[0])
            if g is not None:
                if cur is not None and cur[0] is None:
                    cur[0] = g[0]
                s = source(p, i, e.args[1], e.args[2], evl)
                if s and s[0] == "lit" and s[2] > 0:
                    O.problem = ("writes %d bytes more than the text has" % s[2], e)
                at(e, e.args[0], linz(e.args[2]), s or ("s", e.args[1], e.args[2]))
        elif e.name in ("u64toa", "i64toa") and group(prog, e.args[1]) is not None:
            if cur is not None and cur[0] is None:
                cur[0] = group(prog, e.args[1])[0]
            at(e, e.args[1], (0, {callterm(p, e): 1}), ("dec", e.args[0], e.name))
        elif e.name == "net_conn_out_ensure":
            close()
            O.room.append((linz(e.args[1]), e))
        elif e.name == "net_conn_out_write":
            close()
            s = source(p, i, e.args[1], e.args[2], evl)
            if s and s[0] == "lit" and s[2] > 0:
                O.problem = ("writes %d bytes more than the text has" % s[2], e)
            O.put(s or ("s", e.args[1], e.args[2]))
            O.last = e
        elif e.name == "net_conn_out_write_byte":
            close()
            v = strip(e.args[1])
            O.put(("lit", bytes((v.a[0] & 255,))) if isc(v) else ("byte", e.args[1]))
            O.last = e
        elif e.name.startswith(calls):
            close()
            O.put(("call", e))
            O.last = e
    close()
    return O


def cut(prog, v):
    """the end of the output given as address difference: out + k - out + outlen"""
    return v


def callterm(p, e):
    for r in [e.res] if hasattr(e, "res") and isinstance(e.res, T) else []:
        return r
    return None


def fixlit(items):
    return [(i[0], i[1]) if i[0] == "lit" else i for i in items]


def shape(items):
    """a short form for comparison and messages"""
    out = []
    for i in items:
        if i[0] == "lit":
            b = i[1] if isinstance(i[1], bytes) else i[1].encode("latin1")
            out.append(b.decode("latin1"))
        elif i[0] == "dec":
            out.append("<number>")
        elif i[0] == "s":
            out.append("<bytes>")
        elif i[0] == "fmt":
            out.append("<%s>" % i[1])
        elif i[0] == "byte":
            out.append("<byte>")
        else:
            out.append("<%s>" % i[1].name)
    return out


def bufoutput(prog, p, names=("buf_append", "buf_append_byte")):
    """what a path appends to a growing buffer: items as in output()"""
    O = Out()
    for i, e in enumerate(p.ev):
        if e.name == "buf_append":
            s = source(p, i, e.args[1], e.args[2], p.ev)
            O.put(s or ("s", e.args[1], e.args[2]))
            O.last = e
        elif e.name == "buf_append_byte":
            v = strip(e.args[1])
            O.put(("lit", bytes((v.a[0] & 255,))) if isc(v) else ("byte", e.args[1]))
            O.last = e
    return O
