"""C35: every command line option sets what it is documented to set, and nothing else."""
from guards import G
from gensim import func
from psim import show
import ir

EXPLAIN = {}
from p_sem import ASSUME
READ = "an option's value is the text given for it"
WIRE = "an option takes effect where it is documented to"
BAD = "a value that is not yes or no is refused"
LIMIT = "a number out of range is replaced by the documented limit"
PASS = "the network layer and the cache use the values they are given"
DEFAULT = "an option that is not given has its documented default"

# option -> (destination struct, member, {"yes": value, "no": value} or None)
YN = {"yes": 1, "no": 0}
NY = {"yes": 0, "no": 1}
NET = "struct.net_opts"
POGO = "struct.pogocache_opts"
DEST = [("-h", NET, "host", None), ("-p", NET, "port", None), ("--port", NET, "port", None), ("-s", NET, "unixsock", None),
        ("--reuseport", NET, "reuseport", YN), ("--tcpnodelay", NET, "tcpnodelay", YN), ("--keepalive", NET, "keepalive", YN),
        ("--quickack", NET, "quickack", YN), ("--backlog", NET, "backlog", None), ("--queuesize", NET, "queuesize", None),
        ("--threads", NET, "nthreads", None), ("-t", NET, "nthreads", None), ("--maxconns", NET, "maxconns", None),
        ("--warmup", NET, "nowarmup", {"no": 1, "yes": 0}), ("--uring", NET, "nouring", {"no": 1}),
        ("--seed", POGO, "seed", None), ("--shards", POGO, "nshards", None), ("--loadfactor", POGO, "loadfactor", None),
        ("--cas", POGO, "usecas", YN), ("--sixpack", POGO, "nosixpack", NY), ("--evict", POGO, "noevict", NY)]
CONST = [(POGO, "allowshrink", 1), (POGO, "usethreadbatch", 1)]
FUNC = [(NET, "listening", "listening"), (NET, "ready", "ready"), (NET, "data", "evdata"), (NET, "opened", "evopened"), (NET, "closed", "evclosed"),
        (POGO, "malloc", "xmalloc"), (POGO, "free", "xfree")]
YESNO = ("--reuseport", "--tcpnodelay", "--keepalive", "--quickack", "--uring", "--cas", "--sixpack", "--evict", "--autosweep", "--trackallocs")
DEFAULTS = {"-h": "127.0.0.1", "-p": "9401", "-s": "", "--maxmemory": "80%", "--evict": "yes", "--persist": "", "--maxconns": 1024, "--auth": "",
            "--shards": 4096, "--backlog": 1024, "--queuesize": 128, "--reuseport": "no", "--tcpnodelay": "yes", "--quickack": "no",
            "--loadfactor": 75, "--autosweep": "yes", "--sixpack": "yes", "--cas": "no", "--keepalive": "yes"}
NUM = ("--threads", "-t", "--shards", "--backlog", "--queuesize", "--maxconns", "--loadfactor")
CTX = {"tcpnodelay": 1, "keepalive": 1, "quickack": 1, "maxconns": 1, "queuesize": 1, "nthreads": 1, "data": 1, "opened": 1, "closed": 1, "udata": 1, "unixsock": 1}
CACHE = {"usecas": 1, "nosixpack": 1, "noevict": 1, "seed": 1, "allowshrink": 1, "usethreadbatch": 1, "yield": 1, "evicted": 1, "notify": 1, "udata": 1}


def C35(prog, R, tier):
    EXPLAIN["C35"] = ("main with its option table: for every option the value read for it, where it is stored, every value yes or no selects at its "
                      "destination (the options of the network layer and of the cache), which values let the server start, the limits, the defaults and "
                      "the copies made in net_main and pogocache_new")
    F = func(prog, "main", "main.c") or func(prog, "main")
    if F is None:
        R.unknown += 1
        return
    R.analysed(F)
    g = G(prog, F)
    O = Opts(prog, R, F, g)
    O.read()
    O.wire()
    O.refuse()
    O.limits()
    O.defaults()
    copies(prog, R)
    memory(prog, R)


class Opts:
    def __init__(self, prog, R, F, g):
        self.prog, self.R, self.F, self.g = prog, R, F, g
        self.opt = {}       # option -> set of globals
        self.cst = {}       # option -> {global: string}

    def where(self, I):
        return "%s:%s" % (I.fn.file if getattr(I, "fn", None) is not None else self.F.file, I.line)

    # what an option writes
    def option(self, b):
        """(option, by '=', comparison's text) whose text the command line argument has at block b"""
        g = self.g
        for c, t in g.guards(b):
            s = g.streq(c)
            if s is None or s[2] != t or not s[1].startswith("-"):
                continue
            a = g.d(g.strip(s[0]))
            if a is None or a.op != "load":
                continue
            eq = s[1].endswith("=")
            return (s[1][:-1] if eq else s[1]), eq, s[0]
        return None

    def read(self):
        g, R = self.g, self.R
        for I in g.insts():
            if I.op != "store":
                continue
            n = g.gname(I.a[1])
            if n is None:
                continue
            o = self.option(g.blk[I.id])
            if o is None:
                continue
            name, eq, text = o
            v = g.strip(I.a[0])
            lit = g.string(v)
            if lit is not None:
                self.cst.setdefault(name, {})[n] = lit
                continue
            if v[0] == "c":
                self.cst.setdefault(name, {})[n] = v[1]
                continue
            D = g.d(v)
            conv = g.callname(D) if D is not None else None
            if conv in ("atoi", "atol", "strtol", "strtoul", "strtoull", "strtoll", "atoll"):
                v = g.strip(D.a[0])
                D = g.d(v)
                if conv.startswith("strto") and len(g.d(g.strip(I.a[0])).a) > 2:
                    b = g.d(g.strip(I.a[0])).a[2]
                    R.check(b[0] != "c" or b[1] == 10, READ, "base|" + name, self.where(I), "%s: the number given for %s is not read as decimal" % (self.F.name, name))
            self.opt.setdefault(name, set()).add(n)
            if D is None:
                R.unknown += 1
                continue
            if eq:
                # argv[i] + length of "--name="
                if D.op == "getelementptr" and self.offset(D) is not None and g.same(self.gbase(D), text):
                    R.check(self.offset(D) == len(name) + 1, READ, "text|" + name, self.where(I),
                            "%s: takes the wrong part of the text for the value of %s=" % (self.F.name, name))
                elif D.op == "load" and g.same(v, text):
                    R.check(False, READ, "text|" + name, self.where(I), "%s: takes the option itself for the value of %s=" % (self.F.name, name))
                else:
                    R.unknown += 1
            else:
                if D.op == "load" and g.d(D.a[0]) is not None and g.d(D.a[0]).op == "getelementptr":
                    k = self.step(g.d(D.a[0]), g.d(g.d(g.strip(text)).a[0]))
                    if k is None:
                        R.unknown += 1
                    else:
                        R.check(k == 1, READ, "next|" + name, self.where(I), "%s: takes the wrong argument for the value of %s" % (self.F.name, name))
                else:
                    R.unknown += 1

    def gbase(self, D):
        g = self.g
        o = D.a[0]
        for _ in range(4):
            I = g.d(g.strip(o))
            if I is None or I.op != "getelementptr":
                break
            o = I.a[0]
        return o

    def offset(self, D):
        """constant number of bytes an address lies after the text it is derived from"""
        g, k = self.g, 0
        for _ in range(4):
            k += D.d.get("off", 0)
            for v, sc in D.d.get("vars", []):
                c = self.number(tuple(v))
                if c is None:
                    return None
                k += c * sc
            N = g.d(g.strip(D.a[0]))
            if N is None or N.op != "getelementptr":
                return k
            D = N
        return None

    def number(self, o):
        g = self.g
        o = g.strip(o)
        if o[0] == "c":
            return o[1]
        I = g.d(o)
        if I is None:
            return None
        if I.op == "add":
            a, b = self.number(I.a[0]), self.number(I.a[1])
            return None if a is None or b is None else a + b
        if g.callname(I) == "strlen":
            t = g.string(g.strip(I.a[0]))
            return len(t) if t is not None else None
        return None

    def step(self, A, B):
        """how many arguments A lies after B"""
        g = self.g
        if A is None or B is None or A.op != "getelementptr" or B.op != "getelementptr" or not g.same(A.a[0], B.a[0]):
            return None
        va, vb = A.d.get("vars", []), B.d.get("vars", [])
        if len(va) != 1 or len(vb) != 1 or va[0][1] != vb[0][1]:
            return None
        ka, xa = self.lin(tuple(va[0][0]))
        kb, xb = self.lin(tuple(vb[0][0]))
        if not g.same(xa, xb):
            return None
        return ka - kb + (A.d.get("off", 0) - B.d.get("off", 0)) // va[0][1]

    def lin(self, o):
        g, k = self.g, 0
        o = g.strip(o)
        for _ in range(6):
            I = g.d(o)
            if I is not None and I.op == "add" and I.a[1][0] == "c":
                k += I.a[1][1]
                o = g.strip(I.a[0])
            else:
                break
        return k, o

    # where it goes
    def dests(self, st):
        """member -> value operands stored to the options structure"""
        g, out = self.g, {}
        for I in g.insts():
            if I.op != "store":
                continue
            A = g.d(I.a[1])
            if A is None or A.op != "getelementptr" or not A.d.get("path"):
                continue
            s, off = A.d["path"][-1]
            if s != st:
                continue
            try:
                m = self.prog.member(s, off)
            except Exception:
                continue
            out.setdefault(m, []).append((I.a[0], I))
        return out

    def wire(self):
        g, R = self.g, self.R
        D = {NET: self.dests(NET), POGO: self.dests(POGO)}
        for opt, st, mem, val in DEST:
            xs = self.opt.get(opt, set())
            ds = D[st].get(mem)
            if not D[st]:
                R.unknown += 1
                continue
            if not xs:
                if self.known(opt):
                    R.check(False, WIRE, "value|" + opt, self.where(self.known(opt)), "%s: the value of %s is not kept" % (self.F.name, opt))
                elif len(self.opt) > 5:
                    R.check(False, WIRE, "accepted|" + opt, "%s:%s" % (self.F.file, self.F.line), "%s: %s is not an option" % (self.F.name, opt))
                continue
            if ds is None:
                if len(D[st]) > 5:
                    R.check(False, WIRE, "dest|%s" % opt, self.where(next(iter(D[st].values()))[0][1]), "%s: %s has no effect" % (self.F.name, opt))
                continue
            for v, I in ds:
                dep = [x for x in xs if g.depends2(v, x)]
                R.check(bool(dep), WIRE, "dest|%s" % opt, self.where(I), "%s: %s has no effect on %s" % (self.F.name, opt, mem))
                for x in dep:
                    for lit, want in (val or {}).items():
                        got = g.eval(v, x, lit)
                        if None in got or not got:
                            R.unknown += 1
                            continue
                        R.check(got == {want}, WIRE, "%s %s" % (opt, lit), self.where(I),
                                "%s: %s %s sets %s to %s" % (self.F.name, opt, lit, mem, "/".join(str(k) for k in sorted(got))))
        for st, mem, want in CONST:
            for v, I in D[st].get(mem, []):
                if v[0] == "c":
                    R.check((v[1] & 1) == want, WIRE, "const|" + mem, self.where(I), "%s: %s is switched off" % (self.F.name, mem))
            if len(D[st]) > 5 and mem not in D[st]:
                R.check(False, WIRE, "const|" + mem, "%s:%s" % (self.F.file, self.F.line), "%s: %s is not set" % (self.F.name, mem))
        for st, mem, want in FUNC:
            ds = D[st].get(mem)
            if ds is None:
                if len(D[st]) > 5:
                    R.check(False, WIRE, "func|" + mem, "%s:%s" % (self.F.file, self.F.line), "%s: no function is given for %s" % (self.F.name, mem))
                continue
            for v, I in ds:
                if v[0] == "f":
                    H = func(self.prog, v[1].split(":")[-1])
                    if H is not None and not self.prog.isnew(H):
                        R.check(H.name == want, WIRE, "func|" + mem, self.where(I), "%s: %s is given for %s" % (self.F.name, H.name, mem))
        # levels of detail
        for opt, lv in (("-v", 1), ("-vv", 2), ("-vvv", 3)):
            c = self.cst.get(opt)
            if c:
                R.check(lv in c.values(), WIRE, opt, "%s:%s" % (self.F.file, self.F.line), "%s: %s selects another level of detail" % (self.F.name, opt))
        c = self.cst.get("-M")
        ev = self.opt.get("--evict")
        if c and ev:
            R.check(any(c.get(x) == "no" for x in ev), WIRE, "-M", "%s:%s" % (self.F.file, self.F.line), "%s: -M does not switch eviction off" % self.F.name)
        # calls that depend on an option
        self.calls()

    def known(self, opt):
        """a comparison of an argument with the option's name"""
        g = self.g
        for I in g.insts():
            if I.op == "icmp":
                s = g.streq(("v", I.id))
                if s and s[1].rstrip("=") == opt:
                    return I
        return None

    def calls(self):
        g, R = self.g, self.R
        for opt, callee, want in (("--autosweep", "autosweepticker", YN),):
            H = self.F
            xs = self.opt.get(opt)
            if not xs:
                R.unknown += 1
                continue
            # the flag the start depends on
            def creates(K, seen=()):
                return any(J.op == "call" and J.callee and J.callee[0] == "f" and
                           (J.callee[1] == "pthread_create" or J.callee[1] not in seen and J.callee[1] in H.mod.funcs and H.mod.funcs[J.callee[1]].internal and
                            creates(H.mod.funcs[J.callee[1]], seen + (K.name, J.callee[1]))) for J in K.insts())

            def used(nm):
                """handed to something, not necessarily to pthread_create itself"""
                return any(I.op == "call" and I.a and any(o and o[0] == "f" and o[1].split(":")[-1] == nm for o in I.a) for I in h.insts()) or \
                    any(I.op == "store" and any(o and o[0] == "f" and o[1].split(":")[-1] == nm for o in I.a) for I in h.insts())
            h = G(self.prog, H, lambda K, I: self.prog.isnew(K) or K.mod is H.mod and K.internal and creates(K))
            starts = [I for I in h.insts() if h.callname(I) == "pthread_create" and len(I.a) > 2 and I.a[2][0] == "f" and I.a[2][1].split(":")[-1] == callee]
            flags = set()
            for I in starts:
                for c, t in h.guards(h.blk[I.id]):
                    n = h.flagof(c)
                    if n:
                        flags.add((n[0], n[1] == t))
            if not starts:
                if not used(callee) and any(h.callname(I) == "pthread_create" for I in h.insts()):
                    R.check(False, WIRE, opt, "%s:%s" % (H.file, H.line), "%s: the work switched on by %s is never started" % (H.name, opt))
                continue
            for f, sense in flags:
                for x in xs:
                    if not any(g.depends2(S.a[0], x) or any(g.depends2(c, x) for c, t in g.guards(g.blk[S.id])) for S in g.stores(f)):
                        R.check(False, WIRE, opt, self.where(starts[0]), "%s: the work started does not depend on %s" % (H.name, opt))
                        continue
                    for lit, want_ in want.items():
                        got = g.evalglobal(f, x, lit)
                        if None in got or not got:
                            R.unknown += 1
                            continue
                        R.check(got == {want_ if sense else 1 - want_}, WIRE, "%s %s" % (opt, lit), self.where(starts[0]),
                                "%s: %s %s has the opposite effect" % (H.name, opt, lit))
            if not flags:
                R.check(False, WIRE, opt, self.where(starts[0]), "%s: starts the work of %s whatever was chosen" % (H.name, opt))
            for nm in ("sigtermticker", "memticker"):
                st = [I for I in h.insts() if h.callname(I) == "pthread_create" and len(I.a) > 2 and I.a[2][0] == "f" and I.a[2][1].split(":")[-1] == nm]
                if not st and used(nm):
                    R.unknown += 1
                    continue
                R.check(bool(st), WIRE, nm, "%s:%s" % (H.file, H.line), "%s: %s is never started" % (H.name, nm))
                for I in st:
                    fl = [h.flagof(c) for c, t in h.guards(h.blk[I.id])]
                    R.check(not any(fl), WIRE, nm, self.where(I), "%s: %s is started only with %s" % (H.name, nm, fl and fl[0] and fl[0][0]))
        # a byte limit
        xs = self.opt.get("--maxmemory")
        if xs:
            for I in g.insts():
                if g.callname(I) == "calc_memlimit":
                    R.check(g.loadof(I.a[0]) in xs or any(g.depends2(I.a[0], x) for x in xs), WIRE, "--maxmemory", self.where(I),
                            "%s: the memory limit is not computed from --maxmemory" % self.F.name)
        # a password and a file
        for opt, n in (("--auth", "auth"), ("--persist", "persist")):
            xs = self.opt.get(opt)
            if xs is not None:
                R.check(n in xs, WIRE, opt, "%s:%s" % (self.F.file, self.F.line), "%s: %s is not kept where it is used" % (self.F.name, opt))

    # values that are refused
    def reach(self, var, lit):
        """can the server start when the option's text is lit?"""
        g = self.g
        goal = {g.blk[I.id] for I in g.insts() if g.callname(I) == "net_main"}
        if not goal:
            return None
        seen, todo = {g.f.entry}, [g.f.entry]
        while todo:
            b = todo.pop()
            if b in goal:
                return True
            if any(I.op == "call" and g.callname(I) in ("exit", "abort", "_exit") for I in g.f.blocks[b].insts):
                continue
            for s in g.f.blocks[b].succs:
                e = g.edge(b, s)
                if e is not None:
                    v = g.eval(e[0], var, lit)
                    if len(v) == 1 and None not in v and bool(v & {1}) != e[1]:
                        continue
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return False

    def refuse(self):
        R = self.R
        for opt in YESNO:
            for x in self.opt.get(opt, ()):
                for lit in ("yes", "no"):
                    k = self.reach(x, lit)
                    if k is None:
                        R.unknown += 1
                        continue
                    R.check(k, BAD, "%s %s" % (opt, lit), "%s:%s" % (self.F.file, self.F.line), "%s: %s %s is refused" % (self.F.name, opt, lit))
                for lit in ("", "y", "yess", "YES"):
                    k = self.reach(x, lit)
                    if k is None:
                        R.unknown += 1
                        continue
                    R.check(not k, BAD, "%s %r" % (opt, lit), "%s:%s" % (self.F.file, self.F.line), "%s: %s %r is accepted" % (self.F.name, opt, lit))

    # numbers
    def limits(self):
        R = self.R
        want = {"--threads": {64: {64}, 1: {1}, 4096: {4096}, 5000: {4096}, 4097: {4096}}, "--shards": {1: {1}, 100: {100}, 65536: {65536}, 65537: {65536}, 0: {4096}},
                "--queuesize": {128: {128}, 1: {1}, 0: {1}, -5: {1}, 4096: {4096}, 4097: {4096}}, "--maxconns": {1: {1}, 5000: {5000}, 0: {1024}, 100000: {100000}},
                "--loadfactor": {55: {55}, 75: {75}, 95: {95}, 54: {55}, 96: {95}, 0: {55}}, "--backlog": {1: {1}, 50: {50}, 5000: {5000}}}
        D = {st: self.dests(st) for st in (NET, POGO)}
        for opt, cases in want.items():
            dst = [(st, m) for o, st, m, v in DEST if o == opt]
            for x in self.opt.get(opt, ()):
                for st, m in dst:
                    for v, I in D[st].get(m, []):
                        for n, w in cases.items():
                            got = self.propagate(x, n, v, self.g.blk[I.id])
                            if got is None or None in got or not got:
                                R.unknown += 1
                                continue
                            R.check(got == w, LIMIT, "%s %d" % (opt, n), self.where(I), "%s: %s %d becomes %s" %
                                    (self.F.name, opt, n, "/".join(str(k) for k in sorted(got))))
        for opt, st, m, val in DEST:
            if val is not None:
                continue
            for x in self.opt.get(opt, ()):
                self.kept(opt, x, [(v, I) for v, I in D[st].get(m, [])])

    def kept(self, opt, x, ds):
        """nothing replaces the value on every way to where it is used"""
        g = self.g
        own = [S for S in g.stores(x) if self.option(g.blk[S.id]) is not None]
        for S in g.stores(x):
            b = g.blk[S.id]
            if self.option(b) is not None or g.depends2(S.a[0], x):
                continue
            for v, I in ds:
                if g.loadof(v) == x and ir.dominates(g.f, b, g.blk[I.id]) and any(self.reaches(g.blk[o.id], b) for o in own):
                    self.R.check(False, WIRE, "kept|" + opt, self.where(S), "%s: the value of %s is replaced" % (self.F.name, opt))
                else:
                    self.R.ok(WIRE, "kept|" + opt)

    def reaches(self, a, b):
        seen, todo = {a}, [a]
        while todo:
            for s in self.g.f.blocks[todo.pop()].succs:
                if s == b:
                    return True
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return False

    def propagate(self, x, n, dest, db, cap=20000):
        """values of an operand at block db when the option's number is n; None stands for an unknown one"""
        g, f = self.g, self.g.f
        deps = {}
        for I in g.insts():
            if I.op == "phi" and I.d.get("t") not in ("i1", "i8", "ptr"):
                deps[I.id] = None
        rel = [i for i in deps if g.depends(("v", i), x)]

        def val(o, X, env, d=0):
            o = g.strip(o)
            if o[0] == "c":
                return o[1]
            I = g.d(o)
            if I is None or d > 12:
                return None
            if I.id in env:
                return env[I.id]
            if I.op == "load" and g.gname(I.a[0]) == x:
                return X
            if I.op == "icmp":
                a, b = val(I.a[0], X, env, d + 1), val(I.a[1], X, env, d + 1)
                if a is None or b is None:
                    return None
                p = I.d["p"]
                if p[0] == "u" and (a < 0 or b < 0):
                    return None
                p = p[1:] if p not in ("eq", "ne") else p
                return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])
            if I.op == "select":
                c = val(I.a[0], X, env, d + 1)
                return None if c is None else val(I.a[1] if c else I.a[2], X, env, d + 1)
            if I.op in ("add", "sub"):
                a, b = val(I.a[0], X, env, d + 1), val(I.a[1], X, env, d + 1)
                return None if a is None or b is None else a + b if I.op == "add" else a - b
            return None
        out, seen = set(), set()
        todo = [(f.entry, n, ())]
        while todo:
            st = todo.pop()
            if st in seen:
                continue
            seen.add(st)
            if len(seen) > cap:
                return None
            b, X, en = st
            env = dict(en)
            stop = False
            for I in f.blocks[b].insts:
                if I.op == "store" and g.gname(I.a[1]) == x:
                    X = n if self.option(b) is not None else val(I.a[0], X, env)
                elif I.op == "call" and g.callname(I) in ("exit", "abort"):
                    stop = True
                    break
            if stop:
                continue
            if b == db:
                out.add(val(dest, X, env))
                continue
            for s in f.blocks[b].succs:
                e = g.edge(b, s)
                if e is not None:
                    c = val(e[0], X, env)
                    if c is not None and bool(c) != e[1]:
                        continue
                ne = dict(env)
                for I in f.blocks[s].insts:
                    if I.op != "phi":
                        break
                    if I.id in rel:
                        for v, p in I.a:
                            if p == b:
                                w = val(v, X, env)
                                if w is None:
                                    ne.pop(I.id, None)
                                else:
                                    ne[I.id] = w
                todo.append((s, X, tuple(sorted(ne.items()))))
        return out

    def bound(self, c, t, x):
        """('above', k): the value is above k; ('below', k)"""
        g = self.g
        I = g.d(g.strip(c))
        if I is None or I.op != "icmp" or len(I.a) != 2 or I.a[1][0] != "c" or g.loadof(I.a[0]) != x:
            return None
        p, k = I.d.get("p"), I.a[1][1]
        p = p[1:] if p and p[0] in "su" else p
        if not t:
            p = {"gt": "le", "ge": "lt", "lt": "ge", "le": "gt"}.get(p)
        return {"gt": ("above", k), "ge": ("above", k - 1), "lt": ("below", k), "le": ("below", k + 1)}.get(p)

    def defaults(self):
        R = self.R
        M = self.F.mod
        for opt, want in DEFAULTS.items():
            for x in self.opt.get(opt, ()):
                gl = M.globals.get(x)
                if not gl or "init" not in gl:
                    R.unknown += 1
                    continue
                got = self.init(M, gl["init"])
                if got is None:
                    R.unknown += 1
                    continue
                R.check(got == want, DEFAULT, opt, "%s:%s" % (self.F.file, gl.get("line")), "%s is %r unless given, not %r" % (opt, got, want))

    def init(self, M, i):
        if not i:
            return None
        if i[0] == "c":
            return i[1]
        if i[0] == "s":
            return i[1].rstrip("\0")
        if i[0] == "g":
            n = str(i[1]).split(":")[-1]
            h = M.globals.get(n)
            return self.init(M, h.get("init")) if h and h.get("const") else None
        if i[0] == "z":
            return ""
        return None


def copies(prog, R):
    for fn, src, dst, ms, neg in (("net_main", NET, "struct.qthreadctx", CTX, {"uring": "nouring"}), ("pogocache_new", POGO, "struct.pgctx", CACHE, {})):
        F = func(prog, fn)
        if F is None:
            R.unknown += 1
            continue
        R.analysed(F)
        g = G(prog, F, lambda H, I: prog.isnew(H) or H.mod is F.mod and H.internal and H.name == "opts_to_ctx")
        got = {}
        for I in g.insts():
            if I.op != "store":
                continue
            A = g.d(I.a[1])
            if A is None or A.op != "getelementptr" or not A.d.get("path"):
                continue
            s, off = A.d["path"][-1]
            if s != dst:
                continue
            try:
                m = prog.member(s, off)
            except Exception:
                continue
            got.setdefault(m, []).append(I)
        for m in list(ms) + list(neg):
            want = neg.get(m, m)
            sts = got.get(m)
            if not sts:
                if len(got) > 5:
                    R.check(False, PASS, "%s|%s" % (fn, m), "%s:%s" % (F.file, F.line), "%s: %s is not passed on" % (fn, m))
                continue
            for I in sts:
                n, f = negload(prog, g, I.a[0])
                if f is None or f[0] != src:
                    R.unknown += 1
                    continue
                R.check(f[1] == want and n == (m in neg), PASS, "%s|%s" % (fn, m), "%s:%s" % (F.file, I.line), "%s: %s is set from %s%s" % (fn, m, "the opposite of " if n else "", f[1]))
        # listeners
        if fn == "net_main":
            seen = set()
            for I in g.insts():
                c = g.callname(I)
                if c in ("listen_tcp", "listen_unixsock"):
                    H = func(prog, c)
                    fs = [negload(prog, g, a)[1] for a in I.a]
                    names = [x[1] if x and x[0] == NET else None for x in fs]
                    want = ["host", ("port", "tlsport"), "reuseport", "backlog"] if c == "listen_tcp" else ["unixsock", "backlog"]
                    for k, w in enumerate(want):
                        if k < len(names) and names[k] is not None:
                            ok = names[k] in w if isinstance(w, tuple) else names[k] == w
                            R.check(ok, PASS, "%s|%s %d" % (fn, c, k), "%s:%s" % (F.file, I.line), "%s: %s is given %s" % (fn, c, names[k]))
                            seen.add(names[k])
            for w in ("port", "unixsock"):
                if seen:
                    R.check(w in seen, PASS, "%s|%s" % (fn, w), "%s:%s" % (F.file, F.line), "%s: never listens on %s" % (fn, w))


def negload(prog, g, o):
    """(negated, (struct, member)) of a loaded option"""
    neg = False
    o = g.strip(o)
    for _ in range(8):
        I = g.d(o)
        if I is None:
            return neg, None
        if I.op == "xor" and I.a[1][0] == "c":
            neg = not neg
            o = g.strip(I.a[0])
        elif I.op == "icmp" and I.a[1][0] == "c" and I.a[1][1] == 0:
            neg = neg != (I.d["p"] == "eq")
            o = g.strip(I.a[0])
        elif I.op == "load":
            A = g.d(I.a[0])
            if A is None or A.op != "getelementptr" or not A.d.get("path"):
                # first member
                return neg, None
            s, off = A.d["path"][-1]
            try:
                return neg, (s, prog.member(s, off))
            except Exception:
                return neg, None
        else:
            return neg, None
    return neg, None


def memory(prog, R):
    """the unit of a memory limit"""
    F = func(prog, "calc_memlimit", "main.c")
    if F is None:
        R.unknown += 1
        return
    R.analysed(F)
    g = G(prog, F)
    rets = [I for I in g.insts() if I.op == "ret"]
    vals = []
    for I in rets:
        P = g.d(I.a[0])
        if P is not None and P.op == "phi":
            vals += [(v, p) for v, p in P.a]
        else:
            vals.append((I.a[0], g.blk[I.id]))
    unit = {"k": 1 << 10, "m": 1 << 20, "g": 1 << 30, "t": 1 << 40}
    for v, b in vals:
        I = g.d(g.strip(v))
        gs = g.guards(b)
        if v[0] == "c":
            if v[1] in (-1, (1 << 64) - 1):
                ok = any(s and s[1] == "unlimited" and s[2] == t for s, t in ((g.streq(c), t) for c, t in gs))
                R.check(ok, LIMIT, "unlimited", "%s:%s" % (F.file, F.line), F.name + ": memory is not limited although a limit was given")
            continue
        if I is None or I.op not in ("fptoui", "fptosi"):
            R.unknown += 1
            continue
        mul, div, mem, base = 1.0, 1.0, False, None
        todo = [(I.a[0], 1)]
        bad = False
        while todo:
            o, sg = todo.pop()
            if o[0] == "d":
                mul, div = (mul * float(o[1]), div) if sg > 0 else (mul, div * float(o[1]))
                continue
            K = g.d(o)
            if K is not None and K.op == "fmul":
                todo += [(K.a[0], sg), (K.a[1], sg)]
            elif K is not None and K.op == "fdiv":
                todo += [(K.a[0], sg), (K.a[1], -sg)]
            elif K is not None and K.op == "uitofp" and g.loadof(K.a[0]) == "sysmem" and sg > 0:
                mem = True
            elif K is not None and g.callname(K) == "strtod" and sg > 0:
                base = True
            else:
                bad = True
        if bad or not base:
            R.unknown += 1
            continue
        which = None
        for c, t in gs:
            s = g.streq(c)
            if s is not None and s[2] == t and s[1] in ("", "%"):
                which = s[1]
                break
            K = g.d(g.strip(c))
            if K is not None and K.op == "icmp" and K.d.get("p") == "eq" and t and K.a[1][0] == "c" and chr(K.a[1][1] & 127).lower() in unit and \
                    g.callname(g.d(g.strip(K.a[0]))) in ("tolower", "toupper"):
                which = chr(K.a[1][1] & 127).lower()
                break
        if which is None:
            R.unknown += 1
            continue
        k = mul / div
        if which == "%":
            R.check(mem and abs(k - 0.01) < 1e-9, LIMIT, "unit %", "%s:%s" % (F.file, I.line), F.name + ": a percentage is not taken of the system's memory")
        else:
            R.check(not mem and k == unit.get(which, 1), LIMIT, "unit " + which, "%s:%s" % (F.file, I.line), "%s: '%s' stands for %g bytes" % (F.name, which, k))
