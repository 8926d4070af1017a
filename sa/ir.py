"""Loads the JSON written by tool/irx (debug-info-resolved LLVM IR of /repo's
current sources) and offers the resolved program: functions, struct members,
globals, call graph, flattening (inlining) and CFG services."""
import json, os, subprocess, shutil, tempfile, sys, hashlib, concurrent.futures

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
# defines of the configuration that /opt/vp/build.sh builds
DEFS = ["-DCCSANI", "-DNOMIMALLOC", "-DNOJEMALLOC", "-DNOURING", "-DNOOPENSSL"]
SKIP = {"lz4.c"}          # vendored, uncalled-into by any rule
STUBS = ["sa_stub_engine.c"]   # models of the engine for analyses of its callers


class Broken(Exception):
    """The analysis could not be carried out (not a verdict)."""


def build_irx():
    src = os.path.join(VERIF, "tool", "irx.cpp")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(VERIF, "tool", "build", "irx-" + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh"), tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise Broken("irx does not build: " + r.stdout.decode()[-2000:])
        os.replace(tmp, out)
    return out


def load_program(repo=None, only=None):
    repo = repo or REPO
    irx = build_irx()
    tmp = tempfile.mkdtemp(prefix="sa-")
    try:
        src = os.path.join(repo, "src")
        work = os.path.join(tmp, "src")
        os.makedirs(work)
        cs = []
        for f in sorted(os.listdir(src)):
            if f.endswith((".c", ".h")):
                shutil.copyfile(os.path.join(src, f), os.path.join(work, f))
                if f.endswith(".c") and f not in SKIP and (only is None or f in only):
                    cs.append(f)
        for f in STUBS:
            shutil.copyfile(os.path.join(HERE, "stubs", f), os.path.join(work, f))
            if only is None:
                cs.append(f)
        gi = os.path.join(work, "gitinfo.h")
        if not os.path.exists(gi):
            with open(gi, "w") as f:
                f.write('char GITHASH[] = "x";\nchar GITVERS[] = "0";\n')
        # sources may include the licence or other generated files by path
        def comp(f):
            bc = os.path.join(tmp, f[:-2] + ".bc")
            r = subprocess.run(["clang", "-O0", "-g", "-Xclang", "-disable-O0-optnone",
                                "-w", "-emit-llvm", "-c"] + DEFS + [f, "-o", bc],
                               cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise Broken("does not compile: %s\n%s" % (f, r.stdout.decode()[-2000:]))
            return bc
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(comp, cs))
        js = os.path.join(tmp, "all.json")
        r = subprocess.run([irx, js] + bcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise Broken("irx failed: " + r.stdout.decode()[-2000:])
        with open(js) as f:
            d = json.load(f)
        return Program(d, repo)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


class Inst:
    __slots__ = ("id", "op", "ty", "a", "line", "d", "fn", "stk", "blk", "callee")

    def __init__(self, id, op, ty, a, line, d, fn, stk=()):
        self.id = id; self.op = op; self.ty = ty; self.a = a; self.line = line
        self.d = d; self.fn = fn; self.stk = stk; self.blk = None
        self.callee = None

    @property
    def loc(self):
        return "%s:%d" % (self.fn.file, self.line or self.fn.line)

    def where(self):
        s = "%s in %s()" % (self.loc, self.fn.name)
        for (f, l) in reversed(self.stk):
            s += " called at %s:%d" % (f.file, l)
        return s


class Block:
    __slots__ = ("id", "insts", "succs", "preds")

    def __init__(self, id):
        self.id = id; self.insts = []; self.succs = []; self.preds = []


class Func:
    def __init__(self, mod, d):
        self.mod = mod
        self.name = d["name"]
        self.internal = d["internal"]
        self.file = os.path.basename(d.get("file", mod.name))
        self.line = d.get("line", 0)
        self.ditypes = d.get("ditypes", [])
        self.params = d["params"]
        self.ret = d["ret"]
        self.d = d
        self.blocks = {}
        self.names = {}     # value id -> variable name
        for n in d["names"]:
            if n[0][0] == "v":
                self.names.setdefault(n[0][1], (n[1], n[2]))
        nid = 0
        for b in d["blocks"]:
            B = Block(b["id"])
            self.blocks[B.id] = B
            for i in b["insts"]:
                I = Inst(i["i"], i["o"], i["t"], tup(i.get("a", [])), i.get("l", 0), i, self)
                if "f" in i:
                    I.callee = tup(i["f"])
                I.blk = B.id
                B.insts.append(I)
                nid = max(nid, I.id)
        self.nid = max([nid] + [p["i"] for p in self.params]) + 1
        self.entry = 0
        link(self)

    @property
    def key(self):
        return (self.mod.name, self.name)

    def insts(self):
        for b in self.blocks.values():
            for i in b.insts:
                yield i

    def __repr__(self):
        return "<%s:%s>" % (self.file, self.name)


def succs_of(t):
    if t.op == "br":
        return list(dict.fromkeys(t.d["s"]))
    if t.op == "switch":
        s = [c[1] for c in t.d["cases"]] + [t.d["def"]]
        return list(dict.fromkeys(s))
    return []


def link(f):
    for b in f.blocks.values():
        b.preds = []
        b.succs = []
    for b in f.blocks.values():
        b.succs = succs_of(b.insts[-1]) if b.insts else []
        for s in b.succs:
            f.blocks[s].preds.append(b.id)


class Module:
    def __init__(self, d):
        self.name = os.path.basename(d["src"])
        self.structs = d["structs"]
        self.enums = d["enums"]
        self.globals = {g["name"]: g for g in d["globals"]}
        self.decls = {x["name"]: x for x in d["decls"]}
        self.funcs = {}
        for f in d["functions"]:
            F = Func(self, f)
            self.funcs[F.name] = F


class Program:
    def __init__(self, d, repo):
        self.repo = repo
        self.mods = {}
        for m in d["modules"]:
            M = Module(m)
            self.mods[M.name] = M
        self.ext = {}
        self.structs = {}
        self.enums = {}
        for M in self.mods.values():
            for F in M.funcs.values():
                if not F.internal:
                    self.ext[F.name] = F
            for k, v in M.structs.items():
                self.structs.setdefault(k, v)
            for k, v in M.enums.items():
                self.enums.setdefault(k, v)
        self._off = {}
        self._mod = None
        self._ns = None
        self._callees = {}
        self._known = None

    def funcs(self):
        for M in self.mods.values():
            for F in M.funcs.values():
                yield F

    def isnew(self, F):
        """a function the analyses have no contract for: it is analysed as
        part of its callers (an extracted or renamed helper)"""
        if self._known is None:
            with open(os.path.join(VERIF, "sa", "known_functions.txt")) as f:
                self._known = set(f.read().split())
        return F.name not in self._known and not F.name.startswith("sa_stub")

    def get(self, mod, name):
        """resolve a function name as seen from module mod"""
        M = self.mods.get(mod if isinstance(mod, str) else mod.name)
        if M and name in M.funcs:
            return M.funcs[name]
        return self.ext.get(name)

    def need(self, mod, name):
        F = self.get(mod, name)
        if F is None:
            raise Broken("anchor function %s (%s) not found" % (name, mod))
        return F

    def gname(self, mod, name):
        """program-wide name of a global"""
        g = mod.globals.get(name)
        if g is not None and g["internal"]:
            return mod.name + ":" + name
        return name

    def glob(self, gname):
        if ":" in gname:
            m, n = gname.split(":", 1)
            return self.mods[m].globals.get(n)
        for M in self.mods.values():
            g = M.globals.get(gname)
            if g is not None and not g["decl"]:
                return g
        return None

    def gmod(self, gname):
        if ":" in gname:
            return self.mods[gname.split(":", 1)[0]]
        for M in self.mods.values():
            g = M.globals.get(gname)
            if g is not None and not g["decl"]:
                return M
        return None

    def never_stored(self, gname):
        """internal global that no instruction writes directly and whose
        address is not passed to a function that could write its type"""
        if self._ns is None:
            self._ns = {}
            wr = set()
            for F in self.funcs():
                for I in F.insts():
                    if I.op == "store":
                        tgt = I.a[1]
                    elif I.op in ("cmpxchg", "atomicrmw"):
                        tgt = I.a[0]
                    elif I.op == "call":
                        for a in I.a:
                            while a and a[0] == "ge":
                                a = a[1]
                            if a and a[0] == "g":
                                wr.add(self.gname(F.mod, a[1]))
                        continue
                    elif I.op == "getelementptr":
                        tgt = I.a[0]
                        if tgt[0] == "g" and I.d["vars"]:
                            pass
                        # a dynamic store through it is found by its users
                        if tgt[0] == "g":
                            uses = self._gep_written(F, I.id)
                            if not uses:
                                continue
                    else:
                        continue
                    while tgt and tgt[0] == "ge":
                        tgt = tgt[1]
                    if tgt and tgt[0] == "g":
                        wr.add(self.gname(F.mod, tgt[1]))
            self._wr = wr
        g = self.glob(gname)
        return bool(g and g["internal"] and gname not in self._wr)

    def _gep_written(self, F, vid):
        for I in F.insts():
            if I.op == "store" and I.a[1] == ("v", vid):
                return True
            if I.op == "call" and ("v", vid) in I.a:
                return True
            if I.op == "getelementptr" and I.a[0] == ("v", vid) and self._gep_written(F, I.id):
                return True
        return False

    def string(self, gname):
        g = self.glob(gname)
        if g and g.get("init") and g["init"][0] == "s":
            s = g["init"][1]
            return s[:-1] if s.endswith("\0") else s
        if g and g.get("init") and g["init"][0] == "z":
            return ""
        return None

    def member(self, st, off, bit=None):
        """name of the member of struct type st at byte offset off"""
        k = (st, off)
        if k in self._off:
            return self._off[k]
        base = st
        s = self.structs.get(base)
        if s is None and "." in base:
            parts = base.split(".")
            s = self.structs.get(".".join(parts[:2]))
        r = None
        if s:
            best = None
            for m in s["m"]:
                if m["o"] == off * 8 and (m["s"] % 8 == 0):
                    best = m
                    break
                if m["o"] <= off * 8 < m["o"] + max(m["s"], 1):
                    if best is None:
                        best = m
            if best:
                r = best["n"]
        if r is None:
            r = "+%d" % off
        self._off[k] = r
        return r

    def field_off(self, st, name):
        s = self.structs.get(st)
        if not s:
            raise Broken("struct %s not found" % st)
        for m in s["m"]:
            if m["n"] == name:
                return m["o"] // 8
        raise Broken("member %s.%s not found" % (st, name))

    def field_at(self, st, off):
        s = self.structs.get(st)
        if not s:
            return None
        for m in s["m"]:
            if m["o"] == off * 8:
                return m
        return None

    # ---- function pointers -------------------------------------------------
    def funcrefs(self):
        """functions whose address is taken, by program key"""
        out = {}
        def walk(M, x, why):
            if isinstance(x, (list, tuple)):
                if len(x) == 2 and x[0] == "f" and isinstance(x[1], str):
                    F = self.get(M, x[1])
                    if F:
                        out.setdefault(F.key, []).append(why)
                    return
                for y in x:
                    walk(M, y, why)
        for M in self.mods.values():
            for g in M.globals.values():
                if "init" in g:
                    walk(M, g["init"], ("global", g["name"]))
            for F in M.funcs.values():
                for I in F.insts():
                    for a in I.a:
                        walk(M, a, ("inst", F.name, I.line))
        return out

    def call_targets(self, I, mod=None):
        """list of Func for a direct call, [] for external, None for indirect"""
        c = I.callee
        if c is None:
            return []
        if c[0] == "f":
            F = self.get(I.fn.mod, c[1])
            return [F] if F else []
        return None

    def callees(self, F):
        if F.key in self._callees:
            return self._callees[F.key]
        s = set()
        ind = False
        for I in F.insts():
            if I.op == "call":
                t = self.call_targets(I)
                if t is None:
                    ind = True
                else:
                    s.update(x.key for x in t)
            # functions passed by address (callbacks, threads) count as callees
            for a in I.a:
                if a and a[0] == "f":
                    G = self.get(F.mod, a[1])
                    if G:
                        s.add(G.key)
        self._callees[F.key] = (s, ind)
        return self._callees[F.key]

    def byname(self, key):
        return self.mods[key[0]].funcs[key[1]]

    def reach(self, roots):
        seen = set()
        w = [r.key for r in roots]
        while w:
            k = w.pop()
            if k in seen:
                continue
            seen.add(k)
            w.extend(self.callees(self.byname(k))[0])
        return seen

    def modset_of(self, F):
        ms = self.modset()
        if isinstance(F, tuple):
            k = ("arity", F[1])
            if k not in ms:
                r = set()
                for c in self._byar.get(F[1], ()):
                    r |= ms[c]
                ms[k] = r
            return ms[k]
        return ms[F.key]

    def modset(self):
        """field-based MOD sets: function key -> set of (struct, off) written
        (transitively); '*' when an indirect call is reachable"""
        if self._mod is not None:
            return self._mod
        direct = {}
        for F in self.funcs():
            s = set()
            defs = {I.id: I for I in F.insts()}
            def st_of(op):
                if op[0] == "v" and op[1] in defs:
                    g = defs[op[1]]
                    if g.op == "getelementptr" and g.d["path"]:
                        return tuple(g.d["path"][-1])
                return None
            ptypes = {}
            for p, t in zip(F.params, F.ditypes[1:]):
                ptypes[p["i"]] = t
            for I in F.insts():
                if I.op in ("store", "cmpxchg", "atomicrmw"):
                    ptr = I.a[1] if I.op == "store" else I.a[0]
                    st = st_of(ptr)
                    if st:
                        s.add(st)
                if I.op == "call" and I.callee[0] == "f" and I.callee[1].startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                    ptr = I.a[0]
                    st = st_of(ptr)
                    if st:
                        s.add(st)
                        m = self.field_at(*st)
                        if m and m["t"].startswith("struct."):
                            s.add((m["t"], "*"))
                    elif ptr[0] == "v" and ptr[1] in ptypes:
                        t = ptypes[ptr[1]]
                        if t.startswith("struct.") and t.endswith("*"):
                            s.add((t[:-1], "*"))
            direct[F.key] = s
        # transitive closure
        res = {k: set(v) for k, v in direct.items()}
        # indirect calls: address-taken functions of the same arity
        byar = {}
        for k in self.funcrefs():
            byar.setdefault(len(self.byname(k).params), []).append(k)
        self._byar = byar
        ind = {}
        for F in self.funcs():
            s = set()
            for I in F.insts():
                if I.op == "call" and self.call_targets(I) is None and I.callee[0] != "asm":
                    s.update(byar.get(len(I.a), ()))
            ind[F.key] = s
        changed = True
        while changed:
            changed = False
            for F in self.funcs():
                r = res[F.key]
                n = len(r)
                for c in self.callees(F)[0] | ind[F.key]:
                    r |= res[c]
                if len(r) != n:
                    changed = True
        self._mod = res
        return res


# --------------------------------------------------------------------------
# flattening: copy a function with calls selected by `policy` inlined
class Flat:
    def __init__(self, root):
        self.root = root
        self.name = root.name
        self.blocks = {}
        self.entry = 0
        self.params = []
        self.names = {}
        self.nid = 0
        self.inlined = set()

    def insts(self):
        for b in self.blocks.values():
            for i in b.insts:
                yield i


def remap_op(o, m):
    if not o:
        return o
    k = o[0]
    if k == "v":
        return m.get(o[1], ("?",))
    if k == "ge":
        return ("ge", remap_op(o[1], m), o[2])
    return o


def qualify(prog, mod, o):
    """make global operand names program-wide"""
    if not o:
        return o
    if o[0] == "g":
        return ("g", prog.gname(mod, o[1]))
    if o[0] == "ge":
        return ("ge", qualify(prog, mod, o[1]), o[2])
    return o


def flatten(prog, root, policy, maxdepth=12, limit=60000, subst=None, devirt=None):
    """subst: name -> Func used instead of the called function; devirt(I): the
    functions an indirect call may reach (each is inlined behind a comparison
    of the callee), or None"""
    out = Flat(root)
    subst = subst or {}
    cnt = [0, 0]   # next id, next block

    def newid():
        cnt[0] += 1
        return cnt[0]

    def newblk():
        b = Block(cnt[1])
        cnt[1] += 1
        out.blocks[b.id] = b
        return b

    def copy(F, argops, stk, active):
        """returns (entry block id, [(block id, retop)])"""
        m = {}
        for p, a in zip(F.params, argops):
            m[p["i"]] = a
        for p in F.params[len(argops):]:
            m[p["i"]] = ("u",)
        for I in F.insts():
            m[I.id] = ("v", newid())
        for vid, nm in F.names.items():
            if vid in m and m[vid][0] == "v":
                out.names.setdefault(m[vid][1], nm)
        bm = {}
        for bid in F.blocks:
            bm[bid] = newblk()
        tail = {}     # original block id -> block holding its terminator
        rets = []
        for bid, b in F.blocks.items():
            cur = bm[bid]
            for I in b.insts:
                d = I.d
                if I.op == "phi":
                    a = tuple((qualify(prog, F.mod, remap_op(v, m)), pb) for v, pb in I.a)
                else:
                    a = tuple(qualify(prog, F.mod, remap_op(v, m)) for v in I.a)
                N = Inst(m[I.id][1], I.op, I.ty, a, I.line, d, I.fn, stk)
                if I.callee is not None:
                    N.callee = qualify(prog, F.mod, remap_op(I.callee, m))
                if I.op == "getelementptr" and d["vars"]:
                    N.d = dict(d)
                    N.d["vars"] = tuple((qualify(prog, F.mod, remap_op(tup(v), m)), s) for v, s in d["vars"])
                if I.op == "br":
                    N.d = dict(d); N.d["s"] = [bm[s].id for s in d["s"]]
                elif I.op == "switch":
                    N.d = dict(d)
                    N.d["cases"] = [(c, bm[s].id) for c, s in d["cases"]]
                    N.d["def"] = bm[d["def"]].id
                if I.op == "call" and devirt is not None and I.callee is not None and I.callee[0] not in ("f", "asm"):
                    cands = devirt(I)
                    if cands:
                        nb = newblk()
                        ins = []
                        for G in cands:
                            if G.key in active or len(stk) >= maxdepth or len(G.params) != len(a):
                                continue
                            cid = newid()
                            c = Inst(cid, "icmp", "i1", (N.callee, ("f", G.name)), I.line, {"p": "eq", "ot": "ptr"}, I.fn, stk)
                            c.blk = cur.id
                            cur.insts.append(c)
                            e, rs = copy(G, a, stk + ((I.fn, I.line),), active | {G.key})
                            out.inlined.add(G.key)
                            nx = newblk()
                            j = Inst(newid(), "br", "void", (("v", cid),), I.line, {"s": [e, nx.id]}, I.fn, stk)
                            j.blk = cur.id
                            cur.insts.append(j)
                            for rb, rv in rs:
                                out.blocks[rb].insts[-1].d = {"s": [nb.id]}
                                ins.append((rv, rb))
                            cur = nx
                        # anything else: an opaque call
                        N2 = Inst(newid(), "call", I.ty, a, I.line, d, I.fn, stk)
                        N2.callee = N.callee
                        N2.blk = cur.id
                        cur.insts.append(N2)
                        ins.append((("v", N2.id), cur.id))
                        j = Inst(newid(), "br", "void", (), I.line, {"s": [nb.id]}, I.fn, stk)
                        j.blk = cur.id
                        cur.insts.append(j)
                        if I.ty != "void":
                            P = Inst(m[I.id][1], "phi", I.ty, tuple(ins), I.line, {"ret": True}, I.fn, stk)
                            P.blk = nb.id
                            nb.insts.append(P)
                        cur = nb
                        continue
                if I.op == "call":
                    t = prog.call_targets(I)
                    if t is not None and I.callee[0] == "f" and I.callee[1] in subst:
                        t = [subst[I.callee[1]]]
                    if t and len(t) == 1 and t[0].key not in active and len(stk) < maxdepth and \
                            t[0].blocks and cnt[0] < limit and not t[0].d.get("va") and policy(t[0], I):
                        G = t[0]
                        out.inlined.add(G.key)
                        e, rs = copy(G, a, stk + ((I.fn, I.line),), active | {G.key})
                        # jump into callee
                        j = Inst(newid(), "br", "void", (), I.line, {"s": [e]}, I.fn, stk)
                        j.blk = cur.id
                        cur.insts.append(j)
                        nb = newblk()
                        for rb, rv in rs:
                            out.blocks[rb].insts[-1].d = {"s": [nb.id]}
                        if I.ty != "void":
                            if len(rs) == 1:
                                # single return: alias through a phi with one input
                                pass
                            P = Inst(m[I.id][1], "phi", I.ty, tuple((rv, rb) for rb, rv in rs), I.line, {"ret": True}, I.fn, stk)
                            P.blk = nb.id
                            nb.insts.append(P)
                        cur = nb
                        continue
                N.blk = cur.id
                if I.op == "ret" and stk != () or (I.op == "ret" and F is not root):
                    rv = a[0] if a else ("u",)
                    j = Inst(newid(), "br", "void", (), I.line, {"s": []}, I.fn, stk)
                    j.blk = cur.id
                    cur.insts.append(j)
                    rets.append((cur.id, rv))
                    continue
                cur.insts.append(N)
            tail[bid] = cur.id
        # fix phi predecessor ids
        for bid, b in F.blocks.items():
            for I in bm[bid].insts:
                if I.op == "phi" and "ret" not in I.d:
                    I.a = tuple((v, tail[pb]) for v, pb in I.a)
                    I.blk = bm[bid].id
        return bm[F.entry].id, rets

    args = []
    for p in root.params:
        i = newid()
        args.append(("v", i))
        out.params.append(i)
    # parameters are identified by their position
    out.param_index = {a[1]: k for k, a in enumerate(args)}
    for p, a in zip(root.params, args):
        if p["i"] in root.names:
            out.names[a[1]] = root.names[p["i"]]
    e, rs = copy(root, args, (), frozenset([root.key]))
    out.entry = e
    out.nid = cnt[0] + 1
    link(out)
    # drop blocks made unreachable (callees that never return)
    seen = set(); w = [e]
    while w:
        b = w.pop()
        if b in seen:
            continue
        seen.add(b)
        w.extend(out.blocks[b].succs)
    for b in list(out.blocks):
        if b not in seen:
            del out.blocks[b]
    for b in out.blocks.values():
        for I in b.insts:
            if I.op == "phi":
                I.a = tuple((v, p) for v, p in I.a if p in seen)
    link(out)
    cfg(out)
    return out


def cfg(f):
    """rpo, dominators, loops"""
    order = []
    seen = set()
    st = [(f.entry, iter(f.blocks[f.entry].succs))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succs)))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    f.rpo = {b: i for i, b in enumerate(order)}
    f.order = order
    idom = {f.entry: f.entry}
    changed = True
    def inter(a, b):
        while a != b:
            while f.rpo[a] > f.rpo[b]:
                a = idom[a]
            while f.rpo[b] > f.rpo[a]:
                b = idom[b]
        return a
    while changed:
        changed = False
        for b in order:
            if b == f.entry:
                continue
            ps = [p for p in f.blocks[b].preds if p in idom]
            n = ps[0]
            for p in ps[1:]:
                n = inter(n, p)
            if idom.get(b) != n:
                idom[b] = n
                changed = True
    f.idom = idom
    # loops: natural loops of every retreating edge
    f.loops = {}
    f.back = set()
    for b in order:
        for s in f.blocks[b].succs:
            if f.rpo[s] <= f.rpo[b]:
                f.back.add((b, s))
                body = f.loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x in body:
                        continue
                    body.add(x)
                    w.extend(f.blocks[x].preds)


def dominates(f, a, b):
    while True:
        if a == b:
            return True
        if b == f.entry or b not in f.idom:
            return False
        b = f.idom[b]
