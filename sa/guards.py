"""Conditions that hold at a block, and values as expressions over the program: no paths are enumerated."""
import ir
from ir import flatten, dominates


class G:
    def __init__(self, prog, F, inline=None):
        self.prog = prog
        self.F = F
        self.f = flatten(prog, F, inline or (lambda H, I: prog.isnew(H)))
        if not hasattr(self.f, "idom"):
            ir.cfg(self.f)
        self.defs = {}
        self.blk = {}
        for b in self.f.blocks.values():
            for I in b.insts:
                self.defs[I.id] = I
                self.blk[I.id] = b.id
        self._g = {}

    def insts(self):
        for b in self.f.order:
            for I in self.f.blocks[b].insts:
                yield I

    def edge(self, src, dst):
        """(operand, truth) established by the edge, or None"""
        t = self.f.blocks[src].insts[-1]
        if t.op == "br" and t.a and len(t.d["s"]) == 2 and t.d["s"][0] != t.d["s"][1]:
            return t.a[0], t.d["s"][0] == dst
        return None

    def guards(self, b):
        """conditions established on every way to block b"""
        if b in self._g:
            return self._g[b]
        out = []
        f = self.f
        x = b
        while x != f.entry:
            d = f.idom.get(x)
            if d is None:
                break
            ps = [p for p in f.blocks[x].preds]
            if ps == [d]:
                e = self.edge(d, x)
                if e:
                    out.append(e)
            elif len(ps) > 1:
                # a loop header: conditions of the entry edge do not hold on later rounds
                pass
            x = d
        self._g[b] = out
        return out

    def edgeguards(self, src, dst):
        e = self.edge(src, dst)
        return ([e] if e else []) + self.guards(src)

    def d(self, o):
        return self.defs.get(o[1]) if o and o[0] == "v" else None

    def strip(self, o):
        while True:
            I = self.d(o)
            if I is not None and I.op in ("zext", "sext", "trunc", "bitcast", "freeze") and I.a:
                o = I.a[0]
                continue
            return o

    def gname(self, o):
        return str(o[1]).split(":")[-1] if o and o[0] == "g" else None

    def string(self, o):
        if not o or o[0] != "g":
            return None
        n = str(o[1])
        for q in (n, self.F.mod.name + ":" + n):
            try:
                s = self.prog.string(q)
            except Exception:
                s = None
            if s is not None:
                return s
        return None

    def loadof(self, o):
        """name of the global a value was loaded from"""
        I = self.d(self.strip(o))
        if I is not None and I.op == "load":
            return self.gname(I.a[0])
        return None

    def callname(self, I):
        return I.callee[1] if I is not None and I.op == "call" and I.callee and I.callee[0] == "f" else None

    def streq(self, o):
        """(text operand, literal, sense) when the value is a comparison of a text with a literal: sense True when the value is
        true for equal texts"""
        I = self.d(self.strip(o))
        neg = False
        while I is not None:
            if I.op == "xor" and I.a[1][0] == "c" and I.a[1][1] in (1, -1):
                neg = not neg
                I = self.d(self.strip(I.a[0]))
                continue
            if I.op == "icmp" and I.d.get("p") in ("eq", "ne") and len(I.a) == 2:
                z = I.a[1]
                inner = self.d(self.strip(I.a[0]))
                if z[0] in ("c", "n") and (z[0] == "n" or z[1] == 0) and inner is not None:
                    eq = I.d["p"] == "eq"
                    if self.callname(inner) in ("strcmp", "strcasecmp", "memcmp", "strncmp"):
                        a, b = inner.a[0], inner.a[1]
                        if self.string(b) is None:
                            a, b = b, a
                        s = self.string(b)
                        if s is None:
                            return None
                        return a, s, eq != neg
                    if inner.op in ("icmp", "xor") and (inner.ty == "i1" or inner.op == "icmp"):
                        if eq:
                            neg = not neg
                        I = inner
                        continue
                if inner is not None and self.callname(inner) == "strstr" and inner.a[0] and self.same(z, inner.a[0]):
                    s = self.string(inner.a[1])
                    return (inner.a[0], s, (I.d["p"] == "eq") != neg) if s is not None else None
            return None
        return None

    def same(self, a, b, d=4):
        a, b = self.strip(a), self.strip(b)
        if a == b:
            return True
        if d == 0:
            return False
        x, y = self.d(a), self.d(b)
        if x is None or y is None or x.op != y.op or len(x.a) != len(y.a):
            return False
        if x.op not in ("load", "getelementptr", "add", "sub", "icmp"):
            return False
        if x.op == "getelementptr":
            if x.d.get("off") != y.d.get("off") or len(x.d.get("vars", ())) != len(y.d.get("vars", ())):
                return False
            for v, w in zip(x.d.get("vars", ()), y.d.get("vars", ())):
                if v[1] != w[1] or not self.same(tuple(v[0]), tuple(w[0]), d - 1):
                    return False
        return all(self.same(p, q, d - 1) for p, q in zip(x.a, y.a))

    def eval(self, o, var, lit, depth=0, seen=()):
        """possible constant values of an operand when the text in global `var` is `lit`; None in the set stands for anything
        that does not depend on it"""
        o = self.strip(o)
        if o[0] == "c":
            return {o[1]}
        if o[0] == "n":
            return {0}
        I = self.d(o)
        if I is None or depth > 30 or o in seen:
            return {None}
        seen = seen + (o,)
        s = self.streq(o)
        if s is not None:
            if self.loadof(s[0]) == var:
                return {int((s[1] == lit) == s[2])}
            return {None}
        if I.op == "phi":
            out = set()
            for v, p in I.a:
                if self.allowed(self.edgeguards(p, self.blk[I.id]), var, lit):
                    out |= self.eval(v, var, lit, depth + 1, seen)
            return out or {None}
        if I.op == "select":
            c = self.eval(I.a[0], var, lit, depth + 1, seen)
            out = set()
            if c != {0}:
                out |= self.eval(I.a[1], var, lit, depth + 1, seen)
            if not (len(c) == 1 and None not in c and 0 not in c):
                out |= self.eval(I.a[2], var, lit, depth + 1, seen)
            return out
        if I.op == "xor" and I.a[1][0] == "c":
            return {None if x is None else 1 - (x & 1) for x in self.eval(I.a[0], var, lit, depth + 1, seen)} if I.a[1][1] in (1, -1) else {None}
        if I.op == "icmp" and I.d.get("p") in ("eq", "ne") and I.a[1][0] in ("c", "n"):
            k = I.a[1][1] if I.a[1][0] == "c" else 0
            return {None if x is None else int((x == k) == (I.d["p"] == "eq")) for x in self.eval(I.a[0], var, lit, depth + 1, seen)}
        if I.op == "load":
            g = self.gname(I.a[0])
            if g is not None:
                out = set()
                dep = False
                for S in self.stores(g):
                    gs = self.guards(self.blk[S.id])
                    if any(self.depends(c, var) for c, t in gs) or self.depends(S.a[0], var):
                        dep = True
                        if self.allowed(gs, var, lit):
                            out |= self.eval(S.a[0], var, lit, depth + 1, seen)
                if dep:
                    return out or {None}
        return {None}

    def stores(self, g):
        for I in self.insts():
            if I.op == "store" and self.gname(I.a[1]) == g:
                yield I

    def depends(self, o, var, depth=0, seen=None):
        """does the value depend on the text in the global?"""
        seen = seen if seen is not None else set()
        o = self.strip(o)
        if o in seen or depth > 30:
            return False
        seen.add(o)
        if self.loadof(o) == var:
            return True
        I = self.d(o)
        if I is None:
            return False
        if I.op == "phi":
            for v, p in I.a:
                if self.depends(v, var, depth + 1, seen) or any(self.depends(c, var, depth + 1, seen) for c, t in self.edgeguards(p, self.blk[I.id])):
                    return True
            return False
        if I.op == "load":
            g = self.gname(I.a[0])
            if g is not None:
                for S in self.stores(g):
                    if self.depends(S.a[0], var, depth + 1, seen) or \
                            any(self.depends(c, var, depth + 1, seen) for c, t in self.guards(self.blk[S.id])):
                        return True
            return False
        return any(self.depends(a, var, depth + 1, seen) for a in I.a if a and a[0] == "v")

    def depends2(self, o, var, depth=0, seen=None):
        """like depends, but memory the analysis does not follow counts as dependent"""
        seen = seen if seen is not None else set()
        o = self.strip(o)
        if o in seen or depth > 40:
            return False
        seen.add(o)
        if self.loadof(o) == var or self.gname(o) == var:
            return True
        I = self.d(o)
        if I is None:
            return o[0] == "a" and False
        if I.op == "phi":
            return any(self.depends2(v, var, depth + 1, seen) or any(self.depends2(c, var, depth + 1, seen) for c, t in self.edgeguards(p, self.blk[I.id]))
                       for v, p in I.a)
        if I.op == "load":
            g = self.gname(I.a[0])
            if g is None:
                return True
            return any(self.depends2(S.a[0], var, depth + 1, seen) or any(self.depends2(c, var, depth + 1, seen) for c, t in self.guards(self.blk[S.id]))
                       for S in self.stores(g))
        if I.op == "alloca":
            return True
        return any(self.depends2(a, var, depth + 1, seen) for a in I.a if a and a[0] in ("v", "g"))

    def flagof(self, o):
        """(global, sense) when the value says whether a global flag is set"""
        o, sense = self.strip(o), True
        for _ in range(8):
            I = self.d(o)
            if I is None:
                return None
            if I.op == "xor" and I.a[1][0] == "c":
                sense = not sense
                o = self.strip(I.a[0])
            elif I.op == "icmp" and I.a[1][0] == "c" and I.a[1][1] == 0 and I.d.get("p") in ("eq", "ne"):
                sense = sense != (I.d["p"] == "eq")
                o = self.strip(I.a[0])
            elif I.op == "load":
                g = self.gname(I.a[0])
                return (g, sense) if g else None
            else:
                return None
        return None

    def evalglobal(self, g, var, lit):
        """possible values of a global at the end when the text in global var is lit"""
        out = set()
        for S in self.stores(g):
            gs = self.guards(self.blk[S.id])
            if any(self.depends(c, var) for c, t in gs) or self.depends(S.a[0], var):
                if self.allowed(gs, var, lit):
                    out |= self.eval(S.a[0], var, lit)
        return out

    def allowed(self, gs, var, lit):
        for c, t in gs:
            s = self.streq(c)
            if s is not None and self.loadof(s[0]) == var:
                if ((s[1] == lit) == s[2]) != t:
                    return False
            elif s is None:
                pass
        return True
