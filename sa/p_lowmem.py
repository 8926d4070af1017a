"""the memory state of the server on its way to the cache"""
from gensim import *
from semlib import isglobal

RULE = "every client write passes the memory state"


def writers(prog, M):
    """functions of the commands that store, new helpers counted to their callers; not those that are only ever a thread's own"""
    direct, taken = {}, set()
    for F in M.funcs.values():
        for I in F.insts():
            if I.op == "call":
                if I.callee and I.callee[0] == "f":
                    direct.setdefault(I.callee[1], set()).add(F.name)
                if I.callee and I.callee[:2] == ("f", "pthread_create"):
                    taken.update(a[1] for a in I.a if a and a[0] == "f")
    out, todo, seen = set(), ["pogocache_store"], set()
    while todo:
        n = todo.pop()
        for c in direct.get(n, ()):
            if c in seen or c in taken:
                continue
            seen.add(c)
            if prog.isnew(M.funcs[c]) and c in direct:
                todo.append(c)
            else:
                out.add(c)
    return sorted(out)


def clients(prog, R):
    M = prog.mods.get("cmds.c")
    if M is None:
        return
    for n in writers(prog, M):
        J_ = J(prog, R, M.funcs[n], RULE)
        for p in list(J_.paths) + list(J_.iters):
            for e in (p.segment() if p.kind == "iter" else p.ev):
                if e.name != "pogocache_store":
                    continue
                o = optcell(prog, e, 5, "pogocache_store_opts", "lowmem")
                if o is None:
                    J_.check(None, "store", p, "", e)
                    continue
                o = strip(o)
                if isc(o):
                    # a memory state that was looked at and found fine may be passed as a constant
                    seen = [f for f in p.facts if lowmem(f)]
                    J_.check(any(p.truth(f) == bool(o.a[0]) for f in seen), "store", p, "stores without telling the cache whether memory is low", e)
                else:
                    J_.check(True if any(lowmem(x) for x in walk(o)) else None, "store", p, "", e)


def lowmem(t):
    return any(x.k in ("ld", "vread", "call", "pure") and "lowmem" in repr(x) for x in walk(t))
