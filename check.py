#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's current sources."""
import os, sys, importlib
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)
import ir, psim, report

# property -> module.function
TABLE = {}
def reg(mod, *ids):
    for i in ids:
        TABLE[i] = mod

reg("p_engine", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09")
reg("p_lock", "C01")
reg("p_cmds", "C17")
reg("p_sem", "C18", "C38")
reg("p_sem2", "C10", "C19")
reg("p_num", "C20")
reg("p_save", "C13", "C14", "C15")
reg("p_auth", "C16")
reg("p_opts", "C35")
reg("p_args", "C22")
reg("p_disp", "C21")
reg("p_frame", "C28", "C26")
reg("p_whole", "C37", "C31")
reg("p_net", "C30", "C32")
reg("p_out", "C29")
reg("p_buf", "C36")
reg("p_http", "C24")
reg("p_mc", "C25")
reg("p_pg", "C27")
reg("p_pgw", "C40")
reg("p_pgq", "C39")
reg("p_find", "C11")
reg("p_entry", "C12")
reg("p_stats", "C23")
reg("p_mon", "C34")
reg("p_bg", "C33")
reg("p_own", "C41")


def run(pid, prog, tier):
    mod = importlib.import_module(TABLE[pid])
    R = report.Result(pid)
    getattr(mod, pid)(prog, R, tier)
    R.finish()
    return R, mod


def main():
    ids = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if not ids or ids == ["all"]:
        ids = sorted(TABLE)
    rc = 0
    try:
        prog = ir.load_program()
    except ir.Broken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 2
    psim.PROG[0] = prog
    for pid in ids:
        try:
            R, mod = run(pid, prog, tier)
        except ir.Broken as e:
            print("ANALYSIS-BROKEN: property=%s %s" % (pid, e))
            rc = max(rc, 2)
            continue
        r = report.conclude(R, tier, seed, mod.EXPLAIN[pid], mod.ASSUME)
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())
