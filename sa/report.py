"""Results of one check: obligations met, violations found, what was analysed."""
import json, os, time
from ir import Broken, VERIF


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.counts = {}        # rule -> obligations examined
        self.samples = {}       # rule -> a few instances
        self.viols = []         # (key, where, message, path)
        self.keys = set()
        self.funcs = set()
        self.minimum = {}
        self.unknown = 0

    def ok(self, rule, inst=None, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n
        if inst is not None:
            s = self.samples.setdefault(rule, [])
            if len(s) < 4 and inst not in s:
                s.append(inst)

    def bad(self, rule, key, where, msg, path=None, facts=None):
        """one violated obligation; key identifies the construct without line
        numbers"""
        self.ok(rule)
        k = (rule, key)
        if k in self.keys:
            return
        self.keys.add(k)
        self.viols.append({"rule": rule, "key": key, "where": where, "message": msg,
                           "path": path or [], "facts": facts or []})

    def check(self, cond, rule, key, where, msg, path=None, facts=None, inst=None):
        if cond:
            self.ok(rule, inst or key)
        else:
            self.bad(rule, key, where, msg, path, facts)
        return cond

    def need(self, rule, n=1):
        """the rule must have had at least n instances"""
        self.minimum[rule] = n

    def analysed(self, *fs):
        for f in fs:
            self.funcs.add("%s:%s" % (f.file, f.name) if hasattr(f, "file") else str(f))

    def finish(self):
        if not self.viols:
            for r, n in self.minimum.items():
                if self.counts.get(r, 0) < n:
                    raise Broken("rule '%s' matched %d instances, expected at least %d" % (r, self.counts.get(r, 0), n))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def conclude(R, tier, seed, explanation, assumptions):
    """prints the verdict, writes evidence, returns the exit status"""
    known = {}
    for k in known_findings()["known"]:
        if k["property"] == R.prop:
            known[(k["rule"], k["key"])] = k
    new = []
    for v in R.viols:
        k = known.get((v["rule"], v["key"]))
        if k:
            print("KNOWN-FINDING: property=%s %s" % (R.prop, k["what"]))
        else:
            new.append(v)
    ev = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, "%s.violation.txt" % R.prop)
    if new:
        with open(replay, "w") as f:
            for v in new:
                f.write("property %s\nrule     %s\nkey      %s\nat       %s\n%s\n" % (R.prop, v["rule"], v["key"], v["where"], v["message"]))
                if v["path"]:
                    f.write("path:\n  " + "\n  ".join(v["path"]) + "\n")
                if v["facts"]:
                    f.write("facts on the path:\n  " + "\n  ".join(v["facts"]) + "\n")
                f.write("\n")
    elif os.path.exists(replay):
        os.unlink(replay)
    print("property %s: %d obligations over %d rules, %d functions analysed" %
          (R.prop, sum(R.counts.values()), len(R.counts), len(R.funcs)))
    for r in sorted(R.counts):
        print("  %-44s %6d" % (r, R.counts[r]))
    for v in new:
        print("%s: [%s] %s: %s" % (R.prop, v["rule"], v["where"], v["message"]))
        if v["path"]:
            print("    path: " + " -> ".join(v["path"][-14:]))
    out = {
        "property": R.prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "obligations_by_rule": R.counts,
            "obligations": sum(R.counts.values()),
            "functions_analysed": sorted(R.funcs),
            "instances": R.samples,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - R.t0, 3),
        "violations": len(new),
    }
    tmp = os.path.join(ev, ".%s.json.%d" % (R.prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(out, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(ev, "%s.json" % R.prop))
    if new:
        print("VIOLATION property=%s replay=%s" % (R.prop, replay))
        return 1
    return 0
