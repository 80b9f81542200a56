"""Results of a rule run: obligations, violations, evidence."""
import json
import os
import time

from .core import VERIF, AnalysisBroken


class Result:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.viol = []
        self.seen = set()
        self.counts = {}
        self.samples = {}
        self.extra = {}
        self.functions = set()
        self.assumptions = []
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text
        self.counts.setdefault(name, 0)

    def ok(self, rule, what, n=1):
        """An obligation that was examined (whether or not it holds)."""
        self.counts[rule] = self.counts.get(rule, 0) + n
        s = self.samples.setdefault(rule, [])
        if len(s) < 6 and what not in s:
            s.append(what)

    def bad(self, rule, where, msg, key=None):
        k = key or "%s|%s" % (rule, msg)
        if k in self.seen:
            return
        self.seen.add(k)
        self.viol.append({"rule": rule, "where": where, "msg": msg, "key": k})

    def need(self, rule, n, what="instances"):
        c = self.counts.get(rule, 0)
        if c < n and not self.viol:
            raise AnalysisBroken("rule %s found only %d %s (expected at least %d)" % (rule, c, what, n))

    def funcs(self, ids):
        self.functions |= set(ids)


def known_findings(pid):
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                # known: property=<id> key=<key> :: <text>
                body = line.split(" ", 2)[2]
                key, _, text = body.partition(" :: ")
                res[key.replace("key=", "", 1)] = text
    return res


def finish(res, prog, level, explanation, seed):
    known = known_findings(res.pid)
    new = [v for v in res.viol if v["key"] not in known]
    old = [v for v in res.viol if v["key"] in known]
    cov = {
        "explanation": explanation,
        "obligations_examined": sum(res.counts.values()),
        "obligations_per_rule": dict(sorted(res.counts.items())),
        "rules": res.rules,
        "samples": [{"rule": r, "instances": s} for r, s in sorted(res.samples.items())],
        "units_parsed": len(prog.units),
        "functions_in_program": len(prog.fns),
        "functions_analysed": len([x for x in res.functions if x in prog.fns]),
    }
    cov.update(res.extra)
    ev = {"property": res.pid, "tier": res.tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": res.assumptions, "wall_s": round(time.time() - res.t0, 3), "violations": len(new)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (res.pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, res.pid + ".json"))
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (res.pid, v["msg"]))
    rp = os.path.join(d, res.pid + ".violations.txt")
    if os.path.exists(rp):
        os.unlink(rp)
    if new:
        with open(rp, "w") as f:
            for v in new:
                f.write("rule:  %s -- %s\nwhere: %s\nwhat:  %s\nkey:   %s\n\n" %
                        (v["rule"], res.rules.get(v["rule"], ""), v["where"], v["msg"], v["key"]))
        for v in new:
            print("%s: [%s/%s] %s" % (v["where"], res.pid, v["rule"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (res.pid, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d wall=%.1fs" %
          (res.pid, cov["obligations_examined"], cov["functions_analysed"], ev["wall_s"]))
    return 0
