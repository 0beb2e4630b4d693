"""Verdicts, known findings and evidence."""
import json, os, re, sys, time
from .build import VERIF

EVID = os.path.join(VERIF, "evidence") if not os.environ.get("WV_SCRATCH") else os.path.join("/tmp", "wv-scratch-evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = {}          # key -> (message, trace)
        self.counts = {}        # rule -> [obligations, discharged]
        self.samples = []
        self.fns = set()
        self.roots = []
        self.extra = {}
        self.notes = []
        self.rules = []
        self.assumptions = []

    # one rule instance examined and found to hold / not to hold
    def ok(self, rule, what=None, n=1):
        c = self.counts.setdefault(rule, [0, 0])
        c[0] += n
        c[1] += n
        if what is not None and len(self.samples) < 60:
            s = "%s: %s" % (rule, what)
            if s not in self.samples:
                self.samples.append(s)

    def bad(self, rule, key, msg, where="", trace=()):
        c = self.counts.setdefault(rule, [0, 0])
        c[0] += 1
        k = "%s|%s" % (rule, key)
        if k not in self.viol:
            self.viol[k] = ("%s%s" % (msg, " at " + where if where else ""), [str(x) for x in trace])

    def check(self, rule, cond, key, msg, where="", trace=(), what=None):
        if cond:
            self.ok(rule, what if what is not None else key)
        else:
            self.bad(rule, key, msg, where, trace)
        return cond

    def floor(self, name, got, least):
        """the rule matched at least as many constructs as were confirmed by hand on the reference tree"""
        self.extra.setdefault("sites", {})[name] = got
        if got < least:
            self.bad("anchor", name, "the rule found %d constructs of kind '%s', at least %d are required (anchor lost)" % (got, name, least))
        else:
            self.ok("anchor", "%s: %d" % (name, got))

    def engine(self, e, root):
        """account for an engine run"""
        self.fns |= {e.P.fns[k].name for k in e.stats["fns"] if k in e.P.fns}
        self.roots.append({"entry": root, "abstract_states": len(e.nodes), "blocks": e.stats["blocks"],
                           "calls": e.stats["calls"], "ends": len(e.ends)})

    def finish(self):
        known, fixed = load_known(self.pid)
        rc = 0
        new = {}
        for k, (m, tr) in sorted(self.viol.items()):
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, m))
            else:
                new[k] = (m, tr)
        if new:
            rc = 1
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            for i, (k, (m, tr)) in enumerate(sorted(new.items())):
                p = os.path.join(d, "%s-%d.txt" % (self.pid, i))
                with open(p, "w") as fh:
                    fh.write("property %s\nkey %s\n%s\n\n" % (self.pid, k, m))
                    if tr:
                        fh.write("path through the analysed program (one event per line):\n")
                        fh.write("\n".join(tr) + "\n")
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  rule/instance: %s" % k)
                print("  %s" % m)
        ob = sum(c[0] for c in self.counts.values())
        di = sum(c[1] for c in self.counts.values())
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "static analysis of the MIR of /repo's current tree; rules: " + " ".join(self.rules),
                "rules": {k: {"instances": c[0], "holding": c[1]} for k, c in sorted(self.counts.items())},
                "obligations": ob, "discharged": di,
                "functions_analysed": len(self.fns),
                "workspace_functions": sorted(f for f in self.fns if "wrus" in f)[:200],
                "entry_points": self.roots[:60],
                "samples": self.samples[:60],
                "known_findings": sorted(k for k in self.viol if k in known),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        ev["coverage"].update(self.extra)
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write("\n")
        print("%s: %d rule instances, %d hold, %d new violation(s), %.1fs" % (self.pid, ob, di, len(new), time.time() - self.t0))
        return rc


def load_known(pid):
    known, fixed = set(), []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) key=(.*?)  #", line)
            if m and m.group(1) == pid:
                known.add(m.group(2))
            if line.startswith("fixed: property=%s " % pid):
                fixed.append(line)
    return known, fixed
