"""Obligation bookkeeping, evidence and verdicts shared by all checks."""
import json, os, sys, time, traceback
from .program import VERIF, AnalysisBroken, rel


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: "):
                f = dict(x.split("=", 1) for x in ln[7:].split(" ")[:2])
                txt = " ".join(ln[7:].split(" ")[2:])
                out.setdefault(f["property"], {})[f["key"]] = txt
    return out


class Check:
    def __init__(self, pid, tier, rule):
        self.pid, self.tier, self.rule = pid, tier, rule
        self.t0 = time.time()
        self.obligations = []   # (group, instance, where, ok)
        self.violations = []    # dicts
        self.known = []
        self.notes = []
        self.units = []
        self.fns = set()
        self.assumptions = []
        self.kf = known_findings().get(pid, {})
        self.seen_keys = set()

    def ok(self, group, instance, where=""):
        self.obligations.append((group, instance, where, True))

    def bad(self, group, instance, where, detail, key=None):
        """A violated obligation. key identifies it in known_findings.txt."""
        key = (key or "%s/%s" % (group, instance)).replace(" ", "_")
        self.obligations.append((group, instance, where, False))
        if key in self.kf:
            if key not in self.seen_keys:
                self.known.append((key, self.kf[key]))
        else:
            self.violations.append({"rule": group, "instance": instance, "where": where, "detail": detail, "key": key})
        self.seen_keys.add(key)

    def check(self, cond, group, instance, where, detail, key=None):
        if cond:
            self.ok(group, instance, where)
        else:
            self.bad(group, instance, where, detail() if callable(detail) else detail, key)
        return cond

    def require(self, group, minimum):
        n = sum(1 for o in self.obligations if o[0] == group)
        if n < minimum:
            raise AnalysisBroken("rule %s matched %d instances, expected at least %d" % (group, n, minimum))

    def counts(self):
        c = {}
        for g, i, w, ok in self.obligations:
            c.setdefault(g, [0, 0])
            c[g][0] += 1
            c[g][1] += 0 if ok else 1
        return c

    def analysed(self, ids):
        self.fns.update(ids)

    def finish(self, prog=None):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        c = self.counts()
        files = set()
        if prog is not None:
            for i in self.fns:
                f = prog.fns.get(i)
                if f:
                    files.add(rel(f.file))
        cov = {
            "explanation": self.rule,
            "obligations": len(self.obligations),
            "discharged": sum(1 for o in self.obligations if o[3]),
            "by_rule": {g: {"instances": a, "violated": b} for g, (a, b) in sorted(c.items())},
            "functions_analysed": len(self.fns),
            "files_analysed": sorted(files),
            "translation_units": len(prog.tus) if prog is not None else len(self.units),
            "instances": sorted({"%s: %s @ %s" % (g, i, w) for g, i, w, ok in self.obligations})[:400],
        }
        if self.notes:
            cov["notes"] = self.notes
        d = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
             "level": "other", "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
             "assumptions": self.assumptions, "violations": len(self.violations)}
        with open(os.path.join(ev, self.pid + ".json"), "w") as fh:
            json.dump(d, fh, indent=1)
        print("%s: %d obligations, %d functions analysed, %.1f s" % (self.pid, len(self.obligations), len(self.fns), time.time() - self.t0))
        for g, (a, b) in sorted(c.items()):
            print("  rule %-28s %4d instances, %d violated" % (g, a, b))
        for k, txt in self.known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, txt, k))
        if self.violations:
            rp = os.path.join(ev, self.pid + ".violations.json")
            with open(rp, "w") as fh:
                json.dump(self.violations, fh, indent=1)
            for v in self.violations:
                print("  %s: [%s] %s: %s" % (v["where"], v["rule"], v["instance"], v["detail"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0
