"""Shared plumbing of the checks: evidence, violations, known findings."""
import json, os, sys, time, subprocess, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
FINDINGS = os.path.join(VERIF, "known-findings.txt")


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.viol = []
        self.known = []
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.cov = {}
        self.counts = {}
        self.level = "model_checking"
        self.functions = []
        self.bounds = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def note(self, s):
        if s not in self.notes and len(self.notes) < 60:
            self.notes.append(s)
            print("note: " + s, flush=True)

    def known_ids(self):
        out = {}
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                l = l.strip()
                if l.startswith("known: property=%s " % self.prop):
                    rest = l.split(" ", 2)[2]
                    fid, text = rest.split(" ", 1)
                    out[fid.split("=", 1)[1]] = text
        return out

    def known_finding(self, fid):
        """a listed finding (identified by fid) that was observed in this run"""
        k = self.known_ids()
        if fid not in k:
            return False
        if fid not in self.known:
            self.known.append(fid)
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k[fid]), flush=True)
        return True

    def violation(self, what, replay_text, tag=None):
        """a violation confirmed against the real code"""
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.txt" % (self.prop, len(self.viol)))
        with open(p, "w") as f:
            f.write("property %s\n%s\n\n%s\n" % (self.prop, what, replay_text))
        self.viol.append(what)
        print("violation: " + what, flush=True)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def finish(self, verdict=None):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(self.cov)
        cov["functions_encoded"] = self.functions
        cov["bounds"] = self.bounds
        for k, v in self.counts.items():
            cov.setdefault(k, v)
        cov["samples"] = self.samples[:12]
        if self.notes:
            cov["notes"] = self.notes
        if self.known:
            cov["known_findings_seen"] = self.known
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %s (%.1fs)" % (self.prop, verdict or ("VIOLATED" if self.viol else "held"), time.time() - self.t0), flush=True)
        return 1 if self.viol else 0


def run(cmd, timeout=None, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, cwd=cwd, input=stdin)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b""
        return -9, o.decode(errors="replace") if isinstance(o, bytes) else o
