"""Verdict, evidence and known findings."""
from .common import *

EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVID, "replay")
FINDINGS = os.path.join(VERIF, "known_findings.json")

TRUSTED = [
    "Verus 0.2026.09.13 (VIR encoding, vstd) and its Z3 4.16.0",
    "vx extraction (/verif/vx): span edits listed in DESIGN.md, section 'What the extraction changes'",
]


def findings(prop):
    if not os.path.exists(FINDINGS):
        return []
    return [f for f in json.loads(read(FINDINGS)) if f.get("property") == prop and f.get("status") == "open"]


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.violations = []     # (text, replay, concrete)
        self.known = []
        self.cov = {"obligations": 0, "discharged": 0, "checker_cmd": "", "trusted_base": list(TRUSTED)}
        self.assumptions = []
        self.notes = []
        self.level = "proof"

    def violation(self, title, data, concrete):
        os.makedirs(REPLAY, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(REPLAY, f"{self.prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "title": title, "concrete": concrete, **data}, f, indent=1, ensure_ascii=False, default=str)
        self.violations.append((title, path, concrete))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for title, path, concrete in self.violations[:20]:
            print(f"  {title}")
        for title, path, concrete in sorted(self.violations, key=lambda v: not v[2])[:5]:
            print(f"VIOLATION property={self.prop} replay={path}" + ("" if concrete else " no-failing-input-found"))
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.notes:
            self.cov["notes"] = self.notes
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        for n in self.notes:
            print("note:", n)
        print(f"{self.prop}: {self.cov.get('discharged')}/{self.cov.get('obligations')} obligations discharged, {len(self.violations)} violation(s), {ev['wall_s']} s")
        return 1 if self.violations else 0
