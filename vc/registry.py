"""Which module decides which property."""
import traceback
from .report import Report


def run(prop, tier):
    try:
        if prop in ("C01", "C02", "C03", "C04", "C05", "C06"):
            from . import validation as m
        elif prop == "C07":
            from . import convert as m
        elif prop == "C08":
            from . import lookup as m
        elif prop in ("C09", "C10"):
            from . import envelope as m
        elif prop in ("C11", "C12", "C13", "C14", "C15"):
            from . import flow as m
        else:
            raise SystemExit("unknown property " + prop)
        return m.check(prop, tier)
    except SystemExit:
        raise
    except Exception:
        t = traceback.format_exc()
        print(t)
        return stand_in(prop, tier, t)


def stand_in(prop, tier, why):
    """the verification itself broke down: only the bounded search is left; without that too the check has no answer (exit 2)"""
    r = Report(prop, tier)
    r.level = "other"
    r.notes.append("the verification broke down and decided nothing: " + why[-1500:])
    try:
        found, r.cov["inputs_run"] = search(prop)(tier == "thorough")
    except Exception:
        traceback.print_exc()
        r.notes.append("no bounded stand-in ran either")
        r.finish()
        return 2
    r.notes.append(f"bounded stand-in for everything: {r.cov['inputs_run']} inputs (bounded, not counted as proved)")
    for x in found[:5]:
        r.violation(x["why"], x, True)
    return r.finish()


def search(prop):
    from . import harness, msgs, hunts, convert
    if prop <= "C06":
        return lambda deep: harness.hunt_core(prop, deep)
    if prop == "C07":
        return convert.hunt
    if prop == "C08":
        return msgs.hunt_lookup
    if prop in ("C09", "C10"):
        return lambda deep: msgs.hunt_msgs(prop, deep)
    return hunts.HUNT[prop]
