"""C08: the registry and every lookup over it."""
from .env import *
from .reg import reg_inv, reg_cand
from .report import Report
from . import msgs


def make():
    s = reg_src()
    reg = Unit("registry", [s], {"message_registry": rename(REG_CON, s)}, head=read(CONTRACTS, "rt.rs") + spec_text() + table_mod(s.order), inv=reg_inv, cand=reg_cand, uses=REG_USES, mods=["reg", "regm"])
    srcs = take(BASE)
    con = {"mx_envelope": dict(NS_CON), "xml": dict(ELEM_CON)}
    env = env_unit("users", srcs, con, {"mx_envelope": set(NS_CON), "xml": set(ELEM_CON)}, extra_head=ENVSPEC)
    return [reg, env]


def check(prop, tier):
    rep = Report(prop, tier)
    deadline = time.time() + (500 if tier == "quick" else 2000)
    rs = verify(lambda: make(), prop, deadline)
    rep.assumptions += ["vstd's contracts of Vec, Option, slices, iterators and string equality",
                        "the bodies of mx_envelope and xml outside the five functions of this check are assumed with their types only"]
    return conclude(rep, rs, msgs.hunt_lookup, tier)
