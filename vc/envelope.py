"""C09, C10: reading and writing envelopes and Document-only texts."""
from .env import *
from .reg import reg_inv, reg_cand
from .report import Report
from . import msgs

EX9 = "vx_r is Ok ==> exists|d: Seq<char>| #[trigger] doc_from(vx_r->Ok_0.document, d) && root_row(d) == doc_row(vx_r->Ok_0.document)"
FROM9 = {
    "MxMessage::detect_document_type": {"ens": ["vx_r is Ok ==> root_row(doc_xml@) >= 0 && vx_r->Ok_0@ == S(root_row(doc_xml@))"], "pro": ROOT_CON["MxMessage::detect_document_type"]["pro"]},
    "MxMessage::from_xml": {"ens": [EX9]},
    "MxMessage::from_xml_with_envelope": {"ens": [EX9], "pro": FROM_CON["MxMessage::from_xml_with_envelope"]["pro"]},
    "MxMessage::from_xml_document_only": {"ens": [EX9]},
}
XENV9 = {"from_mx_xml_envelope_str": {"ens": [f"!is_env(xml@) && vx_r is Ok ==> {N_} >= 0"]}}
PROPS = {
    "C09": {"mx": {**NS_CON, **SER_CON, **DE_CON, **FROM9}, "xml": {**ELEM_CON, **X2J_CON, **XENV9}, "tags": True},
    "C10": {"mx": {**SER_CON, **DE_CON, **SECT_CON, **ROOT_CON, **TO_CON, **FROM_CON}, "xml": {**ELEM_CON, **VIA_CON, **XENV_CON}, "tags": False},
}


def reg_unit():
    s = reg_src()
    return Unit("registry", [s], {"message_registry": rename(REG_CON, s)}, head=read(CONTRACTS, "rt.rs") + spec_text() + table_mod(s.order), inv=reg_inv, cand=reg_cand, uses=REG_USES, mods=["reg", "regm"])


def make(prop):
    p = PROPS[prop]
    srcs = take(BASE)
    con = {"mx_envelope": dict(p["mx"]), "xml": dict(p["xml"])}
    mods = ["envs"] + (["tags"] if p["tags"] else ["laws"])
    return [reg_unit(), env_unit("env", srcs, con, {"mx_envelope": set(p["mx"]), "xml": set(p["xml"])}, extra_head=ENVSPEC + (tag_mod() if p["tags"] else LAW), mods=mods)]


ASSUME = ["the serde derives and quick_xml are uninterpreted: what a text reads as (de_ok/de_val) and what a value writes as (se_ok/se_text) are functions of structure and text or value",
          "assumed contracts of the str methods (find, rfind, contains, slicing, trim*, replace); trim, trim_start_matches and replace are uninterpreted",
          "the JSON stand-in: values as an enum, objects as finite maps"]


def check(prop, tier):
    rep = Report(prop, tier)
    deadline = time.time() + (500 if tier == "quick" else 2000)
    rs = verify(lambda: make(prop), prop, deadline)
    rep.assumptions += ASSUME
    return conclude(rep, rs, lambda deep=False: msgs.hunt_msgs(prop, deep), tier)
