"""C11-C15: text handling without panics, type detection, content extraction and the workflow handlers."""
from .env import *
from .reg import reg_inv, reg_cand
from .envelope import reg_unit, ASSUME
from .report import Report
from . import msgs

H = ["use tracing", "use async_trait"]
PLUG = {"plugin::common": ("plugin/common", ["use tracing"]), **{f"plugin::{n}": (f"plugin/{n}", H) for n in ("parse", "publish", "validate", "generate")}}
FUSES = USES.replace("use vstd::prelude::*;", "use vstd::prelude::*; use crate::dataflow_rs; use crate::datafake_rs; use crate::datalogic_rs; use crate::chrono; use crate::flows::*; use crate::dataflow_rs::engine::message::{ctx_ok, lends};", 1)
EX = ["message", "config", "_datalogic"]
PARAMS.update({"plugin::common": {"map_document_element_to_message_type": ["element_name"], "extract_message_type": ["data"], "extract_message_type_from_xml": ["xml_str"],
                                  "extract_mx_content": ["message_data", "field_name", "message_payload"]},
               "plugin::parse": {"<Parse as AsyncFunctionHandler>::execute": EX, "Parse::parse_xml_to_json": ["message", "xml_str", "target_field"]},
               "plugin::publish": {"<Publish as AsyncFunctionHandler>::execute": EX, "Publish::json_to_mx": ["json_data"]},
               "plugin::validate": {"<Validate as AsyncFunctionHandler>::execute": EX, "Validate::validate_xml": ["xml_content"]},
               "plugin::generate": {"<Generate as AsyncFunctionHandler>::execute": EX}})
for _m in PLUG:
    KNOWN[_m] = list(PARAMS[_m])

FLOWSPEC = """
/*vxmod:flows*/ pub mod flows { use vstd::prelude::*; use crate::strs::*; use crate::reg::*; use crate::docs::*; use crate::rt::*; use crate::envs::*; use crate::serde_json::*; use crate::mx_envelope::*; use crate::dataflow_rs::engine::message::*; use crate::dataflow_rs::engine::FunctionConfig;
    // ---- type detection
    /// the type of an element name: a registered one, or a legacy alias
    #[verifier::opaque]
    pub open spec fn mapel(n: Seq<char>) -> Option<Seq<char>> {
        if ke(n) >= 0 { Some(S(ke(n))) } else if n == "FinInstnCdtTrf"@ { Some("pacs.009"@) } else if n == "Rct"@ { Some("camt.025"@) } else if n == "ClmNonRct"@ || n == "ClaimNonReceiptV07"@ { Some("camt.027"@) } else { None }
    }
    pub open spec fn jtype(v: Value) -> Option<Seq<char>> {
        if strof(fld(v, "message_type"@)) is Some { strof(fld(v, "message_type"@)) }
        else { match fld(v, "Document"@) { Some(Value::Object(o)) => if jkeys(o).len() > 0 { mapel(jkeys(o)[0]) } else { None }, _ => None } }
    }
    pub open spec fn tag_end(c: char) -> bool { ws(c) || c == '>' || c == '/' }
    /// the name without its prefix
    pub open spec fn local(n: Seq<char>) -> Seq<char> { if rfnd(n, seq![':']) >= 0 { rest(n, rfnd(n, seq![':']) + 1) } else { n } }
    /// the name of the first tag in u, when it is a start tag
    #[verifier::opaque]
    pub open spec fn first_name(u: Seq<char>) -> Option<Seq<char>> {
        let s = fnd(u, seq!['<']); let v = rest(u, s + 1); let k = fndc(v, |c: char| tag_end(c));
        if s >= 0 && s + 1 < u.len() && u[s + 1] != '/' { Some(local(if k >= 0 { v.subrange(0, k) } else { v })) } else { None }
    }
    /// the text after the Document start tag
    #[verifier::opaque]
    pub open spec fn after_doc(x: Seq<char>) -> Option<Seq<char>> {
        let t = trim(x); let a = fnd(t, "<Document"@); let g = fnd(rest(t, a), seq!['>']);
        if a >= 0 && g >= 0 { Some(rest(t, a + g + 1)) } else { None }
    }
    pub open spec fn dtype(x: Seq<char>) -> Option<Seq<char>> { match after_doc(x) { Some(u) => match first_name(u) { Some(n) => mapel(n), None => None }, None => None } }
    pub open spec fn hdr_of(v: Value) -> Option<Value> { match fld(v, "AppHdr"@) { Some(h) => Some(h), None => match fld(v, "Envelope"@) { Some(e) => fld(e, "AppHdr"@), None => None } } }
    /// the message definition the header of parsed JSON names
    pub open spec fn mdi(v: Value) -> Option<Seq<char>> { match hdr_of(v) { Some(h) => strof(fld(h, "MsgDefIdr"@)), None => None } }
    /*vxspec:lemma detect*/
    /// where the pieces lie, in bytes
    pub proof fn doc_offs(x: Seq<char>) ensures ({ let t = trim(x); let a = fnd(t, "<Document"@); let g = fnd(rest(t, a), seq!['>']);
            a >= 0 && g >= 0 ==> a + g + 1 <= t.len() && off(t, a + g + 1) == off(t, a) + off(rest(t, a), g) + 1 && bnd(t, off(t, a + g + 1)) && at(t, off(t, a + g + 1)) == a + g + 1 }) {
        broadcast use crate::strs::group;
        let t = trim(x); let a = fnd(t, "<Document"@); let w = rest(t, a); let g = fnd(w, seq!['>']);
        if a >= 0 && g >= 0 { assert(occ(t, "<Document"@, a)); assert(occ(w, seq!['>'], g)); assert(w[g] == '>') by { reveal(occ); assert(w.subrange(g, g + 1)[0] == '>'); } assert(t[a + g] == '>'); assert(off(t, a + g) == off(t, a) + off(w, g)); }
    }
    pub proof fn name_offs(u: Seq<char>) ensures ({ let s = fnd(u, seq!['<']); let v = rest(u, s + 1); let k = fndc(v, |c: char| tag_end(c));
            s >= 0 ==> s + 1 <= u.len() && off(u, s + 1) == off(u, s) + 1 && bnd(u, off(u, s + 1)) && at(u, off(u, s + 1)) == s + 1
                && bytes(u).len() == blen(u) && (s + 1 < u.len() ==> off(u, s + 1) < blen(u) && ((u[s + 1] == '/') == (bytes(u)[off(u, s + 1)] == 47u8))) && (s + 1 == u.len() ==> off(u, s + 1) == blen(u))
                && (k >= 0 ==> s + 1 + k <= u.len() && off(u, s + 1 + k) == off(u, s + 1) + off(v, k) && bnd(u, off(u, s + 1 + k)) && at(u, off(u, s + 1 + k)) == s + 1 + k && u.subrange(s + 1, s + 1 + k) == v.subrange(0, k))
                && bnd(u, blen(u)) && at(u, blen(u)) == u.len() && off(u, u.len() as int) == blen(u) && off(u, s + 1) <= blen(u) }) {
        broadcast use {crate::strs::group, crate::strs::group_b};
        let s = fnd(u, seq!['<']); let v = rest(u, s + 1); let k = fndc(v, |c: char| tag_end(c));
        if s >= 0 {
            assert(occ(u, seq!['<'], s)); assert(u[s] == '<') by { reveal(occ); assert(u.subrange(s, s + 1)[0] == '<'); }
            assert(off(u, u.len() as int) == blen(u));
            if s + 1 < u.len() { assert(bytes(u)[off(u, s + 1)] == enc(u[s + 1])[0]); }
            if k >= 0 { assert(off(v, k) + off(u, s + 1) == off(u, s + 1 + k)); assert(u.subrange(s + 1, s + 1 + k) =~= v.subrange(0, k)); }
        }
    }
    pub proof fn colon_offs(n: Seq<char>) ensures ({ let c = rfnd(n, seq![':']); c >= 0 ==> c + 1 <= n.len() && off(n, c + 1) == off(n, c) + 1 && bnd(n, off(n, c + 1)) && at(n, off(n, c + 1)) == c + 1 }) {
        broadcast use crate::strs::group;
        let c = rfnd(n, seq![':']);
        if c >= 0 { assert(occ(n, seq![':'], c)); assert(n[c] == ':') by { reveal(occ); assert(n.subrange(c, c + 1)[0] == ':'); } }
    }
    /// any predicate that holds exactly at the characters that end a tag name finds its end
    pub proof fn same_end(u: Seq<char>) ensures forall|g: spec_fn(char) -> bool| (forall|c: char| #[trigger] g(c) == tag_end(c)) ==> #[trigger] fndc(u, g) == fndc(u, |c: char| tag_end(c)) {
        assert forall|g: spec_fn(char) -> bool| (forall|c: char| #[trigger] g(c) == tag_end(c)) implies #[trigger] fndc(u, g) == fndc(u, |c: char| tag_end(c)) by { fndc_eq(u, g, |c: char| tag_end(c)); }
    }
    /// a detected type is a short form, or no registered type
    pub proof fn mapel_short(n: Seq<char>) ensures mapel(n) is Some && kt(mapel(n)->Some_0) >= 0 ==> mapel(n)->Some_0 == S(kt(mapel(n)->Some_0)), ke(n) >= 0 ==> mapel(n) == Some(S(ke(n))) && kt(S(ke(n))) == ke(n) {
        reveal(mapel); kt_all(); ke_range(n); if ke(n) >= 0 { kt_inv(ke(n)); }
        assert(kt("camt.027"@) < 0) by { kt_range("camt.027"@); not_027(); }
    }
    proof fn not_027() ensures kt("camt.027"@) < 0 { reveal(kt); NOT027 }
    pub proof fn mapel_all() ensures forall|n: Seq<char>| (#[trigger] mapel(n)) is Some && kt(mapel(n)->Some_0) >= 0 ==> mapel(n)->Some_0 == S(kt(mapel(n)->Some_0)),
            forall|i: int| 0 <= i < NROWS ==> mapel(#[trigger] E(i)) == Some(S(i)) && kt(S(i)) == i,
            forall|s: Seq<char>| -1 <= #[trigger] kt(s) < NROWS {
        assert forall|s: Seq<char>| -1 <= #[trigger] kt(s) < NROWS by { kt_range(s); }
        assert forall|n: Seq<char>| (#[trigger] mapel(n)) is Some && kt(mapel(n)->Some_0) >= 0 implies mapel(n)->Some_0 == S(kt(mapel(n)->Some_0)) by { mapel_short(n); }
        assert forall|i: int| 0 <= i < NROWS implies mapel(#[trigger] E(i)) == Some(S(i)) && kt(S(i)) == i by { ke_inv(i); mapel_short(E(i)); }
    }
    /// an object with one field lists that field
    pub proof fn keys1(m: crate::serde_json::Map, k: Seq<char>, v: Value) requires jm(m) == vstd::map::Map::<Seq<char>, Value>::empty().insert(k, v) ensures jkeys(m).len() > 0, jkeys(m)[0] == k {
        broadcast use {jkeys_dom, jkeys_all, jkeys_len};
        assert(jm(m).contains_key(k));
        let i = choose|i: int| 0 <= i < jkeys(m).len() && #[trigger] jkeys(m)[i] == k;
        assert(jkeys(m).len() > 0); assert(jm(m).contains_key(jkeys(m)[0]));
    }
    pub proof fn keys1_all() ensures forall|o: Value, k: Seq<char>, v: Value| #[trigger] obj1(o, k, v) ==> jkeys(o->Object_0).len() > 0 && jkeys(o->Object_0)[0] == k {
        assert forall|o: Value, k: Seq<char>, v: Value| #[trigger] obj1(o, k, v) implies jkeys(o->Object_0).len() > 0 && jkeys(o->Object_0)[0] == k by { keys1(o->Object_0, k, v); }
    }
    /*vxspec:*/
    // ---- message content
    /// t is the content the source field names
    pub open spec fn content(data: Value, field: Seq<char>, payload: Value, t: Seq<char>) -> bool {
        if field == "payload"@ { payload is String ==> t == payload->String_0@ }
        else { match fld(data, field) { None => false, Some(v) => match strof(fld(v, "mx_message"@)) { Some(s) => t == s, None => is_str(v, t) } } }
    }
    pub open spec fn has_content(data: Value, field: Seq<char>) -> bool {
        field == "payload"@ || match fld(data, field) { None => false, Some(v) => strof(fld(v, "mx_message"@)) is Some || v is String }
    }
    // ---- handlers
    pub open spec fn parm(c: FunctionConfig, k: Seq<char>) -> Option<Seq<char>> { match c { FunctionConfig::Custom { name, input } => strof(fld(input, k)), _ => None } }
    pub open spec fn parm_(c: FunctionConfig, k: Seq<char>) -> Seq<char> { match parm(c, k) { Some(t) => t, None => seq![] } }
    pub open spec fn kept(a: Message, b: Message) -> bool { b.payload == a.payload && b.temp_() == a.temp_() && b.id == a.id && b.audit_trail == a.audit_trail && b.errors == a.errors }
    pub open spec fn untouched(a: Message, b: Message) -> bool { kept(a, b) && b.data_() == a.data_() && b.meta_() == a.meta_() }
    pub open spec fn one_change(a: Message, b: Message, target: Seq<char>, cs: Seq<Change>) -> bool {
        cs.len() == 1 && cs[0].path@ == "data."@ + target && *cs[0].old_value == fldn(a.data_(), target) && *cs[0].new_value == fldn(b.data_(), target)
    }
    pub open spec fn stored(a: Message, b: Message, target: Seq<char>, cs: Seq<Change>) -> bool { kept(a, b) && ctx_ok(a.data_()) && put(a.data_(), target, *cs[0].new_value, b.data_()) && b.cached() is None }
    pub open spec fn objs(m: Message) -> bool { m.data_() is Object && m.meta_() is Object }
    // ---- reading in a workflow
    /// the library can read the text
    pub open spec fn readable(x: Seq<char>) -> bool { if is_env(x) { env_reads(x) } else { match dtype(x) { Some(t) => kt(t) >= 0 && via_ok(kt(t), x), None => false } } }
    /// v is what one of the JSON texts of m reads as, or its JSON value
    pub open spec fn json_msg(m: MxMessage, v: Value) -> bool { (js_ok::<Value>(txt_pretty(&m)) && v == js_val::<Value>(txt_pretty(&m))) || (js_ok::<Value>(txt(&m)) && v == js_val::<Value>(txt(&m))) || (to_ok(&m) && v == to_val(&m)) }
    pub open spec fn fine(v: Value) -> bool { jtype(v) is Some }
    /// v is the JSON form of the message x holds
    pub open spec fn parsed(x: Seq<char>, v: Value) -> bool {
        if is_env(x) { exists|m: MxMessage| #[trigger] env_is(m, x) && json_msg(m, v) }
        else { match dtype(x) { Some(t) => kt(t) >= 0 && obj1(v, "Document"@, fldn(v, "Document"@)) && obj1(fldn(v, "Document"@), E(kt(t)), row_json(kt(t), doc_inner(x))), None => false } }
    }
    /// every message x may hold has a JSON form that names its type (the derives are outside the extracted text)
    pub open spec fn jsonable(x: Seq<char>) -> bool { !is_env(x) || forall|m: MxMessage| #[trigger] env_is(m, x) ==> txt_ok(&m) && to_ok(&m) && js_ok::<Value>(txt_pretty(&m)) && js_ok::<Value>(txt(&m)) && fine(js_val::<Value>(txt_pretty(&m))) && fine(js_val::<Value>(txt(&m))) && fine(to_val(&m)) }
    pub open spec fn verdict(x: Seq<char>, v: Value) -> bool { v is Object && fldn(v, "valid"@) == Value::Bool(readable(x)) && fldn(v, "errors"@) is Array && (readable(x) <==> fldn(v, "errors"@)->Array_0@.len() == 0) }
    /// v is the parsed form, or the verdict on, the content the source names
    pub open spec fn parsed_of(data: Value, field: Seq<char>, payload: Value, v: Value) -> bool { exists|t: Seq<char>| #[trigger] content(data, field, payload, t) && parsed(replaced(t, "\\\\n"@, "\\n"@), v) }
    pub open spec fn verdict_on(data: Value, field: Seq<char>, payload: Value, v: Value) -> bool { exists|t: Seq<char>| #[trigger] content(data, field, payload, t) && verdict(t, v) }
    pub open spec fn published(j: Value, v: Value) -> bool {
        let m = js_val::<MxMessage>(txt(&j)); txt_ok(&j) && js_ok::<MxMessage>(txt(&j)) && v is String && v->String_0@ == frame(hdr_xml(m), doc_text(m.document))
    }
}
""".replace("NROWS", str(NROWS)).replace("NOT027", 'reveal_strlit("camt.027"); ' + "".join(f"reveal_strlit({q(k)}); {differ(k, 'camt.027')} " for r in ROWS for k in (r["short"], r["full"])))

FT = "#[trigger] "
MAP_CON = {"map_document_element_to_message_type": {"ens": ["vx_r is Ok <==> mapel(element_name@) is Some", "vx_r is Ok ==> vx_r->Ok_0@ == mapel(element_name@)->Some_0"], "pro": " proof { reveal(mapel); ke_range(element_name@); }"}}
JT_CON = {"extract_message_type": {"ens": ["vx_r is Ok <==> jtype(*data) is Some", "vx_r is Ok ==> vx_r->Ok_0@ == jtype(*data)->Some_0"]}}
DT_PRO = """ proof { let xx = xml_str@; reveal(after_doc); reveal(first_name); doc_offs(xx);
        let t = trim(xx); let a = fnd(t, "<Document"@); let g = fnd(rest(t, a), seq!['>']);
        if a >= 0 && g >= 0 { let u = rest(t, a + g + 1); name_offs(u); let s = fnd(u, seq!['<']); if s >= 0 { let v = rest(u, s + 1); same_end(v); assert(off(v, v.len() as int) == blen(v)); let k = fndc(v, |c: char| tag_end(c)); colon_offs(v); colon_offs(v.subrange(0, k)); } } }"""
DT_CON = {"extract_message_type_from_xml": {"ens": ["vx_r is Ok <==> dtype(xml_str@) is Some", "vx_r is Ok ==> vx_r->Ok_0@ == dtype(xml_str@)->Some_0"], "pro": DT_PRO}}
CONT_CON = {"extract_mx_content": {"ens": ["vx_r is Ok ==> content(*message_data, field_name@, *message_payload, vx_r->Ok_0@)", "has_content(*message_data, field_name@) ==> vx_r is Ok"]}}
PEEK_CON = {"peek_message_type_from_json": {"ens": ["vx_r is Ok <==> js_ok::<serde_json::Value>(json@) && mdi(js_val::<serde_json::Value>(json@)) is Some", "vx_r is Ok ==> vx_r->Ok_0@ == norm(mdi(js_val::<serde_json::Value>(json@))->Some_0)"]},
            "peek_message_type_from_xml": {"ens": ["vx_r is Ok <==> crate::regex::re_search(mdi_pat(), xml@)", "vx_r is Ok ==> crate::regex::re_cap(mdi_pat(), xml@, 1) is Some && vx_r->Ok_0@ == norm(crate::regex::re_cap(mdi_pat(), xml@, 1)->Some_0)"],
                                           "pro": " proof { broadcast use crate::regex::Captures::g_is; mdi_ok(xml@); }"}}
PEEKSPEC = """
/*vxmod:peeks*/ pub mod peeks { use vstd::prelude::*; use crate::regex::*;
    pub open spec fn mdi_pat() -> Seq<char> { "<MsgDefIdr>([^<]+)</MsgDefIdr>"@ }
    /// the pattern is a regular expression with one group that takes part in every match
    pub axiom fn mdi_ok(x: Seq<char>) ensures re_valid(mdi_pat()), re_search(mdi_pat(), x) ==> re_cap(mdi_pat(), x, 1) is Some;
}
"""

CH = "vx_r->Ok_0.1@"
NEW = "*(vx_r->Ok_0.1@[0].new_value)"
SRC, TGT = "parm_(*config, \"source\"@)", "parm_(*config, \"target\"@)"
OM, FM = "*old(message)", "*final(message)"


def framed(target):
    return [f"vx_r is Err ==> untouched({OM}, {FM})", f"vx_r is Ok ==> one_change({OM}, {FM}, {target}, {CH})", f"vx_r is Ok ==> stored({OM}, {FM}, {target}, {CH})"]


def params_(*ks):
    return [f"parm(*config, \"{k}\"@) is None ==> vx_r is Err" for k in ks]


FORMS = {"C13": {}, "C14": {}, "C15": {}}
LIT = " proof { lits(); }"
LITSPEC = """
/*vxmod:litm*/ pub mod litm { use vstd::prelude::*;
    /*vxspec:lemma literals*/
    pub proof fn lits() ensures LITENS { LITBODY }
    /*vxspec:*/
}
"""
_L = ["data", "metadata", "temp_data", "message_type", "format", "valid", "errors", "warnings", "timestamp", "validated", "validation", "Document", "payload", "source", "target"]
LITSPEC = LITSPEC.replace("LITENS", ", ".join(f"{q(a)}@ != {q(b)}@" for i, a in enumerate(_L) for b in _L[:i])).replace("LITBODY", "".join(f"reveal_strlit({q(a)}); " for a in _L) + " ".join(differ(a, b) for i, a in enumerate(_L) for b in _L[:i]))
TAKES = f"content({OM}.data_(), {SRC}, *{OM}.payload, t)"
DATA = "old(message).data_()"
PAY = "*old(message).payload"
TAKEN = f"content({DATA}, {SRC}, {PAY}, t)"
PARSE_RES = f"vx_r is Ok ==> parsed_of({DATA}, {SRC}, {PAY}, {NEW})"
VALID_RES = f"vx_r is Ok ==> verdict_on({DATA}, {SRC}, {PAY}, {NEW})"
PUB_RES = f"vx_r is Ok ==> fld({DATA}, {SRC}) is Some && published(fldn({DATA}, {SRC}), {NEW})"
GEN_RES = f"vx_r is Ok ==> crate::datafake_rs::gen_may({PAY}, {NEW})"
DROP_RES = {"parse": PARSE_RES, "validate": VALID_RES, "publish": PUB_RES, "generate": GEN_RES}
PX_RES = [f"vx_r is Ok ==> readable(xml_str@) && parsed(xml_str@, {NEW})"]
PX_BACK = ["readable(xml_str@) && objs(*old(message)) && jsonable(xml_str@) ==> vx_r is Ok"]
PX_PRO = " proof { lits(); mapel_all(); keys1_all(); kt_all(); }"
JM_RES = ["vx_r is Ok ==> published(*json_data, Value::String(vx_r->Ok_0))", ]
VX_RES = ["vx_r is Ok", "vx_r is Ok ==> verdict(xml_content@, vx_r->Ok_0)"]


def handlers(frame_, res, back):
    """contracts of the handlers, with the clauses a property needs"""
    c = {}
    def ex(n, ks):
        T = n.capitalize()
        e = list(params_(*ks))
        if frame_:
            e += framed(TGT)
        if res:
            e.append(DROP_RES[n])
        c.setdefault(f"plugin::{n}", {})[f"<{T} as AsyncFunctionHandler>::execute"] = {"ens": e, "pro": LIT}
    for n in ("parse", "validate", "publish"):
        ex(n, ("source", "target"))
    ex("generate", ("target",))
    c["plugin::parse"]["Parse::parse_xml_to_json"] = {"ens": (framed("target_field@") if frame_ else [f"vx_r is Ok ==> one_change({OM}, {FM}, target_field@, {CH})"]) + (PX_RES if res else []) + (PX_BACK if back else []), "pro": PX_PRO}
    c["plugin::validate"]["Validate::validate_xml"] = {"ens": VX_RES, "pro": PX_PRO}
    c["plugin::publish"]["Publish::json_to_mx"] = {"ens": JM_RES, "pro": LIT}
    if back:
        c["plugin::validate"]["<Validate as AsyncFunctionHandler>::execute"]["ens"].append(f"parm(*config, \"source\"@) is Some && parm(*config, \"target\"@) is Some && has_content({DATA}, {SRC}) && objs(*old(message)) ==> vx_r is Ok")
    return c


FROMJ_CON = {"MxMessage::from_json": {"ens": ["vx_r is Ok <==> js_ok::<MxMessage>(json@)", "vx_r is Ok ==> vx_r->Ok_0 == js_val::<MxMessage>(json@)"]},
             "MxMessage::to_json": {"ens": ["vx_r is Ok <==> txt_ok(self)", "vx_r is Ok ==> vx_r->Ok_0@ == serde_json::txt_pretty(self) || vx_r->Ok_0@ == txt(self)"]}}
READ = {**DE_CON, **SECT_CON, **ROOT_CON, **FROM_CON}
XREAD = {**ELEM_CON, **VIA_CON, **XENV_CON}
COMMON = {**MAP_CON, **JT_CON, **DT_CON, **CONT_CON}


def spec(prop):
    """(contracts per module, functions whose bodies this property's check verifies per module)"""
    hs = lambda *a: handlers(*a)
    if prop == "C12":
        mx = {**NS_CON, **READ, **PEEK_CON}
        return {"mx_envelope": mx, "plugin::common": {**MAP_CON, **JT_CON, **DT_CON}}, {"mx_envelope": set(mx), "plugin::common": set(MAP_CON) | set(JT_CON) | set(DT_CON)}
    base = {"mx_envelope": {**READ, **SER_CON, **TO_CON, **FROMJ_CON}, "xml": dict(XREAD), "plugin::common": dict(COMMON)}
    if prop == "C13":
        h = hs(False, True, False)
        return {**base, **h}, {"plugin::common": set(CONT_CON), **{m: set(c) for m, c in h.items() if m != "plugin::generate"}}
    if prop == "C14":
        h = hs(True, True, False)
        return {**base, **h}, {"mx_envelope": set(FROMJ_CON), **{m: set(c) for m, c in h.items()}}
    if prop == "C15":
        h = {m: c for m, c in hs(False, True, True).items() if m in ("plugin::parse", "plugin::validate")}
        return {**base, **h}, {"mx_envelope": set(READ) | set(FROMJ_CON), "xml": set(XREAD), "plugin::common": set(COMMON), **{m: set(c) for m, c in h.items()}}
    if prop == "C11":
        c = {"mx_envelope": {}, "xml": {}, "plugin::common": {"extract_message_type_from_xml": {"pro": DT_PRO}, "extract_mx_content": {}}, **{m: {f: {} for f in KNOWN[m]} for m in PLUG if m != "plugin::common"}}
        for m in ("mx_envelope", "xml"):
            c[m] = {f: {} for f in KNOWN[m]}
        c["plugin::common"] = {f: c["plugin::common"].get(f, {}) for f in KNOWN["plugin::common"]}
        return c, {m: set(c[m]) for m in c}


def make(prop):
    con, under = spec(prop)
    plug = {m: PLUG[m] for m in PLUG if m in con}
    srcs = take({**BASE, **plug})
    return [reg_unit(), env_unit("flow", srcs, con, under, extra_head=ENVSPEC + read(CONTRACTS, "flow.rs") + FLOWSPEC + PEEKSPEC + LITSPEC,
                                 uses=FUSES.replace("use crate::flows::*;", "use crate::flows::*; use crate::peeks::*; use crate::litm::*;"), mods=["envs", "flows", "litm"])]


FLOWASSUME = ASSUME + ["contracts of the dataflow_rs, datafake_rs and chrono stand-ins (contracts/flow.rs), written from their sources",
                       "async fn execute is verified as a plain function: it awaits nothing; log macros are dropped with their arguments",
                       "the JSON form of a message (to_json, then from_str) names its type: the derives of MxMessage are outside the extracted text (C15 only)"]


def check(prop, tier):
    from . import hunts
    rep = Report(prop, tier)
    deadline = time.time() + (500 if tier == "quick" else 2000)
    rs = verify(lambda: make(prop), prop, deadline)
    rep.assumptions += FLOWASSUME
    return conclude(rep, rs, hunts.HUNT[prop], tier)
