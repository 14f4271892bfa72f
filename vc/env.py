"""The crate for C08-C15: the message envelope, the XML utilities and the plugin functions over stand-ins for their dependencies."""
from .unit import *
from .reg import differ, ROWS, spec_text, REG_CON, rename, sub_params, q, URN, reg_src, table_mod, USES as REG_USES

LOG = ["debug", "instrument", "error", "info", "warn", "trace"]
TYPEREF = re.compile(r"\b([a-z]{4}_\d{3}_\d{3}_\d{2})::(\w+)")
NROWS = len(ROWS)
USES = ("use vstd::prelude::*; use crate::strs::*; use crate::serde_json; use crate::serde_json::{jm, jkeys, fld, fldn, is_str, strof, put, jtext, js_ok, js_val, to_ok, to_val, txt_ok, txt}; use crate::quick_xml; use crate::quick_xml::de::{de_ok, de_val}; use crate::rt::{trim, ws}; use crate::quick_xml::se::{se_ok, se_text}; use crate::envs::*; use crate::regex; use crate::serde::{Serialize, Deserialize}; use crate::reg::*; use crate::docs::*; "
        "broadcast use {crate::strs::group, crate::rt::cat, crate::serde_json::to_ref, crate::serde_json::to_ok_ref};")


def module_of(row):
    return row["full"].replace(".", "_")


def take(files, io=True):
    """{name: (file, drop)} -> [Src]"""
    don = {n: {"file": f"{REPO}/src/{f}.rs", "known": KNOWN[n]} for n, (f, d) in files.items() if n in KNOWN}
    req = [{"file": f"{REPO}/src/{f}.rs", "drop": d, "keep_fns": [], "log": LOG, "fmt": True, "io": io, **({"known": KNOWN[n]} if n in KNOWN else {}), "donors": [x for m, x in don.items() if m != n]} for n, (f, d) in files.items()]
    return [reg_src() if n == "message_registry" else Src(n, f"src/{f}.rs", e) for (n, (f, d)), e in zip(files.items(), extract(req))]


def variants(text):
    """the variants of Document: [(variant, module, type)]"""
    m = re.search(r"enum Document \{(.*?)\n\}", text, re.S)
    return re.findall(r"(\w+)\(\s*Box<\s*(?:crate::)?document::(\w+)::(\w+)\s*>\s*\)", m.group(1)) if m else []


def row_of(mod, ty):
    return next((i for i, r in enumerate(ROWS) if r["rust"] == ty and module_of(r) == mod), -1)


def doc_stubs(texts, extra=()):
    """opaque stand-ins for the generated types the extracted text names"""
    mods = {}
    for m, t in [x for text in texts for x in TYPEREF.findall(text)] + [(module_of(r), r["rust"]) for r in ROWS] + list(extra):
        mods.setdefault(m, set()).add(t)
    o = "/*vxmod:document*/ pub mod document {\n"
    for m, ts in sorted(mods.items()):
        o += f" pub mod {m} {{ use vstd::prelude::*; " + " ".join(f"pub struct {t} {{ x: u8 }} impl crate::serde::Serialize for {t} {{ }} impl crate::serde::Deserialize for {t} {{ }}" for t in sorted(ts)) + " }\n"
    return o + "}\n"


def docs_mod(vs):
    """what reading and writing row n means, over the structure registered for row n"""
    ty = lambda r: f"crate::document::{module_of(r)}::{r['rust']}"
    arms = lambda f: " else ".join(f"if n == {i} {{ {f(i, r)} }}" for i, r in enumerate(ROWS))
    row = {}
    for v, m, t in vs:
        row[v] = row_of(m, t)
    good = [(v, i) for v, i in row.items() if i >= 0]
    o = "/*vxmod:docs*/ pub mod docs { use vstd::prelude::*; use crate::mx_envelope::*; use crate::quick_xml::de::*; use crate::quick_xml::se::*; use crate::serde_json; use crate::serde_json::*; use crate::reg::*; use crate::strs::*;\n"
    o += " /// the registered row whose structure the document has\n pub open spec fn doc_row(d: Document) -> int { match d { " + " ".join(f"Document::{v}(_) => {i}," for v, i in row.items()) + " } }\n"
    o += f" /// s reads as the structure of row n\n #[verifier::opaque] pub open spec fn row_reads(n: int, s: Seq<char>) -> bool {{ {arms(lambda i, r: f'de_ok::<{ty(r)}>(s)')} else {{ false }} }}\n"
    o += " /// d is what reading s as the structure of its own row gives\n #[verifier::opaque] pub open spec fn doc_from(d: Document, s: Seq<char>) -> bool { match d { " + " ".join(
        f"Document::{v}(b) => de_ok::<crate::document::{m}::{t}>(s) && *b == de_val::<crate::document::{m}::{t}>(s)," for v, m, t in vs) + " } }\n"
    o += " pub open spec fn renamed(t: Seq<char>, u: Seq<char>, e: Seq<char>) -> Seq<char> { replaced(replaced(t, \"<\"@ + u + \">\"@, \"<\"@ + e + \">\"@), \"</\"@ + u + \">\"@, \"</\"@ + e + \">\"@) }\n"
    o += " #[verifier::opaque] pub open spec fn doc_writes(d: Document) -> bool { match d { " + " ".join(f"Document::{v}(b) => se_ok::<crate::document::{m}::{t}>(&*b)," for v, m, t in vs) + " } }\n"
    o += " #[verifier::opaque] pub open spec fn doc_text(d: Document) -> Seq<char> { match d { " + " ".join(
        f"Document::{v}(b) => renamed(se_text::<crate::document::{m}::{t}>(&*b), U({row[v]}), E({row[v]}))," for v, m, t in vs) + " } }\n"
    o += f" /// the JSON form of s read as row n\n #[verifier::opaque] pub open spec fn row_json(n: int, s: Seq<char>) -> Value {{ {arms(lambda i, r: f'to_val(&de_val::<{ty(r)}>(s))')} else {{ Value::Null }} }}\n"
    o += f" #[verifier::opaque] pub open spec fn row_jsons(n: int, s: Seq<char>) -> bool {{ {arms(lambda i, r: f'to_ok(&de_val::<{ty(r)}>(s))')} else {{ false }} }}\n"
    o += f" /// v is the JSON form of something read as the structure of row n\n #[verifier::opaque] pub open spec fn json_of(n: int, v: Value) -> bool {{ {arms(lambda i, r: f'exists|b: Seq<char>| #[trigger] de_ok::<{ty(r)}>(b) && v == to_val(&de_val::<{ty(r)}>(b))')} else {{ false }} }}\n"
    o += f" /// the structure of row n takes every text and every value of it has a JSON form\n #[verifier::opaque] pub open spec fn takes_all(n: int) -> bool {{ {arms(lambda i, r: f'(forall|b: Seq<char>| #[trigger] de_ok::<{ty(r)}>(b)) && forall|x: {ty(r)}| #[trigger] to_ok(&x)')} else {{ false }} }}\n"
    o += " pub open spec fn obj1(v: Value, k: Seq<char>, x: Value) -> bool { v is Object && jm(v->Object_0) == vstd::map::Map::<Seq<char>, Value>::empty().insert(k, x) }\n"
    o += "/*vxspec:lemma docs*/\n"
    # every row has its variant, and no two share one
    o += f" pub proof fn rows_covered(n: int) requires 0 <= n < {NROWS} ensures exists|d: Document| doc_row(d) == n {{ " + " ".join(
        f"if n == {i} {{ let b: Box<{ty(ROWS[i])}> = arbitrary(); assert(doc_row(Document::{v}(b)) == {i}); }}" for v, i in good) + (" assert(false);" if len({i for _, i in good}) < NROWS and 0 else "") + " }\n"
    return o + "/*vxspec:*/\n}\n"


def tags():
    """the serde name of each variant of Document, as the source has it now; [(variant, name)] or None"""
    p = f"{REPO}/src/mx_envelope.rs"
    m = re.search(r"enum Document \{(.*?)\n\}", read(p), re.S) if os.path.exists(p) else None
    if not m or "rename_all" in read(p)[max(0, m.start() - 200):m.start()]:
        return None
    body = re.sub(r"//[^\n]*", "", m.group(1))
    out = []
    for v in re.finditer(r"((?:#\[[^\]]*\]\s*)*)(\w+)\s*\(", body):
        if v.group(2) in ("serde", "Box"):
            continue
        r = re.search(r'rename\s*=\s*"([^"]*)"', v.group(1))
        out.append((v.group(2), r.group(1) if r else v.group(2)))
    return out


def tag_mod():
    """the JSON tag of every variant is the registered element name of its row"""
    ts = tags()
    o = "/*vxmod:tags*/ pub mod tags { use vstd::prelude::*; use crate::reg::*; use crate::docs::*; use crate::mx_envelope::Document;\n"
    if ts:
        o += " pub open spec fn tag(d: Document) -> Seq<char> { match d { " + " ".join(f"Document::{v}(_) => {q(t)}@," for v, t in ts) + " } }\n"
        o += "/*vxspec:lemma tags*/\n pub proof fn tags_agree(d: Document) ensures doc_row(d) >= 0, tag(d) == E(doc_row(d)) { }\n"
    return o + "/*vxspec:*/\n}\n"


CORE_TAIL = """
/*vxmod:vx_env*/ pub mod vx_env { use vstd::prelude::*; use crate::error::*; use crate::serde_json;
    impl crate::rt::Disp for MxError { uninterp spec fn disp(&self) -> Seq<char>; }
    impl MxError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
    impl serde_json::Error { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
    impl crate::quick_xml::de::DeError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
    impl crate::quick_xml::se::SeError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
    impl From<serde_json::Error> for MxError { #[verifier::external_body] fn from(e: serde_json::Error) -> MxError { unimplemented!() } }
    impl crate::serde::Serialize for crate::mx_envelope::MxMessage { }
    impl crate::serde::Deserialize for crate::mx_envelope::MxMessage { }
    impl crate::serde::Serialize for crate::mx_envelope::Document { }
    impl crate::serde::Deserialize for crate::mx_envelope::Document { }
    #[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(std::io::Error);
}
"""
BASE = {"error": ("error", ["use thiserror", "impl From"]), "message_registry": ("message_registry", []),
        "mx_envelope": ("mx_envelope", ["use serde"]), "xml": ("xml", [])}

PARAMS = {"mx_envelope": {"get_namespace_for_message_type": ["message_type"], "normalize_message_type": ["message_type"], "MxMessage::new": ["app_hdr", "document"],
                          "MxMessage::serialize_with_rename": ["value", "rust_type", "xml_element", "msg_type"], "MxMessage::from_xml": ["xml"], "MxMessage::from_xml_with_envelope": ["xml"],
                          "MxMessage::from_xml_document_only": ["_xml"], "MxMessage::extract_section": ["xml", "tag"], "MxMessage::extract_attribute": ["xml", "attr"],
                          "MxMessage::detect_document_type": ["doc_xml"], "MxMessage::deserialize_document": ["doc_xml", "message_type"], "MxMessage::from_json": ["json"],
                          "peek_message_type_from_xml": ["xml"], "peek_message_type_from_json": ["json"]},
          "xml": {"from_mx_xml_envelope_str": ["xml", "message_type"], "get_document_element_name": ["message_type"], "xml_to_json_via_document": ["xml", "message_type"], "from_mx_xml_to_json": ["xml"]}}


def head(srcs, extra=""):
    t = {s.name: s.text for s in srcs}
    vs = variants(t.get("mx_envelope", ""))
    return "".join(read(CONTRACTS, f) for f in ("rt.rs", "strs.rs", "json.rs", "env.rs")) + spec_text() + doc_stubs(t.values(), [(m, ty) for _, m, ty in vs]) + docs_mod(vs) + extra


def opaque_fn(f):
    """functions whose body stays outside a check"""
    return f["body"]


TOKENS = ['<?xml version=\\"1.0\\" encoding=\\"UTF-8\\"?>', "<Envelope>", "<Document>", "</Document>", "</Envelope>"]


def joined(src):
    """the string literals of a function that are several pieces of the frame in one, taken apart (proved, literal by literal)"""
    o = ""
    for l in set(x for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', src) for x in re.split(r"\{\w*\}", m.group(1))):
        ts, r = [], l
        while r:
            t = next((t for t in TOKENS if r.startswith(t)), None)
            if not t:
                break
            ts.append(t); r = r[len(t):]
        if not r and len(ts) > 1:
            o += "".join(f'reveal_strlit("{t}"); ' for t in {l, *ts}) + f'assert("{l}"@ =~= ' + " + ".join(f'"{t}"@' for t in ts) + "); "
    return f" proof {{ {o}}}" if o else ""


def env_unit(name, srcs, con, under, extra_head="", tail="", uses=USES, mods=(), inv=None, cand=None, pro=""):
    """under: {module: set of fn paths whose bodies are verified}; every other body of a known function is assumed with its contract.
    Functions that have no contract (new helpers) are verified too, so that no code hides in them."""
    fixed = []
    for s in srcs:
        con[s.name] = sub_params(con.get(s.name, {}), s, PARAMS.get(s.name, {}))
        for f in s.fns:
            c = con[s.name].get(f["path"])
            if c and f["path"].endswith("::to_xml") and f["body"]:
                con[s.name][f["path"]] = {**c, "pro": c.get("pro", "") + joined(f["src"])}
        known = set(KNOWN.get(s.name, ()))
        for f in s.fns:
            if f["body"] and f["path"] not in under.get(s.name, ()) and (f["path"] in known or s.name not in under):
                fixed.append((s.name, f["path"]))
    rg = next(s for s in srcs if s.name == "message_registry")
    con["message_registry"] = rename(REG_CON, rg)
    uses = {"": uses, "message_registry": REG_USES + " use crate::strs::*;"}
    u = Unit(name, srcs, con, head=head(srcs, extra_head + table_mod(rg.order)), tail=CORE_TAIL + tail, uses=uses, mods=["docs", "strs", "serde_json"] + list(mods), skip=["message_registry"] + [s.name for s in srcs if s.name not in under], inv=inv, cand=cand, pro=pro, ext_ok=fixed)
    return u


KNOWN = {"mx_envelope": list(PARAMS["mx_envelope"]) + ["Document::namespace", "MxMessage::message_type", "MxMessage::namespace", "MxMessage::to_xml", "MxMessage::serialize_document", "MxMessage::to_json"],
         "xml": list(PARAMS["xml"])}


# ---------------------------------------------------------------- what reading and writing an envelope means
ENVSPEC = """
/*vxmod:envs*/ pub mod envs { use vstd::prelude::*; use crate::strs::*; use crate::reg::*; use crate::docs::*; use crate::rt::*; use crate::serde_json::*; use crate::mx_envelope::*; use crate::quick_xml::de::*; use crate::quick_xml::se::*;
    pub open spec fn rest(s: Seq<char>, i: int) -> Seq<char> { s.subrange(i, s.len() as int) }
    /// the text between the first `<tag ..>` and the first `</tag>`; nothing if one is missing, or nothing is in between
    #[verifier::opaque]
    pub open spec fn sect(s: Seq<char>, tag: Seq<char>) -> Option<Seq<char>> {
        let a = fnd(s, "<"@ + tag); let g = fnd(rest(s, a), seq!['>']); let e = fnd(s, "</"@ + tag + ">"@);
        if a >= 0 && g >= 0 && e >= 0 && a + g + 1 < e { Some(s.subrange(a + g + 1, e)) } else { None }
    }
    pub open spec fn name_end(c: char) -> bool { ws(c) || c == '>' }
    /// the name of the first element, when the text starts with one
    #[verifier::opaque]
    pub open spec fn root(d: Seq<char>) -> Option<Seq<char>> {
        let t = trim(d); let i = fndc(rest(t, 1), |c: char| name_end(c));
        if occ(t, seq!['<'], 0) && i >= 0 { Some(t.subrange(1, i + 1)) } else { None }
    }
    /*vxspec:lemma names*/
    /// any predicate that holds exactly at white space and '>' finds the end of the name
    pub proof fn same_name(u: Seq<char>) ensures forall|g: spec_fn(char) -> bool| (forall|c: char| #[trigger] g(c) == name_end(c)) ==> #[trigger] fndc(u, g) == fndc(u, |c: char| name_end(c)) {
        assert forall|g: spec_fn(char) -> bool| (forall|c: char| #[trigger] g(c) == name_end(c)) implies #[trigger] fndc(u, g) == fndc(u, |c: char| name_end(c)) by { fndc_eq(u, g, |c: char| name_end(c)); }
    }
    /*vxspec:*/
    pub open spec fn root_row(d: Seq<char>) -> int { match root(d) { Some(n) => ke(n), None => -1 } }
    /*vxspec:lemma roots*/
    pub proof fn root_rng() ensures forall|d: Seq<char>| -1 <= #[trigger] root_row(d) < NROWS {
        assert forall|d: Seq<char>| -1 <= #[trigger] root_row(d) < NROWS by { match root(d) { Some(n) => ke_range(n), None => {} } }
    }
    pub proof fn hdr_lits() ensures "<"@ + "BusinessApplicationHeaderV02"@ + ">"@ == "<BusinessApplicationHeaderV02>"@, "</"@ + "BusinessApplicationHeaderV02"@ + ">"@ == "</BusinessApplicationHeaderV02>"@,
            "<"@ + "AppHdr"@ + ">"@ == "<AppHdr>"@, "</"@ + "AppHdr"@ + ">"@ == "</AppHdr>"@ {
        reveal_strlit("<"); reveal_strlit("</"); reveal_strlit(">"); reveal_strlit("BusinessApplicationHeaderV02"); reveal_strlit("AppHdr");
        reveal_strlit("<BusinessApplicationHeaderV02>"); reveal_strlit("</BusinessApplicationHeaderV02>"); reveal_strlit("<AppHdr>"); reveal_strlit("</AppHdr>");
        assert("<"@ + "BusinessApplicationHeaderV02"@ + ">"@ =~= "<BusinessApplicationHeaderV02>"@); assert("</"@ + "BusinessApplicationHeaderV02"@ + ">"@ =~= "</BusinessApplicationHeaderV02>"@);
        assert("<"@ + "AppHdr"@ + ">"@ =~= "<AppHdr>"@); assert("</"@ + "AppHdr"@ + ">"@ =~= "</AppHdr>"@);
    }
    /*vxspec:*/
    pub open spec fn hdr_text(h: Seq<char>) -> Seq<char> { "<AppHdr>"@ + h + "</AppHdr>"@ }
    pub open spec fn is_env(x: Seq<char>) -> bool { has(x, "<AppHdr"@) || has(x, "<Envelope"@) }
    /// the envelope can be read
    pub open spec fn env_reads(x: Seq<char>) -> bool {
        match (sect(x, "AppHdr"@), sect(x, "Document"@)) { (Some(h), Some(d)) => de_ok::<crate::header::AppHdr>(hdr_text(h)) && root_row(d) >= 0 && row_reads(root_row(d), d), _ => false }
    }
    /// m is what the envelope x holds
    pub open spec fn env_is(m: MxMessage, x: Seq<char>) -> bool {
        match (sect(x, "AppHdr"@), sect(x, "Document"@)) { (Some(h), Some(d)) => m.app_hdr == de_val::<crate::header::AppHdr>(hdr_text(h)) && doc_row(m.document) == root_row(d) && doc_from(m.document, d), _ => false }
    }
    /// the document part of a Document-only text: between the start tag and the last end tag
    #[verifier::opaque]
    pub open spec fn doc_inner(x: Seq<char>) -> Seq<char> {
        let t = trim(tsm(trim(x), "<?xml version=\\"1.0\\" encoding=\\"UTF-8\\"?>"@));
        let a = fnd(t, "<Document"@); let g = fnd(rest(t, a), seq!['>']); let e = rfnd(t, "</Document>"@);
        trim(if a >= 0 && g >= 0 && e >= 0 && a + g + 1 <= e { t.subrange(a + g + 1, e) } else { t })
    }
    /// a Document-only text can be read as row n
    pub open spec fn via_ok(n: int, x: Seq<char>) -> bool { row_reads(n, doc_inner(x)) && row_jsons(n, doc_inner(x)) }
    pub open spec fn hdr_xml(m: MxMessage) -> Seq<char> { renamed(se_text(&m.app_hdr), "BusinessApplicationHeaderV02"@, "AppHdr"@) }
    pub open spec fn decl() -> Seq<char> { "<?xml version=\\"1.0\\" encoding=\\"UTF-8\\"?>"@ }
    pub open spec fn frame(h: Seq<char>, d: Seq<char>) -> Seq<char> { decl() + "<Envelope>"@ + h + "<Document>"@ + d + "</Document>"@ + "</Envelope>"@ }
}
""".replace("NROWS", str(NROWS))

# proved on top of the contracts of to_xml and from_xml (C10)
LAW = """
/*vxmod:laws*/ pub mod laws { use vstd::prelude::*; use crate::strs::*; use crate::reg::*; use crate::docs::*; use crate::rt::*; use crate::envs::*; use crate::serde_json::*; use crate::mx_envelope::*; use crate::quick_xml::de::*; use crate::quick_xml::se::*;
    pub open spec fn no(s: Seq<char>, p: Seq<char>) -> bool { fnd(s, p) < 0 }
    /*vxspec:lemma roundtrip*/
    /// p's only '<' is its first character: in a text that goes on with p, its first occurrence is there, when the text before holds none
    pub proof fn first_at(a: Seq<char>, p: Seq<char>, b: Seq<char>) requires p.len() > 0, p[0] == '<', forall|k: int| 0 < k < p.len() ==> #[trigger] p[k] != '<', no(a, p) ensures fnd(a + p + b, p) == a.len() {
        broadcast use crate::strs::group;
        let s = a + p + b;
        assert(occ(s, p, a.len() as int)) by { reveal(occ); assert(s.subrange(a.len() as int, (a.len() + p.len()) as int) =~= p); }
        let j = fnd(s, p);
        assert(0 <= j <= a.len());
        if j < a.len() {
            assert(occ(s, p, j));
            if j + p.len() <= a.len() { assert(occ(a, p, j)) by { reveal(occ); assert(a.subrange(j, j + p.len()) =~= s.subrange(j, j + p.len())); } assert(false); }
            else { let k = a.len() - j; assert(s.subrange(j, j + p.len())[k] == p[k]); assert(s[a.len() as int] == '<'); assert(p[k] == '<'); assert(false); }
        }
    }
    /// p has no '>' before its end: what ends with '>' and holds no p, followed by what holds none, holds none
    pub proof fn none_across(a: Seq<char>, b: Seq<char>, p: Seq<char>) requires p.len() > 0, a.len() > 0, a.last() == '>', forall|k: int| 0 <= k < p.len() - 1 ==> #[trigger] p[k] != '>', no(a, p), no(b, p) ensures no(a + b, p) {
        broadcast use crate::strs::group;
        let s = a + b; let j = fnd(s, p);
        if j >= 0 {
            assert(occ(s, p, j));
            if j + p.len() <= a.len() { assert(occ(a, p, j)) by { reveal(occ); assert(a.subrange(j, j + p.len()) =~= s.subrange(j, j + p.len())); } }
            else if j >= a.len() { assert(occ(b, p, j - a.len())) by { reveal(occ); assert(b.subrange(j - a.len(), j - a.len() + p.len()) =~= s.subrange(j, j + p.len())); } }
            else { let k = a.len() - 1 - j; assert(s.subrange(j, j + p.len())[k] == p[k]); assert(s[a.len() - 1] == '>'); assert(p[k] == '>'); }
        }
    }
    /// a part ends at the first '>' of its start tag
    pub proof fn close_at(t: Seq<char>, b: Seq<char>) requires t.len() > 0, t.last() == '>', forall|k: int| 0 <= k < t.len() - 1 ==> #[trigger] t[k] != '>' ensures fnd(t + b, seq!['>']) == t.len() - 1 {
        broadcast use crate::strs::group;
        let s = t + b; let g = seq!['>'];
        assert(occ(s, g, t.len() - 1)) by { reveal(occ); assert(s.subrange(t.len() - 1, t.len() as int) =~= g); }
        let j = fnd(s, g); assert(occ(s, g, j));
        assert(s.subrange(j, j + 1)[0] == '>');
    }
    pub open spec fn plain(h: Seq<char>) -> bool { h.len() > 0 && no(h, "</AppHdr>"@) && no(h, "<Document"@) && no(h, "</Document>"@) }
    proof fn none_before(a: Seq<char>, b: Seq<char>, p: Seq<char>) requires p.len() > 0, b.len() > 0, b[0] == '<', forall|k: int| 0 < k < p.len() ==> #[trigger] p[k] != '<', no(a, p), no(b, p) ensures no(a + b, p) {
        broadcast use crate::strs::group;
        let s = a + b; let j = fnd(s, p);
        if j >= 0 {
            assert(occ(s, p, j));
            if j + p.len() <= a.len() { assert(occ(a, p, j)) by { reveal(occ); assert(a.subrange(j, j + p.len()) =~= s.subrange(j, j + p.len())); } }
            else if j >= a.len() { assert(occ(b, p, j - a.len())) by { reveal(occ); assert(b.subrange(j - a.len(), j - a.len() + p.len()) =~= s.subrange(j, j + p.len())); } }
            else { let k = a.len() - j; assert(s.subrange(j, j + p.len())[k] == p[k]); assert(s[a.len() as int] == '<'); assert(p[k] == '<'); }
        }
    }
    proof fn lacks(a: Seq<char>, p: Seq<char>, k: int) requires 0 <= k < p.len(), !a.contains(p[k]) ensures no(a, p) {
        broadcast use crate::strs::group;
        let j = fnd(a, p);
        if j >= 0 { assert(occ(a, p, j)); assert(a.subrange(j, j + p.len())[k] == p[k]); assert(a[j + k] == p[k]); }
    }
    /// the frame's own pieces hold none of the other markers
    proof fn pieces() ensures ({ let p = decl() + "<Envelope>"@; let q = p + "<AppHdr>"@; q.last() == '>' && no(p, "<AppHdr"@) && no(q, "</AppHdr>"@) && no(q, "<Document"@) && no(q, "</Document>"@) && no("</AppHdr>"@, "<Document"@) && no("</AppHdr>"@, "</Document>"@) && no("<Document>"@, "</Document>"@) }) {
        reveal_strlit("<?xml version=\\"1.0\\" encoding=\\"UTF-8\\"?>"); reveal_strlit("<Envelope>"); reveal_strlit("<AppHdr>"); reveal_strlit("<AppHdr"); reveal_strlit("</AppHdr>"); reveal_strlit("<Document"); reveal_strlit("<Document>"); reveal_strlit("</Document>");
        let p = decl() + "<Envelope>"@; let q = p + "<AppHdr>"@;
        assert(!p.contains('A')); assert(!q.contains('/')); assert(!q.contains('D')); assert(!"</AppHdr>"@.contains('D')); assert(!"<Document>"@.contains('/'));
        lacks(p, "<AppHdr"@, 1); lacks(q, "</AppHdr>"@, 1); lacks(q, "<Document"@, 1); lacks(q, "</Document>"@, 1); lacks("</AppHdr>"@, "<Document"@, 1); lacks("</AppHdr>"@, "</Document>"@, 2); lacks("<Document>"@, "</Document>"@, 1);
    }
    /// the sections of a written envelope are exactly the header's and the document's contents
    pub proof fn law_sections(h: Seq<char>, d: Seq<char>) requires plain(h), d.len() > 0, no(d, "</Document>"@)
        ensures is_env(frame(hdr_text(h), d)), sect(frame(hdr_text(h), d), "AppHdr"@) == Some(h), sect(frame(hdr_text(h), d), "Document"@) == Some(d) {
        reveal(sect); pieces();
        reveal_strlit("<"); reveal_strlit("</"); reveal_strlit(">"); reveal_strlit("AppHdr"); reveal_strlit("Document");
        reveal_strlit("<AppHdr>"); reveal_strlit("<AppHdr"); reveal_strlit("</AppHdr>"); reveal_strlit("<Document"); reveal_strlit("<Document>"); reveal_strlit("</Document>");
        assert("<"@ + "AppHdr"@ =~= "<AppHdr"@); assert("<"@ + "Document"@ =~= "<Document"@); assert("</"@ + "AppHdr"@ + ">"@ =~= "</AppHdr>"@); assert("</"@ + "Document"@ + ">"@ =~= "</Document>"@);
        let x = frame(hdr_text(h), d);
        let p = decl() + "<Envelope>"@; let q = p + "<AppHdr>"@; let r = q + h + "</AppHdr>"@; let t = "</Document>"@ + "</Envelope>"@;
        let w = h + "</AppHdr>"@ + "<Document>"@ + d + t;
        // the header section
        assert(x =~= p + "<AppHdr"@ + (seq!['>'] + w)); first_at(p, "<AppHdr"@, seq!['>'] + w);
        assert(rest(x, p.len() as int) =~= "<AppHdr>"@ + w); close_at("<AppHdr>"@, w);
        none_across(q, h, "</AppHdr>"@);
        assert(x =~= (q + h) + "</AppHdr>"@ + ("<Document>"@ + d + t)); first_at(q + h, "</AppHdr>"@, "<Document>"@ + d + t);
        assert(x.subrange(q.len() as int, (q + h).len() as int) =~= h);
        // the document section
        none_across(q, h, "<Document"@); none_before(q + h, "</AppHdr>"@, "<Document"@);
        assert(x =~= r + "<Document"@ + (seq!['>'] + d + t)); first_at(r, "<Document"@, seq!['>'] + d + t);
        assert(rest(x, r.len() as int) =~= "<Document>"@ + (d + t)); close_at("<Document>"@, d + t);
        none_across(q, h, "</Document>"@); none_before(q + h, "</AppHdr>"@, "</Document>"@); none_across(r, "<Document>"@, "</Document>"@); none_across(r + "<Document>"@, d, "</Document>"@);
        assert(x =~= (r + "<Document>"@ + d) + "</Document>"@ + "</Envelope>"@); first_at(r + "<Document>"@ + d, "</Document>"@, "</Envelope>"@);
        assert(x.subrange((r + "<Document>"@).len() as int, (r + "<Document>"@ + d).len() as int) =~= d);
    }
    /// what holds of the derives: the texts of m's header and document read back as them, and name the document's own row
    pub open spec fn derives_invert(m: MxMessage, h: Seq<char>) -> bool {
        let d = doc_text(m.document);
        hdr_xml(m) == hdr_text(h) && plain(h) && d.len() > 0 && no(d, "</Document>"@) && de_ok::<crate::header::AppHdr>(hdr_text(h)) && de_val::<crate::header::AppHdr>(hdr_text(h)) == m.app_hdr
            && doc_row(m.document) >= 0 && root_row(d) == doc_row(m.document) && row_reads(root_row(d), d) && doc_from(m.document, d)
    }
    /// writing and reading back: the header and the document of the message
    pub proof fn law_roundtrip(m: MxMessage, h: Seq<char>) requires derives_invert(m, h)
        ensures ({ let x = frame(hdr_xml(m), doc_text(m.document)); is_env(x) && env_reads(x) && env_is(m, x) && forall|n: MxMessage| #[trigger] env_is(n, x) ==> n.app_hdr == m.app_hdr && n.document == m.document }) {
        let d = doc_text(m.document); let x = frame(hdr_xml(m), d);
        law_sections(h, d);
        assert forall|n: MxMessage| #[trigger] env_is(n, x) implies n.app_hdr == m.app_hdr && n.document == m.document by { reveal(doc_from); }
    }
    /*vxspec:*/
}
"""

NS_CON = {
    "get_namespace_for_message_type": {"ens": ["vx_r@ == nsof(message_type@)"]},
    "normalize_message_type": {"ens": ["vx_r@ == norm(message_type@)"]},
    "MxMessage::message_type": {"ens": ["vx_r is Ok", "vx_r->Ok_0@ == self.app_hdr.msg_def_idr@"]},
    "MxMessage::namespace": {"ens": ["vx_r is Ok", "vx_r->Ok_0@ == nsof(self.app_hdr.msg_def_idr@)"]},
}
ELEM_CON = {"get_document_element_name": {"ens": ["kt(message_type@) >= 0 ==> vx_r@ == E(kt(message_type@))", "kt(message_type@) < 0 ==> vx_r@ == \"Unknown\"@"]}}
SER_CON = {
    "Document::namespace": {"ens": ["vx_r@ == urn(F(doc_row(*self)))"], "pro": " proof { kt_all(); }"},
    "MxMessage::serialize_with_rename": {"ens": ["vx_r is Ok <==> se_ok(value)", "vx_r is Ok ==> vx_r->Ok_0@ == renamed(se_text(value), rust_type@, xml_element@)"]},
    "MxMessage::serialize_document": {"ens": ["vx_r is Ok <==> doc_writes(self.document)", "vx_r is Ok ==> vx_r->Ok_0@ == doc_text(self.document)"], "pro": " proof { reveal(doc_writes); reveal(doc_text); }"},
}
DE_CON = {
    "MxMessage::deserialize_document": {"ens": ["vx_r is Ok ==> kt(message_type@) >= 0 && doc_row(vx_r->Ok_0) == kt(message_type@) && doc_from(vx_r->Ok_0, doc_xml@) && row_reads(kt(message_type@), doc_xml@)",
                                                "kt(message_type@) >= 0 && message_type@ == S(kt(message_type@)) && row_reads(kt(message_type@), doc_xml@) ==> vx_r is Ok"],
                                        "pro": " proof { kt_all(); kt_range(message_type@); reveal(row_reads); reveal(doc_from); }"},
}
DOCO, ELO = "fldn(vx_r->Ok_0, \"Document\"@)", "fldn(fldn(vx_r->Ok_0, \"Document\"@), E(kt(message_type@)))"
N_ = "kt(message_type@)"
_X2J_PRO = " proof { kt_all(); kt_range(message_type@); reveal(json_of); reveal(takes_all); reveal(row_json); reveal(row_jsons); reveal(row_reads); reveal(doc_inner); }"
X2J_CON = {
    "xml_to_json_via_document": {"ens": [
        "vx_r is Ok ==> kt(message_type@) >= 0", f"vx_r is Ok ==> obj1(vx_r->Ok_0, \"Document\"@, {DOCO})", f"vx_r is Ok ==> obj1({DOCO}, E(kt(message_type@)), {ELO})",
        f"vx_r is Ok ==> json_of(kt(message_type@), {ELO})",
        "kt(message_type@) >= 0 && message_type@ == S(kt(message_type@)) && takes_all(kt(message_type@)) ==> vx_r is Ok"],
        "pro": _X2J_PRO},
}
# exact: what a Document-only text of type n is read as
VIA_CON = {
    "xml_to_json_via_document": {"ens": X2J_CON["xml_to_json_via_document"]["ens"][:3] + [
        f"vx_r is Ok ==> {ELO} == row_json({N_}, doc_inner(xml@))",
        f"vx_r is Ok ==> via_ok({N_}, xml@)",
        f"{N_} >= 0 && message_type@ == S({N_}) && via_ok({N_}, xml@) ==> vx_r is Ok"],
        "pro": _X2J_PRO},
}
XENV_CON = {
    "from_mx_xml_envelope_str": {"ens": ["is_env(xml@) ==> (vx_r is Ok <==> env_reads(xml@))", f"!is_env(xml@) && vx_r is Ok ==> {N_} >= 0 && via_ok({N_}, xml@)",
                                         f"!is_env(xml@) && {N_} >= 0 && message_type@ == S({N_}) && via_ok({N_}, xml@) ==> vx_r is Ok"]},
}
XENV9_CON = {
    "from_mx_xml_envelope_str": {"ens": ["is_env(xml@) && vx_r is Ok ==> env_reads(xml@)", f"!is_env(xml@) && vx_r is Ok ==> {N_} >= 0"]},
}

SECT_CON = {
    "MxMessage::extract_section": {"ens": ["sect(xml@, tag@) is Some ==> vx_r is Some && vx_r->Some_0@ == sect(xml@, tag@)->Some_0", "sect(xml@, tag@) is None ==> vx_r is None"], "pro": " proof { reveal(sect); }"},
}
ROOT_CON = {
    "MxMessage::detect_document_type": {"ens": ["vx_r is Ok <==> root_row(doc_xml@) >= 0", "vx_r is Ok ==> vx_r->Ok_0@ == S(root_row(doc_xml@))"],
        "pro": " proof { reveal(root); let t = trim(doc_xml@); let u = rest(t, 1); same_name(u); parts(t); assert(seq!['<'].len() == 1); assert(off(t, 1) == 1 || !occ(t, seq!['<'], 0)) by { if occ(t, seq!['<'], 0) { assert(off(t, 0) == 0); } } }"},
}
TO_CON = {
    "MxMessage::to_xml": {"ens": ["vx_r is Ok <==> se_ok(&self.app_hdr) && doc_writes(self.document)", "vx_r is Ok ==> vx_r->Ok_0@ =~= frame(hdr_xml(*self), doc_text(self.document))"], "pro": " proof { hdr_lits(); }"},
}
FROM_CON = {
    "MxMessage::from_xml": {"ens": ["vx_r is Ok <==> is_env(xml@) && env_reads(xml@)", "vx_r is Ok ==> env_is(vx_r->Ok_0, xml@)"]},
    "MxMessage::from_xml_with_envelope": {"ens": ["vx_r is Ok <==> env_reads(xml@)", "vx_r is Ok ==> env_is(vx_r->Ok_0, xml@)"], "pro": " proof { kt_all(); S_all(); root_rng(); }"},
    "MxMessage::from_xml_document_only": {"ens": ["vx_r is Err"]},
}
