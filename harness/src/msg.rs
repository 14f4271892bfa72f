//! Concrete runs outside the Validate impls.
use mx_message::error::{MxError, ValidationError};
use mx_message::parse_result::{ErrorCollector, ParseResult, ParserConfig};
use mx_message::header::AppHdr;
use mx_message::mx_envelope::{self, MxMessage};
use mx_message::plugin::common;
use mx_message::{message_registry, xml as mx_xml};
use dataflow_rs::engine::{FunctionConfig, message::{Change, Message}};
use datalogic_rs::DataLogic;
use serde_json::{Value, json};
use std::sync::Arc;

fn verr(v: &Value) -> ValidationError {
    ValidationError { code: v[0].as_u64().unwrap() as u32, message: v[1].as_str().unwrap().into(), field: v[2].as_str().map(|s| s.to_string()), path: v[3].as_str().map(|s| s.to_string()) }
}
fn jerr(x: &ValidationError) -> Value { json!([x.code, x.message, x.field, x.path]) }
fn jcfg(c: &ParserConfig) -> Value { json!([c.fail_fast, c.validate_optional_fields, c.collect_all_errors]) }
fn jcoll(c: ErrorCollector) -> Value { json!([c.error_count(), c.has_errors(), c.has_critical_errors()]) }

pub fn one(c: &Value) -> Value {
    let s = |k: &str| c[k].as_str().unwrap_or("");
    match s("op") {
        "configs" => json!({"default": jcfg(&ParserConfig::default()), "fail_fast": jcfg(&ParserConfig::fail_fast()), "lenient": jcfg(&ParserConfig::lenient()),
                            "new": jcoll(ErrorCollector::new()), "coll_default": jcoll(ErrorCollector::default())}),
        "presult" => {
            let es: Vec<ValidationError> = c["errs"].as_array().unwrap().iter().map(verr).collect();
            let v = c["v"].as_i64().unwrap();
            let r: ParseResult<i64> = match s("kind") { "S" => ParseResult::Success(v), "P" => ParseResult::PartialSuccess(v, es), _ => ParseResult::Failure(es) };
            let own: Vec<*const ValidationError> = match &r { ParseResult::Success(_) => vec![], ParseResult::PartialSuccess(_, e) | ParseResult::Failure(e) => e.iter().map(|x| x as *const _).collect() };
            let got = r.errors();
            let same = got.len() == own.len() && got.iter().zip(&own).all(|(a, b)| std::ptr::eq(*a, *b));
            let mut o = json!({"success": r.is_success(), "failure": r.is_failure(), "value": r.value(), "errors": got.iter().map(|x| jerr(x)).collect::<Vec<_>>(), "same": same});
            o["result"] = match r.to_result() { Ok(v) => json!({"Ok": v}), Err(e) => json!({"Err": e.iter().map(jerr).collect::<Vec<_>>()}) };
            o
        }
        "verror" => {
            let mut e = ValidationError::new(c["code"].as_u64().unwrap() as u32, s("message").into());
            for k in s("order").chars() {
                if k == 'f' && c["field"].is_string() { e = e.with_field(s("field").into()); }
                if k == 'p' && c["path"].is_string() { e = e.with_path(s("path").into()); }
            }
            let f = jerr(&e);
            let m = match MxError::from(e) { MxError::Validation { code, message, field, path } => json!([code, message, field, path]), x => json!(x.to_string()) };
            json!({"fields": f, "mx": m})
        }
        "reg" => {
            let x = s("s");
            json!({"ns": message_registry::get_namespace(x), "norm": message_registry::normalize_message_type(x), "e2t": message_registry::element_to_message_type(x),
                   "t2e": message_registry::message_type_to_element(x), "t2u": message_registry::message_type_to_rust_type(x), "full": message_registry::get_full_form(x),
                   "ns2": mx_envelope::get_namespace_for_message_type(x), "norm2": mx_envelope::normalize_message_type(x)})
        }
        // what the parsers of the dependencies make of a text, for the registered structure n
        "de" => match crate::row_de(c["n"].as_i64().unwrap(), s("s")) { Some((ok, v)) => json!({"ok": ok, "v": v}), None => json!({"bad": "row"}) },
        "hdr" => match quick_xml::de::from_str::<AppHdr>(s("s")) { Ok(h) => json!({"ok": true, "v": serde_json::to_value(&h).unwrap()}), Err(_) => json!({"ok": false}) },
        "msg" => message(c),
        "rows" => {
            // every structure as every type: what reading a text gives, per path
            let x = s("x");
            let mut o = json!({});
            for t in strs(&c["types"]) {
                o[&t] = json!({"env": mx_xml::from_mx_xml_envelope_str(x, &t).is_ok(), "via": mx_xml::xml_to_json_via_document(x, &t).ok()});
            }
            json!({"types": o})
        }
        "xml" => {
            let x = s("x");
            let m = MxMessage::from_xml(x);
            let generic = mx_xml::from_mx_xml_to_json(x).is_ok();
            json!({"msg": m.as_ref().ok().map(|m| serde_json::to_value(m).unwrap()), "peek": mx_envelope::peek_message_type_from_xml(x).ok(),
                   "emt": common::extract_message_type_from_xml(x).ok(), "generic": generic, "wf": validity(x)})
        }
        "json" => {
            let t = c["v"].to_string();
            json!({"emt": common::extract_message_type(&c["v"]).ok(), "peek": mx_envelope::peek_message_type_from_json(&t).ok(), "read": MxMessage::from_json(&t).is_ok()})
        }
        "jtext" => json!({"peek": mx_envelope::peek_message_type_from_json(s("t")).ok(), "read": MxMessage::from_json(s("t")).is_ok()}),
        "map" => json!({"map": common::map_document_element_to_message_type(s("s")).ok()}),
        "content" => json!({"r": common::extract_mx_content(&c["data"], s("field"), &c["payload"]).ok()}),
        "flow" => flow(c),
        "names" => json!({"names": mx_message::register_mx_functions().iter().map(|x| x.0).collect::<Vec<_>>()}),
        _ => json!({"bad": "op"}),
    }
}
fn strs(v: &Value) -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() }

/// what the workflow steps say about a text
fn validity(x: &str) -> Value {
    let f = |h| {
        let mut m = Message::new(Arc::new(json!(x)));
        let r = exec(h, &mut m, &FunctionConfig::Custom { name: h.into(), input: json!({"source": "payload", "target": "out"}) });
        match r { Ok(_) => json!({"ok": m.context["data"]["out"]}), Err(e) => json!({"err": e}) }
    };
    json!({"validate": f("validate_mx"), "parse": f("parse_mx")})
}

/// one message value through every conversion
fn message(c: &Value) -> Value {
    let m = match MxMessage::from_json(&c["v"].to_string()) { Ok(m) => m, Err(e) => return json!({"unread": e.to_string()}) };
    let (row, ser) = crate::doc_parts(&m.document);
    let xml = m.to_xml();
    let mut o = json!({"type": m.message_type().ok(), "ns": m.namespace().ok(), "docns": m.document.namespace(), "row": row, "ser": ser.ok(),
                       "hdr": quick_xml::se::to_string(&m.app_hdr).ok(), "xml": xml.as_ref().ok(), "json": m.to_json().ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()),
                       "val": serde_json::to_value(&m).ok(), "xmlns": [m.xmlns, m.xmlns_xsi]});
    if let Ok(x) = &xml {
        match MxMessage::from_xml(x) {
            Ok(b) => { o["same"] = json!(b.app_hdr == m.app_hdr && b.document == m.document); o["back"] = json!(crate::doc_parts(&b.document).0); o["backns"] = json!([b.xmlns, b.xmlns_xsi]); }
            Err(e) => { o["backerr"] = json!(e.to_string()); }
        }
        o["peek"] = json!(mx_envelope::peek_message_type_from_xml(x).ok());
    }
    o
}

fn exec(h: &str, m: &mut Message, cfg: &FunctionConfig) -> Result<(usize, Vec<Change>), String> {
    let (_, f) = mx_message::register_mx_functions().into_iter().find(|x| x.0 == h).expect("handler");
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    rt.block_on(f.execute(m, cfg, Arc::new(DataLogic::default()))).map_err(|e| e.to_string())
}

/// one handler call: the message before and after, and what it reports
fn flow(c: &Value) -> Value {
    let mut m = Message::new(Arc::new(c["payload"].clone()));
    m.context = c["context"].clone();
    let cached = m.get_context_arc();
    let (id, a, e) = (m.id.clone(), m.audit_trail.len(), m.errors.len());
    let cfg = if c["custom"].as_bool().unwrap_or(true) { FunctionConfig::Custom { name: c["h"].as_str().unwrap().into(), input: c["input"].clone() } } else { serde_json::from_value(json!({"name": "validation", "input": {"rules": []}})).unwrap() };
    let r = exec(c["h"].as_str().unwrap(), &mut m, &cfg);
    let mut o = json!({"context": m.context.clone(), "payload": *m.payload, "side": m.id == id && m.audit_trail.len() == a && m.errors.len() == e});
    let fresh = m.get_context_arc();
    o["fresh"] = json!(*fresh == m.context);
    o["renewed"] = json!(!Arc::ptr_eq(&cached, &fresh));
    match r {
        Ok((n, ch)) => { o["status"] = json!(n); o["changes"] = json!(ch.iter().map(|c| json!([&*c.path, &*c.old_value, &*c.new_value])).collect::<Vec<_>>()); }
        Err(e) => { o["err"] = json!(e); }
    }
    o
}
