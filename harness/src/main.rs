//! Runs the real code of /repo on concrete inputs. Reads JSON cases on stdin, prints one JSON answer per case.
//! It decides nothing: the expectations live with the contracts in /verif.
#![allow(unused_imports)]
use mx_message::error::ValidationError;
use mx_message::parse_result::{ErrorCollector, ParseResult, ParserConfig};
use mx_message::validation::{Validate, helpers};
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};

include!("gen.rs");
mod msg;

fn cfg(v: &Value) -> ParserConfig {
    let mut c = ParserConfig::default();
    c.fail_fast = v[0].as_bool().unwrap();
    c.validate_optional_fields = v[1].as_bool().unwrap();
    c.collect_all_errors = v[2].as_bool().unwrap();
    c
}
fn pre(v: &Value) -> ErrorCollector {
    let mut e = ErrorCollector::new();
    for (i, k) in v.as_array().map(|a| a.as_slice()).unwrap_or(&[]).iter().enumerate() {
        let x = ValidationError::new(7000 + i as u32, format!("before {i}")).with_field(format!("F{i}")).with_path(format!("P{i}"));
        if k.as_bool().unwrap() { e.add_critical_error(x) } else { e.add_error(x) }
    }
    e
}
fn report(e: ErrorCollector) -> Value {
    let (crit, has, n) = (e.has_critical_errors(), e.has_errors(), e.error_count());
    let errs: Vec<Value> = e.errors().into_iter().map(|x| json!([x.code, x.field, x.path, x.message])).collect();
    json!({"crit": crit, "has": has, "count": n, "errs": errs})
}
/// the report of one call; with "again", also that of a second call on the same collector
fn twice(c: &Value, f: &mut dyn FnMut(&mut ErrorCollector) -> bool) -> Value {
    let mut e = pre(&c["pre"]);
    let ret = f(&mut e);
    let mut o = report(e);
    o["ret"] = json!(ret);
    if c["again"].as_bool().unwrap_or(false) {
        let mut e = pre(&c["pre"]);
        f(&mut e);
        f(&mut e);
        o["second"] = report(e);
    }
    o
}
fn one(c: &Value) -> Value {
    let s = |k: &str| c[k].as_str().unwrap_or("");
    let n = |k: &str| c[k].as_u64().map(|x| x as usize);
    match c["op"].as_str().unwrap() {
        "type" => {
            let mut bad = None;
            let mut o = twice(c, &mut |e| { if let Err(m) = run_type(s("t"), c["v"].clone(), s("p"), &cfg(&c["cfg"]), e) { bad = Some(m) }; true });
            if let Some(m) = bad { json!({"bad": m}) } else { o.as_object_mut().unwrap().remove("ret"); o }
        }
        "length" => twice(c, &mut |e| helpers::validate_length(s("value"), s("name"), n("min"), n("max"), s("p"), &cfg(&c["cfg"]), e)),
        "pattern" => twice(c, &mut |e| helpers::validate_pattern(s("value"), s("name"), s("re"), s("p"), &cfg(&c["cfg"]), e)),
        "required" => twice(c, &mut |e| { let v: Option<u8> = if c["value"].is_null() { None } else { Some(1) }; helpers::validate_required(&v, s("name"), s("p"), &cfg(&c["cfg"]), e) }),
        "child" => json!({"ret": helpers::child_path(s("p"), s("name"))}),
        "collector" => {
            // a history of operations on a fresh collector
            let mut e = if c["default"].as_bool().unwrap_or(false) { ErrorCollector::default() } else { ErrorCollector::new() };
            let mut seen = vec![];
            for (i, k) in c["ops"].as_array().unwrap().iter().enumerate() {
                let i = k[1].as_u64().unwrap_or(i as u64);
                let x = ValidationError::new(i as u32, format!("m{i}")).with_field(format!("f{i}")).with_path(format!("p{i}"));
                if k[0].as_bool().unwrap() { e.add_critical_error(x) } else { e.add_error(x) }
                seen.push(json!([e.error_count(), e.has_errors(), e.has_critical_errors()]));
            }
            let mut o = report(e); o["seen"] = json!(seen); o
        }
        _ => msg::one(c),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut inp = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut inp).unwrap();
    let cases: Vec<Value> = inp.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let mut out = String::new();
    for c in &cases {
        let r = catch_unwind(AssertUnwindSafe(|| one(c))).unwrap_or_else(|p| {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!({"panic": m})
        });
        out.push_str(&r.to_string());
        out.push('\n');
        // one answer at a time: a case that ends the process is the first unanswered one
        use std::io::Write;
        let mut o = std::io::stdout().lock();
        o.write_all(out.as_bytes()).unwrap();
        o.flush().unwrap();
        out.clear();
    }
}
