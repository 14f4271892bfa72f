mod expand;
mod extract;
mod inline;
mod schema;
use serde_json::{Map, Value, json};
use std::collections::BTreeSet;

fn modules(root: &str) -> Vec<(String, std::path::PathBuf)> {
    let mut out = vec![];
    for d in ["document", "header"] {
        let mut fs: Vec<_> = std::fs::read_dir(format!("{root}/{d}")).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|e| e == "rs")).collect();
        fs.sort();
        for p in fs {
            let stem = p.file_stem().unwrap().to_string_lossy().to_string();
            if stem != "mod" { out.push((format!("{d}::{stem}"), p)); }
        }
    }
    out
}

fn set(v: &Value) -> BTreeSet<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() }

/// vx schema <src>                 all generated modules: types, serde attributes, facets
/// vx extract < requests.json      [{file, drop, keep_fns, log, fmt}] -> [{text, fns, notes, schema}]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "schema" => {
            let mut all = Map::new();
            for (n, p) in modules(&a[2]) {
                let f = syn::parse_file(&std::fs::read_to_string(&p).unwrap()).unwrap();
                all.insert(n, schema::module(&f));
            }
            println!("{}", serde_json::to_string(&Value::Object(all)).unwrap());
        }
        "extract" => {
            let req: Value = serde_json::from_reader(std::io::stdin()).unwrap();
            let mut out = vec![];
            for q in req.as_array().unwrap() {
                let o = extract::Opts { derived: q["derived"].as_bool().unwrap_or(false), drop: set(&q["drop"]), keep_fns: set(&q["keep_fns"]), log_macros: set(&q["log"]), fmt: q["fmt"].as_bool().unwrap_or(false), io: q["io"].as_bool().unwrap_or(false), inline: q["inline"].as_bool().unwrap_or(false), known: set(&q["known"]), donors: q["donors"].as_array().map(|a| a.iter().filter_map(|d| Some((std::fs::read_to_string(d["file"].as_str()?).ok()?, set(&d["known"])))).collect()).unwrap_or_default() };
                let res = match std::fs::read_to_string(q["file"].as_str().unwrap()) {
                    Ok(s) => match extract::run(&s, &o) { Ok(v) => v, Err(e) => json!({"error": e}) },
                    Err(e) => json!({"error": e.to_string()}),
                };
                out.push(res);
            }
            println!("{}", serde_json::to_string(&out).unwrap());
        }
        // [pattern] -> [does it compile as a whole-value pattern]
        "regex" => {
            let q: Vec<String> = serde_json::from_reader(std::io::stdin()).unwrap();
            let o: Vec<bool> = q.iter().map(|p| regex::Regex::new(&format!("^(?:{p})$")).is_ok()).collect();
            println!("{}", serde_json::to_string(&o).unwrap());
        }
        // [[pattern, [text]]] -> [[whole trimmed text matches]]
        "rematch" => {
            let q: Vec<(String, Vec<String>)> = serde_json::from_reader(std::io::stdin()).unwrap();
            let o: Vec<Vec<bool>> = q.iter().map(|(p, ts)| { let r = regex::Regex::new(&format!(r"\A(?:{p})\z")); ts.iter().map(|t| r.as_ref().is_ok_and(|r| r.is_match(t.trim()))).collect() }).collect();
            println!("{}", serde_json::to_string(&o).unwrap());
        }
        _ => panic!("usage"),
    }
}
