// replaced at run time by the types under suspicion
fn run_type(_t: &str, _v: serde_json::Value, _p: &str, _c: &ParserConfig, _e: &mut ErrorCollector) -> Result<(), String> { Err("not generated".into()) }
fn doc_parts(_: &mx_message::mx_envelope::Document) -> (i64, Result<String, String>) { (-1, Err("not generated".into())) }
fn row_de(_: i64, _: &str) -> Option<(bool, Value)> { None }
