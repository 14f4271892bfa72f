//! Reads the serde attributes, field types and validator calls of one generated schema module.
use serde_json::{Value, json};
use syn::*;

pub fn lit_str(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
        Expr::Reference(r) => lit_str(&r.expr),
        Expr::Paren(p) => lit_str(&p.expr),
        _ => None,
    }
}

/// serde attributes of one item: list of (key, value-or-null)
pub fn serde_attrs(attrs: &[Attribute]) -> Vec<(String, Option<String>)> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("serde") {
            let r = a.parse_nested_meta(|m| {
                let k = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                if m.input.peek(Token![=]) {
                    let v: Expr = m.value()?.parse()?;
                    out.push((k, Some(lit_str(&v).unwrap_or_else(|| quote::quote!(#v).to_string()))));
                } else if m.input.peek(token::Paren) {
                    let c; parenthesized!(c in m.input);
                    let t: proc_macro2::TokenStream = c.parse()?;
                    out.push((k, Some(format!("({t})"))));
                } else { out.push((k, None)); }
                Ok(())
            });
            if r.is_err() { out.push(("?".into(), None)); }
        } else if a.path().is_ident("cfg_attr") || a.path().is_ident("cfg") {
            out.push(("cfg".into(), Some(quote::quote!(#a).to_string())));
        }
    }
    out
}

/// Type as wrapper list (outermost first) and base identifier
pub fn ty_shape(t: &Type) -> (Vec<String>, String) {
    if let Type::Path(p) = t {
        let seg = p.path.segments.last().unwrap();
        let id = seg.ident.to_string();
        if ["Option", "Vec", "Box"].contains(&id.as_str()) {
            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                if let Some(GenericArgument::Type(inner)) = a.args.first() {
                    let (mut w, b) = ty_shape(inner);
                    w.insert(0, id);
                    return (w, b);
                }
            }
        }
        return (vec![], quote::quote!(#p).to_string().replace(' ', ""));
    }
    (vec![], quote::quote!(#t).to_string())
}

fn child_path_lit(e: &Expr) -> Option<String> {
    // &helpers::child_path(path, "X")
    let e = if let Expr::Reference(r) = e { &*r.expr } else { e };
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().unwrap().ident == "child_path" { return lit_str(c.args.get(1)?); }
        }
    }
    None
}
fn opt_usize(e: &Expr) -> Option<Option<u64>> {
    match e {
        Expr::Path(p) if p.path.is_ident("None") => Some(None),
        Expr::Call(c) => match c.args.first()? {
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => Some(Some(i.base10_parse().ok()?)),
            _ => None,
        },
        _ => None,
    }
}
fn root_field(e: &Expr, binds: &Vec<(String, String)>) -> Option<String> {
    match e {
        Expr::Reference(r) => root_field(&r.expr, binds),
        Expr::Paren(r) => root_field(&r.expr, binds),
        Expr::Field(f) => {
            if let Expr::Path(p) = &*f.base { if p.path.is_ident("self") { if let Member::Named(i) = &f.member { return Some(i.to_string()); } } }
            None
        }
        Expr::Path(p) => { let id = p.path.get_ident()?.to_string(); binds.iter().rev().find(|(a, _)| *a == id).map(|(_, f)| f.clone()) }
        _ => None,
    }
}
fn pat_ident(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::TupleStruct(t) => pat_ident(t.elems.first()?),
        _ => None,
    }
}
fn conds(e: &Expr, lets: &mut Vec<(String, Expr)>, gated: &mut bool) -> bool {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => conds(&b.left, lets, gated) && conds(&b.right, lets, gated),
        Expr::Let(l) => { if let Some(i) = pat_ident(&l.pat) { lets.push((i, (*l.expr).clone())); true } else { false } }
        Expr::Field(f) => { if let Member::Named(i) = &f.member { if i == "validate_optional_fields" { *gated = true; return true; } } false }
        _ => false,
    }
}
/// Collects facets (field, json) ; false if something was not recognised.
fn walk(stmts: &[Stmt], binds: &mut Vec<(String, String)>, gate: bool, out: &mut Vec<(String, Value)>) -> bool {
    let mut ok = true;
    for s in stmts {
        let e = match s { Stmt::Expr(e, _) => e, _ => { ok = false; continue } };
        ok &= walk_e(e, binds, gate, out);
    }
    ok
}
fn walk_e(e: &Expr, binds: &mut Vec<(String, String)>, gate: bool, out: &mut Vec<(String, Value)>) -> bool {
    match e {
        Expr::If(i) => {
            let mut lets = vec![]; let mut g = gate;
            if !conds(&i.cond, &mut lets, &mut g) || i.else_branch.is_some() { return false; }
            let n = binds.len();
            for (b, ex) in lets { match root_field(&ex, binds) { Some(f) => binds.push((b, f)), None => return false } }
            let r = walk(&i.then_branch.stmts, binds, g, out);
            binds.truncate(n); r
        }
        Expr::ForLoop(l) => {
            let f = match root_field(&l.expr, binds) { Some(f) => f, None => return false };
            let n = binds.len();
            match pat_ident(&l.pat) { Some(b) => binds.push((b, f)), None => return false }
            let r = walk(&l.body.stmts, binds, gate, out);
            binds.truncate(n); r
        }
        Expr::MethodCall(m) if m.method == "validate" => {
            let f = match root_field(&m.receiver, binds) { Some(f) => f, None => return false };
            let Some(a0) = m.args.first() else { return false };
            match child_path_lit(a0) { Some(p) => { out.push((f, json!({"k":"rec","path":p,"gate":gate}))); true } None => false }
        }
        Expr::Call(c) => {
            let name = if let Expr::Path(p) = &*c.func { p.path.segments.last().unwrap().ident.to_string() } else { return false };
            let a: Vec<&Expr> = c.args.iter().collect();
            if a.len() < match name.as_str() { "validate_length" => 5, "validate_pattern" => 4, _ => 1 } { return false; }
            let f = match root_field(a[0], binds) { Some(f) => f, None => return false };
            match name.as_str() {
                "validate_length" => {
                    let (Some(n), Some(mi), Some(ma), Some(p)) = (lit_str(a[1]), opt_usize(a[2]), opt_usize(a[3]), child_path_lit(a[4])) else { return false };
                    out.push((f, json!({"k":"len","min":mi,"max":ma,"name":n,"path":p,"gate":gate}))); true
                }
                "validate_pattern" => {
                    let (Some(n), Some(pt), Some(p)) = (lit_str(a[1]), lit_str(a[2]), child_path_lit(a[3])) else { return false };
                    out.push((f, json!({"k":"pat","re":pt,"name":n,"path":p,"gate":gate}))); true
                }
                _ => false,
            }
        }
        _ => false,
    }
}

pub fn module(file: &File) -> Value {
    let mut types = serde_json::Map::new();
    let mut order = vec![];
    for it in &file.items {
        match it {
            Item::Struct(s) => {
                let mut fs = vec![];
                for f in &s.fields {
                    let (w, b) = ty_shape(&f.ty);
                    fs.push(json!({"n": f.ident.as_ref().map(|i| i.to_string()), "wrap": w, "base": b, "serde": serde_attrs(&f.attrs), "facets": []}));
                }
                order.push(s.ident.to_string());
                types.insert(s.ident.to_string(), json!({"kind":"struct","serde": serde_attrs(&s.attrs),"derives": derives(&s.attrs), "fields": fs, "impl": Value::Null}));
            }
            Item::Enum(s) => {
                let vs: Vec<Value> = s.variants.iter().map(|v| json!({"n": v.ident.to_string(), "serde": serde_attrs(&v.attrs), "unit": matches!(v.fields, Fields::Unit)})).collect();
                order.push(s.ident.to_string());
                types.insert(s.ident.to_string(), json!({"kind":"enum","serde": serde_attrs(&s.attrs),"derives": derives(&s.attrs),"variants": vs, "impl": Value::Null}));
            }
            _ => {}
        }
    }
    for it in &file.items {
        if let Item::Impl(im) = it {
            let Some((_, tr, _)) = &im.trait_ else { continue };
            if tr.segments.last().unwrap().ident != "Validate" { continue; }
            let (_, base) = ty_shape(&im.self_ty);
            for x in &im.items {
                if let ImplItem::Fn(f) = x {
                    let mut out = vec![]; let mut binds = vec![];
                    let ok = walk(&f.block.stmts, &mut binds, false, &mut out);
                    let Some(t) = types.get_mut(&base) else { continue };
                    t["impl"] = json!(if ok { "ok" } else { "unrecognised" });
                    for (fl, fa) in out {
                        let Some(fs) = t["fields"].as_array_mut() else { continue };
                        let Some(fd) = fs.iter_mut().find(|z| z["n"] == fl.as_str()) else { continue };
                        fd["facets"].as_array_mut().unwrap().push(fa);
                    }
                }
            }
        }
    }
    json!({"order": order, "types": types})
}
fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs { if a.path().is_ident("derive") {
        let _ = a.parse_nested_meta(|m| { v.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
    } }
    v
}
