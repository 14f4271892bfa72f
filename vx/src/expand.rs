//! Textual expansion of the file's own `macro_rules!` macros (one-rule-per-arity, comma separated `$x:frag` parameters).
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Rule { params: Vec<(String, String)>, body: (usize, usize), refs: Vec<(usize, usize, String)>, binds: BTreeSet<String> }

fn rng(s: proc_macro2::Span) -> (usize, usize) { let r = s.byte_range(); (r.start, r.end) }

fn rules(ts: TokenStream) -> Option<Vec<Rule>> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let TokenTree::Group(p) = &t[i] else { return None };
        let (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b)), Some(TokenTree::Group(body))) = (t.get(i + 1), t.get(i + 2), t.get(i + 3)) else { return None };
        if a.as_char() != '=' || b.as_char() != '>' { return None; }
        i += 4;
        if let Some(TokenTree::Punct(c)) = t.get(i) && c.as_char() == ';' { i += 1; }
        let pt: Vec<TokenTree> = p.stream().into_iter().collect();
        let mut params = vec![];
        let mut k = 0;
        while k < pt.len() {
            let (Some(TokenTree::Punct(d)), Some(TokenTree::Ident(n)), Some(TokenTree::Punct(c)), Some(TokenTree::Ident(f))) = (pt.get(k), pt.get(k + 1), pt.get(k + 2), pt.get(k + 3)) else { return None };
            if d.as_char() != '$' || c.as_char() != ':' { return None; }
            params.push((n.to_string(), f.to_string()));
            k += 4;
            if let Some(TokenTree::Punct(c)) = pt.get(k) { if c.as_char() != ',' { return None; } k += 1; }
        }
        let (lo, _) = rng(body.span_open());
        let (_, hi) = rng(body.span_close());
        let mut refs = vec![];
        let names: BTreeSet<String> = params.iter().map(|p| p.0.clone()).collect();
        let mut binds = BTreeSet::new();
        scan(body.stream(), &names, &mut refs, &mut binds)?;
        out.push(Rule { params, body: (lo + 1, hi - 1), refs, binds });
    }
    Some(out)
}

fn scan(ts: TokenStream, names: &BTreeSet<String>, refs: &mut Vec<(usize, usize, String)>, binds: &mut BTreeSet<String>) -> Option<()> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                let Some(TokenTree::Ident(n)) = t.get(i + 1) else { return None }; // repetitions are not expanded
                let n = n.to_string();
                if !names.contains(&n) { return None; }
                refs.push((rng(p.span()).0, rng(t[i + 1].span()).1, n));
                i += 2;
                continue;
            }
            TokenTree::Ident(x) if x == "let" => {
                let mut k = i + 1;
                if let Some(TokenTree::Ident(m)) = t.get(k) && m == "mut" { k += 1; }
                if let Some(TokenTree::Ident(m)) = t.get(k) { binds.insert(m.to_string()); }
            }
            TokenTree::Group(g) => scan(g.stream(), names, refs, binds)?,
            _ => {}
        }
        i += 1;
    }
    Some(())
}

fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts { match t { TokenTree::Ident(i) => { out.insert(i.to_string()); } TokenTree::Group(g) => idents(g.stream(), out), _ => {} } }
}

struct Find<'a> { defs: BTreeSet<String>, calls: Vec<(syn::Macro, (usize, usize))>, depth: &'a str }
impl<'a, 'ast> Visit<'ast> for Find<'a> {
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) { self.put(&m.mac, rng(m.span())); visit::visit_expr_macro(self, m); }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) { self.put(&m.mac, rng(m.mac.span())); }
}
impl Find<'_> {
    fn put(&mut self, m: &syn::Macro, r: (usize, usize)) {
        let _ = self.depth;
        if let Some(i) = m.path.get_ident() && self.defs.contains(&i.to_string()) { self.calls.push((m.clone(), r)); }
    }
}

fn args(src: &str, ts: TokenStream) -> Vec<(String, BTreeSet<String>)> {
    let mut out: Vec<Vec<TokenTree>> = vec![vec![]];
    for t in ts {
        if let TokenTree::Punct(p) = &t && p.as_char() == ',' { out.push(vec![]); continue; }
        out.last_mut().unwrap().push(t);
    }
    if out.last().is_some_and(|v| v.is_empty()) { out.pop(); }
    out.into_iter().map(|v| {
        let text = if v.is_empty() { "".to_string() } else { src[rng(v[0].span()).0..rng(v[v.len() - 1].span()).1].to_string() };
        let mut ids = BTreeSet::new();
        idents(v.into_iter().collect(), &mut ids);
        (text, ids)
    }).collect()
}

/// expanded text, names of macros that stay unexpanded somewhere
pub fn expand(src: &str) -> (String, Vec<String>) {
    let mut cur = src.to_string();
    let mut left = BTreeSet::new();
    for _ in 0..6 {
        let Ok(f) = syn::parse_file(&cur) else { return (cur, vec![]) };
        let mut defs: BTreeMap<String, Vec<Rule>> = BTreeMap::new();
        for it in &f.items {
            if let syn::Item::Macro(m) = it && m.mac.path.is_ident("macro_rules") && let Some(n) = &m.ident {
                match rules(m.mac.tokens.clone()) { Some(r) => { defs.insert(n.to_string(), r); } None => { left.insert(n.to_string()); } }
            }
        }
        let mut fd = Find { defs: defs.keys().cloned().collect(), calls: vec![], depth: "" };
        fd.visit_file(&f);
        let mut edits: Vec<((usize, usize), String)> = vec![];
        for (m, r) in &fd.calls {
            let name = m.path.get_ident().unwrap().to_string();
            let a = args(&cur, m.tokens.clone());
            let Some(rule) = defs[&name].iter().find(|x| x.params.len() == a.len()) else { left.insert(name); continue };
            if a.iter().any(|(_, ids)| ids.iter().any(|i| rule.binds.contains(i))) && rule.params.iter().zip(&a).any(|((_, fr), (_, ids))| fr == "expr" && ids.iter().any(|i| rule.binds.contains(i)) ) { left.insert(name); continue; }
            let mut t = String::from("{ ");
            let mut at = rule.body.0;
            for (lo, hi, n) in &rule.refs {
                let k = rule.params.iter().position(|p| p.0 == *n).unwrap();
                t.push_str(&cur[at..*lo]);
                let simple = rule.params[k].1 != "expr" || a[k].0.chars().all(|c| c.is_alphanumeric() || "_:.".contains(c)) || a[k].0.starts_with('"');
                if simple { t.push_str(&a[k].0) } else { t.push_str(&format!("({})", a[k].0)) }
                at = *hi;
            }
            t.push_str(&cur[at..rule.body.1]);
            t.push_str(" }");
            // `{ { .. } }` is the same block
            if edits.iter().any(|(q, _)| q.0 < r.1 && r.0 < q.1) { continue; }
            edits.push((*r, t));
        }
        if edits.is_empty() { break; }
        edits.sort_by_key(|e| std::cmp::Reverse(e.0.0));
        for ((lo, hi), t) in edits { cur.replace_range(lo..hi, &t); }
    }
    let _ = Delimiter::None;
    (cur, left.into_iter().collect())
}
