//! Mechanical extraction of one source file into the dialect Verus accepts.
//!
//! Everything is done by byte-span edits on the original text, so what Verus sees is the source
//! text itself except for the edits listed in DESIGN.md ("What the extraction changes").
use crate::schema;
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{Value, json};
use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

pub struct Opts {
    /// write `#[derive(Default)]` out
    pub derived: bool,
    /// items (by name or `impl` trait name) to drop entirely
    pub drop: BTreeSet<String>,
    /// only keep these fns (paths); empty = keep all
    pub keep_fns: BTreeSet<String>,
    /// macro names that are dropped as statements (logging)
    pub log_macros: BTreeSet<String>,
    /// rewrite `match <str> { "lit" => .. }` into ==-chains
    pub fmt: bool,
    /// the full dialect: macro expansion, combinator inlining, slice constants, find/any loops
    pub io: bool,
    /// inline the functions that are not in `known` (here and in the donor files) first
    pub inline: bool,
    pub known: BTreeSet<String>,
    pub donors: Vec<(String, BTreeSet<String>)>,
}

#[derive(Clone)]
struct Edit { lo: usize, hi: usize, s: String }

struct Ex<'a> {
    src: &'a str,
    edits: Vec<Edit>,
    fns: Vec<Value>,
    cur: Option<usize>,
    loops: Vec<Value>,
    notes: Vec<Value>,
    mods: Vec<String>,
    path: Vec<String>,
    in_trait: Option<String>,
    self_ty: Option<String>,
    opts: &'a Opts,
    next: usize,
    mut_self: bool,
}

fn r(s: Span) -> (usize, usize) { let b = s.byte_range(); (b.start, b.end) }

impl<'a> Ex<'a> {
    fn put(&mut self, lo: usize, hi: usize, s: impl Into<String>) { self.edits.push(Edit { lo, hi, s: s.into() }); }
    fn del(&mut self, sp: Span) { let (a, b) = r(sp); self.put(a, b, ""); }
    fn text(&self, sp: Span) -> &'a str { let (a, b) = r(sp); &self.src[a..b] }
    /// text of a range with the edits that fall inside it applied; those edits are consumed
    fn take(&mut self, lo: usize, hi: usize) -> String {
        let (mine, rest): (Vec<Edit>, Vec<Edit>) = self.edits.drain(..).partition(|e| e.lo >= lo && e.hi <= hi);
        self.edits = rest;
        apply(self.src, lo, hi, mine)
    }
    fn note(&mut self, kind: &str, sp: Span) {
        let l = sp.start().line;
        self.notes.push(json!({"kind": kind, "line": l, "fn": self.cur}));
    }
    fn attrs(&mut self, attrs: &[Attribute]) {
        for a in attrs { if !a.path().is_ident("default") { self.del(a.span()); } else { self.del(a.span()); } }
    }
    fn do_fn(&mut self, sig: &Signature, block: Option<&Block>, end: usize, whole: Span) {
        let id = self.next; self.next += 1;
        let mut p = self.path.clone(); p.push(sig.ident.to_string());
        let name = p.join("::");
        if !self.opts.keep_fns.is_empty() && !self.opts.keep_fns.contains(&name) { self.del(whole); return; }
        let mut params = vec![];
        let mut mut_self = false;
        for i in &sig.inputs {
            match i {
                FnArg::Receiver(x) => { if x.reference.is_none() && let Some(m) = x.mutability { self.del(m.span()); mut_self = true; } params.push(json!(["self", self.text(x.span())])); }
                FnArg::Typed(t) => {
                    params.push(json!([self.text(t.pat.span()), self.text(t.ty.span())]));
                }
            }
        }
        let ret = match &sig.output {
            ReturnType::Default => Value::Null,
            ReturnType::Type(_, t) => {
                let (a, b) = r(t.span());
                self.put(a, a, "(vx_r: "); self.put(b, b, ")");
                json!(self.text(t.span()))
            }
        };
        if sig.asyncness.is_some() { let sp = sig.asyncness.unwrap().span(); self.del(sp); }
        let save = self.cur.replace(id);
        let saved_loops = std::mem::take(&mut self.loops);
        let line = sig.ident.span().start().line;
        let mut eline = whole.end().line;
        let mut stmts = vec![];
        if let Some(b) = block {
            let (a, e) = r(b.span());
            self.put(a, a, format!("/*@S{id}@*/ "));
            self.put(a + 1, a + 1, format!("/*@P{id}@*/"));
            if mut_self { self.put(a + 1, a + 1, " let mut vx_self = self; "); }
            self.put(e - 1, e - 1, format!("/*@E{id}@*/"));
            let sv = std::mem::replace(&mut self.mut_self, mut_self);
            eline = b.span().end().line;
            self.visit_block(b);
            self.mut_self = sv;
            if matches!(sig.output, ReturnType::Default) {
                for (n, st) in b.stmts.iter().enumerate() {
                    let (lo, hi) = r(st.span());
                    let semi = match st { Stmt::Expr(e, None) => !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_)), _ => false };
                    self.put(hi, hi, format!("{}/*@D{id}.{n}@*/", if semi { ";" } else { "" }));
                    stmts.push(self.src[lo..hi].to_string());
                }
            }
        } else {
            self.put(end - 1, end - 1, format!("/*@S{id}@*/"));
        }
        let (a, _) = r(whole);
        self.put(a, a, format!("/*@A{id}@*/"));
        let loops = std::mem::replace(&mut self.loops, saved_loops);
        self.cur = save;
        self.fns.push(json!({"id": id, "path": name, "params": params, "ret": ret, "trait": self.in_trait, "self": self.self_ty, "loops": loops, "line": line, "end_line": eline, "body": block.is_some(), "stmts": stmts,
            "empty": block.map(|b| b.stmts.is_empty()).unwrap_or(false), "src": self.text(whole)}));
    }
    /// a reference in the type of a constant is 'static
    fn statics(&mut self, t: &Type) {
        struct S(Vec<usize>);
        impl<'a> Visit<'a> for S { fn visit_type_reference(&mut self, t: &'a TypeReference) { if t.lifetime.is_none() { self.0.push(r(t.and_token.span()).1); } visit::visit_type_reference(self, t); } }
        let mut s = S(vec![]); s.visit_type(t);
        for a in s.0 { self.put(a, a, "'static "); }
    }
    fn drop_item(&self, n: &str) -> bool { self.opts.drop.contains(n) }
}

fn apply(src: &str, lo: usize, hi: usize, mut ed: Vec<Edit>) -> String {
    // stable sort: insertions keep the order in which they were made
    ed.sort_by_key(|e| (e.lo, e.hi));
    let mut out = String::new();
    let mut at = lo;
    for e in ed {
        if e.lo < at { continue; } // inside something already replaced
        out.push_str(&src[at..e.lo]);
        out.push_str(&e.s);
        at = e.hi;
    }
    out.push_str(&src[at..hi]);
    out
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && quote::quote!(#a).to_string().replace(' ', "").contains("cfg(test)"))
}

/// operands of a top-level && chain
fn chain<'e>(e: &'e Expr, out: &mut Vec<&'e Expr>, ands: &mut Vec<Span>) {
    if let Expr::Binary(b) = e {
        if let BinOp::And(t) = b.op { chain(&b.left, out, ands); ands.push(t.span()); chain(&b.right, out, ands); return; }
    }
    out.push(e);
}

impl<'a, 'ast> Visit<'ast> for Ex<'a> {
    fn visit_item(&mut self, it: &'ast Item) {
        match it {
            Item::Use(u) => {
                let t = self.text(u.span());
                if (if self.opts.io { t.contains("use serde::") } else { t.contains("serde") }) || self.opts.drop.iter().any(|d| d.starts_with("use ") && t.contains(&d[4..])) { self.del(u.span()); }
                else { self.attrs(&u.attrs); }
            }
            Item::Struct(s) => {
                if self.drop_item(&s.ident.to_string()) { self.del(s.span()); return; }
                self.attrs(&s.attrs);
                for f in &s.fields { self.attrs(&f.attrs); }
            }
            Item::Enum(s) => {
                if self.drop_item(&s.ident.to_string()) { self.del(s.span()); return; }
                self.attrs(&s.attrs);
                for v in &s.variants { self.attrs(&v.attrs); for f in &v.fields { self.attrs(&f.attrs); } }
            }
            Item::Const(c) => {
                if self.drop_item(&c.ident.to_string()) { self.del(c.span()); return; }
                self.attrs(&c.attrs);
                if self.opts.io && let Type::Reference(rf) = &*c.ty && let Type::Slice(_) = &*rf.elem {
                    // a slice constant is a constant function of its own with a contract
                    let (a, _) = r(c.const_token.span());
                    self.put(a, a, format!("/*@A{}@*/ exec ", c.ident));
                    if rf.lifetime.is_none() { let (_, e) = r(rf.and_token.span()); self.put(e, e, "'static "); }
                    let (a, b) = r(c.eq_token.span());
                    self.put(a, b, format!("/*@K{}@*/ {{", c.ident));
                    let (a, b) = r(c.semi_token.span());
                    self.put(a, b, "}");
                } else { self.statics(&c.ty); }
            }
            Item::Static(c) => { self.attrs(&c.attrs); }
            Item::Type(c) => {
                if self.drop_item(&c.ident.to_string()) { self.del(c.span()); return; }
                self.attrs(&c.attrs);
            }
            Item::Macro(m) => {
                let n = m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                if self.drop_item(&n) || (self.opts.io && m.mac.path.is_ident("macro_rules")) { self.del(m.span()); return; }
                self.attrs(&m.attrs);
            }
            Item::Mod(m) => {
                if is_test(&m.attrs) || self.drop_item(&m.ident.to_string()) || m.content.is_none() { self.del(m.span()); return; }
                self.attrs(&m.attrs);
                if let Some((b, _)) = &m.content { let (a, _) = r(b.span.open()); self.put(a + 1, a + 1, format!("/*@M{}@*/", m.ident)); }
                self.path.push(m.ident.to_string());
                self.mods.push(self.path.join("::"));
                for i in &m.content.as_ref().unwrap().1 { self.visit_item(i); }
                self.path.pop();
            }
            Item::Fn(f) => {
                if is_test(&f.attrs) || self.drop_item(&f.sig.ident.to_string()) { self.del(f.span()); return; }
                self.attrs(&f.attrs);
                self.do_fn(&f.sig, Some(&f.block), 0, f.span());
            }
            Item::Trait(t) => {
                self.attrs(&t.attrs);
                let (a, _) = r(t.brace_token.span.open());
                self.put(a + 1, a + 1, format!("/*@T{}@*/", t.ident));
                self.path.push(t.ident.to_string());
                for i in &t.items {
                    if let TraitItem::Fn(f) = i { self.attrs(&f.attrs); let e = r(f.span()).1; self.do_fn(&f.sig, f.default.as_ref(), e, f.span()); }
                }
                self.path.pop();
            }
            Item::Impl(im) => {
                let ty = self.text(im.self_ty.span()).to_string();
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let key = match &tr { Some(t) => format!("<{} as {}>", ty, t), None => ty.clone() };
                if self.drop_item(&format!("impl {}", key)) || (tr.is_some() && self.drop_item(&format!("impl {}", tr.clone().unwrap()))) { self.del(im.span()); return; }
                self.attrs(&im.attrs);
                let (a, _) = r(im.brace_token.span.open());
                self.put(a + 1, a + 1, format!("/*@M{key}@*/"));
                self.path.push(key);
                let st = std::mem::replace(&mut self.in_trait, tr);
                let ss = self.self_ty.replace(ty);
                for i in &im.items {
                    match i {
                        ImplItem::Fn(f) => { self.attrs(&f.attrs); self.do_fn(&f.sig, Some(&f.block), 0, f.span()); }
                        ImplItem::Const(c) => { self.attrs(&c.attrs); self.statics(&c.ty); }
                        _ => {}
                    }
                }
                self.in_trait = st; self.self_ty = ss;
                self.path.pop();
            }
            _ => {}
        }
    }
    fn visit_attribute(&mut self, a: &'ast Attribute) { if !a.path().is_ident("doc") { self.del(a.span()); } }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) { if self.mut_self && p.path.is_ident("self") { let (a, b) = r(p.span()); self.put(a, b, "vx_self"); } }
    fn visit_expr_if(&mut self, i: &'ast ExprIf) {
        let (mut ops, mut ands) = (vec![], vec![]);
        chain(&i.cond, &mut ops, &mut ands);
        let has_let = ops.iter().any(|e| matches!(e, Expr::Let(_)));
        visit::visit_expr_if(self, i);
        if !has_let || ands.is_empty() { return; }
        // split into maximal groups: consecutive non-let operands stay joined by &&
        let mut cut = vec![];
        for k in 0..ands.len() {
            if matches!(ops[k], Expr::Let(_)) || matches!(ops[k + 1], Expr::Let(_)) { cut.push(ands[k]); }
        }
        match &i.else_branch {
            None => {
                let n = cut.len();
                for c in cut { let (a, b) = r(c); self.put(a, b, "{ if "); }
                let e = r(i.then_branch.span()).1;
                self.put(e, e, " }".repeat(n));
            }
            Some((_, els)) => {
                // if A && B {X} else {Y}  ~>  if A { if B {X} else {Y} } else {Y}
                let (a, b) = r(i.span());
                let (ta, tb) = r(i.then_branch.span());
                let (ea, eb) = r(els.span());
                let y = self.take(ea, eb);
                let x = self.take(ta, tb);
                let (ca, cb) = r(i.cond.span());
                let mut cond_parts = vec![];
                let mut at = ca;
                for c in &cut { let (p, q) = r(*c); let t = self.take(at, p); cond_parts.push(t); at = q; }
                let t = self.take(at, cb); cond_parts.push(t);
                let ywrap = if y.trim_start().starts_with("if") { format!("{{ {y} }}") } else { y };
                let mut s = x;
                for c in cond_parts.iter().rev() { s = format!("{{ if {c} {s} else {ywrap} }}"); }
                let _ = self.take(a, b);
                self.put(a, b, s[1..s.len() - 1].trim().to_string());
            }
        }
    }
    fn visit_expr_for_loop(&mut self, l: &'ast ExprForLoop) {
        visit::visit_expr_for_loop(self, l);
        let n = self.next; self.next += 1;
        let (a, _) = r(l.expr.span());
        self.put(a, a, format!("vx_it{n}: "));
        let (lo, _) = r(l.span());
        self.put(lo, lo, format!("/*@G{n}@*/"));
        let (b, _) = r(l.body.span());
        self.put(b, b, format!("/*@L{n}@*/ "));
        self.put(b + 1, b + 1, format!("/*@B{n}@*/ "));
        let vecx = vec_expr(self, &l.expr);
        let pat = match &*l.pat { Pat::Ident(i) => Some(i.ident.to_string()), _ => None };
        let contrib = pat.as_ref().and_then(|p| contributions(self, &l.body.stmts, p, false, &mut vec![]));
        self.loops.push(json!({"id": n, "iter": self.text(l.expr.span()), "vec": vecx, "pat": pat, "contrib": contrib, "line": l.span().start().line}));
    }
    fn visit_expr_while(&mut self, l: &'ast ExprWhile) { visit::visit_expr_while(self, l); self.loops.push(json!({"id": Value::Null, "kind": "while", "line": l.span().start().line})); self.note("while-loop", l.span()); }
    fn visit_expr_loop(&mut self, l: &'ast ExprLoop) { visit::visit_expr_loop(self, l); self.loops.push(json!({"id": Value::Null, "kind": "loop", "line": l.span().start().line})); self.note("loop", l.span()); }
    fn visit_expr_await(&mut self, a: &'ast ExprAwait) { visit::visit_expr_await(self, a); let lo = r(a.dot_token.span()).0; let hi = r(a.await_token.span()).1; self.put(lo, hi, ""); }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        if self.opts.io && !strings(self, m) { combinator(self, m); }
    }
    fn visit_expr_reference(&mut self, e: &'ast ExprReference) {
        visit::visit_expr_reference(self, e);
        // &x[a..b] ~> x.vx_sl(a, b)
        if self.opts.io && e.mutability.is_none() && let Expr::Index(ix) = &*e.expr && let Expr::Range(g) = &*ix.index && matches!(g.limits, RangeLimits::HalfOpen(_)) && (g.start.is_some() || g.end.is_some()) {
            let (a, b) = r(e.and_token.span()); self.put(a, b, "");
        }
    }
    fn visit_expr_index(&mut self, ix: &'ast ExprIndex) {
        visit::visit_expr_index(self, ix);
        if !self.opts.io { return; }
        if let Expr::Range(g) = &*ix.index && matches!(g.limits, RangeLimits::HalfOpen(_)) {
            let mut t = |e: &Option<Box<Expr>>, ex: &mut Self| e.as_ref().map(|e| { let (a, b) = r(e.span()); ex.take(a, b) });
            let (a, b) = (t(&g.start, self), t(&g.end, self));
            let (x, y) = r(ix.expr.span()); let base = self.take(x, y);
            let (lo, hi) = r(ix.span());
            let s = match (a, b) { (Some(a), Some(b)) => format!("{base}.vx_sl({a}, {b})"), (Some(a), None) => format!("{base}.vx_from({a})"), (None, Some(b)) => format!("{base}.vx_to({b})"), _ => return };
            let _ = self.take(lo, hi);
            self.put(lo, hi, s);
        }
    }
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
        visit::visit_expr_assign(self, a);
        if !self.opts.io { return; }
        if let Expr::Index(ix) = &*a.left && !matches!(&*ix.index, Expr::Range(_)) {
            // a[i] = v  ~>  index_set(a, i, v), v evaluated first
            let (x, y) = r(ix.expr.span()); let base = self.take(x, y);
            let (x, y) = r(ix.index.span()); let idx = self.take(x, y);
            let (x, y) = r(a.right.span()); let rhs = self.take(x, y);
            let base = if matches!(&*ix.expr, Expr::MethodCall(_)) { base } else { format!("&mut {base}") };
            let (lo, hi) = r(a.span());
            let _ = self.take(lo, hi);
            self.put(lo, hi, format!("{{ let vx_rhs = {rhs}; crate::serde_json::index_set({base}, {idx}, vx_rhs) }}"));
        }
    }
    fn visit_stmt_macro(&mut self, m: &'ast StmtMacro) {
        let n = m.mac.path.segments.last().unwrap().ident.to_string();
        if self.opts.log_macros.contains(&n) { self.del(m.span()); return; }
        self.mac(&m.mac, m.mac.span());
    }
    fn visit_expr_macro(&mut self, m: &'ast ExprMacro) { let sp = m.span(); self.mac(&m.mac, sp); }
    fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
        visit::visit_expr_match(self, m);
        let strs = |p: &Pat| -> Option<Vec<String>> {
            match p {
                Pat::Lit(PatLit { lit: Lit::Str(s), .. }) => Some(vec![quote::quote!(#s).to_string()]),
                Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { if let Pat::Lit(PatLit { lit: Lit::Str(s), .. }) = c { v.push(quote::quote!(#s).to_string()) } else { return None } } Some(v) }
                _ => None,
            }
        };
        if !m.arms.iter().any(|a| strs(&a.pat).is_some()) { return; }
        let (lo, hi) = r(m.span());
        let (sa, sb) = r(m.expr.span());
        let scrut = self.take(sa, sb);
        let mut s = format!("{{ let vx_m: &str = {scrut}; ");
        for a in &m.arms {
            let (ba, bb) = r(a.body.span());
            let body = self.take(ba, bb);
            let guard = a.guard.as_ref().map(|(_, g)| { let (ga, gb) = r(g.span()); (ga, gb) }).map(|(ga, gb)| self.take(ga, gb));
            let (pre, cond) = match &a.pat {
                Pat::Wild(_) => (String::new(), guard.clone().unwrap_or("true".into())),
                Pat::Ident(i) if i.subpat.is_none() => (format!("let {} = vx_m; ", i.ident), guard.clone().unwrap_or("true".into())),
                p => match strs(p) {
                    Some(v) => { let c = v.iter().map(|x| format!("vx_m == {x}")).collect::<Vec<_>>().join(" || "); (String::new(), match &guard { Some(g) => format!("({c}) && ({g})"), None => c }) }
                    None => { self.note("str-match-pattern", m.span()); return; }
                },
            };
            if cond == "true" { s.push_str(&format!("{{ {pre}{body} }}")); break; }
            s.push_str(&format!("if {cond} {{ {pre}{body} }} else "));
        }
        s.push_str(" }");
        let _ = self.take(lo, hi);
        self.put(lo, hi, s);
    }
}

impl<'a> Ex<'a> {
    fn mac(&mut self, m: &Macro, sp: Span) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let (lo, hi) = r(sp);
        if n == "json" {
            let t = json_expr(self, m.tokens.clone());
            match t { Some(t) => self.put(lo, hi, t), None => self.note("json!", sp) }
            return;
        }
        if n == "vec" && self.opts.io {
            if let Ok(es) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { for e in &es { self.visit_expr(e); } }
            return;
        }
        if n != "format" || !self.opts.fmt { return; }
        let args = match m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { Ok(a) => a, Err(_) => { self.note("format!", sp); return } };
        let mut it = args.iter();
        let Some(f) = it.next().and_then(schema::lit_str) else { self.note("format!", sp); return };
        let mut rest = vec![];
        for a in it {
            self.visit_expr(a);
            let (x, y) = r(a.span());
            let t = self.take(x, y);
            if let Expr::Assign(_) = a { self.note("format!", sp); return; }
            rest.push(t);
        }
        let Some(parts) = parse_fmt(&f) else { self.note("format!", sp); return };
        let mut s = "crate::rt::start()".to_string();
        let mut k = 0;
        for p in parts {
            match p {
                Part::Lit(l) => s = format!("crate::rt::lit({s}, {l:?})"),
                Part::Arg(a, dbg) => {
                    let e = if a.is_empty() { k += 1; match rest.get(k - 1) { Some(x) => x.clone(), None => { self.note("format!", sp); return } } } else { a };
                    s = format!("crate::rt::{}({s}, &{e})", if dbg { "dbg" } else { "arg" });
                }
            }
        }
        let _ = self.take(lo, hi);
        self.put(lo, hi, s);
    }
}

/// does this expression have type Result (as opposed to Option)? by the name of the last call
fn is_result(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "ok_or" | "ok_or_else" | "map_err" => true,
            "map" | "and_then" | "or_else" => is_result(&m.receiver),
            "from_xml" | "to_xml" | "to_json" | "from_json" | "generate" => true,
            _ => false,
        },
        Expr::Call(c) => match &*c.func { Expr::Path(p) => ["from_str", "to_value", "from_value", "to_string", "to_string_pretty", "from_xml", "from_json", "extract_message_type_from_xml", "xml_to_json_via_document"].contains(&p.path.segments.last().unwrap().ident.to_string().as_str()) || (p.path.segments.len() > 1 && p.path.segments.last().unwrap().ident == "new"), _ => false },
        Expr::Paren(p) => is_result(&p.expr),
        _ => false,
    }
}
struct Esc(bool);
impl<'ast> Visit<'ast> for Esc {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.0 = true; }
    fn visit_expr_await(&mut self, _: &'ast ExprAwait) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
/// Option/Result combinators over closures become the matches they stand for; find/any over a slice become loops
fn combinator(ex: &mut Ex, m: &ExprMethodCall) {
    let name = m.method.to_string();
    let (lo, hi) = r(m.span());
    let closure = match m.args.last() { Some(Expr::Closure(c)) => Some(c), _ => None };
    let path = match m.args.last() { Some(Expr::Path(p)) if p.path.segments.len() > 1 => Some(p), _ => None };
    if closure.is_none() && path.is_none() { return; }
    const KNOWN: &[&str] = &["map", "and_then", "ok_or_else", "map_err", "or_else", "unwrap_or_else", "filter", "is_some_and", "is_none_or", "map_or", "find", "any", "all"];
    if !KNOWN.contains(&name.as_str()) {
        return;
    }
    let over_iter = matches!(&*m.receiver, Expr::MethodCall(x) if x.method == "iter" && x.args.is_empty());
    if ["find", "any", "all"].contains(&name.as_str()) && !over_iter { return; }
    let esc = closure.map(|c| { let mut e = Esc(false); e.visit_expr(&c.body); e.0 }).unwrap_or(false);
    if esc || closure.is_some_and(|c| c.inputs.len() > 1) { ex.note("closure", m.span()); return; }
    let nin = closure.map(|c| c.inputs.len()).unwrap_or(1);
    let pat = closure.and_then(|c| c.inputs.first()).map(|p| match p { Pat::Type(t) => ex.text(t.pat.span()).to_string(), p => ex.text(p.span()).to_string() });
    let (ra, rb) = r(m.receiver.span());
    let first = m.args.first().map(|a| r(a.span()));
    let body = match (closure, path) {
        (Some(c), _) => { let (a, b) = r(c.body.span()); format!("{{ {} }}", ex.take(a, b)) }
        (None, Some(p)) => format!("{}(vx_c)", ex.text(p.span())),
        _ => return,
    };
    let res = is_result(&m.receiver);
    let p = pat.unwrap_or("vx_c".into());
    if over_iter {
        let n = ex.next; ex.next += 1;
        let recv = ex.take(ra, rb);
        let Expr::MethodCall(it) = &*m.receiver else { return };
        let vec = vec_expr(ex, &it.receiver);
        let (init, hit, neg) = match name.as_str() { "find" => ("None", format!("vx_f{n} = Some(vx_e{n});"), false), "any" => ("false", format!("vx_f{n} = true;"), false), _ => ("true", format!("vx_f{n} = false;"), true) };
        let bind = if name == "find" { format!("let {p} = &vx_e{n};") } else { format!("let {p} = vx_e{n};") };
        let (pre, recv2) = if name == "find" { (format!("let vx_i{n} = {recv}; "), format!("vx_i{n}")) } else { (String::new(), recv.clone()) };
        let init = if name == "find" { format!("crate::rt::none_it(&vx_i{n})") } else { init.to_string() };
        let s = format!("{{ {pre}let mut vx_f{n} = {init}; /*@G{n}@*/ for vx_e{n} in vx_it{n}: {recv2} /*@L{n}@*/ {{ /*@B{n}@*/ {bind} if {}{body} {{ {hit} break; }} }} vx_f{n} }}", if neg { "!" } else { "" });
        let _ = ex.take(lo, hi);
        ex.put(lo, hi, s);
        ex.loops.push(json!({"id": n, "kind": name, "iter": recv, "vec": vec, "pat": p, "contrib": Value::Null, "line": m.span().start().line}));
        return;
    }
    let d = if name == "map_or" { match first { Some((a, b)) => Some(ex.take(a, b)), None => return } } else { None };
    let recv = ex.take(ra, rb);
    let s = match (name.as_str(), res, nin) {
        ("map", false, 1) => format!("(match {recv} {{ Some({p}) => Some({body}), None => None }})"),
        ("map", true, 1) => format!("(match {recv} {{ Ok({p}) => Ok({body}), Err(vx_e) => Err(vx_e) }})"),
        ("and_then", false, 1) => format!("(match {recv} {{ Some({p}) => {body}, None => None }})"),
        ("and_then", true, 1) => format!("(match {recv} {{ Ok({p}) => {body}, Err(vx_e) => Err(vx_e) }})"),
        ("ok_or_else", _, 0) => format!("(match {recv} {{ Some(vx_v) => Ok(vx_v), None => Err({body}) }})"),
        ("map_err", _, 1) => format!("(match {recv} {{ Ok(vx_v) => Ok(vx_v), Err({p}) => Err({body}) }})"),
        ("or_else", _, 0) => format!("(match {recv} {{ Some(vx_v) => Some(vx_v), None => {body} }})"),
        ("or_else", _, 1) => format!("(match {recv} {{ Ok(vx_v) => Ok(vx_v), Err({p}) => {body} }})"),
        ("unwrap_or_else", _, 0) => format!("(match {recv} {{ Some(vx_v) => vx_v, None => {body} }})"),
        ("unwrap_or_else", _, 1) => format!("(match {recv} {{ Ok(vx_v) => vx_v, Err({p}) => {body} }})"),
        ("filter", _, 1) => format!("(match {recv} {{ Some(vx_v) => {{ let vx_k = {{ let {p} = &vx_v; {body} }}; if vx_k {{ Some(vx_v) }} else {{ None }} }}, None => None }})"),
        ("is_some_and", _, 1) => format!("(match {recv} {{ Some({p}) => {body}, None => false }})"),
        ("is_none_or", _, 1) => format!("(match {recv} {{ Some({p}) => {body}, None => true }})"),
        ("map_or", false, 1) => format!("(match {recv} {{ Some({p}) => {body}, None => {} }})", d.unwrap()),
        _ => { ex.note("combinator", m.span()); return; }
    };
    let _ = ex.take(lo, hi);
    ex.put(lo, hi, s);
}

/// str methods get the names of the string vocabulary (contracts/strs.rs); a predicate on characters travels with its own meaning
fn strings(ex: &mut Ex, m: &ExprMethodCall) -> bool {
    let name = m.method.to_string();
    const STR: &[&str] = &["find", "rfind", "contains", "starts_with", "ends_with", "trim_start_matches", "trim_end_matches", "trim_matches", "trim_start", "trim_end", "replace", "split_once", "rsplit_once", "strip_prefix", "strip_suffix", "len", "as_bytes", "is_empty", "parse", "as_ref"];
    if !STR.contains(&name.as_str()) { return false; }
    const ITER: &[&str] = &["iter", "keys", "values", "chars", "into_iter", "map", "filter", "lines", "bytes", "enumerate", "rev", "split", "char_indices"];
    if let Expr::MethodCall(x) = &*m.receiver && ITER.contains(&x.method.to_string().as_str()) { return false; }
    let (a, b) = r(m.method.span());
    let arg = match m.args.first() { Some(x) if m.args.len() == 1 => Some(strip_ref(x)), _ => None };
    let pred = match arg {
        Some(Expr::Closure(c)) if c.inputs.len() == 1 && matches!(c.output, ReturnType::Default) => {
            let v = match &c.inputs[0] { Pat::Type(t) if ex.text(t.ty.span()) == "char" => ex.text(t.pat.span()).to_string(), Pat::Ident(i) => i.ident.to_string(), _ => return false };
            let mut e = Esc(false); e.visit_expr(&c.body);
            if e.0 { return false; }
            let (ba, bb) = r(c.body.span());
            Some((v, ex.src[ba..bb].to_string(), ex.take(ba, bb)))
        }
        Some(Expr::Array(l)) => {
            let t: Vec<String> = l.elems.iter().map(|e| format!("vx_c == {}", ex.text(e.span()))).collect();
            Some(("vx_c".to_string(), t.join(" || "), t.join(" || ")))
        }
        Some(Expr::Path(p)) if p.path.segments.len() == 2 && p.path.segments[0].ident == "char" => {
            let t = format!("vx_c.{}()", p.path.segments[1].ident);
            Some(("vx_c".to_string(), t.clone(), t))
        }
        _ => None,
    };
    match pred {
        Some((v, spec, body)) => {
            let spec = regex::Regex::new(r"\*?\b(\w+)\.is_whitespace\(\)").unwrap().replace_all(&spec, "crate::rt::ws($1)").to_string();
            let spec = regex::Regex::new(r"\b(\w+)\.is_ascii_whitespace\(\)").unwrap().replace_all(&spec, "crate::rt::aws($1)").to_string();
            let (x, y) = r(m.args[0].span());
            let _ = ex.take(x, y);
            ex.put(a, b, format!("vx_{name}_c"));
            ex.put(x, y, format!("Ghost(|{v}: char| {spec}), |{v}: char| -> (vx_b: bool) ensures vx_b == ({spec}) {{ {body} }}"));
        }
        None => ex.put(a, b, format!("vx_{name}")),
    }
    true
}

enum Part { Lit(String), Arg(String, bool) }
fn parse_fmt(f: &str) -> Option<Vec<Part>> {
    let mut out = vec![]; let mut cur = String::new();
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => { it.next(); cur.push('{'); }
            '}' if it.peek() == Some(&'}') => { it.next(); cur.push('}'); }
            '{' => {
                let mut a = String::new();
                for d in it.by_ref() { if d == '}' { break; } a.push(d); }
                if !cur.is_empty() { out.push(Part::Lit(std::mem::take(&mut cur))); }
                let (name, spec) = match a.split_once(':') { Some((n, s)) => (n.to_string(), s.to_string()), None => (a, String::new()) };
                if !(spec.is_empty() || spec == "?" || spec == "#?") || name.chars().next().is_some_and(|c| c.is_ascii_digit()) { return None; }
                out.push(Part::Arg(name, !spec.is_empty()));
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() { out.push(Part::Lit(cur)); }
    Some(out)
}

/// json!({ "k": expr, .. }) with expression values; nested objects allowed
fn json_expr(ex: &mut Ex, ts: proc_macro2::TokenStream) -> Option<String> {
    use proc_macro2::{Delimiter, TokenTree};
    let v: Vec<TokenTree> = ts.into_iter().collect();
    if v.len() == 1 {
        if let TokenTree::Group(g) = &v[0] {
            if g.delimiter() == Delimiter::Brace {
                let mut out = "crate::serde_json::obj()".to_string();
                let toks: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut i = 0;
                while i < toks.len() {
                    let mut j = i; 
                    while j < toks.len() { if let TokenTree::Punct(p) = &toks[j] { if p.as_char() == ':' && p.spacing() == proc_macro2::Spacing::Alone { break; } } j += 1; }
                    if j >= toks.len() { return None; }
                    let mut k = j + 1;
                    while k < toks.len() { if let TokenTree::Punct(p) = &toks[k] { if p.as_char() == ',' { break; } } k += 1; }
                    let key: proc_macro2::TokenStream = toks[i..j].iter().cloned().collect();
                    let val: proc_macro2::TokenStream = toks[j + 1..k].iter().cloned().collect();
                    let kt = key.to_string();
                    let vt = json_expr(ex, val)?;
                    out = format!("crate::serde_json::with({out}, &{kt}, {vt})");
                    i = k + 1;
                }
                return Some(out);
            }
            if g.delimiter() == Delimiter::Bracket { if g.stream().is_empty() { return Some("crate::serde_json::arr()".into()); } return None; }
        }
    }
    let ts: proc_macro2::TokenStream = v.into_iter().collect();
    let e: Expr = syn::parse2(ts.clone()).ok()?;
    let (a, b) = r(e.span());
    ex.visit_expr_pub(&e);
    let t = ex.take(a, b);
    Some(format!("crate::serde_json::to_json(&{t})"))
}
impl<'a> Ex<'a> { fn visit_expr_pub(&mut self, e: &Expr) { self.visit_expr(e) } }

fn strip_ref(e: &Expr) -> &Expr { match e { Expr::Reference(x) => strip_ref(&x.expr), Expr::Paren(p) => strip_ref(&p.expr), _ => e } }

/// spec text of the sequence a loop walks over, when it is a plain Vec walk
fn vec_expr(ex: &Ex, e: &Expr) -> Option<String> {
    let e = strip_ref(e);
    match e {
        Expr::Path(_) | Expr::Field(_) => Some(format!("({})@", ex.text(e.span()))),
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => vec_expr(ex, &m.receiver),
        Expr::MethodCall(m) if (m.method == "as_slice") && m.args.is_empty() => vec_expr(ex, &m.receiver),
        _ => None,
    }
}
/// spec text (Seq<char>) of a &str-valued argument
fn str_spec(ex: &Ex, e: &Expr, env: &Env) -> Option<String> {
    let e = strip_ref(e);
    match e {
        Expr::Path(p) if p.path.get_ident().is_some_and(|i| env.iter().any(|(n, _)| i == n)) => env.iter().rev().find(|(n, _)| p.path.is_ident(n)).map(|(_, t)| t.clone()),
        Expr::Path(_) | Expr::Lit(_) => Some(format!("({})@", ex.text(e.span()))),
        Expr::Call(c) => {
            if let Expr::Path(p) = &*c.func {
                if p.path.segments.last().unwrap().ident == "child_path" && c.args.len() == 2 {
                    return Some(format!("cpath({}, {})", str_spec(ex, &c.args[0], env)?, str_spec(ex, &c.args[1], env)?));
                }
            }
            None
        }
        Expr::MethodCall(m) if ["as_str", "to_string", "clone", "as_ref"].contains(&m.method.to_string().as_str()) && m.args.is_empty() => str_spec(ex, &m.receiver, env),
        _ => None,
    }
}
type Env = Vec<(String, String)>;
fn opt_spec(ex: &Ex, e: &Expr) -> Option<String> {
    match e { Expr::Path(_) | Expr::Call(_) => Some(ex.text(e.span()).to_string()), _ => None }
}
/// contributions of one loop body to the report, as spec descriptions; None = not understood
fn contributions(ex: &Ex, stmts: &[Stmt], item: &str, gated: bool, env: &mut Env) -> Option<Vec<Value>> {
    let mut out = vec![];
    for s in stmts {
        match s {
            Stmt::Expr(e, _) => out.extend(contrib_e(ex, e, item, gated, env)?),
            Stmt::Local(l) => {
                // local bindings that do not touch the collector
                if let Pat::Wild(_) = l.pat { continue; }
                let pat = if let Pat::Type(t) = &l.pat { &*t.pat } else { &l.pat };
                if let (Pat::Ident(i), Some(init)) = (pat, &l.init) {
                    if i.mutability.is_none() && init.diverge.is_none() { if let Some(t) = str_spec(ex, &init.expr, env) { env.push((i.ident.to_string(), t)); continue; } }
                }
                return None;
            }
            Stmt::Item(_) => return None,
            Stmt::Macro(_) => return None,
        }
    }
    Some(out)
}
fn contrib_e(ex: &Ex, e: &Expr, item: &str, gated: bool, env: &mut Env) -> Option<Vec<Value>> {
    let is_item = |x: &Expr| -> bool {
        let mut x = strip_ref(x);
        loop {
            match x {
                Expr::MethodCall(m) if ["as_str", "as_ref"].contains(&m.method.to_string().as_str()) => x = strip_ref(&m.receiver),
                Expr::Unary(u) => x = strip_ref(&u.expr),
                _ => break,
            }
        }
        matches!(x, Expr::Path(p) if p.path.is_ident(item))
    };
    match e {
        Expr::Block(b) => contributions(ex, &b.block.stmts, item, gated, env),
        Expr::If(i) if i.else_branch.is_none() => {
            if let Expr::Field(f) = &*i.cond { if let Member::Named(n) = &f.member { if n == "validate_optional_fields" { return contributions(ex, &i.then_branch.stmts, item, true, env); } } }
            None
        }
        Expr::MethodCall(m) if m.method == "validate" && is_item(&m.receiver) && m.args.len() == 3 => {
            let p = str_spec(ex, &m.args[0], env)?;
            Some(vec![json!({"k": "rec", "path": p, "gate": gated})])
        }
        Expr::Call(c) => {
            let n = if let Expr::Path(p) = &*c.func { p.path.segments.last().unwrap().ident.to_string() } else { return None };
            let a: Vec<&Expr> = c.args.iter().collect();
            match n.as_str() {
                "validate_length" if a.len() == 7 && is_item(a[0]) => Some(vec![json!({"k":"len","name":str_spec(ex, a[1], env)?,"min":opt_spec(ex,a[2])?,"max":opt_spec(ex,a[3])?,"path":str_spec(ex, a[4], env)?,"gate":gated})]),
                "validate_pattern" if a.len() == 6 && is_item(a[0]) => Some(vec![json!({"k":"pat","name":str_spec(ex, a[1], env)?,"re":str_spec(ex, a[2], env)?,"path":str_spec(ex, a[3], env)?,"gate":gated})]),
                _ => None,
            }
        }
        _ => None,
    }
}

/// `#[derive(Default)]` of structs with named fields, written out as the derive does it
fn derived(src: &str) -> String {
    let Ok(f) = syn::parse_file(src) else { return src.to_string() };
    let mut ins: Vec<(usize, String)> = vec![];
    for it in &f.items {
        let Item::Struct(s) = it else { continue };
        let Fields::Named(n) = &s.fields else { continue };
        let has = s.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Default"));
        if !has || !s.generics.params.is_empty() { continue }
        let fs: Vec<String> = n.named.iter().map(|f| format!("{}: Default::default()", f.ident.as_ref().unwrap())).collect();
        ins.push((s.span().byte_range().end, format!("\nimpl Default for {0} {{ fn default() -> Self {{ {0} {{ {1} }} }} }}", s.ident, fs.join(", "))));
    }
    let mut o = src.to_string();
    for (at, t) in ins.into_iter().rev() { o.insert_str(at, &t); }
    o
}

/// the statement `I.for_each(|p| body)` as the loop it stands for, `for p in I { body; }`;
/// `match e { P if g => A, _ => B }` as `match e { P => { if g { A } else { B } } _ => B }`
fn plain(src: &str) -> String {
    struct F(Vec<(usize, usize, String)>, String);
    impl<'a> Visit<'a> for F {
        fn visit_stmt(&mut self, s: &'a Stmt) {
            if let Stmt::Expr(Expr::MethodCall(m), semi) = s && m.method == "for_each" && m.args.len() == 1 && m.turbofish.is_none()
                && let Expr::Closure(c) = &m.args[0] && c.inputs.len() == 1 && c.asyncness.is_none() && { let mut e = Esc(false); e.visit_expr(&c.body); !e.0 }
            {
                let p = match &c.inputs[0] { Pat::Type(t) => &*t.pat, p => p };
                let g = |s: proc_macro2::Span| { let b = s.byte_range(); self.1[b].to_string() };
                let (a, mut b) = { let r = m.span().byte_range(); (r.start, r.end) };
                if let Some(x) = semi { b = x.span().byte_range().end; }
                let t = format!("for {} in {} {{ {}; }}", g(p.span()), g(m.receiver.span()), g(c.body.span()));
                self.0.push((a, b, t));
            } else { visit::visit_stmt(self, s) }
        }
        fn visit_expr_match(&mut self, m: &'a ExprMatch) {
            visit::visit_expr_match(self, m);
            if let [x, y] = &m.arms[..] && let Some((_, g)) = &x.guard && y.guard.is_none() && matches!(y.pat, Pat::Wild(_)) && !matches!(**g, Expr::Let(_)) && !g.to_token_stream().to_string().contains("let ") {
                let n = self.0.len();
                let t = |s: proc_macro2::Span| { let b = s.byte_range(); self.1[b].to_string() };
                let a = x.span().byte_range();
                if self.0.iter().any(|e| e.0 >= a.start && e.1 <= a.end) { return }   // next round
                let s = format!("{} => {{ if {} {{ {} }} else {{ {} }} }}", t(x.pat.span()), t(g.span()), t(x.body.span()), t(y.body.span()));
                let e = x.body.span().byte_range().end;
                self.0.insert(n, (a.start, e, s));
            }
        }
    }
    let mut o = src.to_string();
    for _ in 0..6 {
        let Ok(f) = syn::parse_file(&o) else { return src.to_string() };
        let mut v = F(vec![], o.clone());
        v.visit_file(&f);
        if v.0.is_empty() { break }
        v.0.sort();
        let mut k = 0;      // an edit inside another waits for the next round
        v.0.retain(|e| { let ok = e.0 >= k; if ok { k = e.1 } ok });
        for (a, b, t) in v.0.into_iter().rev() { o.replace_range(a..b, &t); }
    }
    o
}

pub fn run(src: &str, opts: &Opts) -> std::result::Result<Value, String> {
    let (expanded, left) = if opts.io { crate::expand::expand(src) } else { (src.to_string(), vec![]) };
    let (expanded, inl) = if opts.inline {
        let ds: Vec<_> = opts.donors.iter().map(|(t, k)| (if opts.io { crate::expand::expand(t).0 } else { t.clone() }, k.clone())).collect();
        crate::inline::run(&expanded, &opts.known, &ds)
    } else { (expanded, Value::Null) };
    let expanded = if opts.derived { derived(&expanded) } else { expanded };
    let expanded = plain(&expanded);
    let src = expanded.as_str();
    let f = syn::parse_file(src).map_err(|e| format!("{e}"))?;
    let mut ex = Ex { src, edits: vec![], fns: vec![], cur: None, loops: vec![], notes: vec![], mods: vec![], path: vec![], in_trait: None, self_ty: None, opts, next: 0, mut_self: false };
    for a in &f.attrs { ex.del(a.span()); }
    for it in &f.items { ex.visit_item(it); }
    let ed = std::mem::take(&mut ex.edits);
    let text = apply(src, 0, src.len(), ed);
    Ok(json!({"text": text, "fns": ex.fns, "notes": ex.notes, "mods": ex.mods, "schema": schema::module(&f), "macros_left": left, "inlined": inl}))
}
