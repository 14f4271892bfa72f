//! Call-by-value inlining of the functions that carry no contract of their own, before extraction.
//!
//! A call `h(a, b)` becomes a block `{ let p: P = a; let q: Q = b; <body of h> }` where the early returns of the
//! body (`return`, `?`, `let .. else`) have become the branches they stand for. A function that cannot be brought
//! into that form (loops with early exits, recursion, ...) stays a function.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{ToTokens, quote};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper { path: String, name: String, owner: Option<String>, sig: Signature, block: Block, uses: Vec<ItemUse>, here: bool, public: bool }

/// tokens as text; blanks only where they cannot change a token
pub fn print(ts: TokenStream) -> String {
    fn go(ts: TokenStream, o: &mut String, glue: &mut bool) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{ ", " }"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                    if a == "{ " && !o.ends_with(' ') { o.push(' '); }
                    o.push_str(a); *glue = true; go(g.stream(), o, glue); o.push_str(b); *glue = false;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let tight = c == '.' || c == ':' || c == ',' || c == ';' || c == '?' || c == '\'';
                    if !*glue && !tight && !o.ends_with(' ') && !o.ends_with('(') && !o.ends_with('[') { o.push(' '); }
                    if c == '\'' && !o.ends_with([' ', '(', '[', '<', '&']) { o.push(' '); }
                    o.push(c);
                    *glue = p.spacing() == proc_macro2::Spacing::Joint || c == '.' || c == '&' || c == '!' || c == '\'' || (c == ':' && o.ends_with("::"));
                    if c == ';' || c == ',' { o.push(' '); *glue = true; }
                }
                TokenTree::Ident(i) => { if !*glue { o.push(' '); } o.push_str(&i.to_string()); *glue = false; }
                TokenTree::Literal(l) => { if !*glue { o.push(' '); } o.push_str(&l.to_string()); *glue = false; }
            }
        }
    }
    let mut o = String::new();
    go(ts, &mut o, &mut true);
    o.replace("\n", "\n")
}

// ---------------------------------------------------------------- early exits
struct Escape(bool, bool);
impl<'a> Visit<'a> for Escape {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_await(&mut self, _: &'a ExprAwait) { self.1 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_macro(&mut self, m: &'a Macro) { if LOG.contains(&m.path.segments.last().unwrap().ident.to_string().as_str()) { return; } if tok_esc(m.tokens.clone()) { self.0 = true; self.1 = true; } }
}
fn tok_esc(ts: TokenStream) -> bool {
    ts.into_iter().any(|t| match t { TokenTree::Ident(i) => i == "return" || i == "await", TokenTree::Punct(p) => p.as_char() == '?' , TokenTree::Group(g) => tok_esc(g.stream()), _ => false })
}
fn esc(e: &Expr) -> bool { let mut x = Escape(false, false); x.visit_expr(e); x.0 }
fn esc_s(s: &Stmt) -> bool {
    // an unused macro such as a log line with `?x` in it is no early exit
    if let Stmt::Macro(m) = s && LOG.contains(&m.mac.path.segments.last().unwrap().ident.to_string().as_str()) { return false; }
    let mut x = Escape(false, false); x.visit_stmt(s); x.0
}
const LOG: &[&str] = &["debug", "info", "warn", "error", "trace", "instrument"];
fn esc_b(b: &Block) -> bool { b.stmts.iter().any(esc_s) }
fn diverges_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::If(i) => diverges(&i.then_branch.stmts) && i.else_branch.as_ref().is_some_and(|(_, e)| diverges_e(e)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges_e(&a.body)),
        Expr::Macro(m) => ["panic", "unreachable", "todo", "unimplemented"].contains(&m.mac.path.segments.last().unwrap().ident.to_string().as_str()),
        _ => false,
    }
}
fn diverges(s: &[Stmt]) -> bool {
    match s.last() {
        Some(Stmt::Expr(e, _)) => diverges_e(e),
        Some(Stmt::Macro(m)) => ["panic", "unreachable", "todo", "unimplemented"].contains(&m.mac.path.segments.last().unwrap().ident.to_string().as_str()),
        _ => false,
    }
}
struct Idents(BTreeSet<String>);
impl<'a> Visit<'a> for Idents { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); } fn visit_expr_closure(&mut self, _: &'a ExprClosure) {} }
fn pat_idents(p: &Pat) -> BTreeSet<String> { let mut x = Idents(Default::default()); x.visit_pat(p); x.0 }
fn toks(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts { match t { TokenTree::Ident(i) => { out.insert(i.to_string()); } TokenTree::Group(g) => toks(g.stream(), out),
        TokenTree::Literal(l) => { for m in regex::Regex::new(r"\{(\w+)").unwrap().captures_iter(&l.to_string()) { out.insert(m[1].to_string()); } } _ => {} } }
}
fn names(s: &[Stmt]) -> BTreeSet<String> { let mut o = BTreeSet::new(); for x in s { toks(x.to_token_stream(), &mut o); } o }

struct Conv { n: usize, fuel: usize, opt: bool }
type R<T> = std::result::Result<T, ()>;
fn blk(stmts: Vec<Stmt>) -> Block { Block { brace_token: Default::default(), stmts } }
fn ebl(stmts: Vec<Stmt>) -> Expr { Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(stmts) }) }
fn val(e: Expr) -> Stmt { Stmt::Expr(e, None) }

impl Conv {
    fn tick(&mut self) -> R<()> { if self.fuel == 0 { return Err(()); } self.fuel -= 1; Ok(()) }
    fn block(&mut self, b: &Block) -> R<Block> { Ok(blk(self.stmts(&b.stmts)?)) }
    /// the statements with their early exits turned into branches; the value is the returned value
    fn stmts(&mut self, s: &[Stmt]) -> R<Vec<Stmt>> {
        self.tick()?;
        let mut out = vec![];
        for (i, st) in s.iter().enumerate() {
            if !esc_s(st) { out.push(st.clone()); continue; }
            let rest = &s[i + 1..];
            match st {
                Stmt::Local(l) => {
                    let Some(init) = &l.init else { return Err(()) };
                    match &init.diverge {
                        Some((_, d)) => {
                            if esc(&init.expr) { let (q, op, e) = self.hoist(&init.expr)?; let mut l2 = l.clone(); *l2.init.as_mut().unwrap().expr = e; let mut v = vec![Stmt::Local(l2)]; v.extend_from_slice(rest); out.extend(self.on_ok(&q, op, &v)?); return Ok(out); }
                            let (pat, e) = (&l.pat, &init.expr);
                            if matches!(pat, Pat::Type(_)) { return Err(()); }
                            let yes = blk(self.stmts(rest)?);
                            let no = match &**d { Expr::Block(b) => self.block(&b.block)?, _ => return Err(()) };
                            out.push(val(parse_quote!(match #e { #pat => #yes, _ => #no })));
                            return Ok(out);
                        }
                        None => { out.extend(self.bind(l, &init.expr, rest)?); return Ok(out); }
                    }
                }
                Stmt::Expr(e, semi) => {
                    if rest.is_empty() && (semi.is_none() || diverges_e(e)) { out.extend(self.tail(e)?); } else { out.extend(self.stmt(e, semi.is_some(), rest)?); }
                    return Ok(out);
                }
                _ => return Err(()),
            }
        }
        Ok(out)
    }
    fn on_ok(&mut self, q: &Ident, op: Expr, rest: &[Stmt]) -> R<Vec<Stmt>> {
        let b = blk(self.stmts(rest)?);
        Ok(vec![val(if self.opt { parse_quote!(match #op { Some(#q) => #b, None => None }) } else { parse_quote!(match #op { Ok(#q) => #b, Err(vx_e) => Err(vx_e) }) })])
    }
    fn tail(&mut self, e: &Expr) -> R<Vec<Stmt>> {
        self.tick()?;
        if !esc(e) { return Ok(vec![val(e.clone())]); }
        match e {
            Expr::Return(x) => match &x.expr { Some(x) => self.tail(x), None => Ok(vec![val(parse_quote!(()))]) },
            Expr::Paren(p) => self.tail(&p.expr),
            Expr::Block(b) if b.label.is_none() => Ok(vec![val(ebl(self.stmts(&b.block.stmts)?))]),
            Expr::If(i) if !esc(&i.cond) => {
                let c = &i.cond; let t = self.block(&i.then_branch)?;
                Ok(vec![val(match &i.else_branch { None => parse_quote!(if #c #t), Some((_, e)) => { let e = blk(self.tail(e)?); parse_quote!(if #c #t else #e) } })])
            }
            Expr::Match(m) if !esc(&m.expr) => {
                let mut m2 = m.clone();
                for a in &mut m2.arms { if a.guard.as_ref().is_some_and(|g| esc(&g.1)) { return Err(()); } *a.body = ebl(self.tail(&a.body)?); a.comma = Some(Default::default()); }
                Ok(vec![val(Expr::Match(m2))])
            }
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) | Expr::Macro(_) => Err(()),
            _ => { let (q, op, e) = self.hoist(e)?; self.on_ok(&q, op, &[val(e)]) }
        }
    }
    /// one branch of a statement, followed by the rest
    fn branch(&mut self, b: &[Stmt], bound: &BTreeSet<String>, rest: &[Stmt], bind: Option<&Local>) -> R<Vec<Stmt>> {
        self.tick()?;
        let has = b.iter().any(esc_s);
        if diverges(b) { return self.stmts(b); }
        let used = names(rest);
        if !has {
            match bind {
                None => { if bound.iter().any(|x| used.contains(x)) && !b.is_empty() { /* the block closes before the rest */ }
                    if bound.iter().any(|x| used.contains(x)) { return Err(()); }
                    let mut v = vec![]; if !b.is_empty() { v.push(Stmt::Expr(ebl(b.to_vec()), Some(Default::default()))); } v.extend(self.stmts(rest)?); Ok(v) }
                Some(l) => {
                    let own = pat_idents(&l.pat);
                    if bound.iter().any(|x| used.contains(x) && !own.contains(x)) { return Err(()); }
                    let mut l2 = l.clone();
                    *l2.init.as_mut().unwrap().expr = match b { [Stmt::Expr(e, None)] => e.clone(), _ => ebl(b.to_vec()) };
                    let mut v = vec![Stmt::Local(l2)]; v.extend(self.stmts(rest)?); Ok(v)
                }
            }
        } else {
            let mut x = Idents(bound.clone());
            for s in b { x.visit_stmt(s); }
            let own = bind.map(|l| pat_idents(&l.pat)).unwrap_or_default();
            if x.0.iter().any(|i| used.contains(i) && !own.contains(i)) { return Err(()); }
            let mut v = b.to_vec();
            if let Some(l) = bind {
                let Some(Stmt::Expr(e, None)) = v.pop() else { return Err(()) };
                let mut l2 = l.clone(); *l2.init.as_mut().unwrap().expr = e; v.push(Stmt::Local(l2));
            } else if let Some(Stmt::Expr(_, semi)) = v.last_mut() { *semi = Some(Default::default()); }
            v.extend_from_slice(rest);
            self.stmts(&v)
        }
    }
    fn arms(&mut self, e: &Expr, rest: &[Stmt], bind: Option<&Local>) -> R<Vec<Stmt>> {
        let one = |e: &Expr| -> Vec<Stmt> { match e { Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] } };
        let mut cond_ids = BTreeSet::new();
        match e {
            Expr::If(i) => {
                struct L(BTreeSet<String>);
                impl<'a> Visit<'a> for L { fn visit_expr_let(&mut self, l: &'a ExprLet) { self.0.extend(pat_idents(&l.pat)); } }
                let mut l = L(Default::default()); l.visit_expr(&i.cond); cond_ids.extend(l.0);
                let c = &i.cond;
                let t = blk(self.branch(&i.then_branch.stmts, &cond_ids, rest, bind)?);
                let f = match &i.else_branch { Some((_, e)) => one(e), None => vec![] };
                let f = blk(self.branch(&f, &BTreeSet::new(), rest, bind)?);
                Ok(vec![val(parse_quote!(if #c #t else #f))])
            }
            Expr::Match(m) => {
                let mut m2 = m.clone();
                for a in &mut m2.arms {
                    if a.guard.as_ref().is_some_and(|g| esc(&g.1)) { return Err(()); }
                    let b = one(&a.body);
                    *a.body = ebl(self.branch(&b, &pat_idents(&a.pat), rest, bind)?);
                    a.comma = Some(Default::default());
                }
                Ok(vec![val(Expr::Match(m2))])
            }
            Expr::Block(b) if b.label.is_none() => self.branch(&b.block.stmts, &BTreeSet::new(), rest, bind),
            _ => Err(()),
        }
    }
    fn stmt(&mut self, e: &Expr, semi: bool, rest: &[Stmt]) -> R<Vec<Stmt>> {
        self.tick()?;
        match e {
            Expr::Return(_) => self.tail(e),
            Expr::If(i) if !esc(&i.cond) => self.arms(e, rest, None),
            Expr::Match(m) if !esc(&m.expr) => self.arms(e, rest, None),
            Expr::Block(_) => self.arms(e, rest, None),
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) | Expr::Macro(_) => Err(()),
            _ => { let (q, op, e) = self.hoist(e)?; let mut v = vec![Stmt::Expr(e, if semi { Some(Default::default()) } else { None })]; v.extend_from_slice(rest); self.on_ok(&q, op, &v) }
        }
    }
    fn bind(&mut self, l: &Local, e: &Expr, rest: &[Stmt]) -> R<Vec<Stmt>> {
        self.tick()?;
        match e {
            Expr::If(i) if !esc(&i.cond) => self.arms(e, rest, Some(l)),
            Expr::Match(m) if !esc(&m.expr) => self.arms(e, rest, Some(l)),
            Expr::Block(_) => self.arms(e, rest, Some(l)),
            _ => { let (q, op, e) = self.hoist(e)?; let mut l2 = l.clone(); *l2.init.as_mut().unwrap().expr = e; let mut v = vec![Stmt::Local(l2)]; v.extend_from_slice(rest); self.on_ok(&q, op, &v) }
        }
    }
    /// the first `x?` evaluated becomes a variable
    fn hoist(&mut self, e: &Expr) -> R<(Ident, Expr, Expr)> {
        self.tick()?;
        self.n += 1;
        let q = Ident::new(&format!("vx_q{}", self.n), proc_macro2::Span::call_site());
        let mut e2 = e.clone();
        match first(&mut e2, &q)? { Some(op) => Ok((q, op, e2)), None => Err(()) }
    }
}
fn simple(e: &Expr) -> bool {
    match e { Expr::Path(_) | Expr::Lit(_) => true, Expr::Field(f) => simple(&f.base), Expr::Reference(r) => r.mutability.is_none() && simple(&r.expr), Expr::Unary(u) => simple(&u.expr), Expr::Paren(p) => simple(&p.expr), _ => false }
}
fn first(e: &mut Expr, q: &Ident) -> R<Option<Expr>> {
    fn seq(v: Vec<&mut Expr>, q: &Ident) -> R<Option<Expr>> {
        let mut before = true;
        for x in v { if esc(x) { if !before { return Err(()); } return first(x, q); } before &= simple(x); }
        Ok(None)
    }
    if !esc(e) { return Ok(None); }
    match e {
        Expr::Try(t) => { if esc(&t.expr) { return first(&mut t.expr, q); } let op = (*t.expr).clone(); *e = parse_quote!(#q); Ok(Some(op)) }
        Expr::MethodCall(m) => { let mut v = vec![&mut *m.receiver]; v.extend(m.args.iter_mut()); seq(v, q) }
        Expr::Call(c) => seq(c.args.iter_mut().collect(), q),
        Expr::Binary(b) => { if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && esc(&b.right) { return Err(()); } seq(vec![&mut *b.left, &mut *b.right], q) }
        Expr::Paren(p) => first(&mut p.expr, q),
        Expr::Reference(r) => first(&mut r.expr, q),
        Expr::Field(f) => first(&mut f.base, q),
        Expr::Unary(u) => first(&mut u.expr, q),
        Expr::Cast(c) => first(&mut c.expr, q),
        Expr::Let(l) => first(&mut l.expr, q),
        Expr::Index(i) => seq(vec![&mut *i.expr, &mut *i.index], q),
        Expr::Tuple(t) => seq(t.elems.iter_mut().collect(), q),
        Expr::Array(t) => seq(t.elems.iter_mut().collect(), q),
        Expr::Struct(s) => seq(s.fields.iter_mut().map(|f| &mut f.expr).collect(), q),
        Expr::Range(r) => seq(r.start.iter_mut().chain(r.end.iter_mut()).map(|b| &mut **b).collect(), q),
        Expr::If(i) if esc(&i.cond) => first(&mut i.cond, q),
        Expr::Match(m) if esc(&m.expr) => first(&mut m.expr, q),
        Expr::Assign(a) if simple(&a.left) => first(&mut a.right, q),
        Expr::Return(r) => match &mut r.expr { Some(x) => first(x, q), None => Err(()) },
        _ => Err(()),
    }
}

// ---------------------------------------------------------------- inlining
fn strip_lt(t: &Type) -> Type {
    struct S;
    impl VisitMut for S {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { if r.lifetime.as_ref().is_some_and(|l| l.ident != "static") { r.lifetime = None; } visit_mut::visit_type_reference_mut(self, r); }
        fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
            for x in a.args.iter_mut() { if let GenericArgument::Lifetime(l) = x { l.ident = Ident::new("_", l.ident.span()); } }
            visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
        }
    }
    let mut t = t.clone(); S.visit_type_mut(&mut t); t
}
fn open_type(t: &Type, sig: &Signature) -> bool {
    let mut s = BTreeSet::new(); toks(t.to_token_stream(), &mut s);
    s.contains("impl") || s.contains("dyn") || sig.generics.type_params().any(|p| s.contains(&p.ident.to_string()))
}
fn retok(ts: TokenStream, from: &str, to: &TokenStream) -> TokenStream {
    ts.into_iter().flat_map(|t| -> Vec<TokenTree> { match t {
        TokenTree::Ident(i) if i == from => to.clone().into_iter().collect(),
        TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), retok(g.stream(), from, to)); n.set_span(g.span()); vec![TokenTree::Group(n)] }
        t => vec![t],
    } }).collect()
}

struct Inl<'a> { hs: &'a BTreeMap<String, (Helper, Block)>, by: &'a BTreeMap<String, Vec<String>>, own: Option<String>, selfty: Option<TokenStream>, done: BTreeSet<String>, n: &'a mut usize, budget: &'a mut usize }

impl Inl<'_> {
    fn pick(&self, name: &str, owner: Option<&str>, method: bool) -> Option<&(Helper, Block)> {
        let v: Vec<&String> = self.by.get(name)?.iter().filter(|k| { let h = &self.hs[*k].0; match owner { Some(o) => h.owner.as_deref() == Some(o) || (h.owner.is_none() && !h.here) || (h.owner.is_none() && h.path.ends_with(&format!("{o}::{name}"))), None => if method { h.owner.is_some() && h.sig.receiver().is_some() } else { h.owner.is_none() } } }).collect();
        if v.len() != 1 || Some(v[0]) == self.own.as_ref() { return None; }
        Some(&self.hs[v[0]])
    }
    fn callee(&self, p: &ExprPath) -> Option<&(Helper, Block)> {
        if p.qself.is_some() { return None; }
        let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let owner = if s.len() == 1 { None } else { let o = &s[s.len() - 2]; Some(if o == "Self" { self.selfty.as_ref().map(|t| t.to_string().split_whitespace().next().unwrap_or("").to_string())? } else { o.clone() }) };
        // `module::name` names a free function
        let name = s.last()?;
        self.pick(name, owner.as_deref(), false).or_else(|| if s.len() > 1 && s[s.len() - 2].chars().next().is_some_and(|c| c.is_lowercase()) { self.pick(name, None, false) } else { None })
    }
    fn build(&mut self, key: &str, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let (h, body) = &self.hs[key];
        if *self.budget == 0 { return None; }
        *self.budget -= 1;
        let mut stmts: Vec<Stmt> = vec![];
        for u in &h.uses { stmts.push(Stmt::Item(Item::Use(u.clone()))); }
        let mut late: Vec<Stmt> = vec![];
        let params: Vec<&FnArg> = h.sig.inputs.iter().collect();
        let mut body = body.clone();
        let mut it = args.into_iter();
        let mut given = recv;
        for p in params {
            match p {
                FnArg::Receiver(r) => {
                    let a = match given.take() { Some(a) => a, None => it.next()? };
                    if matches!(&a, Expr::Path(p) if p.path.is_ident("self")) && h.here { continue; }
                    let by_call = matches!(&a, Expr::Reference(_));
                    *self.n += 1;
                    let s = Ident::new(&format!("vx_s{}", self.n), proc_macro2::Span::call_site());
                    let o: Type = parse_str(h.owner.as_ref()?).ok()?;
                    if !matches!(&o, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.arguments.is_empty())) { return None; }
                    stmts.push(match (&r.reference, &r.mutability) {
                        (Some(_), None) => if by_call { parse_quote!(let #s: &#o = #a;) } else { parse_quote!(let #s: &#o = &#a;) },
                        (Some(_), Some(_)) => if by_call { parse_quote!(let #s: &mut #o = #a;) } else { parse_quote!(let #s: &mut #o = &mut #a;) },
                        (None, None) => parse_quote!(let #s: #o = #a;),
                        (None, Some(_)) => parse_quote!(let mut #s: #o = #a;),
                    });
                    body = parse2(retok(body.to_token_stream(), "self", &quote!(#s))).ok()?;
                }
                FnArg::Typed(t) => {
                    let a = it.next()?;
                    let pat = &t.pat;
                    if let (Pat::Ident(i), Expr::Path(ap)) = (&**pat, &a) && i.mutability.is_none() && ap.path.is_ident(&i.ident) { continue; }
                    *self.n += 1;
                    let v = Ident::new(&format!("vx_a{}", self.n), proc_macro2::Span::call_site());
                    let ty = strip_lt(&t.ty);
                    if open_type(&ty, &h.sig) { stmts.push(parse_quote!(let #v = #a;)); late.push(parse_quote!(let #pat = #v;)); }
                    else { stmts.push(parse_quote!(let #v: #ty = #a;)); late.push(parse_quote!(let #pat: #ty = #v;)); }
                }
            }
        }
        if it.next().is_some() { return None; }
        stmts.extend(late);
        let ret = match &h.sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => if open_type(t, &h.sig) { None } else { Some(strip_lt(t)) } };
        match ret {
            Some(t) => { stmts.push(parse_quote!(let vx_v: #t = #body;)); stmts.push(val(parse_quote!(vx_v))); }
            None => stmts.extend(body.stmts),
        }
        let mut e = ebl(stmts);
        if let Some(o) = &h.owner && self.selfty.as_ref().map(|t| t.to_string().replace(' ', "")) != Some(o.replace(' ', "")) {
            let o: TokenStream = o.parse().ok()?;
            e = parse2(retok(e.to_token_stream(), "Self", &o)).ok()?;
        }
        self.done.insert(key.to_string());
        Some(Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(e) }))
    }
    fn tokens(&mut self, ts: TokenStream) -> TokenStream {
        // calls inside json!(..)
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out: Vec<TokenTree> = vec![];
        let mut i = 0;
        while i < v.len() {
            if let (TokenTree::Ident(_), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) && g.delimiter() == Delimiter::Parenthesis {
                // take the path before it
                let mut k = out.len();
                while k >= 2 && matches!((&out[k - 1], &out[k - 2]), (TokenTree::Punct(a), TokenTree::Punct(b)) if a.as_char() == ':' && b.as_char() == ':') && k >= 3 && matches!(out[k - 3], TokenTree::Ident(_)) { k -= 3; }
                if !(k > 0 && matches!(&out[k - 1], TokenTree::Punct(p) if p.as_char() == '.')) {
                    let mut t: TokenStream = out[k..].iter().cloned().collect();
                    t.extend([v[i].clone(), v[i + 1].clone()]);
                    if let Ok(mut e) = parse2::<Expr>(t.clone()) {
                        let b = e.to_token_stream().to_string();
                        self.visit_expr_mut(&mut e);
                        if e.to_token_stream().to_string() != b {
                            out.truncate(k);
                            out.extend(e.to_token_stream());
                            i += 2;
                            continue;
                        }
                    }
                }
            }
            match &v[i] { TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), self.tokens(g.stream())); n.set_span(g.span()); out.push(TokenTree::Group(n)); } t => out.push(t.clone()) }
            i += 1;
        }
        out.into_iter().collect()
    }
    fn mac(&mut self, m: &mut Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if LOG.contains(&n.as_str()) { return; }
        if n == "json" { m.tokens = self.tokens(m.tokens.clone()); return; }
        if let Ok(mut es) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            let b = es.to_token_stream().to_string();
            for e in es.iter_mut() { self.visit_expr_mut(e); }
            if es.to_token_stream().to_string() != b { m.tokens = es.to_token_stream(); }
        }
    }
}
impl VisitMut for Inl<'_> {
    fn visit_macro_mut(&mut self, m: &mut Macro) { self.mac(m); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a function used as a value
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                if let Expr::Path(p) = a && let Some((h, _)) = self.callee(p) && h.sig.inputs.len() == 1 { let p2 = p.clone(); *a = parse_quote!(|vx_c| #p2(vx_c)); }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::Call(c) => match &*c.func { Expr::Path(p) => match self.callee(p) { Some((h, _)) => { let k = h.path.clone(); self.build(&k, None, c.args.iter().cloned().collect()) } None => None }, _ => None },
            Expr::MethodCall(m) => match self.pick(&m.method.to_string(), None, true) { Some((h, _)) => { let k = h.path.clone(); self.build(&k, Some((*m.receiver).clone()), m.args.iter().cloned().collect()) } None => None },
            _ => None,
        };
        if let Some(n) = new { *e = n; }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

struct FnRec { path: String, owner: Option<String>, sig: Signature, block: Block, span: (usize, usize), item: (usize, usize), cand: bool, public: bool, uses: Vec<ItemUse> }

fn collect(items: &[Item], path: &mut Vec<String>, out: &mut Vec<FnRec>, src: &str) {
    let r = |s: proc_macro2::Span| { let b = s.byte_range(); (b.start, b.end) };
    let test = |a: &[Attribute]| a.iter().any(|a| quote!(#a).to_string().replace(' ', "").contains("cfg(test)"));
    let plain = |s: &Signature| s.asyncness.is_none() && s.unsafety.is_none() && s.constness.is_none();
    let uses = uses_of(items);
    for it in items {
        match it {
            Item::Fn(f) if !test(&f.attrs) => { path.push(f.sig.ident.to_string()); out.push(FnRec { path: path.join("::"), owner: None, sig: f.sig.clone(), block: (*f.block).clone(), span: r(f.block.span()), item: r(f.span()), cand: plain(&f.sig), public: matches!(f.vis, Visibility::Public(_)), uses: uses.clone() }); path.pop(); }
            Item::Mod(m) if !test(&m.attrs) => if let Some((_, its)) = &m.content { path.push(m.ident.to_string()); collect(its, path, out, src); path.pop(); },
            Item::Impl(im) if !test(&im.attrs) => {
                let (a, b) = r(im.self_ty.span());
                let ty = src[a..b].to_string();
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                path.push(match &tr { Some(t) => format!("<{ty} as {t}>"), None => ty.clone() });
                for i in &im.items { if let ImplItem::Fn(f) = i && !test(&f.attrs) { path.push(f.sig.ident.to_string()); out.push(FnRec { path: path.join("::"), owner: Some(ty.clone()), sig: f.sig.clone(), block: f.block.clone(), span: r(f.block.span()), item: r(f.span()), cand: tr.is_none() && plain(&f.sig) && im.generics.params.is_empty(), public: matches!(f.vis, Visibility::Public(_)), uses: uses.clone() }); path.pop(); } }
                path.pop();
            }
            _ => {}
        }
    }
}

struct Donor { fns: Vec<FnRec> }
fn uses_of(items: &[Item]) -> Vec<ItemUse> { items.iter().filter_map(|i| if let Item::Use(u) = i && !quote!(#u).to_string().contains("tracing") && !quote!(#u).to_string().contains("async_trait") { let mut u = u.clone(); u.attrs.clear(); u.vis = Visibility::Inherited; Some(u) } else { None }).collect() }

/// known: paths with a contract (never inlined); donors: (source text, paths with a contract there)
pub fn run(src: &str, known: &BTreeSet<String>, donors: &[(String, BTreeSet<String>)]) -> (String, Value) {
    let none = |w: &str| (src.to_string(), json!({"into": [], "calls": [], "left": [], "why": w}));
    let Ok(f) = syn::parse_file(src) else { return none("parse") };
    let mut fns = vec![];
    collect(&f.items, &mut vec![], &mut fns, src);
    let mut ds = vec![];
    for (t, k) in donors {
        let Ok(f) = syn::parse_file(t) else { continue };
        let mut v = vec![];
        collect(&f.items, &mut vec![], &mut v, t);
        v.retain(|x| x.cand && !k.contains(&x.path));
        if !v.is_empty() { ds.push(Donor { fns: v }); }
    }
    let cand: BTreeSet<String> = fns.iter().filter(|x| x.cand && !known.contains(&x.path)).map(|x| x.path.clone()).collect();
    if cand.is_empty() && ds.is_empty() { return none("nothing"); }
    let mut cur: Vec<Block> = fns.iter().map(|x| x.block.clone()).collect();
    let orig: Vec<String> = cur.iter().map(|b| b.to_token_stream().to_string()).collect();
    let (mut n, mut q, mut budget) = (0usize, 0usize, 400usize);
    let mut pairs: BTreeSet<(String, String)> = BTreeSet::new();
    let mut left: BTreeSet<String> = BTreeSet::new();
    for _ in 0..6 {
        let mut hs: BTreeMap<String, (Helper, Block)> = BTreeMap::new();
        let mut put = |x: &FnRec, b: &Block, here: bool, uses: &Vec<ItemUse>, hs: &mut BTreeMap<String, (Helper, Block)>| {
            // a function that calls itself stays a function
            let mut s = BTreeSet::new(); toks(b.to_token_stream(), &mut s);
            let opt = matches!(&x.sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if p.path.segments.last().unwrap().ident == "Option"));
            let mut c = Conv { n: q, fuel: 400, opt };
            let body = if s.contains(&x.sig.ident.to_string()) { Err(()) } else if esc_b(b) { c.block(b) } else { Ok(b.clone()) };
            q = c.n;
            let mut e = Escape(false, false);
            if let Ok(b) = &body { e.visit_block(b); }
            match body {
                Ok(b) if !e.1 && !esc_b(&b) => { hs.insert(x.path.clone(), (Helper { path: x.path.clone(), name: x.sig.ident.to_string(), owner: x.owner.clone(), sig: x.sig.clone(), block: b.clone(), uses: uses.clone(), here, public: x.public }, b)); }
                _ => { left.insert(x.path.clone()); }
            }
        };
        for (i, x) in fns.iter().enumerate() { if cand.contains(&x.path) { put(x, &cur[i], true, &vec![], &mut hs); } }
        for d in &ds { for x in &d.fns { if !hs.contains_key(&x.path) { put(x, &x.block, false, &x.uses, &mut hs); } } }
        let mut by: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (k, (h, _)) in &hs { by.entry(h.name.clone()).or_default().push(k.clone()); }
        // a name that a contract function or a trait method also carries is ambiguous as a method
        let mut any = false;
        for i in 0..fns.len() {
            let selfty = fns[i].owner.as_ref().and_then(|o| o.parse().ok());
            let mut v = Inl { hs: &hs, by: &by, own: Some(fns[i].path.clone()), selfty, done: Default::default(), n: &mut n, budget: &mut budget };
            v.visit_block_mut(&mut cur[i]);
            for d in v.done { pairs.insert((fns[i].path.clone(), d)); any = true; }
        }
        if !any { break; }
    }
    if pairs.is_empty() { let mut v = none("no calls").1; v["left"] = json!(left); return (src.to_string(), v); }
    // items whose every use is gone
    let inlined: BTreeSet<&String> = pairs.iter().map(|p| &p.1).collect();
    let mut still = BTreeSet::new();
    for (i, x) in fns.iter().enumerate() { if !(inlined.contains(&x.path) && cand.contains(&x.path)) { toks(cur[i].to_token_stream(), &mut still); } }
    for it in &f.items { if let Item::Const(c) = it { toks(c.expr.to_token_stream(), &mut still); } }
    let mut edits: Vec<(usize, usize, String)> = vec![];
    let mut gone = vec![];
    for (i, x) in fns.iter().enumerate() {
        if cand.contains(&x.path) && inlined.contains(&x.path) && !still.contains(&x.sig.ident.to_string()) { edits.push((x.item.0, x.item.1, String::new())); gone.push(x.path.clone()); continue; }
        if cur[i].to_token_stream().to_string() != orig[i] { edits.push((x.span.0, x.span.1, print(cur[i].to_token_stream()))); }
    }
    edits.sort();
    let (mut out, mut at) = (String::new(), 0);
    for (a, b, s) in edits { if a < at { continue; } out.push_str(&src[at..a]); out.push_str(&s); at = b; }
    out.push_str(&src[at..]);
    let into: BTreeSet<&String> = pairs.iter().map(|p| &p.0).filter(|p| !gone.contains(p)).collect();
    (out, json!({"into": into, "calls": pairs, "left": left, "gone": gone}))
}
