//! Assembling a unit: items named by the unit file, printed with their contracts.
use crate::contracts::{Contract, Contracts};
use crate::db::{type_name, Db};
use crate::rewrite::{keep_bound, kind_of_type, Ctx, Kind};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path as FsPath;
use syn::visit_mut::VisitMut;
use syn::*;

/// What the contract says for the end of the body goes before every early return too.
struct Returns { end: bool, ret: bool }
impl VisitMut for Returns {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            let (em, rm) = (quote::format_ident!("__VPEND"), quote::format_ident!("__VPRET"));
            match &r.expr {
                Some(x) if self.ret => *e = parse_quote!({ #em; let __ret = #x; #rm; return __ret; }),
                _ if self.end => { let r = r.clone(); *e = parse_quote!({ #em; #r; }); }
                _ => {}
            }
        }
    }
}

type Choices = BTreeMap<String, BTreeMap<String, String>>;

pub struct Em<'a> {
    db: &'a Db,
    con: &'a Contracts,
    mods: BTreeSet<String>,
    known: BTreeSet<String>,
    dropped: BTreeSet<String>,
    renames: BTreeMap<String, String>,
    substs: BTreeMap<String, String>,
    choices: &'a Choices,
    out: String,
    fns: Vec<serde_json::Value>,
    used: BTreeSet<String>,
    /// the const parameter of the impl at hand, whatever it is called
    cgen: Option<String>,
    self_ty: Option<String>,
    /// ask for a proof of false at the start of every body: none may be found
    vacuity: bool,
    /// methods of the traits of the unit
    tmethods: BTreeSet<(String, String)>,
    provided: BTreeSet<String>,
    float: bool,
    tryq: bool,
    /// functions whose contract another unit proves
    assume: bool,
    /// a lock, and the variable that keeps track of it
    lock: Option<String>,
}

fn join(v: Vec<TokenStream>) -> TokenStream { quote!(#(#v)*) }

/// Token printer: like TokenStream::to_string, with line breaks at braces and semicolons.
pub fn print(ts: &TokenStream) -> String {
    fn go(ts: TokenStream, out: &mut String, ind: usize) {
        let mut it = ts.into_iter().peekable();
        let mut joint = false;
        while let Some(t) = it.next() {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"), Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        out.push_str(" {\n");
                        out.push_str(&"  ".repeat(ind + 1));
                        go(g.stream(), out, ind + 1);
                        out.push('\n');
                        out.push_str(&"  ".repeat(ind));
                        out.push('}');
                        let nl = !matches!(it.peek(), Some(TokenTree::Punct(p)) if p.as_char() != '&' && p.as_char() != '*') && it.peek().is_some();
                        if nl { out.push('\n'); out.push_str(&"  ".repeat(ind)); } else { out.push(' '); }
                    } else {
                        out.push_str(a);
                        go(g.stream(), out, ind);
                        while out.ends_with(' ') { out.pop(); }
                        out.push_str(b);
                        out.push(' ');
                    }
                    joint = false;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if c == ';' {
                        while out.ends_with(' ') { out.pop(); }
                        out.push_str(";\n");
                        out.push_str(&"  ".repeat(ind));
                        joint = false;
                        continue;
                    }
                    if (c == '.' || c == ',' || c == '?') && !joint { while out.ends_with(' ') { out.pop(); } }
                    out.push(c);
                    if p.spacing() == Spacing::Alone {
                        if !(c == '.' && !joint) && c != '!' && c != '&' { out.push(' '); }
                        joint = false;
                    } else { joint = true; }
                }
                other => {
                    out.push_str(&other.to_string());
                    out.push(' ');
                    joint = false;
                }
            }
        }
    }
    let mut s = String::new();
    go(ts.clone(), &mut s, 0);
    s
}

fn word_replace(text: &str, map: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1; }
            let w: String = b[st..i].iter().collect();
            // a field or method name is not a variable
            let prev = if st > 0 { b[st - 1] } else { ' ' };
            match map.get(&w) { Some(x) if prev != '.' || (st > 1 && b[st - 2] == '.') => out.push_str(x), _ => out.push_str(&w) }
        } else { out.push(b[i]); i += 1; }
    }
    out
}

/// A line that starts with `?a/=b` is there only where the names a and b stand for different variables.
fn dollar(text: &str, vars: &BTreeMap<String, String>) -> String {
    let text: String = text.split_inclusive('\n').filter_map(|l| {
        let t = l.trim_start();
        let Some(r) = t.strip_prefix('?') else { return Some(l.to_string()) };
        let (cond, rest) = r.split_once(' ')?;
        let (a, b) = cond.split_once("/=")?;
        if vars.get(a) == vars.get(b) { None } else { Some(rest.to_string()) }
    }).collect();
    let text = text.as_str();
    let mut out = String::new();
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' && i + 1 < b.len() && b[i + 1].is_alphabetic() {
            let st = i + 1;
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1; }
            let w: String = b[st..i].iter().collect();
            out.push_str(vars.get(&w).map(|s| s.as_str()).unwrap_or("__vp_unbound"));
        } else { out.push(b[i]); i += 1; }
    }
    out
}

/// Ways of computing that need lemmas of their own: on the bits of a number, or by a table
fn unfamiliar(b: &Block) -> Vec<String> {
    const OPS: &[&str] = &["wrapping_shl", "wrapping_shr", "checked_shl", "checked_shr", "overflowing_shl", "overflowing_shr", "rotate_left", "rotate_right", "leading_zeros",
        "trailing_zeros", "count_ones", "to_be_bytes", "to_le_bytes", "from_be_bytes", "from_le_bytes", "ilog2", "ilog", "isqrt", "next_power_of_two", "swap_bytes", "reverse_bits"];
    struct U(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for U {
        fn visit_ident(&mut self, i: &'a Ident) { let s = i.to_string(); if OPS.contains(&&*s) { self.0.insert(s); } }
        fn visit_expr_array(&mut self, a: &'a ExprArray) { if a.elems.len() >= 4 { self.0.insert("a table".into()); } syn::visit::visit_expr_array(self, a); }
    }
    let mut u = U(BTreeSet::new());
    syn::visit::Visit::visit_block(&mut u, b);
    u.0.into_iter().collect()
}

impl<'a> Em<'a> {
    fn ctx<'b>(&'b self, c: Option<&'b Contract>) -> Ctx<'b> where 'a: 'b {
        Ctx {
            db: self.db, mods: &self.mods, known: &self.known, contract: c,
            float: self.float, tryq: self.tryq, lock: self.lock.clone(),
            hashmap: c.map_or(false, |c| c.sec.contains_key("hashmap")),
            loop_no: 0, closure_no: 0, ptrs: Default::default(), outers: Default::default(), kinds: Default::default(),
            fnrefs: Default::default(), loops: vec![], closures: vec![], closure_params: Default::default(), locals: vec![], inlined: vec![], depth: 0,
            dropped: self.dropped.clone(), renames: self.renames.clone(), substs: self.substs.clone(), collect_ty: None,
            self_ty: self.self_ty.clone(), cgen: self.cgen.clone(), opaque: Default::default(), loop_depth: 0, muts: Default::default(), carried: Default::default(), exits: 0,
        }
    }

    fn strip<T: ToTokens>(&self, mut f: impl FnMut(&mut Ctx), t: &T) -> TokenStream {
        let mut c = self.ctx(None);
        f(&mut c);
        t.to_token_stream()
    }

    fn generics(&self, g: &Generics) -> (TokenStream, TokenStream) {
        let mut g = g.clone();
        let mut c = self.ctx(None);
        c.visit_generics_mut(&mut g);
        for p in g.params.iter_mut() {
            match p {
                GenericParam::Type(t) => { t.attrs.clear(); t.default = None; if t.bounds.is_empty() { t.colon_token = None; } }
                GenericParam::Const(t) => { t.attrs.clear(); }
                GenericParam::Lifetime(t) => { t.attrs.clear(); }
            }
        }
        if let Some(w) = g.where_clause.as_mut() {
            let preds: Vec<WherePredicate> = w.predicates.iter().filter(|p| match p {
                WherePredicate::Type(t) => !t.bounds.is_empty(), _ => true }).cloned().collect();
            w.predicates = preds.into_iter().collect();
        }
        let w = g.where_clause.clone().filter(|w| !w.predicates.is_empty());
        let wt = quote!(#w);
        g.where_clause = None;
        (quote!(#g), wt)
    }

    fn ty(&self, t: &Type) -> TokenStream {
        let mut t = t.clone();
        self.ctx(None).visit_type_mut(&mut t);
        t.to_token_stream()
    }

    fn function(&mut self, sig: &Signature, block: Option<&Block>, key: &str, alt: Option<&str>, public: bool) -> std::result::Result<String, String> {
        let con = self.con;
        let c: Option<&Contract> = con.map.get(key).or_else(|| alt.and_then(|a| con.map.get(a)));
        if let Some(c) = c { self.used.insert(c.key.clone()); }
        // positional names of the parameters
        let mut names: Vec<String> = vec![];
        let mut sigc = sig.clone();
        let mut ctx = self.ctx(c);
        let mut params: Vec<TokenStream> = vec![];
        let mut extra: Vec<GenericParam> = vec![];
        for p in sigc.inputs.iter_mut() {
            match p {
                FnArg::Receiver(r) => {
                    r.attrs.clear();
                    params.push(r.to_token_stream());
                }
                FnArg::Typed(t) => {
                    t.attrs.clear();
                    if let Pat::Wild(_) = &*t.pat { let i = quote::format_ident!("__p{}", names.len()); *t.pat = parse_quote!(#i); }
                    let n = match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => "_".into() };
                    match type_name(&t.ty).as_str() { "Option" => { ctx.outers.insert(n.clone(), "Option"); } "Result" => { ctx.outers.insert(n.clone(), "Result"); } _ => {} }
                    let k = kind_of_type(&t.ty);
                    if k != Kind::Other { ctx.kinds.insert(n.clone(), k); }
                    if t.ty.to_token_stream().to_string().contains("IntoIterator") { ctx.kinds.insert(n.clone(), Kind::Owned); }
                    if let Type::Reference(r) = &*t.ty {
                        let s = r.elem.to_token_stream().to_string();
                        if r.mutability.is_some() && (s.contains("FnMut") || s.contains("Fn (")) { ctx.fnrefs.insert(n.clone()); }
                    }
                    names.push(n);
                    ctx.visit_type_mut(&mut t.ty);
                    // `impl Trait` in argument position is a type parameter; it gets a name, the same in a trait and its impls
                    if let Type::ImplTrait(i) = (*t.ty).clone() {
                        // `impl BorrowMut<X>` is taken at `&mut X`, the one instance whose effect a caller can see
                        if let Some(TypeParamBound::Trait(b)) = i.bounds.first() {
                            let l = b.path.segments.last().unwrap();
                            if l.ident == "BorrowMut" {
                                if let PathArguments::AngleBracketed(a) = &l.arguments {
                                    let x = a.args.first().unwrap().clone();
                                    *t.ty = parse_quote!(&mut #x);
                                    if let Pat::Ident(p) = &mut *t.pat { p.mutability = None; }
                                }
                            }
                        }
                    }
                    if let Type::ImplTrait(i) = (*t.ty).clone() {
                        let g = quote::format_ident!("VpI{}", names.len());
                        let b = &i.bounds;
                        extra.push(parse_quote!(#g: #b));
                        *t.ty = parse_quote!(#g);
                    }
                    params.push(t.to_token_stream());
                }
            }
        }
        let mut pm = BTreeMap::new();
        if let Some(c) = c {
            if !c.params.is_empty() && c.params.len() != names.len() {
                return Err(format!("{key}: parameters changed"));
            }
            for (a, b) in c.params.iter().zip(names.iter()) { if a != b { pm.insert(a.clone(), b.clone()); } }
        }
        if let Some(g) = &self.cgen { for a in ["NLetters", "NLETTERS"] { if g != a { pm.insert(a.to_string(), g.clone()); } } }
        let block = if self.assume { None } else { block };
        let body = block.map(|b| { let mut b = b.clone(); if let Some(l) = &ctx.lock { b = crate::locks::body(b, l); } ctx.visit_block_mut(&mut b); b });
        for e in extra { sigc.generics.params.push(e); }
        let (g, w) = self.generics(&sigc.generics);
        let ret_name = c.and_then(|c| c.ret.clone()).unwrap_or("r".into());
        let ret = match &sigc.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                let mut t = (**t).clone();
                ctx.visit_type_mut(&mut t);
                format!("-> ({ret_name}: {})", print(&t.to_token_stream()).trim())
            }
        };
        let mut vars: BTreeMap<String, String> = BTreeMap::new();
        let mut missing: Vec<String> = vec![];
        let ch = self.choices.get(key);
        if let Some(c) = c {
            for (k, v) in &c.vars {
                let chosen = ch.and_then(|m| m.get(k)).cloned().unwrap_or(v.clone());
                let base = chosen.split('.').next().unwrap().to_string();
                if !ctx.locals.contains(&base) && !names.contains(&base) && base != "self" && !base.starts_with("__v") {
                    missing.push(k.clone());
                }
                vars.insert(k.clone(), chosen);
            }
        }
        let fix = |t: &str| -> String { word_replace(&dollar(t, &vars), &pm) };
        let sec = |name: &str| -> String { c.and_then(|c| c.sec.get(name)).map(|t| fix(t)).unwrap_or_default() };
        let mut s = String::new();
        s.push_str(&format!("//@BEGIN {key}\n"));
        s.push_str(&sec("attr"));
        if self.assume { s.push_str("#[verifier::external_body]\n"); }
        let fname = self.renames.get(&sigc.ident.to_string()).cloned().unwrap_or(sigc.ident.to_string());
        let ps = join(params.iter().map(|p| quote!(#p,)).collect());
        s.push_str(&format!("{}fn {fname}{}({}) {ret} {}\n",
            if public { "pub " } else { "" }, print(&g), print(&ps).trim(), print(&w)));
        for part in ["requires", "ensures", "decreases"] {
            let t = sec(part);
            if !t.trim().is_empty() { s.push_str(&format!("  {part}\n{t}")); if !t.trim_end().ends_with(',') { s.push_str("    ,\n"); } }
        }
        let mut loops_missing: Vec<usize> = vec![];
        let bits: Vec<String> = body.as_ref().map_or(vec![], |b| unfamiliar(b));
        if let Some(b) = body {
            let mut b = b.clone();
            Returns { end: !sec("end").trim().is_empty(), ret: !sec("ret").trim().is_empty() }.visit_block_mut(&mut b);
            let b = &b;
            let mut toks = TokenStream::new();
            let n = b.stmts.len();
            let unit = matches!(sigc.output, ReturnType::Default);
            let has_tail = matches!(b.stmts.last(), Some(Stmt::Expr(_, None))) && !unit;
            for (i, st) in b.stmts.iter().enumerate() {
                if i + 1 == n && has_tail {
                    let endm = quote::format_ident!("__VPEND");
                    toks.extend(quote!(#endm;));
                    let rs = sec("ret");
                    if !rs.trim().is_empty() {
                        let rm = quote::format_ident!("__VPRET");
                        if let Stmt::Expr(e, None) = st { toks.extend(quote!(let __ret = #e; #rm; __ret)); continue; }
                    }
                }
                st.to_tokens(&mut toks);
                if i + 1 == n && unit && matches!(st, Stmt::Expr(_, None)) { toks.extend(quote!(;)); }
            }
            if !has_tail { let endm = quote::format_ident!("__VPEND"); toks.extend(quote!(#endm;)); }
            let mut t = print(&toks);
            // splice the contract's texts into the markers
            for (m, name) in [("__VPEND", "end"), ("__VPRET", "ret")] {
                let x = sec(name);
                t = t.replace(&format!("{m};"), &x);
            }
            for l in (0..ctx.loop_no).rev() {
                let inv = sec(&format!("loop {l} invariant"));
                let enss = sec(&format!("loop {l} ensures"));
                let exc = sec(&format!("loop {l} invariant_except_break"));
                let dec = sec(&format!("loop {l} decreases"));
                if inv.trim().is_empty() && dec.trim().is_empty() { loops_missing.push(l); }
                let mut it = String::new();
                if !exc.trim().is_empty() { it.push_str(&format!("\n  invariant_except_break\n{exc}")); }
                if !inv.trim().is_empty() { it.push_str(&format!("\n  invariant\n{inv}")); }
                if !enss.trim().is_empty() { it.push_str(&format!("\n  ensures\n{enss}")); }
                if !dec.trim().is_empty() { it.push_str(&format!("\n  decreases\n{dec}")); }
                t = t.replace(&format!("__VPINV_{l} "), &it);
                t = t.replace(&format!("__VPINV_{l}"), &it);
                if self.vacuity { t = t.replace(&format!("__VPBS_{l};"), &format!("\nassert(false); // vp_vacuity\n__VPBS_{l};")); }
                for (m, name) in [("BS", "body_start"), ("BE", "body_end"), ("AF", "after"), ("BF", "before")] {
                    t = t.replace(&format!("__VP{m}_{l};"), &sec(&format!("loop {l} {name}")));
                }
            }
            for k in (0..ctx.closure_no).rev() {
                let x = word_replace(&sec(&format!("closure {k}")), &ctx.closure_params);
                t = t.replace(&format!("__VPCL_{k}"), &x);
                let tys = sec(&format!("closure {k} types"));
                let tys: Vec<&str> = tys.split(';').map(|s| s.trim()).collect();
                for j in 0..6 {
                    let ty = tys.get(j).filter(|s| !s.is_empty()).map(|s| format!(": {s}")).unwrap_or_default();
                    t = t.replace(&format!("__VPCT_{k}_{j}"), &ty);
                }
            }
            s.push_str("{\n");
            s.push_str(&sec("start"));
            if self.vacuity { s.push_str("assert(false); // vp_vacuity\n"); }
            s.push_str(&t);
            s.push_str("\n}\n");
        } else if self.assume {
            s.push_str("{ unimplemented!() }\n");
        } else {
            s.push_str(";\n");
        }
        s.push_str(&format!("//@END {key}\n"));
        let want_loops = c.filter(|_| !self.assume).map_or(0, |c| {
            let mut m = 0;
            for k in c.sec.keys() {
                if let Some(r) = k.strip_prefix("loop ") {
                    let x: usize = r.split(' ').next().unwrap().parse().unwrap();
                    m = m.max(x + 1);
                }
            }
            m
        });
        let kinds: Vec<serde_json::Value> = ctx.loops.iter().map(|l| json!({"n": l.n, "kind": l.kind, "text": l.text})).collect();
        let opaque: Vec<String> = ctx.opaque.iter().cloned().collect();
        let (locals, inlined, closures) = (ctx.locals.clone(), ctx.inlined.clone(), ctx.closures.len());
        let want_cl = c.filter(|_| !self.assume).map_or(0, |c| c.sec.keys().filter(|k| k.starts_with("closure ") && !k.ends_with("types")).count());
        let loop_no = ctx.loop_no;
        let (carried, exits) = (ctx.carried.clone(), ctx.exits);
        drop(ctx);
        self.fns.push(json!({
            "key": key, "has_body": block.is_some(), "has_contract": c.is_some(),
            "loops": kinds, "loops_expected": want_loops, "loops_found": loop_no,
            "loops_without_invariant": loops_missing, "locals": locals, "params": names,
            "unbound": missing, "inlined": inlined, "opaque": opaque,
            "closures": closures, "closures_expected": want_cl, "carried": carried, "exits": exits, "unfamiliar": bits,
            "vars": c.map(|c| c.vars.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()).unwrap_or_default(),
        }));
        Ok(s)
    }

    fn find_trait(&self, name: &str) -> std::result::Result<ItemTrait, String> {
        let v: Vec<_> = self.db.traits.iter().filter(|t| t.ident == name).collect();
        if v.len() != 1 { return Err(format!("trait {name}: {} found", v.len())); }
        Ok(v[0].clone())
    }

    fn find_timpl(&self, tr: &str, ty: &str) -> std::result::Result<ItemImpl, String> {
        let v: Vec<_> = self.db.impls.iter().filter(|i| {
            i.trait_.as_ref().map_or(false, |(_, p, _)| p.segments.last().unwrap().ident == tr) && type_name(&i.self_ty) == ty
        }).collect();
        if v.len() != 1 { return Err(format!("impl {tr} for {ty}: {} found", v.len())); }
        Ok(v[0].clone())
    }

    fn find_inherent(&self, ty: &str, f: &str) -> std::result::Result<(ItemImpl, ImplItemFn), String> {
        let mut v = vec![];
        for i in &self.db.impls {
            if i.trait_.is_none() && type_name(&i.self_ty) == ty {
                for it in &i.items { if let ImplItem::Fn(x) = it { if x.sig.ident == f { v.push((i.clone(), x.clone())); } } }
            }
        }
        if v.len() != 1 { return Err(format!("{ty}::{f}: {} found", v.len())); }
        Ok(v.pop().unwrap())
    }

    fn members(&mut self, key: &str, what: &str) -> String {
        if let Some(c) = self.con.map.get(key) {
            self.used.insert(key.to_string());
            let t = c.sec.get(what).cloned().unwrap_or_default();
            let mut pm = BTreeMap::new();
            if let Some(g) = &self.cgen { for a in ["NLetters", "NLETTERS"] { pm.insert(a.to_string(), g.clone()); } }
            return word_replace(&t, &pm);
        }
        String::new()
    }

    fn strukt(&mut self, name: &str) -> std::result::Result<(), String> {
        let attrs = self.members(&format!("struct {name}"), "attr");
        if let Some(st) = self.db.structs.iter().find(|s| s.ident == name) {
            let (g, w) = self.generics(&st.generics);
            let nm = &st.ident;
            let fields = match &st.fields {
                Fields::Named(f) => { let v: Vec<_> = f.named.iter().map(|f| { let (i, t) = (&f.ident, self.ty(&f.ty)); quote!(pub #i: #t,) }).collect(); let v = join(v); quote!(#w { #v }) }
                Fields::Unnamed(f) => { let v: Vec<_> = f.unnamed.iter().map(|f| { let t = self.ty(&f.ty); quote!(pub #t,) }).collect(); let v = join(v); quote!((#v) #w;) }
                Fields::Unit => quote!(#w;),
            };
            self.out.push_str(&format!("{attrs}{}\n", print(&quote!(pub struct #nm #g #fields))));
            return Ok(());
        }
        if let Some(en) = self.db.enums.iter().find(|s| s.ident == name) {
            let (g, w) = self.generics(&en.generics);
            let nm = &en.ident;
            let vars: Vec<_> = en.variants.iter().map(|v| {
                let i = &v.ident;
                match &v.fields {
                    Fields::Named(f) => { let v: Vec<_> = f.named.iter().map(|f| { let (i, t) = (&f.ident, self.ty(&f.ty)); quote!(#i: #t,) }).collect(); let v = join(v); quote!(#i { #v },) }
                    Fields::Unnamed(f) => { let v: Vec<_> = f.unnamed.iter().map(|f| { let t = self.ty(&f.ty); quote!(#t,) }).collect(); let v = join(v); quote!(#i (#v),) }
                    Fields::Unit => quote!(#i,),
                }
            }).collect();
            let vars = join(vars);
            self.out.push_str(&format!("{attrs}{}\n", print(&quote!(pub enum #nm #g #w { #vars }))));
            return Ok(());
        }
        Err(format!("type {name} not found"))
    }

    /// Derived Clone and PartialEq, field by field, as the compiler derives them
    fn derives(&mut self, name: &str) -> std::result::Result<(), String> {
        let st = self.db.structs.iter().find(|s| s.ident == name).ok_or(format!("struct {name} not found"))?.clone();
        self.cgen = const_param(&st.generics);
        let mut ds: BTreeSet<String> = BTreeSet::new();
        for a in &st.attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| { ds.insert(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
            }
        }
        let (g, w) = self.generics(&st.generics);
        let (_, tg, _) = st.generics.split_for_impl();
        let fields: Vec<TokenStream> = match &st.fields {
            Fields::Named(f) => f.named.iter().map(|f| f.ident.to_token_stream()).collect(),
            Fields::Unnamed(f) => (0..f.unnamed.len()).map(|i| Index::from(i).to_token_stream()).collect(),
            Fields::Unit => vec![],
        };
        for d in ["Clone", "PartialEq"] {
            self.cgen = const_param(&st.generics);
            if ds.contains(d) {
                let nm = &st.ident;
                let key = format!("derived {d} for {name}");
                let body = if d == "Clone" {
                    let v: Vec<_> = fields.iter().map(|f| quote!(#f: self.#f.clone(),)).collect();
                    let v = join(v);
                    quote!({ #nm { #v } })
                } else {
                    let v: Vec<_> = fields.iter().map(|f| quote!(&& self.#f == other.#f)).collect();
                    let v = join(v);
                    quote!({ true #v })
                };
                let sig = if d == "Clone" { "fn clone(&self) -> (r: Self)\n ensures r == *self\n" } else { "fn eq(&self, other: &Self) -> (r: bool)\n" };
                let extra = self.members(&format!("derive {d} for {name}"), "extra");
                let mem = self.members(&format!("derive {d} for {name}"), "members");
                self.out.push_str(&format!("{extra}impl{} {d} for {name}{} {} {{\n{mem}//@BEGIN {key}\n{sig}{}\n//@END {key}\n}}\n",
                    print(&g), print(&tg.to_token_stream()), print(&w), print(&body)));
                self.fns.push(json!({"key": key, "has_body": true, "has_contract": true, "loops": [], "loops_expected": 0, "loops_found": 0,
                    "loops_without_invariant": [], "locals": [], "params": [], "unbound": [], "inlined": [], "closures": 0, "closures_expected": 0, "vars": []}));
            } else {
                let f = if d == "Clone" { "clone" } else { "eq" };
                if let Err(e) = self.find_timpl(d, name) { if e.ends_with(": 0 found") { continue; } }
                self.cgen = const_param(&self.find_timpl(d, name)?.generics);
                let extra = self.members(&format!("derive {d} for {name}"), "extra");
                self.out.push_str(&extra);
                self.timpl(d, name, &[f.to_string()])?;
            }
        }
        Ok(())
    }

    fn timpl(&mut self, trv: &str, ty: &str, fns: &[String]) -> std::result::Result<(), String> {
        // "Trait/variant": the variant selects the members given by the contract files
        let tr = trv.split('/').next().unwrap();
        let im = self.find_timpl(tr, ty)?;
        self.cgen = const_param(&im.generics);
        self.self_ty = Some(ty.to_string());
        let (g, w) = self.generics(&im.generics);
        let mut path = im.trait_.as_ref().unwrap().1.clone();
        self.ctx(None).visit_path_mut(&mut path);
        let st = self.ty(&im.self_ty);
        let mut body = self.members(&format!("impl {trv} for {ty}"), "members");
        let omit = self.members(&format!("impl {trv} for {ty}"), "omit");
        for it in &im.items {
            match it {
                ImplItem::Type(t) => {
                    if omit.split_whitespace().any(|o| t.ident == o) { continue; }
                    let (i, x) = (&t.ident, self.ty(&t.ty));
                    let (gg, ww) = self.generics(&t.generics);
                    body.push_str(&print(&quote!(type #i #gg = #x #ww;)));
                }
                ImplItem::Const(t) => {
                    if omit.split_whitespace().any(|o| t.ident == o) { continue; }
                    let (i, x) = (&t.ident, self.ty(&t.ty));
                    let mut e = t.expr.clone();
                    self.ctx(None).visit_expr_mut(&mut e);
                    if self.float {
                        // the verifier wants the value of such a constant in a constant of its own
                        let n = quote::format_ident!("VP_{}_{}", ty, i);
                        self.out.push_str(&print(&quote!(pub const #n: #x = #e;)));
                        body.push_str(&print(&quote!(const #i: #x = #n;)));
                        continue;
                    }
                    body.push_str(&print(&quote!(const #i: #x = #e;)));
                }
                _ => {}
            }
        }
        let mut seen = BTreeSet::new();
        for it in &im.items {
            if let ImplItem::Fn(f) = it {
                let n = f.sig.ident.to_string();
                if fns.iter().any(|x| x == &n || x == "*" || x.trim_start_matches('?') == n) {
                    seen.insert(n.clone());
                    body.push_str(&self.function(&f.sig, Some(&f.block), &format!("{tr} for {ty}::{n}"), None, false)?);
                }
            }
        }
        // a method that the trait provides, given by the implementation, of a trait that is not the crate's
        if !self.db.traits.iter().any(|t| t.ident == tr) {
            for it in &im.items {
                if let ImplItem::Fn(f) = it {
                    if !seen.contains(&f.sig.ident.to_string()) { self.provided.insert(format!("{tr} for {ty}::{}", f.sig.ident)); }
                }
            }
        }
        for f in fns {
            if f != "*" && !f.starts_with('?') && !seen.contains(f) { return Err(format!("{tr} for {ty}::{f} not found")); }
        }
        self.out.push_str(&format!("impl{} {} for {} {} {{\n{body}}}\n", print(&g), print(&path.to_token_stream()), print(&st), print(&w)));
        Ok(())
    }

    fn tr(&mut self, namev: &str, fns: &[String]) -> std::result::Result<(), String> {
        let name = namev.split('/').next().unwrap();
        let t = self.find_trait(name)?;
        self.cgen = None;
        self.self_ty = None;
        let (g, w) = self.generics(&t.generics);
        let mut sup: punctuated::Punctuated<TypeParamBound, Token![+]> =
            t.supertraits.iter().filter(|b| keep_bound(b, &self.dropped)).cloned().collect();
        { let mut c = self.ctx(None); for b in sup.iter_mut() { c.visit_type_param_bound_mut(b); } }
        let mut body = self.members(&format!("trait {namev}"), "members");
        let omit = self.members(&format!("trait {namev}"), "omit");
        sup = sup.into_iter().filter(|b| !matches!(b, TypeParamBound::Trait(t) if omit.split_whitespace().any(|o| t.path.segments.last().unwrap().ident == o))).collect();
        for it in &t.items {
            match it {
                TraitItem::Type(x) => {
                    if omit.split_whitespace().any(|o| x.ident == o) { continue; }
                    let mut x = x.clone();
                    x.attrs.clear();
                    x.bounds = x.bounds.iter().filter(|b| keep_bound(b, &self.dropped)).cloned().collect();
                    if x.bounds.is_empty() { x.colon_token = None; }
                    self.ctx(None).visit_trait_item_type_mut(&mut x);
                    body.push_str(&print(&x.to_token_stream()));
                }
                TraitItem::Const(x) => {
                    if omit.split_whitespace().any(|o| x.ident == o) { continue; }
                    body.push_str(&print(&x.to_token_stream()));
                }
                _ => {}
            }
        }
        let mut seen = BTreeSet::new();
        for it in &t.items {
            if let TraitItem::Fn(f) = it {
                let n = f.sig.ident.to_string();
                if fns.iter().any(|x| x == &n || x == "*" || x.trim_start_matches('?') == n) {
                    seen.insert(n.clone());
                    self.tmethods.insert((name.to_string(), n.clone()));
                    body.push_str(&self.function(&f.sig, f.default.as_ref(), &(if self.con.map.contains_key(&format!("{namev}::{n}")) { format!("{namev}::{n}") } else { format!("{name}::{n}") }), None, false)?);
                }
            }
        }
        for f in fns {
            if f != "*" && !f.starts_with('?') && !seen.contains(f) { return Err(format!("{name}::{f} not found")); }
        }
        let nm = &t.ident;
        // a bound that the trait has by other means (a supertrait given up, a trait used as a bound only)
        for b in self.members(&format!("trait {namev}"), "super").split_whitespace() {
            if let Ok(b) = syn::parse_str::<TypeParamBound>(b) { sup.push(b); }
        }
        let colon = if sup.is_empty() { quote!() } else { quote!(: #sup) };
        self.out.push_str(&format!("pub trait {} {{\n{body}}}\n", print(&quote!(#nm #g #colon #w))));
        Ok(())
    }
}

fn const_param(g: &Generics) -> Option<String> {
    g.params.iter().find_map(|p| if let GenericParam::Const(c) = p { Some(c.ident.to_string()) } else { None })
}

fn mods_of(repo_db: &Db) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for (f, _) in &repo_db.files {
        let p = FsPath::new(f);
        for c in p.components() { s.insert(c.as_os_str().to_string_lossy().replace(".rs", "")); }
    }
    for x in ["src", "repo", "lib", "mod", "/", "tmp"] { s.remove(x); }
    for x in ["compute", "tensor_mul_impl"] { s.insert(x.into()); }
    s
}

pub fn emit_unit(db: &Db, con: &Contracts, cdir: &FsPath, unit: &str, choices: &Choices, vacuity: bool)
    -> std::result::Result<(String, serde_json::Value), String> {
    // units may include other units
    fn read(cdir: &FsPath, unit: &str, out: &mut Vec<String>, seen: &mut BTreeSet<String>) -> std::result::Result<(), String> {
        if !seen.insert(unit.to_string()) { return Ok(()); }
        let t = std::fs::read_to_string(cdir.join(format!("{unit}.unit"))).map_err(|e| format!("{unit}.unit: {e}"))?;
        for l in t.lines() {
            if let Some(u) = l.strip_prefix("@unit ") { read(cdir, u.trim(), out, seen)?; } else { out.push(l.to_string()); }
        }
        Ok(())
    }
    let mut lines = vec![];
    read(cdir, unit, &mut lines, &mut BTreeSet::new())?;
    let mut em = Em {
        db, con, mods: mods_of(db), known: BTreeSet::new(), dropped: BTreeSet::new(), renames: BTreeMap::new(), substs: BTreeMap::new(), choices,
        out: String::new(), fns: vec![], used: BTreeSet::new(), cgen: None, self_ty: None, vacuity, tmethods: BTreeSet::new(), provided: BTreeSet::new(), float: false, tryq: false, assume: false, lock: None,
    };
    // names under contract in this unit: all others that the crate defines may be inlined
    for l in &lines {
        if let Some(rest) = l.strip_prefix('@') {
            let (cmd, r) = rest.split_once(' ').unwrap_or((rest, ""));
            match cmd {
                "fn" => for f in r.split_whitespace() { em.known.insert(f.trim_start_matches('?').to_string()); },
                "impl" | "assume" | "trait" | "timpl" => {
                    if let Some((h, fs)) = r.split_once(" : ") {
                        for f in fs.split_whitespace() { em.known.insert(f.trim_start_matches('?').to_string()); }
                        if fs.trim() == "*" {
                            let h = h.trim();
                            if let Ok(t) = em.find_trait(h) { for it in &t.items { if let TraitItem::Fn(f) = it { em.known.insert(f.sig.ident.to_string()); } } }
                        }
                    }
                }
                "known" => for f in r.split_whitespace() { em.known.insert(f.to_string()); },
                // a method of the standard library gets its contract from a wrapper around it
                "rename" => { let v: Vec<&str> = r.split_whitespace().collect(); em.renames.insert(v[0].into(), v[1].into()); }
                "subst" => { if let Some((a, b)) = r.split_once("=>") {
                    let a = syn::parse_str::<Type>(a.trim()).map_err(|e| format!("@subst {r}: {e}"))?;
                    em.substs.insert(crate::rewrite::type_text(&a), b.trim().to_string());
                } }
                "float" => em.float = true,
                "try" => em.tryq = true,
                "lock" => em.lock = Some(r.trim().to_string()),
                "drop" => for f in r.split_whitespace() { em.dropped.insert(f.to_string()); },
                _ => {}
            }
        }
    }
    let mut verb = false;
    for l in &lines {
        if verb { if l.trim() == "@end" { verb = false; } else { em.out.push_str(l); em.out.push('\n'); } continue; }
        let Some(rest) = l.strip_prefix('@') else { continue };
        let (cmd, r) = rest.split_once(' ').unwrap_or((rest, ""));
        let r = r.trim();
        let split = |r: &str| -> (String, Vec<String>) {
            let (h, f) = r.split_once(" : ").map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((r.trim_end_matches(':').to_string(), String::new()));
            (h.trim().to_string(), f.split_whitespace().map(|s| s.to_string()).collect())
        };
        match cmd {
            "verbatim" => verb = true,
            "raw" => {
                let t = std::fs::read_to_string(cdir.join(r)).map_err(|e| format!("{r}: {e}"))?;
                em.out.push_str(&format!("//@RAW {r}\n{t}\n"));
            }
            // a file of specifications and lemmas, in a module of its own: the verifier works on modules in parallel
            "mod" => {
                let t = std::fs::read_to_string(cdir.join(r)).map_err(|e| format!("{r}: {e}"))?;
                let m = r.trim_end_matches(".rs");
                em.out.push_str(&format!("//@RAW {r}\npub mod m_{m} {{ use super::*;\n{t}\n}}\npub use m_{m}::*;\n//@RAWEND\n"));
            }
            "type" => for n in r.split_whitespace() {
                let t = db.types.iter().find(|t| t.ident == n).ok_or(format!("type {n} not found"))?;
                let (i, x) = (&t.ident, em.ty(&t.ty));
                let (g, _) = em.generics(&t.generics);
                em.out.push_str(&format!("{}\n", print(&quote!(pub type #i #g = #x;))));
            },
            "const" => for n in r.split_whitespace() {
                let t = db.consts.iter().find(|t| t.ident == n).ok_or(format!("const {n} not found"))?;
                let (i, x) = (&t.ident, em.ty(&t.ty));
                let mut e = t.expr.clone();
                em.ctx(None).visit_expr_mut(&mut e);
                em.out.push_str(&format!("{}\n", print(&quote!(pub const #i: #x = #e;))));
            },
            "struct" => for n in r.split_whitespace() { em.strukt(n)?; },
            "derives" => for n in r.split_whitespace() { em.derives(n)?; },
            "fn" => for n in r.split_whitespace() {
                let (opt, n) = match n.strip_prefix('?') { Some(x) => (true, x), None => (false, n) };
                let v: Vec<_> = db.fns.iter().filter(|f| f.sig.ident == n).collect();
                if v.is_empty() && opt { continue; }
                if v.len() != 1 { return Err(format!("fn {n}: {} found", v.len())); }
                em.cgen = const_param(&v[0].sig.generics);
                em.self_ty = None;
                let t = em.function(&v[0].sig, Some(&v[0].block), n, None, true)?;
                em.out.push_str(&t);
            },
            // "assume": the contract without the body; another unit proves it
            "impl" | "assume" => {
                em.assume = cmd == "assume";
                let (ty, fns) = split(r);
                for f in fns {
                    let (opt, f) = match f.strip_prefix('?') { Some(x) => (true, x.to_string()), None => (false, f) };
                    let (im, x) = match em.find_inherent(&ty, &f) { Ok(x) => x, Err(e) => if opt { continue } else { return Err(e) } };
                    em.cgen = const_param(&im.generics);
                    em.self_ty = Some(ty.clone());
                    let (g, w) = em.generics(&im.generics);
                    let st = em.ty(&im.self_ty);
                    let t = em.function(&x.sig, Some(&x.block), &format!("{ty}::{f}"), None, true)?;
                    em.out.push_str(&format!("impl{} {} {} {{\n{t}}}\n", print(&g), print(&st), print(&w)));
                }
                em.assume = false;
            }
            "trait" => { let (n, f) = split(r); em.tr(&n, &f)?; }
            "timpl" => {
                let (h, f) = split(r);
                let (tr, ty) = h.split_once(" for ").ok_or("timpl")?;
                em.timpl(tr.trim(), ty.trim(), &f)?;
            }
            "known" | "drop" | "rename" | "subst" | "try" | "lock" | "float" | "end" => {}
            _ => return Err(format!("unknown directive @{cmd}")),
        }
    }
    // constants of the crate that the extracted code uses
    let mut have: BTreeSet<String> = lines.iter().filter_map(|l| l.strip_prefix("@const ")).flat_map(|r| r.split_whitespace().map(|s| s.to_string())).collect();
    loop {
        let words: BTreeSet<String> = em.out.split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|s| s.to_string()).collect();
        let Some(t) = db.consts.iter().find(|t| words.contains(&t.ident.to_string()) && !have.contains(&t.ident.to_string())) else { break };
        have.insert(t.ident.to_string());
        let (i, x) = (&t.ident, em.ty(&t.ty));
        let mut e = t.expr.clone();
        em.ctx(None).visit_expr_mut(&mut e);
        em.out.push_str(&format!("verus! {{\n{}\n}}\n", print(&quote!(pub const #i: #x = #e;))));
    }
    // implementations of the unit's trait methods, and inherent functions that hide them, that the unit leaves out
    let emitted: BTreeSet<String> = em.fns.iter().filter_map(|f| f["key"].as_str().map(|s| s.to_string())).collect();
    let mut others: BTreeSet<String> = BTreeSet::new();
    for i in &db.impls {
        let ty = type_name(&i.self_ty);
        let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        for it in &i.items {
            if let ImplItem::Fn(f) = it {
                let n = f.sig.ident.to_string();
                let key = match &tr { Some(t) => format!("{t} for {ty}::{n}"), None => format!("{ty}::{n}") };
                let hit = match &tr { Some(t) => em.tmethods.contains(&(t.clone(), n.clone())), None => em.tmethods.iter().any(|(_, m)| *m == n) };
                if hit && !emitted.contains(&key) { others.insert(key); }
            }
        }
    }
    others.extend(em.provided.iter().cloned());
    others.extend(db.odd.iter().cloned());
    // the lock's first content and its other users
    if let Some(l) = &em.lock {
        let empty = |e: &Expr| {
            let s: String = e.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
            let s = s.replace("std::collections::", "").replace("std::sync::", "").replace("::<DegreeType,HallSetObject>", "");
            let inner = s.strip_prefix("RwLock::new(").and_then(|x| x.strip_suffix(")")).map(|x| x.to_string());
            let cap = |x: &str| x.strip_prefix("HashMap::with_capacity(").and_then(|y| y.strip_suffix(")")).map_or(false, |y| y.chars().all(|c| c.is_alphanumeric() || c == '_'));
            matches!(&*s, "Default::default()" | "RwLock::default()")
                || inner.map_or(false, |x| matches!(&*x, "HashMap::new()" | "HashMap::default()" | "Default::default()") || cap(&x))
        };
        if !db.statics.iter().any(|(n, e)| n == l && empty(e)) { others.insert(format!("what {l} holds at first")); }
        let inlined: BTreeSet<String> = em.fns.iter().flat_map(|f| f["inlined"].as_array().cloned().unwrap_or_default()).filter_map(|x| x.as_str().map(|s| s.to_string())).collect();
        let mut see = |key: String, name: String, t: TokenStream| {
            if crate::locks::mentions(&t, l) && !emitted.contains(&key) && !inlined.contains(&name) { others.insert(format!("{key} uses {l}")); }
        };
        for f in &db.fns { see(f.sig.ident.to_string(), f.sig.ident.to_string(), f.block.to_token_stream()); }
        for i in &db.impls {
            let ty = type_name(&i.self_ty);
            for it in &i.items { match it {
                ImplItem::Fn(f) => see(format!("{ty}::{}", f.sig.ident), f.sig.ident.to_string(), f.block.to_token_stream()),
                x => see(ty.clone(), String::new(), x.to_token_stream()),
            } }
        }
        for t in &db.traits { see(t.ident.to_string(), String::new(), t.to_token_stream()); }
    }
    // where the crate leaves the compiler's checks
    struct Us(bool);
    impl<'a> syn::visit::Visit<'a> for Us {
        fn visit_expr_unsafe(&mut self, _: &'a ExprUnsafe) { self.0 = true; }
    }
    let has = |s: &Signature, b: Option<&Block>| {
        let mut u = Us(s.unsafety.is_some());
        if let Some(b) = b { syn::visit::Visit::visit_block(&mut u, b); }
        u.0
    };
    let mut sites: BTreeSet<String> = BTreeSet::new();
    for f in &db.fns { if has(&f.sig, Some(&f.block)) { sites.insert(f.sig.ident.to_string()); } }
    for t in &db.traits {
        for it in &t.items { if let TraitItem::Fn(f) = it { if has(&f.sig, f.default.as_ref()) { sites.insert(format!("{}::{}", t.ident, f.sig.ident)); } } }
    }
    for i in &db.impls {
        let ty = type_name(&i.self_ty);
        let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        for it in &i.items {
            if let ImplItem::Fn(f) = it {
                let n = f.sig.ident.to_string();
                if has(&f.sig, Some(&f.block)) { sites.insert(match &tr { Some(t) => format!("{t} for {ty}::{n}"), None => format!("{ty}::{n}") }); }
            }
        }
    }
    let rep = json!({ "unit": unit, "unsafe": sites, "others": others, "functions": em.fns, "files": db.files });
    Ok((em.out, rep))
}
