//! Rewriting of function bodies from Rust to the dialect that Verus accepts. Every rule here is
//! stated in DESIGN.md.
use crate::contracts::Contract;
use crate::db::{type_name, Db};
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Shared, Mut, Owned, Other }

#[derive(Clone, Debug)]
pub struct LoopInfo { pub n: usize, pub kind: String, pub text: String }

pub struct Ctx<'a> {
    pub db: &'a Db,
    pub mods: &'a BTreeSet<String>,
    pub known: &'a BTreeSet<String>,
    pub contract: Option<&'a Contract>,
    pub hashmap: bool,
    /// floating point types are replaced by types with contracts
    pub float: bool,
    /// `x?` is spelled out, with the conversion of the error
    pub tryq: bool,
    /// the lock whose holding is made explicit
    pub lock: Option<String>,
    pub loop_no: usize,
    pub closure_no: usize,
    pub ptrs: BTreeSet<String>,
    /// the variables that are an Option or a Result
    pub outers: BTreeMap<String, &'static str>,
    pub kinds: BTreeMap<String, Kind>,
    pub fnrefs: BTreeSet<String>,
    pub loops: Vec<LoopInfo>,
    pub closures: Vec<String>,
    /// the names of the parameters of closures, for their contracts
    pub closure_params: BTreeMap<String, String>,
    pub locals: Vec<String>,
    pub inlined: Vec<String>,
    pub depth: usize,
    pub dropped: BTreeSet<String>,
    pub renames: BTreeMap<String, String>,
    /// types that stand for others, by the text of the type
    pub substs: BTreeMap<String, String>,
    /// the declared type of the sequence being collected
    pub collect_ty: Option<Type>,
    /// the type whose impl the function is in; None in a trait and for free functions
    pub self_ty: Option<String>,
    /// the const parameter of the impl at hand
    pub cgen: Option<String>,
    /// calls of functions of the crate that are neither under contract nor inlined
    pub opaque: BTreeSet<String>,
    /// in how many loops we are
    pub loop_depth: usize,
    /// the mutable variables, and in how many loops they were declared
    pub muts: BTreeMap<String, usize>,
    /// those of them that a loop inside their scope mentions
    pub carried: BTreeSet<String>,
    /// returns out of loops
    pub exits: usize,
}

fn ident(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
fn vb(ts: TokenStream) -> Expr { Expr::Verbatim(ts) }

pub fn kind_of_type(t: &Type) -> Kind {
    match t {
        Type::Reference(r) if r.mutability.is_some() => Kind::Mut,
        Type::Reference(_) => Kind::Shared,
        Type::Path(_) if type_name(t) == "Vec" => Kind::Owned,
        _ => Kind::Other,
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(g) => strip_paren(&g.expr), _ => e }
}

fn path_ident(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = strip_paren(e) {
        return p.path.get_ident().map(|i| i.to_string());
    }
    None
}

/// A type as text: paths by their last segment, so that imports do not matter
pub fn type_text(t: &Type) -> String {
    struct L;
    impl VisitMut for L {
        fn visit_path_mut(&mut self, p: &mut Path) {
            if let Some(l) = p.segments.last().cloned() { p.segments = std::iter::once(l).collect(); p.leading_colon = None; }
            visit_mut::visit_path_mut(self, p);
        }
        fn visit_type_trait_object_mut(&mut self, t: &mut TypeTraitObject) {
            visit_mut::visit_type_trait_object_mut(self, t);
            // the order of the bounds does not matter, nor do Send and Sync
            let mut v: Vec<TypeParamBound> = t.bounds.iter().filter(|b| { let x = b.to_token_stream().to_string(); x != "Send" && x != "Sync" && x != "'static" }).cloned().collect();
            v.sort_by_key(|b| b.to_token_stream().to_string());
            t.bounds = v.into_iter().collect();
        }
    }
    let mut t = t.clone();
    L.visit_type_mut(&mut t);
    t.to_token_stream().to_string().replace(' ', "")
}

/// Strip `crate::`, `super::` and modules of the crate from a path.
pub fn strip_path(p: &mut Path, mods: &BTreeSet<String>) {
    while p.segments.len() > 1 {
        let f = p.segments[0].ident.to_string();
        if f == "crate" || f == "super" || (f == "self") || mods.contains(&f) {
            p.segments = p.segments.iter().skip(1).cloned().collect();
            p.leading_colon = None;
        } else { break; }
    }
}

fn has_return(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

struct SelfSub(Expr);
impl VisitMut for SelfSub {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if path_ident(e).as_deref() == Some("self") { *e = self.0.clone(); return; }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct TypeSub(String, Type);
impl VisitMut for TypeSub {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.is_ident(&self.0) { *t = self.1.clone(); return; }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

struct Rename(String, String);
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if *i == self.0 { *i = Ident::new(&self.1, i.span()); } }
}

impl<'a> Ctx<'a> {
    /// The expression of a constant that an impl of a type of the crate declares
    fn assoc_const(&self, e: &Expr) -> Option<Expr> {
        let Expr::Path(p) = e else { return None };
        if p.qself.is_some() || p.path.segments.len() != 2 { return None; }
        let (a, b) = (&p.path.segments[0], &p.path.segments[1]);
        let own = a.ident == "Self";
        let ty = if own { self.self_ty.clone()? } else { a.ident.to_string() };
        for i in self.db.impls.iter().filter(|i| i.trait_.is_none() && type_name(&i.self_ty) == ty) {
            for it in &i.items {
                let ImplItem::Const(c) = it else { continue };
                if c.ident != b.ident { continue; }
                let mut x = c.expr.clone();
                let g = i.generics.params.iter().find_map(|p| if let GenericParam::Const(c) = p { Some(c.ident.to_string()) } else { None });
                if own {
                    if let (Some(g), Some(h)) = (g, &self.cgen) { Rename(g, h.clone()).visit_expr_mut(&mut x); }
                } else if let Some(g) = g {
                    let PathArguments::AngleBracketed(ar) = &a.arguments else { return None };
                    let h = ar.args.first().map(|h| h.to_token_stream().to_string())?;
                    if !h.chars().all(|c| c.is_alphanumeric() || c == '_') || x.to_token_stream().to_string().contains("Self") { return None; }
                    Rename(g, h).visit_expr_mut(&mut x);
                }
                return Some(parse_quote!((#x)));
            }
        }
        None
    }

    /// The loop-specific text markers, replaced by the contract's text after printing.
    fn annotate(&mut self, n: usize, kind: &str, cond: TokenStream, label: Option<Label>, is_loop: bool,
                pre: TokenStream, mut body: Block) -> TokenStream {
        self.loops.push(LoopInfo { n, kind: kind.into(), text: cond.to_string() });
        self.loop_depth += 1;
        self.visit_block_mut(&mut body);
        self.loop_depth -= 1;
        let stmts = &body.stmts;
        let inv = format_ident!("__VPINV_{n}");
        let bs = format_ident!("__VPBS_{n}");
        let be = format_ident!("__VPBE_{n}");
        // A loop body that ends in an expression without semicolon has type (): close it
        let mut toks = TokenStream::new();
        for s in stmts { s.to_tokens(&mut toks); }
        if let Some(Stmt::Expr(e, None)) = stmts.last() {
            if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Verbatim(_)) { toks.extend(quote!(;)); }
        }
        if is_loop {
            quote!(#label loop #inv { #bs; #pre #toks #be; })
        } else {
            quote!(#label while #cond #inv { #bs; #pre #toks #be; })
        }
    }

    fn kind(&self, e: &Expr) -> Kind {
        match strip_paren(e) {
            Expr::Path(_) => path_ident(e).and_then(|i| self.kinds.get(&i).copied()).unwrap_or(Kind::Other),
            Expr::Reference(r) => if r.mutability.is_some() { Kind::Mut } else { Kind::Shared },
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "as_slice" => Kind::Shared,
                "as_mut_slice" => Kind::Mut,
                _ => Kind::Other,
            },
            _ => Kind::Other,
        }
    }

    /// (setup, length, element) of one slice-like source with index variable `i` and name `s`
    fn source(&mut self, e: &Expr, i: &Ident, s: &Ident) -> Option<(TokenStream, TokenStream, TokenStream)> {
        let e = strip_paren(e).clone();
        if let Expr::MethodCall(m) = &e {
            let name = m.method.to_string();
            let recv = strip_paren(&m.receiver).clone();
            match name.as_str() {
                "keys" | "values" if self.hashmap => {
                    let mut r = recv.clone();
                    self.visit_expr_mut(&mut r);
                    let f = if name == "keys" { quote!(0) } else { quote!(1) };
                    return Some((quote!(let #s = vp_entries(&#r);), quote!(#s.len()), quote!(vp_entry(&#s, #i).#f)));
                }
                "iter" | "iter_mut" | "into_iter" => {
                    if self.hashmap && (name == "iter") {
                        let mut r = recv.clone();
                        self.visit_expr_mut(&mut r);
                        return Some((quote!(let #s = vp_entries(&#r);), quote!(#s.len()), quote!(vp_entry(&#s, #i))));
                    }
                    let k = self.kind(&recv);
                    let mut r = recv.clone();
                    self.visit_expr_mut(&mut r);
                    let k = if name == "into_iter" { if k == Kind::Other { Kind::Owned } else { k } } else { k };
                    return Some(match (name.as_str(), k) {
                        ("iter", Kind::Shared) | ("into_iter", Kind::Shared) => (quote!(let #s = #r;), quote!(#s.len()), quote!(&#s[#i])),
                        ("iter", Kind::Mut) => (quote!(let #s = &*#r;), quote!(#s.len()), quote!(&#s[#i])),
                        ("iter", _) => (quote!(let #s = &#r;), quote!(#s.len()), quote!(&#s[#i])),
                        ("iter_mut", Kind::Mut) | ("into_iter", Kind::Mut) => {
                            let base = if path_ident(&recv).is_some() { quote!(&mut *#r) } else { quote!(#r) };
                            (quote!(let #s = #base;), quote!(#s.len()), quote!(&mut #s[#i]))
                        }
                        ("iter_mut", _) => (quote!(let #s = &mut #r;), quote!(#s.len()), quote!(&mut #s[#i])),
                        _ => (quote!(let #s = #r;), quote!(#s.len()), quote!(vp_take(&#s, #i))),
                    });
                }
                _ => {}
            }
        }
        let k = self.kind(&e);
        let mut r = e.clone();
        self.visit_expr_mut(&mut r);
        match k {
            Kind::Shared => Some((quote!(let #s = #r;), quote!(#s.len()), quote!(&#s[#i]))),
            Kind::Mut => {
                let base = if path_ident(&e).is_some() { quote!(&mut *#r) } else { quote!(#r) };
                Some((quote!(let #s = #base;), quote!(#s.len()), quote!(&mut #s[#i])))
            }
            Kind::Owned => Some((quote!(let #s = #r;), quote!(#s.len()), quote!(vp_take(&#s, #i)))),
            Kind::Other => None,
        }
    }

    fn note_pat(&mut self, p: &Pat) {
        struct V<'b>(&'b mut Vec<String>);
        impl<'a, 'b> syn::visit::Visit<'a> for V<'b> {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); }
        }
        syn::visit::Visit::visit_pat(&mut V(&mut self.locals), p);
        struct M<'b>(&'b mut BTreeMap<String, usize>, usize);
        impl<'a, 'b> syn::visit::Visit<'a> for M<'b> {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                if p.mutability.is_some() && p.by_ref.is_none() { self.0.insert(p.ident.to_string(), self.1); } else { self.0.remove(&p.ident.to_string()); }
            }
        }
        syn::visit::Visit::visit_pat(&mut M(&mut self.muts, self.loop_depth), p);
    }

    fn desugar_for(&mut self, f: ExprForLoop) -> Expr {
        let n = self.loop_no;
        self.loop_no += 1;
        let i = format_ident!("__v{n}");
        let e_ = format_ident!("__v{n}_e");
        let s_ = format_ident!("__v{n}_s");
        let t_ = format_ident!("__v{n}_t");
        let af = format_ident!("__VPAF_{n}");
        let bf = format_ident!("__VPBF_{n}");
        let pat = (*f.pat).clone();
        self.note_pat(&pat);
        self.locals.push(i.to_string());
        let mut it = strip_paren(&f.expr).clone();
        if self.hashmap {
            // `for x in &map` iterates as `map.iter()`
            if let Expr::Reference(r) = &it {
                let (x, m) = (&r.expr, if r.mutability.is_some() { ident("iter_mut") } else { ident("iter") });
                if !matches!(strip_paren(x), Expr::Index(_) | Expr::Range(_)) { it = parse_quote!((#x).#m()); }
            }
        }
        // ranges, possibly reversed
        let (rng, rev) = match &it {
            Expr::Range(r) => (Some(r.clone()), false),
            Expr::MethodCall(m) if m.method == "rev" => match strip_paren(&m.receiver) {
                Expr::Range(r) => (Some(r.clone()), true),
                _ => (None, false),
            },
            _ => (None, false),
        };
        if let Some(r) = rng {
            if let (Some(a), Some(b)) = (r.start, r.end) {
                let (mut a, mut b) = (*a, *b);
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                let incl = matches!(r.limits, RangeLimits::Closed(_));
                let bb = if incl { quote!((#b) + 1) } else { quote!(#b) };
                if !rev {
                    let w = self.annotate(n, "for-range", quote!(#i < #e_), f.label, false,
                        quote!(let #pat = #i; #i += 1;), f.body);
                    // the end is evaluated first so that an untyped start takes its type
                    return vb(quote!({ let #e_ = #bb; let mut #i = #a; #bf; #w #af; }));
                } else {
                    let w = self.annotate(n, "for-range-rev", quote!(#i > #e_), f.label, false,
                        quote!(#i -= 1; let #pat = #i;), f.body);
                    return vb(quote!({ let mut #i = #bb; let #e_ = #a; #bf; #w #af; }));
                }
            }
        }
        // slices: plain, enumerated, zipped, reversed; maps, mutably
        let mut src = it.clone();
        let mut enumerate = false;
        let mut reversed = false;
        loop {
            if let Expr::MethodCall(m) = strip_paren(&src).clone() {
                if m.method == "enumerate" && !enumerate { enumerate = true; src = *m.receiver; continue; }
                if m.method == "rev" && !reversed && !enumerate { reversed = true; src = *m.receiver; continue; }
                if (m.method == "copied" || m.method == "cloned") && !enumerate {
                    // for x in s.iter().copied(): read through the reference
                    let inner = *m.receiver;
                    if let Some((st, len, el)) = self.source(&inner, &i, &s_) {
                        if !reversed {
                            let w = self.annotate(n, "slice", quote!(#i < #len), f.label, false,
                                quote!(let #pat = (*(#el)).clone(); #i += 1;), f.body);
                            return vb(quote!({ #st let mut #i: usize = 0; #bf; #w #af; }));
                        }
                    }
                }
            }
            break;
        }
        if let Expr::MethodCall(m) = strip_paren(&src).clone() {
            if self.hashmap && m.method == "values_mut" && !reversed && !enumerate {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                let w = self.annotate(n, "map-mut", quote!(#i < #s_.len()), f.label, false,
                    quote!(let #pat = vp_value_mut(&mut #r, &#s_, #i); #i += 1;), f.body);
                return vb(quote!({ let #s_ = vp_keys(&#r); let mut #i: usize = 0; #bf; #w #af; }));
            }
            if self.hashmap && m.method == "iter_mut" && !reversed && !enumerate {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                if let Pat::Tuple(t) = &pat {
                    if t.elems.len() == 2 {
                        let (k, v) = (&t.elems[0], &t.elems[1]);
                        let w = self.annotate(n, "map-mut", quote!(#i < #s_.len()), f.label, false,
                            quote!(let #k = vp_key(&#s_, #i); let #v = vp_value_mut(&mut #r, &#s_, #i); #i += 1;), f.body);
                        return vb(quote!({ let #s_ = vp_keys(&#r); let mut #i: usize = 0; #bf; #w #af; }));
                    }
                }
            }
            if m.method == "zip" && m.args.len() == 1 && !reversed {
                let b = m.args[0].clone();
                if let Some((st, len, el)) = self.source(&m.receiver, &i, &s_) {
                    if let Some((st2, len2, el2)) = self.source(&b, &i, &t_) {
                        if let Pat::Tuple(t) = &pat {
                            let (p, q): (TokenStream, TokenStream);
                            let ix;
                            if enumerate {
                                let inner = match &t.elems[1] { Pat::Tuple(t2) if t2.elems.len() == 2 => t2.clone(), _ => return self.native_for(n, f, it) };
                                let x = &t.elems[0];
                                ix = quote!(let #x = #i;);
                                let (a, b) = (&inner.elems[0], &inner.elems[1]);
                                p = quote!(#a); q = quote!(#b);
                            } else {
                                ix = quote!();
                                let (a, b) = (&t.elems[0], &t.elems[1]);
                                p = quote!(#a); q = quote!(#b);
                            }
                            let w = self.annotate(n, "zip", quote!(#i < #len && #i < #len2), f.label, false,
                                quote!(#ix let #p = #el; let #q = #el2; #i += 1;), f.body);
                            return vb(quote!({ #st #st2 let mut #i: usize = 0; #bf; #w #af; }));
                        }
                    }
                }
                // an iterator of the crate's own with a slice: the iterator is asked first
                if !enumerate {
                    if let (Some((st2, len2, el2)), Pat::Tuple(t)) = (self.source(&b, &i, &t_), &pat) {
                        let (p, q) = (&t.elems[0], &t.elems[1]);
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let w = self.annotate(n, "zip-iter", quote!(), f.label, true,
                            quote!(let #p = match #s_.next() { Some(__x) => __x, None => break }; if #i >= #len2 { break; } let #q = #el2; #i += 1;), f.body);
                        return vb(quote!({ let mut #s_ = #r; #st2 let mut #i: usize = 0; #bf; #w #af; }));
                    }
                }
                return self.native_for(n, f, it);
            }
        }
        if let Some((st, len, el)) = self.source(&src, &i, &s_) {
            if enumerate {
                if let Pat::Tuple(t) = &pat {
                    let (a, b) = (&t.elems[0], &t.elems[1]);
                    let w = self.annotate(n, "slice-enum", quote!(#i < #len), f.label, false,
                        quote!(let #a = #i; let #b = #el; #i += 1;), f.body);
                    return vb(quote!({ #st let mut #i: usize = 0; #bf; #w #af; }));
                }
            } else if reversed {
                let w = self.annotate(n, "slice-rev", quote!(#i > 0), f.label, false,
                    quote!(#i -= 1; let #pat = #el;), f.body);
                return vb(quote!({ #st let mut #i: usize = #len; #bf; #w #af; }));
            } else {
                let w = self.annotate(n, "slice", quote!(#i < #len), f.label, false,
                    quote!(let #pat = #el; #i += 1;), f.body);
                return vb(quote!({ #st let mut #i: usize = 0; #bf; #w #af; }));
            }
        }
        self.native_for(n, f, it)
    }

    /// A form of for loop the rules do not cover: leave it to Verus
    fn native_for(&mut self, n: usize, mut f: ExprForLoop, mut it: Expr) -> Expr {
        self.visit_expr_mut(&mut it);
        let pat = f.pat.clone();
        self.loops.push(LoopInfo { n, kind: "other".into(), text: it.to_token_stream().to_string() });
        self.visit_block_mut(&mut f.body);
        let body = &f.body;
        vb(quote!(for #pat in #it #body))
    }

    /// Option or Result, when the expression is known to be one
    fn outer(&self, e: &Expr) -> Option<&'static str> {
        fn named(t: &Type) -> &'static str {
            match type_name(t).as_str() { "Option" => "Option", "Result" => "Result", _ => "" }
        }
        match strip_paren(e) {
            Expr::Path(_) => path_ident(e).and_then(|n| if n == "None" { Some("Option") } else { self.outers.get(&n).copied() }),
            Expr::Reference(_) | Expr::Try(_) => None,
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let last = p.path.segments.last()?.ident.to_string();
                match last.as_str() { "Some" => return Some("Option"), "Ok" | "Err" => return Some("Result"), _ => {} }
                self.returned(&last, |_| true, named)
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // of what type the receiver is, as far as its text tells
                let own = match strip_paren(&m.receiver) {
                    Expr::Path(_) if path_ident(&m.receiver).as_deref() == Some("self") => self.self_ty.clone(),
                    Expr::Field(f) if path_ident(&f.base).as_deref() == Some("self") => self.field_type(&f.member),
                    _ => None,
                };
                if let Some(o) = &own {
                    if self.db.structs.iter().any(|s| s.ident == o) {
                        return self.returned(&name, |t| t == o, named);
                    }
                }
                let std_seq = own.map_or(false, |o| ["Vec", "HashMap", "BTreeMap", "[]"].contains(&o.as_str()));
                let by_ref = || self.outer(&m.receiver);
                match name.as_str() {
                    "map_err" | "ok_or" | "ok_or_else" => Some("Result"),
                    "ok" | "err" if m.args.is_empty() => Some("Option"),
                    "map" | "and_then" | "or_else" | "or" | "as_ref" | "as_mut" | "as_deref" | "inspect" => by_ref(),
                    "copied" | "cloned" | "take" | "filter" | "zip" if self.outer(&m.receiver).is_some() => by_ref(),
                    // an Option of a slice, map or vector; a crate's own function of that name says Option as well, or is excluded above
                    "copied" | "cloned" if matches!(strip_paren(&m.receiver), Expr::MethodCall(g) if ["get", "first", "last"].contains(&g.method.to_string().as_str())) => Some("Option"),
                    "get" | "get_mut" | "first" | "last" | "first_mut" | "last_mut" | "pop" if std_seq => Some("Option"),
                    "next" | "checked_add" | "checked_sub" | "checked_mul" | "checked_div" | "checked_pow" => Some("Option"),
                    _ => self.returned(&name, |_| true, named),
                }
            }
            _ => None,
        }
    }
    fn field_type(&self, m: &Member) -> Option<String> {
        let s = self.db.structs.iter().find(|s| Some(s.ident.to_string()) == self.self_ty)?;
        let f = match m {
            Member::Named(n) => s.fields.iter().find(|f| f.ident.as_ref() == Some(n))?,
            Member::Unnamed(i) => s.fields.iter().nth(i.index as usize)?,
        };
        Some(type_name(&f.ty))
    }
    /// what the functions of the crate with this name return, if they agree
    fn returned(&self, name: &str, of: impl Fn(&str) -> bool, named: fn(&Type) -> &'static str) -> Option<&'static str> {
        let mut out: Vec<&'static str> = vec![];
        let ret = |s: &Signature| if let ReturnType::Type(_, t) = &s.output { named(t) } else { "" };
        for f in &self.db.fns { if f.sig.ident == name { out.push(ret(&f.sig)); } }
        for i in &self.db.impls {
            if !of(&type_name(&i.self_ty)) { continue; }
            for it in &i.items { if let ImplItem::Fn(f) = it { if f.sig.ident == name { out.push(ret(&f.sig)); } } }
        }
        if of("") || out.is_empty() {
            for t in &self.db.traits { for it in &t.items { if let TraitItem::Fn(f) = it { if f.sig.ident == name { out.push(ret(&f.sig)); } } } }
        }
        out.sort();
        out.dedup();
        match out[..] { [x] if !x.is_empty() => Some(x), _ => None }
    }

    /// Methods of Option and Result that take a function, spelled out
    fn combinator(&self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if self.renames.contains_key(&name) { return None; }
        let r = &m.receiver;
        let o = match name.as_str() {
            "map_err" => "Result",
            "ok_or_else" | "copied" | "cloned" if name == "ok_or_else" || self.outer(&Expr::MethodCall(m.clone())) == Some("Option") => "Option",
            "map" | "and_then" | "or_else" | "map_or" | "map_or_else" | "unwrap_or_else" => self.outer(r)?,
            _ => return None,
        };
        // f(x) as an expression: a pattern to bind and the value
        let f = |e: &Expr, n: usize| -> Option<(TokenStream, TokenStream)> {
            match strip_paren(e) {
                Expr::Closure(c) if c.inputs.len() == n => {
                    if has_return(&Self::body_block(&c.body)) { return None; }
                    let body = &c.body;
                    if n == 0 { return Some((quote!(), quote!(#body))); }
                    let pat = match &c.inputs[0] { Pat::Type(t) => &*t.pat, p => p };
                    Some((quote!(#pat), quote!(#body)))
                }
                Expr::Path(p) => Some(if n == 0 { (quote!(), quote!(#p())) } else { (quote!(__m), quote!(#p(__m))) }),
                _ => None,
            }
        };
        let simple = |e: &Expr| matches!(strip_paren(e), Expr::Lit(_) | Expr::Path(_));
        let opt = o == "Option";
        let ts = match (name.as_str(), m.args.len()) {
            ("copied", 0) => quote!(match #r { Some(__m) => Some(*__m), None => None }),
            ("cloned", 0) => quote!(match #r { Some(__m) => Some(__m.clone()), None => None }),
            ("map_err", 1) => { let (p, b) = f(&m.args[0], 1)?; quote!(match #r { Ok(__o) => Ok(__o), Err(#p) => Err(#b) }) }
            ("ok_or_else", 1) => { let (_, b) = f(&m.args[0], 0)?; quote!(match #r { Some(__o) => Ok(__o), None => Err(#b) }) }
            ("map", 1) if opt => { let (p, b) = f(&m.args[0], 1)?; quote!(match #r { Some(#p) => Some(#b), None => None }) }
            ("map", 1) => { let (p, b) = f(&m.args[0], 1)?; quote!(match #r { Ok(#p) => Ok(#b), Err(__x) => Err(__x) }) }
            ("and_then", 1) if opt => { let (p, b) = f(&m.args[0], 1)?; quote!(match #r { Some(#p) => #b, None => None }) }
            ("and_then", 1) => { let (p, b) = f(&m.args[0], 1)?; quote!(match #r { Ok(#p) => #b, Err(__x) => Err(__x) }) }
            ("or_else", 1) if opt => { let (_, b) = f(&m.args[0], 0)?; quote!(match #r { Some(__o) => Some(__o), None => #b }) }
            ("or_else", 1) => { let (p, b) = f(&m.args[0], 1)?; quote!(match #r { Ok(__o) => Ok(__o), Err(#p) => #b }) }
            ("unwrap_or_else", 1) if opt => { let (_, b) = f(&m.args[0], 0)?; quote!(match #r { Some(__o) => __o, None => #b }) }
            ("unwrap_or_else", 1) => { let (p, b) = f(&m.args[0], 1)?; quote!(match #r { Ok(__o) => __o, Err(#p) => #b }) }
            ("map_or", 2) if simple(&m.args[0]) => {
                let d = &m.args[0];
                let (p, b) = f(&m.args[1], 1)?;
                if opt { quote!(match #r { Some(#p) => #b, None => #d }) } else { quote!(match #r { Ok(#p) => #b, Err(_) => #d }) }
            }
            ("map_or_else", 2) => {
                let (p, b) = f(&m.args[1], 1)?;
                if opt { let (_, d) = f(&m.args[0], 0)?; quote!(match #r { Some(#p) => #b, None => #d }) }
                else { let (q, d) = f(&m.args[0], 1)?; quote!(match #r { Ok(#p) => #b, Err(#q) => #d }) }
            }
            _ => return None,
        };
        parse2(quote!((#ts))).ok()
    }

    fn closure_parts(e: &Expr) -> Option<ExprClosure> {
        if let Expr::Closure(c) = strip_paren(e) { Some(c.clone()) } else { None }
    }

    fn body_block(e: &Expr) -> Block {
        match e {
            Expr::Block(b) => b.block.clone(),
            other => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(other.clone(), None)] },
        }
    }

    /// A method of a trait of the unit that is passed as a value: a closure that calls it
    fn eta(&self, e: &mut Expr) {
        let Expr::Path(p) = &*e else { return };
        if p.qself.is_none() && p.path.segments.len() < 2 { return; }
        let name = p.path.segments.last().unwrap().ident.to_string();
        if !self.known.contains(&name) { return; }
        let mut n: Vec<usize> = vec![];
        for t in &self.db.traits { for i in &t.items { if let TraitItem::Fn(f) = i { if f.sig.ident == name { n.push(f.sig.inputs.len()); } } } }
        // under the same name in several traits: the one that the path names
        let quals: Vec<String> = p.path.segments.iter().rev().skip(1).map(|s| s.ident.to_string()).collect();
        for t in &self.db.traits {
            if quals.first().map_or(false, |q| t.ident == q) {
                for i in &t.items { if let TraitItem::Fn(f) = i { if f.sig.ident == name { n = vec![f.sig.inputs.len()]; } } }
            }
        }
        n.dedup();
        if n.len() != 1 { return; }
        let ps: Vec<Ident> = (0..n[0]).map(|j| format_ident!("__eta{j}")).collect();
        let f = p.clone();
        *e = parse_quote!(|#(#ps),*| #f(#(#ps),*));
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "debug_assert" | "assert" | "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut a = args.get(0)?.clone();
                self.visit_expr_mut(&mut a);
                let c = if name.ends_with("_eq") || name.ends_with("_ne") {
                    let mut b = args.get(1)?.clone();
                    self.visit_expr_mut(&mut b);
                    if name.ends_with("_eq") { quote!(vp_check((#a) == (#b))) } else { quote!(vp_check((#a) != (#b))) }
                } else {
                    quote!(vp_check(#a))
                };
                // a debug assertion is there in some builds only
                Some(if name.starts_with("debug") { vb(quote!(if vp_debug() { #c; })) } else { vb(c) })
            }
            "cfg" => match m.tokens.to_string().replace(' ', "").as_str() {
                "debug_assertions" => Some(vb(quote!(vp_debug()))),
                "not(debug_assertions)" => Some(vb(quote!((!vp_debug())))),
                _ => None,
            },
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(vb(quote!(vp_panic()))),
            "vec" => {
                if let Ok(r) = m.parse_body_with(|i: parse::ParseStream| {
                    let a: Expr = i.parse()?; let _: Token![;] = i.parse()?; let b: Expr = i.parse()?; Ok((a, b))
                }) {
                    let (mut a, mut b) = r;
                    self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                    return Some(vb(quote!(vec![#a; #b])));
                }
                None
            }
            "write" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut f = args.get(0)?.clone();
                self.visit_expr_mut(&mut f);
                let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = args.get(1)? else { return None };
                let fmt = s.value();
                let mut rest: Vec<Expr> = args.iter().skip(2).cloned().collect();
                rest.reverse();
                let mut calls: Vec<TokenStream> = vec![];
                let mut lit = String::new();
                let mut ch = fmt.chars().peekable();
                while let Some(c) = ch.next() {
                    if c == '{' {
                        if ch.peek() == Some(&'{') { ch.next(); lit.push('{'); continue; }
                        let mut spec = String::new();
                        loop { match ch.next() { Some('}') => break, Some(x) => spec.push(x), None => return None } }
                        if !lit.is_empty() { calls.push(quote!(vp_write_str(&mut *#f, #lit))); lit.clear(); }
                        let mut a = if spec.is_empty() || spec.starts_with(':') { rest.pop()? } else {
                            let nm = ident(spec.split(':').next().unwrap());
                            parse_quote!(#nm)
                        };
                        self.visit_expr_mut(&mut a);
                        let sp = spec.split_once(':').map(|x| x.1).unwrap_or("");
                        let call = match sp { "" => ident("vp_write_display"), "?" => ident("vp_write_debug"), _ => return None };
                        calls.push(quote!(#call(&mut *#f, &(#a))));
                    } else if c == '}' { ch.next(); lit.push('}'); }
                    else { lit.push(c); }
                }
                if !lit.is_empty() { calls.push(quote!(vp_write_str(&mut *#f, #lit))); }
                let last = calls.pop()?;
                // the pieces are written in order; the first failure is the result
                let mut out = quote!(#last);
                for c in calls.iter().rev() {
                    out = quote!(match #c { Ok(_) => #out, Err(e) => Err(e) });
                }
                Some(vb(quote!((#out))))
            }
            _ => None,
        }
    }

    /// The function of the crate that a call reaches, when the call can be resolved by name
    fn inline_target(&self, name: &str, qual: Option<&str>, recv: Option<&Expr>) -> Option<(Signature, Block, Option<String>)> {
        if self.known.contains(name) || self.depth > 4 { return None; }
        let mut found: Vec<(Signature, Block, Option<String>)> = vec![];
        if recv.is_none() && qual.map_or(true, |q| self.mods.contains(q) || q == "crate" || q == "super" || q == "self") {
            for f in &self.db.fns { if f.sig.ident == name { found.push((f.sig.clone(), (*f.block).clone(), None)); } }
        } else {
            // Self::f, Type::f, self.f, x.f
            let want: Option<String> = match (qual, recv) {
                (Some("Self"), _) => Some(self.self_ty.clone()?),
                (Some(q), _) => Some(q.to_string()),
                (None, Some(r)) if path_ident(r).as_deref() == Some("self") => Some(self.self_ty.clone()?),
                _ => None,
            };
            for i in &self.db.impls {
                if i.trait_.is_some() { continue; }
                let ty = type_name(&i.self_ty);
                if want.as_ref().map_or(false, |w| *w != ty) { continue; }
                for it in &i.items {
                    if let ImplItem::Fn(f) = it { if f.sig.ident == name { found.push((f.sig.clone(), f.block.clone(), Some(ty.clone()))); } }
                }
            }
            // a method of an unknown receiver: not when a trait of the crate has one of that name
            if want.is_none() {
                for t in &self.db.traits { for it in &t.items { if let TraitItem::Fn(f) = it { if f.sig.ident == name { return None; } } } }
            }
        }
        if found.len() != 1 { return None; }
        found.pop()
    }

    fn try_inline(&mut self, name: &str, qual: Option<&str>, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        let (sig, block, ty) = self.inline_target(name, qual, recv)?;
        let x = self.try_inline_at(name, &sig, block, ty, recv, args);
        if x.is_none() { self.opaque.insert(name.to_string()); }
        x
    }

    fn try_inline_at(&mut self, name: &str, sig: &Signature, block: Block, ty: Option<String>, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        if sig.asyncness.is_some() || sig.variadic.is_some() { return None; }
        let mut block = tail_returns(block);
        if has_return(&block) { return None; }
        if let Some(l) = &self.lock { block = crate::locks::body(block, l); }
        let mut all: Vec<Expr> = vec![];
        if let Some(r) = recv { all.push(r.clone()); }
        all.extend(args);
        if all.len() != sig.inputs.len() { return None; }
        let own_generics = !sig.generics.params.is_empty();
        // arguments are evaluated before any parameter is bound
        let mut pre: Vec<Stmt> = vec![];
        let mut bind: Vec<Stmt> = vec![];
        let d = self.depth;
        let mut tn = 0;
        for (p, a) in sig.inputs.iter().zip(all.iter()) {
            match p {
                FnArg::Receiver(_) => {
                    if path_ident(a).as_deref() == Some("self") { continue; }
                    // a receiver other than self: only a plain variable can be substituted
                    let inner = match a { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
                    path_ident(&inner)?;
                    SelfSub(inner).visit_block_mut(&mut block);
                }
                FnArg::Typed(t) => {
                    let pat = &t.pat;
                    let ty = &t.ty;
                    let has_impl = ty.to_token_stream().to_string().contains("impl ");
                    let mut a = a.clone();
                    let same = path_ident(&a).is_some() && path_ident(&a) == (if let Pat::Ident(p) = &**pat { Some(p.ident.to_string()) } else { None });
                    // reborrow, as a call would
                    if let (Type::Reference(r), Some(_)) = (&**ty, path_ident(&a)) {
                        if r.mutability.is_some() && path_ident(&a).map(|i| self.kinds.get(&i) == Some(&Kind::Mut)).unwrap_or(false) {
                            a = parse_quote!(&mut *#a);
                        }
                    }
                    let one = sig.inputs.iter().filter(|p| matches!(p, FnArg::Typed(_))).count() == 1;
                    if one || same {
                        bind.push(if own_generics || has_impl { parse_quote!(let #pat = #a;) } else { parse_quote!(let #pat: #ty = #a;) });
                    } else {
                        let tmp = format_ident!("__a{d}_{tn}");
                        tn += 1;
                        if let k @ (Kind::Shared | Kind::Mut | Kind::Owned) = self.kind(&a) { self.kinds.insert(tmp.to_string(), k); }
                        pre.push(if own_generics || has_impl { parse_quote!(let #tmp = #a;) } else { parse_quote!(let #tmp: #ty = #a;) });
                        bind.push(parse_quote!(let #pat = #tmp;));
                        if own_generics { if let Pat::Ident(p) = &**pat { let k = kind_of_type(ty); if k != Kind::Other { self.kinds.insert(p.ident.to_string(), k); } } }
                    }
                }
            }
        }
        self.inlined.push(name.to_string());
        let mut stmts = pre;
        stmts.extend(bind);
        stmts.extend(block.stmts);
        let b = Block { brace_token: Default::default(), stmts };
        let mut e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
        let saved = self.self_ty.clone();
        if ty.is_some() { self.self_ty = ty; }
        self.depth += 1;
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        self.self_ty = saved;
        Some(e)
    }
}

/// `if c { ..; return x; } rest` at the end of a body is `if c { ..; x } else { rest }`
fn tail_returns(mut b: Block) -> Block {
    fn strip(e: &mut Expr) {
        match e {
            Expr::Return(r) => { if let Some(x) = r.expr.take() { *e = *x; strip(e); } else { *e = parse_quote!(()); } }
            Expr::If(i) => { i.then_branch = tail_returns(i.then_branch.clone()); if let Some((_, x)) = i.else_branch.as_mut() { strip(x); } }
            Expr::Block(x) => { x.block = tail_returns(x.block.clone()); }
            Expr::Match(m) => { for a in m.arms.iter_mut() { strip(&mut a.body); } }
            _ => {}
        }
    }
    fn returns(b: &Block) -> bool {
        match b.stmts.last() {
            Some(Stmt::Expr(Expr::Return(_), _)) => true,
            Some(Stmt::Expr(Expr::If(i), _)) => returns(&i.then_branch) && i.else_branch.as_ref().map_or(false, |(_, e)| matches!(&**e, Expr::Block(x) if returns(&x.block))),
            _ => false,
        }
    }
    let mut k = 0;
    while k < b.stmts.len() {
        let last = k + 1 == b.stmts.len();
        if let Stmt::Expr(Expr::If(i), _) = &b.stmts[k] {
            if !last && i.else_branch.is_none() && returns(&i.then_branch) {
                let mut i = i.clone();
                let rest: Vec<Stmt> = b.stmts.drain(k + 1..).collect();
                i.then_branch = tail_returns(i.then_branch);
                let e = tail_returns(Block { brace_token: Default::default(), stmts: rest });
                i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: e }))));
                b.stmts[k] = Stmt::Expr(Expr::If(i), None);
                return b;
            }
        }
        if last {
            if let Stmt::Expr(e, semi) = &mut b.stmts[k] {
                if matches!(e, Expr::Return(_)) { *semi = None; }
                if semi.is_none() { strip(e); }
            }
        }
        k += 1;
    }
    b
}

impl<'a> Ctx<'a> {
    /// Literals and casts of floating point types
    fn float_expr(&mut self, e: &Expr) -> Option<Expr> {
        let of = |n: &str| match n { "f32" | "F32" => Some("F32"), "f64" | "F64" => Some("F64"), _ => None };
        let here = self.self_ty.as_deref().and_then(of);
        let lit = |l: &Lit, neg: bool| -> Option<Expr> {
            let (digits, suffix, int) = match l {
                Lit::Float(f) => (f.base10_digits().to_string(), f.suffix().to_string(), false),
                Lit::Int(i) => (i.base10_digits().to_string(), i.suffix().to_string(), true),
                _ => return None,
            };
            let ty = if suffix.is_empty() { if int { return None } else { here? } } else { of(&suffix)? };
            let t = ident(ty);
            let x: f64 = if ty == "F32" { digits.parse::<f32>().ok()? as f64 } else { digits.parse().ok()? };
            let x = if neg { -x } else { x };
            if x.fract() == 0.0 && x.abs() < 16777216.0 && (x != 0.0 || !neg) {
                let i = x as i64;
                return Some(vb(if i < 0 { let i = -i; quote!(#t::Int(-#i)) } else { quote!(#t::Int(#i)) }));
            }
            let b = if ty == "F32" { (x as f32).to_bits() as u64 } else { x.to_bits() };
            Some(vb(quote!(#t::Bits(#b))))
        };
        match e {
            Expr::Lit(l) => lit(&l.lit, false),
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => match strip_paren(&u.expr) { Expr::Lit(l) => lit(&l.lit, true), _ => None },
            Expr::Cast(c) => {
                let n = type_name(&c.ty);
                let t = if n == "Self" { here? } else { of(&n)? };
                let t = ident(t);
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                Some(vb(quote!(#t::vp_cast(#x))))
            }
            _ => None,
        }
    }
}

impl<'a> VisitMut for Ctx<'a> {
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        if self.loop_depth > 0 { self.exits += 1; }
        visit_mut::visit_expr_return_mut(self, r);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_path(p, self.mods);
        if let Some(i) = p.get_ident() {
            let i = i.to_string();
            if self.muts.get(&i).map_or(false, |d| *d < self.loop_depth) { self.carried.insert(i); }
        }
        if self.float {
            if let Some(s) = p.segments.first_mut() {
                if s.ident == "f32" { s.ident = ident("F32"); } else if s.ident == "f64" { s.ident = ident("F64"); }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if !self.substs.is_empty() {
            if let Some(x) = self.substs.get(&type_text(t)) {
                if let Ok(x) = syn::parse_str::<Type>(x) { *t = x; return; }
            }
        }
        if let Type::ImplTrait(it) = t {
            if let Some(TypeParamBound::Trait(b)) = it.bounds.first() {
                if let Some(s) = b.path.segments.last() {
                    if s.ident == "IntoIterator" || s.ident == "Iterator" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            if let Some(GenericArgument::AssocType(at)) = a.args.first() {
                                let mut x = at.ty.clone();
                                self.visit_type_mut(&mut x);
                                *t = parse_quote!(Vec<#x>);
                                return;
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_type_param_mut(&mut self, t: &mut TypeParam) {
        t.bounds = t.bounds.iter().filter(|b| keep_bound(b, &self.dropped)).cloned().collect();
        visit_mut::visit_type_param_mut(self, t);
    }

    fn visit_predicate_type_mut(&mut self, t: &mut PredicateType) {
        t.bounds = t.bounds.iter().filter(|b| keep_bound(b, &self.dropped)).cloned().collect();
        visit_mut::visit_predicate_type_mut(self, t);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), m.semi_token);
            }
        }
        // statements of some builds only
        for s in b.stmts.iter_mut() {
            if let Stmt::Expr(e, _) = s {
                let attrs = match e { Expr::Block(x) => &mut x.attrs, Expr::If(x) => &mut x.attrs, Expr::Assign(x) => &mut x.attrs, Expr::Call(x) => &mut x.attrs,
                    Expr::MethodCall(x) => &mut x.attrs, Expr::Binary(x) => &mut x.attrs, Expr::ForLoop(x) => &mut x.attrs, Expr::While(x) => &mut x.attrs,
                    Expr::Match(x) => &mut x.attrs, Expr::Macro(x) => &mut x.attrs, Expr::Return(x) => &mut x.attrs, _ => continue };
                let mut cond: Option<Expr> = None;
                attrs.retain(|a| {
                    let t = a.to_token_stream().to_string().replace(' ', "");
                    match t.as_str() {
                        "#[cfg(debug_assertions)]" => { cond = Some(parse_quote!(cfg!(debug_assertions))); false }
                        "#[cfg(not(debug_assertions))]" => { cond = Some(parse_quote!(cfg!(not(debug_assertions)))); false }
                        _ => true,
                    }
                });
                if let Some(c) = cond {
                    let x = e.clone();
                    *s = parse_quote!(if #c { #x; });
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        self.note_pat(&l.pat);
        l.attrs.clear();
        // what kind of sequence the variable is, for loops over it
        let (name, ty) = match &l.pat {
            Pat::Ident(p) => (Some(p.ident.to_string()), None),
            Pat::Type(t) => (if let Pat::Ident(p) = &*t.pat { Some(p.ident.to_string()) } else { None }, Some((*t.ty).clone())),
            _ => (None, None),
        };
        if let Some(name) = name {
            let o = match ty.as_ref().map(|t| type_name(t)) {
                Some(t) => match t.as_str() { "Option" => Some("Option"), "Result" => Some("Result"), _ => None },
                None => l.init.as_ref().and_then(|i| self.outer(&i.expr)),
            };
            match o { Some(o) => { self.outers.insert(name.clone(), o); } None => { self.outers.remove(&name); } }
            let mut k = ty.as_ref().map(kind_of_type).unwrap_or(Kind::Other);
            if let Some(init) = &l.init {
                if k == Kind::Other { k = self.kind(&init.expr); }
                if k == Kind::Other {
                    let t = init.expr.to_token_stream().to_string();
                    if t.starts_with("Vec ::") || t.starts_with("vec !") { k = Kind::Owned; }
                }
                if let Expr::MethodCall(m) = strip_paren(&init.expr) {
                    if m.method == "as_mut_ptr" || m.method == "as_ptr" { self.ptrs.insert(name.clone()); }
                }
            }
            if k != Kind::Other { self.kinds.insert(name, k); }
            if let Some(init) = &l.init {
                if matches!(strip_paren(&init.expr), Expr::MethodCall(m) if m.method == "collect") { self.collect_ty = ty; }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // patterns that look through a reference bind the reference, and the value is copied out of it
        match e {
            Expr::If(i) => { let mut v = vec![]; deref_cond(&mut i.cond, &mut v); prepend(&mut i.then_branch, v); }
            Expr::While(w) => { let mut v = vec![]; deref_cond(&mut w.cond, &mut v); prepend(&mut w.body, v); }
            Expr::Match(m) => for a in m.arms.iter_mut() {
                if a.guard.is_some() { continue; }
                let mut v = vec![];
                deref_pat(&mut a.pat, &mut v);
                if !v.is_empty() {
                    let b = &a.body;
                    *a.body = parse_quote!({ #(#v)* #b });
                }
            },
            _ => {}
        }
        if self.float { if let Some(x) = self.float_expr(e) { *e = x; return; } }
        if let Some(mut x) = self.assoc_const(e) { self.visit_expr_mut(&mut x); *e = x; return; }
        // `as K` with a type parameter K can only be the identity
        if let Expr::Cast(c) = e {
            if let Type::Path(p) = &*c.ty {
                let n = type_name(&c.ty);
                if p.path.segments.len() == 1 && n.len() <= 2 && n.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit())
                    && !self.db.types.iter().any(|t| t.ident == n) && !self.db.structs.iter().any(|t| t.ident == n) {
                    let mut x = (*c.expr).clone();
                    self.visit_expr_mut(&mut x);
                    *e = vb(quote!((#x)));
                    return;
                }
            }
        }
        match e {
            Expr::Try(t) if self.tryq => {
                let mut x = (*t.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = vb(quote!((match #x { Ok(__q) => __q, Err(__q) => return Err(__q.vp_q()) })));
                return;
            }
            Expr::Unsafe(u) => {
                let block = u.block.clone();
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block });
                self.visit_expr_mut(e);
                return;
            }
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                if let Some(x) = self.macro_expr(&mac) { *e = x; }
                return;
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.desugar_for(f);
                return;
            }
            Expr::While(w) => {
                let n = self.loop_no;
                self.loop_no += 1;
                let af = format_ident!("__VPAF_{n}");
                let bf = format_ident!("__VPBF_{n}");
                let w = w.clone();
                let mut cond = *w.cond;
                self.visit_expr_mut(&mut cond);
                let t = self.annotate(n, "while", quote!(#cond), w.label, false, quote!(), w.body);
                *e = vb(quote!({ #bf; #t #af; }));
                return;
            }
            Expr::Loop(w) => {
                let n = self.loop_no;
                self.loop_no += 1;
                let af = format_ident!("__VPAF_{n}");
                let bf = format_ident!("__VPBF_{n}");
                let w = w.clone();
                // `loop { if c { break; } rest }` and the like keep their form
                let t = self.annotate(n, "loop", quote!(), w.label, true, quote!(), w.body);
                *e = vb(quote!({ #bf; #t #af; }));
                return;
            }
            Expr::Call(c) => {
                for a in c.args.iter_mut() { self.eta(a); }
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().cloned().unwrap_or_default();
                    let pre = if segs.len() > 1 { segs[segs.len() - 2].clone() } else { String::new() };
                    if (last == "min" || last == "max") && (pre == "cmp" || pre.is_empty() || pre == "Ord") && c.args.len() == 2 {
                        let (mut a, mut b) = (c.args[0].clone(), c.args[1].clone());
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        *e = if last == "min" {
                            vb(quote!({ let __a = #a; let __b = #b; if __a <= __b { __a } else { __b } }))
                        } else {
                            vb(quote!({ let __a = #a; let __b = #b; if __b >= __a { __b } else { __a } }))
                        };
                        return;
                    }
                    if let Some(x) = self.renames.get(&segs.join("::")).cloned() {
                        let f = ident(&x);
                        let mut args = c.args.clone();
                        for a in args.iter_mut() { self.visit_expr_mut(a); }
                        *e = vb(quote!(#f(#args)));
                        return;
                    }
                    if segs.len() == 1 && self.fnrefs.contains(&last) {
                        let f = ident(&last);
                        let mut args = c.args.clone();
                        for a in args.iter_mut() { self.visit_expr_mut(a); }
                        *e = vb(quote!((*#f)(#args)));
                        return;
                    }
                    if p.qself.is_none() && (segs.len() == 1 || pre == "Self" || self.mods.contains(&pre) || segs.len() == 2) {
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        let q = if segs.len() == 1 { None } else { Some(pre.as_str()) };
                        if let Some(x) = self.try_inline(&last, q, None, args) { *e = x; return; }
                    }
                }
            }
            Expr::MethodCall(m) => {
                for a in m.args.iter_mut() { self.eta(a); }
                let name = m.method.to_string();
                // ptr.add(e) and ptr.as_mut_ptr()
                if let Some(r) = path_ident(&m.receiver) {
                    if self.ptrs.contains(&r) && name == "add" && m.args.len() == 1 {
                        let mut a = m.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        let r = ident(&r);
                        *e = vb(quote!(#r.vp_add(#a)));
                        return;
                    }
                }
                if name == "as_mut_ptr" && m.args.is_empty() {
                    let mut r = (*m.receiver).clone();
                    let plain = path_ident(&r).is_some();
                    self.visit_expr_mut(&mut r);
                    *e = if plain { vb(quote!(vp_cursor(&mut *#r))) } else { vb(quote!(vp_cursor(#r))) };
                    return;
                }
                let whole = m.clone();
                if let Some(x) = self.combinator(&whole) {
                    *e = x;
                    self.visit_expr_mut(e);
                    return;
                }
                if let Some(x) = self.renames.get(&name) { m.method = ident(&x.clone()); }
                if name == "get_unchecked" && m.args.len() == 1 { m.method = ident("vp_get_unchecked"); }
                if name == "get_unchecked_mut" && m.args.len() == 1 { m.method = ident("vp_get_unchecked_mut"); }
                if name == "for_each" && m.args.len() == 1 {
                    if let Some(c) = Self::closure_parts(&m.args[0]) {
                        if c.inputs.len() == 1 {
                            let pat = match c.inputs[0].clone() { Pat::Type(t) => *t.pat, p => p };
                            let body = Self::body_block(&c.body);
                            let it = m.receiver.clone();
                            let body = Block { brace_token: body.brace_token, stmts: close(body.stmts) };
                            let f = ExprForLoop {
                                attrs: vec![], label: None, for_token: Default::default(), pat: Box::new(pat),
                                in_token: Default::default(), expr: it, body,
                            };
                            *e = self.desugar_for(f);
                            return;
                        }
                    }
                }
                if name == "fold" && m.args.len() == 2 {
                    if let Some(c) = Self::closure_parts(&m.args[1]) {
                        if c.inputs.len() == 2 {
                            let acc = match c.inputs[0].clone() { Pat::Type(t) => *t.pat, p => p };
                            let pat = match c.inputs[1].clone() { Pat::Type(t) => *t.pat, p => p };
                            let mut init = m.args[0].clone();
                            self.visit_expr_mut(&mut init);
                            let body = *c.body.clone();
                            let acc_id = match &acc { Pat::Ident(p) => p.ident.clone(), _ => ident("__acc") };
                            self.locals.push(acc_id.to_string());
                            let st: Stmt = parse_quote!(#acc_id = #body;);
                            let f = ExprForLoop {
                                attrs: vec![], label: None, for_token: Default::default(), pat: Box::new(pat),
                                in_token: Default::default(), expr: m.receiver.clone(),
                                body: Block { brace_token: Default::default(), stmts: vec![st] },
                            };
                            let lp = self.desugar_for(f);
                            *e = vb(quote!({ let mut #acc_id = #init; #lp #acc_id }));
                            return;
                        }
                    }
                }
                if name == "collect" && m.args.is_empty() {
                    if let Expr::MethodCall(mm) = strip_paren(&m.receiver).clone() {
                        if mm.method == "map" && mm.args.len() == 1 {
                            if let Some(c) = Self::closure_parts(&mm.args[0]) {
                                if c.inputs.len() == 1 {
                                    let pat = match c.inputs[0].clone() { Pat::Type(t) => *t.pat, p => p };
                                    let body = *c.body.clone();
                                    let mut ty = self.collect_ty.take();
                                    if let Some(tf) = &m.turbofish { if let Some(GenericArgument::Type(t)) = tf.args.first() { ty = Some(t.clone()); } }
                                    if let Some(t) = ty.as_mut() { self.visit_type_mut(t); }
                                    let ty = ty.filter(|t| !t.to_token_stream().to_string().contains('_'));
                                    let n = self.loop_no;
                                    let v = format_ident!("__v{n}_out");
                                    self.locals.push(v.to_string());
                                    let st: Stmt = parse_quote!(#v.push(#body););
                                    let f = ExprForLoop {
                                        attrs: vec![], label: None, for_token: Default::default(), pat: Box::new(pat),
                                        in_token: Default::default(), expr: mm.receiver.clone(),
                                        body: Block { brace_token: Default::default(), stmts: vec![st] },
                                    };
                                    let lp = self.desugar_for(f);
                                    *e = match ty { Some(t) => vb(quote!({ let mut #v: #t = Vec::new(); #lp #v })), None => vb(quote!({ let mut #v = Vec::new(); #lp #v })) };
                                    return;
                                }
                            }
                        }
                    }
                }
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let recv = (*m.receiver).clone();
                if let Some(x) = self.try_inline(&name, None, Some(&recv), args) { *e = x; return; }
            }
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = strip_paren(&r.expr) {
                        if let Some(p) = path_ident(expr) {
                            if self.ptrs.contains(&p) { let p = ident(&p); *e = vb(quote!(#p.vp_mut())); return; }
                        }
                        if let Expr::MethodCall(m) = strip_paren(expr) {
                            if let Some(p) = path_ident(&m.receiver) {
                                if self.ptrs.contains(&p) && m.method == "add" {
                                    let mut a = m.args[0].clone();
                                    self.visit_expr_mut(&mut a);
                                    let p = ident(&p);
                                    *e = vb(quote!(#p.vp_mut_at(#a)));
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                if let Some(p) = path_ident(expr) {
                    if self.ptrs.contains(&p) { let p = ident(&p); *e = vb(quote!((*#p.vp_mut()))); return; }
                }
            }
            Expr::Closure(c) => {
                let k = self.closure_no;
                self.closure_no += 1;
                let mut c = c.clone();
                self.closures.push(c.to_token_stream().to_string());
                self.visit_expr_mut(&mut c.body);
                // parameters that are patterns are taken apart in the body
                let mut params = TokenStream::new();
                let mut pre = TokenStream::new();
                for (j, p) in c.inputs.iter().enumerate() {
                    let (pat, ty) = match p { Pat::Type(t) => ((*t.pat).clone(), Some(t.ty.clone())), p => (p.clone(), None) };
                    let ty = ty.map(|t| t.to_token_stream());
                    let tm = format_ident!("__VPCT_{k}_{j}");
                    if let Pat::Ident(i) = &pat { self.closure_params.insert(format!("__c{k}_{j}"), i.ident.to_string()); }
                    if let (Pat::Ident(_), Some(t)) = (&pat, &ty) {
                        params.extend(quote!(#pat: #t,));
                    } else if let Pat::Ident(_) = &pat {
                        params.extend(quote!(#pat #tm,));
                    } else {
                        let nm = format_ident!("__c{k}_{j}");
                        match &ty { Some(t) => params.extend(quote!(#nm: #t,)), None => params.extend(quote!(#nm #tm,)) }
                        if let (Pat::Reference(r), true) = (&pat, matches!(&pat, Pat::Reference(r) if matches!(&*r.pat, Pat::Ident(_)))) {
                            let x = &r.pat;
                            pre.extend(quote!(let #x = *#nm;));
                        } else {
                            let mut pat = pat.clone();
                            let mut v = vec![];
                            deref_pat(&mut pat, &mut v);
                            pre.extend(quote!(let #pat = #nm; #(#v)*));
                        }
                    }
                }
                let mv = &c.capture;
                let body = &c.body;
                let cm = format_ident!("__VPCL_{k}");
                let inner = match &*c.body { Expr::Block(b) => { let s = &b.block.stmts; quote!(#(#s)*) } _ => quote!(#body) };
                *e = vb(quote!(#mv |#params| #cm { #pre #inner }));
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `&x` in a pattern becomes a name for the reference, and a statement that copies the value
fn deref_pat(p: &mut Pat, out: &mut Vec<Stmt>) {
    struct D<'a>(&'a mut Vec<Stmt>);
    impl<'a> VisitMut for D<'a> {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Reference(r) = p {
                if matches!(&*r.pat, Pat::Tuple(_) | Pat::TupleStruct(_) | Pat::Struct(_)) {
                    // the parts are bound by reference, and copied
                    let mut inner = (*r.pat).clone();
                    struct R<'a>(&'a mut Vec<Stmt>, bool);
                    impl<'a> VisitMut for R<'a> {
                        fn visit_pat_mut(&mut self, p: &mut Pat) {
                            match p {
                                Pat::Reference(_) => self.1 = false,
                                Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() && i.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') => {
                                    let (x, fresh) = (i.clone(), format_ident!("__r_{}", i.ident));
                                    self.0.push(parse_quote!(let #x = *#fresh;));
                                    *p = parse_quote!(#fresh);
                                }
                                _ => visit_mut::visit_pat_mut(self, p),
                            }
                        }
                        fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
                            f.colon_token = Some(Default::default());
                            visit_mut::visit_field_pat_mut(self, f);
                        }
                    }
                    let mut v = vec![];
                    let mut rr = R(&mut v, true);
                    rr.visit_pat_mut(&mut inner);
                    if rr.1 { self.0.append(&mut v); *p = inner; return; }
                }
                if let Pat::Ident(i) = &*r.pat {
                    let (x, fresh) = (i.clone(), format_ident!("__r_{}", i.ident));
                    self.0.push(parse_quote!(let #x = *#fresh;));
                    *p = parse_quote!(#fresh);
                    return;
                }
                if let Pat::Wild(_) = &*r.pat { *p = parse_quote!(_); return; }
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    D(out).visit_pat_mut(p);
}
fn deref_cond(c: &mut Expr, out: &mut Vec<Stmt>) {
    if let Expr::Let(l) = c { deref_pat(&mut l.pat, out); }
}
fn prepend(b: &mut Block, v: Vec<Stmt>) {
    if !v.is_empty() { let mut s = v; s.append(&mut b.stmts); b.stmts = s; }
}

fn close(stmts: Vec<Stmt>) -> Vec<Stmt> {
    let mut s = stmts;
    if let Some(Stmt::Expr(_, semi)) = s.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
    s
}

pub fn keep_bound(b: &TypeParamBound, dropped: &BTreeSet<String>) -> bool {
    match b {
        TypeParamBound::Trait(t) => {
            let l = t.path.segments.last().unwrap();
            let name = l.ident.to_string();
            let full = t.path.to_token_stream().to_string().replace(' ', "");
            !dropped.contains(&name) && !dropped.contains(&full)
        }
        _ => true,
    }
}

#[allow(dead_code)]
fn unused(t: TypeSub) -> String { t.0 }
