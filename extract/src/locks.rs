//! Holding a lock, made explicit. `LOCK.read()` and `LOCK.write()` become operations on the variable
//! `__vp_lk`, which stands for the guard as well, and at each point where Rust drops the guard (edition 2018) `__vp_lk.vp_release()` is
//! called:
//!  - a guard bound by `let g = LOCK.read().unwrap();`: at the end of the block, or at `drop(g);`
//!  - a guard that is a temporary: at the end of the statement, of the condition of an `if` or
//!    `while`, of a branch of `if` or `match`, of a loop body or of the function body
//! A body in which a guard is used otherwise is left as it is; the verifier then does not know the
//! lock and rejects it.
use std::collections::BTreeSet;
use quote::{format_ident, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const OPS: &[&str] = &["get", "contains_key", "insert", "entry", "len", "is_empty"];

struct Pass<'a> { lock: &'a str, ok: bool, used: bool, temps: bool, guards: BTreeSet<String> }

fn bare(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => bare(&p.expr),
        Expr::Group(p) => bare(&p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => bare(expr),
        _ => e,
    }
}
fn plain(e: &Expr) -> &Expr { match e { Expr::Paren(p) => plain(&p.expr), Expr::Group(p) => plain(&p.expr), _ => e } }

fn release() -> Stmt { parse_quote!(__vp_lk.vp_release();) }

/// the expression, then the release, then its value
fn after(e: &Expr) -> Vec<Stmt> {
    vec![parse_quote!(let __vp_t = #e;), release(), Stmt::Expr(parse_quote!(__vp_t), None)]
}

pub fn mentions(e: &impl ToTokens, w: &str) -> bool {
    fn go(ts: proc_macro2::TokenStream, w: &str) -> bool {
        ts.into_iter().any(|t| match t { proc_macro2::TokenTree::Group(g) => go(g.stream(), w), proc_macro2::TokenTree::Ident(i) => i == w, _ => false })
    }
    go(e.to_token_stream(), w)
}

impl<'a> Pass<'a> {
    /// `LOCK.read()` or `LOCK.write()`
    fn acq(&self, e: &Expr) -> bool {
        if let Expr::MethodCall(m) = plain(e) {
            if (m.method == "read" || m.method == "write") && m.args.is_empty() {
                if let Expr::Path(p) = bare(&m.receiver) { return p.path.segments.last().map_or(false, |s| s.ident == self.lock); }
            }
        }
        false
    }
    /// the guard itself
    fn guard(&self, e: &Expr) -> bool {
        if let Expr::MethodCall(m) = plain(e) { if m.method == "expect" || m.method == "unwrap" { return self.acq(&m.receiver); } }
        false
    }
    /// taking the lock
    fn take(&mut self, e: &Expr) -> Stmt {
        self.used = true;
        let Expr::MethodCall(m) = plain(e) else { unreachable!() };
        let Expr::MethodCall(a) = plain(&m.receiver) else { unreachable!() };
        if a.method == "read" { parse_quote!(__vp_lk.vp_read();) } else { parse_quote!(__vp_lk.vp_write();) }
    }

    fn expr(&mut self, e: &mut Expr) -> bool {
        let save = std::mem::replace(&mut self.temps, false);
        self.visit_expr_mut(e);
        std::mem::replace(&mut self.temps, save)
    }
    /// an expression at whose end its temporaries are dropped
    fn closed(&mut self, e: &mut Expr) {
        if let Expr::Block(b) = e {
            if b.label.is_none() { self.closed_block(&mut b.block); return; }
        }
        if self.expr(e) { let s = after(e); *e = parse_quote!({ #(#s)* }); }
    }
    fn closed_block(&mut self, b: &mut Block) {
        if self.block(b) {
            match b.stmts.pop() {
                Some(Stmt::Expr(e, None)) => b.stmts.extend(after(&e)),
                Some(s) => { b.stmts.push(s); b.stmts.push(release()); }
                None => {}
            }
        }
    }

    /// does the last expression leave a guard held?
    fn block(&mut self, b: &mut Block) -> bool {
        let mut held: Vec<String> = vec![];
        let mut names: Vec<String> = vec![];
        let n = b.stmts.len();
        let mut out: Vec<Stmt> = vec![];
        let mut tail = false;
        for (i, st) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            match st {
                Stmt::Local(mut l) => {
                    let mut rel = false;
                    let mut taken: Option<Stmt> = None;
                    if let Some(init) = l.init.as_mut() {
                        if self.guard(&init.expr) {
                            let name = match &l.pat { Pat::Ident(p) => Some(p.ident.to_string()), _ => None };
                            match name {
                                Some(x) if init.diverge.is_none() => { held.push(x.clone()); self.guards.insert(x.clone()); names.push(x); taken = Some(self.take(&init.expr)); }
                                _ => self.ok = false,
                            }
                        } else {
                            let extended = matches!(plain(&init.expr), Expr::Reference(_) | Expr::Tuple(_) | Expr::Struct(_) | Expr::Array(_));
                            rel = self.expr(&mut init.expr);
                            if rel && (extended || init.diverge.is_some()) { self.ok = false; }
                            if let Some((_, d)) = init.diverge.as_mut() { self.closed(d); }
                        }
                    }
                    match taken { Some(t) => out.push(t), None => out.push(Stmt::Local(l)) }
                    if rel { out.push(release()); }
                }
                Stmt::Expr(mut e, semi) => {
                    if let Expr::Call(c) = plain(&e) {
                        if let Expr::Path(p) = &*c.func {
                            if p.path.segments.last().map_or(false, |s| s.ident == "drop") && c.args.len() == 1 {
                                if let Expr::Path(a) = plain(&c.args[0]) {
                                    if let Some(k) = a.path.get_ident().and_then(|i| held.iter().position(|h| i == h)) {
                                        held.remove(k);
                                        out.push(release());
                                        continue;
                                    }
                                }
                            }
                        }
                    }
                    if self.guard(&e) && semi.is_some() {
                        out.push(self.take(&e));
                        out.push(release());
                        continue;
                    }
                    let t = self.expr(&mut e);
                    if i + 1 == n && semi.is_none() {
                        if held.is_empty() { tail = t; out.push(Stmt::Expr(e, None)); }
                        else { out.extend(after(&e)); held.clear(); }
                    } else {
                        out.push(Stmt::Expr(e, semi));
                        if t { out.push(release()); }
                    }
                }
                Stmt::Macro(m) => { if mentions(&m, self.lock) { self.ok = false; } out.push(Stmt::Macro(m)); }
                s => { if mentions(&s, self.lock) { self.ok = false; } out.push(s); }
            }
        }
        if !held.is_empty() { out.push(release()); }
        // a guard that leaves the block by other ways than its end
        for h in &names { if out.iter().any(|s| mentions(s, "drop") && mentions(s, h)) { self.ok = false; } }
        b.stmts = out;
        tail
    }
}

impl<'a> VisitMut for Pass<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::If(i) => {
                let has_let = mentions(&i.cond, "let");
                let t = self.expr(&mut i.cond);
                if t && !has_let { let s = after(&i.cond); *i.cond = parse_quote!({ #(#s)* }); }
                self.closed_block(&mut i.then_branch);
                if let Some((_, x)) = i.else_branch.as_mut() {
                    let was = matches!(&**x, Expr::If(_));
                    self.closed(x);
                    if was && !matches!(&**x, Expr::If(_) | Expr::Block(_)) { self.ok = false; }
                }
                if t && has_let { self.temps = true; }
            }
            Expr::Match(m) => {
                let t = self.expr(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &a.guard { if mentions(g, self.lock) { self.ok = false; } }
                    self.closed(&mut a.body);
                }
                if t { self.temps = true; }
            }
            Expr::Block(b) => { if self.block(&mut b.block) { self.temps = true; } }
            Expr::While(w) => {
                if mentions(w, self.lock) && (mentions(&w.cond, "let") || mentions(&w.body, "break") || mentions(&w.body, "continue")) { self.ok = false; }
                self.closed(&mut w.cond);
                self.closed_block(&mut w.body);
            }
            Expr::Loop(w) => {
                if mentions(w, self.lock) { self.ok = false; }
                self.closed_block(&mut w.body);
            }
            Expr::ForLoop(w) => {
                if mentions(w, self.lock) && (mentions(&w.body, "break") || mentions(&w.body, "continue")) { self.ok = false; }
                let t = self.expr(&mut w.expr);
                self.closed_block(&mut w.body);
                if t { self.temps = true; }
            }
            Expr::Closure(c) => { if mentions(c, self.lock) { self.ok = false; } }
            Expr::Binary(b) if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && !mentions(b, "let") => {
                if self.expr(&mut b.left) { self.temps = true; }
                self.closed(&mut b.right);
            }
            Expr::MethodCall(m) => {
                // entry(k).or_insert(v), entry(k).or_insert_with(|| v)
                if (m.method == "or_insert" || m.method == "or_insert_with") && m.args.len() == 1 {
                    if let Expr::MethodCall(en) = plain(&m.receiver).clone() {
                        if en.method == "entry" && en.args.len() == 1 {
                            let r = (*en.receiver).clone();
                            let g = self.guard(&r);
                            let t = if g { self.temps = true; Some(self.take(&r)) } else { None };
                            let named = matches!(plain(&r), Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.guards.contains(&i.to_string())));
                            let k = &en.args[0];
                            let mut v = m.args[0].clone();
                            if m.method == "or_insert" && (g || named) {
                                self.visit_expr_mut(&mut v);
                                *e = parse_quote!({ #t let __vp_k = #k; __vp_lk.vp_or_insert(__vp_k, #v) });
                                return;
                            }
                            if let (Expr::Closure(c), true) = (plain(&v), g || named) {
                                if c.inputs.is_empty() {
                                    let mut x = (*c.body).clone();
                                    self.closed(&mut x);
                                    *e = parse_quote!({
                                        #t let __vp_k = #k;
                                        if !__vp_lk.contains_key(&__vp_k) { let __vp_v = #x; __vp_lk.insert(__vp_k, __vp_v); }
                                        __vp_lk.vp_at(&__vp_k)
                                    });
                                    return;
                                }
                            }
                            self.ok = false;
                            return;
                        }
                    }
                }
                // map(|x| x.clone()) is cloned()
                if m.method == "map" && m.args.len() == 1 {
                    let clones = match plain(&m.args[0]) {
                        Expr::Path(p) => p.path.segments.last().map_or(false, |s| s.ident == "clone"),
                        Expr::Closure(c) if c.inputs.len() == 1 => match (&c.inputs[0], plain(&c.body)) {
                            (Pat::Ident(p), Expr::MethodCall(b)) => b.method == "clone" && b.args.is_empty()
                                && matches!(bare(&b.receiver), Expr::Path(q) if q.path.is_ident(&p.ident)),
                            _ => false,
                        },
                        _ => false,
                    };
                    if clones { m.method = format_ident!("cloned"); m.args.clear(); }
                }
                if self.guard(&m.receiver) && OPS.contains(&m.method.to_string().as_str()) {
                    let t = self.take(&m.receiver);
                    self.temps = true;
                    for a in m.args.iter_mut() { self.visit_expr_mut(a); }
                    let (f, a) = (&m.method, &m.args);
                    *e = parse_quote!({ #t __vp_lk.#f(#a) });
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Path(p) => { if p.path.segments.last().map_or(false, |s| s.ident == self.lock) { self.ok = false; } }
            Expr::Macro(m) => { if mentions(m, self.lock) { self.ok = false; } }
            Expr::Async(_) | Expr::Const(_) | Expr::Unsafe(_) => { if mentions(e, self.lock) { self.ok = false; } }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) { if self.block(b) { self.temps = true; } }
}

/// The guards by name: `__vp_lk`, unless the name means something else too
struct Names<'a>(&'a BTreeSet<String>, bool);
impl<'a> VisitMut for Names<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if self.0.contains(&p.ident.to_string()) { self.1 = false; } }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.get_ident().map_or(false, |i| self.0.contains(&i.to_string())) { *e = parse_quote!(__vp_lk); return; } }
        if let Expr::Macro(m) = e { for g in self.0 { if mentions(m, g) { self.1 = false; } } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_macro_mut(&mut self, m: &mut StmtMacro) { for g in self.0 { if mentions(m, g) { self.1 = false; } } }
}

/// A function body with the lock made explicit
pub fn body(b: Block, lock: &str) -> Block {
    let mut p = Pass { lock, ok: true, used: false, temps: false, guards: BTreeSet::new() };
    let mut x = b.clone();
    p.closed_block(&mut x);
    if !p.ok || !p.used { return b; }
    let mut n = Names(&p.guards, true);
    n.visit_block_mut(&mut x);
    if n.1 { x } else { b }
}
