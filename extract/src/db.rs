//! The items of the crate, as compiled (module tree from lib.rs, tests and cfg-guarded items left out).
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit::{self, Visit};
use syn::*;

pub struct Db {
    pub structs: Vec<ItemStruct>,
    pub enums: Vec<ItemEnum>,
    pub types: Vec<ItemType>,
    pub consts: Vec<ItemConst>,
    pub fns: Vec<ItemFn>,
    pub impls: Vec<ItemImpl>,
    pub traits: Vec<ItemTrait>,
    pub files: Vec<(String, usize)>,
    /// `static ref NAME: TYPE = VALUE;` of lazy_static
    pub statics: Vec<(String, Expr)>,
    /// what stands in the way of telling by name what the code means
    pub odd: BTreeSet<String>,
}

/// what is known of a condition of the build: tests, features and the hooks are off
fn cond(m: &Meta) -> Option<bool> {
    let parts = |l: &MetaList| l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).ok();
    match m {
        Meta::Path(p) if p.is_ident("test") || p.is_ident("rustyalgebra_verif") => Some(false),
        Meta::NameValue(n) if n.path.is_ident("feature") => Some(false),
        Meta::List(l) if l.path.is_ident("not") => parts(l)?.first().and_then(cond).map(|x| !x),
        Meta::List(l) if l.path.is_ident("all") => {
            let v: Vec<_> = parts(l)?.iter().map(cond).collect();
            if v.contains(&Some(false)) { Some(false) } else if v.contains(&None) { None } else { Some(true) }
        }
        Meta::List(l) if l.path.is_ident("any") => {
            let v: Vec<_> = parts(l)?.iter().map(cond).collect();
            if v.contains(&Some(true)) { Some(true) } else if v.contains(&None) { None } else { Some(false) }
        }
        _ => None,
    }
}
/// not compiled
fn skipped(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.parse_args::<Meta>().map_or(false, |m| cond(&m) == Some(false)))
}
fn attrs_of(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs, Item::Enum(x) => &x.attrs, Item::Fn(x) => &x.attrs, Item::Impl(x) => &x.attrs, Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs, Item::Static(x) => &x.attrs, Item::Struct(x) => &x.attrs, Item::Trait(x) => &x.attrs, Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs, _ => &[],
    }
}

const STD_FNS: &[&str] = &["min", "max", "swap", "replace", "take", "drop", "once", "repeat", "successors", "from_fn", "zip"];
const STD_NAMES: &[&str] = &["std", "core", "cmp", "mem", "iter", "ptr", "slice", "option", "result", "collections", "sync", "fmt", "ops", "borrow", "num", "convert",
    "marker", "Vec", "Option", "Some", "None", "Result", "Ok", "Err", "HashMap", "Arc", "RwLock", "Box", "String", "Ordering", "PhantomData", "Rev", "Range",
    "Deref", "DerefMut", "Borrow", "BorrowMut", "Into", "From", "Iterator", "IntoIterator", "Clone", "Copy", "PartialEq", "PartialOrd", "Ord", "Eq", "Default",
    "Add", "Sub", "Mul", "Div", "Neg", "usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "bool", "char", "str"];

/// The names a file gives, at any depth
struct Names { given: Vec<(String, &'static str)>, renamed: Vec<(String, String)>, bound: BTreeSet<String>, called: BTreeSet<String>, odd: BTreeSet<String>, depth: usize }
impl<'a> Visit<'a> for Names {
    fn visit_item(&mut self, i: &'a Item) {
        if skipped(attrs_of(i)) { return; }
        let n = match i {
            Item::Const(x) => Some((x.ident.to_string(), "const")),
            Item::Enum(x) => Some((x.ident.to_string(), "type")),
            Item::Struct(x) => Some((x.ident.to_string(), "type")),
            Item::Type(x) => Some((x.ident.to_string(), "type")),
            Item::Trait(x) => Some((x.ident.to_string(), "type")),
            Item::Union(x) => Some((x.ident.to_string(), "type")),
            Item::Fn(x) => Some((x.sig.ident.to_string(), "fn")),
            Item::Static(x) => Some((x.ident.to_string(), "const")),
            Item::Mod(x) => Some((x.ident.to_string(), "mod")),
            Item::Macro(x) => {
                if let Some(n) = &x.ident { self.odd.insert(format!("macro {n}")); }
                else if !x.mac.path.is_ident("lazy_static") { self.odd.insert(format!("items of a macro {}", x.mac.path.segments.last().unwrap().ident)); }
                None
            }
            Item::Impl(x) => {
                if let Some((_, p, _)) = &x.trait_ { if p.segments.last().unwrap().ident == "Drop" { self.odd.insert(format!("Drop for {}", type_name(&x.self_ty))); } }
                for it in &x.items { if let ImplItem::Macro(m) = it { self.odd.insert(format!("items of a macro {}", m.mac.path.segments.last().unwrap().ident)); } }
                None
            }
            _ => None,
        };
        if let Some((n, k)) = n { if self.depth > 0 || k == "mod" || STD_FNS.contains(&&*n) || STD_NAMES.contains(&&*n) { self.given.push((n, k)); } }
        visit::visit_item(self, i);
    }
    fn visit_block(&mut self, b: &'a Block) {
        self.depth += 1;
        visit::visit_block(self, b);
        self.depth -= 1;
    }
    fn visit_use_rename(&mut self, u: &'a UseRename) { self.renamed.push((u.ident.to_string(), u.rename.to_string())); }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.bound.insert(p.ident.to_string()); }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func { if p.path.segments.len() == 1 { self.called.insert(p.path.segments[0].ident.to_string()); } }
        visit::visit_expr_call(self, c);
    }
}

impl Db {
    pub fn load(repo: &Path) -> std::result::Result<Db, String> {
        let mut db = Db {
            structs: vec![], enums: vec![], types: vec![], consts: vec![], fns: vec![],
            impls: vec![], traits: vec![], files: vec![], statics: vec![], odd: BTreeSet::new(),
        };
        let mut names: Vec<(String, &'static str)> = vec![];
        let mut renamed: Vec<(String, String)> = vec![];
        db.file(&repo.join("src/lib.rs"), &repo.join("src"), &mut names, &mut renamed)?;
        // a name that means two things
        let mut top: BTreeMap<String, usize> = BTreeMap::new();
        for n in db.structs.iter().map(|x| &x.ident).chain(db.enums.iter().map(|x| &x.ident)).chain(db.types.iter().map(|x| &x.ident)).chain(db.consts.iter().map(|x| &x.ident))
            .chain(db.traits.iter().map(|x| &x.ident)) { *top.entry(n.to_string()).or_default() += 1; }
        for (n, k) in &top { if *k > 1 { db.odd.insert(format!("{k} items {n}")); } }
        for f in &db.fns { *top.entry(f.sig.ident.to_string()).or_default() += 1; }
        for (n, k) in names {
            if STD_NAMES.contains(&&*n) || STD_FNS.contains(&&*n) || (k != "mod" && top.contains_key(&n)) { db.odd.insert(format!("{k} {n}")); }
        }
        for (o, n) in renamed {
            if STD_NAMES.contains(&&*n) || STD_FNS.contains(&&*n) || top.contains_key(&n) { db.odd.insert(format!("{o} as {n}")); }
        }
        Ok(db)
    }

    fn file(&mut self, path: &Path, dir: &Path, names: &mut Vec<(String, &'static str)>, renamed: &mut Vec<(String, String)>) -> std::result::Result<(), String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
        let f = syn::parse_file(&text).map_err(|e| format!("{}: {e}", path.display()))?;
        self.files.push((path.display().to_string(), text.lines().count()));
        let mut n = Names { given: vec![], renamed: vec![], bound: BTreeSet::new(), called: BTreeSet::new(), odd: BTreeSet::new(), depth: 0 };
        n.visit_file(&f);
        for x in n.bound.intersection(&n.called) { if STD_FNS.contains(&&**x) { n.odd.insert(format!("a variable {x} that is called")); } }
        names.extend(n.given);
        renamed.extend(n.renamed);
        self.odd.extend(n.odd);
        self.items(f.items, dir, names, renamed)
    }

    fn items(&mut self, items: Vec<Item>, dir: &Path, names: &mut Vec<(String, &'static str)>, renamed: &mut Vec<(String, String)>) -> std::result::Result<(), String> {
        for it in items {
            match it {
                Item::Struct(x) if !skipped(&x.attrs) => self.structs.push(x),
                Item::Enum(x) if !skipped(&x.attrs) => self.enums.push(x),
                Item::Type(x) if !skipped(&x.attrs) => self.types.push(x),
                Item::Const(x) if !skipped(&x.attrs) => self.consts.push(x),
                Item::Fn(x) if !skipped(&x.attrs) => self.fns.push(x),
                Item::Impl(x) if !skipped(&x.attrs) => self.impls.push(x),
                Item::Trait(x) if !skipped(&x.attrs) => self.traits.push(x),
                Item::Mod(m) if !skipped(&m.attrs) => {
                    let name = m.ident.to_string();
                    if m.attrs.iter().any(|a| a.path().is_ident("path") || a.path().is_ident("cfg_attr")) { self.odd.insert(format!("a path for mod {name}")); }
                    if let Some((_, items)) = m.content {
                        self.items(items, &dir.join(&name), names, renamed)?;
                    } else {
                        let a: PathBuf = dir.join(format!("{name}.rs"));
                        let b: PathBuf = dir.join(&name).join("mod.rs");
                        let p = if a.exists() { a } else { b };
                        self.file(&p, &dir.join(&name), names, renamed)?;
                    }
                }
                Item::Macro(m) if m.mac.path.is_ident("lazy_static") => {
                    let parser = |s: parse::ParseStream| -> syn::Result<Vec<(String, Expr)>> {
                        let mut out = vec![];
                        while !s.is_empty() {
                            Attribute::parse_outer(s)?;
                            s.parse::<Visibility>()?;
                            s.parse::<Token![static]>()?;
                            s.parse::<Token![ref]>()?;
                            let n: Ident = s.parse()?;
                            s.parse::<Token![:]>()?;
                            s.parse::<Type>()?;
                            s.parse::<Token![=]>()?;
                            let e: Expr = s.parse()?;
                            s.parse::<Token![;]>()?;
                            out.push((n.to_string(), e));
                        }
                        Ok(out)
                    };
                    match parse::Parser::parse2(parser, m.mac.tokens.clone()) {
                        Ok(v) => self.statics.extend(v),
                        Err(_) => { self.odd.insert("lazy_static".into()); }
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
}

/// Last path segment of a type: the name under which the unit files refer to it.
pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        Type::Paren(p) => type_name(&p.elem),
        Type::Tuple(_) => "()".into(),
        _ => String::new(),
    }
}
