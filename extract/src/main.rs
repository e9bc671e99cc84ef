//! vx: mechanical extraction of functions of the repository under check into
//! one Verus file.  usage: vx SPEC REPO OUT.rs OUT.map
//! exit 0: extracted; exit 3: an anchor named by SPEC is gone from the source
//! (the lost anchors are listed in OUT.map, one `lost NAME` line each).
mod spec;
mod rewrite;
mod emit;
mod cat;
mod mrules;

use std::collections::HashMap;
use std::fs;

pub struct Sources {
    pub fns: HashMap<String, FnSrc>,
    pub structs: HashMap<String, syn::ItemStruct>,
    pub enums: HashMap<String, syn::ItemEnum>,
    pub types: HashMap<String, syn::ItemType>,
    pub consts: HashMap<String, syn::ImplItemConst>,
    pub macros: HashMap<String, Vec<Arm>>,
    pub rules: HashMap<String, mrules::Rules>,
    pub statics: HashMap<String, (String, syn::Type, syn::Expr)>, // thread_local! statics: (file, type, initialiser)
}
/// an arm of a `macro_rules!`: its variables, its body, and which variables occur only as `$x.reflect()`
#[derive(Clone)]
pub struct Arm { pub vars: Vec<String>, pub body: proc_macro2::TokenStream, pub refl: Vec<bool> }
#[derive(Clone)]
pub struct FnSrc {
    pub file: String,
    pub line: usize,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub tyvars: Vec<(String, bool)>, // (name, is function-like), from impl + fn generics
    pub self_ty: Option<String>,
    pub gens: Vec<(syn::Generics, bool)>, // (type parameters, of the impl or trait)
}

fn is_fnlike(bounds: &str) -> bool { bounds.contains("Fn") }

pub fn generics_vars(g: &syn::Generics, out: &mut Vec<(String, bool)>) {
    use quote::ToTokens;
    for p in &g.params {
        if let syn::GenericParam::Type(t) = p {
            let mut b = t.bounds.to_token_stream().to_string();
            if let Some(w) = &g.where_clause {
                for p in &w.predicates {
                    if let syn::WherePredicate::Type(pt) = p {
                        if pt.bounded_ty.to_token_stream().to_string() == t.ident.to_string() {
                            b.push_str(&pt.bounds.to_token_stream().to_string());
                        }
                    }
                }
            }
            out.push((t.ident.to_string(), is_fnlike(&b)));
        }
    }
}

fn last_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => { use quote::ToTokens; t.to_token_stream().to_string().replace(' ', "") }
    }
}

/// `$x` replaced by `f(x)`
pub fn fill(ts: &proc_macro2::TokenStream, f: &dyn Fn(&str) -> proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::*;
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let mut o = TokenStream::new(); let mut i = 0;
    while i < v.len() {
        match (&v[i], v.get(i + 1)) {
            (TokenTree::Punct(p), Some(TokenTree::Ident(id))) if p.as_char() == '$' => { o.extend(f(&id.to_string())); i += 2; continue }
            (TokenTree::Group(g), _) => o.extend([TokenTree::Group(Group::new(g.delimiter(), fill(&g.stream(), f)))]),
            (t, _) => o.extend([t.clone()]),
        }
        i += 1;
    }
    o
}
/// `x.reflect()` replaced by `x`, for each x of `vars`
fn unreflect(ts: proc_macro2::TokenStream, vars: &[String]) -> proc_macro2::TokenStream {
    use proc_macro2::*;
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut o = TokenStream::new(); let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id) if vars.contains(&id.to_string()) && matches!(v.get(i + 2), Some(TokenTree::Ident(r)) if r == "reflect") => { o.extend([v[i].clone()]); i += 4; continue }
            TokenTree::Group(g) => o.extend([TokenTree::Group(Group::new(g.delimiter(), unreflect(g.stream(), vars)))]),
            t => o.extend([t.clone()]),
        }
        i += 1;
    }
    o
}
fn arms(ts: proc_macro2::TokenStream) -> Vec<Arm> {
    use proc_macro2::*;
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let gs: Vec<Group> = v.into_iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None }).collect();
    let mut out = vec![];
    for c in gs.chunks(2) { if c.len() == 2 {
        let m: Vec<TokenTree> = c[0].stream().into_iter().collect();
        let mut vars = vec![];
        for w in m.windows(2) { if let (TokenTree::Punct(p), TokenTree::Ident(i)) = (&w[0], &w[1]) { if p.as_char() == '$' { vars.push(i.to_string()) } } }
        // occurrences, and those followed by `.reflect()`
        fn count(ts: TokenStream, x: &str) -> (usize, usize) {
            let v: Vec<TokenTree> = ts.into_iter().collect(); let (mut a, mut b) = (0, 0);
            for i in 0..v.len() {
                if let TokenTree::Group(g) = &v[i] { let (c, d) = count(g.stream(), x); a += c; b += d }
                if let (TokenTree::Punct(p), Some(TokenTree::Ident(id))) = (&v[i], v.get(i + 1)) { if p.as_char() == '$' && id == x { a += 1;
                    if let (Some(TokenTree::Punct(d)), Some(TokenTree::Ident(r)), Some(TokenTree::Group(g))) = (v.get(i + 2), v.get(i + 3), v.get(i + 4)) { if d.as_char() == '.' && r == "reflect" && g.stream().is_empty() { b += 1 } } } }
            }
            (a, b)
        }
        let refl = vars.iter().map(|x| { let (a, b) = count(c[1].stream(), x); a > 0 && a == b }).collect();
        out.push(Arm { vars, body: c[1].stream(), refl });
    } }
    out
}

/// functions defined within a function
fn nested(file: &str, b: &syn::Block, src: &mut Sources) {
    for st in &b.stmts { if let syn::Stmt::Item(syn::Item::Fn(f)) = st {
        let mut tv = vec![]; generics_vars(&f.sig.generics, &mut tv);
        src.fns.insert(f.sig.ident.to_string(), FnSrc{ file: file.into(), line: f.sig.ident.span().start().line,
            sig: f.sig.clone(), block: (*f.block).clone(), tyvars: tv, self_ty: None, gens: vec![(f.sig.generics.clone(), false)] });
    } }
}

/// items are also found by `FILE#MOD::NAME` (types and functions of the same name), functions by
/// the whole self type
fn collect(file: &str, mp: &str, items: &[syn::Item], src: &mut Sources) {
    for it in items {
        match it {
            syn::Item::Fn(f) => {
                if f.attrs.iter().any(|a| a.path().is_ident("test")) { continue }
                let mut tv = vec![]; generics_vars(&f.sig.generics, &mut tv);
                let fs = FnSrc{ file: file.into(), line: f.sig.ident.span().start().line,
                    sig: f.sig.clone(), block: (*f.block).clone(), tyvars: tv, self_ty: None, gens: vec![(f.sig.generics.clone(), false)] };
                src.fns.insert(format!("{}#{}{}", file, mp, f.sig.ident), fs.clone());
                src.fns.insert(f.sig.ident.to_string(), fs);
                nested(file, &f.block, src);
            }
            syn::Item::Impl(im) => {
                let ty = last_ident(&im.self_ty);
                for ii in &im.items {
                    match ii {
                        syn::ImplItem::Fn(f) => {
                            let mut tv = vec![]; generics_vars(&im.generics, &mut tv); generics_vars(&f.sig.generics, &mut tv);
                            let fs = FnSrc{ file: file.into(), line: f.sig.ident.span().start().line, sig: f.sig.clone(), block: f.block.clone(),
                                tyvars: tv, self_ty: Some(ty.clone()), gens: vec![(im.generics.clone(), true), (f.sig.generics.clone(), false)] };
                            nested(file, &f.block, src);
                            if let Some((_, tr, _)) = &im.trait_ {
                                let trn = tr.segments.last().unwrap().ident.to_string();
                                src.fns.insert(format!("{}::{}@{}", ty, f.sig.ident, trn), fs.clone());
                                use quote::ToTokens;
                                let full = im.self_ty.to_token_stream().to_string().replace(' ', "");
                                src.fns.insert(format!("{}#{}{}::{}@{}", file, mp, full, f.sig.ident, trn), fs.clone());
                                if full != ty { src.fns.insert(format!("{}::{}@{}", full, f.sig.ident, trn), fs.clone()); }
                            }
                            src.fns.insert(format!("{}::{}", ty, f.sig.ident), fs);
                        }
                        syn::ImplItem::Const(c) => { src.consts.insert(format!("{}::{}", ty, c.ident), c.clone()); }
                        _ => {}
                    }
                }
            }
            syn::Item::Trait(tr) => {
                for ti in &tr.items {
                    if let syn::TraitItem::Fn(f) = ti { if let Some(b) = &f.default {
                        let mut tv = vec![]; generics_vars(&tr.generics, &mut tv); generics_vars(&f.sig.generics, &mut tv);
                        src.fns.insert(format!("{}::{}", tr.ident, f.sig.ident), FnSrc{ file: file.into(), line: f.sig.ident.span().start().line,
                            sig: f.sig.clone(), block: b.clone(), tyvars: tv, self_ty: Some(tr.ident.to_string()),
                            gens: vec![(tr.generics.clone(), true), (f.sig.generics.clone(), false)] });
                    }}
                }
            }
            syn::Item::Type(s) => { src.types.insert(format!("{}#{}{}", file, mp, s.ident), s.clone()); src.types.insert(s.ident.to_string(), s.clone()); }
            syn::Item::Struct(s) => { src.structs.insert(format!("{}#{}{}", file, mp, s.ident), s.clone()); src.structs.insert(s.ident.to_string(), s.clone()); }
            syn::Item::Enum(s) => { src.enums.insert(format!("{}#{}{}", file, mp, s.ident), s.clone()); src.enums.insert(s.ident.to_string(), s.clone()); }
            syn::Item::Macro(m) if m.mac.path.is_ident("macro_rules") && m.ident.is_some() => {
                let name = m.ident.as_ref().unwrap().to_string();
                let arms = arms(m.mac.tokens.clone());
                src.rules.insert(name.clone(), mrules::rules(m.mac.tokens.clone()));
                for a in &arms {
                    let mut body = fill(&a.body, &|v| { let i: proc_macro2::Ident = proc_macro2::Ident::new(v, proc_macro2::Span::call_site()); quote::quote!(#i) });
                    if a.refl.iter().any(|x| *x) { body = unreflect(body, &a.vars.iter().zip(&a.refl).filter(|(_, r)| **r).map(|(v, _)| v.clone()).collect::<Vec<_>>()); }
                    if let Ok(block) = syn::parse2::<syn::Block>(quote::quote!({ #body })) {
                        let ps: Vec<syn::Ident> = a.vars.iter().map(|v| syn::Ident::new(v, proc_macro2::Span::call_site())).collect();
                        let sig: syn::Signature = syn::parse_quote!(fn m(#(#ps: ()),*));
                        src.fns.insert(format!("macro {}_{}", name, a.vars.len()), FnSrc { file: file.into(), line: m.ident.as_ref().unwrap().span().start().line, sig, block, tyvars: vec![], self_ty: None, gens: vec![] });
                    }
                }
                src.macros.insert(name, arms);
            }
            syn::Item::Macro(m) if m.mac.path.is_ident("thread_local") => {
                let p = |input: syn::parse::ParseStream| -> syn::Result<Vec<(String, syn::Type, syn::Expr)>> {
                    let mut v = vec![];
                    while !input.is_empty() {
                        let _ = input.call(syn::Attribute::parse_outer)?;
                        let _: syn::Visibility = input.parse()?;
                        let _: syn::Token![static] = input.parse()?;
                        let n: syn::Ident = input.parse()?;
                        let _: syn::Token![:] = input.parse()?;
                        let t: syn::Type = input.parse()?;
                        let _: syn::Token![=] = input.parse()?;
                        let e: syn::Expr = input.parse()?;
                        if input.peek(syn::Token![;]) { let _: syn::Token![;] = input.parse()?; }
                        v.push((n.to_string(), t, e));
                    }
                    Ok(v)
                };
                if let Ok(v) = syn::parse::Parser::parse2(p, m.mac.tokens.clone()) {
                    for (n, t, e) in v { src.statics.insert(n, (file.to_string(), t, e)); }
                }
            }
            syn::Item::Mod(m) => { if let Some((_, its)) = &m.content { collect(file, &format!("{}{}::", mp, m.ident), its, src) } }
            _ => {}
        }
    }
}

/// unsafe code of the crate, by the function it is in
struct Unsafe { at: Vec<String>, ty: String, found: Vec<String> }
impl Unsafe { fn note(&mut self) { let n = self.at.last().cloned().unwrap_or("-".into()); self.found.push(n) } }
impl<'a> syn::visit::Visit<'a> for Unsafe {
    fn visit_expr_unsafe(&mut self, e: &'a syn::ExprUnsafe) { self.note(); syn::visit::visit_expr_unsafe(self, e) }
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
        self.at.push(f.sig.ident.to_string()); if f.sig.unsafety.is_some() { self.note() } syn::visit::visit_item_fn(self, f); self.at.pop(); }
    fn visit_item_impl(&mut self, f: &'a syn::ItemImpl) {
        let o = std::mem::replace(&mut self.ty, last_ident(&f.self_ty)); if f.unsafety.is_some() { self.note() } syn::visit::visit_item_impl(self, f); self.ty = o; }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        self.at.push(format!("{}::{}", self.ty, f.sig.ident)); if f.sig.unsafety.is_some() { self.note() } syn::visit::visit_impl_item_fn(self, f); self.at.pop(); }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        fn has(t: proc_macro2::TokenStream) -> bool { t.into_iter().any(|x| match x { proc_macro2::TokenTree::Ident(i) => i == "unsafe", proc_macro2::TokenTree::Group(g) => has(g.stream()), _ => false }) }
        if has(m.tokens.clone()) { self.note() }
    }
}
fn unsafe_code(dir: &std::path::Path, out: &mut Vec<String>) {
    for e in fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() { unsafe_code(&p, out) }
        else if p.extension().map_or(false, |x| x == "rs") {
            if let Some(f) = fs::read_to_string(&p).ok().and_then(|t| syn::parse_file(&t).ok()) {
                let mut u = Unsafe { at: vec![], ty: String::new(), found: vec![] };
                syn::visit::Visit::visit_file(&mut u, &f); out.extend(u.found) } }
    }
}
/// `|P, Q| BODY` becomes `|p0, p1| { let P = p0; let Q = p1; BODY }`
struct PlainClosures;
impl syn::visit_mut::VisitMut for PlainClosures {
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        syn::visit_mut::visit_expr_closure_mut(self, c);
        let mut lets: Vec<syn::Stmt> = vec![];
        for (i, p) in c.inputs.iter_mut().enumerate() {
            let n = syn::Ident::new(&format!("p{}", i), proc_macro2::Span::call_site());
            let old = std::mem::replace(p, syn::parse_quote!(#n));
            lets.push(match old { syn::Pat::Type(t) => { let (a, b) = (t.pat, t.ty); syn::parse_quote!(let #a : #b = #n;) } syn::Pat::Wild(_) => continue, o => syn::parse_quote!(let #o = #n;) });
        }
        let b = &c.body;
        *c.body = syn::parse_quote!({ #(#lets)* #b });
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let sp = spec::parse(&fs::read_to_string(&a[1]).expect("spec"), &a[1]);
    let mut src = Sources{ fns: HashMap::new(), structs: HashMap::new(), enums: HashMap::new(), types: HashMap::new(), consts: HashMap::new(), statics: HashMap::new(), macros: HashMap::new(), rules: HashMap::new() };
    let mut lost: Vec<String> = vec![];
    for f in &sp.sources {
        let text = match fs::read_to_string(format!("{}/{}", a[2], f)) { Ok(t) => t, Err(_) => { lost.push(format!("file {}", f)); continue } };
        match syn::parse_file(&text) {
            Ok(file) => collect(f, "", &file.items, &mut src),
            Err(e) => lost.push(format!("parse {}: {}", f, e)),
        }
    }
    // uses of macros: the invocation, expanded by the arms of the source
    for it in &sp.items { if let spec::Item::Fn(f) = it { if let Some(u) = &f.usex {
        let b = u.parse::<proc_macro2::TokenStream>().ok().and_then(|t| mrules::expand(t, &src.rules, 0)).and_then(|t| syn::parse2::<syn::Block>(quote::quote!({ #t })).ok());
        if let Some(mut block) = b {
            let mut c = PlainClosures; syn::visit_mut::VisitMut::visit_block_mut(&mut c, &mut block);
            src.fns.insert(f.name.clone(), FnSrc { file: sp.sources[0].clone(), line: 1, sig: syn::parse_quote!(fn m()), block, tyvars: vec![], self_ty: None, gens: vec![] });
        }
    } } }
    for d in &sp.derives {
        let attrs = src.structs.get(&d[0]).map(|x| x.attrs.clone()).or(src.enums.get(&d[0]).map(|x| x.attrs.clone())).unwrap_or_default();
        let mut have: Vec<String> = vec![];
        for at in &attrs { if at.path().is_ident("derive") { use quote::ToTokens; have.push(at.to_token_stream().to_string()) } }
        for t in &d[1..] { if !have.iter().any(|h| h.split(|c: char| !c.is_alphanumeric()).any(|w| w == t)) { lost.push(format!("derive {} on {}", t, d[0])) } }
    }
    if let Some(ok) = &sp.unsafe_ok {
        let mut u = vec![]; unsafe_code(std::path::Path::new(&format!("{}/src", a[2])), &mut u);
        let under: Vec<String> = sp.items.iter().filter_map(|i| if let spec::Item::Fn(f) = i { Some(f.name.split('@').next().unwrap().to_string()) } else { None }).collect();
        for n in u { if !under.contains(&n) && !ok.contains(&n) { lost.push(format!("unsafe {}", n)) } }
    }
    let (out, map) = emit::emit(&sp, &src, &mut lost);
    fs::write(&a[3], out).unwrap();
    let mut m = map;
    for l in &lost { m.push_str(&format!("lost {}\n", l)); }
    fs::write(&a[4], m).unwrap();
    if !lost.is_empty() { std::process::exit(3) }
}
