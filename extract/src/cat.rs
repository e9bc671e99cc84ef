//! Extraction of the functions of the catalog (lists, trees, maps, tries).
//! Unlike the engine's functions these keep their type parameters; what
//! changes is listed in DESIGN.md: type parameters bounded by a collection
//! trait become the collection, an elimination with closures becomes a match on
//! the eliminator's own (also extracted) case distinction, memo!/eager!/thunk!
//! become the call they stand for, closures are named and get a contract.
use crate::emit::{expand, pretty, Attach};
use crate::rewrite::*;
use crate::spec::{FnSpec, Spec};
use crate::{FnSrc, Sources};
use std::collections::HashSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), _ => e } }
fn unref(e: &Expr) -> &Expr {
    match strip(e) {
        Expr::Reference(r) => unref(&r.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => unref(&u.expr),
        x => x,
    }
}
fn nsp<T: quote::ToTokens>(t: &T) -> String { s(t).replace(' ', "") }
fn pst(t: &str) -> Stmt { parse_str::<Stmt>(t).unwrap_or_else(|e| panic!("cannot parse {}: {}", t, e)) }
fn ident(e: &Expr) -> Option<String> { if let Expr::Path(p) = strip(e) { if p.qself.is_none() && p.path.segments.len() == 1 { return Some(p.path.segments[0].ident.to_string()) } } None }
fn mac_name(m: &Macro) -> String { m.path.segments.last().unwrap().ident.to_string() }
fn mac_args(m: &Macro) -> Vec<Expr> {
    m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default()
}
fn base(t: &str) -> String { t.split('<').next().unwrap().trim().to_string() }
fn fn_bound(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> Option<Path> {
    b.iter().find_map(|x| if let TypeParamBound::Trait(t) = x { let n = t.path.segments.last().unwrap().ident.to_string(); if n.starts_with("Fn") { return Some(t.path.clone()) } None } else { None })
}
/// name(expr) =>> fun <..>, a:e, b:e ;; c:e
fn memo_call(m: &Macro) -> Option<(Expr, Path, Vec<Expr>)> {
    let p = |input: syn::parse::ParseStream| -> Result<(Expr, Path, Vec<Expr>)> {
        let n: Expr = input.parse()?;
        input.parse::<Token![=>]>()?; input.parse::<Token![>]>()?;
        let mut segs: Vec<Ident> = vec![];
        loop {
            if input.peek(Token![Self]) { input.parse::<Token![Self]>()?; segs.push(Ident::new("Self", proc_macro2::Span::call_site())) } else { segs.push(input.parse()?) }
            if input.peek(Token![::]) && input.peek3(Token![<]) { input.parse::<AngleBracketedGenericArguments>()?; break }
            if input.peek(Token![::]) { input.parse::<Token![::]>()?; continue }
            if input.peek(Token![<]) { input.parse::<AngleBracketedGenericArguments>()?; }
            break
        }
        if input.peek(Token![=>]) { input.parse::<Token![=>]>()?; input.parse::<Token![>]>()?; input.parse::<AngleBracketedGenericArguments>()?; }
        let mut args = vec![];
        while !input.is_empty() {
            if input.peek(Token![,]) { input.parse::<Token![,]>()?; continue }
            if input.peek(Token![;]) { input.parse::<Token![;]>()?; continue }
            input.parse::<Ident>()?; input.parse::<Token![:]>()?;
            args.push(input.parse::<Expr>()?);
        }
        let t = segs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("::");
        Ok((n, parse_str(&t)?, args))
    };
    syn::parse::Parser::parse2(p, m.tokens.clone()).ok()
}
/// names of the parameters in a closure header `(a: T, b: U) -> ..`
fn header_params(h: &str) -> Vec<String> {
    let mut d = 0i32; let mut cur = String::new(); let mut v = vec![]; let mut prev = ' ';
    for c in h.trim().chars() {
        match c {
            '(' | '[' | '<' => { d += 1; if d == 1 { continue } }
            ')' | ']' => { d -= 1; if d == 0 { if !cur.trim().is_empty() { v.push(cur.clone()) } break } }
            '>' if prev != '-' => d -= 1,
            ',' if d == 1 => { v.push(std::mem::take(&mut cur)); prev = c; continue }
            _ => {}
        }
        cur.push(c); prev = c;
    }
    v.iter().map(|x| x.split(':').next().unwrap().trim().to_string()).collect()
}
fn match_paren(t: &str, open: usize) -> usize {
    let b: Vec<char> = t.chars().collect(); let _ = b;
    let mut d = 0i32; let mut st = false; let mut prev = ' ';
    for (i, c) in t[open..].char_indices() {
        if c == '"' && prev != '\\' { st = !st }
        if !st { match c { '(' | '[' | '{' => d += 1, ')' | ']' | '}' => { d -= 1; if d == 0 { return open + i } } _ => {} } }
        prev = c;
    }
    panic!("unbalanced")
}

struct Open { handlers: Vec<String>, variants: Vec<(String, usize)>, view: String, arg: Option<String>, byref: bool, fname: String, npre: usize }
pub struct Cat<'a> {
    sp: &'a Spec, src: &'a Sources, f: &'a FnSpec,
    tys: Vec<(String, String)>,
    fntys: Vec<String>,
    selfty: Option<String>,
    fnvars: HashSet<String>,
    dynp: Vec<(String, String)>,
    nclo: usize, ord: usize,
    pending: Vec<String>,
    open: Option<Open>,
    lost: Vec<String>,
    refs: Vec<String>, // parameters of type &usize: arithmetic and comparison see through the reference
}
impl<'a> Cat<'a> {
    fn tyvar(&self, n: &str) -> Option<String> { self.tys.iter().find(|(a, _)| a == n).map(|x| x.1.clone()) }
    fn lose(&mut self, t: &str) { let x = format!("shape {} {}", self.f.name, t); if !self.lost.contains(&x) { self.lost.push(x) } }
    fn from_bounds(&self, bounds: &[&Path]) -> Option<String> {
        for b in bounds {
            let sg = b.segments.last().unwrap();
            if let Some((_, t)) = self.sp.ctys.iter().find(|(n, _)| sg.ident == n) {
                let mut t = t.clone();
                if let PathArguments::AngleBracketed(a) = &sg.arguments {
                    for (i, x) in a.args.iter().enumerate() { if let GenericArgument::Type(ty) = x {
                        let mut ty = ty.clone(); let mut c = Sub { tys: &self.tys }; c.visit_type_mut(&mut ty);
                        t = t.replace(&format!("${}", i + 1), &s(&ty)) } }
                }
                return Some(t)
            }
        }
        None
    }
    fn fn_sig(&mut self, p: &Path) -> String {
        let mut p = p.clone();
        let sg = p.segments.last_mut().unwrap();
        if let PathArguments::Parenthesized(a) = &mut sg.arguments {
            for t in a.inputs.iter_mut() { self.visit_type_mut(t) }
            if let ReturnType::Type(_, t) = &mut a.output { self.visit_type_mut(t) }
        }
        s(sg)
    }
    fn bind_fn(&mut self, e: &Expr, p: &Pat) {
        match (strip(e), p) {
            (Expr::Tuple(t), Pat::Tuple(q)) => for (a, b) in t.elems.iter().zip(q.elems.iter()) { self.bind_fn(a, b) },
            (e, Pat::Ident(i)) => { if self.is_fn(e) { self.fnvars.insert(i.ident.to_string()); } else { self.fnvars.remove(&i.ident.to_string()); } }
            (e, Pat::Type(t)) => { let q = (*t.pat).clone(); self.bind_fn(&e.clone(), &q) }
            _ => {}
        }
    }
    fn is_fn(&self, e: &Expr) -> bool {
        if let Some(i) = ident(e) { return self.fnvars.contains(&i) }
        match strip(e) {
            Expr::MethodCall(m) if m.method == "clone" => self.is_fn(&m.receiver),
            Expr::Reference(r) => self.is_fn(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.is_fn(&u.expr),
            _ => false,
        }
    }
    fn blockify(&mut self, e: &Expr) -> String { // its own statement context
        let mut b: Block = match strip(e) { Expr::Block(b) if b.label.is_none() => b.block.clone(), x => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(x.clone(), None)] } };
        let save = self.fnvars.clone();
        self.visit_block_mut(&mut b);
        self.fnvars = save;
        s(&b)
    }
    fn pat(&mut self, p: &Pat) -> Pat { match p { Pat::Type(t) => (*t.pat).clone(), Pat::Paren(t) => self.pat(&t.pat), p => p.clone() } }
    fn apply_lit(&mut self, c: &ExprClosure, args: &[String]) -> String { // beta
        if c.inputs.len() != args.len() { self.lose("closure arity"); return "()".into() }
        let mut o = String::from("{ ");
        for (p, a) in c.inputs.iter().zip(args) { let p = self.pat(p); if matches!(p, Pat::Wild(_)) { continue } o.push_str(&format!("let {} = {}; ", s(&p), a)); }
        let b = self.blockify(&c.body);
        o.push_str(&b); o.push_str(" }"); o
    }
    fn base_of(&self, seg: &str) -> Option<String> {
        if seg == "Self" { return self.selfty.as_ref().map(|t| base(t)) }
        if let Some(t) = self.tyvar(seg) { return Some(base(&t)) }
        if let Some((_, t)) = self.sp.ctys.iter().find(|(n, _)| n == seg) { return Some(base(t)) }
        if self.sp.views.iter().any(|v| v[0] == seg) { return Some(seg.into()) }
        None
    }
    fn elim(&mut self, c: &ExprCall) -> Option<Expr> {
        let p = if let Expr::Path(p) = strip(&c.func) { p } else { return None };
        if p.path.segments.len() < 2 { return None }
        let name = p.path.segments.last().unwrap().ident.to_string();
        if !matches!(name.as_str(), "elim" | "elim_arg" | "elim_ref") { return None }
        let b = self.base_of(&p.path.segments[0].ident.to_string())?;
        let v = self.sp.views.iter().find(|v| v[0] == b)?.clone();
        let variants: Vec<String> = v[2..].to_vec();
        let byref = match self.src.fns.get(&format!("{}::{}", b, name)) { Some(x) => matches!(x.sig.inputs.first(), Some(FnArg::Typed(t)) if matches!(&*t.ty, Type::Reference(_))), None => { self.lose("eliminator"); return None } };
        let n = c.args.len();
        let pre = n.checked_sub(variants.len())?;
        if pre < 1 || pre > 2 { self.lose("elimination"); return None }
        let arg = if pre == 2 { Some(c.args[1].clone()) } else { None };
        let mut subj = c.args[0].clone(); self.visit_expr_mut(&mut subj);
        let mut o = String::from("{ ");
        if let Some(a) = &arg { let mut a2 = a.clone(); self.visit_expr_mut(&mut a2); o.push_str(&format!("let vp_a = {}; ", s(&a2))); }
        o.push_str(&format!("match {}::vp_open_{}({}) {{ ", b, name, s(&subj)));
        for (i, vr) in variants.iter().enumerate() {
            let (vn, k) = vr.split_once('/').unwrap(); let k: usize = k.parse().unwrap();
            let fs: Vec<String> = (0..k).map(|j| format!("vp_f{}", j)).collect();
            let patx = if k == 0 { String::new() } else { format!("({})", fs.join(", ")) };
            let mut args: Vec<String> = fs.iter().map(|x| if byref { format!("&{}", x) } else { x.clone() }).collect();
            if arg.is_some() { args.push("vp_a".into()) }
            let h = &c.args[pre + i];
            let body = match strip(h) {
                Expr::Closure(cl) => {
                    let save = self.fnvars.clone();
                    if let (Some(a), Some(p)) = (&arg, cl.inputs.last()) { let p = self.pat(p); self.bind_fn(a, &p) }
                    let t = self.apply_lit(cl, &args); self.fnvars = save; t }
                x => { let mut x = x.clone(); self.visit_expr_mut(&mut x); format!("{{ ({})({}) }}", s(&x), args.join(", ")) }
            };
            o.push_str(&format!("{}::{}{} => {} ", v[1], vn, patx, body));
        }
        o.push_str("} }");
        Some(pe(&o))
    }
    fn closure(&mut self, c: &ExprClosure) -> String {
        let k = self.nclo; self.nclo += 1;
        let h = match self.f.closures.get(&k) { Some(h) => h.clone(), None => { self.lose(&format!("closure {}", k)); return "()".into() } };
        let ps = header_params(h.lines().next().unwrap());
        if ps.len() != c.inputs.len() { self.lose(&format!("closure {} arity", k)); return "()".into() }
        let b = self.apply_lit(c, &ps);
        self.pending.push(format!("let vp_c{k} = vp_closure({k}, {b});"));
        format!("vp_c{}", k)
    }
    fn memo(&mut self, m: &Macro, f: &str) -> Expr {
        match memo_call(m) {
            None => { self.lose(f); pe("()") }
            Some((mut n, p, args)) => {
                self.visit_expr_mut(&mut n);
                let a: Vec<String> = args.into_iter().map(|mut x| { self.visit_expr_mut(&mut x); s(&x) }).collect();
                let mut fx = pe(&s(&p)); self.visit_expr_mut(&mut fx);
                pe(&format!("vp_{}({}, {}({}))", f, s(&n), s(&fx), a.join(", ")))
            }
        }
    }
    fn for_loop(&mut self, f: &ExprForLoop) -> Expr {
        let k = self.ord; self.ord += 1;
        let (mut e, mut rev) = (strip(&f.expr).clone(), false);
        if let Expr::MethodCall(m) = &e { if m.method == "rev" && m.args.is_empty() { rev = true; e = strip(&m.receiver).clone(); } }
        let pat = { let p = self.pat(&f.pat); s(&p) };
        let mut body = f.body.clone();
        if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() { *semi = Some(Default::default()) }
        self.visit_block_mut(&mut body);
        let bs = s(&body); let inner = &bs.trim()[1..bs.trim().len() - 1];
        if let Expr::Range(r) = &e {
            let (mut lo, mut hi) = match (&r.start, &r.end) { (Some(a), Some(b)) => ((**a).clone(), (**b).clone()), _ => { self.lose("range"); return pe("()") } };
            if matches!(r.limits, RangeLimits::Closed(_)) { self.lose("range"); return pe("()") }
            self.visit_expr_mut(&mut lo); self.visit_expr_mut(&mut hi);
            return if rev { pe(&format!("{{ let vp_n{k} = {}; let mut vp_i{k} = {}; while vp_n{k} < vp_i{k} {{ vp_inv!({k}); vp_i{k} = vp_i{k} - 1; let {pat} = vp_i{k}; {inner} vp_loopend!({k}); }} }}", s(&lo), s(&hi))) }
                else { pe(&format!("{{ let mut vp_i{k} = {}; let vp_n{k} = {}; while vp_i{k} < vp_n{k} {{ vp_inv!({k}); let {pat} = vp_i{k}; vp_i{k} = vp_i{k} + 1; {inner} vp_loopend!({k}); }} }}", s(&lo), s(&hi))) };
        }
        let mut srcv = match &e { Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => (*m.receiver).clone(), Expr::Reference(r) => (*r.expr).clone(), _ => { self.lose("for"); return pe("()") } };
        self.visit_expr_mut(&mut srcv);
        if rev { pe(&format!("{{ let vp_s{k} = &({}); let mut vp_i{k}: usize = vp_s{k}.len(); while 0 < vp_i{k} {{ vp_inv!({k}); vp_i{k} = vp_i{k} - 1; let {pat} = &vp_s{k}[vp_i{k}]; {inner} vp_loopend!({k}); }} }}", s(&srcv))) }
        else { pe(&format!("{{ let vp_s{k} = &({}); let mut vp_i{k}: usize = 0; while vp_i{k} < vp_s{k}.len() {{ vp_inv!({k}); let {pat} = &vp_s{k}[vp_i{k}]; vp_i{k} = vp_i{k} + 1; {inner} vp_loopend!({k}); }} }}", s(&srcv))) }
    }
    fn open_call(&mut self, c: &ExprCall) -> Option<Expr> {
        let o = self.open.as_ref()?;
        if let Some(id) = ident(&c.func) {
            let i = o.handlers.iter().position(|h| *h == id)?;
            let (vn, k) = o.variants[i].clone();
            let (view, byref, arg) = (o.view.clone(), o.byref, o.arg.clone());
            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
            if let Some(a) = arg { match args.pop() { Some(x) if ident(&x).as_deref() == Some(&a) => {} _ => { self.lose("handler argument"); return None } } }
            if args.len() != k { self.lose("handler arity"); return None }
            let a: Vec<String> = args.into_iter().map(|mut x| { self.visit_expr_mut(&mut x); if byref { format!("vp_own({})", s(&x)) } else { s(&x) } }).collect();
            return Some(pe(&if k == 0 { format!("{}::{}", view, vn) } else { format!("{}::{}({})", view, vn, a.join(", ")) }));
        }
        if let Expr::Path(p) = strip(&c.func) {
            let o = self.open.as_ref()?;
            if p.path.segments.len() == 2 && p.path.segments[1].ident == o.fname && self.base_of(&p.path.segments[0].ident.to_string()) == self.base_of("Self") {
                let want: Vec<String> = o.arg.iter().cloned().chain(o.handlers.iter().cloned()).collect();
                let fname = o.fname.clone(); let npre = o.npre;
                let have: Vec<String> = c.args.iter().skip(1).map(|x| ident(x).unwrap_or_default()).collect();
                if want != have || npre != 1 { self.lose("handlers of the recursive elimination"); return None }
                let mut x = c.args[0].clone(); self.visit_expr_mut(&mut x);
                return Some(pe(&format!("Self::vp_open_{}({})", fname, s(&x))));
            }
        }
        None
    }
}
struct Sub<'b> { tys: &'b [(String, String)] }
impl<'b> VisitMut for Sub<'b> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t { if p.qself.is_none() && p.path.segments.len() == 1 { let n = p.path.segments[0].ident.to_string();
            if let Some((_, b)) = self.tys.iter().find(|(a, _)| *a == n) { *t = parse_str(b).unwrap() } } }
    }
}
impl<'a> VisitMut for Cat<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        // function objects
        if let Type::Path(p) = t { if let Some(sg) = p.path.segments.last() { if sg.ident == "Rc" || sg.ident == "Box" {
            if let PathArguments::AngleBracketed(a) = &sg.arguments { if let Some(GenericArgument::Type(i)) = a.args.first() {
                if let Type::TraitObject(o) = i { if let Some(b) = fn_bound(&o.bounds) {
                    let n = format!("P{}", self.dynp.len()); let b = self.fn_sig(&b); self.dynp.push((n.clone(), b));
                    *t = parse_str(&format!("& {}", n)).unwrap(); return } }
                let n = s(i);
                if self.fntys.contains(&n) { *t = parse_str(&format!("& {}", n)).unwrap(); return }
            } }
        } } }
        visit_mut::visit_type_mut(self, t);
        if let Type::Reference(r) = t { r.lifetime = None }
        if let Type::Path(p) = t { if p.qself.is_none() && p.path.segments.len() == 1 { let n = p.path.segments[0].ident.to_string();
            if let Some(b) = self.tyvar(&n) { *t = parse_str(&b).unwrap() }
            else if n == "Self" && self.f.imp.is_none() { if let Some(b) = &self.selfty { *t = parse_str(b).unwrap() } }
        } }
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let outer = std::mem::take(&mut self.pending);
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (i, st) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let mut st = match st {
                Stmt::Item(_) => continue,
                Stmt::Macro(m) => {
                    if matches!(mac_name(&m.mac).as_str(), "println" | "print" | "eprintln") { continue }
                    let semi = m.semi_token.is_some() || i + 1 < n;
                    Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), if semi { Some(Default::default()) } else { None })
                }
                x => x,
            };
            if let Stmt::Expr(Expr::Macro(m), Some(_)) = &st { if matches!(mac_name(&m.mac).as_str(), "panic" | "unreachable" | "unimplemented" | "todo") {
                st = pst(if self.f.stops { "vp_stop::<()>();" } else { "vp_panic::<()>();" }); out.push(st); continue } }
            self.visit_stmt_mut(&mut st);
            if let Stmt::Local(l) = &mut st {
                l.attrs.clear();
                if let Some(init) = &l.init { let (e, p) = ((*init.expr).clone(), l.pat.clone()); self.bind_fn(&e, &p) }
                if let Pat::Type(t) = &mut l.pat { self.visit_type_mut(&mut t.ty) }
            }
            for p in std::mem::take(&mut self.pending) { out.push(pst(&p)) }
            out.push(st);
        }
        b.stmts = out;
        self.pending = outer;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => { let f = f.clone(); *e = self.for_loop(&f); return }
            Expr::While(w) => { let k = self.ord; self.ord += 1; self.visit_expr_mut(&mut w.cond); self.visit_block_mut(&mut w.body);
                w.body.stmts.insert(0, pst(&format!("vp_inv!({k});"))); w.body.stmts.push(pst(&format!("vp_loopend!({k});"))); return }
            Expr::Loop(w) => { let k = self.ord; self.ord += 1; self.visit_block_mut(&mut w.body);
                if let Some(Stmt::Expr(_, semi @ None)) = w.body.stmts.last_mut() { *semi = Some(Default::default()) }
                w.body.stmts.insert(0, pst(&format!("vp_inv!({k});"))); w.body.stmts.push(pst(&format!("vp_loopend!({k});"))); return }
            Expr::Closure(c) => { let c = c.clone(); *e = pe(&self.closure(&c)); return }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g) }
                    let t = self.blockify(&a.body); *a.body = pe(&t); a.comma = None;
                }
                return
            }
            Expr::Macro(m) => {
                let n = mac_name(&m.mac); let mac = m.mac.clone();
                match n.as_str() {
                    "memo" | "eager" | "thunk" => { *e = self.memo(&mac, &n); return }
                    "panic" | "unreachable" | "unimplemented" | "todo" => { *e = pe(if self.f.stops { "vp_stop()" } else { "vp_panic()" }); return }
                    "assert" => { let mut a = mac_args(&mac)[0].clone(); self.visit_expr_mut(&mut a); *e = pe(&format!("vp_assert({})", s(&a))); return }
                    "vec" if mac.tokens.is_empty() => { *e = pe("Vec::new()"); return }
                    "vp_inv" | "vp_loopend" | "vp_hint" => return,
                    _ => { self.lose(&format!("macro {}", n)); return }
                }
            }
            Expr::Call(c) => {
                let c = c.clone();
                if let Some(x) = self.open_call(&c) { *e = x; return }
                let fname = nsp(&c.func);
                if let Some(x) = self.elim(&c) { *e = x; return }
                if (fname == "Rc::new" || fname == "Box::new") && c.args.len() == 1 {
                    if let Expr::Closure(cl) = strip(&c.args[0]) { let t = self.closure(cl); *e = pe(&format!("&{}", t)); return }
                    if self.is_fn(&c.args[0]) { let mut x = unref(&c.args[0]).clone(); self.visit_expr_mut(&mut x); *e = x; return }
                }
                if fname == "structural" && c.args.len() == 1 { if let Expr::Closure(cl) = strip(&c.args[0]) {
                    if let Expr::Macro(m) = strip(&cl.body) { if mac_name(&m.mac) == "panic" { *e = pe("vp_stop()"); return } }
                    *e = pe(&self.blockify(&cl.body)); return } }
                if fname == "ns" && c.args.len() == 2 { if let Expr::Closure(cl) = strip(&c.args[1]) { if cl.inputs.is_empty() {
                    let mut n = c.args[0].clone(); self.visit_expr_mut(&mut n);
                    let b = self.blockify(&cl.body); *e = pe(&format!("vp_ns({}, {})", s(&n), b)); return } } }
                // function objects
                let callee = match strip(&c.func) { Expr::MethodCall(m) if m.method == "clone" => Some((*m.receiver).clone()), Expr::Reference(_) | Expr::Unary(_) => Some(unref(&c.func).clone()), _ => None };
                if let Some(x) = callee { if let Some(id) = ident(&x) { if self.fnvars.contains(&id) {
                    let a: Vec<String> = c.args.iter().map(|x| { let mut x = x.clone(); self.visit_expr_mut(&mut x); s(&x) }).collect();
                    *e = pe(&format!("{}({})", id, a.join(", "))); return } } }
            }
            Expr::MethodCall(m) => {
                if m.method == "map" && m.args.len() == 1 { if let Expr::Closure(cl) = strip(&m.args[0]) { if cl.inputs.len() == 1 {
                    let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r);
                    let cl = cl.clone(); let p = self.pat(&cl.inputs[0]); let b = self.blockify(&cl.body);
                    *e = pe(&format!("(match {} {{ Some({}) => {{ Some({}) }} None => {{ None }} }})", s(&r), s(&p), b)); return } } }
                if m.method == "clone" && m.args.is_empty() {
                    if self.is_fn(&m.receiver) { let mut x = unref(&m.receiver).clone(); self.visit_expr_mut(&mut x); *e = x; return }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Path(p) => {
                if let Some(q) = &p.qself {
                    let t = nsp(&q.ty); let last = p.path.segments.last().unwrap().ident.to_string();
                    *e = pe(&if t == "usize" { format!("lev_{}", last) } else { format!("{}::{}", base(&t), last) }); return
                }
                for sg in p.path.segments.iter_mut() { sg.arguments = PathArguments::None; }
                if p.path.segments.len() == 2 {
                    let a = p.path.segments[0].ident.to_string(); let last = p.path.segments[1].ident.to_string();
                    let in_impl = a == "Self" && self.f.imp.is_some();
                    if !in_impl { if let Some(b) = self.base_of(&a) {
                        *e = pe(&if b == "usize" { format!("lev_{}", last) } else { format!("{}::{}", b, last) }) } }
                }
            }
            Expr::MethodCall(m) => {
                m.turbofish = None;
                if m.method == "clone" && m.args.is_empty() { m.method = Ident::new("vclone", m.method.span()) }
                else if m.method == "contains" && m.args.len() == 1 { let (r, a) = (s(&m.receiver), s(&m.args[0])); *e = pe(&format!("vp_contains(&({}), {})", r, a)) }
            }
            Expr::Binary(b) if !self.refs.is_empty() => {
                for x in [&mut b.left, &mut b.right] { if let Some(i) = ident(x) { if self.refs.contains(&i) { **x = pe(&format!("(*{})", i)) } } }
            }
            Expr::Binary(b) if !self.f.valcmp && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (matches!(strip(&b.left), Expr::Call(_)) || matches!(strip(&b.right), Expr::Call(_))) => {
                // a comparison with a constructed value
                *e = pe(&format!("{}vp_eq(&({}), &({}))", if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" }, s(&b.left), s(&b.right)));
            }
            Expr::Binary(b) if self.f.valcmp => {
                let (mut l, mut r) = (strip(&b.left).clone(), strip(&b.right).clone());
                while let (Expr::Reference(x), Expr::Reference(y)) = (&l, &r) { let (x, y) = (strip(&x.expr).clone(), strip(&y.expr).clone()); l = x; r = y; }
                let (l, r) = (format!("&({})", s(&l)), format!("&({})", s(&r)));
                let t = match b.op { BinOp::Eq(_) => format!("vp_eq({l}, {r})"), BinOp::Ne(_) => format!("!vp_eq({l}, {r})"),
                    BinOp::Le(_) => format!("vp_le({l}, {r})"), BinOp::Ge(_) => format!("vp_le({r}, {l})"),
                    BinOp::Lt(_) => format!("!vp_le({r}, {l})"), BinOp::Gt(_) => format!("!vp_le({l}, {r})"), _ => return };
                let lit = |x: &Expr| matches!(strip(x), Expr::Lit(_)) || matches!(strip(x), Expr::Binary(_));
                if lit(&b.left) || lit(&b.right) { return }
                *e = pe(&t);
            }
            _ => {}
        }
    }
}

pub fn emit_cat(sp: &Spec, src: &Sources, f: &FnSpec, fs: &FnSrc, lost: &mut Vec<String>) -> String {
    let sig = fs.sig.clone();
    let mut block = fs.block.clone();
    let mut c = Cat { sp, src, f, tys: f.tys.clone(), fntys: vec![], selfty: None, fnvars: f.fnvars.iter().cloned().collect(), dynp: vec![], nclo: 0, ord: 0, pending: vec![], open: None, lost: vec![], refs: vec![] };
    // type parameters
    let mut gens: Vec<(String, Option<Path>, bool)> = vec![];
    let hdr: Vec<String> = match &f.imp { Some(i) if i.starts_with('<') => i[1..i.find('>').unwrap()].split(',').map(|x| x.trim().to_string()).collect(), _ => vec![] };
    let mut nhdr = 0; let mut ngen = 0;
    for (g, is_impl) in &fs.gens {
        for p in &g.params { if let GenericParam::Type(t) = p {
            let mut bounds: Vec<TypeParamBound> = t.bounds.iter().cloned().collect();
            if let Some(w) = &g.where_clause { for q in &w.predicates { if let WherePredicate::Type(q) = q { if s(&q.bounded_ty) == t.ident.to_string() { bounds.extend(q.bounds.iter().cloned()) } } } }
            let paths: Vec<&Path> = bounds.iter().filter_map(|b| if let TypeParamBound::Trait(t) = b { Some(&t.path) } else { None }).collect();
            let fnb = paths.iter().find(|p| p.segments.last().unwrap().ident.to_string().starts_with("Fn")).map(|p| (*p).clone());
            let n = t.ident.to_string();
            if fnb.is_some() { c.fntys.push(n.clone()); gens.push((n, fnb, *is_impl)); continue }
            if c.tyvar(&n).is_some() { continue }
            if *is_impl && fnb.is_none() && c.from_bounds(&paths).is_none() { if let Some(h) = hdr.get(nhdr) { nhdr += 1; if *h != n { c.tys.push((n, h.clone())); continue } } }
            match c.from_bounds(&paths) { Some(t) => c.tys.push((n, t)), None => {
                let n2 = f.gens.get(ngen).cloned(); ngen += 1;
                match n2 { Some(m) if m != n => { c.tys.push((n, m.clone())); gens.push((m, None, *is_impl)) } _ => gens.push((n, None, *is_impl)) } } }
        } }
    }
    c.selfty = match &f.imp { Some(i) => Some(i.split_once('>').map(|x| x.1).unwrap_or(i).trim().to_string()), None => c.tyvar("Self").or(fs.self_ty.clone()).map(|t| c.tyvar(&t).unwrap_or(t)) };
    // parameters
    let names: Vec<String> = sig.inputs.iter().map(|a| match a { FnArg::Receiver(_) => "self".to_string(), FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), Pat::Wild(_) => "_".into(), p => s(p) } }).collect();
    let mut ren = vec![];
    if !f.params.is_empty() {
        if f.params.len() != names.len() { lost.push(format!("arity {}", f.name)); return String::new() }
        for (a, b) in names.iter().zip(&f.params) { if a != b && a != "self" && a != "_" { ren.push((a.clone(), b.clone())) } }
    }
    if !ren.is_empty() { Ren(&ren).visit_block_mut(&mut block); }
    let pname = |i: usize| -> String { let n = if f.params.is_empty() { names[i].clone() } else { f.params[i].clone() }; if n == "_" { format!("_p{}", i) } else { n } };
    let mut ps = vec![]; let mut handlers = vec![]; let mut plain = vec![]; let mut byref = false;
    for (i, a) in sig.inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(_) => ps.push("&self".to_string()),
            FnArg::Typed(t) => {
                let mut ty = (*t.ty).clone();
                if f.open.is_some() {
                    if c.fntys.contains(&s(&ty)) { handlers.push(pname(i)); continue }
                    if i == 0 { byref = matches!(ty, Type::Reference(_)) }
                    plain.push(pname(i));
                    if i > 0 { continue }
                }
                let before = nsp(&ty);
                c.visit_type_mut(&mut ty);
                let now = nsp(&ty);
                let isfn = c.fntys.iter().any(|x| now == *x || now == format!("&{}", x)) || c.dynp.iter().any(|(x, _)| now == format!("&{}", x));
                if isfn { c.fnvars.insert(pname(i)); }
                if isfn && !now.starts_with('&') { ty = parse_str(&format!("&{}", now)).unwrap() }
                if now == "&usize" { c.refs.push(pname(i)) }
                let _ = before;
                ps.push(format!("{}: {}", pname(i), s(&ty)));
            }
        }
    }
    let mut ret = match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => { let mut t = (**t).clone(); c.visit_type_mut(&mut t); format!(" -> ({}: {})", f.ret, s(&t)) } };
    let mut nm = f.rename.clone().unwrap_or(sig.ident.to_string());
    if f.open.is_some() {
        let b = c.selfty.as_ref().map(|t| base(t)).unwrap_or_default();
        match sp.views.iter().find(|v| v[0] == b) {
            None => { lost.push(format!("view {}", f.name)); return String::new() }
            Some(v) => {
                let vs: Vec<(String, usize)> = v[2..].iter().map(|x| { let (a, b) = x.split_once('/').unwrap(); (a.to_string(), b.parse().unwrap()) }).collect();
                if vs.len() != handlers.len() { lost.push(format!("handlers {}", f.name)); return String::new() }
                c.open = Some(Open { handlers, variants: vs, view: v[1].clone(), arg: plain.get(1).cloned(), byref, fname: sig.ident.to_string(), npre: 1 });
                nm = format!("vp_open_{}", sig.ident);
                ret = format!(" -> ({}: {})", f.ret, f.open.as_ref().unwrap());
                gens.retain(|g| g.2);
            }
        }
    }
    c.visit_block_mut(&mut block);
    // hints
    let mut hints: Vec<String> = vec![];
    for (list, after) in [(&f.after, true), (&f.before, false)] {
        for (w, k, t) in list {
            let mut at = Attach { want: w, k: *k, seen: 0, id: hints.len(), after, done: false };
            at.visit_block_mut(&mut block);
            if !at.done { lost.push(format!("hint {} {} {}", f.name, w, k)) }
            hints.push(t.clone());
        }
    }
    if !f.tail.is_empty() {
        let id = hints.len(); hints.push(f.tail.clone());
        let h = pst(&format!("vp_hint!({});", id));
        let l = block.stmts.len();
        // a final `return e` is the value `e`
        if let Some(Stmt::Expr(Expr::Return(r), _)) = block.stmts.last().cloned() { if let Some(e) = r.expr { block.stmts[l - 1] = Stmt::Expr(*e, None) } }
        match block.stmts.last().cloned() {
            Some(Stmt::Expr(e, None)) if !ret.is_empty() => { block.stmts[l - 1] = pst(&format!("let vp_ret = {};", s(&e))); block.stmts.push(h); block.stmts.push(Stmt::Expr(pe("vp_ret"), None)); }
            _ => block.stmts.push(h),
        }
    }
    for k in f.loops.keys().chain(f.loopends.keys()).chain(f.loopstarts.keys()) { if *k >= c.ord { lost.push(format!("loop {} {}", f.name, k)) } }
    for k in 0..c.ord { if !f.loops.contains_key(&k) { lost.push(format!("loop {} {}", f.name, k)) } }
    if c.nclo != f.closures.len() { lost.push(format!("closures {}", f.name)) }
    lost.extend(c.lost.iter().cloned());
    let skip = crate::emit::skipped(&f.name);
    let mut body = if skip { String::from("{ unimplemented!() }") } else { pretty(&s(&block)) };
    // closures get their headers
    loop {
        let p = match body.find("vp_closure") { None => break, Some(p) => p };
        let op = p + body[p..].find('(').unwrap(); let cl = match_paren(&body, op);
        let inner = &body[op + 1..cl]; let comma = inner.find(',').unwrap();
        let k: usize = inner[..comma].trim().parse().unwrap();
        let h = &f.closures[&k]; let (l0, rest) = h.split_once('\n').unwrap_or((h, ""));
        let params = l0.trim();
        let pend = match_paren(params, 0);
        let head = format!("|{}|{}\n{}", &params[1..pend], &params[pend + 1..], rest);
        body = format!("{}{}\n{}{}", &body[..p], head, inner[comma + 1..].trim(), &body[cl + 1..]);
    }
    for (a, b) in &f.subst { let n = body.replace(a.as_str(), b); if n == body { lost.push(format!("subst {} {}", f.name, a)) } body = n; }
    let mut body = expand(&body, f, &hints);
    if !f.entry.is_empty() && !skip { let p = body.find('{').unwrap(); body = format!("{{\n{}\n{}", f.entry, &body[p + 1..]); }
    if std::env::var("VX_CANARY").is_ok() && !skip { let p = body.find('{').unwrap(); body = format!("{{\n proof {{ assert(false); }} // vp_canary\n{}", &body[p + 1..]); }
    let mut gl: Vec<String> = vec![];
    for (n, b, is_impl) in &gens {
        if *is_impl && f.imp.is_some() { continue }
        match b { None => gl.push(n.clone()), Some(p) => { let t = c.fn_sig(p); gl.push(format!("{}: {}", n, t)) } }
    }
    for (n, t) in &c.dynp { gl.push(format!("{}: {}", n, t)) }
    let g = if gl.is_empty() { String::new() } else { format!("<{}>", gl.join(", ")) };
    let mut attrs = String::from("#[verifier::exec_allows_no_decreases_clause]\n");
    for a in &f.attrs { attrs.push_str(a); attrs.push('\n') }
    if skip { attrs = String::from("#[verifier::external_body]\n"); }
    for (gn, gt) in &f.ghost { ps.push(format!("Ghost({}): Ghost<{}>", gn, gt)) }
    let sigtext = match &f.sig { Some(x) => x.clone(), None => format!("pub fn {}{}({}){}", nm, g, ps.join(", "), ret) };
    let text = format!("{}{}\n{}\n{}\n", attrs, sigtext, f.contract, body);
    match &f.imp { Some(i) => format!("impl {} {{\n{}}}\n", i, text), None => text }
}
