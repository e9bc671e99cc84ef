//! The extraction rules (listed in DESIGN.md).
use crate::spec::*;
use crate::Sources;
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn s<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn nsp<T: ToTokens>(t: &T) -> String { s(t).replace(' ', "") }
pub fn pe(t: &str) -> Expr { parse_str::<Expr>(t).unwrap_or_else(|e| panic!("cannot parse {}: {}", t, e)) }

pub struct Rw<'a> {
    pub sp: &'a Spec,
    pub src: &'a Sources,
    pub f: &'a FnSpec,
    pub tyvars: Vec<(String, bool)>,
    pub ord: usize,
    pub muts: Vec<(String, String)>, // iter_mut loop variable -> place
    pub closures: Vec<String>,
}

thread_local! { pub static AUTO: std::cell::RefCell<Vec<String>> = Default::default(); }
/// loops numbered from here have the generated invariants in `AUTO`
pub const AUTO0: usize = 100000;

/// the variables of a pattern: name, place within the element, bound by reference
fn places(p: &Pat) -> Option<Vec<(String, String, bool)>> {
    fn go(p: &Pat, at: String, by: bool, o: &mut Vec<(String, String, bool)>) -> bool {
        match p {
            Pat::Wild(_) => true,
            Pat::Ident(i) if i.subpat.is_none() && i.mutability.is_none() => { o.push((i.ident.to_string(), at, by || i.by_ref.is_some())); true }
            Pat::Paren(q) => go(&q.pat, at, by, o),
            Pat::Reference(r) if by && r.mutability.is_none() => go(&r.pat, at, false, o),
            Pat::Tuple(t) => t.elems.iter().enumerate().all(|(i, q)| !matches!(q, Pat::Rest(_)) && go(q, format!("{}.{}", at, i), by, o)),
            _ => false,
        }
    }
    let mut o = vec![]; if go(p, String::new(), true, &mut o) { Some(o) } else { None }
}
/// identifiers by expressions
pub struct Put<'b>(pub &'b [(String, Expr)]);
impl<'b> VisitMut for Put<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.qself.is_none() && p.path.segments.len() == 1 { let n = p.path.segments[0].ident.to_string();
            if let Some((_, x)) = self.0.iter().find(|(a, _)| *a == n) { *e = x.clone(); return } } }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// the specification of a pure expression (after the rewriting)
fn pure(e: &Expr) -> Option<String> {
    Some(match e {
        Expr::Paren(p) => format!("({})", pure(&p.expr)?),
        Expr::Lit(_) | Expr::Path(_) => s(e),
        Expr::Field(f) => format!("{}.{}", pure(&f.base)?, s(&f.member)),
        Expr::Reference(r) if r.mutability.is_none() => format!("&{}", pure(&r.expr)?),
        Expr::Unary(u) => match u.op { UnOp::Not(_) => format!("!({})", pure(&u.expr)?), UnOp::Deref(_) => format!("*({})", pure(&u.expr)?), _ => return None },
        Expr::Binary(b) => match b.op { BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => format!("(({}) {} ({}))", pure(&b.left)?, s(&b.op), pure(&b.right)?), _ => return None },
        Expr::Call(c) if s(&c.func) == "vp_eq" && c.args.len() == 2 => {
            let v = |x: &Expr| -> Option<String> { match strip(x) { Expr::Reference(r) => pure(&r.expr), y => Some(format!("*({})", pure(y)?)) } };
            format!("(({}) == ({}))", v(&c.args[0])?, v(&c.args[1])?) }
        Expr::MethodCall(m) if m.args.is_empty() && matches!(m.method.to_string().as_str(), "len" | "is_some" | "is_none") => format!("{}.{}()", pure(&m.receiver)?, m.method),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(x, None) => pure(x)?, _ => return None },
        _ => return None,
    })
}

/// alpha-renaming of identifiers (parameters get the names the spec uses)
pub struct Ren<'a>(pub &'a [(String, String)]);
impl<'a> VisitMut for Ren<'a> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        for (a, b) in self.0 { if i == a { *i = Ident::new(b, i.span()); return } }
    }
    fn visit_field_value_mut(&mut self, fv: &mut FieldValue) {
        // `S{x}` shorthand: keep the field name
        if fv.colon_token.is_none() { fv.colon_token = Some(Default::default()); }
        self.visit_expr_mut(&mut fv.expr);
    }
    fn visit_expr_field_mut(&mut self, e: &mut ExprField) { self.visit_expr_mut(&mut e.base); }
    fn visit_expr_method_call_mut(&mut self, e: &mut ExprMethodCall) {
        self.visit_expr_mut(&mut e.receiver);
        for a in e.args.iter_mut() { self.visit_expr_mut(a) }
    }
    fn visit_field_pat_mut(&mut self, fp: &mut FieldPat) {
        if fp.colon_token.is_none() { fp.colon_token = Some(Default::default()); }
        self.visit_pat_mut(&mut fp.pat);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() == 1 && p.leading_colon.is_none() { self.visit_ident_mut(&mut p.segments[0].ident) }
        for sg in p.segments.iter_mut() { self.visit_path_arguments_mut(&mut sg.arguments) }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let ts = std::mem::take(&mut m.tokens);
        m.tokens = self.ts(ts);
    }
}
impl<'a> Ren<'a> {
    fn ts(&self, ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        let mut prev_dot = false;
        ts.into_iter().map(|t| {
            let r = match &t {
                proc_macro2::TokenTree::Ident(i) if !prev_dot => {
                    let mut id = i.clone();
                    for (a, b) in self.0 { if i == a { id = proc_macro2::Ident::new(b, i.span()) } }
                    proc_macro2::TokenTree::Ident(id)
                }
                proc_macro2::TokenTree::Group(g) => {
                    proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.ts(g.stream())))
                }
                _ => t.clone(),
            };
            prev_dot = matches!(&t, proc_macro2::TokenTree::Punct(p) if p.as_char() == '.');
            r
        }).collect()
    }
}

fn strip(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), _ => e }
}
fn macro_name(m: &Macro) -> String { m.path.segments.last().unwrap().ident.to_string() }
fn macro_args(m: &Macro) -> Vec<Expr> {
    m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default()
}
pub fn callee_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Call(c) => match strip(&c.func) { Expr::Path(p) => Some(p.path.segments.last().unwrap().ident.to_string()), _ => None },
        Expr::MethodCall(m) => Some(m.method.to_string()),
        _ => None,
    }
}
fn upper(n: &str) -> bool { n.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) }

impl<'a> Rw<'a> {
    pub fn ty(&mut self, t: &mut Type) { self.visit_type_mut(t) }
    fn erase_path(&self, p: &mut Path) {
        for sg in p.segments.iter_mut() {
            if self.sp.erase.iter().any(|e| sg.ident == e) { sg.arguments = PathArguments::None }
        }
    }
    fn dropped(&self, st: &Stmt) -> bool {
        match st {
            Stmt::Macro(m) => self.drop_macro(&macro_name(&m.mac)),
            Stmt::Expr(Expr::Macro(m), _) => self.drop_macro(&macro_name(&m.mac)),
            Stmt::Expr(e @ Expr::Call(c), _) => {
                let n = callee_name(e).unwrap_or_default();
                if n == "drop" && c.args.len() == 1 && matches!(strip(&c.args[0]), Expr::Path(_)) { return true }
                self.sp.dropcalls.iter().any(|d| *d == n || nsp(&c.func) == *d)
            }
            Stmt::Item(syn::Item::Use(_)) => true,
            _ => false,
        }
    }
    fn drop_macro(&self, n: &str) -> bool {
        matches!(n, "println" | "print" | "eprintln") || self.sp.dropmacros.iter().any(|d| d == n)
    }
    fn block_str(&mut self, b: &mut Block) -> String { self.visit_block_mut(b); s(b) }

    /// the element source of an iterator expression: (source place, kind, start)
    fn iter_src(&mut self, e: &Expr) -> (Expr, Kind, Option<Expr>, bool) {
        match strip(e) {
            // `opt pairiter:FIELD`: the entries of a map, in some order
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() && matches!(strip(&m.receiver), Expr::Field(f) if self.sp.opts.contains(&format!("pairiter:{}", s(&f.member)))) =>
                { let r = &m.receiver; (parse_quote!(#r.vp_pairs()), Kind::Pairs, None, false) }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => ((*m.receiver).clone(), Kind::Ref, None, false),
            Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => ((*m.receiver).clone(), Kind::Mut, None, false),
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => ((*m.receiver).clone(), Kind::Val, None, false),
            Expr::MethodCall(m) if m.method == "enumerate" => { let (a, k, st, _) = self.iter_src(&m.receiver); (a, k, st, true) }
            Expr::MethodCall(m) if m.method == "skip" => { let (a, k, _, en) = self.iter_src(&m.receiver); (a, k, Some(m.args[0].clone()), en) }
            Expr::MethodCall(m) if m.method == "rev" => { let (a, k, st, en) = self.iter_src(&m.receiver);
                (a, match k { Kind::Ref => Kind::RefRev, Kind::Range => Kind::RangeRev, k => k }, st, en) }
            Expr::Reference(r) if r.mutability.is_none() => ((*r.expr).clone(), Kind::Ref, None, false),
            Expr::Reference(r) => ((*r.expr).clone(), Kind::Mut, None, false),
            Expr::Range(_) => (strip(e).clone(), Kind::Range, None, false),
            Expr::MethodCall(m) if self.sp.opts.contains(&format!("refiter:{}", m.method)) => (Expr::Unary(parse_quote!(*#e)), Kind::Ref, None, false),
            _ => (e.clone(), Kind::Val, None, false),
        }
    }
    /// `head` is placed once before the loop, `bind` binds the element
    fn loop_parts(&mut self, k: usize, iter: &Expr, pat: &Pat) -> (String, String, String, String, Option<(String, String)>) {
        let (mut src, kind, start, en) = self.iter_src(iter);
        if let Kind::Range | Kind::RangeRev = kind {
            if let Expr::Range(r) = &src {
                let mut lo = (**r.start.as_ref().unwrap()).clone(); let mut hi = (**r.end.as_ref().unwrap()).clone();
                self.visit_expr_mut(&mut lo); self.visit_expr_mut(&mut hi);
                let incl = matches!(r.limits, RangeLimits::Closed(_));
                return if let Kind::Range = kind {
                    (format!("let mut vp_i{k} = {}; let vp_n{k} = {};", s(&lo), s(&hi)),
                     format!("vp_i{k} {} vp_n{k}", if incl { "<=" } else { "<" }),
                     format!("let {} = vp_i{k}; vp_i{k} = vp_i{k} + 1;", s(pat)), String::new(), None)
                } else {
                    (format!("let vp_n{k} = {}; let mut vp_i{k} = {};", s(&lo), s(&hi)),
                     format!("vp_n{k} < vp_i{k}"),
                     format!("vp_i{k} = vp_i{k} - 1; let {} = vp_i{k};", s(pat)), String::new(), None)
                };
            }
        }
        self.visit_expr_mut(&mut src);
        let start = match start { None => "0".to_string(), Some(mut e) => { self.visit_expr_mut(&mut e); s(&e) } };
        let sref = match kind { Kind::Mut => format!("let vp_s{k} = {};", s(&src)), Kind::Val | Kind::Pairs => format!("let vp_s{k} = {};", s(&src)), _ => format!("let vp_s{k} = &({});", s(&src)) };
        let (ip, xp): (String, Pat) = if en { match pat { Pat::Tuple(t) => (s(&t.elems[0]), t.elems[1].clone()), p => panic!("enumerate pattern {}", s(p)) } } else { (String::new(), pat.clone()) };
        let elem = match kind { Kind::Val => format!("vp_s{k}[vp_i{k}].vclone()"), Kind::Pairs => format!("vp_s{k}[vp_i{k}]"), _ => format!("&vp_s{k}[vp_i{k}]") };
        let ib = if en { format!("let {} = vp_i{k};", ip) } else { String::new() };
        if let Kind::Mut = kind {
            let v = nsp(&xp);
            return (format!("{} let mut vp_i{k}: usize = {};", sref, start), format!("vp_i{k} < vp_s{k}.len()"),
                format!("let vp_j{k} = vp_i{k}; vp_i{k} = vp_i{k} + 1;"), String::new(), Some((v, format!("vp_s{k}[vp_j{k}]"))));
        }
        if let Kind::RefRev = kind {
            return (format!("{} let mut vp_i{k}: usize = vp_s{k}.len();", sref), format!("0 < vp_i{k}"),
                format!("vp_i{k} = vp_i{k} - 1; {}", self.bind(&xp, &elem)), String::new(), None);
        }
        (format!("{} let mut vp_i{k}: usize = {};", sref, start), format!("vp_i{k} < vp_s{k}.len()"),
         format!("{} {} vp_i{k} = vp_i{k} + 1;", ib, self.bind(&xp, &elem)), String::new(), None)
    }
    fn bind(&self, p: &Pat, elem: &str) -> String {
        if let Pat::Reference(r) = p { if let Pat::Tuple(t) = &*r.pat {
            let mut o = format!("let vp_e = {};", elem);
            for (i, q) in t.elems.iter().enumerate() {
                match q {
                    Pat::Ident(id) if id.by_ref.is_some() => o.push_str(&format!("let {} = &vp_e.{};", id.ident, i)),
                    Pat::Ident(id) => o.push_str(&format!("let {} = vp_e.{};", id.ident, i)),
                    Pat::Wild(_) => {}
                    _ => panic!("pattern {}", s(p)),
                }
            }
            return o;
        }}
        if let Pat::Ident(id) = p { if id.by_ref.is_some() { return format!("let {} = &({});", id.ident, elem) } }
        format!("let {} = {};", s(p), elem)
    }
    fn collect_chain(&mut self, e: &Expr) -> Option<Expr> {
        let m = if let Expr::MethodCall(m) = e { m } else { return None };
        if m.method != "collect" { return None }
        let inner = if let Expr::MethodCall(i) = strip(&m.receiver) { i.clone() } else { return None };
        if inner.method != "map" && inner.method != "filter_map" && inner.method != "filter" { return None }
        let cl = match strip(&inner.args[0]) {
            Expr::Closure(c) => c.clone(),
            // a function as it is
            Expr::Path(p) => match pe(&format!("|vp_a| {}(vp_a)", s(p))) { Expr::Closure(c) => c, _ => return None },
            _ => return None };
        let k = self.ord; self.ord += 1;
        let pat = cl.inputs[0].clone();
        let (head, cond, bind, _, _) = self.loop_parts(k, &inner.receiver, &pat);
        let mut body = (*cl.body).clone(); self.visit_expr_mut(&mut body);
        let push = match inner.method.to_string().as_str() {
            "map" => format!("vp_out{k}.push({});", s(&body)),
            "filter_map" => format!("match {} {{ Some(vp_x) => {{ vp_out{k}.push(vp_x); }} None => {{}} }}", s(&body)),
            _ => return None,
        };
        Some(pe(&format!("{{ let mut vp_out{k} = Vec::new(); {head} while {cond} {{ vp_inv!({k}); {bind} {push} vp_loopend!({k}); }} vp_out{k} }}")))
    }
    /// `any`, `all`, `position` over the elements of a vector, by a loop with the invariant that says what they are.
    /// The test must be a pure expression; otherwise the call is left as it is.
    fn query(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let what = m.method.to_string();
        if !matches!(what.as_str(), "any" | "all" | "position") || m.args.len() != 1 { return None }
        let cl = if let Expr::Closure(c) = strip(&m.args[0]) { c.clone() } else { return None };
        if cl.inputs.len() != 1 { return None }
        let mut tests: Vec<(Pat, Expr, bool)> = vec![(cl.inputs[0].clone(), (*cl.body).clone(), false)];
        let mut r = strip(&m.receiver).clone();
        while let Expr::MethodCall(i) = &r { if i.method == "filter" && what != "position" {
            // the test of a filter gets one more reference
            let c = if let Expr::Closure(c) = strip(&i.args[0]) { c.clone() } else { return None };
            tests.insert(0, (c.inputs[0].clone(), (*c.body).clone(), true));
            let n = strip(&i.receiver).clone(); r = n;
        } else { break } }
        let (mut src, kind, start, en) = self.iter_src(&r);
        if start.is_some() || en || !matches!(kind, Kind::Ref | Kind::RefRev) || (kind == Kind::RefRev && what == "position") { return None }
        if matches!(strip(&r), Expr::Reference(_) | Expr::Range(_)) { return None }
        self.visit_expr_mut(&mut src);
        let mut code = String::new(); let mut conds = vec![]; let mut specs = vec![];
        for (p, b, extra) in tests {
            let mut b = b; self.visit_expr_mut(&mut b);
            let mut p = p; if let Pat::Type(t) = &p { p = (*t.pat).clone(); }
            if let (Pat::Reference(r), true) = (&p, extra) { p = (*r.pat).clone() } else if extra { return None }
            let binds = places(&p)?;
            let sub = |e: &str| -> Vec<(String, Expr)> { binds.iter().map(|(n, f, by_ref)| (n.clone(), pe(&if *by_ref { format!("(&({}{}))", e, f) } else { format!("({}{})", e, f) }))).collect() };
            let mut x = b.clone(); Put(&sub("vp_q[vp_qi]")).visit_expr_mut(&mut x);
            let sp = pure(&b)?; let mut y = pe(&sp); Put(&sub("vp_q.vp_at(vp_qj)")).visit_expr_mut(&mut y);
            conds.push(format!("({})", s(&x))); specs.push(format!("({})", s(&y).replace("vp_q . vp_at (vp_qj)", "vp_q@[vp_qj]")));
        }
        let (cond, spec) = (conds.join(" && "), specs.join(" && "));
        let (cond, spec) = if what == "all" { (format!("!({})", cond), format!("!({})", spec)) } else { (cond, spec) };
        code.push_str(&format!("let vp_q = &({}); let mut vp_qi: usize = 0; let mut vp_qr = false; ", s(&src)));
        let inv = format!("    invariant 0 <= vp_qi <= vp_q@.len(),\n      !vp_qr ==> (forall|vp_qj: int| #![trigger vp_q@[vp_qj]] 0 <= vp_qj < vp_qi ==> !({spec})),\n      vp_qr ==> 0 <= vp_qi < vp_q@.len() && (forall|vp_qj: int| #![trigger vp_q@[vp_qj]] 0 <= vp_qj < vp_qi ==> !({spec})) && (forall|vp_qj: int| #![trigger vp_q@[vp_qj]] vp_qj == vp_qi ==> ({spec})),");
        let id = AUTO.with(|a| { let mut a = a.borrow_mut(); a.push(inv); AUTO0 + a.len() - 1 });
        code.push_str(&format!("while !vp_qr && vp_qi < vp_q.len() {{ vp_inv!({id}); if {cond} {{ vp_qr = true; }} else {{ vp_qi = vp_qi + 1; }} }} "));
        let res = match what.as_str() { "any" => "vp_qr", "all" => "!vp_qr", _ => "(if vp_qr { Some(vp_qi) } else { None })" };
        Some(pe(&format!("{{ {code} {res} }}")))
    }
    fn retain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        if m.method != "retain" { return None }
        let cl = if let Expr::Closure(c) = strip(&m.args[0]) { c.clone() } else { return None };
        let k = self.ord; self.ord += 1;
        let mut place = (*m.receiver).clone(); self.visit_expr_mut(&mut place);
        let mut body = (*cl.body).clone(); self.visit_expr_mut(&mut body);
        let pat = s(&cl.inputs[0]);
        let pl = s(&place);
        Some(pe(&format!("{{ let mut vp_out{k} = Vec::new(); let mut vp_i{k}: usize = 0; while vp_i{k} < {pl}.len() {{ vp_inv!({k}); let vp_j{k} = vp_i{k}; vp_i{k} = vp_i{k} + 1; let vp_keep{k} = {{ let {pat} = &{pl}[vp_j{k}]; {} }}; if vp_keep{k} {{ vp_out{k}.push({pl}[vp_j{k}].vclone()); }} vp_loopend!({k}); }} {pl} = vp_out{k}; }}", s(&body))))
    }
    /// a call of a macro of the source: `expandmacro` ones in place, others by the function extracted from the arm
    fn expand_macro(&mut self, n: &str, args: &[Expr]) -> Option<Expr> {
        let arm = self.src.macros.get(n)?.iter().find(|a| a.vars.len() == args.len())?.clone();
        let name = format!("{}_{}", n, args.len());
        if self.sp.items.iter().any(|it| matches!(it, crate::spec::Item::Fn(f) if f.name == format!("macro {}", name))) {
            let mut a: Vec<String> = vec![];
            for (x, r) in args.iter().zip(&arm.refl) { let mut x = x.clone(); self.visit_expr_mut(&mut x); a.push(if *r { format!("({}).reflect()", s(&x)) } else { s(&x) }) }
            let mut e = pe(&format!("{}({})", name, a.join(", ")));
            for (v, _, _) in &self.sp.tparams { let x = pe(v); if let Expr::Call(c) = &mut e { c.args.push(x) } }
            return Some(e);
        }
        let body = crate::fill(&arm.body, &|v| match arm.vars.iter().position(|x| x == v) { Some(i) => { let x = &args[i]; quote::quote!((#x)) } None => quote::quote!($) });
        // the body, without braces and comments
        let mut e: Expr = parse2(quote::quote!({ #body })).ok()?;
        loop {
            let inner = match &e { Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(x, None) => Some(x.clone()),
                Stmt::Macro(m) => Some(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() })),
                _ => None }, _ => None };
            match inner { Some(x) => e = x, None => break }
        }
        if let Expr::Macro(m) = &e { let k = macro_name(&m.mac); let a = macro_args(&m.mac); return self.expand_macro(&k, &a); }
        if !self.sp.expandmacros.iter().any(|x| x == n) { return None }
        self.visit_expr_mut(&mut e);
        Some(pe(&format!("({})", s(&e))))
    }
    fn append_args(&self, name: &str, e: &mut Expr) {
        // `callghost .NAME`: method calls only
        let meth = matches!(e, Expr::MethodCall(_));
        let extra: String = if let Some((_, a)) = self.f.callghost.iter().find(|(n, _)| n == name || (meth && n.strip_prefix('.') == Some(name))) { a.clone() } else {
            // default: pass the ghost parameters of the callee that the caller has too
            let key = self.sp.items.iter().find_map(|it| if let crate::spec::Item::Fn(f) = it {
                if f.name.rsplit("::").next().unwrap() == name && !f.ghost.is_empty() { Some(f) } else { None } } else { None });
            match key { None => String::new(), Some(f) => f.ghost.iter().map(|(g, _)| format!("Ghost({})", g)).collect::<Vec<_>>().join(", ") }
        };
        // `tparam`: the parameter that stands for a thread-local cell
        let mut extra = extra;
        if !self.f.callghost.iter().any(|(n, _)| n == name) { for (v, _, fs) in &self.sp.tparams { if fs.iter().any(|f| f == name) { if !extra.is_empty() { extra.push_str(", ") } extra.push_str(v) } } }
        if extra.is_empty() { return }
        let extra = pe(&format!("vp({})", extra));
        let ex = if let Expr::Call(c) = extra { c.args } else { return };
        match e { Expr::Call(c) => for a in ex { c.args.push(a) }, Expr::MethodCall(c) => for a in ex { c.args.push(a) }, _ => {} }
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Ref, Mut, Val, RefRev, Range, RangeRev, Pairs }

impl<'a> VisitMut for Rw<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if let Some((_, f)) = self.tyvars.iter().find(|(v, _)| *v == n) {
                    if !self.sp.keep.contains(&n) && !self.sp.opts.contains(&format!("concrete:{}", n)) { *t = parse_str(if *f { "Fun" } else { "Val" }).unwrap(); return }
                }
            }
            self.erase_path(&mut p.path);
        }
        let key = nsp(t).replace("'r", "").replace("'static", "");
        if let Some((_, b)) = self.sp.tymap.iter().find(|(a, _)| *a == key) {
            *t = parse_str(b).unwrap_or_else(|_| Type::Verbatim(b.parse().unwrap()));
        }
        // `opt unboxtype`: a box is its content
        if self.sp.opts.contains(&"unboxtype".into()) {
            let inner = if let Type::Path(p) = &*t { let sg = p.path.segments.last().unwrap(); if sg.ident == "Box" { if let PathArguments::AngleBracketed(a) = &sg.arguments {
                if let Some(GenericArgument::Type(x)) = a.args.first() { Some(x.clone()) } else { None } } else { None } } else { None } } else { None };
            if let Some(x) = inner { *t = x }
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts = std::mem::take(&mut b.stmts).into_iter().filter(|st| !self.dropped(st)).collect();
        let n = b.stmts.len();
        for (i, st) in b.stmts.iter_mut().enumerate() {
            // macro statements become expressions
            if let Stmt::Macro(m) = st {
                let semi = m.semi_token.is_some() || i + 1 < n;
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                *st = Stmt::Expr(e, if semi { Some(Default::default()) } else { None });
            }
            if let Stmt::Expr(Expr::Macro(m), Some(_)) = st {
                let nme = macro_name(&m.mac);
                if matches!(nme.as_str(), "panic" | "unreachable" | "unimplemented") {
                    *st = Stmt::Expr(pe("vp_panic::<()>()"), Some(Default::default()));
                    continue;
                }
            }
            if let Stmt::Local(l) = st { l.attrs.clear(); }
            self.visit_stmt_mut(st);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- rules that look at the unvisited expression
        match e {
            Expr::ForLoop(f) => {
                let k = self.ord; self.ord += 1;
                let f = f.clone();
                let (head, cond, bind, _, mv) = self.loop_parts(k, &f.expr, &f.pat);
                let mut body = f.body.clone();
                if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() { *semi = Some(Default::default()) }
                if let Some(m) = mv.clone() { self.muts.push(m) }
                let bs = self.block_str(&mut body);
                if mv.is_some() { self.muts.pop(); }
                let inner = &bs.trim()[1..bs.trim().len() - 1];
                *e = pe(&format!("{{ {head} while {cond} {{ vp_inv!({k}); {bind} {inner} vp_loopend!({k}); }} }}"));
                return;
            }
            Expr::While(w) => {
                let k = self.ord; self.ord += 1;
                self.visit_expr_mut(&mut w.cond); self.visit_block_mut(&mut w.body);
                w.body.stmts.insert(0, parse_str(&format!("vp_inv!({k});")).unwrap());
                w.body.stmts.push(parse_str(&format!("vp_loopend!({k});")).unwrap());
                return;
            }
            Expr::Loop(w) => {
                let k = self.ord; self.ord += 1;
                self.visit_block_mut(&mut w.body);
                w.body.stmts.insert(0, parse_str(&format!("vp_inv!({k});")).unwrap());
                w.body.stmts.push(parse_str(&format!("vp_loopend!({k});")).unwrap());
                return;
            }
            Expr::MethodCall(m) if m.method == "with" && m.args.len() == 1 => {
                let nm = nsp(&m.receiver);
                if let Expr::Closure(c) = strip(&m.args[0]) { if c.inputs.len() == 1 {
                    let p = nsp(&c.inputs[0]); let mut body = (*c.body).clone();
                    if let Some((_, v)) = self.sp.tlvars.iter().find(|(n, _)| *n == nm) {
                        Ren(&[(p, v.clone())]).visit_expr_mut(&mut body);
                        self.visit_expr_mut(&mut body);
                        *e = pe(&format!("({{ {} }})", s(&body))); return
                    }
                    if self.src.statics.contains_key(&nm) {
                        self.visit_expr_mut(&mut body);
                        *e = pe(&format!("{{ let vp_tl = {}_init(); let {} = &vp_tl; {} }}", nm, p, s(&body))); return
                    }
                } }
            }
            // combinators of options with a closure
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "map" | "and_then" | "is_some_and" | "map_or" | "unwrap_or_else" | "or_else") && matches!(m.args.last().map(strip), Some(Expr::Closure(_))) => {
                let n = m.method.to_string();
                if let Some(Expr::Closure(c)) = m.args.last().map(strip) {
                    let arity = if n == "map_or" { 2 } else { 1 };
                    let ins = if n.ends_with("_else") { 0 } else { 1 };
                    if m.args.len() == arity && c.inputs.len() == ins && !s(&c.body).contains("return") {
                        let mut p = c.inputs.first().cloned(); if let Some(Pat::Type(t)) = &p { p = Some((*t.pat).clone()) }
                        let (r, b) = (s(&m.receiver), s(&c.body)); let p = p.map(|p| s(&p)).unwrap_or_default();
                        let t = match n.as_str() {
                            "map" => format!("(match {r} {{ Some({p}) => Some({b}), None => None }})"),
                            "and_then" => format!("(match {r} {{ Some({p}) => {b}, None => None }})"),
                            "is_some_and" => format!("(match {r} {{ Some({p}) => {b}, None => false }})"),
                            "map_or" => format!("(match {r} {{ Some({p}) => {b}, None => {} }})", s(&m.args[0])),
                            "unwrap_or_else" => format!("(match {r} {{ Some(vp_x) => vp_x, None => {b} }})"),
                            _ => format!("(match {r} {{ Some(vp_x) => Some(vp_x), None => {b} }})"),
                        };
                        *e = pe(&t); self.visit_expr_mut(e); return
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "any" || m.method == "all" || m.method == "position" => { let c = m.clone(); if let Some(x) = self.query(&c) { *e = x; return } }
            Expr::MethodCall(m) if m.method == "collect" => { let c = e.clone(); if let Some(x) = self.collect_chain(&c) { *e = x; return } }
            Expr::MethodCall(m) if m.method == "retain" => { let c = m.clone(); if let Some(x) = self.retain(&c) { *e = x; return } }
            Expr::Unsafe(u) => {
                if u.block.stmts.len() == 1 { if let Stmt::Expr(x, None) = &u.block.stmts[0] {
                    if callee_name(x).as_deref() == Some("transmute") { if let Expr::Call(c) = x {
                        let mut a = c.args[0].clone(); self.visit_expr_mut(&mut a);
                        // `opt casts`: a change of type, with a precondition
                        *e = if self.sp.opts.contains(&"casts".into()) { pe(&format!("vp_cast({})", s(&a))) } else { a }; return } } } }
            }
            Expr::Macro(m) => {
                let n = macro_name(&m.mac);
                let args = macro_args(&m.mac);
                match n.as_str() {
                    "panic" | "unreachable" | "unimplemented" => { *e = pe("vp_panic()"); return }
                    "assert" => { let mut a = args[0].clone(); self.visit_expr_mut(&mut a); *e = pe(&format!("vp_assert({})", s(&a))); return }
                    "assert_eq" => { let mut a = args[0].clone(); let mut b = args[1].clone(); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                        *e = pe(&format!("vp_assert(vp_eq(&({}), &({})))", s(&a), s(&b))); return }
                    "vec" => { if m.mac.tokens.is_empty() { *e = pe("Vec::new()"); return }
                        let mut a = args; for x in a.iter_mut() { self.visit_expr_mut(x) }
                        *e = pe(&format!("vp_vec{}({})", a.len(), a.iter().map(|x| s(x)).collect::<Vec<_>>().join(","))); return }
                    // `opt fmtdebug`: the Debug text of a value
                    "format" if args.len() == 2 && nsp(&args[0]) == "\"{:?}\"" && self.sp.opts.contains(&"fmtdebug".into()) => {
                        let mut a = args[1].clone(); self.visit_expr_mut(&mut a); *e = pe(&format!("vp_debug({})", s(&a))); return }
                    "format" => { *e = pe("vp_format()"); return }
                    "vp_inv" | "vp_loopend" | "vp_hint" => return,
                    _ => {
                        if self.drop_macro(&n) { *e = pe("()"); return }
                        if let Some(x) = self.expand_macro(&n, &args) { *e = x; return }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // --- rules on the rewritten expression
        match e {
            Expr::Path(p) => {
                if let Some(q) = &p.qself {
                    let t = s(&q.ty); let last = p.path.segments.last().unwrap().ident.clone();
                    *e = pe(&format!("{}::{}", t.replace(' ', ""), last));
                    return;
                }
                let n = p.path.segments.len();
                if !self.sp.opts.contains(&"turbofish".into()) {
                    for sg in p.path.segments.iter_mut() { sg.arguments = PathArguments::None; }
                }
                if n == 1 { let id = p.path.segments[0].ident.to_string();
                    if let Some((_, pl)) = self.muts.iter().rev().find(|(v, _)| *v == id) { *e = pe(&format!("(&mut {})", pl)); } }
            }
            Expr::Field(f) => {
                // `(&mut v[i]).x` from an iter_mut variable
                if let Expr::Paren(p) = &*f.base { if let Expr::Reference(r) = &*p.expr { if r.mutability.is_some() {
                    let b = (*r.expr).clone(); f.base = Box::new(b); } } }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                m.turbofish = None;
                if n == "clone" && m.args.is_empty() { m.method = Ident::new("vclone", m.method.span()); return }
                if n == "contains" && m.args.len() == 1 && self.sp.opts.contains(&"std".into()) { let (r, a) = (s(&m.receiver), s(&m.args[0])); *e = pe(&format!("vp_contains(&({}), {})", r, a)); return }
                // `opt shimm:METHOD=FN:mut|ref|own`: a method of the standard library by its assumed contract
                for o in &self.sp.opts { if let Some(x) = o.strip_prefix(&format!("shimm:{}=", n)) {
                    let (f, md) = x.split_once(':').unwrap();
                    let mut a = vec![format!("{}{}", match md { "mut" => "&mut ", "ref" => "&", _ => "" }, s(&m.receiver))];
                    for x in m.args.iter() { a.push(s(x)) }
                    *e = pe(&format!("{}({})", f, a.join(", "))); return
                } }
                if n == "collect" && m.args.is_empty() && self.sp.opts.contains(&"collectstr".into()) {
                    if let Expr::MethodCall(i) = strip(&m.receiver) { if i.method == "into_iter" { let a = s(&i.receiver); *e = pe(&format!("vp_collect_string({})", a)); return } }
                }
                if (n == "borrow_mut" || n == "borrow") && m.args.is_empty() { let r = (*m.receiver).clone(); *e = r; return }
                // `callrec`: the recursive call of a trait's function, through a pointer
                if let Some((a, b)) = &self.f.callrec { if *a == n { let r = s(&m.receiver); *e = pe(&format!("{}(&**({}))", b, r)); return } }
                self.append_args(&n, e);
            }
            Expr::Paren(p) => {
                if let Expr::Paren(q) = &*p.expr { let q = q.clone(); *e = Expr::Paren(q); }
            }
            Expr::Binary(b) => {
                let ne = matches!(b.op, BinOp::Ne(_));
                if ne || matches!(b.op, BinOp::Eq(_)) {
                    if self.sp.opts.contains(&"nateq".into()) { return }
                    // `opt streq`: a string against a literal
                    if self.sp.opts.contains(&"streq".into()) { if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = strip(&b.right) {
                        *e = pe(&format!("{}vp_str_eq(&({}), {})", if ne { "!" } else { "" }, s(&b.left), s(&b.right))); return } }
                    let lit = |x: &Expr| matches!(strip(x), Expr::Lit(_)) || nsp(x).ends_with(".len()");
                    if lit(&b.left) || lit(&b.right) { return }
                    *e = pe(&format!("{}vp_eq(&({}), &({}))", if ne { "!" } else { "" }, s(&b.left), s(&b.right)));
                }
            }
            Expr::Call(c) => {
                let fname = nsp(&c.func);
                if fname == "Rc::ptr_eq" && self.sp.opts.contains(&"std".into()) { let a = c.args.iter().map(|a| s(a)).collect::<Vec<_>>().join(", "); *e = pe(&format!("vp_ptr_eq({})", a)); return }
                // `opt shimf:A::B=FN`
                for o in &self.sp.opts { if let Some(f) = o.strip_prefix(&format!("shimf:{}=", fname.trim_start_matches("::"))) {
                    let a = c.args.iter().map(|a| s(a)).collect::<Vec<_>>().join(", "); *e = pe(&format!("{}({})", f, a)); return } }
                if fname == "RefCell::new" && c.args.len() == 1 { let a = c.args[0].clone(); *e = a; return }
                if fname == "Box::new" && c.args.len() == 1 && self.sp.opts.contains(&"boxdyn".into()) {
                    let a = s(&c.args[0]); *e = pe(&format!("vp_box({})", a)); return
                }
                if fname == "Box::new" && c.args.len() == 1 {
                    let id = match strip(&c.args[0]) {
                        Expr::Struct(st) => st.path.segments.last().unwrap().ident.to_string(),
                        Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        _ => String::new() };
                    if self.sp.depimpls.contains(&id) { let a = s(&c.args[0]); *e = pe(&format!("Dep::{}({})", id, a)); return }
                    if self.sp.opts.contains(&format!("unbox:{}", id)) || self.sp.opts.contains(&"unboxnew".into()) { let a = c.args[0].clone(); *e = a; return }
                }
                // function objects
                let isobj = match strip(&c.func) {
                    Expr::Path(p) if p.path.segments.len() == 1 => { let id = p.path.segments[0].ident.to_string();
                        !upper(&id) && !id.starts_with("vp") && !self.src.fns.contains_key(&id) && !self.sp.keep.contains(&id) }
                    Expr::Field(_) | Expr::Unary(_) | Expr::MethodCall(_) => true,
                    _ => false };
                if isobj && !self.sp.opts.contains(&"natfn".into()) {
                    let mut fx = strip(&c.func).clone();
                    if let Expr::Unary(u) = &fx { fx = strip(&u.expr).clone(); }
                    let args = c.args.iter().map(|a| s(a)).collect::<Vec<_>>().join(", ");
                    *e = pe(&format!("({}).{}({})", s(&fx), self.f.callname.as_deref().unwrap_or("call"), args));
                    if self.f.callghost.iter().any(|(n, _)| n == "call") { self.append_args("call", e) }
                    return;
                }
                if let Some(n) = callee_name(e) { self.append_args(&n, e); }
            }
            // `match **n { Node::.. }` on an unboxed node: one dereference is left
            Expr::Match(m) => {
                let of = |p: &Pat| match p { Pat::TupleStruct(x) => x.path.segments.first().map(|g| g.ident.to_string()), _ => None };
                let id = m.arms.iter().find_map(|a| of(&a.pat));
                if let Some(id) = id { if self.sp.opts.contains(&format!("unboxmatch:{}", id)) {
                    let mut x = strip(&m.expr).clone(); let mut n = 0;
                    while let Expr::Unary(u) = &x { if !matches!(u.op, UnOp::Deref(_)) { break } n += 1; x = strip(&u.expr).clone(); }
                    if n > 1 { *m.expr = pe(&format!("*{}", s(&x))); }
                } }
            }
            Expr::Struct(st) => {
                self.erase_path(&mut st.path);
                let id = st.path.segments.last().unwrap().ident.to_string();
                for o in &self.sp.opts {
                    if let Some(x) = o.strip_prefix(&format!("ghostlit:{}:", id)) {
                        let (f, v) = x.split_once(':').unwrap();
                        let fv: FieldValue = parse_str(&format!("{}: {}", f, v.replace('~', " "))).unwrap();
                        if !st.fields.is_empty() && !st.fields.trailing_punct() { st.fields.push_punct(Default::default()); }
                        st.fields.push(fv);
                    }
                }
                for fv in st.fields.iter_mut() {
                    if let Member::Named(id) = &fv.member { if self.sp.opts.contains(&format!("unboxfield:{}", id)) {
                        if let Expr::Call(c) = &fv.expr { if nsp(&c.func) == "Box::new" { fv.expr = c.args[0].clone(); fv.colon_token = Some(Default::default()); } } } }
                }
            }
            _ => {}
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        // a shared reference to a RefCell is an exclusive reference to its content
        if let Pat::TupleStruct(x) = p { if self.sp.opts.contains(&format!("refmutpat:{}", nsp(&x.path))) {
            for q in x.elems.iter_mut() { if let Pat::Ident(i) = q { if i.by_ref.is_some() { i.mutability = Some(Default::default()); } } }
        } }
    }
}
