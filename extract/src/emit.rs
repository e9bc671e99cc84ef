use crate::rewrite::*;
use crate::spec::{FnSpec, Item, Spec};
use crate::{FnSrc, Sources};
use syn::visit::{self, Visit};
use syn::*;

struct Calls { want: String, direct: bool, n: usize }
impl<'a> Visit<'a> for Calls {
    fn visit_block(&mut self, b: &'a Block) { if !self.direct { visit::visit_block(self, b) } }
    fn visit_expr(&mut self, e: &'a Expr) {
        if callee_name(e).as_deref() == Some(&self.want) { self.n += 1 }
        visit::visit_expr(self, e);
    }
}
fn direct(st: &Stmt, w: &str) -> usize { let mut c = Calls { want: w.into(), direct: true, n: 0 }; c.visit_stmt(st); c.n }

pub struct Attach<'a> { pub want: &'a str, pub k: usize, pub seen: usize, pub id: usize, pub after: bool, pub done: bool }
impl<'a> visit_mut::VisitMut for Attach<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let d = direct(&b.stmts[i], self.want);
            if d > 0 && !self.done && self.seen <= self.k && self.k < self.seen + d {
                self.done = true;
                let h: Stmt = parse_str(&format!("vp_hint!({});", self.id)).unwrap();
                if !self.after { b.stmts.insert(i, h); i += 2; self.seen += d; continue }
                if let Stmt::Expr(e, None) = &b.stmts[i] {
                    if i + 1 == b.stmts.len() {
                        let l: Stmt = parse_str(&format!("let vp_t = {};", s(e))).unwrap();
                        b.stmts[i] = l; b.stmts.push(h); b.stmts.push(Stmt::Expr(pe("vp_t"), None)); return;
                    }
                }
                b.stmts.insert(i + 1, h); i += 2; self.seen += d; continue;
            }
            self.seen += d;
            visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
            i += 1;
        }
    }
}
use syn::visit_mut::VisitMut;

pub fn pretty(t: &str) -> String {
    // one statement per line, so that verifier messages have useful lines
    let mut out = String::new(); let mut ind = 1usize; let mut instr = false; let mut prev = ' '; let mut par = 0i32;
    let cs: Vec<char> = t.chars().collect(); let mut i = 0;
    while i < cs.len() {
        let c = cs[i]; i += 1;
        if c == '\'' && !instr { // a character literal
            let n = if i < cs.len() && cs[i] == '\\' { (i + 2..cs.len()).find(|j| cs[*j] == '\'').map(|j| j + 1) } else if i + 1 < cs.len() && cs[i + 1] == '\'' { Some(i + 2) } else { None };
            if let Some(n) = n { out.push(c); out.extend(&cs[i..n]); i = n; prev = 'x'; continue }
        }
        if c == '"' && prev != '\\' { instr = !instr }
        if !instr {
            match c {
                '(' | '[' => par += 1, ')' | ']' => par -= 1, _ => {}
            }
            match c {
                '{' => { ind += 1; out.push('{'); out.push('\n'); out.push_str(&"  ".repeat(ind)); prev = c; continue }
                '}' => { ind = ind.saturating_sub(1); while out.ends_with(' ') { out.pop(); } if !out.ends_with('\n') { out.push('\n'); } out.push_str(&"  ".repeat(ind)); out.push('}'); prev = c; continue }
                ';' if par == 0 => { out.push(';'); out.push('\n'); out.push_str(&"  ".repeat(ind)); prev = c; continue }
                ' ' if prev == '{' || prev == ';' => continue,
                _ => {}
            }
        }
        out.push(c); prev = c;
    }
    out
}

pub fn expand(body: &str, f: &FnSpec, hints: &[String]) -> String {
    // placeholders
    let mut o = body.to_string();
    loop {
        let p = match o.find("vp_inv") { None => break, Some(p) => p };
        let open = o[..p].rfind('{').unwrap();
        let end = p + o[p..].find(';').unwrap() + 1;
        let k: usize = o[p..end].chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap();
        let inv = if k >= crate::rewrite::AUTO0 { crate::rewrite::AUTO.with(|a| a.borrow()[k - crate::rewrite::AUTO0].clone()) } else { f.loops.get(&k).cloned().unwrap_or_default() };
        let start = f.loopstarts.get(&k).cloned().unwrap_or_default();
        let head = o[..open].trim_end().to_string();
        let rest = o[end..].to_string();
        o = format!("{}\n{}\n{{\n{}{}", head, inv, start, rest);
    }
    for (name, get) in [("vp_loopend", 0), ("vp_hint", 1)] {
        loop {
            let p = match o.find(name) { None => break, Some(p) => p };
            let end = p + o[p..].find(';').unwrap() + 1;
            let k: usize = o[p..end].chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap();
            let t = if get == 0 { f.loopends.get(&k).cloned().unwrap_or_default() } else { hints[k].clone() };
            o = format!("{}\n{}\n{}", &o[..p], t, &o[end..]);
        }
    }
    o
}

/// functions left undecided: only their contract is emitted (VX_SKIP, separated by `|`)
pub fn skipped(n: &str) -> bool { std::env::var("VX_SKIP").map(|v| v.split('|').any(|x| x == n)).unwrap_or(false) }

pub fn emit(sp: &Spec, src: &Sources, lost: &mut Vec<String>) -> (String, String) {
    let mut out = String::new();
    let mut map = String::new();
    for it in &sp.items {
        match it {
            Item::Text(t) => out.push_str(t),
            Item::Const(n) => {
                match src.consts.get(n) {
                    None => lost.push(format!("const {}", n)),
                    Some(c) => { let (ty, _) = n.split_once("::").unwrap();
                        out.push_str(&format!("impl {} {{ pub const {}: {} = {}; }}\n", ty, c.ident, s(&c.ty), s(&c.expr))) }
                }
            }
            Item::Type(n) => match src.types.get(n) {
                None => lost.push(format!("type {}", n)),
                Some(t) => { let mut ty = (*t.ty).clone(); let fs = FnSpec::default();
                    let mut rw = Rw { sp, src, f: &fs, tyvars: vec![], ord: 0, muts: vec![], closures: vec![] };
                    rw.ty(&mut ty);
                    out.push_str(&format!("pub type {} = {};\n", base(n), s(&ty))) }
            },
            Item::Struct(n) => match src.structs.get(n) {
                None => lost.push(format!("struct {}", n)),
                Some(st) => {
                    let mut tv = vec![]; crate::generics_vars(&st.generics, &mut tv);
                    let fs = FnSpec::default();
                    let mut rw = Rw { sp, src, f: &fs, tyvars: tv, ord: 0, muts: vec![], closures: vec![] };
                    match &st.fields {
                        Fields::Named(_) => {
                            out.push_str(&format!("pub struct {}{} {{\n", base(n), gen_kept(sp, &st.generics)));
                            for f in st.fields.iter() { let mut t = f.ty.clone(); rw.ty(&mut t);
                                out.push_str(&format!("  pub {}: {},\n", f.ident.as_ref().unwrap(), s(&t))); }
                            if let Some(x) = sp.opts.iter().find_map(|o| o.strip_prefix(&format!("ghostfield:{}:", n))) { out.push_str(&format!("  pub {},\n", x.replace('~', " "))) }
                            out.push_str("}\n");
                        }
                        Fields::Unnamed(_) => {
                            let v: Vec<String> = st.fields.iter().map(|f| { let mut t = f.ty.clone(); rw.ty(&mut t); format!("pub {}", s(&t)) }).collect();
                            out.push_str(&format!("pub struct {}({});\n", base(n), v.join(", ")));
                        }
                        Fields::Unit => out.push_str(&format!("pub struct {};\n", base(n))),
                    }
                }
            },
            Item::Enum(n) => match src.enums.get(n) {
                None => lost.push(format!("enum {}", n)),
                Some(en) => {
                    let mut tv = vec![]; crate::generics_vars(&en.generics, &mut tv);
                    let fs = FnSpec::default();
                    let mut rw = Rw { sp, src, f: &fs, tyvars: tv, ord: 0, muts: vec![], closures: vec![] };
                    out.push_str(&format!("pub enum {}{} {{\n", base(n), gen_kept(sp, &en.generics)));
                    for v in &en.variants {
                        match &v.fields {
                            Fields::Unit => out.push_str(&format!("  {},\n", v.ident)),
                            Fields::Unnamed(_) => { let ts: Vec<String> = v.fields.iter().map(|f| { let mut t = f.ty.clone(); rw.ty(&mut t); s(&t) }).collect();
                                out.push_str(&format!("  {}({}),\n", v.ident, ts.join(", "))) }
                            Fields::Named(_) => { let ts: Vec<String> = v.fields.iter().map(|f| { let mut t = f.ty.clone(); rw.ty(&mut t); format!("{}: {}", f.ident.as_ref().unwrap(), s(&t)) }).collect();
                                out.push_str(&format!("  {}{{{}}},\n", v.ident, ts.join(", "))) }
                        }
                    }
                    out.push_str("}\n");
                }
            },
            Item::Fn(f) if f.name.starts_with("static ") => {
                let n = &f.name[7..];
                match src.statics.get(n) {
                    None => lost.push(format!("static {}", n)),
                    Some((file, t, e)) => {
                        let start = out.matches('\n').count() + 1;
                        let mut rw = Rw { sp, src, f, tyvars: vec![], ord: 0, muts: vec![], closures: vec![] };
                        let (mut t, mut e) = (t.clone(), e.clone());
                        rw.ty(&mut t); rw.visit_expr_mut(&mut e);
                        let body = if std::env::var("VX_CANARY").is_ok() { "proof { assert(false); } // vp_canary\n" } else { "" };
                        out.push_str(&format!("pub fn {}_init() -> (r: {})\n{}{{ {} {} }}\n", n, s(&t), f.contract, body, s(&e)));
                        map.push_str(&format!("fn {}_init {} {} {}:0\n", n, start, out.matches('\n').count() + 1, file));
                    }
                }
            }
            Item::Fn(f) => {
                let fs = match src.fns.get(&f.name) { None if skipped(&f.name) => continue, None => { lost.push(format!("fn {}", f.name)); continue } Some(x) => x };
                let start = out.matches('\n').count() + 1;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut l = vec![]; let t = if f.cat { crate::cat::emit_cat(sp, src, f, fs, &mut l) } else { emit_fn(sp, src, f, fs, &mut l) }; (t, l) }));
                match r {
                    Ok((t, l)) => { out.push_str(&t); if !skipped(&f.name) { lost.extend(l) } }
                    Err(_) if skipped(&f.name) => {}
                    Err(_) => lost.push(format!("shape {}", f.name)),
                }
                let end = out.matches('\n').count() + 1;
                map.push_str(&format!("fn {} {} {} {}:{}\n", f.name, start, end, fs.file, fs.line));
            }
        }
    }
    (out, map)
}

/// the name itself, of `FILE#MOD::NAME`
fn base(n: &str) -> &str { match n.rsplit_once('#') { None => n, Some((_, r)) => r.rsplit("::").next().unwrap() } }

fn gen_kept(sp: &Spec, g: &Generics) -> String {
    let v: Vec<String> = g.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { if sp.keep.contains(&t.ident.to_string()) { Some(t.ident.to_string()) } else { None } } else { None }).collect();
    if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) }
}

fn emit_fn(sp: &Spec, src: &Sources, f: &FnSpec, fs: &FnSrc, lost: &mut Vec<String>) -> String {
    let mut sig = fs.sig.clone();
    let mut block = fs.block.clone();
    // parameter names
    let mut ren = vec![];
    let mut names = vec![];
    for a in sig.inputs.iter() {
        match a { FnArg::Receiver(_) => names.push("self".to_string()),
            FnArg::Typed(t) => { let p = match &*t.pat { Pat::Ident(i) => i.ident.to_string(), Pat::Wild(_) => "_".into(), p => s(p) }; names.push(p) } }
    }
    if !f.params.is_empty() {
        if f.params.len() != names.len() { lost.push(format!("arity {}", f.name)); return String::new() }
        for (a, b) in names.iter().zip(&f.params) { if a != b && a != "self" && a != "_" { ren.push((a.clone(), b.clone())) } }
    }
    if !ren.is_empty() { Ren(&ren).visit_block_mut(&mut block); }
    let mut rw = Rw { sp, src, f, tyvars: fs.tyvars.clone(), ord: 0, muts: vec![], closures: vec![] };
    let mut ps = vec![];
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                let m = if r.reference.is_some() { if r.mutability.is_some() { "&mut self" } else { "&self" } } else {
                    match s(&r.ty).replace(' ', "").as_str() { "&Self" => "&self", "&'rSelf" => "&'r self", "&mutSelf" | "&mutDCG" => "&mut self", "&'rmutSelf" => "&'r mut self", _ => "self" } };
                ps.push(m.to_string());
            }
            FnArg::Typed(t) => {
                rw.ty(&mut t.ty);
                let mu = matches!(&*t.pat, Pat::Ident(i) if i.mutability.is_some());
                let nm = if !f.params.is_empty() { f.params[i].clone() } else { names[i].clone() };
                let nm = if nm == "_" { format!("_p{}", i) } else { nm };
                ps.push(format!("{}{}: {}", if mu { "mut " } else { "" }, nm, s(&t.ty)));
            }
        }
    }
    for (g, t) in &f.ghost { ps.push(format!("Ghost({}): Ghost<{}>", g, t)) }
    let short = f.name.split('@').next().unwrap().rsplit("::").next().unwrap().to_string();
    for (v, t, fs) in &sp.tparams { if fs.contains(&short) { ps.push(format!("{}: {}", v, t)) } }
    let ret = match &mut sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => { rw.ty(t); format!(" -> ({}: {})", f.ret, s(&**t)) } };
    rw.visit_block_mut(&mut block);
    // hints
    let mut hints: Vec<String> = vec![];
    for (list, after) in [(&f.after, true), (&f.before, false)] {
        for (w, k, t) in list {
            let mut at = Attach { want: w, k: *k, seen: 0, id: hints.len(), after, done: false };
            at.visit_block_mut(&mut block);
            if !at.done { lost.push(format!("hint {} {} {}", f.name, w, k)) }
            hints.push(t.clone());
        }
    }
    if !f.tail.is_empty() {
        let id = hints.len(); hints.push(f.tail.clone());
        let h: Stmt = parse_str(&format!("vp_hint!({});", id)).unwrap();
        let l = block.stmts.len();
        // a final `return e` is the value `e`
        if let Some(Stmt::Expr(Expr::Return(r), _)) = block.stmts.last().cloned() { if let Some(e) = r.expr { block.stmts[l - 1] = Stmt::Expr(*e, None) } }
        match block.stmts.last().cloned() {
            Some(Stmt::Expr(e, None)) if !ret.is_empty() => {
                block.stmts[l - 1] = parse_str(&format!("let vp_ret = {};", s(&e))).unwrap();
                block.stmts.push(h); block.stmts.push(Stmt::Expr(pe("vp_ret"), None));
            }
            Some(Stmt::Expr(e, None)) => { block.stmts[l - 1] = Stmt::Expr(e, Some(Default::default())); block.stmts.push(h) }
            _ => block.stmts.push(h),
        }
    }
    let nloops = rw.ord;
    for k in f.loops.keys().chain(f.loopends.keys()).chain(f.loopstarts.keys()) { if *k >= nloops { lost.push(format!("loop {} {}", f.name, k)) } }
    // a loop without an invariant: the function was rewritten with more loops than there are contracts for
    for k in 0..nloops { if !f.loops.contains_key(&k) { lost.push(format!("loop {} {}", f.name, k)) } }
    let body = s(&block);
    let mut body = pretty(&body);
    if f.sure { body = body.replace("vp_panic", "vp_never").replace("vp_assert", "vp_surely") }
    for (a, b) in &f.subst { let n = body.replace(a.as_str(), b); if n == body { lost.push(format!("subst {} {}", f.name, a)) } body = n; }
    if f.usex.is_some() {
        let mut at = 0;
        for k in 0..f.closures.len() {
            let h = &f.closures[&k]; let (l0, rest) = h.split_once('\n').unwrap_or((h, ""));
            let (ps, ret) = l0.split_once("->").unwrap_or((l0, ""));
            let ps = ps.trim().trim_start_matches('(').to_string(); let ps = &ps[..ps.rfind(')').unwrap_or(ps.len())];
            let n = if ps.trim().is_empty() { 0 } else { f.closures[&k].lines().next().map(|l| (0..9).take_while(|i| l.contains(&format!("p{}:", i))).count()).unwrap_or(0) };
            let key = format!("| {} |", (0..n).map(|i| format!("p{}", i)).collect::<Vec<_>>().join(" , "));
            match body[at..].find(&key) {
                Some(p) => { let new = format!("|{}| ->{}\n{}", ps, ret, rest); body.replace_range(at + p..at + p + key.len(), &new); at += p + new.len(); }
                None => lost.push(format!("closure {} {}", f.name, k)),
            }
        }
        if body[at..].contains("| p0") { lost.push(format!("closures {}", f.name)) }
    }
    let mut body = expand(&body, f, &hints);
    if !f.entry.is_empty() { let p = body.find('{').unwrap(); body = format!("{{\n{}\n{}", f.entry, &body[p + 1..]); }
    if std::env::var("VX_CANARY").is_ok() { let p = body.find('{').unwrap(); let rest = &body[p + 1..];
        // `hide(..)` headers stay first
        let t = rest.trim_start(); let q = if t.starts_with("hide(") { rest.len() - t.len() + t.find('\n').unwrap_or(0) } else { 0 };
        body = format!("{{\n{}\n proof {{ assert(false); }} // vp_canary\n{}", &rest[..q], &rest[q..]); }
    let (path, _) = f.name.split_once('@').unwrap_or((&f.name, ""));
    let path = path.rsplit_once('#').map(|x| x.1).unwrap_or(path);
    let nm = path.rsplit("::").next().unwrap().to_string();
    let nm = f.rename.clone().unwrap_or(nm);
    let gen = { let own = |n: &String| f.imp.is_none() || !fs.gens.iter().any(|(g, im)| *im && g.params.iter().any(|p| matches!(p, GenericParam::Type(t) if t.ident == n)));
        let v: Vec<String> = fs.tyvars.iter().filter(|(n, _)| sp.keep.contains(n) && own(n)).map(|(n, _)| n.clone()).collect();
        let lt = if s(&sig).contains("'r") { "'r" } else { "" };
        let mut v2: Vec<String> = if lt.is_empty() { vec![] } else { vec![lt.to_string()] }; v2.extend(v);
        if v2.is_empty() { String::new() } else { format!("<{}>", v2.join(", ")) } };
    let sigtext = match &f.sig { Some(x) => x.clone(), None => format!("pub fn {}{}({}){}", nm, gen, ps.join(", "), ret) };
    let mut attrs = String::from("#[verifier::exec_allows_no_decreases_clause]\n");
    for a in &f.attrs { attrs.push_str(a); attrs.push('\n') }
    if skipped(&f.name) { attrs = String::from("#[verifier::external_body]\n"); body = String::from("{ unimplemented!() }"); }
    let text = format!("{}{}\n{}\n{}\n", attrs, sigtext, f.contract, body);
    if let Some(h) = &f.imp { return format!("impl {} {{\n{}\n{}}}\n", h, f.implspec, text) }
    if path.contains("::") && f.rename.is_none() {
        let ty = path.rsplit_once("::").unwrap().0;
        let g = if sp.keep.is_empty() { String::new() } else { String::new() };
        format!("impl {}{} {{\n{}}}\n", ty, g, text)
    } else { text }
}
