//! `macro_rules!` expansion: the arms of the macros of the source, applied to an
//! invocation written in the specification.
use proc_macro2::{Delimiter, Group, Literal, TokenStream, TokenTree};
use std::collections::HashMap;

#[derive(Clone)]
enum Pat { Tok(TokenTree), Group(Delimiter, Vec<Pat>), Var(String, String), Rep(Vec<Pat>, Option<TokenTree>, char) }
#[derive(Clone)]
enum Bind { One(TokenStream), Many(Vec<HashMap<String, Bind>>) }
pub type Rules = Vec<(TokenStream, TokenStream)>;

/// the arms: (matcher, transcriber)
pub fn rules(t: TokenStream) -> Rules {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = vec![]; let mut i = 0;
    while i + 3 < v.len() {
        if let (TokenTree::Group(m), TokenTree::Group(b)) = (&v[i], &v[i + 3]) { out.push((m.stream(), b.stream())); }
        i += 4;
        if i < v.len() { i += 1 } // `;`
    }
    out
}
fn is(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }
fn pats(t: TokenStream) -> Vec<Pat> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = vec![]; let mut i = 0;
    while i < v.len() {
        if is(v.get(i), '$') {
            match v.get(i + 1) {
                Some(TokenTree::Ident(n)) if is(v.get(i + 2), ':') => {
                    if let Some(TokenTree::Ident(k)) = v.get(i + 3) { out.push(Pat::Var(n.to_string(), k.to_string())); i += 4; continue } }
                Some(TokenTree::Group(g)) => {
                    let (sep, op, n) = rep_tail(&v, i + 2);
                    out.push(Pat::Rep(pats(g.stream()), sep, op)); i = n; continue }
                _ => {}
            }
        }
        out.push(match &v[i] { TokenTree::Group(g) => Pat::Group(g.delimiter(), pats(g.stream())), x => Pat::Tok(x.clone()) });
        i += 1;
    }
    out
}
/// the separator and operator of a repetition, and where it ends
fn rep_tail(v: &[TokenTree], i: usize) -> (Option<TokenTree>, char, usize) {
    for o in ['*', '+', '?'] { if is(v.get(i), o) { return (None, o, i + 1) } }
    for o in ['*', '+'] { if is(v.get(i + 1), o) { return (Some(v[i].clone()), o, i + 2) } }
    (None, '*', i + 1)
}
fn frag(kind: &str, t: &[TokenTree]) -> Option<(TokenStream, Vec<TokenTree>)> {
    use quote::ToTokens;
    let ts: TokenStream = t.iter().cloned().collect();
    macro_rules! via { ($t:ty) => {{
        let p = |i: syn::parse::ParseStream| -> syn::Result<(TokenStream, TokenStream)> { let x: $t = i.parse()?; let r: TokenStream = i.parse()?; Ok((x.to_token_stream(), r)) };
        let (x, r) = syn::parse::Parser::parse2(p, ts).ok()?;
        Some((x, r.into_iter().collect()))
    }} }
    match kind {
        "expr" => via!(syn::Expr), "ident" => via!(syn::Ident), "path" => via!(syn::Path), "ty" => via!(syn::Type),
        "block" => via!(syn::Block), "literal" => via!(syn::Lit), "lifetime" => via!(syn::Lifetime),
        "tt" => { let x = t.first()?.clone(); Some((TokenStream::from(x), t[1..].to_vec())) }
        _ => None,
    }
}
fn same(a: &TokenTree, b: &TokenTree) -> bool { a.to_string() == b.to_string() }
/// matches the patterns against a prefix of the tokens; what is left
fn matches_(ps: &[Pat], t: &[TokenTree], b: &mut HashMap<String, Bind>) -> Option<Vec<TokenTree>> {
    let mut t: Vec<TokenTree> = t.to_vec();
    for p in ps {
        match p {
            Pat::Tok(x) => { if !t.first().map_or(false, |y| same(x, y)) { return None } t.remove(0); }
            Pat::Group(d, inner) => match t.first().cloned() {
                Some(TokenTree::Group(g)) if g.delimiter() == *d => {
                    let inn: Vec<TokenTree> = g.stream().into_iter().collect();
                    if !matches_(inner, &inn, b)?.is_empty() { return None }
                    t.remove(0); }
                _ => return None },
            Pat::Var(n, k) => { if t.is_empty() { return None } let (x, r) = frag(k, &t)?; b.insert(n.clone(), Bind::One(x)); t = r; }
            Pat::Rep(inner, sep, op) => {
                let mut many = vec![];
                loop {
                    let mut cur = t.clone();
                    if !many.is_empty() { if let Some(s) = sep { if !cur.first().map_or(false, |y| same(s, y)) { break } cur.remove(0); } }
                    let mut one = HashMap::new();
                    match matches_(inner, &cur, &mut one) {
                        Some(r) if r.len() < t.len() => { t = r; many.push(one) }
                        _ => { break }
                    }
                    if *op == '?' { break }
                }
                if *op == '+' && many.is_empty() { return None }
                for n in vars(inner) { b.insert(n.clone(), Bind::Many(many.clone())); }
            }
        }
    }
    Some(t)
}
fn vars(ps: &[Pat]) -> Vec<String> {
    ps.iter().flat_map(|p| match p { Pat::Var(n, _) => vec![n.clone()], Pat::Group(_, v) | Pat::Rep(v, _, _) => vars(v), _ => vec![] }).collect()
}
fn used(t: &TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] { used(&g.stream(), out) }
        if is(v.get(i), '$') { if let Some(TokenTree::Ident(n)) = v.get(i + 1) { out.push(n.to_string()) } }
    }
}
fn transcribe(t: &TokenStream, b: &HashMap<String, Bind>) -> Option<TokenStream> {
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    let mut out = TokenStream::new(); let mut i = 0;
    while i < v.len() {
        if is(v.get(i), '$') {
            match v.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    match b.get(&n.to_string()) { Some(Bind::One(x)) => { out.extend(x.clone()); i += 2; continue } Some(_) => return None, None => {} } }
                Some(TokenTree::Group(g)) => {
                    let (sep, _, n) = rep_tail(&v, i + 2);
                    let mut u = vec![]; used(&g.stream(), &mut u);
                    let over = u.iter().find_map(|x| match b.get(x) { Some(Bind::Many(m)) => Some(m), _ => None })?;
                    for (k, _) in over.iter().enumerate() {
                        let mut bb = b.clone();
                        for x in &u { if let Some(Bind::Many(m)) = b.get(x) { if let Some(y) = m.get(k).and_then(|y| y.get(x)) { bb.insert(x.clone(), y.clone()); } else { return None } } }
                        if k > 0 { if let Some(s) = &sep { out.extend([s.clone()]) } }
                        out.extend(transcribe(&g.stream(), &bb)?);
                    }
                    i = n; continue }
                _ => {}
            }
        }
        match &v[i] {
            TokenTree::Group(g) => { out.extend([TokenTree::Group(Group::new(g.delimiter(), transcribe(&g.stream(), b)?))]) }
            x => out.extend([x.clone()]),
        }
        i += 1;
    }
    Some(out)
}
/// every macro of the table that is called in `t`, expanded; `stringify!` and `concat!` of text become literals
pub fn expand(t: TokenStream, tab: &HashMap<String, Rules>, depth: usize) -> Option<TokenStream> {
    if depth > 40 { return None }
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = TokenStream::new(); let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Ident(n), true, Some(TokenTree::Group(g))) = (&v[i], is(v.get(i + 1), '!'), v.get(i + 2)) {
            let n = n.to_string();
            if n == "stringify" { // one token: its text; more: a text that is identified by a number
                let text = g.stream().to_string();
                if g.stream().into_iter().count() == 1 && !text.starts_with(|c| c == '{' || c == '(') { out.extend([TokenTree::Literal(Literal::string(&text))]) }
                else { let h = text.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)); let l = Literal::u64_unsuffixed(h); out.extend(quote::quote!(vp_text(#l))) }
                i += 3; continue }
            if let Some(rs) = tab.get(&n) {
                let inv: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut done = None;
                for (m, body) in rs {
                    let mut b = HashMap::new();
                    if let Some(rest) = matches_(&pats(m.clone()), &inv, &mut b) { if rest.is_empty() { done = Some(transcribe(body, &b)?); break } }
                }
                out.extend(expand(done?, tab, depth + 1)?);
                i += 3; continue
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), expand(g.stream(), tab, depth)?))]),
            x => out.extend([x.clone()]),
        }
        i += 1;
    }
    Some(out)
}
