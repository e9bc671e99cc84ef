//! The .vspec format.  Text is copied to the output verbatim, except for
//! lines that start with `//@ ` (items) and, in a function item, `//@@ `.
use std::collections::HashMap;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub name: String,
    pub contract: String,
    pub params: Vec<String>,
    pub ret: String,
    pub ghost: Vec<(String, String)>,        // ghost parameters
    pub callghost: Vec<(String, String)>,    // callee -> ghost args, inside this fn
    pub loops: HashMap<usize, String>,
    pub loopends: HashMap<usize, String>,
    pub loopstarts: HashMap<usize, String>,
    pub entry: String,
    pub tail: String,
    pub after: Vec<(String, usize, String)>,
    pub before: Vec<(String, usize, String)>,
    pub attrs: Vec<String>,
    pub sig: Option<String>,
    pub subst: Vec<(String, String)>, // token-level substitutions (documented per use)
    pub rename: Option<String>,
    pub callname: Option<String>,        // the method that stands for calling a function object
    pub callrec: Option<(String, String)>, // method on a pointer to the type itself -> this function
    pub closures: HashMap<usize, String>,
    pub usex: Option<String>, // the invocation of macros that is the body
    pub inline: bool,
    pub cat: bool,                       // a function of the catalog: generics are kept
    pub tys: Vec<(String, String)>,      // type parameter -> type
    pub implspec: String,                // specification functions of that impl
    pub imp: Option<String>,             // header of the impl it goes to
    pub open: Option<String>,            // eliminator turned into a view of this type
    pub valcmp: bool,                    // `==` and `<=` compare values of a type parameter
    pub sure: bool,                      // `vp_never`, `vp_surely` stand for the panics here
    pub stops: bool,                     // a panic here stops the program
    pub fnvars: Vec<String>,
    pub gens: Vec<String>,               // names for the type parameters
}
#[derive(Debug, Clone)]
pub enum Item { Text(String), Struct(String), Enum(String), Type(String), Const(String), Fn(FnSpec) }

#[derive(Default)]
pub struct Spec {
    pub items: Vec<Item>,
    pub sources: Vec<String>,
    pub erase: Vec<String>,
    pub tymap: Vec<(String, String)>,
    pub depimpls: Vec<String>,
    pub dropmacros: Vec<String>,
    pub dropcalls: Vec<String>,
    pub opts: Vec<String>,
    pub appcalls: Vec<String>,
    pub keep: Vec<String>,
    pub arts: Vec<String>,
    pub inlinefns: Vec<String>,
    pub derives: Vec<Vec<String>>, // type, then the traits that must be derived on it
    pub ctys: Vec<(String, String)>,
    pub views: Vec<Vec<String>>, // type, its view, the variants of the view in the order of the handlers
    pub unsafe_ok: Option<Vec<String>>, // functions not under contract that may have unsafe code
    pub tlvars: Vec<(String, String)>, // thread-local cell -> parameter that stands for it
    pub tparams: Vec<(String, String, Vec<String>)>, // parameter that stands for a thread-local cell, its type, the functions that have it
    pub expandmacros: Vec<String>,
}

pub fn parse(text: &str, path: &str) -> Spec {
    let mut s = Spec::default();
    let mut cur: Option<FnSpec> = None;
    #[derive(Clone)]
    enum Sect { Contract, Loop(usize), LoopEnd(usize), LoopStart(usize), Entry, Tail, After(String, usize), Before(String, usize), Closure(usize) }
    let mut sect = Sect::Contract;
    let mut buf = String::new();
    fn flush_sect(f: &mut FnSpec, sect: &Sect, buf: &mut String) {
        let t = std::mem::take(buf);
        match sect {
            Sect::Contract => f.contract.push_str(&t),
            Sect::Loop(k) => { f.loops.insert(*k, t); }
            Sect::LoopEnd(k) => { f.loopends.insert(*k, t); }
            Sect::LoopStart(k) => { f.loopstarts.insert(*k, t); }
            Sect::Entry => f.entry.push_str(&t),
            Sect::Tail => f.tail.push_str(&t),
            Sect::After(p, k) => f.after.push((p.clone(), *k, t)),
            Sect::Before(p, k) => f.before.push((p.clone(), *k, t)),
            Sect::Closure(k) => { f.closures.insert(*k, t); }
        }
    }
    fn inc(text: &str, path: &str) -> String {
        let mut out = String::new();
        for l in text.lines() {
            if let Some(f) = l.trim().strip_prefix("//@ include ") {
                let p = std::path::Path::new(path).parent().unwrap().join(f.trim());
                out.push_str(&inc(&std::fs::read_to_string(&p).expect("include"), path));
            } else { out.push_str(l); out.push('\n'); }
        }
        out
    }
    let text = inc(text, path);
    for line in text.lines() {
        let t = line.trim();
        if let Some(d) = t.strip_prefix("//@@ ") {
            let f = cur.as_mut().expect("//@@ outside fn");
            let (k, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            let two = |r: &str| -> (String, usize) { let mut it = r.split_whitespace(); let p = it.next().unwrap().to_string();
                (p, it.next().map(|x| x.parse().unwrap()).unwrap_or(0)) };
            let two2 = |r: &str| -> (String, String) { let (a, b) = r.split_once(' ').unwrap(); (a.into(), b.trim().into()) };
            match k {
                "loop" => { flush_sect(f, &sect, &mut buf); sect = Sect::Loop(rest.parse().unwrap()); }
                "loopend" => { flush_sect(f, &sect, &mut buf); sect = Sect::LoopEnd(rest.parse().unwrap()); }
                "loopstart" => { flush_sect(f, &sect, &mut buf); sect = Sect::LoopStart(rest.parse().unwrap()); }
                "entry" => { flush_sect(f, &sect, &mut buf); sect = Sect::Entry; }
                "tail" => { flush_sect(f, &sect, &mut buf); sect = Sect::Tail; }
                "after" => { flush_sect(f, &sect, &mut buf); let (p, n) = two(rest); sect = Sect::After(p, n); }
                "before" => { flush_sect(f, &sect, &mut buf); let (p, n) = two(rest); sect = Sect::Before(p, n); }
                "closure" => { flush_sect(f, &sect, &mut buf); let (k, h) = rest.split_once(' ').unwrap(); sect = Sect::Closure(k.parse().unwrap()); buf.push_str(h); buf.push('\n'); }
                "params" => f.params = rest.split(',').map(|x| x.trim().to_string()).collect(),
                "ret" => f.ret = rest.to_string(),
                "ghost" => { let (a, b) = rest.split_once(':').unwrap(); f.ghost.push((a.trim().into(), b.trim().into())); }
                "callghost" => { let (a, b) = rest.split_once(' ').unwrap(); f.callghost.push((a.trim().into(), b.trim().into())); }
                "attr" => f.attrs.push(rest.to_string()),
                "sig" => f.sig = Some(rest.to_string()),
                "rename" => f.rename = Some(rest.to_string()),
                "callname" => f.callname = Some(rest.to_string()),
                "callrec" => { let (a, b) = two2(rest); f.callrec = Some((a, b)) }
                "implspec" => f.implspec = rest.to_string(),
                "inline" => f.inline = true,
                "ty" => for w in rest.split(';') { let (a, b) = w.split_once('=').unwrap(); f.tys.push((a.trim().into(), b.trim().into())) },
                "impl" => f.imp = Some(rest.to_string()),
                "gens" => f.gens = rest.split(',').map(|x| x.trim().to_string()).collect(),
                "open" => f.open = Some(rest.to_string()),
                "valcmp" => f.valcmp = true,
                "sure" => f.sure = true,
                "use" => f.usex = Some(rest.to_string()),
                "stops" => f.stops = true,
                "fnvars" => f.fnvars = rest.split_whitespace().map(|x| x.to_string()).collect(),
                "props" => {}
                "subst" => { let (a, b) = rest.split_once("=>>").unwrap(); f.subst.push((a.trim().into(), b.trim().into())); }
                _ => panic!("spec: unknown {}", line),
            }
        } else if t.starts_with("//@ ") || t == "//@" {
            let d = t[3..].trim();
            if let Some(mut f) = cur.take() { flush_sect(&mut f, &sect, &mut buf); s.items.push(Item::Fn(f)); }
            else if !buf.is_empty() { s.items.push(Item::Text(std::mem::take(&mut buf))); }
            let (k, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            let words = || rest.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>();
            match k {
                "" | "end" | "props" => {}
                "source" => s.sources.push(rest.into()),
                "struct" => s.items.push(Item::Struct(rest.into())),
                "enum" => s.items.push(Item::Enum(rest.into())),
                "type" => s.items.push(Item::Type(rest.into())),
                "const" => s.items.push(Item::Const(rest.into())),
                "erase" => s.erase.extend(words()),
                "deps" => s.depimpls.extend(words()),
                "dropmacro" => s.dropmacros.extend(words()),
                "dropcall" => s.dropcalls.extend(words()),
                "appcall" => s.appcalls.extend(words()),
                "opt" => s.opts.extend(words()),
                "keep" => s.keep.extend(words()),
                "arts" => s.arts.extend(words()),
                "inlinefn" => s.inlinefns.extend(words()),
                "tymap" => { let (a, b) = rest.split_once("=>>").unwrap(); s.tymap.push((a.replace(' ', ""), b.trim().into())); }
                "unsafeonly" => s.unsafe_ok = Some(words()),
                "tlvar" => { let w = words(); s.tlvars.push((w[0].clone(), w[1].clone())) }
                "tparam" => { let (a, b) = rest.split_once(':').unwrap(); let (t, fs) = b.split_once('|').unwrap(); s.tparams.push((a.trim().into(), t.trim().into(), fs.split_whitespace().map(|x| x.to_string()).collect())) }
                "expandmacro" => s.expandmacros.extend(words()),
                "use" => { let mut f = FnSpec::default(); f.name = format!("use {}", rest); f.ret = "r".into(); cur = Some(f); sect = Sect::Contract; }
                "mfn" => { let mut f = FnSpec::default(); let w = words(); f.name = format!("macro {}_{}", w[0], w[1]); f.ret = "r".into(); cur = Some(f); sect = Sect::Contract; }
                "derives" => s.derives.push(words()),
                "cty" => for w in rest.split(';') { let (a, b) = w.split_once('=').unwrap(); s.ctys.push((a.trim().into(), b.trim().into())) },
                "view" => s.views.push(words()),
                "cfn" => { let mut f = FnSpec::default(); f.name = rest.into(); f.cat = true; f.ret = "r".into(); cur = Some(f); sect = Sect::Contract; }
                "static" => { let mut f = FnSpec::default(); f.name = format!("static {}", rest); f.ret = "r".into(); cur = Some(f); sect = Sect::Contract; }
                "fn" => { let mut f = FnSpec::default(); f.name = rest.into(); f.ret = "r".into(); cur = Some(f); sect = Sect::Contract; }
                _ => panic!("spec: unknown {}", line),
            }
        } else { buf.push_str(line); buf.push('\n'); }
    }
    if let Some(mut f) = cur.take() { flush_sect(&mut f, &sect, &mut buf); s.items.push(Item::Fn(f)); }
    else if !buf.is_empty() { s.items.push(Item::Text(buf)); }
    s
}
