//! Random incremental programs over the engine, run by the real engine and by
//! a from-scratch interpreter that shares nothing with it but the program.
use crate::rng::Rng;
use crate::{guard, Case};
use adapton::engine::manage::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use adapton::prog_pt;
use adapton::reflect;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind { Nominal, Structural, Naive, Eager }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum E {
    K(i64), Arg, ArgCell,
    Slot(usize), SlotMap(usize, u8), SlotAbs(usize, i64),
    Add(Box<E>, Box<E>), Mul(Box<E>, Box<E>),
    If(Box<E>, Box<E>, Box<E>),
    /// call function f in a child thunk; `cell` passes an argument through a named cell
    Call { site: usize, f: usize, arg: Box<E>, cell: Option<Box<E>>, kind: Kind, twice: bool, map: bool },
    Cell { site: usize, val: Box<E>, map: Option<u8> },
    Ns(usize, Box<E>), Struct(Box<E>),
}
#[derive(Clone, Debug)]
pub struct Fun { pub body: E, pub leaf: bool, pub lv: usize }
#[derive(Clone, Debug)]
pub enum Slot { Cell(i64), Thunk(usize, i64) }
#[derive(Clone, Debug)]
pub struct Prog { pub funs: Vec<Fun>, pub slots: Vec<Slot>, pub has_struct: bool }

#[derive(Clone, Copy, Debug)]
pub struct Cfg { pub maps: usize, pub nominal: usize, pub structural: usize, pub naive: usize, pub ns: usize, pub strct: usize, pub cells: usize, pub rekind: usize }
pub const BASE: Cfg = Cfg { maps: 15, nominal: 40, structural: 15, naive: 6, ns: 8, strct: 0, cells: 25, rekind: 10 };

pub fn proj(k: u8, v: i64) -> i64 { match k { 0 => v % 2, 1 => (v > 10) as i64, 2 => v / 4, _ => v } }
fn norm(v: i64) -> i64 { v.rem_euclid(97) }

struct Gen<'a> { r: &'a mut Rng, cfg: Cfg, site: usize, lv: usize, nf: usize, leaf: bool, funs: Vec<Fun>, st: bool }
impl<'a> Gen<'a> {
    fn slot(&mut self) -> Option<usize> { if self.lv == 0 { None } else { Some(self.r.below(self.lv)) } }
    fn go(&mut self, d: usize) -> E {
        if d == 0 || self.r.chance(12) {
            if self.r.chance(self.cfg.maps) { if let Some(s) = self.slot() { return if self.r.chance(65) { E::SlotMap(s, self.r.below(3) as u8) } else { E::SlotAbs(s, self.r.val(16)) } } }
            return match self.r.below(6) { 0 => E::K(self.r.val(20)), 1 => E::Arg, 2 => E::ArgCell, _ => match self.slot() { Some(s) => E::Slot(s), None => E::Arg } };
        }
        let b = |e: E| Box::new(e);
        let x = self.r.below(100);
        let mut lim = self.cfg.nominal;
        if x < lim + self.cfg.structural + self.cfg.naive && self.nf > 0 {
            let kind = if x < lim { Kind::Nominal } else if x < lim + self.cfg.structural { Kind::Structural } else if self.r.chance(50) { Kind::Naive } else { Kind::Eager };
            let kind = if self.leaf { Kind::Structural } else { kind };
            let f = self.r.below(self.nf);
            if kind != Kind::Structural || self.funs[f].leaf {
                let arg = b(self.go(d - 1));
                let nominal = kind == Kind::Nominal;
                let cell = if nominal && self.r.chance(self.cfg.cells) { Some(b(self.go(d - 1))) } else { None };
                self.site += 1;
                let inline = matches!(kind, Kind::Naive | Kind::Eager);
                return E::Call { site: self.site, f, arg, cell, kind, twice: !inline && self.r.chance(20), map: !inline && self.r.chance(10) };
            }
        }
        lim += self.cfg.structural + self.cfg.naive;
        if !self.leaf && x >= lim && x < lim + 8 { self.site += 1; let s = self.site; return E::Cell { site: s, val: b(self.go(d - 1)), map: if self.r.chance(self.cfg.maps) { Some(self.r.below(3) as u8) } else { None } } }
        if self.r.chance(self.cfg.ns) { self.site += 1; let s = self.site; return E::Ns(s, b(self.go(d - 1))) }
        if self.r.chance(self.cfg.strct) { self.st = true; return E::Struct(b(self.go(d - 1))) }
        match self.r.below(5) {
            0 | 1 => E::If(b(self.go(d - 1)), b(self.go(d - 1)), b(self.go(d - 1))),
            2 => E::Mul(b(self.go(d - 1)), b(self.go(d - 1))),
            _ => E::Add(b(self.go(d - 1)), b(self.go(d - 1))),
        }
    }
}
pub fn gen(r: &mut Rng, cfg: Cfg) -> Prog {
    let ns = 3 + r.below(5); let nf = 2 + r.below(5);
    let mut funs: Vec<Fun> = vec![]; let mut site = 0; let mut st = false;
    for f in 0..nf {
        let leaf = r.chance(30);
        let lv = if f == 0 { 1 + r.below(ns) } else { std::cmp::max(funs[f - 1].lv, 1 + r.below(ns)) };
        let d = 1 + r.below(3);
        let mut g = Gen { r, cfg, site, lv, nf: f, leaf, funs: funs.clone(), st };
        let body = g.go(d); site = g.site; st = g.st;
        funs.push(Fun { body, leaf, lv });
    }
    let mut slots = vec![];
    for i in 0..ns {
        let fs: Vec<usize> = (0..nf).filter(|f| funs[*f].lv <= i).collect();
        if i < 1 || fs.is_empty() || r.chance(30) { slots.push(Slot::Cell(r.val(20))) }
        else { slots.push(Slot::Thunk(fs[r.below(fs.len())], r.val(5))) }
    }
    Prog { funs, slots, has_struct: st }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct A { pub f: usize, pub nm: Name, pub x: i64, pub c: Option<(Art<i64>, String)>, pub key: String }

#[derive(Clone, Debug, PartialEq)]
pub enum Obs { Full(String, i64), Map(String, u8, i64), Abs(String, u64) }
#[derive(Clone, Debug, Default)]
pub struct Rec { pub sig: String, pub obs: Vec<Obs>, pub ops: Vec<String>, pub val: i64 }

#[derive(Default)]
struct World {
    prog: Option<Rc<Prog>>, arts: Vec<Art<i64>>, vers: Vec<u64>,
    path: Vec<String>, frames: Vec<(String, Rec)>, recs: HashMap<String, Rec>,
    runs: Vec<String>, structural: bool, allocs: u64,
}
thread_local!(static LAST: std::cell::Cell<i64> = std::cell::Cell::new(0));
thread_local!(static W: RefCell<World> = RefCell::new(World::default()));
fn w<T>(f: impl FnOnce(&mut World) -> T) -> T { W.with(|x| f(&mut x.borrow_mut())) }

pub fn slot_name(i: usize) -> Name { name_pair(name_of_str("slot"), name_of_usize(i)) }
fn key(path: &[String], n: &Name) -> String { format!("{}|{:?}", path.join("/"), n) }
pub fn slot_key(i: usize) -> String { key(&[], &slot_name(i)) }

struct Thresh;
impl AbsMapFam<i64, i64, i64, i64, i64> for Thresh {
    fn map(&self, a: i64, v: i64) -> i64 { LAST.with(|l| l.set(v)); (v > a) as i64 }
    fn abs(&self, a: i64) -> i64 { a }
    fn join(&self, a: i64, b: i64) -> i64 { if a < b { a } else { b } }
    fn diff(&self, a: &i64, b: &i64) -> i64 { b - a }
    fn is_dirty(&self, d: i64, _: &i64) -> bool { d != 0 }
}

trait Back {
    type C: Clone;
    fn slot(&mut self, i: usize, how: How) -> i64;
    fn argcell(&mut self, c: &Option<Self::C>) -> i64;
    fn mkcell(&mut self, n: Name, v: i64) -> Self::C;
    fn rdcell(&mut self, c: &Self::C, map: Option<u8>) -> i64;
    fn call(&mut self, kind: &Kind, f: usize, nm: Name, x: i64, c: Option<Self::C>, twice: bool, map: bool) -> i64;
    fn ns(&mut self, n: Name, body: &mut dyn FnMut(&mut Self) -> i64) -> i64;
    fn st(&mut self, body: &mut dyn FnMut(&mut Self) -> i64) -> i64;
}
#[derive(Clone, Copy)]
enum How { Full, Map(u8), Abs(i64) }

fn eval<B: Back>(b: &mut B, e: &E, nm: &Name, x: i64, c: &Option<B::C>) -> i64 {
    let sub = |s: usize| name_pair(nm.clone(), name_of_usize(s));
    norm(match e {
        E::K(k) => *k, E::Arg => x, E::ArgCell => b.argcell(c),
        E::Slot(i) => b.slot(*i, How::Full), E::SlotMap(i, k) => b.slot(*i, How::Map(*k)), E::SlotAbs(i, a) => b.slot(*i, How::Abs(*a)),
        E::Add(p, q) => eval(b, p, nm, x, c) + eval(b, q, nm, x, c),
        E::Mul(p, q) => eval(b, p, nm, x, c) * eval(b, q, nm, x, c),
        E::If(p, q, r) => if eval(b, p, nm, x, c) % 2 == 1 { eval(b, q, nm, x, c) } else { eval(b, r, nm, x, c) },
        E::Call { site, f, arg, cell, kind, twice, map } => {
            let a = eval(b, arg, nm, x, c);
            let cc = match cell { None => None, Some(v) => { let v = eval(b, v, nm, x, c); Some(b.mkcell(name_pair(sub(*site), name_of_str("c")), v)) } };
            b.call(kind, *f, sub(*site), a, cc, *twice, *map)
        }
        E::Cell { site, val, map } => { let v = eval(b, val, nm, x, c); let cc = b.mkcell(sub(*site), v); b.rdcell(&cc, *map) }
        E::Ns(s, body) => b.ns(name_pair(name_of_str("ns"), name_of_usize(*s)), &mut |b| eval(b, body, nm, x, c)),
        E::Struct(body) => b.st(&mut |b| eval(b, body, nm, x, c)),
    })
}

// ------------------------------------------------------------- the real engine
struct Real;
fn note(o: Option<Obs>, op: Option<String>) { w(|w| if let Some((_, f)) = w.frames.last_mut() { if let Some(o) = o { f.obs.push(o) } if let Some(p) = op { f.ops.push(p) } }) }
fn run(a: A, _: ()) -> i64 {
    let (p, saved, sst) = w(|w| {
        w.runs.push(a.key.clone());
        w.frames.push((a.key.clone(), Rec { sig: sig(&a), ..Default::default() }));
        let s = std::mem::replace(&mut w.path, path_of(&a.key));
        let st = w.structural;
        (w.prog.clone().unwrap(), s, st)
    });
    let v = eval(&mut Real, &p.funs[a.f].body, &a.nm, a.x, &a.c);
    w(|w| { let (k, mut r) = w.frames.pop().unwrap(); r.val = v; w.recs.insert(k, r); w.path = saved; w.structural = sst; });
    v
}
fn run_inline(a: A, _: ()) -> i64 {
    let p = w(|w| w.prog.clone().unwrap());
    eval(&mut Real, &p.funs[a.f].body, &a.nm, a.x, &a.c)
}
fn path_of(key: &str) -> Vec<String> { let p = key.trim_start_matches('S').split('|').next().unwrap(); if p.is_empty() { vec![] } else { p.split('/').map(|x| x.to_string()).collect() } }
fn sig(a: &A) -> String { format!("{},{},{:?}", a.f, a.x, a.c) }
pub fn mkthunk(kind: Kind, a: A) -> Art<i64> {
    let id = match kind { Kind::Nominal => NameChoice::Nominal(a.nm.clone()), Kind::Structural => NameChoice::Structural, Kind::Naive => NameChoice::Naive, Kind::Eager => NameChoice::Eager };
    if let Kind::Nominal = kind { w(|w| { let s = sig(&a); if w.recs.get(&a.key).map(|r| r.sig != s).unwrap_or(false) { w.recs.remove(&a.key); } }) }
    let inl = matches!(kind, Kind::Naive | Kind::Eager);
    if inl { thunk(id, prog_pt!("run_inline"), Rc::new(Box::new(run_inline)), a, ()) }
    else { thunk(id, prog_pt!("run"), Rc::new(Box::new(run)), a, ()) }
}
impl Back for Real {
    type C = (Art<i64>, String);
    fn slot(&mut self, i: usize, how: How) -> i64 {
        let (a, k, ver, cell) = w(|w| (w.arts[i].clone(), slot_key(i), w.vers[i], matches!(w.prog.as_ref().unwrap().slots[i], Slot::Cell(_))));
        match how {
            How::Full => { let v = force(&a); note(Some(Obs::Full(k.clone(), v)), Some(format!("F{}", k))); v }
            How::Map(m) => { let v = force_map(&a, move |_, v| { LAST.with(|l| l.set(v)); proj(m, v) }); note(Some(if cell { Obs::Map(k.clone(), m, v) } else { Obs::Full(k.clone(), LAST.with(|l| l.get())) }), Some(format!("{}{}", if cell { "M" } else { "F" }, k))); v }
            How::Abs(t) => { let v = force_abs(Box::new(Thresh), t, a); note(Some(if cell { Obs::Abs(k.clone(), ver) } else { Obs::Full(k.clone(), LAST.with(|l| l.get())) }), Some(format!("{}{}", if cell { "M" } else { "F" }, k))); v }
        }
    }
    fn argcell(&mut self, c: &Option<Self::C>) -> i64 { match c { None => 0, Some(c) => self.rdcell(c, None) } }
    fn mkcell(&mut self, n: Name, v: i64) -> Self::C {
        let st = w(|w| { w.allocs += 1; w.structural });
        let k = if st { format!("S{:?}", v) } else { w(|w| key(&w.path, &n)) };
        let a = cell(n, v); note(None, if st { None } else { Some(format!("A{}", k)) }); (a, k)
    }
    fn rdcell(&mut self, c: &Self::C, map: Option<u8>) -> i64 {
        match map {
            None => { let v = force(&c.0); note(Some(Obs::Full(c.1.clone(), v)), Some(format!("F{}", c.1))); v }
            Some(m) => { let v = force_map(&c.0, move |_, v| proj(m, v)); note(Some(Obs::Map(c.1.clone(), m, v)), Some(format!("M{}", c.1))); v }
        }
    }
    fn call(&mut self, kind: &Kind, f: usize, nm: Name, x: i64, c: Option<Self::C>, twice: bool, map: bool) -> i64 {
        let st = w(|w| { w.allocs += 1; w.structural });
        let ca = c.as_ref().map(|c| c.0.clone());
        let (nm, k) = match kind {
            Kind::Structural => (name_unit(), w(|w| format!("S{}|{},{}", w.path.join("/"), f, x))),
            _ if st => { let k = w(|w| format!("S{}|{},{},{:?},{:?}", w.path.join("/"), f, x, nm, ca)); (nm, k) }
            _ => { let k = w(|w| key(&w.path, &nm)); (nm, k) }
        };
        let t = mkthunk(kind.clone(), A { f, nm, x, c, key: k.clone() });
        if *kind == Kind::Nominal && !st { note(None, Some(format!("A{}", k))) }
        if matches!(kind, Kind::Naive | Kind::Eager) { return force(&t) }
        let v = if map { let r = force_map(&t, |_, v| v); r } else { force(&t) };
        note(Some(Obs::Full(k.clone(), v)), Some(format!("F{}", k)));
        if twice { let v2 = force(&t); note(Some(Obs::Full(k.clone(), v2)), Some(format!("F{}", k))); if v2 != v { panic!("second force of {} gave {} after {}", k, v2, v) } }
        v
    }
    fn ns(&mut self, n: Name, body: &mut dyn FnMut(&mut Self) -> i64) -> i64 {
        w(|w| w.path.push(format!("{:?}", n)));
        let v = ns(n, || body(&mut Real));
        w(|w| { w.path.pop(); });
        v
    }
    fn st(&mut self, body: &mut dyn FnMut(&mut Self) -> i64) -> i64 {
        let s = w(|w| std::mem::replace(&mut w.structural, true));
        let v = structural(|| body(&mut Real));
        w(|w| w.structural = s);
        v
    }
}

// ------------------------------------------------------------- from scratch
pub struct Scratch { pub prog: Rc<Prog>, vers: Vec<u64>, path: Vec<String>, frames: Vec<(String, Rec)>, pub recs: HashMap<String, Rec>, st: bool }
impl Scratch {
    fn new() -> Scratch { w(|w| Scratch { prog: w.prog.clone().unwrap(), vers: w.vers.clone(), path: vec![], frames: vec![], recs: HashMap::new(), st: false }) }
    fn note(&mut self, o: Option<Obs>, op: Option<String>) { if let Some((_, f)) = self.frames.last_mut() { if let Some(o) = o { f.obs.push(o) } if let Some(p) = op { f.ops.push(p) } } }
    pub fn slotv(&mut self, i: usize) -> i64 {
        match self.prog.slots[i].clone() {
            Slot::Cell(v) => v,
            Slot::Thunk(f, x) => self.run(slot_key(i), f, slot_name(i), x, None, format!("{},{},None", f, x)),
        }
    }
    fn run(&mut self, k: String, f: usize, nm: Name, x: i64, c: Option<(i64, String)>, sig: String) -> i64 {
        if let Some(r) = self.recs.get(&k) { return r.val }
        let sp = std::mem::replace(&mut self.path, path_of(&k));
        self.frames.push((k.clone(), Rec { sig, ..Default::default() }));
        let p = self.prog.clone();
        let v = eval(self, &p.funs[f].body, &nm, x, &c);
        let (k, mut r) = self.frames.pop().unwrap(); r.val = v; self.recs.insert(k, r); self.path = sp;
        v
    }
}
impl Back for Scratch {
    type C = (i64, String);
    fn slot(&mut self, i: usize, how: How) -> i64 {
        let v = self.slotv(i); let k = slot_key(i); let cell = matches!(self.prog.slots[i], Slot::Cell(_)); let ver = self.vers[i];
        match how {
            How::Full => { self.note(Some(Obs::Full(k.clone(), v)), Some(format!("F{}", k))); v }
            How::Map(m) => { let full = v; let v = proj(m, v); self.note(Some(if cell { Obs::Map(k.clone(), m, v) } else { Obs::Full(k.clone(), full) }), Some(format!("{}{}", if cell { "M" } else { "F" }, k))); v }
            How::Abs(t) => { self.note(Some(if cell { Obs::Abs(k.clone(), ver) } else { Obs::Full(k.clone(), v) }), Some(format!("{}{}", if cell { "M" } else { "F" }, k))); (v > t) as i64 }
        }
    }
    fn argcell(&mut self, c: &Option<Self::C>) -> i64 { match c { None => 0, Some(c) => self.rdcell(c, None) } }
    fn mkcell(&mut self, n: Name, v: i64) -> Self::C { let k = if self.st { format!("S{:?}", v) } else { key(&self.path, &n) }; if !self.st { self.note(None, Some(format!("A{}", k))); } (v, k) }
    fn rdcell(&mut self, c: &Self::C, map: Option<u8>) -> i64 {
        match map {
            None => { self.note(Some(Obs::Full(c.1.clone(), c.0)), Some(format!("F{}", c.1))); c.0 }
            Some(m) => { let v = proj(m, c.0); self.note(Some(Obs::Map(c.1.clone(), m, v)), Some(format!("M{}", c.1))); v }
        }
    }
    fn call(&mut self, kind: &Kind, f: usize, nm: Name, x: i64, c: Option<Self::C>, twice: bool, _map: bool) -> i64 {
        if matches!(kind, Kind::Naive | Kind::Eager) { let p = self.prog.clone(); return eval(self, &p.funs[f].body, &nm, x, &c) }
        let (nm, k) = match kind { Kind::Structural => (name_unit(), format!("S{}|{},{}", self.path.join("/"), f, x)), _ if self.st => (nm.clone(), format!("S{}|{},{},{:?},?", self.path.join("/"), f, x, nm)), _ => { let k = key(&self.path, &nm); (nm, k) } };
        if *kind == Kind::Nominal && !self.st { self.note(None, Some(format!("A{}", k))) }
        let sig = format!("{},{},{}", f, x, match &c { None => "None".to_string(), Some(c) => c.1.clone() });
        let v = self.run(k.clone(), f, nm, x, c, sig);
        for _ in 0..(1 + twice as usize) { self.note(Some(Obs::Full(k.clone(), v)), Some(format!("F{}", k))) }
        v
    }
    fn ns(&mut self, n: Name, body: &mut dyn FnMut(&mut Self) -> i64) -> i64 { self.path.push(format!("{:?}", n)); let v = body(self); self.path.pop(); v }
    fn st(&mut self, body: &mut dyn FnMut(&mut Self) -> i64) -> i64 { let s = self.st; self.st = true; let v = body(self); self.st = s; v }
}

// ------------------------------------------------------------- histories
#[derive(Clone, Debug)]
pub enum Step { Set(usize, i64), CellAt(usize, i64), ThunkAt(usize, usize, i64), Force(usize), MapAt(usize, u8), AbsAt(usize, i64), Again(usize) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Check { pub value: bool, pub dirty: bool, pub reuse: bool, pub edges: bool, pub clean: bool, pub trace: bool }

fn rkey(l: &reflect::Loc) -> String { format!("{}|{:?}", l.path.iter().map(|n| format!("{:?}", n)).collect::<Vec<_>>().join("/"), l.name) }

pub struct Hist { pub cfg: Cfg, pub ck: Check, pub log: Vec<String>, pub rekinded: bool }
impl Hist {
    fn install(&mut self, p: Prog) {
        W.with(|x| *x.borrow_mut() = World::default());
        let n = p.slots.len();
        w(|w| { w.vers = vec![0; n]; w.prog = Some(Rc::new(p.clone())) });
        for i in 0..n { let a = self.alloc(i); w(|w| w.arts.push(a)); }
    }
    fn alloc(&mut self, i: usize) -> Art<i64> {
        match w(|w| w.prog.as_ref().unwrap().slots[i].clone()) {
            Slot::Cell(v) => cell(slot_name(i), v),
            Slot::Thunk(f, x) => mkthunk(Kind::Nominal, A { f, nm: slot_name(i), x, c: None, key: slot_key(i) }),
        }
    }
    fn setslot(&mut self, i: usize, s: Slot) { w(|w| { let mut p = (**w.prog.as_ref().unwrap()).clone(); p.slots[i] = s; w.prog = Some(Rc::new(p)); }) }
    pub fn step(&mut self, s: &Step) -> Result<u64, String> {
        self.log.push(format!("{:?}", s));
        let cur = |i: usize| w(|w| w.prog.as_ref().unwrap().slots[i].clone());
        let art = |i: usize| w(|w| w.arts[i].clone());
        match s {
            Step::Set(i, v) => { if let Slot::Cell(o) = cur(*i) { if o != *v { w(|w| w.vers[*i] += 1) } self.setslot(*i, Slot::Cell(*v)); set(&art(*i), *v) } }
            Step::CellAt(i, v) => {
                if let Slot::Thunk(..) = cur(*i) { self.rekinded = true }
                match cur(*i) { Slot::Cell(o) => if o != *v { w(|w| w.vers[*i] += 1) }, _ => w(|w| { w.vers[*i] += 1; w.recs.remove(&slot_key(*i)); }) }
                self.setslot(*i, Slot::Cell(*v)); let a = self.alloc(*i);
                if a != art(*i) { return Err(format!("re-allocating slot {} as a cell gave a different location", i)) }
            }
            Step::ThunkAt(i, f, x) => {
                if let Slot::Cell(_) = cur(*i) { self.rekinded = true }
                w(|w| w.vers[*i] += 1);
                self.setslot(*i, Slot::Thunk(*f, *x)); let a = self.alloc(*i);
                if a != art(*i) { return Err(format!("re-allocating slot {} as a thunk gave a different location", i)) }
            }
            Step::Force(i) | Step::MapAt(i, _) | Step::AbsAt(i, _) | Step::Again(i) => {
                let mut sc = Scratch::new(); let full = sc.slotv(*i);
                let before = w(|w| { w.runs.clear(); w.recs.clone() });
                let a = art(*i);
                let (got, exp) = match s { Step::MapAt(_, m) => { let m = *m; (force_map(&a, move |_, v| proj(m, v)), proj(m, full)) } Step::AbsAt(_, t) => (force_abs(Box::new(Thresh), *t, a), (full > *t) as i64), _ => (force(&a), full) };
                let runs = w(|w| w.runs.clone());
                if self.ck.value && got != exp { return Err(format!("force of slot {}: got {}, from scratch {}", i, got, exp)) }
                if self.ck.reuse && got == exp { self.reuse(&sc, &before, &runs, matches!(s, Step::Again(_)))? }
                if (self.ck.edges || self.ck.clean) && got == exp { self.after_force(*i, &sc)? }
                return self.state().map(|_| 1 + runs.len() as u64);
            }
        }
        self.state().map(|_| 1)
    }
    fn reuse(&self, sc: &Scratch, before: &HashMap<String, Rec>, runs: &[String], again: bool) -> Result<(), String> {
        let nost = !w(|w| w.prog.as_ref().unwrap().has_struct);
        if again && !runs.is_empty() { return Err(format!("forcing again without any change re-evaluated {:?}", runs)) }
        if !nost { return Ok(()) }
        let mut seen = HashSet::new();
        for k in runs {
            if !seen.insert(k) { return Err(format!("{} was evaluated twice by one demand", k)) }
            match sc.recs.get(k) { None => return Err(format!("{} was evaluated but is not demanded from scratch", k)),
                Some(n) => if let Some(o) = before.get(k) {
                    if o.obs == n.obs && sigeq(&o.sig, &n.sig) { return Err(format!("{} was re-evaluated although everything it observed is unchanged: {:?}", k, o.obs)) } } }
        }
        Ok(())
    }
    /// reflection checks of the whole graph
    fn state(&self) -> Result<(), String> {
        if !(self.ck.edges || self.ck.dirty) { return Ok(()) }
        let d = reflect::dcg_reflect_now().ok_or("no reflected graph")?;
        if !d.stack.is_empty() { return Err("the stack is not empty at the outer layer".into()) }
        if !d.path.is_empty() { return Err("the path is not empty at the outer layer".into()) }
        let empty = vec![];
        if self.ck.edges {
            let mut fwd: HashMap<(String, String, bool), i64> = HashMap::new();
            for (l, n) in &d.table { for s in reflect::succs_of_node(n).unwrap_or(&empty) { *fwd.entry((rkey(l), rkey(&s.loc), s.effect == reflect::Effect::Force)).or_insert(0) += 1;
                if !d.table.contains_key(&s.loc) { return Err(format!("edge from {} to {} dangles", rkey(l), rkey(&s.loc))) } } }
            for (l, n) in &d.table { if let Some(ps) = reflect::preds_of_node(n) { for p in ps { *fwd.entry((rkey(&p.loc), rkey(l), p.effect == reflect::Effect::Force)).or_insert(0) -= 1; } } }
            for (k, v) in fwd { if v != 0 { return Err(format!("successor and predecessor records disagree for {:?} (difference {})", k, v)) } }
        }
        if self.ck.dirty {
            let nost = !w(|w| w.prog.as_ref().unwrap().has_struct);
            let bit = |l: &reflect::Loc, t: &reflect::Loc| -> bool { reflect::succs_of_node(&d.table[l]).unwrap().iter().find(|s| s.effect == reflect::Effect::Force && s.loc == *t).map(|s| s.dirty).unwrap_or(false) };
            for (l, n) in &d.table { if let reflect::Node::Comp(c) = n { if c.value.is_none() { continue }
                for s in &c.succs { if s.effect != reflect::Effect::Force { continue }
                    if let Some(reflect::Node::Comp(t)) = d.table.get(&s.loc) {
                        let stale = t.value.is_none() || t.succs.iter().any(|x| x.dirty);
                        if stale && !bit(l, &s.loc) { return Err(format!("{} observes {} which is out of date, but the edge is not dirty", rkey(l), rkey(&s.loc))) }
                    }
                }
                // cells whose observed value differs
                if !nost { continue }
                if let Some(r) = w(|w| w.recs.get(&rkey(l)).cloned()) {
                    for o in &r.obs { let (k, bad) = match o { Obs::Full(k, v) => (k, cellval(&d, k).map(|x| x != *v)), Obs::Map(k, m, v) => (k, cellval(&d, k).map(|x| proj(*m, x) != *v)), _ => continue };
                        if bad == Some(true) { let t = d.table.keys().find(|t| rkey(t) == *k).unwrap();
                            if !bit(l, t) { return Err(format!("{} observed {:?}; the cell has changed but the edge is not dirty", rkey(l), o)) } } }
                }
            }}
        }
        Ok(())
    }
    fn after_force(&self, i: usize, sc: &Scratch) -> Result<(), String> {
        let d = reflect::dcg_reflect_now().ok_or("no reflected graph")?;
        let empty = vec![];
        let byk: HashMap<String, &reflect::Loc> = d.table.keys().map(|l| (rkey(l), l)).collect();
        if self.ck.clean {
            let mut todo: Vec<&reflect::Loc> = byk.get(&slot_key(i)).into_iter().cloned().collect(); let mut seen: HashSet<&reflect::Loc> = HashSet::new();
            while let Some(l) = todo.pop() { if !seen.insert(l) { continue }
                for s in reflect::succs_of_node(&d.table[l]).unwrap_or(&empty) { if s.effect != reflect::Effect::Force { continue }
                    if s.dirty { return Err(format!("after forcing slot {}, the edge {} -> {} is dirty", i, rkey(l), rkey(&s.loc))) }
                    todo.push(&s.loc) } }
        }
        if self.ck.edges && !w(|w| w.prog.as_ref().unwrap().has_struct) {
            for (k, r) in &sc.recs { if k.starts_with('S') { continue }
                let l = match byk.get(k) { None => return Err(format!("{} was demanded but has no node", k)), Some(l) => l };
                let got: Vec<String> = reflect::succs_of_node(&d.table[*l]).unwrap_or(&empty).iter().filter(|s| !structural_loc(&s.loc)).map(|s| format!("{}{}", if s.effect == reflect::Effect::Force { "F" } else { "A" }, rkey(&s.loc))).collect();
                let mut exp = vec![]; let mut fulls = HashSet::new();
                for o in &r.ops { let (c, t) = o.split_at(1); if t.starts_with('S') { continue }
                    match c { "A" => exp.push(o.clone()), "M" => exp.push(format!("F{}", t)), _ => if fulls.insert(t.to_string()) { exp.push(o.clone()) } } }
                // an edge recorded while the target was a cell may since be shared with a full demand
                let (got, exp) = if self.rekinded { (uniq(got), uniq(exp)) } else { (got, exp) };
                if got != exp { return Err(format!("edges of {} are {:?} but its evaluation performs {:?}", k, got, exp)) }
            }
        }
        Ok(())
    }
}
fn uniq(v: Vec<String>) -> Vec<String> { let mut s = HashSet::new(); v.into_iter().filter(|x| s.insert(x.clone())).collect() }
fn structural_loc(l: &reflect::Loc) -> bool { format!("{:?}", l.name).contains("Hash64") }
fn sigeq(a: &str, b: &str) -> bool { a.split(',').take(2).eq(b.split(',').take(2)) }
fn cellval(d: &reflect::DCG, k: &str) -> Option<i64> {
    let l = d.table.keys().find(|l| rkey(l) == k)?;
    if let reflect::Node::Ref(r) = &d.table[l] { num(&r.value) } else { None }
}
pub fn num(v: &reflect::Val) -> Option<i64> { match v { reflect::Val::Const(reflect::Const::Num(n)) => Some(*n as i64), reflect::Val::Const(reflect::Const::Nat(n)) => Some(*n as i64), _ => None } }

pub fn gen_step(r: &mut Rng, p: &Prog, cfg: Cfg) -> Step {
    let n = p.slots.len(); let i = r.below(n);
    let fs: Vec<usize> = (0..p.funs.len()).filter(|f| p.funs[*f].lv <= i).collect();
    if r.chance(45) { let i = n - 1 - r.below((n + 1) / 2); return match r.below(12) { 0 => Step::MapAt(i, r.below(3) as u8), 1 => Step::AbsAt(i, r.val(16)), 2 => Step::Force(r.below(n)), _ => Step::Force(i) } }
    if r.chance(cfg.rekind) {
        return match p.slots[i] { Slot::Cell(_) if !fs.is_empty() => Step::ThunkAt(i, fs[r.below(fs.len())], r.val(5)), _ => Step::CellAt(i, r.val(20)) };
    }
    match p.slots[i] {
        Slot::Cell(o) => { let v = if r.chance(40) { (o + 2 * r.val(3)) % 20 } else { r.val(20) }; if r.chance(75) { Step::Set(i, v) } else { Step::CellAt(i, v) } }
        Slot::Thunk(f, x) => { if r.chance(40) { Step::Force(i) } else if r.chance(70) { Step::ThunkAt(i, f, r.val(5)) } else { Step::ThunkAt(i, fs[r.below(fs.len())], x) } }
    }
}

fn run_hist(seed: u64, cfg: Cfg, ck: Check) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let p = gen(&mut r, cfg);
    let desc = format!("program: {:?}", p);
    init_dcg();
    if ck.trace { reflect::dcg_reflect_begin() }
    let mut h = Hist { cfg, ck, log: vec![], rekinded: false };
    let mut wgt = 0;
    let res = (|| -> Result<(), String> {
        guard("setup", || h.install(p.clone()))?;
        let n = 6 + r.below(20);
        let mut last = None;
        for _ in 0..n {
            let cur = w(|w| (**w.prog.as_ref().unwrap()).clone());
            let s = match last { Some(i) if r.chance(15) => Step::Again(i), _ => gen_step(&mut r, &cur, h.cfg) };
            last = match &s { Step::Force(i) | Step::Again(i) => Some(*i), _ => None };
            wgt += guard("step", || h.step(&s))??;
        }
        Ok(())
    })();
    if ck.trace { let t = guard("dcg_reflect_end", || reflect::dcg_reflect_end()); init_naive(); if res.is_ok() { let t = t?; return crate::scen::trace_ok(&t, w(|w| w.allocs)).map(|_| wgt).map_err(|e| format!("{}\n{}\nhistory: {:#?}", e, desc, h.log)) } }
    init_naive();
    res.map(|_| wgt).map_err(|e| format!("{}\n{}\nhistory: {:#?}", e, desc, h.log))
}

const NONE: Check = Check { value: false, dirty: false, reuse: false, edges: false, clean: false, trace: false };
fn e01(s: u64) -> Result<u64, String> { run_hist(s, BASE, Check { value: true, ..NONE }) }
fn e01b(s: u64) -> Result<u64, String> { run_hist(s, Cfg { structural: 25, nominal: 30, strct: 10, ..BASE }, Check { value: true, ..NONE }) }
fn e01c(s: u64) -> Result<u64, String> { run_hist(s, Cfg { cells: 70, nominal: 55, maps: 25, rekind: 3, ..BASE }, Check { value: true, ..NONE }) }
fn e02(s: u64) -> Result<u64, String> { run_hist(s, BASE, Check { dirty: true, clean: true, ..NONE }) }
fn e02b(s: u64) -> Result<u64, String> { run_hist(s, Cfg { cells: 60, maps: 30, rekind: 3, ..BASE }, Check { dirty: true, clean: true, ..NONE }) }
fn e03(s: u64) -> Result<u64, String> { run_hist(s, Cfg { rekind: 4, ..BASE }, Check { reuse: true, ..NONE }) }
fn e03b(s: u64) -> Result<u64, String> { run_hist(s, Cfg { cells: 60, rekind: 0, maps: 30, ..BASE }, Check { reuse: true, ..NONE }) }
fn e04(s: u64) -> Result<u64, String> { run_hist(s, BASE, Check { edges: true, ..NONE }) }
fn e05(s: u64) -> Result<u64, String> { run_hist(s, Cfg { maps: 65, rekind: 4, ..BASE }, Check { value: true, reuse: true, dirty: true, ..NONE }) }
fn r01(s: u64) -> Result<u64, String> { run_hist(s, BASE, Check { value: true, trace: true, ..NONE }) }
fn e06(s: u64) -> Result<u64, String> { run_hist(s, Cfg { rekind: 45, ..BASE }, Check { value: true, edges: true, ..NONE }) }
fn e07(s: u64) -> Result<u64, String> { run_hist(s, Cfg { structural: 50, nominal: 15, ..BASE }, Check { value: true, reuse: true, ..NONE }) }
fn e08(s: u64) -> Result<u64, String> { run_hist(s, Cfg { ns: 55, structural: 10, nominal: 40, ..BASE }, Check { value: true, edges: true, ..NONE }) }

/// the same history on the naive engine, on one DCG, and interleaved between two DCGs
fn m01(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let cfg = Cfg { maps: 20, ..BASE };
    let p = gen(&mut r, cfg);
    let mut obs = vec![];
    // the naive engine evaluates from scratch every time
    let build = |p: &Prog| -> Vec<Art<i64>> { let mut h = Hist { cfg, ck: NONE, log: vec![], rekinded: false }; h.install(p.clone()); w(|w| w.arts.clone()) };
    init_naive();
    for _ in 0..3 {
        let mut q = p.clone();
        for s in q.slots.iter_mut() { if let Slot::Cell(v) = s { *v = r.val(20) } }
        if !engine_is_naive() { return Err("init_naive does not select the naive engine".into()) }
        let arts = build(&q); let i = arts.len() - 1;
        let nv = guard("naive engine", || force(&arts[i])).map_err(|e| format!("{}\nprogram {:#?}", e, q))?;
        let sc = Scratch::new().slotv(i);
        if nv != sc { return Err(format!("naive engine: slot {} is {}, from scratch {}\nprogram {:#?}", i, nv, sc, q)) }
        let old = init_dcg();
        if !engine_is_dcg() || engine_is_naive() { return Err("init_dcg does not select the DCG engine".into()) }
        let arts = build(&q);
        let dv = guard("DCG engine", || force(&arts[i])).map_err(|e| format!("{}\nprogram {:#?}", e, q))?;
        if dv != nv { return Err(format!("engines disagree on slot {}: naive {}, DCG {}\nprogram {:#?}", i, nv, dv, q)) }
        let table = |_: ()| reflect::dcg_reflect_now().map(|d| { let mut v: Vec<String> = d.table.iter().map(|(l, n)| format!("{:?}{:?}", l, n)).collect(); v.sort(); v });
        let t1 = table(());
        // switch away, do unrelated work, switch back: nothing may have changed
        let dcg = use_engine(old);
        if !engine_is_naive() { return Err("use_engine did not restore the naive engine".into()) }
        if reflect::dcg_reflect_now().is_some() { return Err("the naive engine reflects a graph".into()) }
        let _ = force(&cell::<i64>(slot_name(0), 77));
        let naive = use_engine(Engine::DCG(RefCell::new(fresh())));
        let other = cell::<i64>(slot_name(0), 55); let _ = force(&other);
        let _ = use_engine(dcg); let _ = naive;
        if table(()) != t1 { return Err(format!("a DCG changed while another engine was in use\nprogram {:#?}", q)) }
        w(|w| w.runs.clear());
        if force(&arts[i]) != dv || !w(|w| w.runs.is_empty()) { return Err("a DCG lost its cached results across an engine switch".into()) }
        init_naive();
        obs.push(nv);
    }
    Ok(obs.len() as u64)
}
fn fresh() -> DCG { let saved = init_dcg(); let e = use_engine(saved); match e { Engine::DCG(d) => d.into_inner(), _ => panic!("init_dcg gave no DCG") } }

pub fn cases(p: &str) -> Vec<(&'static str, Case)> {
    let v: Vec<(&'static str, Case)> = match p {
        "E01" => vec![("random histories", e01), ("random histories with structural thunks", e01b), ("random histories with cells", e01c)],
        "E02" => vec![("dirtying histories", e02), ("dirtying histories with cells", e02b)],
        "E03" => vec![("reuse histories", e03), ("reuse histories with cells", e03b)],
        "E04" => vec![("edge histories", e04)],
        "E05" => vec![("projection histories", e05)],
        "E06" => vec![("re-allocation histories", e06)],
        "E07" => vec![("structural histories", e07)],
        "E08" => vec![("namespace histories", e08)],
        "M01" => vec![("engine agreement", m01)],
        "R01" => vec![("traced histories", r01)],
        _ => vec![],
    };
    v
}
