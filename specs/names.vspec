//@ source src/engine.rs
//@ opt std natfn
//@ keep T
//@ derives Name PartialEq Eq Clone
//@ derives NameSym PartialEq Eq
use vstd::prelude::*;
use std::rc::Rc;
verus! {
//@ include std.inc
//@ end
// ---- shims for the extraction
pub trait VpClone { fn vclone(&self) -> (r: Self) where Self: Sized ensures r == *self; }
impl<T> VpClone for Rc<T> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { Rc::clone(self) } }
/// derived equality is structural; `Rc` is transparent to it
#[verifier::external_body]
pub fn vp_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn vp_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }

// ---- hashing: a hasher is the sequence of the tokens fed to it; the value it
// finishes with is an unknown function of that sequence
pub enum Tok { U64(u64), Usize(usize), Isize(isize), I32(i32), Str(Seq<char>) }
#[verifier::external_body]
pub struct DefaultHasher { h: u64 }
impl View for DefaultHasher { type V = Seq<Tok>; uninterp spec fn view(&self) -> Seq<Tok>; }
pub uninterp spec fn fin(t: Seq<Tok>) -> u64;
impl DefaultHasher {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<Tok>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == fin(self@) { unimplemented!() }
}
pub trait VpHash {
    spec fn toks(&self) -> Seq<Tok>;
    fn hash(&self, state: &mut DefaultHasher) ensures final(state)@ == old(state)@ + self.toks();
}
impl VpHash for u64 { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::U64(*self)] } #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl VpHash for usize { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Usize(*self)] } #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl VpHash for isize { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Isize(*self)] } #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl VpHash for i32 { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::I32(*self)] } #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl VpHash for String { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Str(self@)] } #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl VpHash for str { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Str(self@)] } #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl VpHash for Name { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::U64(self.hash)] } fn hash(&self, state: &mut DefaultHasher) { name_hash(self, state) } }
impl<'a, A: VpHash + ?Sized> VpHash for &'a A { open spec fn toks(&self) -> Seq<Tok> { (**self).toks() } #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl<A: VpHash, B: VpHash> VpHash for (A, B) { open spec fn toks(&self) -> Seq<Tok> { self.0.toks() + self.1.toks() } #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }

//@ struct Name
//@ enum NameSym
//@ end

impl VpClone for Name { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }

// ---- the denotation of a construction
pub enum Con { Unit, Hash64(u64), Usize(usize), Isize(isize), Str(String), Pair(Box<Con>, Box<Con>), ForkL(Box<Con>), ForkR(Box<Con>) }
pub open spec fn den_sym(c: Con) -> NameSym decreases c {
    match c {
        Con::Unit => NameSym::Unit,
        Con::Hash64(h) => NameSym::Hash64(h),
        Con::Usize(u) => NameSym::Usize(u),
        Con::Isize(i) => NameSym::Isize(i),
        Con::Str(s) => NameSym::String(s),
        Con::Pair(a, b) => NameSym::Pair(Rc::new(den_sym(*a)), Rc::new(den_sym(*b))),
        Con::ForkL(a) => NameSym::ForkL(Rc::new(den_sym(*a))),
        Con::ForkR(a) => NameSym::ForkR(Rc::new(den_sym(*a))),
    }
}
pub open spec fn den_hash(c: Con) -> u64 decreases c {
    match c {
        Con::Unit => 0,
        Con::Hash64(h) => h,
        Con::Usize(u) => fin(u.toks()),
        Con::Isize(i) => fin(i.toks()),
        Con::Str(s) => fin(s.toks()),
        Con::Pair(a, b) => fin(den_hash(*a).toks() + den_hash(*b).toks()),
        Con::ForkL(a) => fin(den_hash(*a).toks() + 11111111i32.toks()),
        Con::ForkR(a) => fin(den_hash(*a).toks() + 22222222i32.toks()),
    }
}
/// `n` is the name that the construction `c` builds
pub open spec fn den(n: Name, c: Con) -> bool { n.hash == den_hash(c) && *n.symbol == den_sym(c) }
pub open spec fn sym_str(n: Name) -> String { (*n.symbol)->String_0 }
// ---- N01: equal names <==> equal constructions
pub proof fn sym_inj(a: Con, b: Con)
    requires den_sym(a) == den_sym(b),
    ensures a == b,
    decreases a,
{
    match a {
        Con::Pair(x, y) => { match b { Con::Pair(u, v) => { sym_inj(*x, *u); sym_inj(*y, *v); } _ => {} } }
        Con::ForkL(x) => { match b { Con::ForkL(u) => { sym_inj(*x, *u); } _ => {} } }
        Con::ForkR(x) => { match b { Con::ForkR(u) => { sym_inj(*x, *u); } _ => {} } }
        _ => {}
    }
}
pub proof fn names_identified(n: Name, m: Name, a: Con, b: Con)
    requires den(n, a), den(m, b),
    ensures a == b ==> n == m && n.toks() == m.toks(),  // [N01] equal constructions: equal names, equal hashes
        n == m ==> a == b,        // [N01] equal names: equal constructions
{ if n == m { sym_inj(a, b); } }
/// the size of a construction: no construction is part of itself
pub open spec fn size(c: Con) -> nat decreases c {
    match c { Con::Pair(a, b) => 1 + size(*a) + size(*b), Con::ForkL(a) => 1 + size(*a), Con::ForkR(a) => 1 + size(*a), _ => 1 }
}
pub proof fn forks_differ(n: Name, l: Name, r: Name, c: Con)
    requires den(n, c), den(l, Con::ForkL(Box::new(c))), den(r, Con::ForkR(Box::new(c))),
    ensures l != r, l != n, r != n, // [N01] a fork's names differ from it and from each other
{
    if l == n { sym_inj(Con::ForkL(Box::new(c)), c); assert(size(Con::ForkL(Box::new(c))) == size(c) + 1); }
    if r == n { sym_inj(Con::ForkR(Box::new(c)), c); assert(size(Con::ForkR(Box::new(c))) == size(c) + 1); }
}

//@ fn Name::hash@Hash
//@@ sig pub fn name_hash(self_: &Name, state: &mut DefaultHasher)
//@@ rename name_hash
    ensures final(state)@ == old(state)@ + self_.toks(), // [N01] the hash of a name is a function of the name
//@@ subst self =>> self_
//@ fn my_hash
//@@ sig pub fn my_hash<T: VpHash>(obj: T) -> (r: u64)
    ensures r == fin(obj.toks()),
//@@ after hash
    assert(hasher@ =~= obj.toks());
//@ static UNIT_NAME
    ensures den(r, Con::Unit),
//@ fn name_unit
    ensures den(r, Con::Unit),
//@ fn name_pair
//@@ params n1, n2
    ensures forall|a: Con, b: Con| den(n1, a) && den(n2, b) ==> den(r, Con::Pair(Box::new(a), Box::new(b))),
//@ fn name_of_hash64
//@@ params h
    ensures den(r, Con::Hash64(h)),
//@ fn name_of_usize
//@@ params u
    ensures den(r, Con::Usize(u)),
//@ fn name_of_isize
//@@ params i
    ensures den(r, Con::Isize(i)),
//@ fn name_of_string
//@@ params s
    ensures den(r, Con::Str(s)),
//@ fn name_of_str
//@@ params s
    ensures exists|t: String| t@ == s@ && #[trigger] den(r, Con::Str(t)), // [N01] the same name as the owned string gives
//@@ subst s . to_string () =>> vp_to_string(s)
//@@ tail
    proof { let t = sym_str(vp_ret); assert(t@ == s0@); assert(den(vp_ret, Con::Str(t))); }
//@@ entry
    let ghost s0 = s;
//@ fn name_fork
//@@ params n
    ensures forall|c: Con| den(n, c) ==> den(r.0, Con::ForkL(Box::new(c))) && den(r.1, Con::ForkR(Box::new(c))),
//@ fn name_fork3
//@@ params n
    ensures forall|c: Con| den(n, c) ==> den(r.0, Con::ForkL(Box::new(c)))
        && den(r.1, Con::ForkL(Box::new(Con::ForkR(Box::new(c))))) && den(r.2, Con::ForkR(Box::new(Con::ForkR(Box::new(c))))),
//@ fn name_fork4
//@@ params n
    ensures forall|c: Con| den(n, c) ==> den(r.0, Con::ForkL(Box::new(c)))
        && den(r.1, Con::ForkL(Box::new(Con::ForkR(Box::new(c)))))
        && den(r.2, Con::ForkL(Box::new(Con::ForkR(Box::new(Con::ForkR(Box::new(c)))))))
        && den(r.3, Con::ForkR(Box::new(Con::ForkR(Box::new(Con::ForkR(Box::new(c))))))),
//@ end
fn main() {}
}
