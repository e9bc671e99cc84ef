//@ source src/engine.rs
//@ source src/macros.rs
//@ opt std casts boxdyn unboxtype unboxmatch:Node turbofish
//@ keep Arg Spurious Res Res1 Res2 T A S my_hash
//@ tymap Box<dynProducer<Res>> =>> DynProd<Res>
//@ tymap &dynProducer<Res> =>> &DynProd<Res>
//@ tymap Box<dynForce<T>> =>> DynForce<T>
//@ tymap Rc<dynForce<T>> =>> Rc<DynForce<T>>
//@ tymap &dynForce<T> =>> &DynForce<T>
//@ tymap Rc<Box<dynFn(Arg,Spurious)->Res>> =>> Rc<FnBox<Arg, Spurious, Res>>
//@ tymap Rc<dynFn(Arg,Spurious)->Res> =>> Rc<FnBox<Arg, Spurious, Res>>
//@ tymap Rc<dynFn(A,S)->T> =>> Rc<FnBox<A, S, T>>
//@ tymap Rc<Box<dynFn(A,S)->T>> =>> Rc<FnBox<A, S, T>>
//@ tymap Rc<dynFn(Res1)->Res2> =>> MapFn<Res1, Res2>
use vstd::prelude::*;
use std::rc::Rc;
verus! {
//@ include std.inc
//@ end
// Equality and hash of references and of suspended computations, with the
// generic parameters kept.
#[verifier::external_body] pub struct TypeId { v: u64 }
/// the type id of a type
pub uninterp spec fn ty<T>() -> TypeId;
impl TypeId { #[verifier::external_body] pub fn of<T>() -> (r: TypeId) ensures r == ty::<T>() { unimplemented!() } }
#[verifier::external_body] #[verifier::accept_recursive_types(A)] #[verifier::accept_recursive_types(S)] #[verifier::accept_recursive_types(R)]
pub struct FnBox<A, S, R> { f: Rc<Box<dyn Fn(A, S) -> R>> }
#[verifier::external_body] #[verifier::accept_recursive_types(A)] #[verifier::accept_recursive_types(R)]
pub struct MapFn<A, R> { f: Rc<dyn Fn(A) -> R> }
/// `f` gives `r` for these arguments
pub uninterp spec fn ran<A, S, R>(f: FnBox<A, S, R>, a: A, s: S, r: R) -> bool;
pub uninterp spec fn mapped<A, R>(f: MapFn<A, R>, a: A, r: R) -> bool;
impl<A, S, R> FnBox<A, S, R> { #[verifier::external_body] pub fn call(&self, a: A, s: S) -> (r: R) ensures ran(*self, a, s, r) { unimplemented!() } }
impl<A, R> MapFn<A, R> { #[verifier::external_body] pub fn call(&self, a: A) -> (r: R) ensures mapped(*self, a, r) { unimplemented!() } }

// ---- equality of the values of the user, and derived equality, is structural
#[verifier::external_body]
pub fn vp_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub trait VpClone where Self: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VpClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn vp_panic<T>() -> (r: T) ensures false { unimplemented!() }

// ---- hashing, as in module names; a derived or a user's hash is a function of
// the value
pub enum Tok { U64(u64), Other(int) }
#[verifier::external_body]
pub struct DefaultHasher { h: u64 }
impl View for DefaultHasher { type V = Seq<Tok>; uninterp spec fn view(&self) -> Seq<Tok>; }
pub uninterp spec fn fin(t: Seq<Tok>) -> u64;
impl DefaultHasher {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<Tok>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == fin(self@) { unimplemented!() }
}
pub trait VpHash {
    spec fn toks(&self) -> Seq<Tok>;
    fn hash(&self, state: &mut DefaultHasher) ensures final(state)@ == old(state)@ + self.toks();
}
impl VpHash for u64 { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::U64(*self)] } #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl VpHash for usize { uninterp spec fn toks(&self) -> Seq<Tok>; #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl VpHash for NameChoice { uninterp spec fn toks(&self) -> Seq<Tok>; #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl VpHash for ProgPt { uninterp spec fn toks(&self) -> Seq<Tok>; #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl VpHash for Loc { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::U64(self.hash)] } fn hash(&self, state: &mut DefaultHasher) { loc_hash(self, state) } }
impl<A: VpHash> VpHash for Rc<A> { open spec fn toks(&self) -> Seq<Tok> { (**self).toks() } #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl<'a, A: VpHash + ?Sized> VpHash for &'a A { open spec fn toks(&self) -> Seq<Tok> { (**self).toks() } #[verifier::external_body] fn hash(&self, state: &mut DefaultHasher) { unimplemented!() } }
impl<T: VpHash> VpHash for Art<T> { open spec fn toks(&self) -> Seq<Tok> { etoks(self.art) } fn hash(&self, state: &mut DefaultHasher) { enum_hash(&self.art, state) } }

// ---- boxed producers and naive thunks: the dispatch of a method goes to the
// implementation of the type that was boxed, whose contract is below
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct DynProd<R> { v: Rc<R> }
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct DynForce<R> { v: Rc<R> }
/// what arguments are made of (data; nothing that only exists in specifications)
pub trait Data {}
impl Data for (u64, usize) {}
pub uninterp spec fn enc<A>(a: A) -> int;
/// what tells a suspended computation from others: the identity asked for, the
/// type of the implementation, the program point, the arguments
pub struct Key { pub id: NameChoice, pub ty: TypeId, pub pt: ProgPt, pub arg: int }
pub uninterp spec fn fkey<T>(d: DynForce<T>) -> Key;
pub uninterp spec fn pkey<T>(d: DynProd<T>) -> Key;
/// the hash of a naive thunk is a function of its key
pub uninterp spec fn fhash(k: Key) -> u64;
#[verifier::external_body] pub proof fn arg_inj<A: Data>(a: A, k: int) ensures forall|b: A| #[trigger] enc(b) == k && enc(a) == k ==> a == b { unimplemented!() }
pub open spec fn key_n<A, S, T>(n: NaiveThunk<A, S, T>) -> Key { Key { id: n.id, ty: ty::<NaiveThunk<A, S, T>>(), pt: n.prog_pt, arg: enc(n.arg) } }
pub open spec fn key_a<A, S, T>(n: App<A, S, T>) -> Key { Key { id: NameChoice::Eager, ty: ty::<App<A, S, T>>(), pt: n.prog_pt, arg: enc(n.arg) } }
impl<T> DynForce<T> {
    #[verifier::external_body] pub fn thunk_typeid(&self) -> (r: TypeId) ensures r == fkey(*self).ty { unimplemented!() }
    #[verifier::external_body] pub fn prog_pt(&self) -> (r: &ProgPt) ensures *r == fkey(*self).pt { unimplemented!() }
    #[verifier::external_body] pub fn id(&self) -> (r: &NameChoice) ensures *r == fkey(*self).id { unimplemented!() }
    #[verifier::external_body] pub fn eq(&self, other: &DynForce<T>) -> (r: bool) ensures r == (fkey(*self) == fkey(*other)) { unimplemented!() }
    #[verifier::external_body] pub fn hash_u64(&self) -> (r: u64) ensures r == fhash(fkey(*self)) { unimplemented!() }
}
impl<T> DynProd<T> {
    #[verifier::external_body] pub fn app_typeid(&self) -> (r: TypeId) ensures r == pkey(*self).ty { unimplemented!() }
    #[verifier::external_body] pub fn prog_pt(&self) -> (r: &ProgPt) ensures *r == pkey(*self).pt { unimplemented!() }
}
/// a change of type: `ok` is what makes it one that changes nothing (module types)
pub trait VpCast<B> where Self: Sized {
    spec fn ok(self) -> bool;
    spec fn rel(self, r: B) -> bool;
    fn cast(self) -> (r: B) requires self.ok() ensures self.rel(r);
}
pub fn vp_cast<A: VpCast<B>, B>(a: A) -> (r: B) requires a.ok() ensures a.rel(r) { a.cast() }
impl<'a, A, S, T> VpCast<&'a NaiveThunk<A, S, T>> for &'a DynForce<T> {
    open spec fn ok(self) -> bool { fkey(*self).ty == ty::<NaiveThunk<A, S, T>>() }
    open spec fn rel(self, r: &'a NaiveThunk<A, S, T>) -> bool { fkey(*self) == key_n(*r) }
    #[verifier::external_body]
    fn cast(self) -> (r: &'a NaiveThunk<A, S, T>) { unimplemented!() }
}
impl<'a, A, S, T> VpCast<&'a App<A, S, T>> for &'a DynProd<T> {
    open spec fn ok(self) -> bool { pkey(*self).ty == ty::<App<A, S, T>>() }
    open spec fn rel(self, r: &'a App<A, S, T>) -> bool { pkey(*self) == key_a(*r) }
    #[verifier::external_body]
    fn cast(self) -> (r: &'a App<A, S, T>) { unimplemented!() }
}
pub trait VpBox<U> where Self: Sized { spec fn fit(self) -> bool; spec fn boxed(self, r: U) -> bool; fn vbox(self) -> (r: U) requires self.fit() ensures self.boxed(r); }
pub fn vp_box<T: VpBox<U>, U>(t: T) -> (r: U) requires t.fit() ensures t.boxed(r) { t.vbox() }
impl<A, S, T> VpBox<DynForce<T>> for NaiveThunk<A, S, T> {
    open spec fn fit(self) -> bool { true }
    open spec fn boxed(self, r: DynForce<T>) -> bool { fkey(r) == key_n(self) && forall|x: T| #[trigger] fran(r, x) == ran(*self.fn_box, self.arg, self.spurious, x) }
    #[verifier::external_body]
    fn vbox(self) -> (r: DynForce<T>) { unimplemented!() }
}
impl<A, S, T> VpBox<DynProd<T>> for App<A, S, T> {
    open spec fn fit(self) -> bool { true }
    open spec fn boxed(self, r: DynProd<T>) -> bool { pkey(r) == key_a(self) && forall|x: T| #[trigger] pran(r, x) == ran(*self.fn_box, self.arg, self.spurious, x) }
    #[verifier::external_body]
    fn vbox(self) -> (r: DynProd<T>) { unimplemented!() }
}
/// a closure that is boxed is run with any arguments, and keeps its contract
impl<A, S, R, F: Fn(A, S) -> R> VpBox<FnBox<A, S, R>> for F {
    open spec fn fit(self) -> bool { forall|a: A, s: S| #[trigger] self.requires((a, s)) }
    open spec fn boxed(self, r: FnBox<A, S, R>) -> bool { forall|a: A, s: S, x: R| #[trigger] ran(r, a, s, x) ==> self.ensures((a, s), x) }
    #[verifier::external_body]
    fn vbox(self) -> (r: FnBox<A, S, R>) { unimplemented!() }
}
pub fn vp_rcbox<T: VpBox<U>, U>(t: T) -> (r: Rc<U>) requires t.fit() ensures t.boxed(*r) { Rc::new(vp_box(t)) }
/// the address of a function: those alive at once have different addresses
pub uninterp spec fn addr<A, R>(f: MapFn<A, R>) -> usize;
#[verifier::external_body] pub fn vp_addr<A, R>(f: &MapFn<A, R>) -> (r: usize) ensures r == addr(*f) { unimplemented!() }
/// a demand (module engine) of `a` gave `x`
pub uninterp spec fn demanded<T>(a: Art<T>, x: T) -> bool;
#[verifier::external_body] pub fn force<T>(a: &Art<T>) -> (r: T) ensures demanded(*a, r) { unimplemented!() }
/// what the suspended computation gives
pub uninterp spec fn fran<T>(d: DynForce<T>, x: T) -> bool;
pub uninterp spec fn pran<T>(d: DynProd<T>, x: T) -> bool;
//@ struct Name
//@ enum NameSym
//@ enum Path
//@ enum ArtId
//@ struct Loc
//@ enum NameChoice
//@ struct ProgPt
//@ struct App
//@ struct NaiveThunk
//@ enum EnumArt
//@ struct Art
//@ props E06
//@ fn my_hash
//@@ sig pub fn my_hash<T: VpHash>(obj: T) -> (r: u64)
    ensures r == fin(obj.toks()),
//@@ after hash
    assert(hasher@ =~= obj.toks());
//@ fn Loc::hash@Hash
//@@ sig pub fn loc_hash(self_: &Loc, state: &mut DefaultHasher)
//@@ rename loc_hash
    ensures final(state)@ == old(state)@ + seq![Tok::U64(self_.hash)], // [E06] the hash of a location is a function of the location
//@@ subst self =>> self_
//@ fn App::app_typeid@Producer
//@@ impl <Arg: Data + VpHash, Spurious, Res> App<Arg, Spurious, Res>
    ensures r == ty::<Self>(),
//@ fn App::prog_pt@Producer
//@@ impl <Arg: Data + VpHash, Spurious, Res> App<Arg, Spurious, Res>
    ensures *r == self.prog_pt,
//@ fn App::produce@Producer
//@@ impl <Arg: Data + VpHash, Spurious, Res> App<Arg, Spurious, Res>
    ensures ran(*self.fn_box, self.arg, self.spurious, r), // [E01,E06]
//@ fn App::copy@Producer
//@@ impl <Arg: Data + VpHash, Spurious, Res> App<Arg, Spurious, Res>
    ensures self.boxed(r), // [E01,E06]
//@ fn App::eq@Producer
//@@ impl <Arg: Data + VpHash, Spurious, Res> App<Arg, Spurious, Res>
    ensures r == (key_a(*self) == (Key { id: NameChoice::Eager, ..pkey(*other) })), // [E01,E06] the same computation exactly if the function (program point, types) and the arguments are
//@@ subst vp_box (other) =>> other
//@@ entry
    proof { arg_inj(self.arg, pkey(*other).arg); }
//@ fn NaiveThunk::thunk_typeid@Force
//@@ impl <A: Data + VpHash, S, T> NaiveThunk<A, S, T>
    ensures r == ty::<Self>(),
//@ fn NaiveThunk::prog_pt@Force
//@@ impl <A: Data + VpHash, S, T> NaiveThunk<A, S, T>
    ensures *r == self.prog_pt,
//@ fn NaiveThunk::id@Force
//@@ impl <A: Data + VpHash, S, T> NaiveThunk<A, S, T>
    ensures *r == self.id,
//@ fn NaiveThunk::force@Force
//@@ impl <A: Data + VpHash, S, T> NaiveThunk<A, S, T>
    ensures ran(*self.fn_box, self.arg, self.spurious, r), // [E06]
//@ fn NaiveThunk::copy@Force
//@@ impl <A: Data + VpHash, S, T> NaiveThunk<A, S, T>
    ensures self.boxed(r), // [E06]
//@ fn NaiveThunk::eq@Force
//@@ impl <A: Data + VpHash, S, T> NaiveThunk<A, S, T>
    ensures r == (key_n(*self) == fkey(*other)), // [E06] equal exactly if the same function on the same arguments
//@@ subst vp_box (other) =>> other
//@@ entry
    proof { arg_inj(self.arg, fkey(*other).arg); }
//@ fn NaiveThunk::hash_u64@Force
//@@ impl <A: Data + VpHash, S, T> NaiveThunk<A, S, T>
    ensures r == fin(self.id.toks() + self.prog_pt.toks() + self.arg.toks()), // [E06] the hash is a function of the key
//@ fn EnumArt::eq@PartialEq
//@@ impl <T> EnumArt<T>
    ensures r == same(*self, *other), // [E06] equal exactly if they denote the same location, constant or suspended computation
//@ fn EnumArt::hash@Hash
//@@ sig pub fn enum_hash<T: VpHash>(self_: &EnumArt<T>, hasher: &mut DefaultHasher)
//@@ rename enum_hash
    ensures final(hasher)@ == old(hasher)@ + etoks(*self_), // [E06] the hash is a function of what is denoted
//@@ subst self =>> self_
//@ fn thunk_map
//@@ sig pub fn thunk_map<Res1: VpHash, Res2>(thunk: Art<Res1>, map_fn: MapFn<Res1, Res2>) -> (r: Art<Res2>)
    ensures r.art is Force, fkey(*r.art->Force_0) == mapkey(thunk, map_fn), // [E06] identified by the thunk and the function
        forall|x: Res2| #[trigger] fran(*r.art->Force_0, x) ==> maps(&thunk, &map_fn, x), // [E01,E06] it gives what the function makes of the thunk's result
//@@ subst Rc :: as_ptr (& map_fn) as * const () as usize =>> vp_addr(&map_fn)
//@@ subst Rc :: new (NaiveThunk =>> vp_rcbox(NaiveThunk
//@@ subst move | _ , _ | =>> move |_a: (u64, usize), _s: ()| -> (vx: Res2) ensures maps(&thunk, &map_fn, vx)
//@ end
pub open spec fn maps<Res1, Res2>(thunk: &Art<Res1>, map_fn: &MapFn<Res1, Res2>, x: Res2) -> bool { exists|y: Res1| demanded(*thunk, y) && #[trigger] mapped(*map_fn, y, x) }
pub open spec fn mapkey<Res1: VpHash, Res2>(thunk: Art<Res1>, map_fn: MapFn<Res1, Res2>) -> Key {
    Key { id: NameChoice::Naive, ty: ty::<NaiveThunk<(u64, usize), (), Res2>>(), pt: ProgPt { symbol: "engine::thunk_map" }, arg: enc((fin(thunk.toks()), addr(map_fn))) }
}
/// two references denote the same
pub open spec fn same<T>(a: EnumArt<T>, b: EnumArt<T>) -> bool {
    match (a, b) {
        (EnumArt::Rc(x), EnumArt::Rc(y)) => x == y,
        (EnumArt::Loc(x), EnumArt::Loc(y)) => x == y,
        (EnumArt::Force(x), EnumArt::Force(y)) => fkey(*x) == fkey(*y),
        _ => false,
    }
}
pub open spec fn etoks<T: VpHash>(a: EnumArt<T>) -> Seq<Tok> {
    match a {
        EnumArt::Rc(x) => x.toks(),
        EnumArt::Loc(x) => x.toks(),
        EnumArt::Force(x) => fhash(fkey(*x)).toks(),
    }
}
/// equal references hash equally
pub proof fn equal_hash<T: VpHash>(a: EnumArt<T>, b: EnumArt<T>)
    requires same(a, b),
    ensures etoks(a) == etoks(b), // [E06]
{}
/// equality of references is an equivalence
pub proof fn same_equivalence<T>(a: EnumArt<T>, b: EnumArt<T>, c: EnumArt<T>)
    ensures same(a, a), same(a, b) ==> same(b, a), same(a, b) && same(b, c) ==> same(a, c), // [E06]
{}
/// the hash that a naive thunk gives is a function of its key (the contract
/// assumed of the dispatch of hash_u64)
pub proof fn naive_hash<A: Data + VpHash, S, T>(a: NaiveThunk<A, S, T>, b: NaiveThunk<A, S, T>)
    requires key_n(a) == key_n(b),
    ensures fin(a.id.toks() + a.prog_pt.toks() + a.arg.toks()) == fin(b.id.toks() + b.prog_pt.toks() + b.arg.toks()), // [E06]
{ arg_inj(a.arg, enc(a.arg)); }
fn main() {}
}
