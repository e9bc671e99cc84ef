//@ source src/macros.rs
//@ opt std boxdyn natfn
//@ tlvar NAME_COUNTER ctr
//@ tparam ctr: &mut usize | bump_name_counter
use vstd::prelude::*;
use std::rc::Rc;
verus! {
//@ include std.inc
//@ end
// The macros, expanded at uses of each arm, against the engine operations that
// they abbreviate (contracts of the operations: modules engine, names, arts).
#[verifier::external_body]
pub fn vp_panic<T>() -> (r: T) ensures false { unimplemented!() }
#[verifier::external_body]
pub fn vp_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
/// names, by construction (module names)
pub enum Name { Usize(usize), Str(Seq<char>), ForkL(Box<Name>), ForkR(Box<Name>), Other(int) }
#[verifier::external_body] pub fn name_of_str(s: &str) -> (r: Name) ensures r == Name::Str(s@) { unimplemented!() }
#[verifier::external_body] pub fn name_of_usize(u: usize) -> (r: Name) ensures r == Name::Usize(u) { unimplemented!() }
#[verifier::external_body] pub fn name_fork(n: Name) -> (r: (Name, Name)) ensures r.0 == Name::ForkL(Box::new(n)), r.1 == Name::ForkR(Box::new(n)) { unimplemented!() }
pub enum NameChoice { Naive, Eager, Structural, Nominal(Name) }
pub struct ProgPt { pub symbol: &'static str }
// the user's types and functions
#[verifier::external_body] pub struct A { v: u64 }
#[verifier::external_body] pub struct B { v: u64 }
#[verifier::external_body] pub struct C { v: u64 }
#[verifier::external_body] pub struct R { v: u64 }
pub uninterp spec fn gave1(a: A, r: R) -> bool;
pub uninterp spec fn gave2(a: A, b: B, r: R) -> bool;
pub uninterp spec fn gave3(a: A, b: B, c: C, r: R) -> bool;
pub uninterp spec fn gave0(r: R) -> bool;
#[verifier::external_body] pub fn fun0() -> (r: R) ensures gave0(r) { unimplemented!() }
#[verifier::external_body] pub fn fun1(a: A) -> (r: R) ensures gave1(a, r) { unimplemented!() }
#[verifier::external_body] pub fn fun2(a: A, b: B) -> (r: R) ensures gave2(a, b, r) { unimplemented!() }
#[verifier::external_body] pub fn fun3(a: A, b: B, c: C) -> (r: R) ensures gave3(a, b, c, r) { unimplemented!() }
#[verifier::external_body] pub fn gen2<T>(a: A, b: T) -> (r: R) ensures gaveg(a, b, r) { unimplemented!() }
pub uninterp spec fn gaveg<T>(a: A, b: T, r: R) -> bool;
#[verifier::external_body] pub fn other0() -> (r: R) ensures gaveo(r) { unimplemented!() }
pub uninterp spec fn gaveo(r: R) -> bool;
/// `stringify!` of more than one token: a text that tells it from others
pub uninterp spec fn text(s: &str) -> u64;
#[verifier::external_body] pub fn vp_text(h: u64) -> (r: &'static str) ensures text(r) == h { unimplemented!() }
// functions of the engine
#[verifier::external_body] #[verifier::accept_recursive_types(X)] #[verifier::accept_recursive_types(S)] #[verifier::accept_recursive_types(T)]
pub struct FnBox<X, S, T> { f: Rc<Box<dyn Fn(X, S) -> T>> }
pub uninterp spec fn ran<X, S, T>(f: FnBox<X, S, T>, a: X, s: S, r: T) -> bool;
pub trait VpBox<U> where Self: Sized { spec fn fit(self) -> bool; spec fn boxed(self, r: U) -> bool; fn vbox(self) -> (r: U) requires self.fit() ensures self.boxed(r); }
pub fn vp_box<T: VpBox<U>, U>(t: T) -> (r: U) requires t.fit() ensures t.boxed(r) { t.vbox() }
/// a closure that is boxed is run with any arguments, and keeps its contract
impl<X, S, T, F: Fn(X, S) -> T> VpBox<FnBox<X, S, T>> for F {
    open spec fn fit(self) -> bool { forall|a: X, s: S| #[trigger] self.requires((a, s)) }
    open spec fn boxed(self, r: FnBox<X, S, T>) -> bool { forall|a: X, s: S, x: T| #[trigger] ran(r, a, s, x) ==> self.ensures((a, s), x) }
    #[verifier::external_body]
    fn vbox(self) -> (r: FnBox<X, S, T>) { unimplemented!() }
}
/// references: a constant, the cell of a name, or a suspended computation
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Art<T> { v: Rc<T> }
pub enum Den { Const(int), Cell(Name, int), Thunk(NameChoice, ProgPt, int), }
pub uninterp spec fn den<T>(a: Art<T>) -> Den;
pub uninterp spec fn enc<T>(a: T) -> int;
/// `x` is a value of the reference
pub uninterp spec fn gives<T>(a: Art<T>, x: T) -> bool;
#[verifier::external_body] pub fn put<T>(v: T) -> (r: Art<T>) ensures den(r) == Den::Const(enc(v)) { unimplemented!() }
#[verifier::external_body] pub fn cell<T>(n: Name, v: T) -> (r: Art<T>) ensures den(r) == Den::Cell(n, enc(v)) { unimplemented!() }
#[verifier::external_body] pub fn thunk<X, S, T>(id: NameChoice, prog_pt: ProgPt, fn_box: Rc<FnBox<X, S, T>>, arg: X, spurious: S) -> (r: Art<T>)
    ensures den(r) == Den::Thunk(id, prog_pt, enc(arg)), forall|x: T| #[trigger] gives(r, x) ==> ran(*fn_box, arg, spurious, x)
{ unimplemented!() }
pub uninterp spec fn gives_cycle<T>(a: Art<T>, out: Option<T>, x: T) -> bool;
#[verifier::external_body] pub fn force<T>(a: &Art<T>) -> (r: T) ensures gives(*a, r) { unimplemented!() }
#[verifier::external_body] pub fn force_cycle<T>(a: &Art<T>, out: Option<T>) -> (r: T) ensures gives_cycle(*a, out, r) { unimplemented!() }
/// an optional name: none, evaluated at once
pub open spec fn choice(n: Option<Name>) -> NameChoice { match n { None => NameChoice::Eager, Some(m) => NameChoice::Nominal(m) } }
pub open spec fn pt(s: &'static str) -> ProgPt { ProgPt { symbol: s } }

//@ props X01
//@ fn bump_name_counter
//@@ sig pub fn bump_name_counter(ctr: &mut usize) -> (r: usize)
    requires *old(ctr) < usize::MAX,
    ensures r == *old(ctr), *final(ctr) == *old(ctr) + 1, // [X01] a new number each time
//@ use get
//@@ use get!(a)
//@@ sig pub fn use_get(a: Art<R>) -> (r: R)
    ensures gives(a, r), // [X01]
//@ use get_cycle
//@@ use get!(a, x)
//@@ sig pub fn use_get_cycle(a: Art<R>, x: R) -> (r: R)
    ensures gives_cycle(a, Some(x), r), // [X01]
//@ use cell_opt
//@@ use cell!([n]? v)
//@@ sig pub fn use_cell_opt(n: Option<Name>, v: R) -> (r: Art<R>)
    ensures den(r) == (match n { Some(m) => Den::Cell(m, enc(v)), None => Den::Const(enc(v)) }), // [X01]
//@ use cell_name
//@@ use cell!([nm] v)
//@@ sig pub fn use_cell_name(v: R) -> (r: Art<R>)
    ensures den(r) == Den::Cell(Name::Str("nm"@), enc(v)), // [X01]
//@ use cell_new
//@@ use cell!(v)
//@@ sig pub fn use_cell_new(v: R, ctr: &mut usize) -> (r: Art<R>)
    requires *old(ctr) < usize::MAX,
    ensures den(r) == Den::Cell(Name::Usize(*old(ctr)), enc(v)), *final(ctr) == *old(ctr) + 1, // [X01]
//@ use thunk1
//@@ use thunk!([n]? fun1; x: a)
//@@ sig pub fn use_thunk1(n: Option<Name>, a: A) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(choice(n), pt("fun1"), enc((a, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave1(a, x), // [X01]
//@@ closure 0 (p0: (A, ()), p1: ()) -> (q: R)
    ensures gave1(p0.0, q)
//@ use memo1
//@@ use memo!([n]? fun1; x: a)
//@@ sig pub fn use_memo1(n: Option<Name>, a: A) -> (r: (Art<R>, R))
    ensures den(r.0) == Den::Thunk(choice(n), pt("fun1"), enc((a, ()))), forall|x: R| #[trigger] gives(r.0, x) ==> gave1(a, x), gives(r.0, r.1), // [X01]
//@@ closure 0 (p0: (A, ()), p1: ()) -> (q: R)
    ensures gave1(p0.0, q)
//@ use thunk_arrow1
//@@ use thunk!(n =>> fun1, x: a)
//@@ sig pub fn use_thunk_arrow1(n: Name, a: A) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(NameChoice::Nominal(n), pt("fun1"), enc((a, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave1(a, x), // [X01]
//@@ closure 0 (p0: (A, ()), p1: ()) -> (q: R)
    ensures gave1(p0.0, q)
//@ use thunk_id1
//@@ use thunk!([nm] fun1; x: a)
//@@ sig pub fn use_thunk_id1(a: A) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(NameChoice::Nominal(Name::Str("nm"@)), pt("fun1"), enc((a, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave1(a, x), // [X01]
//@@ closure 0 (p0: (A, ()), p1: ()) -> (q: R)
    ensures gave1(p0.0, q)
//@ use memo_arrow1
//@@ use memo!(n =>> fun1, x: a)
//@@ sig pub fn use_memo_arrow1(n: Name, a: A) -> (r: R)
    ensures exists|t: Art<R>| #[trigger] den(t) == Den::Thunk(NameChoice::Nominal(n), pt("fun1"), enc((a, ()))) && gives(t, r), gave1(a, r), // [X01]
//@@ closure 0 (p0: (A, ()), p1: ()) -> (q: R)
    ensures gave1(p0.0, q)
//@ use thunk2
//@@ use thunk!([n]? fun2; x: a, y: b)
//@@ sig pub fn use_thunk2(n: Option<Name>, a: A, b: B) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(choice(n), pt("fun2"), enc((a, b, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave2(a, b, x), // [X01]
//@@ closure 0 (p0: (A, B, ()), p1: ()) -> (q: R)
    ensures gave2(p0.0, p0.1, q)
//@ use memo2
//@@ use memo!([n]? fun2; x: a, y: b)
//@@ sig pub fn use_memo2(n: Option<Name>, a: A, b: B) -> (r: (Art<R>, R))
    ensures den(r.0) == Den::Thunk(choice(n), pt("fun2"), enc((a, b, ()))), forall|x: R| #[trigger] gives(r.0, x) ==> gave2(a, b, x), gives(r.0, r.1), // [X01]
//@@ closure 0 (p0: (A, B, ()), p1: ()) -> (q: R)
    ensures gave2(p0.0, p0.1, q)
//@ use thunk_arrow2
//@@ use thunk!(n =>> fun2, x: a, y: b)
//@@ sig pub fn use_thunk_arrow2(n: Name, a: A, b: B) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(NameChoice::Nominal(n), pt("fun2"), enc((a, b, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave2(a, b, x), // [X01]
//@@ closure 0 (p0: (A, B, ()), p1: ()) -> (q: R)
    ensures gave2(p0.0, p0.1, q)
//@ use thunk_id2
//@@ use thunk!([nm] fun2; x: a, y: b)
//@@ sig pub fn use_thunk_id2(a: A, b: B) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(NameChoice::Nominal(Name::Str("nm"@)), pt("fun2"), enc((a, b, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave2(a, b, x), // [X01]
//@@ closure 0 (p0: (A, B, ()), p1: ()) -> (q: R)
    ensures gave2(p0.0, p0.1, q)
//@ use memo_arrow2
//@@ use memo!(n =>> fun2, x: a, y: b)
//@@ sig pub fn use_memo_arrow2(n: Name, a: A, b: B) -> (r: R)
    ensures exists|t: Art<R>| #[trigger] den(t) == Den::Thunk(NameChoice::Nominal(n), pt("fun2"), enc((a, b, ()))) && gives(t, r), gave2(a, b, r), // [X01]
//@@ closure 0 (p0: (A, B, ()), p1: ()) -> (q: R)
    ensures gave2(p0.0, p0.1, q)
//@ use thunk3
//@@ use thunk!([n]? fun3; x: a, y: b, z: c)
//@@ sig pub fn use_thunk3(n: Option<Name>, a: A, b: B, c: C) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(choice(n), pt("fun3"), enc((a, b, c, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave3(a, b, c, x), // [X01]
//@@ closure 0 (p0: (A, B, C, ()), p1: ()) -> (q: R)
    ensures gave3(p0.0, p0.1, p0.2, q)
//@ use memo3
//@@ use memo!([n]? fun3; x: a, y: b, z: c)
//@@ sig pub fn use_memo3(n: Option<Name>, a: A, b: B, c: C) -> (r: (Art<R>, R))
    ensures den(r.0) == Den::Thunk(choice(n), pt("fun3"), enc((a, b, c, ()))), forall|x: R| #[trigger] gives(r.0, x) ==> gave3(a, b, c, x), gives(r.0, r.1), // [X01]
//@@ closure 0 (p0: (A, B, C, ()), p1: ()) -> (q: R)
    ensures gave3(p0.0, p0.1, p0.2, q)
//@ use thunk_sp1
//@@ use thunk!([n]? fun2; x: a ;; y: b)
//@@ sig pub fn use_thunk_sp1(n: Option<Name>, a: A, b: B) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(choice(n), pt("fun2"), enc((a, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave2(a, b, x), // [X01]
//@@ closure 0 (p0: (A, ()), p1: (B, ())) -> (q: R)
    ensures gave2(p0.0, p1.0, q)
//@ use memo_sp1
//@@ use memo!([n]? fun2; x: a ;; y: b)
//@@ sig pub fn use_memo_sp1(n: Option<Name>, a: A, b: B) -> (r: (Art<R>, R))
    ensures den(r.0) == Den::Thunk(choice(n), pt("fun2"), enc((a, ()))), forall|x: R| #[trigger] gives(r.0, x) ==> gave2(a, b, x), gives(r.0, r.1), // [X01]
//@@ closure 0 (p0: (A, ()), p1: (B, ())) -> (q: R)
    ensures gave2(p0.0, p1.0, q)
//@ use thunk_arrow_sp1
//@@ use thunk!(n =>> fun2, x: a ;; y: b)
//@@ sig pub fn use_thunk_arrow_sp1(n: Name, a: A, b: B) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(NameChoice::Nominal(n), pt("fun2"), enc((a, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave2(a, b, x), // [X01]
//@@ closure 0 (p0: (A, ()), p1: (B, ())) -> (q: R)
    ensures gave2(p0.0, p1.0, q)
//@ use memo_arrow_sp1
//@@ use memo!(n =>> fun2, x: a ;; y: b)
//@@ sig pub fn use_memo_arrow_sp1(n: Name, a: A, b: B) -> (r: R)
    ensures exists|t: Art<R>| #[trigger] den(t) == Den::Thunk(NameChoice::Nominal(n), pt("fun2"), enc((a, ()))) && gives(t, r), gave2(a, b, r), // [X01]
//@@ closure 0 (p0: (A, ()), p1: (B, ())) -> (q: R)
    ensures gave2(p0.0, p1.0, q)
//@ use thunk_sp2
//@@ use thunk!([n]? fun3; x: a, y: b ;; z: c)
//@@ sig pub fn use_thunk_sp2(n: Option<Name>, a: A, b: B, c: C) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(choice(n), pt("fun3"), enc((a, b, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave3(a, b, c, x), // [X01]
//@@ closure 0 (p0: (A, B, ()), p1: (C, ())) -> (q: R)
    ensures gave3(p0.0, p0.1, p1.0, q)
//@ use memo_sp2
//@@ use memo!([n]? fun3; x: a, y: b ;; z: c)
//@@ sig pub fn use_memo_sp2(n: Option<Name>, a: A, b: B, c: C) -> (r: (Art<R>, R))
    ensures den(r.0) == Den::Thunk(choice(n), pt("fun3"), enc((a, b, ()))), forall|x: R| #[trigger] gives(r.0, x) ==> gave3(a, b, c, x), gives(r.0, r.1), // [X01]
//@@ closure 0 (p0: (A, B, ()), p1: (C, ())) -> (q: R)
    ensures gave3(p0.0, p0.1, p1.0, q)
//@ use thunk_arrow_sp2
//@@ use thunk!(n =>> fun3, x: a, y: b ;; z: c)
//@@ sig pub fn use_thunk_arrow_sp2(n: Name, a: A, b: B, c: C) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(NameChoice::Nominal(n), pt("fun3"), enc((a, b, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave3(a, b, c, x), // [X01]
//@@ closure 0 (p0: (A, B, ()), p1: (C, ())) -> (q: R)
    ensures gave3(p0.0, p0.1, p1.0, q)
//@ use memo_arrow_sp2
//@@ use memo!(n =>> fun3, x: a, y: b ;; z: c)
//@@ sig pub fn use_memo_arrow_sp2(n: Name, a: A, b: B, c: C) -> (r: R)
    ensures exists|t: Art<R>| #[trigger] den(t) == Den::Thunk(NameChoice::Nominal(n), pt("fun3"), enc((a, b, ()))) && gives(t, r), gave3(a, b, c, r), // [X01]
//@@ closure 0 (p0: (A, B, ()), p1: (C, ())) -> (q: R)
    ensures gave3(p0.0, p0.1, p1.0, q)
//@ use thunk_sp3
//@@ use thunk!([n]? fun3; x: a ;; y: b, z: c)
//@@ sig pub fn use_thunk_sp3(n: Option<Name>, a: A, b: B, c: C) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(choice(n), pt("fun3"), enc((a, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave3(a, b, c, x), // [X01]
//@@ closure 0 (p0: (A, ()), p1: (B, C, ())) -> (q: R)
    ensures gave3(p0.0, p1.0, p1.1, q)
//@ use memo_sp3
//@@ use memo!([n]? fun3; x: a ;; y: b, z: c)
//@@ sig pub fn use_memo_sp3(n: Option<Name>, a: A, b: B, c: C) -> (r: (Art<R>, R))
    ensures den(r.0) == Den::Thunk(choice(n), pt("fun3"), enc((a, ()))), forall|x: R| #[trigger] gives(r.0, x) ==> gave3(a, b, c, x), gives(r.0, r.1), // [X01]
//@@ closure 0 (p0: (A, ()), p1: (B, C, ())) -> (q: R)
    ensures gave3(p0.0, p1.0, p1.1, q)
//@ use thunk_arrow_sp3
//@@ use thunk!(n =>> fun3, x: a ;; y: b, z: c)
//@@ sig pub fn use_thunk_arrow_sp3(n: Name, a: A, b: B, c: C) -> (r: Art<R>)
    ensures den(r) == Den::Thunk(NameChoice::Nominal(n), pt("fun3"), enc((a, ()))), forall|x: R| #[trigger] gives(r, x) ==> gave3(a, b, c, x), // [X01]
//@@ closure 0 (p0: (A, ()), p1: (B, C, ())) -> (q: R)
    ensures gave3(p0.0, p1.0, p1.1, q)
//@ use memo_arrow_sp3
//@@ use memo!(n =>> fun3, x: a ;; y: b, z: c)
//@@ sig pub fn use_memo_arrow_sp3(n: Name, a: A, b: B, c: C) -> (r: R)
    ensures exists|t: Art<R>| #[trigger] den(t) == Den::Thunk(NameChoice::Nominal(n), pt("fun3"), enc((a, ()))) && gives(t, r), gave3(a, b, c, r), // [X01]
//@@ closure 0 (p0: (A, ()), p1: (B, C, ())) -> (q: R)
    ensures gave3(p0.0, p1.0, p1.1, q)
//@ use thunk_body
//@@ use (thunk![[n]? fun0()], thunk![[m]? other0()])
//@@ sig pub fn use_thunk_body(n: Option<Name>, m: Option<Name>) -> (r: (Art<R>, Art<R>))
    ensures den(r.0) is Thunk, den(r.0)->Thunk_0 == choice(n), den(r.0)->Thunk_2 == enc(()), den(r.1) is Thunk, den(r.1)->Thunk_0 == choice(m), den(r.1)->Thunk_2 == enc(()), den(r.0)->Thunk_1 != den(r.1)->Thunk_1, forall|x: R| #[trigger] gives(r.0, x) ==> gave0(x), forall|x: R| #[trigger] gives(r.1, x) ==> gaveo(x), // [X01]
//@@ closure 0 (p0: (), p1: ()) -> (q: R)
    ensures gave0(q)
//@@ closure 1 (p0: (), p1: ()) -> (q: R)
    ensures gaveo(q)
//@ use thunk_id_body
//@@ use (thunk![[nm] fun0()], thunk![[nm] other0()])
//@@ sig pub fn use_thunk_id_body() -> (r: (Art<R>, Art<R>))
    ensures den(r.0) is Thunk, den(r.0)->Thunk_0 == NameChoice::Nominal(Name::Str("nm"@)), den(r.0)->Thunk_2 == enc(()), den(r.1) is Thunk, den(r.1)->Thunk_0 == NameChoice::Nominal(Name::Str("nm"@)), den(r.1)->Thunk_2 == enc(()), den(r.0)->Thunk_1 != den(r.1)->Thunk_1, forall|x: R| #[trigger] gives(r.0, x) ==> gave0(x), forall|x: R| #[trigger] gives(r.1, x) ==> gaveo(x), // [X01]
//@@ closure 0 (p0: (), p1: ()) -> (q: R)
    ensures gave0(q)
//@@ closure 1 (p0: (), p1: ()) -> (q: R)
    ensures gaveo(q)
//@ use thunk_new
//@@ use thunk![fun0()]
//@@ sig pub fn use_thunk_new(ctr: &mut usize) -> (r: Art<R>)
    requires *old(ctr) < usize::MAX,
    ensures den(r) is Thunk, den(r)->Thunk_0 == NameChoice::Nominal(Name::Usize(*old(ctr))), den(r)->Thunk_2 == enc(()), forall|x: R| #[trigger] gives(r, x) ==> gave0(x), *final(ctr) == *old(ctr) + 1, // [X01]
//@@ closure 0 (p0: (), p1: ()) -> (q: R)
    ensures gave0(q)
//@ use let_thunk
//@@ use let_thunk!{t = fun0(); s = other0(); (t, s)}
//@@ sig pub fn use_let_thunk() -> (r: (Art<R>, Art<R>))
    ensures den(r.0) is Thunk, den(r.0)->Thunk_0 == NameChoice::Nominal(Name::Str("t"@)), den(r.0)->Thunk_2 == enc(()), den(r.1) is Thunk, den(r.1)->Thunk_0 == NameChoice::Nominal(Name::Str("s"@)), den(r.1)->Thunk_2 == enc(()), den(r.0)->Thunk_1 != den(r.1)->Thunk_1, forall|x: R| #[trigger] gives(r.0, x) ==> gave0(x), forall|x: R| #[trigger] gives(r.1, x) ==> gaveo(x), // [X01]
//@@ closure 0 (p0: (), p1: ()) -> (q: R)
    ensures gave0(q)
//@@ closure 1 (p0: (), p1: ()) -> (q: R)
    ensures gaveo(q)
//@ use let_memo
//@@ use let_memo!{x = (t) = fun0(); y = (s) = other0(); (t, x, s, y)}
//@@ sig pub fn use_let_memo() -> (r: (Art<R>, R, Art<R>, R))
    ensures den(r.0) is Thunk, den(r.0)->Thunk_0 == NameChoice::Nominal(Name::Str("t"@)), den(r.0)->Thunk_2 == enc(()), den(r.2) is Thunk, den(r.2)->Thunk_0 == NameChoice::Nominal(Name::Str("s"@)), den(r.2)->Thunk_2 == enc(()), den(r.0)->Thunk_1 != den(r.2)->Thunk_1, gives(r.0, r.1), gives(r.2, r.3), gave0(r.1), gaveo(r.3), // [X01]
//@@ closure 0 (p0: (), p1: ()) -> (q: R)
    ensures gave0(q)
//@@ closure 1 (p0: (), p1: ()) -> (q: R)
    ensures gaveo(q)
//@ use let_cell
//@@ use let_cell!{c = v; d = w; (c, d)}
//@@ sig pub fn use_let_cell(v: R, w: A) -> (r: (Art<R>, Art<A>))
    ensures den(r.0) == Den::Cell(Name::Str("c"@), enc(v)), den(r.1) == Den::Cell(Name::Str("d"@), enc(w)), // [X01]
//@ use fork
//@@ use fork!(n)
//@@ sig pub fn use_fork(n: Name) -> (r: (Name, Name))
    ensures r.0 == Name::ForkL(Box::new(n)), r.1 == Name::ForkR(Box::new(n)), // [X01]
//@ use forko
//@@ use forko!(n)
//@@ sig pub fn use_forko(n: Option<Name>) -> (r: (Option<Name>, Option<Name>))
    ensures r == (match n { None => (None, None), Some(m) => (Some(Name::ForkL(Box::new(m))), Some(Name::ForkR(Box::new(m)))) }), // [X01]
//@ use eager_name
//@@ use eager!(n =>> fun2, x: a, y: b)
//@@ sig pub fn use_eager_name(n: Name, a: A, b: B) -> (r: (Art<R>, R))
    ensures den(r.0) == Den::Thunk(NameChoice::Nominal(n), pt("fun2"), enc((a, b))), forall|x: R| #[trigger] gives(r.0, x) ==> gave2(a, b, x), gives(r.0, r.1), // [X01]
//@@ closure 0 (p0: (A, B), p1: ()) -> (q: R)
    ensures gave2(p0.0, p0.1, q)
//@ use eager_name_gen
//@@ use eager!(n =>> gen2::<B>, x: a, y: b)
//@@ sig pub fn use_eager_name_gen(n: Name, a: A, b: B) -> (r: (Art<R>, R))
    ensures den(r.0) == Den::Thunk(NameChoice::Nominal(n), pt("gen2"), enc((a, b))), forall|x: R| #[trigger] gives(r.0, x) ==> gaveg(a, b, x), gives(r.0, r.1), // [X01]
//@@ closure 0 (p0: (A, B), p1: ()) -> (q: R)
    ensures gaveg(p0.0, p0.1, q)
//@ use eager
//@@ use eager!(fun2, x: a, y: b)
//@@ sig pub fn use_eager(a: A, b: B) -> (r: (Art<R>, R))
    ensures den(r.0) == Den::Thunk(NameChoice::Structural, pt("fun2"), enc((a, b, ()))), forall|x: R| #[trigger] gives(r.0, x) ==> gave2(a, b, x), gives(r.0, r.1), // [X01]
//@@ closure 0 (p0: (A, B, ()), p1: ()) -> (q: R)
    ensures gave2(p0.0, p0.1, q)
//@ use eager_gen
//@@ use eager!(gen2::<B>, x: a, y: b)
//@@ sig pub fn use_eager_gen(a: A, b: B) -> (r: (Art<R>, R))
    ensures den(r.0) == Den::Thunk(NameChoice::Structural, pt("gen2"), enc((a, b))), forall|x: R| #[trigger] gives(r.0, x) ==> gaveg(a, b, x), gives(r.0, r.1), // [X01]
//@@ closure 0 (p0: (A, B), p1: ()) -> (q: R)
    ensures gaveg(p0.0, p0.1, q)
//@ use eager_sp
//@@ use eager!(n =>> gen2 =>> <B>, x: a ;; y: b)
//@@ sig pub fn use_eager_sp(n: Name, a: A, b: B) -> (r: (Art<R>, R))
    ensures den(r.0) == Den::Thunk(NameChoice::Nominal(n), pt("gen2"), enc((a, ()))), forall|x: R| #[trigger] gives(r.0, x) ==> gaveg(a, b, x), gives(r.0, r.1), // [X01]
//@@ closure 0 (p0: (A, ()), p1: (B, ())) -> (q: R)
    ensures gaveg(p0.0, p1.0, q)
//@ use cell_call
//@@ use cell_call!(n =>> fun2, x: a, y: b)
//@@ sig pub fn use_cell_call(n: Name, a: A, b: B) -> (r: Art<R>)
    ensures exists|x: R| #[trigger] gave2(a, b, x) && den(r) == Den::Cell(n, enc(x)), // [X01]
//@ use cell_call_gen
//@@ use cell_call!(n =>> gen2::<B>, x: a, y: b)
//@@ sig pub fn use_cell_call_gen(n: Name, a: A, b: B) -> (r: Art<R>)
    ensures exists|x: R| #[trigger] gaveg(a, b, x) && den(r) == Den::Cell(n, enc(x)), // [X01]
//@ end
fn main() {}
}
