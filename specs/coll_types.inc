use vstd::prelude::*;
use std::rc::Rc;
verus! {
//@ include std.inc
//@ end
// ---- shims for the extraction
/// derived clones are equal to the original
pub trait VC: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VC for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub fn vp_own<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
/// derived equality is structural
#[verifier::external_body] pub fn vp_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
/// the order of the elements (trait Ord)
pub uninterp spec fn le<T>(a: T, b: T) -> bool;
#[verifier::external_body] pub fn vp_le<T>(a: &T, b: &T) -> (r: bool) ensures r == le(*a, *b) { unimplemented!() }
#[verifier::external_body] pub proof fn ax_le<T>()
    ensures forall|a: T, b: T| #[trigger] le(a, b) || le(b, a), forall|a: T, b: T, c: T| #[trigger] le(a, b) && #[trigger] le(b, c) ==> le(a, c) { }
#[verifier::external_body] pub fn vp_panic<T>() -> (r: T) requires false { unimplemented!() }
/// a panic that is allowed: the program stops
#[verifier::external_body] pub fn vp_stop<T>() -> (r: T) ensures false { unimplemented!() }
pub fn vp_assert(b: bool) requires b { }
/// what a reference holds; allocation, demand and memoisation are transparent
/// (this is what E01 to E07 say of the engine)
pub struct Art<T> { pub v: Box<T> }
#[verifier::external_body] pub fn force<T>(a: &Art<T>) -> (r: T) ensures r == *a.v { unimplemented!() }
#[verifier::external_body] pub fn cell<T>(n: Name, x: T) -> (r: Art<T>) ensures *r.v == x { unimplemented!() }
pub fn vp_memo<T>(n: Name, x: T) -> (r: T) ensures r == x { x }
#[verifier::external_body] pub fn vp_thunk<T>(n: Name, x: T) -> (r: Art<T>) ensures *r.v == x { unimplemented!() }
#[verifier::external_body] pub fn vp_eager<T>(n: Name, x: T) -> (r: (Art<T>, T)) ensures *r.0.v == x, r.1 == x { unimplemented!() }
pub fn vp_ns<T>(n: Name, x: T) -> (r: T) ensures r == x { x }
// names are opaque here (N01)
#[verifier::external_body] pub struct Name { h: u64 }
#[verifier::external_body] pub fn name_unit() -> Name { unimplemented!() }
#[verifier::external_body] pub fn name_of_usize(u: usize) -> Name { unimplemented!() }
#[verifier::external_body] pub fn name_of_str(s: &str) -> Name { unimplemented!() }
#[verifier::external_body] pub fn name_pair(a: Name, b: Name) -> Name { unimplemented!() }
#[verifier::external_body] pub fn name_fork(n: Name) -> (Name, Name) { unimplemented!() }
#[verifier::external_body] pub fn name_fork3(n: Name) -> (Name, Name, Name) { unimplemented!() }
#[verifier::external_body] pub fn name_fork4(n: Name) -> (Name, Name, Name, Name) { unimplemented!() }

pub assume_specification[ usize::max_value ]() -> (r: usize) ensures r == usize::MAX;
