//@ source src/engine.rs
//@ source src/macros.rs
//@ dropmacro dcg_effect_begin dcg_effect_end dcg_effect
//@ dropcall wf::check_dcg wf::check_stack_is_clean
//@ unsafeonly Box::be_node
//@ opt std casts boxdyn unboxtype unboxmatch:Node turbofish concrete:Loc
//@ keep Arg Spurious Res T A S replace my_hash
//@ tymap Box<dynProducer<Res>> =>> DynProd<Res>
//@ tymap &dynProducer<Res> =>> &DynProd<Res>
//@ tymap Box<dynDCGDep> =>> DynDep
//@ tymap Box<dynGraphNode> =>> DynNode
//@ tymap &RefCell<DCG> =>> &mut DCG
//@ tymap Rc<Box<dynFn(Arg,Spurious)->Res>> =>> FnBox<Arg, Spurious, Res>
//@ tymap Rc<dynFn(Arg,Spurious)->Res> =>> FnBox<Arg, Spurious, Res>
//@ tymap Rc<dynFn(A,S)->T> =>> FnBox<A, S, T>
//@ tymap Rc<Box<dynFn(A,S)->T>> =>> FnBox<A, S, T>
//@ tymap &dynForce<T> =>> &DynForce<T>
use vstd::prelude::*;
use std::rc::Rc;
verus! {
//@ include std.inc
//@ end
/// The types of the engine's nodes, with the generic parameters kept.  A box of
/// a trait object is a value that carries the type it was made from; a transmute
/// is a change of type that requires that type.
#[verifier::external_body] pub struct TypeId { v: u64 }
/// the type id of a type
pub uninterp spec fn ty<T>() -> TypeId;
impl TypeId { #[verifier::external_body] pub fn of<T>() -> (r: TypeId) ensures r == ty::<T>() { unimplemented!() } }
#[verifier::external_body] #[verifier::accept_recursive_types(A)] #[verifier::accept_recursive_types(S)] #[verifier::accept_recursive_types(R)]
pub struct FnBox<A, S, R> { f: Rc<Box<dyn Fn(A, S) -> R>> }
impl<A, S, R> FnBox<A, S, R> { #[verifier::external_body] pub fn call(&self, a: A, s: S) -> (r: R) { unimplemented!() } }
/// a boxed node: `nty` is the type of the results of the node it was made from
#[verifier::external_body] pub struct DynNode { v: u64 }
pub uninterp spec fn nty(d: DynNode) -> TypeId;
/// a boxed producer: `pty` is the type it was made from
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct DynProd<R> { v: Rc<R> }
pub uninterp spec fn pty<R>(d: DynProd<R>) -> TypeId;
/// a boxed naive thunk
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct DynForce<R> { v: Rc<R> }
pub uninterp spec fn fty<R>(d: DynForce<R>) -> TypeId;
#[verifier::external_body] pub struct DynDep { v: u64 }
//@ include map.inc
//@ end
#[verifier::external_body]
pub fn vp_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
/// a panic stops the program
#[verifier::external_body]
pub fn vp_panic<T>() -> (r: T) ensures false { unimplemented!() }
#[verifier::external_body]
pub fn replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }
pub trait VpClone where Self: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VpClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn my_hash<T>(obj: T) -> (r: u64) { unimplemented!() }

/// a change of type: `ok` is what makes it one that changes nothing
pub trait VpCast<B> where Self: Sized {
    spec fn ok(self) -> bool;
    fn cast(self) -> (r: B) requires self.ok();
}
pub fn vp_cast<A: VpCast<B>, B>(a: A) -> (r: B) requires a.ok() { a.cast() }
impl<'a, Res> VpCast<&'a mut Node<Res>> for &'a mut DynNode {
    open spec fn ok(self) -> bool { nty(*self) == ty::<Res>() }
    #[verifier::external_body]
    fn cast(self) -> (r: &'a mut Node<Res>) { unimplemented!() }
}
impl<'a, Arg, Spurious, Res> VpCast<&'a mut App<Arg, Spurious, Res>> for &'a mut DynProd<Res> {
    open spec fn ok(self) -> bool { pty(*self) == ty::<App<Arg, Spurious, Res>>() }
    #[verifier::external_body]
    fn cast(self) -> (r: &'a mut App<Arg, Spurious, Res>) { unimplemented!() }
}
impl<'a, Arg, Spurious, Res> VpCast<&'a App<Arg, Spurious, Res>> for &'a DynProd<Res> {
    open spec fn ok(self) -> bool { pty(*self) == ty::<App<Arg, Spurious, Res>>() }
    #[verifier::external_body]
    fn cast(self) -> (r: &'a App<Arg, Spurious, Res>) { unimplemented!() }
}
impl<'a, A, S, T> VpCast<&'a NaiveThunk<A, S, T>> for &'a DynForce<T> {
    open spec fn ok(self) -> bool { fty(*self) == ty::<NaiveThunk<A, S, T>>() }
    #[verifier::external_body]
    fn cast(self) -> (r: &'a NaiveThunk<A, S, T>) { unimplemented!() }
}
/// boxing, and the change to a trait object that goes with it
pub trait VpBox<U> where Self: Sized { spec fn boxed(self, r: U) -> bool; fn vbox(self) -> (r: U) ensures self.boxed(r); }
pub fn vp_box<T: VpBox<U>, U>(t: T) -> (r: U) ensures t.boxed(r) { t.vbox() }
impl<Res> VpBox<DynNode> for Node<Res> {
    open spec fn boxed(self, r: DynNode) -> bool { nty(r) == ty::<Res>() }
    #[verifier::external_body]
    fn vbox(self) -> (r: DynNode) { unimplemented!() }
}
impl<Arg, Spurious, Res> VpBox<DynProd<Res>> for App<Arg, Spurious, Res> {
    open spec fn boxed(self, r: DynProd<Res>) -> bool { pty(r) == ty::<App<Arg, Spurious, Res>>() }
    #[verifier::external_body]
    fn vbox(self) -> (r: DynProd<Res>) { unimplemented!() }
}
impl<T> VpBox<DynDep> for AllocNominalThunk<T> { open spec fn boxed(self, r: DynDep) -> bool { true } #[verifier::external_body] fn vbox(self) -> (r: DynDep) { unimplemented!() } }
impl VpBox<DynDep> for AllocStructuralThunk { open spec fn boxed(self, r: DynDep) -> bool { true } #[verifier::external_body] fn vbox(self) -> (r: DynDep) { unimplemented!() } }
/// dispatch of the methods of the trait objects, to the implementations under contract below
impl DynNode {
    #[verifier::external_body] pub fn res_typeid(&self) -> (r: TypeId) ensures r == nty(*self) { unimplemented!() }
    #[verifier::external_body] pub fn preds_alloc(&self) -> (r: Vec<Rc<Loc>>) { unimplemented!() }
    #[verifier::external_body] pub fn preds_obs(&self) -> (r: Vec<(Rc<Loc>, Option<Rc<DynDep>>)>) { unimplemented!() }
    #[verifier::external_body] pub fn preds_insert(&mut self, eff: Effect, loc: &Rc<Loc>, dep: Option<Rc<DynDep>>) ensures nty(*final(self)) == nty(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn preds_remove(&mut self, loc: &Rc<Loc>) ensures nty(*final(self)) == nty(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn succs_def(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn succs<'r>(&'r self) -> (r: &'r Vec<Succ>) { unimplemented!() }
    #[verifier::external_body] pub fn hash_seeded(&self, seed: u64) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] pub fn be_node<'r>(&'r mut self) -> (r: &'r mut DynNode) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
}
impl<Res> DynProd<Res> {
    #[verifier::external_body] pub fn produce(&self) -> (r: Res) { unimplemented!() }
    #[verifier::external_body] pub fn copy(&self) -> (r: DynProd<Res>) ensures pty(r) == pty(*self) { unimplemented!() }
    #[verifier::external_body] pub fn eq(&self, other: &DynProd<Res>) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn app_typeid(&self) -> (r: TypeId) ensures r == pty(*self) { unimplemented!() }
    #[verifier::external_body] pub fn prog_pt(&self) -> (r: &ProgPt) { unimplemented!() }
}
impl<T> DynForce<T> {
    #[verifier::external_body] pub fn thunk_typeid(&self) -> (r: TypeId) ensures r == fty(*self) { unimplemented!() }
    #[verifier::external_body] pub fn prog_pt(&self) -> (r: &ProgPt) { unimplemented!() }
}
impl<T> DynForce<T> { #[verifier::external_body] pub fn id(&self) -> (r: &NameChoice) { unimplemented!() } }
/// for messages
pub trait Reflect where Self: Sized { fn reflect(&self) -> (r: u64); }
impl<T> Reflect for T { #[verifier::external_body] fn reflect(&self) -> (r: u64) { unimplemented!() } }
impl ProgPt { #[verifier::external_body] pub fn eq(&self, o: &ProgPt) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub fn dirty_alloc(st: &mut DCG, loc: &Rc<Loc>) { unimplemented!() }
#[verifier::external_body] pub fn current_path(st: &DCG) -> (r: Rc<Path>) { unimplemented!() }
//@ struct Name
//@ enum NameSym
//@ enum Path
//@ enum ArtId
//@ struct Loc
//@ enum NameChoice
//@ enum Effect
//@ struct AllocNominalThunk
//@ struct AllocStructuralThunk
//@ struct Succ
//@ struct Pred
//@ struct Frame
//@ struct ProgPt
//@ struct App
//@ struct PureNode
//@ struct MutNode
//@ struct CompNode
//@ enum Node
//@ struct Flags
//@ struct DCG
//@ enum AbsArt
//@ struct NaiveThunk

//@ props E10
//@ fn Node::res_typeid
//@@ impl <Res> Node<Res>
    ensures r == ty::<Res>(), // [E10]
//@ fn App::app_typeid@Producer
//@@ impl <Arg, Spurious, Res> App<Arg, Spurious, Res>
    ensures r == ty::<Self>(), // [E10]
//@ fn NaiveThunk::thunk_typeid@Force
//@@ impl <A, S, T> NaiveThunk<A, S, T>
    ensures r == ty::<Self>(), // [E10]
//@ end
impl<Arg, Spurious, Res> App<Arg, Spurious, Res> {
    #[verifier::external_body] pub fn consume(&mut self, arg: Arg) { unimplemented!() }
    #[verifier::external_body] pub fn get_arg(&mut self) -> (r: Arg) { unimplemented!() }
}
//@ fn App::prog_pt@Producer
//@@ impl <Arg, Spurious, Res> App<Arg, Spurious, Res>
//@ fn App::eq@Producer
//@@ impl <Arg, Spurious, Res> App<Arg, Spurious, Res>
//@@ subst vp_box (other) =>> other
//@ fn NaiveThunk::eq@Force
//@@ impl <A, S, T> NaiveThunk<A, S, T>
//@@ subst vp_box (other) =>> other
//@ fn lookup_abs
    ensures old(st).table@.dom().contains(*loc), *r == old(st).table@[*loc],
//@ fn get_top_stack_loc
//@ fn assert_graphnode_res_type
//@@ sig pub fn assert_graphnode_res_type<Res>(loc: &Loc, node: &DynNode, top_stack: Option<Rc<Loc>>)
    ensures nty(*node) == ty::<Res>(), // [E10]
//@ fn res_node_of_loc
    ensures old(st).table@.dom().contains(*loc), nty(old(st).table@[*loc]) == ty::<Res>(), // [E10]
//@ fn loc_of_id
//@ fn DCG::thunk@Adapton
//@@ sig pub fn thunk<Arg, Spurious, Res>(&mut self, id: NameChoice, prog_pt: ProgPt, fn_box: FnBox<Arg, Spurious, Res>, arg: Arg, spurious: Spurious) -> (r: AbsArt<Res>)
//@ end
fn main() {}
}
