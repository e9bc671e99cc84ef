// ---- opaque types: values of the user's types, functions, mapping families
#[verifier::external_body] pub struct Val { v: u64 }
#[verifier::external_body] pub struct FnBox { v: u64 }
#[verifier::external_body] pub struct Fun { v: u64 }
#[verifier::external_body] pub struct AbsFam { v: u64 }
#[verifier::external_body] pub struct TypeId { v: u64 }
/// a `RefCell<DCG>`: the borrow flag is not modelled
pub type VpCell = DCG;
pub struct PhantomData;
pub enum Dep { ForceDep(ForceDep), ForceMapDep(ForceMapDep), ForceAbsDep(ForceAbsDep), AllocCell(AllocCell), AllocNominalThunk(AllocNominalThunk), AllocStructuralThunk(AllocStructuralThunk) }
/// ghost state: locations the running demand relies on the value of (d), on
/// the allocated content of (a), and those being cleaned (b)
pub ghost struct Gh { pub d: ISet<Loc>, pub a: ISet<Loc>, pub b: ISet<Loc> }

// ---- shims for the extraction
//@ include map.inc
//@ end
/// derived equality is structural
#[verifier::external_body]
pub fn vp_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }
/// clones are equal to their originals
pub trait VpClone where Self: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VpClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn my_hash<T>(obj: T) -> (r: u64) ensures r == hash_of(obj) { unimplemented!() }
pub uninterp spec fn hash_of<T>(obj: T) -> u64;
pub mod env {
    use super::*;
    #[verifier::external_body]
    pub fn var(s: &str) -> (r: Result<String, ()>) { unimplemented!() }
}

//@ derives Name PartialEq Eq Clone
//@ derives NameSym PartialEq Eq
//@ derives Path PartialEq Eq Clone
//@ derives ArtId PartialEq Eq Clone
//@ derives Loc PartialEq Eq Clone
//@ derives Effect PartialEq Eq Clone
//@ struct Name
//@ enum NameSym
//@ enum Path
//@ enum ArtId
//@ struct Loc
//@ enum NameChoice
//@ enum Effect
//@ struct ForceDep
//@ struct ForceMapDep
//@ struct ForceAbsDep
//@ struct AllocCell
//@ struct AllocNominalThunk
//@ struct AllocStructuralThunk
//@ struct Succ
//@ struct Pred
//@ struct Frame
//@ struct ProgPt
//@ struct App
//@ struct PureNode
//@ struct MutNode
//@ struct CompNode
//@ enum Node
//@ struct Flags
//@ struct DCG
//@ struct DCGRes
//@ enum AbsArt
//@ struct NaiveThunk
//@ struct Art
//@ enum EnumArt
//@ enum Engine
//@ struct Globals
//@ end
/// the transmute between `Box<dyn GraphNode>` and `Box<Node<Res>>` is the identity
pub trait ShapeShifter where Self: Sized { fn be_node<'r>(&'r mut self) -> (r: &'r mut Self) ensures *r == *old(self), *final(self) == *final(r); }
impl ShapeShifter for Node { fn be_node<'r>(&'r mut self) -> (r: &'r mut Self) { self } }
