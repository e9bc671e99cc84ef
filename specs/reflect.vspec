//@ source src/reflect.rs
//@ source src/engine.rs
//@ source src/macros.rs
//@ erase Node CompNode PureNode MutNode App Producer ForceDep ForceMapDep ForceAbsDep AllocCell
//@ opt std unboxnew pairiter:table refmutpat:Engine::DCG
//@ keep parse_val
//@ tymap Box<dynProducer> =>> App
//@ tymap Box<dynProducer<Val>> =>> App
//@ tymap Box<dynDCGDep> =>> Dep
//@ tymap Box<dynGraphNode> =>> Node
//@ tymap Rc<Box<dynFn(Val,Val)->Val>> =>> FnBox
//@ tymap RefCell<DCG> =>> DCG
//@ tlvar GLOBALS g
use vstd::prelude::*;
use std::rc::Rc;
verus! {
//@ include std.inc
//@ end
// ---- shims for the extraction
#[verifier::external_body] pub struct Val { v: u64 }
#[verifier::external_body] pub struct FnBox { v: u64 }
#[verifier::external_body] pub struct Dep { v: u64 }
/// keys of a map are told apart by `kv`
pub trait Key { type KV; spec fn kv(&self) -> Self::KV; }
impl Key for Rc<Loc> { type KV = Loc; open spec fn kv(&self) -> Loc { **self } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K: Key, V> { m: std::collections::HashMap<u64, (K, V)> }
impl<K: Key, V> View for HashMap<K, V> { type V = IMap<K::KV, V>; uninterp spec fn view(&self) -> IMap<K::KV, V>; }
impl<K: Key, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == IMap::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.kv(), v) { unimplemented!() }
    /// the entries, each once, in some order
    #[verifier::external_body]
    pub fn vp_pairs<'a>(&'a self) -> (r: Vec<(&'a K, &'a V)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((*(#[trigger] r@[i]).0).kv()) && self@[(*r@[i].0).kv()] == *r@[i].1,
            forall|k: K::KV| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (*(#[trigger] r@[i]).0).kv() == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (*(#[trigger] r@[i]).0).kv() != (*(#[trigger] r@[j]).0).kv(),
    { unimplemented!() }
}
/// derived equality is structural
#[verifier::external_body]
pub fn vp_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn vp_panic<T>() -> (r: T) requires false ensures false { unimplemented!() }
/// clones are equal to their originals
pub trait VpClone where Self: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VpClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }

//@ derives Name PartialEq Eq Clone
//@ derives Path PartialEq Eq Clone
//@ derives ArtId PartialEq Eq Clone
//@ derives src/engine.rs#Loc PartialEq Eq Clone
//@ derives src/reflect.rs#Loc PartialEq Eq Hash Clone
//@ derives src/reflect.rs#Succ Clone
//@ struct Name
//@ enum NameSym
//@ enum src/engine.rs#Path
//@ enum ArtId
//@ struct src/engine.rs#Loc
//@ enum src/engine.rs#Effect
//@ struct src/engine.rs#Succ
//@ struct src/engine.rs#Pred
//@ struct src/engine.rs#Frame
//@ struct ProgPt
//@ struct App
//@ struct src/engine.rs#PureNode
//@ struct MutNode
//@ struct src/engine.rs#CompNode
//@ enum src/engine.rs#Node
//@ struct Flags
//@ struct src/engine.rs#DCG
//@ enum Engine
//@ struct Globals
//@ end

// ---- what a reflection shows
/// a reflected location, by content
pub ghost struct LocV { pub path: Seq<Name>, pub name: Name }
pub open spec fn path_v(p: Path) -> Seq<Name> decreases p { match p { Path::Empty => Seq::empty(), Path::Child(q, n) => path_v(*q).push(n) } }
/// the name that shows a structural identity
pub open spec fn hash_name(h: u64) -> Name { Name { hash: h, symbol: Rc::new(NameSym::Hash64(h)) } }
pub open spec fn loc_v(l: Loc) -> LocV { LocV { path: path_v(*l.path), name: match *l.id { ArtId::Structural(h) => hash_name(h), ArtId::Nominal(n) => n } } }
pub open spec fn rloc_v(l: reflect::Loc) -> LocV { LocV { path: l.path@, name: l.name } }
pub uninterp spec fn loc_hash(p: Path, id: ArtId) -> u64;
/// locations as the engine builds them: the hash is a function of path and
/// identity, and no name a program can build is that of a structural identity
pub open spec fn wf_loc(l: Loc) -> bool { l.hash == loc_hash(*l.path, *l.id) && (*l.id is Nominal ==> !(*(*l.id)->Nominal_0.symbol is Hash64)) }
pub proof fn path_v_inj(a: &Path, b: &Path)
    requires path_v(*a) =~= path_v(*b),
    ensures a == b,
    decreases a,
{
    match a {
        Path::Empty => { match b { Path::Child(q, n) => { assert(path_v(*b).len() > 0); } _ => {} } }
        Path::Child(p, n) => { match b {
            Path::Child(q, m) => { assert(path_v(*a).last() == n); assert(path_v(*b).last() == m); assert(path_v(*a).drop_last() =~= path_v(**p)); assert(path_v(*b).drop_last() =~= path_v(**q)); path_v_inj(&**p, &**q); }
            _ => { assert(path_v(*a).len() > 0); } } }
    }
}
/// different locations are shown differently
pub proof fn loc_v_inj(a: &Loc, b: &Loc)
    requires wf_loc(*a), wf_loc(*b), loc_v(*a) == loc_v(*b),
    ensures a == b,
{ path_v_inj(&*a.path, &*b.path); }
impl Key for reflect::Loc { type KV = LocV; open spec fn kv(&self) -> LocV { rloc_v(*self) } }
/// what parse_val makes of a value (parse_val.vspec)
pub uninterp spec fn shown_val(v: Val, r: reflect::Val) -> bool;
pub mod parse_val { use super::*;
    #[verifier::external_body]
    pub fn parse_val(v: &Val) -> (r: reflect::Val) ensures shown_val(*v, r) { unimplemented!() }
}
pub use parse_val::parse_val;
pub open spec fn shown_res(v: Option<Val>, r: Option<reflect::Val>) -> bool {
    match v { None => r is None, Some(x) => r is Some && shown_val(x, r->0) }
}
pub open spec fn shown_eff(e: Effect, r: reflect::Effect) -> bool { match e { Effect::Observe => r is Force, Effect::Allocate => r is Alloc } }
pub open spec fn shown_succ(x: Succ, r: reflect::Succ) -> bool { r.dirty == x.dirty && rloc_v(r.loc) == loc_v(*x.loc) && shown_eff(x.effect, r.effect) && r.value is ValTODO && !r.is_dup }
pub open spec fn shown_pred(x: Pred, r: reflect::Pred) -> bool { rloc_v(r.loc) == loc_v(*x.loc) && shown_eff(x.effect, r.effect) }
pub open spec fn shown_succs(x: Seq<Succ>, r: Seq<reflect::Succ>) -> bool { x.len() == r.len() && forall|i: int| 0 <= i < x.len() ==> shown_succ(#[trigger] x[i], r[i]) }
pub open spec fn shown_preds(x: Seq<Pred>, r: Seq<reflect::Pred>) -> bool { x.len() == r.len() && forall|i: int| 0 <= i < x.len() ==> shown_pred(#[trigger] x[i], r[i]) }
pub open spec fn shown_frame(x: Frame, r: reflect::Frame) -> bool {
    rloc_v(r.loc) == loc_v(*x.loc) && x.succs@.len() == r.succs@.len() && forall|i: int| 0 <= i < x.succs@.len() ==> shown_succ((#[trigger] x.succs@[i]).0, r.succs@[i])
}
pub open spec fn shown_node(x: Node, r: reflect::Node) -> bool {
    match x {
        Node::Comp(n) => r is Comp && shown_preds(n.preds@, r->Comp_0.preds@) && shown_succs(n.succs@, r->Comp_0.succs@)
            && r->Comp_0.prog_pt == n.producer.prog_pt && shown_res(n.res, r->Comp_0.value),
        Node::Pure(n) => r is Pure && shown_val(n.val, r->Pure_0.value),
        Node::Mut(n) => r is Ref && shown_preds(n.preds@, r->Ref_0.preds@) && shown_val(n.val, r->Ref_0.value),
    }
}
/// exactly the nodes of the engine, at their locations
pub open spec fn shown_table(x: IMap<Loc, Node>, r: IMap<LocV, reflect::Node>) -> bool {
    &&& forall|l: Loc| #[trigger] x.dom().contains(l) ==> r.dom().contains(loc_v(l)) && shown_node(x[l], r[loc_v(l)])
    &&& forall|k: LocV| #[trigger] r.dom().contains(k) ==> exists|l: Loc| x.dom().contains(l) && #[trigger] loc_v(l) == k
}
pub open spec fn wf_table(x: IMap<Loc, Node>) -> bool { forall|l: Loc| #[trigger] x.dom().contains(l) ==> wf_loc(l) }
pub open spec fn shown_dcg(x: DCG, r: reflect::DCG) -> bool {
    &&& shown_table(x.table@, r.table@)
    &&& x.stack@.len() == r.stack@.len() && forall|i: int| 0 <= i < x.stack@.len() ==> shown_frame(#[trigger] x.stack@[i], r.stack@[i])
    &&& r.path@ =~= path_v(*x.path)
}

// ---- the reflected types, and the functions of src/reflect.rs
pub mod reflect {
use super::*;
//@ type src/reflect.rs#Path
//@ enum src/reflect.rs#Val
//@ enum src/reflect.rs#Const
//@ enum src/reflect.rs#ArtContent
//@ struct src/reflect.rs#Loc
//@ enum src/reflect.rs#Effect
//@ struct src/reflect.rs#Succ
//@ struct src/reflect.rs#Pred
//@ struct src/reflect.rs#CompNode
//@ struct src/reflect.rs#RefNode
//@ struct src/reflect.rs#PureNode
//@ enum src/reflect.rs#Node
//@ struct src/reflect.rs#Frame
//@ struct src/reflect.rs#DCG
//@ end
/// `pre`: what holds of the parts of an engine, `shows`: what the result says of them
pub trait Reflect<T> { spec fn pre(&self) -> bool; spec fn shows(&self, r: T) -> bool; fn reflect(&self) -> (r: T) requires self.pre(), ensures self.shows(r); }
//@ props R01
//@ fn Option<T>::reflect@Reflect
//@@ impl <S, T: Reflect<S>> Reflect<Option<S>> for Option<T>
//@@ implspec open spec fn pre(&self) -> bool { self is Some ==> self->0.pre() } open spec fn shows(&self, r: Option<S>) -> bool { match *self { None => r is None, Some(x) => r is Some && x.shows(r->0) } }
//@@ sig fn reflect(&self) -> (r: Option<S>)
//@ fn &'aRc<T>::reflect@Reflect
//@@ impl <'a, S, T: Reflect<S>> Reflect<S> for &'a Rc<T>
//@@ implspec open spec fn pre(&self) -> bool { (***self).pre() } open spec fn shows(&self, r: S) -> bool { (***self).shows(r) }
//@@ sig fn reflect(&self) -> (r: S)
//@ fn Rc<T>::reflect@Reflect
//@@ impl <S, T: Reflect<S>> Reflect<S> for Rc<T>
//@@ implspec open spec fn pre(&self) -> bool { (**self).pre() } open spec fn shows(&self, r: S) -> bool { (**self).shows(r) }
//@@ sig fn reflect(&self) -> (r: S)
//@ fn src/reflect.rs#Succ::reflect@Reflect
//@@ impl Reflect<Succ> for Succ
//@@ implspec open spec fn pre(&self) -> bool { true } open spec fn shows(&self, r: Succ) -> bool { r == *self }
//@@ sig fn reflect(&self) -> (r: Succ)
//@ fn succs_of_node
//@@ params nd
    ensures match *nd { Node::Comp(n) => r is Some && *r->0 == n.succs, _ => r is None }, // [R01]
//@ fn preds_of_node
//@@ params nd
    ensures match *nd { Node::Comp(n) => r is Some && *r->0 == n.preds, Node::Ref(n) => r is Some && *r->0 == n.preds, Node::Pure(_) => r is None }, // [R01]
//@ end
}
use reflect::Reflect;

// ---- the functions of src/engine.rs
//@ fn name_of_hash64
//@@ params h
    ensures r == hash_name(h),
//@ fn App::prog_pt@Producer
    ensures *r == self.prog_pt,
//@ fn Node::succs_def@GraphNode
    ensures r == (self is Comp),
//@ fn Node::succs@GraphNode
    requires self is Comp,
    ensures *r == self->Comp_0.succs,
//@ fn src/engine.rs#Path::reflect@Reflect
//@@ sig pub fn path_reflect(self_: &Path) -> (r: reflect::Path)
//@@ rename path_reflect
//@@ callrec reflect path_reflect
//@@ subst self =>> self_
    ensures r@ == path_v(*self_), // [R01]
//@@ tail
    assert(vp_ret@ =~= path_v(*self_));
//@ end
impl Reflect<reflect::Path> for Path {
    open spec fn pre(&self) -> bool { true }
    open spec fn shows(&self, r: reflect::Path) -> bool { r@ == path_v(*self) }
    fn reflect(&self) -> (r: reflect::Path) { path_reflect(self) }
}
//@ fn src/engine.rs#Loc::reflect@Reflect
//@@ impl Reflect<reflect::Loc> for Loc
//@@ implspec open spec fn pre(&self) -> bool { true } open spec fn shows(&self, r: reflect::Loc) -> bool { rloc_v(r) == loc_v(*self) }
//@@ sig fn reflect(&self) -> (r: reflect::Loc)
//@ fn src/engine.rs#Effect::reflect@Reflect
//@@ impl Reflect<reflect::Effect> for Effect
//@@ implspec open spec fn pre(&self) -> bool { true } open spec fn shows(&self, r: reflect::Effect) -> bool { shown_eff(*self, r) }
//@@ sig fn reflect(&self) -> (r: reflect::Effect)
//@ fn src/engine.rs#Succ::reflect@Reflect
//@@ impl Reflect<reflect::Succ> for Succ
//@@ implspec open spec fn pre(&self) -> bool { true } open spec fn shows(&self, r: reflect::Succ) -> bool { shown_succ(*self, r) }
//@@ sig fn reflect(&self) -> (r: reflect::Succ)
//@ fn Vec<Succ>::reflect@Reflect
//@@ impl Reflect<Vec<reflect::Succ>> for Vec<Succ>
//@@ implspec open spec fn pre(&self) -> bool { true } open spec fn shows(&self, r: Vec<reflect::Succ>) -> bool { shown_succs(self@, r@) }
//@@ sig fn reflect(&self) -> (r: Vec<reflect::Succ>)
//@@ loop 0
    invariant vp_s0 == self, vp_i0 <= self@.len(), vp_out0@.len() == vp_i0, forall|i: int| 0 <= i < vp_i0 ==> shown_succ(#[trigger] self@[i], vp_out0@[i]),
//@ fn Vec<(Succ,Option<Rc<Box<dynDCGDep>>>)>::reflect@Reflect
//@@ impl Reflect<Vec<reflect::Succ>> for Vec<(Succ, Option<Rc<Dep>>)>
//@@ implspec open spec fn pre(&self) -> bool { true } open spec fn shows(&self, r: Vec<reflect::Succ>) -> bool { self@.len() == r@.len() && forall|i: int| 0 <= i < self@.len() ==> shown_succ((#[trigger] self@[i]).0, r@[i]) }
//@@ sig fn reflect(&self) -> (r: Vec<reflect::Succ>)
//@@ loop 0
    invariant vp_s0 == self, vp_i0 <= self@.len(), vp_out0@.len() == vp_i0, forall|i: int| 0 <= i < vp_i0 ==> shown_succ((#[trigger] self@[i]).0, vp_out0@[i]),
//@ fn Vec<Pred>::reflect@Reflect
//@@ impl Reflect<Vec<reflect::Pred>> for Vec<Pred>
//@@ implspec open spec fn pre(&self) -> bool { true } open spec fn shows(&self, r: Vec<reflect::Pred>) -> bool { shown_preds(self@, r@) }
//@@ sig fn reflect(&self) -> (r: Vec<reflect::Pred>)
//@@ loop 0
    invariant vp_s0 == self, vp_i0 <= self@.len(), vp_out0@.len() == vp_i0, forall|i: int| 0 <= i < vp_i0 ==> shown_pred(#[trigger] self@[i], vp_out0@[i]),
//@ fn Vec<Rc<Loc>>::reflect@Reflect
//@@ impl Reflect<Vec<reflect::Loc>> for Vec<Rc<Loc>>
//@@ implspec open spec fn pre(&self) -> bool { true } open spec fn shows(&self, r: Vec<reflect::Loc>) -> bool { self@.len() == r@.len() && forall|i: int| 0 <= i < self@.len() ==> loc_v(*#[trigger] self@[i]) == rloc_v(r@[i]) }
//@@ sig fn reflect(&self) -> (r: Vec<reflect::Loc>)
//@@ loop 0
    invariant vp_s0 == self, vp_i0 <= self@.len(), vp_out0@.len() == vp_i0, forall|i: int| 0 <= i < vp_i0 ==> loc_v(*#[trigger] self@[i]) == rloc_v(vp_out0@[i]),
//@ fn Frame::reflect@Reflect
//@@ impl Reflect<reflect::Frame> for Frame
//@@ implspec open spec fn pre(&self) -> bool { true } open spec fn shows(&self, r: reflect::Frame) -> bool { shown_frame(*self, r) }
//@@ sig fn reflect(&self) -> (r: reflect::Frame)
//@ fn Node::reflect@Reflect
//@@ impl Reflect<reflect::Node> for Node
//@@ implspec open spec fn pre(&self) -> bool { true } open spec fn shows(&self, r: reflect::Node) -> bool { shown_node(*self, r) }
//@@ sig fn reflect(&self) -> (r: reflect::Node)
//@ fn DCG::reflect@Reflect
//@@ impl Reflect<reflect::DCG> for DCG
//@@ implspec open spec fn pre(&self) -> bool { wf_table(self.table@) } open spec fn shows(&self, r: reflect::DCG) -> bool { shown_dcg(*self, r) }
//@@ sig fn reflect(&self) -> (r: reflect::DCG)
//@@ loop 0
    invariant vp_i0 <= vp_s0@.len(), wf_table(self.table@),
        forall|i: int| 0 <= i < vp_s0@.len() ==> self.table@.dom().contains(**(#[trigger] vp_s0@[i]).0) && self.table@[**vp_s0@[i].0] == *vp_s0@[i].1,
        forall|k: Loc| #[trigger] self.table@.dom().contains(k) ==> exists|i: int| 0 <= i < vp_s0@.len() && **(#[trigger] vp_s0@[i]).0 == k,
        forall|i: int, j: int| 0 <= i < j < vp_s0@.len() ==> **(#[trigger] vp_s0@[i]).0 != **(#[trigger] vp_s0@[j]).0,
        forall|i: int| 0 <= i < vp_i0 ==> table@.dom().contains(loc_v(**(#[trigger] vp_s0@[i]).0)) && shown_node(*vp_s0@[i].1, table@[loc_v(**vp_s0@[i].0)]),
        forall|k: LocV| #[trigger] table@.dom().contains(k) ==> exists|i: int| 0 <= i < vp_i0 && loc_v(**(#[trigger] vp_s0@[i]).0) == k,
//@@ loopend 0
    proof {
        let j = vp_i0 - 1;
        assert forall|i: int| 0 <= i < j implies loc_v(**(#[trigger] vp_s0@[i]).0) != loc_v(**vp_s0@[j].0) by {
            if loc_v(**vp_s0@[i].0) == loc_v(**vp_s0@[j].0) { loc_v_inj(&**vp_s0@[i].0, &**vp_s0@[j].0); }
        }
    }
//@@ loop 1
    invariant vp_s1 == &self.stack, vp_i1 <= self.stack@.len(), vp_out1@.len() == vp_i1, forall|i: int| 0 <= i < vp_i1 ==> shown_frame(#[trigger] self.stack@[i], vp_out1@[i]),
//@ fn dcg_reflect_now
//@@ sig pub fn dcg_reflect_now(g: &mut Globals) -> (r: Option<reflect::DCG>)
    requires old(g).engine is DCG ==> wf_table(old(g).engine->DCG_0.table@),
    ensures *final(g) == *old(g), // [R01] taking a reflection changes nothing
        match old(g).engine { Engine::DCG(d) => r is Some && shown_dcg(d, r->0), Engine::Naive => r is None }, // [R01] and shows the engine as it is
//@ end
fn main() {}
}
