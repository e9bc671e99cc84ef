//@ source src/reflect.rs
//@ source src/engine.rs
//@ source src/macros.rs
//@ erase NaiveThunk Force Node CompNode PureNode MutNode App Art EnumArt AbsArt ForceDep ForceMapDep ForceAbsDep AllocCell AllocNominalThunk PhantomData Producer AbsMapFam DCGDep
//@ deps ForceDep ForceMapDep ForceAbsDep AllocCell AllocNominalThunk AllocStructuralThunk
//@ dropcall wf::check_dcg assert_graphnode_res_type wf::check_stack_is_clean
//@ opt std unboxnew unboxmatch:Node unboxfield:producer concrete:Loc refiter:succs
//@ tymap Box<dynProducer> =>> App
//@ tymap Box<dynProducer<Val>> =>> App
//@ tymap Box<App> =>> App
//@ tymap Box<dynDCGDep> =>> Dep
//@ tymap Rc<Dep> =>> Rc<Dep>
//@ tymap Box<dynGraphNode> =>> Node
//@ tymap Box<Node> =>> Node
//@ tymap &VpCell =>> &mut DCG
//@ tymap Rc<Box<dynFn(Val,Val)->Val>> =>> FnBox
//@ tymap Rc<dynForce<Val>> =>> Rc<NaiveThunk>
//@ tymap Rc<dynForce> =>> Rc<NaiveThunk>
//@ tymap RefCell<DCG> =>> VpCell
//@ tymap Box<dynAbsMapFam<Val,Val,Val,Val,Val>> =>> AbsFam
//@ tymap Box<dynAbsMapFam> =>> AbsFam
//@ tymap Box<Vec<Trace>> =>> Vec<Trace>
//@ tymap Box<Vec<trace::Trace>> =>> Vec<reflect::trace::Trace>
//@ tymap Box<Vec<reflect::trace::Trace>> =>> Vec<reflect::trace::Trace>
//@ tlvar TRACES tr
//@ tparam tr: &mut Option<TraceSt> | dcg_reflect_begin dcg_reflect_end debug_begin debug_end debug_effect revoke_succs dirty_pred_observers dirty_alloc set_ loc_produce clean_comp clean produce structural ns cell thunk set force force_map force_abs
//@ expandmacro current_loc
//@ keep replace my_hash
use vstd::prelude::*;
use std::rc::Rc;
use std::mem;
verus! {
//@ include std.inc
//@ end
/// a panic ends the program
#[verifier::external_body]
pub fn vp_panic<T>() -> (r: T) ensures false { unimplemented!() }
#[verifier::external_body]
pub fn vp_assert(b: bool) ensures b { unimplemented!() }
/// panics of the recording itself
#[verifier::external_body]
pub fn vp_never<T>() -> (r: T) requires false ensures false { unimplemented!() }
pub fn vp_surely(b: bool) requires b ensures b { }
#[verifier::external_body]
pub fn vp_vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { unimplemented!() }
//@ include engine_types.inc
//@ struct TraceSt
//@ end
pub mod engine { pub use super::Name; }
pub mod reflect {
use super::*;
//@ type src/reflect.rs#Path
//@ enum src/reflect.rs#Val
//@ enum src/reflect.rs#Const
//@ enum src/reflect.rs#ArtContent
//@ struct src/reflect.rs#Loc
//@ enum src/reflect.rs#Effect
//@ struct src/reflect.rs#Succ
//@ end
pub mod trace {
use super::*;
//@ enum src/reflect.rs#trace::AllocCase
//@ enum src/reflect.rs#trace::ChangeFlag
//@ enum src/reflect.rs#trace::AllocKind
//@ enum src/reflect.rs#trace::ForceCase
//@ enum src/reflect.rs#trace::Effect
//@ struct src/reflect.rs#trace::Edge
//@ struct src/reflect.rs#trace::Trace
//@ enum src/reflect.rs#trace::EffectEdge
//@ end
}
}
pub use reflect::trace;
//@ include trace_spec.inc
//@ include trace_fns.inc
//@ end
fn main() {}
}
