//@ source src/engine.rs
//@ source src/macros.rs
//@ erase NaiveThunk Force Node CompNode PureNode MutNode App Art EnumArt AbsArt ForceDep ForceMapDep ForceAbsDep AllocCell AllocNominalThunk PhantomData Producer AbsMapFam DCGDep
//@ deps ForceDep ForceMapDep ForceAbsDep AllocCell AllocNominalThunk AllocStructuralThunk
//@ dropmacro dcg_effect_begin dcg_effect_end dcg_effect
//@ dropcall wf::check_dcg assert_graphnode_res_type wf::check_stack_is_clean
//@ opt std unboxnew unboxmatch:Node unboxfield:producer ghostfield:DCG:gh:~Ghost<Gh> ghostfield:ForceAbsDep:obs:~Ghost<Val> concrete:Loc refiter:succs refmutpat:Engine::DCG ghostlit:DCG:gh:Ghost(Gh{d:ISet::empty(),a:ISet::empty(),b:ISet::empty()}) ghostlit:ForceAbsDep:obs:Ghost(vp_obs)
//@ tymap Box<dynProducer> =>> App
//@ tymap Box<dynProducer<Val>> =>> App
//@ tymap Box<App> =>> App
//@ tymap Box<dynDCGDep> =>> Dep
//@ tymap Rc<Dep> =>> Rc<Dep>
//@ tymap Box<dynGraphNode> =>> Node
//@ tymap Box<Node> =>> Node
//@ tymap &VpCell =>> &mut DCG
//@ tymap Rc<Box<dynFn(Val,Val)->Val>> =>> FnBox
//@ tymap Rc<dynForce<Val>> =>> Rc<NaiveThunk>
//@ tymap Rc<dynForce> =>> Rc<NaiveThunk>
//@ tymap RefCell<DCG> =>> VpCell
//@ tlvar GLOBALS g
//@ tymap Box<dynAbsMapFam<Val,Val,Val,Val,Val>> =>> AbsFam
//@ tymap Box<dynAbsMapFam> =>> AbsFam
//@ keep replace my_hash
use vstd::prelude::*;
use std::rc::Rc;
use std::mem;
verus! {
//@ include std.inc
//@ end
#[verifier::external_body]
pub fn vp_panic<T>() -> (r: T) requires false ensures false { unimplemented!() }
pub fn vp_assert(b: bool) requires b ensures b { }
//@ include engine_types.inc
//@ include engine_spec.inc
//@ include engine_inv.inc
//@ include engine_guar.inc
//@ include engine_step.inc
//@ include engine_content.inc
//@ include engine_clean.inc
//@ include engine_fns.inc
//@ include engine_api.inc
//@ include engine_iface.inc
//@ end
fn main() {}
}
