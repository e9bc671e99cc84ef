//@ props R01
//@ mfn dcg_effect_begin 4
//@@ params eff, loc, succ, ext
//@@ sure
//@@ sig pub fn dcg_effect_begin_4(eff: TE, loc: Option<RLoc>, succ: reflect::Succ, ext: bool, tr: &mut Option<TraceSt>)
    requires rec_ok(tv(*old(tr))),
    ensures begun(tv(*old(tr)), tv(*final(tr)), eff, fwd(loc, succ), ext),
//@@ tail
    proof { if *old(tr) is Some { let (a, b) = (tv(*old(tr))->0, tv(*tr)->0); let c = if ext { b.drop_last() } else { b }; assert(c.drop_last() =~= a.drop_last()); assert(c.last().drop_last() =~= a.last()); } }
//@ mfn dcg_effect_begin 2
//@@ params eff, ext
//@@ sure
//@@ sig pub fn dcg_effect_begin_2(eff: TE, ext: bool, tr: &mut Option<TraceSt>)
    requires rec_ok(tv(*old(tr))),
    ensures begun(tv(*old(tr)), tv(*final(tr)), eff, reflect::trace::EffectEdge::None, ext),
//@@ tail
    proof { if *old(tr) is Some { let (a, b) = (tv(*old(tr))->0, tv(*tr)->0); let c = if ext { b.drop_last() } else { b }; assert(c.drop_last() =~= a.drop_last()); assert(c.last().drop_last() =~= a.last()); } }
//@ mfn dcg_effect_end 0
//@@ sure
//@@ sig pub fn dcg_effect_end_0(tr: &mut Option<TraceSt>)
    requires closable(tv(*old(tr))),
    ensures ended(tv(*old(tr)), tv(*final(tr))),
//@@ tail
    proof { if *old(tr) is Some { let (a, b) = (tv(*old(tr))->0, tv(*tr)->0); assert(b.drop_last() =~= a.drop_last().drop_last()); assert(b.last().drop_last() =~= a.drop_last().last().drop_last()); } }
//@ fn debug_begin
//@@ params n, msg
    requires rec_ok(tv(*old(tr))),
    ensures begun(tv(*old(tr)), tv(*final(tr)), TE::Debug(n, msg), reflect::trace::EffectEdge::None, true),
//@ fn debug_end
    requires closable(tv(*old(tr))),
    ensures ended(tv(*old(tr)), tv(*final(tr))),
//@ fn debug_effect
//@@ params n, msg
    requires rec_ok(tv(*old(tr))),
    ensures begun(tv(*old(tr)), tv(*final(tr)), TE::Debug(n, msg), reflect::trace::EffectEdge::None, false),
//@ fn lookup_abs
//@@ params st, loc
    ensures *final(st) == (DCG { table: final(st).table, ..*old(st) }), old(st).table@.dom().contains(*loc),
        *r == old(st).table@[*loc], final(st).table@ == old(st).table@.insert(*loc, *final(r)),
//@ fn get_top_stack_loc
//@@ params st
    ensures true,
//@ fn res_node_of_loc
//@@ params st, loc
    ensures *final(st) == (DCG { table: final(st).table, ..*old(st) }), old(st).table@.dom().contains(*loc),
        *r == old(st).table@[*loc], final(st).table@ == old(st).table@.insert(*loc, *final(r)),
//@ fn Node::preds_alloc@GraphNode
    ensures true,
//@@ loop 0
    invariant true,
//@@ loop 1
    invariant true,
//@ fn Node::preds_obs@GraphNode
    ensures true,
//@@ loop 0
    invariant true,
//@@ loop 1
    invariant true,
//@ fn Node::preds_insert@GraphNode
//@@ params self, eff, loc, dep
    ensures true,
//@ fn Node::preds_remove@GraphNode
//@@ params self, loc
    ensures true,
//@@ loop 0
    invariant true,
//@@ loop 1
    invariant true,
//@ fn Node::succs_def@GraphNode
    ensures true,
//@ fn Node::succs_mut@GraphNode
    ensures (*old(self)) is Comp, *r == (*old(self))->Comp_0.succs, *final(self) == Node::Comp(CompNode { succs: *final(r), ..(*old(self))->Comp_0 }),
//@ fn Node::succs@GraphNode
    ensures true,
//@ fn loc_of_id
//@@ params path, id
    ensures true,
//@ fn current_path
    ensures true,
//@ fn get_succ
//@@ params st, src_loc, eff, tgt_loc
    ensures true,
//@@ loop 0
    invariant true,
//@ fn get_succ_mut
//@@ params st, src_loc, eff, tgt_loc
    ensures r.effect == eff, *r.loc == **tgt_loc, final(st).stack == old(st).stack, *final(r) == *r ==> unmoved(old(st).table@, final(st).table@),
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    proof { same_update(); }
//@@ loop 0
    invariant vp_s0@ == old(st).table@[*src_loc]->Comp_0.succs@,
//@ fn check_force_map_dep
//@@ params st, dep, loc
    ensures final(st).stack == old(st).stack, final(st).table@ =~= old(st).table@,
//@ fn ForceDep::dirty@DCGDep
//@@ params self, g, loc
    ensures final(g).stack == old(g).stack, final(g).table@ =~= old(g).table@,
//@ fn ForceMapDep::dirty@DCGDep
//@@ params self, g, loc
    ensures final(g).stack == old(g).stack, final(g).table@ =~= old(g).table@,
//@ fn ForceAbsDep::dirty@DCGDep
//@@ params self, g, loc
    ensures final(g).stack == old(g).stack, final(g).table@ =~= old(g).table@,
//@ fn AllocCell::dirty@DCGDep
//@@ params self, g, loc
    ensures final(g).stack == old(g).stack, final(g).table@ =~= old(g).table@,
//@ fn AllocNominalThunk::dirty@DCGDep
//@@ params self, g, loc
    ensures final(g).stack == old(g).stack, final(g).table@ =~= old(g).table@,
//@ fn AllocStructuralThunk::dirty@DCGDep
//@@ params self, g, loc
    ensures final(g).stack == old(g).stack, final(g).table@ =~= old(g).table@,
//@ end
impl Dep {
    /// dispatch of the trait object
    pub fn dirty(&self, g: &mut DCG, loc: &Rc<Loc>) -> (r: DCGRes)
        ensures final(g).stack == old(g).stack, final(g).table@ =~= old(g).table@,
    {
        match self {
            Dep::ForceDep(d) => d.dirty(g, loc),
            Dep::ForceMapDep(d) => d.dirty(g, loc),
            Dep::ForceAbsDep(d) => d.dirty(g, loc),
            Dep::AllocCell(d) => d.dirty(g, loc),
            Dep::AllocNominalThunk(d) => d.dirty(g, loc),
            Dep::AllocStructuralThunk(d) => d.dirty(g, loc),
        }
    }
}
impl Fun {
    /// mapping functions record nothing
    #[verifier::external_body]
    pub fn call(&self, a: &Art, x: Val) -> (r: Val) { unimplemented!() }
}
//@ fn dirty_pred_observers
//@@ params st, loc
    requires rec_ok(tv(*old(tr))),
    ensures final(st).stack == old(st).stack, grown(tv(*old(tr)), tv(*final(tr))), all_dirt(added(tv(*old(tr)), tv(*final(tr))), rl(**loc), false), all_ok(added(tv(*old(tr)), tv(*final(tr)))),
        // what is not recorded does not happen
        *old(tr) is Some && added(tv(*old(tr)), tv(*final(tr))).len() == 0 ==> unmoved(old(st).table@, final(st).table@),
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    let ghost t0 = tv(*tr); let ghost s0 = st.stack; let ghost m0 = st.table@;
    proof { grown_refl(t0); }
//@@ loop 0
    invariant st.stack == s0, rec_ok(tv(*tr)), grown(t0, tv(*tr)), all_dirt(added(t0, tv(*tr)), rl(**loc), false), all_ok(added(t0, tv(*tr))), t0 is Some == tv(*tr) is Some, t0 is Some && added(t0, tv(*tr)).len() == 0 ==> unmoved(m0, st.table@),
//@@ loopstart 0
    let ghost ta = tv(*tr); let ghost mut tb = ta; let ghost mut tc = ta; let ghost mut ed: reflect::Succ = arbitrary();
//@@ before dcg_effect_begin_4 0
    proof { ed = rs(*succ); }
//@@ after dcg_effect_begin_4 0
    proof { tb = tv(*tr); }
//@@ after dirty_pred_observers 0
    proof { tc = tv(*tr); can_close(ta, tb, tc, TE::Dirty, fwd(Some(rlr(pred_loc)), ed)); }
//@@ after dcg_effect_end_0 0
    proof { effect_done(ta, tb, tc, tv(*tr), TE::Dirty, Some(rlr(pred_loc)), ed); one_more(t0, ta, tv(*tr), TE::Dirty, Some(rlr(pred_loc)), ed); }
//@ fn dirty_alloc
//@@ params st, loc
    requires rec_ok(tv(*old(tr))),
    ensures final(st).stack == old(st).stack, grown(tv(*old(tr)), tv(*final(tr))), all_dirt(added(tv(*old(tr)), tv(*final(tr))), rl(**loc), true), all_ok(added(tv(*old(tr)), tv(*final(tr)))),
        // what is not recorded does not happen
        *old(tr) is Some && added(tv(*old(tr)), tv(*final(tr))).len() == 0 ==> unmoved(old(st).table@, final(st).table@),
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    let ghost t0 = tv(*tr); let ghost s0 = st.stack; let ghost m0 = st.table@;
//@@ loop 0
    invariant st.stack == s0, rec_ok(tv(*tr)), grown(t0, tv(*tr)), all_dirt(added(t0, tv(*tr)), rl(**loc), true), all_ok(added(t0, tv(*tr))), t0 is Some == tv(*tr) is Some, t0 is Some && added(t0, tv(*tr)).len() == 0 ==> unmoved(m0, st.table@),
//@@ loopstart 0
    let ghost ta = tv(*tr); let ghost mut tb = ta; let ghost mut tc = ta; let ghost mut ed: reflect::Succ = arbitrary();
//@@ before dcg_effect_begin_4 0
    proof { ed = rs(*succ); }
//@@ after dcg_effect_begin_4 0
    proof { tb = tv(*tr); }
//@@ after dirty_pred_observers 1
    proof { tc = tv(*tr); can_close(ta, tb, tc, TE::Dirty, fwd(Some(rlr(pred_loc)), ed)); }
//@@ after dcg_effect_end_0 0
    proof { effect_done(ta, tb, tc, tv(*tr), TE::Dirty, Some(rlr(pred_loc)), ed); one_more(t0, ta, tv(*tr), TE::Dirty, Some(rlr(pred_loc)), ed); }
//@ fn check_cell_change
//@@ params st, cell, val
    requires cell is Loc,
    ensures final(st).stack == old(st).stack, final(st).table@ =~= old(st).table@, old(st).table@.dom().contains(cell->Loc_0),
        r == (match old(st).table@[cell->Loc_0] { Node::Mut(n) => n.val != *val, Node::Pure(n) => n.val != *val, Node::Comp(_) => true }),
//@ fn set_
//@@ params st, cell, val
    requires cell is Loc, rec_ok(tv(*old(tr))),
    ensures final(st).stack == old(st).stack, grown(tv(*old(tr)), tv(*final(tr))), all_ok(added(tv(*old(tr)), tv(*final(tr)))), all_dirt(added(tv(*old(tr)), tv(*final(tr))), rlr(cell->Loc_0), true), old(st).table@.dom().contains(cell->Loc_0), old(st).table@[cell->Loc_0] is Mut,
        old(st).table@[cell->Loc_0]->Mut_0.val == val ==> added(tv(*old(tr)), tv(*final(tr))).len() == 0,
//@@ entry
    proof { grown_refl(tv(*tr)); }
//@ fn revoke_succs
//@@ params st, src, succs
    requires rec_ok(tv(*old(tr))),
    ensures final(st).stack == old(st).stack, grown(tv(*old(tr)), tv(*final(tr))), all_ok(added(tv(*old(tr)), tv(*final(tr)))), all_remv(added(tv(*old(tr)), tv(*final(tr))), rlr(*src)),
        *old(tr) is Some ==> added(tv(*old(tr)), tv(*final(tr))).len() == succs@.len() && forall|i: int| 0 <= i < succs@.len() ==> on(#[trigger] added(tv(*old(tr)), tv(*final(tr)))[i]) == rs(succs@[i]),
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    let ghost t0 = tv(*tr); let ghost s0 = st.stack;
    proof { grown_refl(t0); }
//@@ loop 0
    invariant 0 <= vp_i0 <= vp_s0@.len(), vp_s0@ == succs@, st.stack == s0, rec_ok(tv(*tr)), t0 is Some == tv(*tr) is Some, grown(t0, tv(*tr)), all_remv(added(t0, tv(*tr)), rlr(*src)), all_ok(added(t0, tv(*tr))),
        t0 is Some ==> added(t0, tv(*tr)).len() == vp_i0 && forall|i: int| 0 <= i < vp_i0 ==> on(#[trigger] added(t0, tv(*tr))[i]) == rs(succs@[i]),
//@@ loopstart 0
    let ghost ta = tv(*tr);
//@@ after dcg_effect_begin_4 0
    proof { leaf_done(ta, tv(*tr), TE::Remove, Some(rlr(*src)), rs(*succ)); one_more(t0, ta, tv(*tr), TE::Remove, Some(rlr(*src)), rs(*succ)); }
//@ end
impl FnBox {
    /// user code: it uses the engine only through its interface, and ends what it begins
    #[verifier::external_body]
    pub fn call(&self, arg: Val, spurious: Val, g: &mut DCG, tr: &mut Option<TraceSt>) -> (r: Val)
        requires rec_ok(tv(*old(tr))),
        ensures same_frames(old(g).stack@, final(g).stack@), went(*old(g), tv(*old(tr)), tv(*final(tr))),
    { unimplemented!() }
}
#[verifier::external_body] pub struct Body { v: u64 }
impl Body {
    #[verifier::external_body]
    pub fn call(self, g: &mut DCG, tr: &mut Option<TraceSt>) -> (r: Val)
        requires rec_ok(tv(*old(tr))),
        ensures same_frames(old(g).stack@, final(g).stack@), went(*old(g), tv(*old(tr)), tv(*final(tr))),
    { unimplemented!() }
}
//@ fn App::copy@Producer
    ensures r == *self,
//@ fn App::prog_pt@Producer
    ensures *r == self.prog_pt,
//@ fn App::produce@Producer
//@@ sig pub fn produce(&self, g: &mut DCG, tr: &mut Option<TraceSt>) -> (r: Val)
//@@ callghost call g, tr
    requires rec_ok(tv(*old(tr))),
    ensures same_frames(old(g).stack@, final(g).stack@), went(*old(g), tv(*old(tr)), tv(*final(tr))),
//@ fn App::consume@Consumer
//@@ params self, arg
    ensures *final(self) == (App { arg: arg, ..*old(self) }),
//@ fn App::get_arg@Consumer
//@@ params self
    ensures r == old(self).arg, *final(self) == *old(self),
//@ fn loc_produce
//@@ callghost produce g, tr
//@@ params g, loc
    requires rec_ok(tv(*old(tr))),
    ensures final(g).stack@ == old(g).stack@, grown(tv(*old(tr)), tv(*final(tr))), all_ok(added(tv(*old(tr)), tv(*final(tr)))), all_run(added(tv(*old(tr)), tv(*final(tr))), rlr(*loc)), final(g).table@.dom().contains(*loc), final(g).table@[*loc] is Comp,
        // the dependencies of the previous run are removed first
        *old(tr) is Some ==> ({ let a = added(tv(*old(tr)), tv(*final(tr))); let s = old(g).table@[*loc]->Comp_0.succs@; a.len() >= s.len() && forall|i: int| 0 <= i < s.len() ==> remv(#[trigger] a[i], rlr(*loc)) && on(a[i]) == rs(s[i]) }),
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    let ghost t0 = tv(*tr); let ghost s0 = g.stack@; let ghost mut ta = t0; let ghost mut sa = s0;
//@@ before produce 0
    proof { ta = tv(*tr); sa = g.stack@; assert(sa.drop_last() =~= s0); }
//@@ after produce 0
    proof { grown_trans(t0, ta, tv(*tr)); }
//@@ loop 0
    invariant st.stack@ == s0,
//@@ loop 1
    invariant true,
//@ fn clean_comp
//@@ params g, this_dep, loc, cache, succs
    requires rec_ok(tv(*old(tr))),
    ensures final(g).stack@ == old(g).stack@, grown(tv(*old(tr)), tv(*final(tr))), all_ok(added(tv(*old(tr)), tv(*final(tr)))), all_rec(added(tv(*old(tr)), tv(*final(tr))), rlr(*loc)),
        *old(tr) is Some && added(tv(*old(tr)), tv(*final(tr))).len() == 0 ==> unmoved(old(g).table@, final(g).table@),
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    let ghost t0 = tv(*tr); let ghost s0 = g.stack@; let ghost m0 = g.table@; let ghost l = Some(rlr(*loc));
    proof { grown_refl(t0); }
//@@ loop 0
    invariant g.stack@ == s0, rec_ok(tv(*tr)), grown(t0, tv(*tr)), all_ok(added(t0, tv(*tr))), all_rec(added(t0, tv(*tr)), rlr(*loc)), t0 is Some == tv(*tr) is Some, t0 is Some && added(t0, tv(*tr)).len() == 0 ==> unmoved(m0, g.table@),
//@@ loopstart 0
    let ghost t1 = tv(*tr); let ghost mut t2 = t1; let ghost mut t3 = t1; let ghost mut t4 = t1; let ghost mut t5 = t1; let ghost mut t6 = t1; let ghost e = rs(succs@[vp_i0 as int]);
//@@ after dcg_effect_begin_4 0
    proof { t2 = tv(*tr); }
//@@ after clean 0
    proof { t3 = tv(*tr); can_close(t1, t2, t3, TE::CleanRec, fwd(l, e)); }
//@@ after dcg_effect_begin_4 1
    proof { t4 = tv(*tr); }
//@@ after loc_produce 0
    proof { t5 = tv(*tr); can_close(t3, t4, t5, TE::CleanEval, fwd(l, e)); }
//@@ after dcg_effect_end_0 0
    proof { t6 = tv(*tr); effect_done(t3, t4, t5, t6, TE::CleanEval, l, e); one_more(t2, t3, t6, TE::CleanEval, l, e); can_close(t1, t2, t6, TE::CleanRec, fwd(l, e)); assert(t1 is Some ==> added(t2, t6).drop_last() =~= added(t2, t3)); }
//@@ after dcg_effect_end_0 1
    proof { effect_done(t1, t2, t6, tv(*tr), TE::CleanRec, l, e); one_more(t0, t1, tv(*tr), TE::CleanRec, l, e); }
//@@ after dcg_effect_begin_4 2
    proof { t6 = tv(*tr); leaf_done(t3, t6, TE::CleanEdge, l, e); one_more(t2, t3, t6, TE::CleanEdge, l, e); can_close(t1, t2, t6, TE::CleanRec, fwd(l, e)); assert(t1 is Some ==> added(t2, t6).drop_last() =~= added(t2, t3)); }
//@@ after dcg_effect_end_0 2
    proof { effect_done(t1, t2, t6, tv(*tr), TE::CleanRec, l, e); one_more(t0, t1, tv(*tr), TE::CleanRec, l, e); }
//@@ loop 1
    invariant true,
//@ fn ForceDep::clean@DCGDep
//@@ params self, g, loc
    requires rec_ok(tv(*old(tr))),
    ensures final(g).stack@ == old(g).stack@, grown(tv(*old(tr)), tv(*final(tr))), all_ok(added(tv(*old(tr)), tv(*final(tr)))), all_check(added(tv(*old(tr)), tv(*final(tr))), rlr(*loc)),
        *old(tr) is Some && added(tv(*old(tr)), tv(*final(tr))).len() == 0 ==> unmoved(old(g).table@, final(g).table@),
        (match old(g).table@[*loc] { Node::Comp(n) => n.res is Some, _ => false }) ==> all_rec(added(tv(*old(tr)), tv(*final(tr))), rlr(*loc)),
//@@ entry
    proof { grown_refl(tv(*tr)); }
    let ghost t0 = tv(*tr); let ghost mut t1 = t0; let ghost mut t2 = t0; let ghost t = reflect::Succ { loc: rlr(*loc), effect: reflect::Effect::Force, value: reflect::Val::ValTODO, dirty: true, is_dup: false };
//@@ after dcg_effect_begin_4 0
    proof { t1 = tv(*tr); }
//@@ after loc_produce 0
    proof { t2 = tv(*tr); can_close(t0, t1, t2, TE::CleanEval, fwd(None, t)); }
//@@ after dcg_effect_end_0 0
    proof { effect_done(t0, t1, t2, tv(*tr), TE::CleanEval, None, t); }
//@ fn ForceMapDep::clean@DCGDep
//@@ params self, g, loc
    requires rec_ok(tv(*old(tr))),
    ensures final(g).stack@ == old(g).stack@, grown(tv(*old(tr)), tv(*final(tr))), all_ok(added(tv(*old(tr)), tv(*final(tr)))), all_check(added(tv(*old(tr)), tv(*final(tr))), rlr(*loc)),
        *old(tr) is Some && added(tv(*old(tr)), tv(*final(tr))).len() == 0 ==> unmoved(old(g).table@, final(g).table@),
//@@ entry
    proof { grown_refl(tv(*tr)); }
//@ fn ForceAbsDep::clean@DCGDep
//@@ params self, g, loc
    requires rec_ok(tv(*old(tr))),
    ensures final(g).stack@ == old(g).stack@, grown(tv(*old(tr)), tv(*final(tr))), all_ok(added(tv(*old(tr)), tv(*final(tr)))), all_check(added(tv(*old(tr)), tv(*final(tr))), rlr(*loc)),
        *old(tr) is Some && added(tv(*old(tr)), tv(*final(tr))).len() == 0 ==> unmoved(old(g).table@, final(g).table@),
//@@ entry
    proof { grown_refl(tv(*tr)); }
//@ fn AllocCell::clean@DCGDep
//@@ params self, g, loc
    requires rec_ok(tv(*old(tr))),
    ensures final(g).stack@ == old(g).stack@, grown(tv(*old(tr)), tv(*final(tr))), all_ok(added(tv(*old(tr)), tv(*final(tr)))), all_check(added(tv(*old(tr)), tv(*final(tr))), rlr(*loc)),
        *old(tr) is Some && added(tv(*old(tr)), tv(*final(tr))).len() == 0 ==> unmoved(old(g).table@, final(g).table@),
//@@ entry
    proof { grown_refl(tv(*tr)); }
//@ fn AllocNominalThunk::clean@DCGDep
//@@ params self, g, loc
    requires rec_ok(tv(*old(tr))),
    ensures final(g).stack@ == old(g).stack@, grown(tv(*old(tr)), tv(*final(tr))), all_ok(added(tv(*old(tr)), tv(*final(tr)))), all_check(added(tv(*old(tr)), tv(*final(tr))), rlr(*loc)),
        *old(tr) is Some && added(tv(*old(tr)), tv(*final(tr))).len() == 0 ==> unmoved(old(g).table@, final(g).table@),
//@@ entry
    proof { grown_refl(tv(*tr)); }
//@ fn AllocStructuralThunk::clean@DCGDep
//@@ params self, g, loc
    requires rec_ok(tv(*old(tr))),
    ensures final(g).stack@ == old(g).stack@, grown(tv(*old(tr)), tv(*final(tr))), all_ok(added(tv(*old(tr)), tv(*final(tr)))), all_check(added(tv(*old(tr)), tv(*final(tr))), rlr(*loc)),
        *old(tr) is Some && added(tv(*old(tr)), tv(*final(tr))).len() == 0 ==> unmoved(old(g).table@, final(g).table@),
//@@ entry
    proof { grown_refl(tv(*tr)); }
//@ end
impl Dep {
    /// dispatch of the trait object
    #[verifier::exec_allows_no_decreases_clause]
    pub fn clean(&self, g: &mut DCG, loc: &Rc<Loc>, tr: &mut Option<TraceSt>) -> (r: DCGRes)
        requires rec_ok(tv(*old(tr))),
        ensures final(g).stack@ == old(g).stack@, grown(tv(*old(tr)), tv(*final(tr))), all_ok(added(tv(*old(tr)), tv(*final(tr)))), all_check(added(tv(*old(tr)), tv(*final(tr))), rlr(*loc)),
        *old(tr) is Some && added(tv(*old(tr)), tv(*final(tr))).len() == 0 ==> unmoved(old(g).table@, final(g).table@),
    {
        match self {
            Dep::ForceDep(d) => d.clean(g, loc, tr),
            Dep::ForceMapDep(d) => d.clean(g, loc, tr),
            Dep::ForceAbsDep(d) => d.clean(g, loc, tr),
            Dep::AllocCell(d) => d.clean(g, loc, tr),
            Dep::AllocNominalThunk(d) => d.clean(g, loc, tr),
            Dep::AllocStructuralThunk(d) => d.clean(g, loc, tr),
        }
    }
}
//@ end
impl ProgPt {
    #[verifier::external_body]
    pub fn eq(&self, o: &ProgPt) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
}
impl App {
    #[verifier::external_body]
    pub fn app_typeid(&self) -> (r: TypeId) { unimplemented!() }
}
impl AbsFam {
    /// mapping families record nothing
    #[verifier::external_body]
    pub fn map(&self, arg: Val, x: Val) -> (r: Val) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(&self, arg: Val) -> (r: Val) { unimplemented!() }
}
//@ fn DCG::put@Adapton
    ensures *final(self) == *old(self),
//@ fn DCG::structural@Adapton
//@@ sig pub fn structural(g: &mut DCG, body: Body, tr: &mut Option<TraceSt>) -> (r: Val)
//@@ callghost call g, tr
    requires rec_ok(tv(*old(tr))),
    ensures same_frames(old(g).stack@, final(g).stack@), went(*old(g), tv(*old(tr)), tv(*final(tr))),
//@ fn DCG::ns@Adapton
//@@ sig pub fn ns(g: &mut DCG, nm: Name, body: Body, tr: &mut Option<TraceSt>) -> (r: Val)
//@@ callghost call g, tr
    requires rec_ok(tv(*old(tr))),
    ensures same_frames(old(g).stack@, final(g).stack@), went(*old(g), tv(*old(tr)), tv(*final(tr))),
//@ fn DCG::set@Adapton
//@@ params self, cell, val
    requires cell is Loc, rec_ok(tv(*old(tr))),
    ensures same_frames(old(self).stack@, final(self).stack@), went(*old(self), tv(*old(tr)), tv(*final(tr))), all_dirt(added(tv(*old(tr)), tv(*final(tr))), rlr(cell->Loc_0), true),
        old(self).table@.dom().contains(cell->Loc_0), old(self).table@[cell->Loc_0] is Mut, old(self).table@[cell->Loc_0]->Mut_0.val == val ==> added(tv(*old(tr)), tv(*final(tr))).len() == 0,
//@ fn DCG::cell@Adapton
//@@ params self, nm, val
    requires rec_ok(tv(*old(tr))),
    ensures same_frames(old(self).stack@, final(self).stack@), r is Loc,
        one(tv(*old(tr)), tv(*final(tr)), TE::Alloc(cell_case(*old(self), r->Loc_0, val), reflect::trace::AllocKind::RefCell), cur(*old(self)), tok(r->Loc_0, reflect::Effect::Alloc, false)),
//@@ entry
    let ghost t0 = tv(*tr); let ghost st0 = *self; let ghost mut ta = t0; let ghost mut tb = t0; let ghost x = val;
    let ghost mut ll: Rc<Loc> = arbitrary();
    proof { grown_refl(t0); }
//@@ before contains_key 0
    proof { ll = loc; }
//@@ after dcg_effect_begin_4 0
    proof { ta = tv(*tr); tb = ta; grown_refl(ta); }
//@@ after set_ 0
    proof { grown_refl(tv(*tr)); grown_trans(ta, tb, tv(*tr)); tb = tv(*tr); }
//@@ after dirty_alloc 0
    proof { grown_refl(tv(*tr)); grown_trans(ta, tb, tv(*tr)); tb = tv(*tr); }
//@@ after revoke_succs 0
    proof { grown_refl(tv(*tr)); grown_trans(ta, tb, tv(*tr)); tb = tv(*tr); }
//@@ before dcg_effect_end_0 0
    proof { can_close(t0, ta, tb, TE::Alloc(cell_case(st0, ll, x), reflect::trace::AllocKind::RefCell), fwd(cur(st0), tok(ll, reflect::Effect::Alloc, false))); }
//@@ after dcg_effect_end_0 0
    proof { effect_done(t0, ta, tb, tv(*tr), TE::Alloc(cell_case(st0, ll, x), reflect::trace::AllocKind::RefCell), cur(st0), tok(ll, reflect::Effect::Alloc, false)); }
//@@ tail
    proof { if st0.stack@.len() > 0 && !is_pure { pushed_frame(st0.stack@, self.stack@); } }
//@ fn DCG::thunk@Adapton
//@@ params self, id, prog_pt, fn_box, arg, spurious
//@@ callghost call self, tr
    requires rec_ok(tv(*old(tr))),
    ensures same_frames(old(self).stack@, final(self).stack@),
        r is Rc ==> went(*old(self), tv(*old(tr)), tv(*final(tr))),
        r is Loc ==> one(tv(*old(tr)), tv(*final(tr)), TE::Alloc(thunk_case(*old(self), r->Loc_0, arg, id is Nominal && !old(self).flags.ignore_nominal_use_structural), reflect::trace::AllocKind::Thunk), cur(*old(self)), tok(r->Loc_0, reflect::Effect::Alloc, false)),
//@@ entry
    let ghost t0 = tv(*tr); let ghost st0 = *self; let ghost mut ta = t0; let ghost mut tb = t0; let ghost x = arg; let ghost mut ll: Rc<Loc> = arbitrary();
    let ghost nom = id is Nominal && !self.flags.ignore_nominal_use_structural;
    proof { grown_refl(t0); }
//@@ before contains_key 0
    proof { ll = loc; }
//@@ after dcg_effect_begin_4 0
    proof { leaf_done(t0, tv(*tr), TE::Alloc(thunk_case(st0, ll, x, nom), reflect::trace::AllocKind::Thunk), cur(st0), tok(ll, reflect::Effect::Alloc, false)); }
//@@ before get_top_stack_loc 0
    proof { ll = loc; }
//@@ after dcg_effect_begin_4 1
    proof { ta = tv(*tr); tb = ta; grown_refl(ta); }
//@@ after dirty_alloc 0
    proof { grown_refl(tv(*tr)); grown_trans(ta, tb, tv(*tr)); tb = tv(*tr); }
//@@ before dcg_effect_end_0 0
    proof { can_close(t0, ta, tb, TE::Alloc(thunk_case(st0, ll, x, nom), reflect::trace::AllocKind::Thunk), fwd(cur(st0), tok(ll, reflect::Effect::Alloc, false))); }
//@@ after dcg_effect_end_0 0
    proof { effect_done(t0, ta, tb, tv(*tr), TE::Alloc(thunk_case(st0, ll, x, nom), reflect::trace::AllocKind::Thunk), cur(st0), tok(ll, reflect::Effect::Alloc, false)); }
//@@ after last_mut 0
    proof { if st0.stack@.len() > 0 { pushed_frame(st0.stack@, self.stack@); } }
//@@ tail
    proof { if st0.stack@.len() > 0 && vp_ret is Loc && nom { pushed_frame(st0.stack@, self.stack@); } }
//@ fn DCG::force@Adapton
//@@ params g, art, cycle_out
//@@ attr #[verifier::allow_complex_invariants]
//@@ attr #[verifier::loop_isolation(false)]
    requires rec_ok(tv(*old(tr))),
    ensures same_frames(old(g).stack@, final(g).stack@),
        art is Rc ==> tv(*final(tr)) == tv(*old(tr)),
        art is Loc ==> old(g).table@.dom().contains(art->Loc_0) && one(tv(*old(tr)), tv(*final(tr)), TE::Force(force_case(*old(g), art->Loc_0)), cur(*old(g)), tok(art->Loc_0, reflect::Effect::Force, dup(*old(g), art->Loc_0))),
//@@ entry
    let ghost t0 = tv(*tr); let ghost st0 = *g; let ghost mut ta = t0; let ghost mut tb = t0; let ghost l = art->Loc_0; let ghost eff = TE::Force(force_case(st0, l)); let ghost t = tok(l, reflect::Effect::Force, dup(st0, l));
    let ghost mut pb = false;
    proof { grown_refl(t0); }
//@@ loop 0
    invariant_except_break is_cycle == (exists|j: int| 0 <= j < vp_i0 && (#[trigger] vp_s0@[j]).loc == l),
    invariant 0 <= vp_i0 <= vp_s0@.len(), vp_s0@ == st.stack@, *st == st0,
    ensures is_cycle == onstack(vp_s0@, l),
//@@ loop 1
    invariant 0 <= vp_i1 <= vp_s1@.len(), is_dup == (exists|j: int| 0 <= j < vp_i1 && dup_x(#[trigger] vp_s1@[j], l)),
//@@ before res_node_of_loc 0
    proof { assert(is_dup == dup(st0, l)); assert(st.stack@ =~= st0.stack@); }
//@@ after dcg_effect_begin_4 0
    proof { ta = tv(*tr); grown_refl(ta); assert(g.table@ =~= st0.table@); }
//@@ after loc_produce 0
    proof { tb = tv(*tr); can_close(t0, ta, tb, eff, fwd(cur(st0), t)); }
//@@ after dcg_effect_end_0 0
    proof { effect_done(t0, ta, tb, tv(*tr), eff, cur(st0), t); }
//@@ after dcg_effect_begin_4 1
    proof { ta = tv(*tr); tb = ta; grown_refl(ta); can_close(t0, ta, tb, eff, fwd(cur(st0), t)); assert(g.table@ =~= st0.table@); }
//@@ after dcg_effect_end_0 1
    proof { effect_done(t0, ta, tb, tv(*tr), eff, cur(st0), t); }
//@@ after clean 0
    proof { tb = tv(*tr); can_close(t0, ta, tb, eff, fwd(cur(st0), t)); }
//@@ after dcg_effect_end_0 2
    proof { effect_done(t0, ta, tb, tv(*tr), eff, cur(st0), t); }
//@@ after dcg_effect_begin_4 2
    proof { leaf_done(t0, tv(*tr), eff, cur(st0), t); }
//@@ before last_mut 1
    proof { pb = true; }
//@@ tail
    proof { if art is Loc && pb && st0.stack@.len() > 0 { pushed_frame(st0.stack@, g.stack@); } }
//@ fn DCG::force_map@Adapton
//@@ params g, art, mapf
    requires rec_ok(tv(*old(tr))),
    ensures same_frames(old(g).stack@, final(g).stack@),
        art is Rc ==> tv(*final(tr)) == tv(*old(tr)),
        art is Loc ==> old(g).table@.dom().contains(art->Loc_0) && ({ let m = old(g).table@[art->Loc_0] is Mut; one(tv(*old(tr)), tv(*final(tr)), TE::Force(force_case(*old(g), art->Loc_0)), cur(*old(g)), tok(art->Loc_0, reflect::Effect::Force, if m { false } else { dup(*old(g), art->Loc_0) })) }),
//@@ entry
    let ghost t0 = tv(*tr); let ghost st0 = *g; let ghost mut pb = false;
//@@ before force 0
    proof { assert(g.table@ =~= st0.table@); }
//@@ after dcg_effect_begin_4 0
    proof { leaf_done(t0, tv(*tr), TE::Force(reflect::trace::ForceCase::RefGet), cur(st0), tok(art->Loc_0, reflect::Effect::Force, false)); }
//@@ before last_mut 0
    proof { pb = true; }
//@@ tail
    proof { if pb && st0.stack@.len() > 0 { pushed_frame(st0.stack@, g.stack@); } }
//@ fn DCG::force_abs@Adapton
//@@ params g, absmapfam, arg, art
    requires rec_ok(tv(*old(tr))),
    ensures same_frames(old(g).stack@, final(g).stack@),
        art is Rc ==> tv(*final(tr)) == tv(*old(tr)),
        art is Loc ==> old(g).table@.dom().contains(art->Loc_0) && ({ let m = old(g).table@[art->Loc_0] is Mut; one(tv(*old(tr)), tv(*final(tr)), TE::Force(force_case(*old(g), art->Loc_0)), cur(*old(g)), tok(art->Loc_0, reflect::Effect::Force, if m { false } else { dup(*old(g), art->Loc_0) })) }),
//@@ entry
    let ghost t0 = tv(*tr); let ghost st0 = *g; let ghost mut pb = false;
//@@ before force 0
    proof { assert(g.table@ =~= st0.table@); }
//@@ after dcg_effect_begin_4 0
    proof { leaf_done(t0, tv(*tr), TE::Force(reflect::trace::ForceCase::RefGet), cur(st0), tok(art->Loc_0, reflect::Effect::Force, false)); }
//@@ before last_mut 0
    proof { pb = true; }
//@@ tail
    proof { if pb && st0.stack@.len() > 0 { pushed_frame(st0.stack@, g.stack@); } }
//@ fn dcg_reflect_begin
    ensures *old(tr) is None, tv(*final(tr)) == Some(seq![Seq::<Tr>::empty()]), rec_ok(tv(*final(tr))),
//@@ tail
    proof { assert(tv(*tr)->0 =~= seq![Seq::<Tr>::empty()]); }
//@ fn dcg_reflect_end
    ensures *old(tr) is Some, *final(tr) is None, tv(*old(tr)) == Some(seq![r@]),
//@@ subst * traces =>> traces
//@@ entry
    let ghost t0 = tv(*tr);
//@@ tail
    proof { assert(t0->0 =~= seq![vp_ret@]); }
//@ end
