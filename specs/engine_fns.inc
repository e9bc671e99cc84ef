//@ fn lookup_abs
//@@ props E01
//@@ params st, loc
    requires v(*old(st)).t.dom().contains(**loc),
    ensures *final(st) == (DCG { table: final(st).table, ..*old(st) }),
        vn(*r) == v(*old(st)).t[**loc], *r == old(st).table@[*loc],
        v(*final(st)) == (V { t: v(*old(st)).t.insert(**loc, vn(*final(r))), ..v(*old(st)) }),
        vn(*final(r)) == vn(*r) ==> v(*final(st)) == v(*old(st)),
//@@ entry
    proof { assert forall|b: Node| #[trigger] vt(st.table@.insert(*loc, b)) == vt(st.table@).insert(**loc, vn(b)) by { vt_insert(st.table@, *loc, b); } assert(v(*st).t.insert(**loc, v(*st).t[**loc]) =~= v(*st).t); }
//@ fn get_top_stack_loc
//@@ props E06,E08
//@@ params st
    ensures st.stack@.len() > 0 ==> r == Some(st.stack@.last().loc), st.stack@.len() == 0 ==> r is None,
//@ fn res_node_of_loc
//@@ props E01
//@@ params st, loc
    requires v(*old(st)).t.dom().contains(**loc),
    ensures *final(st) == (DCG { table: final(st).table, ..*old(st) }),
        vn(*r) == v(*old(st)).t[**loc],
        v(*final(st)) == (V { t: v(*old(st)).t.insert(**loc, vn(*final(r))), ..v(*old(st)) }),
        vn(*final(r)) == vn(*r) ==> v(*final(st)) == v(*old(st)),
//@ fn Node::preds_alloc@GraphNode
//@@ props E01,E02,E04
    requires !(self is Pure),
    ensures lists_alloc(vn(*self).preds, r@),
//@@ entry
    proof { listed_facts(self); }
//@@ loop 0
    invariant 0 <= vp_i0 <= vp_s0@.len(), vp_out0@ == alloc_locs(vp_s0@.take(vp_i0 as int)), take_steps(vp_s0@),
//@@ loop 1
    invariant 0 <= vp_i1 <= vp_s1@.len(), vp_out1@ == alloc_locs(vp_s1@.take(vp_i1 as int)), take_steps(vp_s1@),
//@ fn Node::preds_obs@GraphNode
//@@ props E01,E02,E04
    requires !(self is Pure),
    ensures lists_obs(vn(*self).preds, vn(*self).kind is Comp, r@),
//@@ entry
    proof { listed_facts(self); }
//@@ loop 0
    invariant 0 <= vp_i0 <= vp_s0@.len(), vp_out0@ == obs_locs(vp_s0@.take(vp_i0 as int), false), take_steps(vp_s0@),
//@@ loop 1
    invariant 0 <= vp_i1 <= vp_s1@.len(), vp_out1@ == obs_locs(vp_s1@.take(vp_i1 as int), true), take_steps(vp_s1@),
//@ fn Node::preds_insert@GraphNode
//@@ props E01,E02,E04
//@@ params self, eff, loc, dep
    requires !((*old(self)) is Pure),
    ensures vn(*final(self)) == (N { preds: vn(*old(self)).preds.insert(P { eff: eff, loc: **loc, dep: od(dep) }), ..vn(*old(self)) }),
//@@ entry
    proof { push_facts(self); }
//@@ tail
    proof { assert(raw(*self) == raw(*old(self)).push(Pred { effect: eff, loc: *loc, dep: dep })); }
//@ fn Node::preds_remove@GraphNode
//@@ props E01,E02,E04
//@@ params self, loc
    requires !((*old(self)) is Pure),
    ensures vn(*final(self)) == (N { preds: minus(vn(*old(self)).preds, **loc), ..vn(*old(self)) }),
//@@ entry
    proof { without_facts(self); }
//@@ loop 0
    invariant 0 <= vp_i0 <= nd.preds@.len(), vp_out0@ == without(nd.preds@.take(vp_i0 as int), **loc), take_steps(nd.preds@), *nd == old(self)->Mut_0,
//@@ loop 1
    invariant 0 <= vp_i1 <= nd.preds@.len(), vp_out1@ == without(nd.preds@.take(vp_i1 as int), **loc), take_steps(nd.preds@), *nd == old(self)->Comp_0,
//@ fn Node::succs_def@GraphNode
//@@ props E01,E02,E04
    ensures r == (vn(*self).kind is Comp),
//@ fn Node::succs_mut@GraphNode
//@@ props E01,E02,E04
    requires (*old(self)) is Comp,
    ensures *r == (*old(self))->Comp_0.succs, *final(self) == Node::Comp(CompNode { succs: *final(r), ..(*old(self))->Comp_0 }),
//@ fn Node::succs@GraphNode
//@@ props E01,E02,E04
    requires self is Comp,
    ensures *r == self->Comp_0.succs,
//@ fn loc_of_id
//@@ props E06,E08
//@@ params path, id
    ensures *r == (Loc { path: path, id: id, hash: loc_hash(path, id) }),
//@ fn get_succ
//@@ props E01,E02,E04
//@@ params st, src_loc, eff, tgt_loc
    requires v(*st).t.dom().contains(**src_loc), v(*st).t[**src_loc].kind is Comp, has_key(v(*st).t[**src_loc].succs, eff, **tgt_loc),
    ensures r.effect == eff, *r.loc == **tgt_loc, r.dirty == v(*st).t[**src_loc].dirty.contains((eff, **tgt_loc)),
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    proof { first_facts(); }
//@@ loop 0
    invariant 0 <= vp_i0 <= vp_s0@.len(), vp_s0@ == st.table@[*src_loc]->Comp_0.succs@, has_key(ses(vp_s0@), eff, **tgt_loc),
        forall|j: int| 0 <= j < vp_i0 ==> !keyed(#[trigger] vp_s0@[j], eff, **tgt_loc),
        vp_i0 < vp_s0@.len() && keyed(vp_s0@[vp_i0 as int], eff, **tgt_loc) ==> is_first(vp_s0@, eff, **tgt_loc, vp_i0 as int),
//@ fn get_succ_mut
//@@ props E01,E02,E04
//@@ params st, src_loc, eff, tgt_loc
    requires v(*old(st)).t.dom().contains(**src_loc), v(*old(st)).t[**src_loc].kind is Comp, has_key(v(*old(st)).t[**src_loc].succs, eff, **tgt_loc),
    ensures r.effect == eff, *r.loc == **tgt_loc, r.dirty == v(*old(st)).t[**src_loc].dirty.contains((eff, **tgt_loc)),
        (final(r).loc == r.loc && final(r).effect == r.effect && final(r).dep == r.dep) ==>
            v(*final(st)) == with_bit(v(*old(st)), **src_loc, eff, **tgt_loc, final(r).dirty),
        *final(r) == *r ==> v(*final(st)) == v(*old(st)),
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    let ghost vo = v(*st);
    proof { first_facts(); same_bit(vo, lc(*src_loc), eff, lc(*tgt_loc)); }
//@@ loop 0
    invariant 0 <= vp_i0 <= vp_s0@.len(), vp_s0@ == old(st).table@[*src_loc]->Comp_0.succs@, has_key(ses(vp_s0@), eff, **tgt_loc),
        forall|j: int| 0 <= j < vp_i0 ==> !keyed(#[trigger] vp_s0@[j], eff, **tgt_loc),
        vp_i0 < vp_s0@.len() && keyed(vp_s0@[vp_i0 as int], eff, **tgt_loc) ==> is_first(vp_s0@, eff, **tgt_loc, vp_i0 as int),
//@ fn check_force_map_dep
//@@ props E01
//@@ params st, dep, loc
    requires has(v(*old(st)), **loc),
    ensures v(*final(st)) == v(*old(st)),
        r.changed <==> !accepts(v(*old(st)), **loc, Dep::ForceMapDep(*dep)), // [E05]
//@ fn ForceDep::dirty@DCGDep
//@@ props E01,E02
//@@ params self, g, loc
    requires has(v(*old(g)), **loc),
    ensures v(*final(g)) == v(*old(g)), !r.changed ==> v(*old(g)).t[**loc].kind is Mut && accepts(v(*old(g)), **loc, Dep::ForceDep(*self)),
//@ fn ForceMapDep::dirty@DCGDep
//@@ props E01,E02
//@@ params self, g, loc
    requires has(v(*old(g)), **loc),
    ensures v(*final(g)) == v(*old(g)), !r.changed ==> v(*old(g)).t[**loc].kind is Mut && accepts(v(*old(g)), **loc, Dep::ForceMapDep(*self)),
//@ fn ForceAbsDep::dirty@DCGDep
//@@ props E01,E02
//@@ params self, g, loc
    requires has(v(*old(g)), **loc),
    ensures v(*final(g)) == v(*old(g)), !r.changed ==> v(*old(g)).t[**loc].kind is Mut && accepts(v(*old(g)), **loc, Dep::ForceAbsDep(*self)),
//@ fn AllocCell::dirty@DCGDep
//@@ props E01,E02
//@@ params self, g, loc
    requires has(v(*old(g)), **loc),
    ensures v(*final(g)) == v(*old(g)), !r.changed ==> v(*old(g)).t[**loc].kind is Mut && accepts(v(*old(g)), **loc, Dep::AllocCell(*self)),
//@ fn AllocNominalThunk::dirty@DCGDep
//@@ props E01,E02
//@@ params self, g, loc
    requires has(v(*old(g)), **loc),
    ensures v(*final(g)) == v(*old(g)), !r.changed ==> v(*old(g)).t[**loc].kind is Mut && accepts(v(*old(g)), **loc, Dep::AllocNominalThunk(*self)),
//@ fn AllocStructuralThunk::dirty@DCGDep
//@@ props E01,E02
//@@ params self, g, loc
    requires has(v(*old(g)), **loc),
    ensures v(*final(g)) == v(*old(g)), !r.changed ==> v(*old(g)).t[**loc].kind is Mut && accepts(v(*old(g)), **loc, Dep::AllocStructuralThunk(*self)),
//@ end
impl Dep {
    /// dispatch of the trait object
    pub fn dirty(&self, g: &mut DCG, loc: &Rc<Loc>) -> (r: DCGRes)
        requires has(v(*old(g)), **loc),
        ensures v(*final(g)) == v(*old(g)), !r.changed ==> v(*old(g)).t[**loc].kind is Mut && accepts(v(*old(g)), **loc, *self),
    {
        match self {
            Dep::ForceDep(d) => d.dirty(g, loc),
            Dep::ForceMapDep(d) => d.dirty(g, loc),
            Dep::ForceAbsDep(d) => d.dirty(g, loc),
            Dep::AllocCell(d) => d.dirty(g, loc),
            Dep::AllocNominalThunk(d) => d.dirty(g, loc),
            Dep::AllocStructuralThunk(d) => d.dirty(g, loc),
        }
    }
}
impl Fun {
    /// mapping functions are functions of the reference and the value
    #[verifier::external_body]
    pub fn call(&self, a: &Art, x: Val) -> (r: Val) ensures r == mapres(*self, *a, x) { unimplemented!() }
}
//@ fn dirty_pred_observers
//@@ props E01,E02
//@@ params st, loc
    requires core(v(*old(st))), has(v(*old(st)), **loc), !(v(*old(st)).t[**loc].kind is Pure), !v(*old(st)).gh.d.contains(**loc),
    ensures core(v(*final(st))), dirtied(v(*old(st)), v(*final(st))),
        !bad_at(v(*final(st)), Effect::Observe, **loc), // [E02]
        v(*old(st)).t[**loc].kind is Comp ==> marked_at(v(*final(st)), Effect::Observe, **loc), // [E02]
        forall|x: Effect, m: Loc| #[trigger] bad_at(v(*final(st)), x, m) ==> bad_at(v(*old(st)), x, m), // [E02]
//@@ entry
    let ghost v0 = v(*st); let ghost l = lc(*loc);
    proof { dirtied_refl(v0); }
//@@ attr #[verifier::loop_isolation(false)]
//@@ loop 0
    invariant 0 <= vp_i0 <= vp_s0@.len(), lists_obs(v0.t[l].preds, v0.t[l].kind is Comp, vp_s0@),
        core(v(*st)), dirtied(v0, v(*st)),
        forall|x: Effect, m: Loc| #[trigger] bad_at(v(*st), x, m) ==> bad_at(v0, x, m) || (x is Observe && m == l),
        forall|j: int| 0 <= j < vp_i0 ==> obs_done(v(*st), l, #[trigger] vp_s0@[j]),
//@@ loopstart 0
    let ghost vj = v(*st); let ghost x = vp_s0@[vp_i0 as int]; let ghost p = lc(x.0);
    proof { dirtied_at(v0, vj, l); obs_is_edge(vj, l, vj.t[l].kind is Comp, vp_s0@); no_self_edge(vj, p, Effect::Observe, l); assert(comp_off(vj, *x.0)); }
//@@ before dirty_pred_observers 0
    proof { mark_one(vj, p, Effect::Observe, l); }
//@@ after dirty_pred_observers 0
    proof { let v1 = with_bit(vj, p, Effect::Observe, l, true); dirtied_at(vj, v1, l); dirtied_at(v1, v(*st), l); dirtied_trans(vj, v1, v(*st)); dirtied_trans(v0, vj, v(*st)); done_mono(vj, v(*st), l); done_mono(v1, v(*st), l); assert(obs_done(v1, l, x)); assert(has(v1, *x.0)); assert(obs_done(v(*st), l, x)); dirtied_at(v1, v(*st), p);
        assert forall|y: Effect, m: Loc| #[trigger] bad_at(v(*st), y, m) implies bad_at(v0, y, m) || (y is Observe && m == l) by { assert(bad_at(v1, y, m)); } }
//@@ loopend 0
    proof { assert(obs_done(v(*st), l, x)); }
//@@ tail
    proof { dirtied_at(v0, v(*st), l); all_obs_done(v(*st), l, pred_locs@); }
//@ fn dirty_alloc
//@@ props E01,E02
//@@ params st, loc
    requires core(v(*old(st))), has(v(*old(st)), **loc), !(v(*old(st)).t[**loc].kind is Pure), !v(*old(st)).gh.a.contains(**loc),
    ensures core(v(*final(st))), dirtied(v(*old(st)), v(*final(st))),
        !bad_at(v(*final(st)), Effect::Observe, **loc), // [E02]
        marked_at(v(*final(st)), Effect::Allocate, **loc), // [E02]
        v(*old(st)).t[**loc].kind is Comp ==> marked_at(v(*final(st)), Effect::Observe, **loc), // [E02]
        forall|x: Effect, m: Loc| #[trigger] bad_at(v(*final(st)), x, m) ==> bad_at(v(*old(st)), x, m), // [E02]
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    let ghost v0 = v(*st); let ghost l = lc(*loc);
    proof { dirtied_refl(v0); d_in_a(v0, l); }
//@@ after dirty_pred_observers 0
    let ghost v1 = v(*st);
    proof { dirtied_at(v0, v1, l); dirtied_refl(v1); }
//@@ loop 0
    invariant 0 <= vp_i0 <= vp_s0@.len(), lists_alloc(v0.t[l].preds, vp_s0@),
        core(v(*st)), dirtied(v1, v(*st)),
        forall|x: Effect, m: Loc| #[trigger] bad_at(v(*st), x, m) ==> bad_at(v1, x, m),
        forall|j: int| 0 <= j < vp_i0 ==> alloc_done(v(*st), l, #[trigger] vp_s0@[j]),
//@@ loopstart 0
    let ghost vj = v(*st); let ghost x = vp_s0@[vp_i0 as int]; let ghost p = lc(x);
    proof { dirtied_at(v1, vj, l); alloc_is_edge(vj, l, vp_s0@); no_self_edge(vj, p, Effect::Allocate, l); assert(comp_off(vj, *x)); }
//@@ before dirty_pred_observers 1
    proof { mark_one(vj, p, Effect::Allocate, l); }
//@@ after dirty_pred_observers 1
    proof { let v2 = with_bit(vj, p, Effect::Allocate, l, true); dirtied_at(vj, v2, l); dirtied_at(v2, v(*st), l); dirtied_trans(vj, v2, v(*st)); dirtied_trans(v1, vj, v(*st)); done_mono(vj, v(*st), l); done_mono(v2, v(*st), l); assert(alloc_done(v2, l, x)); assert(has(v2, *x)); assert(alloc_done(v(*st), l, x)); dirtied_at(v2, v(*st), p);
        assert forall|y: Effect, m: Loc| #[trigger] bad_at(v(*st), y, m) implies bad_at(v1, y, m) by { assert(bad_at(v2, y, m)); } }
//@@ loopend 0
    proof { assert(alloc_done(v(*st), l, x)); }
//@@ tail
    proof { dirtied_at(v1, v(*st), l); all_alloc_done(v(*st), l, pred_locs@); marked_mono(v1, v(*st)); dirtied_trans(v0, v1, v(*st)); }
//@ fn check_cell_change
//@@ props E01,E03
//@@ params st, cell, val
    requires cell is Loc, has(v(*old(st)), *cell->Loc_0),
    ensures v(*final(st)) == v(*old(st)), r == (v(*old(st)).t[*cell->Loc_0].kind is Comp || v(*old(st)).t[*cell->Loc_0].val != *val),
//@ fn set_
//@@ props E01,E02
//@@ params st, cell, val
    requires cell is Loc, inv(v(*old(st))), has(v(*old(st)), *cell->Loc_0), v(*old(st)).t[*cell->Loc_0].kind is Mut,
        v(*old(st)).t[*cell->Loc_0].val != val ==> !v(*old(st)).gh.a.contains(*cell->Loc_0) && !busy(v(*old(st)), *cell->Loc_0),
    ensures inv(v(*final(st))), guar(v(*old(st)), v(*final(st))), // [E01,E02]
        v(*old(st)).t[*cell->Loc_0].val == val ==> v(*final(st)) == v(*old(st)), // [E03]
        dirtied(put_node(v(*old(st)), *cell->Loc_0, with_val(v(*old(st)), *cell->Loc_0, val)), v(*final(st))), // [E01]
//@@ entry
    let ghost v0 = v(*st); let ghost l = lc(cell->Loc_0); let ghost n = with_val(v0, l, val);
    proof { guar_refl(v0); assert(put_node(v0, l, v0.t[l]).t =~= v0.t); dirtied_refl(v0); }
//@@ before dirty_alloc 0
    proof { assert(recontent(v0, l, n)); recontent_core(v0, l, n); }
//@@ after dirty_alloc 0
    proof { content_marked(v0, l, n, v(*st)); }
//@ fn revoke_succs
//@@ props E01,E02,E04
//@@ params st, src, succs
    requires forall|k: int| 0 <= k < ses(succs@).len() ==> has(v(*old(st)), (#[trigger] ses(succs@)[k]).loc) && !(v(*old(st)).t[ses(succs@)[k].loc].kind is Pure),
    ensures v(*final(st)) == (V { t: rm_preds(v(*old(st)).t, **src, ses(succs@)), ..v(*old(st)) }), // [E04]
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    let ghost v0 = v(*st); let ghost l = lc(*src);
    proof { rm_none(v0.t, l, ses(succs@)); }
//@@ loop 0
    invariant 0 <= vp_i0 <= vp_s0@.len(), vp_s0@ == succs@, v(*st) == (V { t: rm_preds(v0.t, l, ses(succs@).take(vp_i0 as int)), ..v0 }),
//@@ loopstart 0
    proof { rm_one(v0.t, l, ses(succs@), vp_i0 as int); }
//@@ tail
    proof { assert(ses(succs@).take(succs@.len() as int) =~= ses(succs@)); }
//@ end
impl FnBox {
    /// user code: it uses the engine only through its interface
    #[verifier::external_body]
    pub fn call(&self, arg: Val, spurious: Val, g: &mut DCG) -> (r: Val)
        requires inv(v(*old(g))),
        ensures inv(v(*final(g))), same_stack(v(*old(g)), v(*final(g))), v(*final(g)).path == v(*old(g)).path, v(*final(g)).flags == v(*old(g)).flags,
            v(*old(g)).s.len() > 0 ==> guar(v(*old(g)), v(*final(g))),
            v(*old(g)).s.len() > 0 && v(*old(g)).s.last().succs.len() == 0 ==> ran_fn(*self, arg, spurious, v(*old(g)).path, es(v(*final(g)).s.last().succs), r),
    { unimplemented!() }
}
//@ fn App::copy@Producer
//@@ props E01,E06
    ensures r == *self,
//@ fn App::prog_pt@Producer
//@@ props E01,E06
    ensures *r == self.prog_pt,
//@ fn App::produce@Producer
//@@ props E01,E06
//@@ sig pub fn produce(&self, g: &mut DCG) -> (r: Val)
//@@ callghost call g
    requires inv(v(*old(g))), v(*old(g)).s.len() > 0, v(*old(g)).s.last().succs.len() == 0,
    ensures inv(v(*final(g))), guar(v(*old(g)), v(*final(g))), ran(*self, v(*old(g)).path, es(v(*final(g)).s.last().succs), r),
//@ fn App::consume@Consumer
//@@ props E01,E06
//@@ params self, arg
    ensures *final(self) == (App { arg: arg, ..*old(self) }), // [E06]
//@ fn App::get_arg@Consumer
//@@ props E01,E06
//@@ params self
    ensures r == old(self).arg, *final(self) == *old(self),
//@ fn loc_produce
//@@ props E01,E04,E08
//@@ callghost produce g
//@@ params g, loc
    requires inv(v(*old(g))), comp_off(v(*old(g)), **loc), !clean(v(*old(g)), **loc), low(v(*old(g)), **loc),
        reason(v(*old(g)), **loc), // [E03]
    ensures v(*final(g)).gh.d.contains(**loc), !v(*old(g)).gh.d.contains(**loc), // [E03]
        inv(v(*final(g))), // [E01,E02]
        guar(v(*old(g)), v(*final(g))), // [E01,E08]
        clean(v(*final(g)), **loc), v(*final(g)).t[**loc].kind is Comp, v(*final(g)).t[**loc].res == Some(r), // [E01]
        v(*final(g)).s == v(*old(g)).s, // [E08]
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    let ghost v0 = v(*g); let ghost l = lc(*loc); let ghost f0 = v0.t[l].succs;
    proof { started_inv(v0, l); out_facts(v0, l); empty_facts(); undirty_facts(); }
//@@ before produce 0
    proof { assert(v(*g).s =~= started(v0, l).s); assert(v(*g) == started(v0, l)); }
//@@ after produce 0
    let ghost w = v(*g); let ghost f = w.s.last().succs;
    proof { finished_inv(v0, w, l, res); frame_facts(w); ins_none(w.t, l, f); }
//@@ after pop 0
    proof { assert(v(*st).s =~= w.s.drop_last()); }
//@@ loop 0
    invariant 0 <= vp_i0 <= vp_s0@.len(), fes(vp_s0@) == f, v(*st) == (V { t: ins_preds(w.t, l, f.take(vp_i0 as int)), s: w.s.drop_last(), path: v0.path, ..w }),
//@@ loopstart 0
    proof { ins_one(w.t, l, f, vp_i0 as int); assert(fe_ok(w, l, f[vp_i0 as int])); assert(fe(vp_s0@[vp_i0 as int]) == f[vp_i0 as int]); }
//@@ loop 1
    invariant 0 <= vp_i1 <= vp_s1@.len(), fes(vp_s1@) == f, vp_out1@.len() == vp_i1, forall|j: int| 0 <= j < vp_i1 ==> se(#[trigger] vp_out1@[j]) == f[j].e && !vp_out1@[j].dirty,
//@@ loopstart 1
    proof { assert(fe(vp_s1@[vp_i1 as int]) == f[vp_i1 as int]); assert(fe_ok(w, l, f[vp_i1 as int])); }
//@@ after replace 1
    proof { assert(ses(node.succs@) =~= es(f)); assert(none_dirty(node.succs@)); }
//@@ tail
    proof { assert(v(*g).t =~= finished(w, l, v0.path, res).t); assert(v(*g) == finished(w, l, v0.path, res)); rely_ok(v(*g), l); guar_trans(v0, v(*g), rely(v(*g), l)); }
    g.gh = Ghost(rely(v(*g), l).gh);
//@ fn clean_comp
//@@ props E01,E02,E03,E05
//@@ params g, this_dep, loc, cache, succs
    requires inv(v(*old(g))), comp_off(v(*old(g)), **loc), low(v(*old(g)), **loc), v(*old(g)).t[**loc].res == Some(cache), v(*old(g)).t[**loc].succs == ses(succs@),
    ensures inv(v(*final(g))), guar(v(*old(g)), v(*final(g))), v(*final(g)).s == v(*old(g)).s, // [E01,E02]
        clean(v(*final(g)), **loc), v(*final(g)).t[**loc].kind is Comp, // [E01,E02]
        !r.changed ==> v(*final(g)).t[**loc].res == Some(this_dep.res), // [E01]
        r.changed ==> v(*final(g)).t[**loc].res != Some(this_dep.res), // [E03]
        clean(v(*old(g)), **loc) ==> v(*final(g)).t == v(*old(g)).t, // [E03]
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    let ghost v0 = v(*g); let ghost l = lc(*loc); let ghost es0 = v0.t[l].succs;
    proof { checked_start(v0, l); }
    g.gh = Ghost(set_b(v0, v0.gh.b.insert(l)).gh);
//@@ loop 0
    invariant 0 <= vp_i0 <= vp_s0@.len(), vp_s0@ == succs@, checked(v0, v(*g), l, vp_i0 as int), clean(v0, l) ==> v(*g).t == v0.t,
//@@ loopstart 0
    let ghost i = vp_i0 as int; let ghost w0 = v(*g); let ghost e = es0[i];
    proof { out_facts(w0, l); assert(w0.t[l].succs[i] == e); assert(has_key(w0.t[l].succs, e.eff, e.loc)); assert(ses(vp_s0@)[i] == se(vp_s0@[i])); guar_refl(w0); assert(!bit(w0.t[l], e) ==> !bad(w0, l, i)); checked_low(v0, w0, l, i);
        if !bit(w0.t[l], e) { checked_step(v0, w0, w0, l, i); } }
//@@ after clean 0
    proof { if res.changed { checked_changed(v0, w0, v(*g), l, i); } else { checked_step(v0, w0, v(*g), l, i); } }
//@@ before loc_produce 0
    let ghost x0 = set_b(v(*g), v0.gh.b);
    g.gh = Ghost(x0.gh);
//@@ after loc_produce 0
    proof { guar_trans(v0, x0, v(*g)); }
//@@ loop 1
    invariant i + 1 <= vp_i1 <= vp_s1@.len(), vp_s1@ == succs@, is_last == !(exists|m: int| i + 1 <= m < vp_i1 && key(#[trigger] es0[m]) == key(e)),
//@@ loopstart 1
    proof { assert(ses(vp_s1@)[vp_i1 as int] == se(vp_s1@[vp_i1 as int])); assert(es0[vp_i1 as int] == se(vp_s1@[vp_i1 as int])); }
//@@ loopend 0
    proof { assert(edge_checked(v0, v(*g), l, i)); checked_next(v0, v(*g), l, i); }
    g.gh = Ghost(rely_on(v(*g), e).gh);
//@@ tail
    proof { checked_all(v0, v(*g), l); }
    g.gh = Ghost(set_b(v(*g), v0.gh.b).gh);
//@ fn ForceDep::clean@DCGDep
//@@ props E01,E02,E03,E05
//@@ params self, g, loc
    requires inv(v(*old(g))), has(v(*old(g)), **loc), !(v(*old(g)).t[**loc].kind is Pure), low(v(*old(g)), **loc),
    ensures inv(v(*final(g))), guar(v(*old(g)), v(*final(g))), v(*final(g)).s == v(*old(g)).s, // [E01,E02]
        !r.changed ==> accepts(v(*final(g)), **loc, Dep::ForceDep(*self)) && (is_obs_dep(Dep::ForceDep(*self)) ==> clean(v(*final(g)), **loc)), // [E01]
        r.changed ==> changed_at(v(*final(g)), **loc, Dep::ForceDep(*self)), // [E03]
        clean(v(*final(g)), **loc), v(*final(g)).t[**loc].kind == v(*old(g)).t[**loc].kind, // [E01,E02]
        clean(v(*old(g)), **loc) ==> v(*final(g)).t == v(*old(g)).t, // [E03]
//@@ entry
    let ghost v0 = v(*g);
    proof { guar_refl(v0); low_off(v0, lc(*loc)); }
//@ fn ForceMapDep::clean@DCGDep
//@@ props E01,E03,E05
//@@ params self, g, loc
    requires inv(v(*old(g))), has(v(*old(g)), **loc), !(v(*old(g)).t[**loc].kind is Pure), low(v(*old(g)), **loc),
    ensures inv(v(*final(g))), guar(v(*old(g)), v(*final(g))), v(*final(g)).s == v(*old(g)).s, // [E01]
        !r.changed ==> accepts(v(*final(g)), **loc, Dep::ForceMapDep(*self)) && (is_obs_dep(Dep::ForceMapDep(*self)) ==> clean(v(*final(g)), **loc)), // [E01,E05]
        r.changed ==> changed_at(v(*final(g)), **loc, Dep::ForceMapDep(*self)), // [E03,E05]
//@@ entry
    let ghost v0 = v(*g);
    proof { guar_refl(v0); low_off(v0, lc(*loc)); }
//@ fn ForceAbsDep::clean@DCGDep
//@@ props E01,E03,E05
//@@ params self, g, loc
    requires inv(v(*old(g))), has(v(*old(g)), **loc), !(v(*old(g)).t[**loc].kind is Pure), low(v(*old(g)), **loc),
    ensures inv(v(*final(g))), guar(v(*old(g)), v(*final(g))), v(*final(g)).s == v(*old(g)).s, // [E01]
        !r.changed ==> accepts(v(*final(g)), **loc, Dep::ForceAbsDep(*self)) && (is_obs_dep(Dep::ForceAbsDep(*self)) ==> clean(v(*final(g)), **loc)), // [E01,E05]
        r.changed ==> changed_at(v(*final(g)), **loc, Dep::ForceAbsDep(*self)), // [E03,E05]
//@@ entry
    let ghost v0 = v(*g);
    proof { guar_refl(v0); low_off(v0, lc(*loc)); }
//@ fn AllocCell::clean@DCGDep
//@@ props E01,E03,E05
//@@ params self, g, loc
    requires inv(v(*old(g))), has(v(*old(g)), **loc), !(v(*old(g)).t[**loc].kind is Pure), true,
    ensures inv(v(*final(g))), guar(v(*old(g)), v(*final(g))), v(*final(g)).s == v(*old(g)).s, // [E01]
        !r.changed ==> accepts(v(*final(g)), **loc, Dep::AllocCell(*self)) && (is_obs_dep(Dep::AllocCell(*self)) ==> clean(v(*final(g)), **loc)), // [E01]
        r.changed ==> changed_at(v(*final(g)), **loc, Dep::AllocCell(*self)), // [E03]
//@@ entry
    let ghost v0 = v(*g);
    proof { guar_refl(v0); }
//@ fn AllocNominalThunk::clean@DCGDep
//@@ props E01,E03,E05
//@@ params self, g, loc
    requires inv(v(*old(g))), has(v(*old(g)), **loc), !(v(*old(g)).t[**loc].kind is Pure), true,
    ensures inv(v(*final(g))), guar(v(*old(g)), v(*final(g))), v(*final(g)).s == v(*old(g)).s, // [E01]
        !r.changed ==> accepts(v(*final(g)), **loc, Dep::AllocNominalThunk(*self)) && (is_obs_dep(Dep::AllocNominalThunk(*self)) ==> clean(v(*final(g)), **loc)), // [E01]
        r.changed ==> changed_at(v(*final(g)), **loc, Dep::AllocNominalThunk(*self)), // [E03]
//@@ entry
    let ghost v0 = v(*g);
    proof { guar_refl(v0); }
//@ fn AllocStructuralThunk::clean@DCGDep
//@@ props E01,E03,E05
//@@ params self, g, loc
    requires inv(v(*old(g))), has(v(*old(g)), **loc), !(v(*old(g)).t[**loc].kind is Pure), true,
    ensures inv(v(*final(g))), guar(v(*old(g)), v(*final(g))), v(*final(g)).s == v(*old(g)).s, // [E01]
        !r.changed ==> accepts(v(*final(g)), **loc, Dep::AllocStructuralThunk(*self)) && (is_obs_dep(Dep::AllocStructuralThunk(*self)) ==> clean(v(*final(g)), **loc)), // [E01]
        r.changed ==> changed_at(v(*final(g)), **loc, Dep::AllocStructuralThunk(*self)), // [E03]
//@@ entry
    let ghost v0 = v(*g);
    proof { guar_refl(v0); }
//@ end
impl Dep {
    /// dispatch of the trait object
    #[verifier::exec_allows_no_decreases_clause]
    pub fn clean(&self, g: &mut DCG, loc: &Rc<Loc>) -> (r: DCGRes)
        requires inv(v(*old(g))), has(v(*old(g)), **loc), !(v(*old(g)).t[**loc].kind is Pure), is_obs_dep(*self) ==> low(v(*old(g)), **loc),
        ensures inv(v(*final(g))), guar(v(*old(g)), v(*final(g))), v(*final(g)).s == v(*old(g)).s,
            !r.changed ==> accepts(v(*final(g)), **loc, *self) && (is_obs_dep(*self) ==> clean(v(*final(g)), **loc)),
            r.changed ==> changed_at(v(*final(g)), **loc, *self),
    {
        match self {
            Dep::ForceDep(d) => d.clean(g, loc),
            Dep::ForceMapDep(d) => d.clean(g, loc),
            Dep::ForceAbsDep(d) => d.clean(g, loc),
            Dep::AllocCell(d) => d.clean(g, loc),
            Dep::AllocNominalThunk(d) => d.clean(g, loc),
            Dep::AllocStructuralThunk(d) => d.clean(g, loc),
        }
    }
}
//@ end
