// ================= changing content, recording edges
pub open spec fn put_node(v: V, l: Loc, n: N) -> V { V { t: v.t.insert(l, n), ..v } }
/// new content for an existing location, which keeps its dependents
pub open spec fn recontent(v: V, l: Loc, n: N) -> bool {
    &&& has(v, l) && !(v.t[l].kind is Pure) && !(n.kind is Pure) && n.preds == v.t[l].preds
    &&& n.kind is Mut ==> v.t[l].kind is Mut
    &&& n.kind is Comp ==> n.res is None && n.succs == v.t[l].succs && n.dirty == v.t[l].dirty
    &&& v.t[l].kind is Mut ==> v.t[l].succs.len() == 0
    &&& !v.gh.a.contains(l) && !busy(v, l)
}
pub proof fn recontent_core(v: V, l: Loc, n: N)
    requires core(v), recontent(v, l, n),
    ensures ({ let w = put_node(v, l, n); core(w) && (forall|e: Effect, m: Loc| #[trigger] bad_at(w, e, m) ==> bad_at(v, e, m) || m == l) }),
{
    reveal(core);
    let w = put_node(v, l, n);
    assert(!v.gh.d.contains(l));
    assert forall|q: Loc| #[trigger] onstack(w, q) == onstack(v, q) by {}
    assert forall|q: Loc| #[trigger] has(w, q) == has(v, q) by {}
    assert forall|q: Loc| #[trigger] comp_off(w, q) == (if q == l { n.kind is Comp } else { comp_off(v, q) }) by { assert(has(w, q) == has(v, q)); }
    assert forall|q: Loc| q != l && #[trigger] clean(v, q) implies clean(w, q) by { assert(has(w, q)); }
    assert forall|q: Loc, d: Dep| q != l implies #[trigger] accepts(w, q, d) == accepts(v, q, d) by {}
    assert(w1(w)) by { assert forall|q: Loc, k: int| comp_off(w, q) && 0 <= k < w.t[q].succs.len() implies edge_wf(w, q, #[trigger] w.t[q].succs[k]) by { assert(comp_off(v, q)); let e = v.t[q].succs[k]; assert(edge_wf(v, q, e)); assert(has(w, e.loc)); assert(mirrored(w, q, e)); } }
    assert(w2(w)) by { assert forall|m: Loc, p: P| has(w, m) && #[trigger] w.t[m].preds.contains(p) implies comp_off(w, p.loc) && has_key(w.t[p.loc].succs, p.eff, m) by { assert(has(v, m)); assert(v.t[m].preds.contains(p)); assert(comp_off(v, p.loc)); } }
    assert(w3(w)) by { assert forall|i: int| 0 <= i < w.s.len() implies has(w, (#[trigger] w.s[i]).loc) && w.t[w.s[i].loc].kind is Comp && w.t[w.s[i].loc].succs.len() == 0 by { assert(has(v, v.s[i].loc)); assert(onstack(v, v.s[i].loc)); } }
    assert(w5(w)) by { assert forall|q: Loc| #[trigger] has(w, q) && w.t[q].kind is Pure implies *q.id is Structural by { assert(has(v, q)); } }
    assert(s1(w)) by { assert forall|q: Loc| #[trigger] comp_off(w, q) && w.t[q].res is Some implies ran(w.t[q].producer, *q.path, w.t[q].succs, w.t[q].res->0) by { assert(q != l); assert(comp_off(v, q)); } }
    assert(d1(w)) by {
        assert forall|q: Loc| #[trigger] w.gh.d.contains(q) implies w.gh.a.contains(q) && clean(w, q) by { assert(v.gh.d.contains(q)); assert(clean(v, q)); }
        assert forall|q: Loc, k: int| w.gh.d.contains(q) && w.t[q].kind is Comp && 0 <= k < w.t[q].succs.len() implies relied(w, #[trigger] w.t[q].succs[k]) by { assert(v.gh.d.contains(q)); assert(relied(v, v.t[q].succs[k])); }
        assert forall|q: Loc| #[trigger] w.gh.a.contains(q) implies has(w, q) by { assert(v.gh.a.contains(q)); assert(has(v, q)); }
    }
    assert(d2(w)) by { assert forall|i: int| 0 <= i < w.s.len() implies frame_ok(w, #[trigger] w.s[i]) by { let f = v.s[i]; assert(frame_ok(v, f));
        assert forall|j: int| 0 <= j < f.succs.len() implies fe_ok(w, f.loc, #[trigger] f.succs[j]) by { assert(fe_ok(v, f.loc, f.succs[j])); assert(has(w, f.succs[j].e.loc)); if f.succs[j].e.eff is Observe { assert(v.gh.d.contains(f.succs[j].e.loc)); } } } }
    assert(b1(w)) by { assert forall|q: Loc| #[trigger] w.gh.b.contains(q) implies comp_off(w, q) && w.t[q].res is Some by { assert(v.gh.b.contains(q)); assert(comp_off(v, q)); } }
    assert forall|e: Effect, m: Loc| #[trigger] bad_at(w, e, m) implies bad_at(v, e, m) || m == l by {
        let (q, k) = choose|q: Loc, k: int| #[trigger] bad(w, q, k) && key(w.t[q].succs[k]) == (e, m);
        assert(q != l); assert(comp_off(v, q));
        if m != l { assert(bad(v, q, k)); }
    }
}
/// a new location
pub proof fn fresh_inv(v: V, l: Loc, n: N)
    requires inv(v), !(has(v, l)), n.preds == ISet::<P>::empty(), n.succs.len() == 0, n.kind is Comp ==> n.res is None, n.kind is Pure ==> *l.id is Structural,
    ensures inv(put_node(v, l, n)), guar(v, put_node(v, l, n)),
{
    reveal(core); reveal(guar);
    let w = put_node(v, l, n);
    assert forall|q: Loc| #[trigger] onstack(w, q) == onstack(v, q) by {}
    assert forall|q: Loc| #[trigger] has(w, q) == (has(v, q) || q == l) by {}
    assert(!onstack(v, l)) by { if onstack(v, l) { let i = choose|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == l; assert(has(v, v.s[i].loc)); } }
    assert forall|q: Loc| q != l implies #[trigger] comp_off(w, q) == comp_off(v, q) by {}
    assert forall|q: Loc| #[trigger] clean(v, q) implies clean(w, q) by { assert(has(w, q)); }
    assert forall|q: Loc, d: Dep| q != l implies #[trigger] accepts(w, q, d) == accepts(v, q, d) by {}
    assert(w1(w)) by { assert forall|q: Loc, k: int| comp_off(w, q) && 0 <= k < w.t[q].succs.len() implies edge_wf(w, q, #[trigger] w.t[q].succs[k]) by { assert(comp_off(v, q)); let e = v.t[q].succs[k]; assert(edge_wf(v, q, e)); assert(has(w, e.loc)); assert(mirrored(w, q, e)); } }
    assert(w2(w)) by { assert forall|m: Loc, p: P| has(w, m) && #[trigger] w.t[m].preds.contains(p) implies comp_off(w, p.loc) && has_key(w.t[p.loc].succs, p.eff, m) by { assert(has(v, m)); assert(v.t[m].preds.contains(p)); assert(comp_off(v, p.loc)); } }
    assert(w3(w)) by { assert forall|i: int| 0 <= i < w.s.len() implies has(w, (#[trigger] w.s[i]).loc) && w.t[w.s[i].loc].kind is Comp && w.t[w.s[i].loc].succs.len() == 0 by { assert(has(v, v.s[i].loc)); assert(onstack(v, v.s[i].loc)); } }
    assert(w5(w)) by { assert forall|q: Loc| #[trigger] has(w, q) && w.t[q].kind is Pure implies *q.id is Structural by { if q != l { assert(has(v, q)); } } }
    assert(s1(w)) by { assert forall|q: Loc| #[trigger] comp_off(w, q) && w.t[q].res is Some implies ran(w.t[q].producer, *q.path, w.t[q].succs, w.t[q].res->0) by { assert(q != l); assert(comp_off(v, q)); } }
    assert(d1(w)) by {
        assert forall|q: Loc| #[trigger] w.gh.d.contains(q) implies w.gh.a.contains(q) && clean(w, q) by { assert(v.gh.d.contains(q)); assert(clean(v, q)); }
        assert forall|q: Loc, k: int| w.gh.d.contains(q) && w.t[q].kind is Comp && 0 <= k < w.t[q].succs.len() implies relied(w, #[trigger] w.t[q].succs[k]) by { assert(v.gh.d.contains(q)); assert(clean(v, q)); assert(relied(v, v.t[q].succs[k])); }
        assert forall|q: Loc| #[trigger] w.gh.a.contains(q) implies has(w, q) by { assert(v.gh.a.contains(q)); assert(has(v, q)); }
    }
    assert(d2(w)) by { assert forall|i: int| 0 <= i < w.s.len() implies frame_ok(w, #[trigger] w.s[i]) by { let f = v.s[i]; assert(frame_ok(v, f));
        assert forall|j: int| 0 <= j < f.succs.len() implies fe_ok(w, f.loc, #[trigger] f.succs[j]) by { assert(fe_ok(v, f.loc, f.succs[j])); assert(has(w, f.succs[j].e.loc)); } } }
    assert(b1(w)) by { assert forall|q: Loc| #[trigger] w.gh.b.contains(q) implies comp_off(w, q) && w.t[q].res is Some by { assert(v.gh.b.contains(q)); assert(comp_off(v, q)); } }
    assert(all_marked(w)) by { assert forall|q: Loc, k: int| !#[trigger] bad(w, q, k) by { if bad(w, q, k) { assert(q != l); assert(comp_off(v, q)); assert(!bad(v, q, k)); let e = v.t[q].succs[k]; assert(edge_wf(v, q, e)); } } }
    assert(guar(v, w)) by {
        assert(same_stack(v, w)) by { if v.s.len() > 0 { assert(prefix(v.s.last().succs, w.s.last().succs)); } }
        assert forall|q: Loc| #[trigger] has(v, q) implies has(w, q) by {}
        assert forall|q: Loc| #[trigger] v.gh.a.contains(q) implies w.gh.a.contains(q) && same_content(v.t[q], w.t[q]) by { assert(has(v, q)); }
        assert forall|q: Loc| #[trigger] busy(v, q) implies kept(v, w, q) by { if v.gh.b.contains(q) { assert(comp_off(v, q)); } }
    }
}
/// the running computation records an edge
pub open spec fn pushed(v: V, x: FE) -> V { V { s: v.s.drop_last().push(Fr { loc: v.s.last().loc, succs: v.s.last().succs.push(x) }), ..v } }
pub proof fn pushed_inv(v: V, x: FE)
    requires inv(v), v.s.len() > 0, fe_ok(v, v.s.last().loc, x),
    ensures inv(pushed(v, x)), guar(v, pushed(v, x)), pushed(v, x).s.len() == v.s.len(), forall|l: Loc| clean(pushed(v, x), l) == #[trigger] clean(v, l),
{
    reveal(core); reveal(guar);
    let w = pushed(v, x); let n = v.s.len() - 1;
    assert forall|i: int| 0 <= i < v.s.len() implies (#[trigger] w.s[i]).loc == v.s[i].loc && (i < n ==> w.s[i] == v.s[i]) by {}
    assert(same_stack(v, w)) by { let a = v.s.last().succs; assert(w.s.last().succs == a.push(x)); assert(prefix(a, a.push(x))); }
    same_on(v, w);
    assert forall|q: Loc| #[trigger] comp_off(w, q) == comp_off(v, q) by { assert(onstack(w, q) == onstack(v, q)); }
    assert forall|q: Loc| clean(w, q) == #[trigger] clean(v, q) by { assert(onstack(w, q) == onstack(v, q)); }
    assert forall|q: Loc, d: Dep| #[trigger] accepts(w, q, d) == accepts(v, q, d) by {}
    assert(w1(w)) by { assert forall|q: Loc, k: int| comp_off(w, q) && 0 <= k < w.t[q].succs.len() implies edge_wf(w, q, #[trigger] w.t[q].succs[k]) by { assert(comp_off(v, q)); assert(edge_wf(v, q, v.t[q].succs[k])); } }
    assert(w2(w)) by { assert forall|m: Loc, p: P| has(w, m) && #[trigger] w.t[m].preds.contains(p) implies comp_off(w, p.loc) && has_key(w.t[p.loc].succs, p.eff, m) by { assert(has(v, m)); assert(comp_off(v, p.loc)); } }
    assert(w3(w)) by {
        assert forall|i: int| 0 <= i < w.s.len() implies has(w, (#[trigger] w.s[i]).loc) && w.t[w.s[i].loc].kind is Comp && w.t[w.s[i].loc].succs.len() == 0 by { assert(has(v, v.s[i].loc)); }
        assert forall|i: int, j: int| 0 <= i < w.s.len() && 0 <= j < w.s.len() && i != j implies (#[trigger] w.s[i]).loc != (#[trigger] w.s[j]).loc by { assert(v.s[i].loc != v.s[j].loc); }
    }
    assert(w5(w)) by { assert forall|q: Loc| #[trigger] has(w, q) && w.t[q].kind is Pure implies *q.id is Structural by { assert(has(v, q)); } }
    assert(s1(w)) by { assert forall|q: Loc| #[trigger] comp_off(w, q) && w.t[q].res is Some implies ran(w.t[q].producer, *q.path, w.t[q].succs, w.t[q].res->0) by { assert(comp_off(v, q)); } }
    assert(d1(w)) by {
        assert forall|q: Loc| #[trigger] w.gh.d.contains(q) implies w.gh.a.contains(q) && clean(w, q) by { assert(v.gh.d.contains(q)); assert(clean(v, q)); }
        assert forall|q: Loc, k: int| w.gh.d.contains(q) && w.t[q].kind is Comp && 0 <= k < w.t[q].succs.len() implies relied(w, #[trigger] w.t[q].succs[k]) by { assert(relied(v, v.t[q].succs[k])); }
        assert forall|q: Loc| #[trigger] w.gh.a.contains(q) implies has(w, q) by { assert(v.gh.a.contains(q)); assert(has(v, q)); }
    }
    assert(d2(w)) by { assert forall|i: int| 0 <= i < w.s.len() implies frame_ok(w, #[trigger] w.s[i]) by { let f = v.s[i]; assert(frame_ok(v, f)); let g = w.s[i];
        assert forall|j: int| 0 <= j < g.succs.len() implies fe_ok(w, g.loc, #[trigger] g.succs[j]) by { if j < f.succs.len() { assert(g.succs[j] == f.succs[j]); assert(fe_ok(v, f.loc, f.succs[j])); } else { assert(g.succs[j] == x); assert(fe_ok(v, v.s.last().loc, x)); } } } }
    assert(b1(w)) by { assert forall|q: Loc| #[trigger] w.gh.b.contains(q) implies comp_off(w, q) && w.t[q].res is Some by { assert(comp_off(v, q)); } }
    assert(all_marked(w)) by { assert forall|q: Loc, k: int| !#[trigger] bad(w, q, k) by { if bad(w, q, k) { assert(!bad(v, q, k)); } } }
    assert forall|q: Loc| #[trigger] busy(v, q) implies kept(v, w, q) by {}
}
/// a cell takes the place of a thunk
pub open spec fn comp_to_mut(v: V, l: Loc, x: Val) -> V {
    V { t: rm_preds(v.t, l, v.t[l].succs).insert(l, N { kind: Kind::Mut, preds: v.t[l].preds, succs: Seq::empty(), dirty: ISet::empty(), producer: arbitrary(), res: None, val: x }), ..v }
}
pub proof fn comp_to_mut_inv(v: V, l: Loc, x: Val)
    requires inv(v), comp_off(v, l), marked_at(v, Effect::Observe, l), marked_at(v, Effect::Allocate, l), !v.gh.a.contains(l), !v.gh.b.contains(l),
    ensures inv(comp_to_mut(v, l, x)),
{
    reveal(core);
    let w = comp_to_mut(v, l, x); let es0 = v.t[l].succs;
    assert(!v.gh.d.contains(l));
    assert forall|q: Loc| #[trigger] onstack(w, q) == onstack(v, q) by {}
    assert forall|q: Loc| #[trigger] has(w, q) == has(v, q) by {}
    assert forall|q: Loc| #[trigger] comp_off(w, q) == (q != l && comp_off(v, q)) by { assert(has(w, q) == has(v, q)); }
    assert forall|q: Loc| q != l && has(v, q) implies w.t[q] == (N { preds: w.t[q].preds, ..#[trigger] v.t[q] }) by {}
    assert forall|q: Loc| q != l && #[trigger] clean(v, q) implies clean(w, q) by { assert(has(w, q)); assert(w.t[q] == (N { preds: w.t[q].preds, ..v.t[q] })); }
    assert forall|q: Loc, d: Dep| q != l && has(v, q) implies #[trigger] accepts(w, q, d) == accepts(v, q, d) by {}
    assert(w1(w)) by { assert forall|q: Loc, k: int| comp_off(w, q) && 0 <= k < w.t[q].succs.len() implies edge_wf(w, q, #[trigger] w.t[q].succs[k]) by { assert(comp_off(v, q)); assert(has(v, q)); let e = v.t[q].succs[k]; assert(edge_wf(v, q, e)); assert(has(w, e.loc)); assert(has(v, e.loc)); assert(mirrored(w, q, e)); } }
    assert(w2(w)) by { assert forall|m: Loc, p: P| has(w, m) && #[trigger] w.t[m].preds.contains(p) implies comp_off(w, p.loc) && has_key(w.t[p.loc].succs, p.eff, m) by { assert(has(v, m)); assert(v.t[m].preds.contains(p)); assert(comp_off(v, p.loc)); assert(has(v, p.loc));
        if p.loc == l { let k = choose|k: int| 0 <= k < es0.len() && (#[trigger] es0[k]).eff == p.eff && es0[k].loc == m; assert(edge_wf(v, l, es0[k])); assert(tgt(es0, m)); } } }
    assert(w3(w)) by { assert forall|i: int| 0 <= i < w.s.len() implies has(w, (#[trigger] w.s[i]).loc) && w.t[w.s[i].loc].kind is Comp && w.t[w.s[i].loc].succs.len() == 0 by { assert(has(v, v.s[i].loc)); assert(onstack(v, v.s[i].loc)); } }
    assert(w5(w)) by { assert forall|q: Loc| #[trigger] has(w, q) && w.t[q].kind is Pure implies *q.id is Structural by { assert(has(v, q)); } }
    assert(s1(w)) by { assert forall|q: Loc| #[trigger] comp_off(w, q) && w.t[q].res is Some implies ran(w.t[q].producer, *q.path, w.t[q].succs, w.t[q].res->0) by { assert(q != l); assert(comp_off(v, q)); assert(has(v, q)); } }
    assert(d1(w)) by {
        assert forall|q: Loc| #[trigger] w.gh.d.contains(q) implies w.gh.a.contains(q) && clean(w, q) by { assert(v.gh.d.contains(q)); assert(clean(v, q)); }
        assert forall|q: Loc, k: int| w.gh.d.contains(q) && w.t[q].kind is Comp && 0 <= k < w.t[q].succs.len() implies relied(w, #[trigger] w.t[q].succs[k]) by { assert(v.gh.d.contains(q)); assert(clean(v, q)); assert(has(v, q)); assert(relied(v, v.t[q].succs[k])); }
        assert forall|q: Loc| #[trigger] w.gh.a.contains(q) implies has(w, q) by { assert(v.gh.a.contains(q)); assert(has(v, q)); }
    }
    assert(d2(w)) by { assert forall|i: int| 0 <= i < w.s.len() implies frame_ok(w, #[trigger] w.s[i]) by { let f = v.s[i]; assert(frame_ok(v, f));
        assert forall|j: int| 0 <= j < f.succs.len() implies fe_ok(w, f.loc, #[trigger] f.succs[j]) by { assert(fe_ok(v, f.loc, f.succs[j])); assert(has(v, f.succs[j].e.loc)); assert(has(w, f.succs[j].e.loc)); if f.succs[j].e.eff is Observe { assert(v.gh.d.contains(f.succs[j].e.loc)); } } } }
    assert(b1(w)) by { assert forall|q: Loc| #[trigger] w.gh.b.contains(q) implies comp_off(w, q) && w.t[q].res is Some by { assert(v.gh.b.contains(q)); assert(comp_off(v, q)); assert(has(v, q)); } }
    assert(all_marked(w)) by { assert forall|q: Loc, k: int| !#[trigger] bad(w, q, k) by { if bad(w, q, k) { assert(q != l); assert(comp_off(v, q)); assert(has(v, q)); assert(!bad(v, q, k)); let e = v.t[q].succs[k]; assert(w.t[q].succs[k] == e); assert(edge_wf(v, q, e)); assert(has(v, e.loc));
        if e.loc == l { assert(unmarked(v, q, k)); } } } }
}

pub proof fn dirtied_guar(v: V, w: V)
    requires core(v), dirtied(v, w),
    ensures guar(v, w),
{
    reveal(core); reveal(guar); reveal(dirtied);
    assert(same_stack(v, w)) by { if v.s.len() > 0 { assert(prefix(v.s.last().succs, w.s.last().succs)); } }
    assert forall|q: Loc| #[trigger] has(v, q) implies has(w, q) by {}
    assert forall|q: Loc| #[trigger] v.gh.a.contains(q) implies w.gh.a.contains(q) && same_content(v.t[q], w.t[q]) by { assert(has(v, q)); }
    assert forall|q: Loc| #[trigger] v.gh.d.contains(q) && v.t[q].kind is Comp implies w.t[q].kind is Comp && w.t[q].res == v.t[q].res && w.t[q].succs == v.t[q].succs by { assert(clean(v, q)); assert(has(v, q)); }
    assert forall|q: Loc| #[trigger] busy(v, q) implies kept(v, w, q) by { if v.gh.b.contains(q) { assert(comp_off(v, q)); } else { let i = choose|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == q; assert(has(v, v.s[i].loc)); } assert(has(v, q)); }
}
pub proof fn recontent_guar(v: V, l: Loc, n: N)
    requires core(v), !v.gh.a.contains(l), !busy(v, l),
    ensures guar(v, put_node(v, l, n)),
{
    reveal(core); reveal(guar);
    let w = put_node(v, l, n);
    assert(same_stack(v, w)) by { if v.s.len() > 0 { assert(prefix(v.s.last().succs, w.s.last().succs)); } }
    assert(!v.gh.d.contains(l));
}
pub proof fn comp_to_mut_guar(v: V, l: Loc, x: Val)
    requires core(v), !v.gh.a.contains(l), !busy(v, l),
    ensures guar(v, comp_to_mut(v, l, x)),
{
    reveal(core); reveal(guar);
    let w = comp_to_mut(v, l, x);
    assert(same_stack(v, w)) by { if v.s.len() > 0 { assert(prefix(v.s.last().succs, w.s.last().succs)); } }
    assert(!v.gh.d.contains(l));
    assert forall|q: Loc| q != l && has(v, q) implies w.t[q] == (N { preds: w.t[q].preds, ..#[trigger] v.t[q] }) by {}
    assert forall|q: Loc| #[trigger] v.gh.a.contains(q) implies w.gh.a.contains(q) && same_content(v.t[q], w.t[q]) by { assert(has(v, q)); }
    assert forall|q: Loc| #[trigger] v.gh.d.contains(q) && v.t[q].kind is Comp implies w.t[q].kind is Comp && w.t[q].res == v.t[q].res && w.t[q].succs == v.t[q].succs by { assert(clean(v, q)); assert(has(v, q)); }
    assert forall|q: Loc| #[trigger] busy(v, q) implies kept(v, w, q) by { if v.gh.b.contains(q) { assert(comp_off(v, q)); } else { let i = choose|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == q; assert(has(v, v.s[i].loc)); } assert(has(v, q)); }
}
/// after changing the content of `l` and marking its dependents, everything is marked
pub proof fn content_marked(v: V, l: Loc, n: N, w: V)
    requires inv(v), recontent(v, l, n), core(w), dirtied(put_node(v, l, n), w), !bad_at(w, Effect::Observe, l), marked_at(w, Effect::Allocate, l),
        forall|x: Effect, m: Loc| #[trigger] bad_at(w, x, m) ==> bad_at(put_node(v, l, n), x, m),
    ensures inv(w), guar(v, w), has(w, l), w.t[l] == (N { dirty: w.t[l].dirty, ..n }),
{
    let u = put_node(v, l, n);
    recontent_core(v, l, n); recontent_guar(v, l, n); dirtied_guar(u, w); guar_trans(v, u, w); marked_not_bad(w, Effect::Allocate, l); dirtied_at(u, w, l);
    assert forall|q: Loc, k: int| !#[trigger] bad(w, q, k) by {
        if bad(w, q, k) {
            let e = w.t[q].succs[k].eff; let m = w.t[q].succs[k].loc;
            assert(bad_at(w, e, m)); assert(bad_at(u, e, m)); assert(bad_at(v, e, m) || m == l);
            if m != l { let (a, b) = choose|a: Loc, b: int| #[trigger] bad(v, a, b) && key(v.t[a].succs[b]) == (e, m); }
            else { if e is Observe {} else {} }
        }
    }
}
/// a cell's new value
pub open spec fn with_val(v: V, l: Loc, x: Val) -> N { N { val: x, ..v.t[l] } }
