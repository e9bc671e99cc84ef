// ================= checking the dependencies of a result, in order
pub open spec fn set_b(w: V, b: ISet<Loc>) -> V { V { gh: Gh { b: b, ..w.gh }, ..w } }
pub proof fn set_b_inv(w: V, b: ISet<Loc>)
    requires inv(w), forall|l: Loc| #[trigger] b.contains(l) ==> comp_off(w, l) && w.t[l].res is Some,
    ensures inv(set_b(w, b)), forall|l: Loc| clean(set_b(w, b), l) == #[trigger] clean(w, l),
{
    reveal(core); let x = set_b(w, b);
    assert forall|l: Loc| #[trigger] onstack(x, l) == onstack(w, l) by {}
    assert forall|l: Loc| #[trigger] comp_off(x, l) == comp_off(w, l) by {}
    assert forall|l: Loc| clean(x, l) == #[trigger] clean(w, l) by {}
    assert forall|l: Loc, d: Dep| #[trigger] accepts(x, l, d) == accepts(w, l, d) by {}
    assert(w1(x)) by { assert forall|l: Loc, k: int| comp_off(x, l) && 0 <= k < x.t[l].succs.len() implies edge_wf(x, l, #[trigger] x.t[l].succs[k]) by { assert(comp_off(w, l)); assert(edge_wf(w, l, w.t[l].succs[k])); } }
    assert(w2(x)) by { assert forall|m: Loc, p: P| has(x, m) && #[trigger] x.t[m].preds.contains(p) implies comp_off(x, p.loc) && has_key(x.t[p.loc].succs, p.eff, m) by { assert(has(w, m)); assert(comp_off(w, p.loc)); } }
    assert(w3(x));
    assert(w5(x)) by { assert forall|l: Loc| #[trigger] has(x, l) && x.t[l].kind is Pure implies *l.id is Structural by { assert(has(w, l)); } }
    assert(s1(x)) by { assert forall|l: Loc| #[trigger] comp_off(x, l) && x.t[l].res is Some implies ran(x.t[l].producer, *l.path, x.t[l].succs, x.t[l].res->0) by { assert(comp_off(w, l)); } }
    assert(d1(x)) by {
        assert forall|l: Loc| #[trigger] x.gh.d.contains(l) implies x.gh.a.contains(l) && clean(x, l) by { assert(w.gh.d.contains(l)); assert(clean(w, l)); }
        assert forall|l: Loc, k: int| x.gh.d.contains(l) && x.t[l].kind is Comp && 0 <= k < x.t[l].succs.len() implies relied(x, #[trigger] x.t[l].succs[k]) by { assert(relied(w, w.t[l].succs[k])); }
        assert forall|l: Loc| #[trigger] x.gh.a.contains(l) implies has(x, l) by { assert(w.gh.a.contains(l)); assert(has(w, l)); }
    }
    assert(d2(x)) by { assert forall|i: int| 0 <= i < x.s.len() implies frame_ok(x, #[trigger] x.s[i]) by { assert(frame_ok(w, w.s[i]));
        assert forall|j: int| 0 <= j < x.s[i].succs.len() implies fe_ok(x, x.s[i].loc, #[trigger] x.s[i].succs[j]) by { assert(fe_ok(w, w.s[i].loc, w.s[i].succs[j])); } } }
    assert(b1(x)) by { assert forall|l: Loc| #[trigger] x.gh.b.contains(l) implies comp_off(x, l) && x.t[l].res is Some by { assert(b.contains(l)); } }
    assert(all_marked(x)) by { assert forall|l: Loc, k: int| !#[trigger] bad(x, l, k) by { assert(!bad(w, l, k)); } }
}
pub proof fn b_facts(w: V, l: Loc)
    requires core(w), w.gh.b.contains(l),
    ensures comp_off(w, l), w.t[l].res is Some, forall|m: Loc| #[trigger] w.gh.b.contains(m) ==> comp_off(w, m) && w.t[m].res is Some,
{ reveal(core); assert(comp_off(w, l)); }
pub proof fn b_all(w: V)
    requires core(w),
    ensures forall|m: Loc| #[trigger] w.gh.b.contains(m) ==> comp_off(w, m) && w.t[m].res is Some,
{ reveal(core); }
pub proof fn guar_less(v: V, w: V, b: ISet<Loc>)
    requires guar(v, w), forall|l: Loc| #[trigger] b.contains(l) ==> v.gh.b.contains(l),
    ensures guar(set_b(v, b), set_b(w, b)),
{
    reveal(guar);
    let x = set_b(v, b); let y = set_b(w, b);
    assert(same_stack(x, y));
    assert forall|q: Loc| #[trigger] has(x, q) implies has(y, q) by { assert(has(v, q)); }
    assert forall|q: Loc| #[trigger] x.gh.d.contains(q) implies y.gh.d.contains(q) by { assert(v.gh.d.contains(q)); }
    assert forall|q: Loc| #[trigger] x.gh.a.contains(q) implies y.gh.a.contains(q) && same_content(x.t[q], y.t[q]) by { assert(v.gh.a.contains(q)); }
    assert forall|q: Loc| #[trigger] x.gh.d.contains(q) && x.t[q].kind is Comp implies y.t[q].kind is Comp && y.t[q].res == x.t[q].res && y.t[q].succs == x.t[q].succs by { assert(v.gh.d.contains(q)); }
    assert forall|q: Loc| #[trigger] busy(x, q) implies kept(x, y, q) by { assert(onstack(x, q) == onstack(v, q)); assert(busy(v, q)); assert(kept(v, w, q));
        assert forall|k: int| 0 <= k < x.t[q].succs.len() && relied(x, #[trigger] x.t[q].succs[k]) implies (bit(y.t[q], x.t[q].succs[k]) <==> bit(x.t[q], x.t[q].succs[k])) by { assert(relied(v, v.t[q].succs[k])); } }
}
/// all the dependencies that share a dirty bit have been checked
pub proof fn clear_inv(w: V, l: Loc, e: Effect, m: Loc)
    requires inv(w), comp_off(w, l), forall|k: int| 0 <= k < w.t[l].succs.len() && key(#[trigger] w.t[l].succs[k]) == (e, m) ==> solid(w, w.t[l].succs[k]),
    ensures inv(with_bit(w, l, e, m, false)), forall|q: Loc| #[trigger] clean(w, q) ==> clean(with_bit(w, l, e, m, false), q),
{
    reveal(core);
    let x = with_bit(w, l, e, m, false);
    assert forall|q: Loc| #[trigger] onstack(x, q) == onstack(w, q) by {}
    assert forall|q: Loc| #[trigger] has(x, q) == has(w, q) by {}
    assert forall|q: Loc| #[trigger] comp_off(x, q) == comp_off(w, q) by { assert(has(x, q) == has(w, q)); }
    assert forall|q: Loc| has(w, q) implies x.t[q] == (N { dirty: x.t[q].dirty, ..#[trigger] w.t[q] }) by {}
    assert forall|q: Loc| #[trigger] clean(w, q) implies clean(x, q) by { assert(has(x, q)); assert(x.t[q] == (N { dirty: x.t[q].dirty, ..w.t[q] })); }
    assert forall|q: Loc, d: Dep| #[trigger] accepts(x, q, d) == accepts(w, q, d) by {}
    assert(w1(x)) by { assert forall|q: Loc, k: int| comp_off(x, q) && 0 <= k < x.t[q].succs.len() implies edge_wf(x, q, #[trigger] x.t[q].succs[k]) by { assert(comp_off(w, q)); let f = w.t[q].succs[k]; assert(edge_wf(w, q, f)); assert(has(x, f.loc)); assert(mirrored(x, q, f)); } }
    assert(w2(x)) by { assert forall|n: Loc, p: P| has(x, n) && #[trigger] x.t[n].preds.contains(p) implies comp_off(x, p.loc) && has_key(x.t[p.loc].succs, p.eff, n) by { assert(has(w, n)); assert(w.t[n].preds.contains(p)); assert(comp_off(w, p.loc)); } }
    assert(w3(x)) by { assert forall|i: int| 0 <= i < x.s.len() implies has(x, (#[trigger] x.s[i]).loc) && x.t[x.s[i].loc].kind is Comp && x.t[x.s[i].loc].succs.len() == 0 by { assert(has(w, w.s[i].loc)); } }
    assert(w5(x)) by { assert forall|q: Loc| #[trigger] has(x, q) && x.t[q].kind is Pure implies *q.id is Structural by { assert(has(w, q)); } }
    assert(s1(x)) by { assert forall|q: Loc| #[trigger] comp_off(x, q) && x.t[q].res is Some implies ran(x.t[q].producer, *q.path, x.t[q].succs, x.t[q].res->0) by { assert(comp_off(w, q)); } }
    assert(d1(x)) by {
        assert forall|q: Loc| #[trigger] x.gh.d.contains(q) implies x.gh.a.contains(q) && clean(x, q) by { assert(w.gh.d.contains(q)); assert(clean(w, q)); }
        assert forall|q: Loc, k: int| x.gh.d.contains(q) && x.t[q].kind is Comp && 0 <= k < x.t[q].succs.len() implies relied(x, #[trigger] x.t[q].succs[k]) by { assert(w.gh.d.contains(q)); assert(clean(w, q)); assert(relied(w, w.t[q].succs[k])); }
        assert forall|q: Loc| #[trigger] x.gh.a.contains(q) implies has(x, q) by { assert(w.gh.a.contains(q)); assert(has(w, q)); }
    }
    assert(d2(x)) by { assert forall|i: int| 0 <= i < x.s.len() implies frame_ok(x, #[trigger] x.s[i]) by { let f = w.s[i]; assert(frame_ok(w, f));
        assert forall|j: int| 0 <= j < f.succs.len() implies fe_ok(x, f.loc, #[trigger] f.succs[j]) by { assert(fe_ok(w, f.loc, f.succs[j])); assert(has(x, f.succs[j].e.loc)); } } }
    assert(b1(x)) by { assert forall|q: Loc| #[trigger] x.gh.b.contains(q) implies comp_off(x, q) && x.t[q].res is Some by { assert(w.gh.b.contains(q)); assert(comp_off(w, q)); } }
    assert(all_marked(x)) by { assert forall|q: Loc, k: int| !#[trigger] bad(x, q, k) by { if bad(x, q, k) { assert(comp_off(w, q)); assert(!bad(w, q, k)); let f = w.t[q].succs[k]; assert(x.t[q].succs[k] == f); if q == l && key(f) == (e, m) { assert(solid(w, f)); } else { assert(!bit(w.t[q], f)); assert(solid(w, f)); } } } }
}
pub proof fn guar_clear(v: V, w: V, l: Loc, e: Effect, m: Loc)
    requires guar(v, w), has(w, l), !busy(v, l),
    ensures guar(v, with_bit(w, l, e, m, false)),
{
    reveal(guar);
    let x = with_bit(w, l, e, m, false);
    assert forall|q: Loc| has(w, q) implies x.t[q] == (N { dirty: x.t[q].dirty, ..#[trigger] w.t[q] }) by {}
    assert forall|q: Loc| #[trigger] has(v, q) implies has(x, q) by { assert(has(w, q)); }
}
pub open spec fn later_key(s: Seq<E>, i: int, k: (Effect, Loc)) -> bool { exists|m: int| i <= m < s.len() && key(#[trigger] s[m]) == k }
/// what is known when the first `i` dependencies have been checked
pub open spec fn checked(v0: V, w: V, l: Loc, i: int) -> bool {
    let es0 = v0.t[l].succs;
    &&& inv(w) && w.gh.b == v0.gh.b.insert(l) && guar(v0, set_b(w, v0.gh.b)) && w.s == v0.s
    &&& comp_off(w, l) && w.t[l].res == v0.t[l].res && w.t[l].succs == es0
    &&& forall|j: int| 0 <= j < i ==> relied(w, #[trigger] es0[j]) && accepts(w, es0[j].loc, es0[j].dep)
    &&& forall|j: int| 0 <= j < i && bit(w.t[l], #[trigger] es0[j]) ==> later_key(es0, i, key(es0[j]))
}
pub proof fn checked_start(v0: V, l: Loc)
    requires inv(v0), comp_off(v0, l), v0.t[l].res is Some, low(v0, l),
    ensures checked(v0, set_b(v0, v0.gh.b.insert(l)), l, 0), !v0.gh.b.contains(l), !onstack(v0, l),
{
    b_all(v0); let w = set_b(v0, v0.gh.b.insert(l)); set_b_inv(v0, v0.gh.b.insert(l));
    assert(set_b(w, v0.gh.b) == v0); guar_refl(v0);
    assert(onstack(w, l) == onstack(v0, l));
}
/// after the next dependency has been checked, and found unchanged
pub open spec fn edge_checked(v0: V, w: V, l: Loc, i: int) -> bool {
    let es0 = v0.t[l].succs;
    &&& inv(w) && w.gh.b == v0.gh.b.insert(l) && guar(v0, set_b(w, v0.gh.b)) && w.s == v0.s
    &&& comp_off(w, l) && w.t[l].res == v0.t[l].res && w.t[l].succs == es0
    &&& forall|j: int| 0 <= j < i ==> relied(w, #[trigger] es0[j]) && accepts(w, es0[j].loc, es0[j].dep)
    &&& solid(w, es0[i])
    &&& forall|j: int| 0 <= j < i && bit(w.t[l], #[trigger] es0[j]) ==> later_key(es0, i, key(es0[j]))
    &&& bit(w.t[l], es0[i]) ==> later_key(es0, i + 1, key(es0[i]))
}
pub proof fn checked_step(v0: V, w0: V, w: V, l: Loc, i: int)
    requires 0 <= i < v0.t[l].succs.len(), checked(v0, w0, l, i), inv(w), guar(w0, w), w.s == w0.s, solid(w, v0.t[l].succs[i]), comp_off(v0, l), low(v0, l),
        bit(w0.t[l], v0.t[l].succs[i]) || w == w0,
    ensures
        // the bit is still needed
        later_key(v0.t[l].succs, i + 1, key(v0.t[l].succs[i])) || !bit(w.t[l], v0.t[l].succs[i]) ==> edge_checked(v0, w, l, i),
        // it is not
        !later_key(v0.t[l].succs, i + 1, key(v0.t[l].succs[i])) ==> edge_checked(v0, with_bit(w, l, v0.t[l].succs[i].eff, v0.t[l].succs[i].loc, false), l, i),
        comp_off(w, l), w.t[l].succs == v0.t[l].succs, has_key(w.t[l].succs, v0.t[l].succs[i].eff, v0.t[l].succs[i].loc),
{
    let es0 = v0.t[l].succs; let e = es0[i]; let b = v0.gh.b;
    guar_at(w0, w, l); b_facts(w, l);
    assert(kept(w0, w, l));
    guar_less(w0, w, b); guar_trans(v0, set_b(w0, b), set_b(w, b));
    out_facts(w, l); out_facts(w0, l);
    assert forall|j: int| 0 <= j < i implies relied(w, #[trigger] es0[j]) && accepts(w, es0[j].loc, es0[j].dep) && solid(w, es0[j]) && (bit(w.t[l], es0[j]) == bit(w0.t[l], es0[j])) by {
        assert(edge_wf(w0, l, w0.t[l].succs[j])); relied_accepts(w0, w, es0[j]); assert(relied(w0, w0.t[l].succs[j]));
    }
    assert(w.t[l].succs[i] == e);
    assert(has_key(w.t[l].succs, e.eff, e.loc));
    if !later_key(es0, i + 1, key(e)) {
        let x = with_bit(w, l, e.eff, e.loc, false);
        assert forall|k: int| 0 <= k < w.t[l].succs.len() && key(#[trigger] w.t[l].succs[k]) == key(e) implies solid(w, w.t[l].succs[k]) by {
            if k > i { assert(key(es0[k]) == key(e)); assert(later_key(es0, i + 1, key(e))); } else if k < i { assert(solid(w, es0[k])); }
        }
        clear_inv(w, l, e.eff, e.loc);
        assert(!busy(v0, l)) by { if onstack(v0, l) {} if v0.gh.b.contains(l) { assert(rank(l) < rank(l)); } }
        assert(has(w, l));
        guar_clear(v0, set_b(w, b), l, e.eff, e.loc);
        assert(set_b(x, b) == with_bit(set_b(w, b), l, e.eff, e.loc, false));
        assert(onstack(x, l) == onstack(w, l));
        assert(comp_off(x, l));
        assert forall|j: int| 0 <= j < i implies relied(x, #[trigger] es0[j]) && accepts(x, es0[j].loc, es0[j].dep) by { assert(relied(w, es0[j])); }
        assert(solid(x, e)) by { assert(edge_wf(w, l, e)); }
        assert(edge_checked(v0, x, l, i));
    }
}
/// the dependency is now relied on
pub proof fn checked_next(v0: V, w: V, l: Loc, i: int)
    requires 0 <= i < v0.t[l].succs.len(), edge_checked(v0, w, l, i), 
    ensures checked(v0, rely_on(w, v0.t[l].succs[i]), l, i + 1),
{
    let es0 = v0.t[l].succs; let e = es0[i]; let b = v0.gh.b; let x = rely_on(w, e);
    out_facts(w, l); assert(edge_wf(w, l, w.t[l].succs[i]));
    if e.eff is Observe { rely_ok(w, e.loc); } else { rely_alloc_ok(w, e.loc); }
    guar_less(w, x, b); guar_trans(v0, set_b(w, b), set_b(x, b));
    assert(onstack(x, l) == onstack(w, l));
    guar_at(w, x, l);
    assert forall|j: int| 0 <= j < i + 1 implies relied(x, #[trigger] es0[j]) && accepts(x, es0[j].loc, es0[j].dep) by {
        if j < i { assert(relied(w, es0[j])); guar_at(w, x, es0[j].loc); assert(accepts(w, es0[j].loc, es0[j].dep)); }
    }
    assert forall|j: int| 0 <= j < i + 1 && bit(x.t[l], #[trigger] es0[j]) implies later_key(es0, i + 1, key(es0[j])) by {
        if j < i {
            assert(bit(w.t[l], es0[j]));
            let m = choose|m: int| i <= m < es0.len() && key(#[trigger] es0[m]) == key(es0[j]);
            if m == i { assert(bit(w.t[l], es0[i])); } else { assert(later_key(es0, i + 1, key(es0[j]))); }
        }
    }
}
pub proof fn checked_all(v0: V, w: V, l: Loc)
    requires checked(v0, w, l, v0.t[l].succs.len() as int), v0.t[l].res is Some, inv(v0),
    ensures ({ let x = set_b(w, v0.gh.b); inv(x) && guar(v0, x) && clean(x, l) && x.s == v0.s && x.t[l].res == v0.t[l].res && x.t[l].kind is Comp }),
{
    b_facts(w, l); let x = set_b(w, v0.gh.b);
    assert forall|m: Loc| #[trigger] v0.gh.b.contains(m) implies comp_off(w, m) && w.t[m].res is Some by { assert(w.gh.b.contains(m)); }
    set_b_inv(w, v0.gh.b);
    assert forall|k: int| 0 <= k < w.t[l].succs.len() implies !bit(w.t[l], #[trigger] w.t[l].succs[k]) by { let e = v0.t[l].succs[k]; }
    assert(clean(w, l));
}
/// a change was found: the computation runs again
pub proof fn checked_changed(v0: V, w0: V, w: V, l: Loc, i: int)
    requires 0 <= i < v0.t[l].succs.len(), checked(v0, w0, l, i), inv(w), guar(w0, w), w.s == w0.s, bit(w0.t[l], v0.t[l].succs[i]), changed_dep(w, v0.t[l].succs[i]), low(v0, l),
    ensures ({ let x = set_b(w, v0.gh.b); inv(x) && guar(v0, x) && x.s == v0.s && comp_off(x, l) && !clean(x, l) && reason(x, l) && low(x, l) }),
{
    let b = v0.gh.b; let x = set_b(w, b);
    guar_at(w0, w, l); b_facts(w, l);
    assert forall|m: Loc| #[trigger] b.contains(m) implies comp_off(w, m) && w.t[m].res is Some by { assert(w.gh.b.contains(m)); }
    set_b_inv(w, b); guar_less(w0, w, b); guar_trans(v0, set_b(w0, b), x);
    assert(kept(w0, w, l));
    assert(bit(x.t[l], x.t[l].succs[i]) && changed_dep(x, x.t[l].succs[i]));
    assert(onstack(x, l) == onstack(w, l));
    assert(!clean(x, l));
}
pub proof fn low_off(v: V, l: Loc)
    ensures low(v, l) ==> !onstack(v, l) && !v.gh.b.contains(l) && !busy(v, l),
{ if low(v, l) && onstack(v, l) { let i = choose|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == l; } }
pub proof fn checked_low(v0: V, w: V, l: Loc, i: int)
    requires checked(v0, w, l, i), low(v0, l), 0 <= i < v0.t[l].succs.len(),
    ensures v0.t[l].succs[i].eff is Observe ==> low(w, v0.t[l].succs[i].loc),
{
    out_facts(w, l); let e = v0.t[l].succs[i]; assert(edge_wf(w, l, w.t[l].succs[i]));
}
