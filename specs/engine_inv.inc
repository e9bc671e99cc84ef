// ================= the invariant
pub open spec fn has(v: V, l: Loc) -> bool { v.t.dom().contains(l) }
pub open spec fn onstack(v: V, l: Loc) -> bool { exists|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == l }
pub open spec fn comp_off(v: V, l: Loc) -> bool { has(v, l) && v.t[l].kind is Comp && !onstack(v, l) }
pub open spec fn key(e: E) -> (Effect, Loc) { (e.eff, e.loc) }
pub open spec fn bit(n: N, e: E) -> bool { n.dirty.contains(key(e)) }
/// the value a mapping function returns, given the reference and the value of the cell
pub uninterp spec fn mapres(f: Fun, a: Art, x: Val) -> Val;
pub open spec fn art_of(l: Loc) -> Art { Art { art: EnumArt::Loc(Rc::new(l)) } }
/// run in namespace `path`, `app` did exactly `succs` (and saw there what they record) and returned `r`
pub uninterp spec fn ran_fn(f: FnBox, arg: Val, spurious: Val, path: Path, succs: Seq<E>, r: Val) -> bool;
pub open spec fn ran(app: App, path: Path, succs: Seq<E>, r: Val) -> bool { ran_fn(app.fn_box, app.arg, app.spurious, path, succs, r) }
pub open spec fn is_obs_dep(d: Dep) -> bool { d is ForceDep || d is ForceMapDep || d is ForceAbsDep }
/// what the dependency recorded is what is there now
pub open spec fn accepts(v: V, l: Loc, d: Dep) -> bool {
    let n = v.t[l];
    match d {
        Dep::ForceDep(x) => if n.kind is Comp { n.res == Some(x.res) } else { n.val == x.res },
        Dep::ForceMapDep(x) => n.kind is Mut && mapres(x.mapf, art_of(l), n.val) == x.res,
        Dep::ForceAbsDep(x) => n.kind is Mut && n.val == x.obs@,
        Dep::AllocCell(x) => n.kind is Mut && n.val == x.val,
        Dep::AllocNominalThunk(x) => n.kind is Comp && n.producer.arg == x.val,
        Dep::AllocStructuralThunk(_) => true,
    }
}
pub open spec fn undirty(n: N) -> bool { forall|k: int| 0 <= k < n.succs.len() ==> !bit(n, #[trigger] n.succs[k]) }
/// nothing at `l` is out of date
pub open spec fn clean(v: V, l: Loc) -> bool {
    has(v, l) && !onstack(v, l) && (v.t[l].kind is Comp ==> v.t[l].res is Some && undirty(v.t[l]))
}
pub open spec fn solid(v: V, e: E) -> bool { accepts(v, e.loc, e.dep) && (e.eff is Observe ==> clean(v, e.loc)) }
/// a dependency that is out of date and not marked
pub open spec fn bad(v: V, l: Loc, k: int) -> bool {
    &&& comp_off(v, l) && v.t[l].res is Some && 0 <= k < v.t[l].succs.len()
    &&& !bit(v.t[l], v.t[l].succs[k]) && !solid(v, v.t[l].succs[k])
}
pub open spec fn bad_at(v: V, e: Effect, m: Loc) -> bool { exists|l: Loc, k: int| #[trigger] bad(v, l, k) && key(v.t[l].succs[k]) == (e, m) }
/// the dependents of this kind on `m` that have a result are all marked
pub open spec fn unmarked(v: V, l: Loc, k: int) -> bool { comp_off(v, l) && v.t[l].res is Some && 0 <= k < v.t[l].succs.len() && !bit(v.t[l], v.t[l].succs[k]) }
pub open spec fn marked_at(v: V, e: Effect, m: Loc) -> bool { forall|l: Loc, k: int| #[trigger] unmarked(v, l, k) ==> key(v.t[l].succs[k]) != (e, m) }
/// every result that is out of date is marked
pub open spec fn all_marked(v: V) -> bool { forall|l: Loc, k: int| !#[trigger] bad(v, l, k) }
pub open spec fn mirrored(v: V, l: Loc, e: E) -> bool {
    v.t[e.loc].preds.contains(P { eff: e.eff, loc: l, dep: None }) || v.t[e.loc].preds.contains(P { eff: e.eff, loc: l, dep: Some(e.dep) })
}
/// the program has no cyclic demand: what runs at a location only observes locations of lower rank
pub uninterp spec fn rank(l: Loc) -> nat;
pub open spec fn low(v: V, l: Loc) -> bool {
    &&& forall|i: int| 0 <= i < v.s.len() ==> rank(l) < rank((#[trigger] v.s[i]).loc)
    &&& forall|m: Loc| #[trigger] v.gh.b.contains(m) ==> rank(l) < rank(m)
}
pub open spec fn edge_wf(v: V, l: Loc, e: E) -> bool {
    (e.eff is Observe ==> rank(e.loc) < rank(l)) && e.loc != l && has(v, e.loc) && !(v.t[e.loc].kind is Pure) && mirrored(v, l, e) && ((e.eff is Observe) == is_obs_dep(e.dep))
}
/// dependencies are known to their targets
pub open spec fn w1(v: V) -> bool { forall|l: Loc, k: int| comp_off(v, l) && 0 <= k < v.t[l].succs.len() ==> edge_wf(v, l, #[trigger] v.t[l].succs[k]) }
/// dependents have the dependency
pub open spec fn w2(v: V) -> bool { forall|m: Loc, p: P| has(v, m) && #[trigger] v.t[m].preds.contains(p) ==> comp_off(v, p.loc) && has_key(v.t[p.loc].succs, p.eff, m) }
/// what is running
pub open spec fn w3(v: V) -> bool {
    &&& forall|i: int| 0 <= i < v.s.len() ==> has(v, (#[trigger] v.s[i]).loc) && v.t[v.s[i].loc].kind is Comp && v.t[v.s[i].loc].succs.len() == 0
    &&& forall|i: int, j: int| 0 <= i < v.s.len() && 0 <= j < v.s.len() && i != j ==> (#[trigger] v.s[i]).loc != (#[trigger] v.s[j]).loc
}
pub open spec fn w5(v: V) -> bool { forall|l: Loc| #[trigger] has(v, l) && v.t[l].kind is Pure ==> *l.id is Structural }
/// cached results are those of a run
pub open spec fn s1(v: V) -> bool { forall|l: Loc| #[trigger] comp_off(v, l) && v.t[l].res is Some ==> ran(v.t[l].producer, *l.path, v.t[l].succs, v.t[l].res->0) }
/// what the running demand relies on
pub open spec fn relied(v: V, e: E) -> bool { (e.eff is Observe ==> v.gh.d.contains(e.loc)) && (e.eff is Allocate ==> v.gh.a.contains(e.loc)) }
pub open spec fn d1(v: V) -> bool {
    &&& forall|l: Loc| #[trigger] v.gh.d.contains(l) ==> v.gh.a.contains(l) && clean(v, l)
    &&& forall|l: Loc, k: int| v.gh.d.contains(l) && v.t[l].kind is Comp && 0 <= k < v.t[l].succs.len() ==> relied(v, #[trigger] v.t[l].succs[k])
    &&& forall|l: Loc| #[trigger] v.gh.a.contains(l) ==> has(v, l)
}
pub open spec fn fe_ok(v: V, l: Loc, x: FE) -> bool {
    &&& !x.dirty && (x.e.eff is Observe ==> rank(x.e.loc) < rank(l)) && accepts(v, x.e.loc, x.e.dep) && x.e.loc != l && has(v, x.e.loc) && !(v.t[x.e.loc].kind is Pure)
    &&& relied(v, x.e) && (x.pd is None || x.pd == Some(x.e.dep)) && (x.e.eff is Observe && x.pd is None ==> x.e.dep is ForceDep) && ((x.e.eff is Observe) == is_obs_dep(x.e.dep))
}
pub open spec fn frame_ok(v: V, f: Fr) -> bool { forall|j: int| 0 <= j < f.succs.len() ==> fe_ok(v, f.loc, #[trigger] f.succs[j]) }
pub open spec fn d2(v: V) -> bool { forall|i: int| 0 <= i < v.s.len() ==> frame_ok(v, #[trigger] v.s[i]) }
pub open spec fn b1(v: V) -> bool { forall|l: Loc| #[trigger] v.gh.b.contains(l) ==> comp_off(v, l) && v.t[l].res is Some }
#[verifier::opaque]
pub open spec fn core(v: V) -> bool { w1(v) && w2(v) && w3(v) && w5(v) && s1(v) && d1(v) && d2(v) && b1(v) }
pub open spec fn inv(v: V) -> bool { core(v) && all_marked(v) }

// ================= marking
/// only dirty bits change, from unset to set, and of nothing relied on
#[verifier::opaque]
pub open spec fn dirtied(v: V, w: V) -> bool {
    &&& w.s == v.s && w.path == v.path && w.flags == v.flags && w.gh == v.gh
    &&& forall|l: Loc| #[trigger] has(w, l) <==> has(v, l)
    &&& forall|l: Loc| #[trigger] has(v, l) ==> w.t[l] == (N { dirty: w.t[l].dirty, ..v.t[l] })
    &&& forall|l: Loc, k: (Effect, Loc)| has(v, l) && #[trigger] v.t[l].dirty.contains(k) ==> w.t[l].dirty.contains(k)
    &&& forall|l: Loc, k: int| has(v, l) && 0 <= k < v.t[l].succs.len() && relied(v, #[trigger] v.t[l].succs[k]) ==> (bit(w.t[l], v.t[l].succs[k]) <==> bit(v.t[l], v.t[l].succs[k]))
}
pub proof fn dirtied_core(v: V, w: V)
    requires core(v), dirtied(v, w),
    ensures core(w),
        forall|l: Loc| #[trigger] clean(w, l) ==> clean(v, l),
        forall|l: Loc, d: Dep| has(v, l) ==> #[trigger] accepts(w, l, d) == accepts(v, l, d),
{ reveal(core); reveal(dirtied); 
    assert forall|l: Loc| onstack(w, l) == onstack(v, l) by {}
    assert forall|l: Loc| #[trigger] comp_off(w, l) == comp_off(v, l) by { assert(has(w, l) == has(v, l)); }
    assert forall|l: Loc| #[trigger] clean(w, l) implies clean(v, l) by {
        assert(has(w, l) == has(v, l));
        if v.t[l].kind is Comp { assert forall|k: int| 0 <= k < v.t[l].succs.len() implies !bit(v.t[l], #[trigger] v.t[l].succs[k]) by { assert(w.t[l].succs[k] == v.t[l].succs[k]); } }
    }
    assert(w1(w)) by {
        assert forall|l: Loc, k: int| comp_off(w, l) && 0 <= k < w.t[l].succs.len() implies edge_wf(w, l, #[trigger] w.t[l].succs[k]) by {
            assert(comp_off(v, l)); let e = v.t[l].succs[k]; assert(edge_wf(v, l, e)); assert(has(w, e.loc));
        }
    }
    assert(w2(w)) by {
        assert forall|m: Loc, p: P| has(w, m) && #[trigger] w.t[m].preds.contains(p) implies comp_off(w, p.loc) && has_key(w.t[p.loc].succs, p.eff, m) by {
            assert(has(v, m)); assert(v.t[m].preds.contains(p)); assert(comp_off(v, p.loc)); assert(has(v, p.loc));
        }
    }
    assert(w3(w)) by {
        assert forall|i: int| 0 <= i < w.s.len() implies has(w, (#[trigger] w.s[i]).loc) && w.t[w.s[i].loc].kind is Comp && w.t[w.s[i].loc].succs.len() == 0 by { assert(has(v, v.s[i].loc)); }
    }
    assert(w5(w)) by { assert forall|l: Loc| #[trigger] has(w, l) && w.t[l].kind is Pure implies *l.id is Structural by { assert(has(v, l)); } }
    assert(s1(w)) by { assert forall|l: Loc| #[trigger] comp_off(w, l) && w.t[l].res is Some implies ran(w.t[l].producer, *l.path, w.t[l].succs, w.t[l].res->0) by { assert(comp_off(v, l)); assert(has(v, l)); } }
    assert(d1(w)) by {
        assert forall|l: Loc| #[trigger] w.gh.d.contains(l) implies w.gh.a.contains(l) && clean(w, l) by {
            assert(v.gh.d.contains(l)); assert(clean(v, l)); assert(has(v, l));
            if v.t[l].kind is Comp { assert forall|k: int| 0 <= k < w.t[l].succs.len() implies !bit(w.t[l], #[trigger] w.t[l].succs[k]) by { let e = v.t[l].succs[k]; assert(relied(v, e)); assert(!bit(v.t[l], e)); } }
        }
        assert forall|l: Loc, k: int| w.gh.d.contains(l) && w.t[l].kind is Comp && 0 <= k < w.t[l].succs.len() implies relied(w, #[trigger] w.t[l].succs[k]) by {
            assert(v.gh.d.contains(l)); assert(clean(v, l)); assert(has(v, l)); let e = v.t[l].succs[k]; assert(relied(v, e));
        }
        assert forall|l: Loc| #[trigger] w.gh.a.contains(l) implies has(w, l) by { assert(v.gh.a.contains(l)); assert(has(v, l)); }
    }
    assert(d2(w)) by {
        assert forall|i: int| 0 <= i < w.s.len() implies frame_ok(w, #[trigger] w.s[i]) by {
            let f = v.s[i]; assert(frame_ok(v, f));
            assert forall|j: int| 0 <= j < f.succs.len() implies fe_ok(w, f.loc, #[trigger] f.succs[j]) by { assert(fe_ok(v, f.loc, f.succs[j])); assert(has(v, f.succs[j].e.loc)); }
        }
    }
    assert(b1(w)) by { assert forall|l: Loc| #[trigger] w.gh.b.contains(l) implies comp_off(w, l) && w.t[l].res is Some by { assert(v.gh.b.contains(l)); assert(comp_off(v, l)); assert(has(v, l)); } }
}
pub proof fn dirtied_trans(u: V, v: V, w: V)
    requires dirtied(u, v), dirtied(v, w),
    ensures dirtied(u, w),
{ reveal(core); reveal(dirtied); 
    assert forall|l: Loc| #[trigger] has(u, l) implies w.t[l] == (N { dirty: w.t[l].dirty, ..u.t[l] }) by { assert(has(v, l)); assert(has(w, l)); }
    assert forall|l: Loc| #[trigger] has(w, l) <==> has(u, l) by { assert(has(v, l) == has(u, l)); }
    assert forall|l: Loc, k: (Effect, Loc)| has(u, l) && #[trigger] u.t[l].dirty.contains(k) implies w.t[l].dirty.contains(k) by { assert(has(v, l)); assert(v.t[l].dirty.contains(k)); }
    assert forall|l: Loc, k: int| has(u, l) && 0 <= k < u.t[l].succs.len() && relied(u, #[trigger] u.t[l].succs[k]) implies (bit(w.t[l], u.t[l].succs[k]) <==> bit(u.t[l], u.t[l].succs[k])) by {
        assert(has(v, l)); assert(v.t[l].succs[k] == u.t[l].succs[k]); assert(relied(v, v.t[l].succs[k]));
    }
}
pub proof fn dirtied_refl(v: V)
    ensures dirtied(v, v),
{ reveal(core); reveal(dirtied); }
/// marking one dependency
pub proof fn mark_one(v: V, p: Loc, e: Effect, l: Loc)
    requires core(v), comp_off(v, p), has_key(v.t[p].succs, e, l), e is Observe ==> !v.gh.d.contains(l), e is Allocate ==> !v.gh.a.contains(l),
    ensures ({ let w = with_bit(v, p, e, l, true);
        &&& dirtied(v, w) && core(w) && w.t[p].dirty.contains((e, l)) && !v.gh.d.contains(p)
        &&& forall|x: Effect, m: Loc| #[trigger] bad_at(w, x, m) ==> bad_at(v, x, m) || (x is Observe && m == p) }),
{ reveal(core); reveal(dirtied); 
    let w = with_bit(v, p, e, l, true);
    assert(dirtied(v, w)) by {
        assert forall|m: Loc| #[trigger] has(w, m) <==> has(v, m) by {}
        assert forall|m: Loc| #[trigger] has(v, m) implies w.t[m] == (N { dirty: w.t[m].dirty, ..v.t[m] }) by {}
        assert forall|m: Loc, k: int| has(v, m) && 0 <= k < v.t[m].succs.len() && relied(v, #[trigger] v.t[m].succs[k]) implies (bit(w.t[m], v.t[m].succs[k]) <==> bit(v.t[m], v.t[m].succs[k])) by {}
    }
    dirtied_core(v, w);
    let k = choose|k: int| 0 <= k < v.t[p].succs.len() && (#[trigger] v.t[p].succs[k]).eff == e && v.t[p].succs[k].loc == l;
    if v.gh.d.contains(p) { assert(clean(v, p)); assert(relied(v, v.t[p].succs[k])); }
    assert forall|x: Effect, m: Loc| #[trigger] bad_at(w, x, m) implies bad_at(v, x, m) || (x is Observe && m == p) by {
        let (q, j) = choose|q: Loc, j: int| #[trigger] bad(w, q, j) && key(w.t[q].succs[j]) == (x, m);
        assert(has(v, q)); let f = v.t[q].succs[j]; assert(w.t[q].succs[j] == f);
        assert(comp_off(v, q)); assert(edge_wf(v, q, f));
        if !(x is Observe && m == p) {
            assert(x is Observe && clean(v, m) ==> clean(w, m)) by { if clean(v, m) && m != p { assert(w.t[m] == v.t[m]); } }
            assert(!bit(v.t[q], f));
            assert(bad(v, q, j));
        }
    }
}
pub open spec fn obs_done(v: V, l: Loc, x: (Rc<Loc>, Option<Rc<Dep>>)) -> bool {
    v.t[*x.0].dirty.contains((Effect::Observe, l)) || (x.1 is Some && v.t[l].kind is Mut && accepts(v, l, *x.1->0))
}
pub open spec fn alloc_done(v: V, l: Loc, x: Rc<Loc>) -> bool { v.t[*x].dirty.contains((Effect::Allocate, l)) }
/// once all observers have been looked at, none is out of date and unmarked
pub proof fn all_obs_done(v: V, l: Loc, r: Seq<(Rc<Loc>, Option<Rc<Dep>>)>)
    requires core(v), has(v, l), lists_obs(v.t[l].preds, v.t[l].kind is Comp, r), forall|j: int| 0 <= j < r.len() ==> obs_done(v, l, #[trigger] r[j]),
    ensures !bad_at(v, Effect::Observe, l), v.t[l].kind is Comp ==> marked_at(v, Effect::Observe, l),
{ reveal(core); reveal(dirtied); 
    if v.t[l].kind is Comp { assert forall|q: Loc, k: int| #[trigger] unmarked(v, q, k) implies key(v.t[q].succs[k]) != (Effect::Observe, l) by {
        if key(v.t[q].succs[k]) == (Effect::Observe, l) {
            let e = v.t[q].succs[k]; assert(edge_wf(v, q, e));
            let p = if v.t[l].preds.contains(P { eff: e.eff, loc: q, dep: None }) { P { eff: e.eff, loc: q, dep: None } } else { P { eff: e.eff, loc: q, dep: Some(e.dep) } };
            assert(v.t[l].preds.contains(p));
            let j = choose|j: int| 0 <= j < r.len() && is_obs(#[trigger] r[j], p, v.t[l].kind is Comp);
            assert(obs_done(v, l, r[j]));
        }
    } }
    if bad_at(v, Effect::Observe, l) {
        let (q, k) = choose|q: Loc, k: int| #[trigger] bad(v, q, k) && key(v.t[q].succs[k]) == (Effect::Observe, l);
        let e = v.t[q].succs[k]; assert(edge_wf(v, q, e));
        let p = if v.t[l].preds.contains(P { eff: e.eff, loc: q, dep: None }) { P { eff: e.eff, loc: q, dep: None } } else { P { eff: e.eff, loc: q, dep: Some(e.dep) } };
        assert(v.t[l].preds.contains(p));
        let j = choose|j: int| 0 <= j < r.len() && is_obs(#[trigger] r[j], p, v.t[l].kind is Comp);
        assert(obs_done(v, l, r[j]));
        if onstack(v, l) { let i = choose|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == l; assert(v.t[l].kind is Comp); }
    }
}
pub proof fn all_alloc_done(v: V, l: Loc, r: Seq<Rc<Loc>>)
    requires core(v), has(v, l), lists_alloc(v.t[l].preds, r), forall|j: int| 0 <= j < r.len() ==> alloc_done(v, l, #[trigger] r[j]),
    ensures marked_at(v, Effect::Allocate, l),
{ reveal(core); reveal(dirtied); 
    assert forall|q: Loc, k: int| #[trigger] unmarked(v, q, k) implies key(v.t[q].succs[k]) != (Effect::Allocate, l) by { if key(v.t[q].succs[k]) == (Effect::Allocate, l) {
        let e = v.t[q].succs[k]; assert(edge_wf(v, q, e));
        let p = if v.t[l].preds.contains(P { eff: e.eff, loc: q, dep: None }) { P { eff: e.eff, loc: q, dep: None } } else { P { eff: e.eff, loc: q, dep: Some(e.dep) } };
        assert(v.t[l].preds.contains(p));
        let j = choose|j: int| 0 <= j < r.len() && is_at(#[trigger] r[j], p.loc);
        assert(alloc_done(v, l, r[j]));
    } }
}
pub proof fn obs_is_edge(v: V, l: Loc, c: bool, r: Seq<(Rc<Loc>, Option<Rc<Dep>>)>)
    requires core(v), has(v, l), lists_obs(v.t[l].preds, c, r),
    ensures forall|j: int| 0 <= j < r.len() ==> comp_off(v, *(#[trigger] r[j]).0) && has_key(v.t[*r[j].0].succs, Effect::Observe, l),
{ reveal(core); reveal(dirtied); 
    assert forall|j: int| 0 <= j < r.len() implies comp_off(v, *(#[trigger] r[j]).0) && has_key(v.t[*r[j].0].succs, Effect::Observe, l) by {
        assert(obs_src(v.t[l].preds, c, r[j]));
        let p = choose|p: P| #[trigger] v.t[l].preds.contains(p) && p.eff is Observe && is_obs(r[j], p, c);
        assert(comp_off(v, p.loc));
    }
}
pub proof fn alloc_is_edge(v: V, l: Loc, r: Seq<Rc<Loc>>)
    requires core(v), has(v, l), lists_alloc(v.t[l].preds, r),
    ensures forall|j: int| 0 <= j < r.len() ==> comp_off(v, *(#[trigger] r[j])) && has_key(v.t[*r[j]].succs, Effect::Allocate, l),
{ reveal(core); reveal(dirtied); 
    assert forall|j: int| 0 <= j < r.len() implies comp_off(v, *(#[trigger] r[j])) && has_key(v.t[*r[j]].succs, Effect::Allocate, l) by {
        assert(alloc_src(v.t[l].preds, r[j]));
        let p = choose|p: P| #[trigger] v.t[l].preds.contains(p) && p.eff is Allocate && is_at(r[j], p.loc);
        assert(comp_off(v, p.loc));
    }
}
pub proof fn no_self_edge(v: V, p: Loc, e: Effect, l: Loc)
    requires core(v), comp_off(v, p), has_key(v.t[p].succs, e, l),
    ensures p != l,
{ reveal(core); reveal(dirtied);  let k = choose|k: int| 0 <= k < v.t[p].succs.len() && (#[trigger] v.t[p].succs[k]).eff == e && v.t[p].succs[k].loc == l; assert(edge_wf(v, p, v.t[p].succs[k])); }
pub proof fn done_mono(v: V, w: V, l: Loc)
    requires dirtied(v, w), has(v, l),
    ensures forall|x: (Rc<Loc>, Option<Rc<Dep>>)| has(v, *x.0) && #[trigger] obs_done(v, l, x) ==> obs_done(w, l, x),
        forall|x: Rc<Loc>| has(v, *x) && #[trigger] alloc_done(v, l, x) ==> alloc_done(w, l, x),
{ reveal(core); reveal(dirtied); }
pub proof fn dirtied_at(v: V, w: V, l: Loc)
    requires dirtied(v, w),
    ensures w.s == v.s, w.path == v.path, w.flags == v.flags, w.gh == v.gh, has(w, l) == has(v, l), has(v, l) ==> w.t[l] == (N { dirty: w.t[l].dirty, ..v.t[l] }),
        forall|k: (Effect, Loc)| has(v, l) && #[trigger] v.t[l].dirty.contains(k) ==> w.t[l].dirty.contains(k),
{ reveal(dirtied); assert(has(w, l) == has(v, l)); }

/// marks stay
pub proof fn marked_mono(v: V, w: V)
    requires dirtied(v, w),
    ensures forall|e: Effect, m: Loc| #[trigger] marked_at(v, e, m) ==> marked_at(w, e, m),
{
    reveal(dirtied);
    assert forall|e: Effect, m: Loc| #[trigger] marked_at(v, e, m) implies marked_at(w, e, m) by {
        assert forall|q: Loc, k: int| #[trigger] unmarked(w, q, k) implies key(w.t[q].succs[k]) != (e, m) by { assert(has(v, q)); assert(comp_off(v, q)); assert(unmarked(v, q, k)); }
    }
}
pub proof fn marked_not_bad(v: V, e: Effect, m: Loc)
    requires marked_at(v, e, m),
    ensures !bad_at(v, e, m),
{
    if bad_at(v, e, m) { let (q, k) = choose|q: Loc, k: int| #[trigger] bad(v, q, k) && key(v.t[q].succs[k]) == (e, m); assert(unmarked(v, q, k)); }
}
pub proof fn d_in_a(v: V, l: Loc) requires core(v), ensures v.gh.d.contains(l) ==> v.gh.a.contains(l) { reveal(core); }
