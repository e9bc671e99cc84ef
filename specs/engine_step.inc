// ================= relying on a location
pub open spec fn obs_edge(v: V, x: Loc, y: Loc) -> bool { v.t[x].kind is Comp && has_key(v.t[x].succs, Effect::Observe, y) }
pub open spec fn alloc_edge(v: V, x: Loc, y: Loc) -> bool { v.t[x].kind is Comp && has_key(v.t[x].succs, Effect::Allocate, y) }
pub open spec fn chain(v: V, c: Seq<Loc>) -> bool { c.len() > 0 && forall|i: int| 0 <= i < c.len() - 1 ==> obs_edge(v, #[trigger] c[i], c[i + 1]) }
pub open spec fn reaches(v: V, m: Loc, x: Loc) -> bool { exists|c: Seq<Loc>| #[trigger] chain(v, c) && c[0] == m && c.last() == x }
pub open spec fn reach_alloc(v: V, m: Loc, y: Loc) -> bool { exists|x: Loc| #[trigger] reaches(v, m, x) && alloc_edge(v, x, y) }
/// from now on, the running demand relies on the value of `m`, and on all it depends on
pub open spec fn rely_gh(v: V, m: Loc) -> Gh {
    Gh { d: ISet::new(|x: Loc| v.gh.d.contains(x) || reaches(v, m, x)), a: ISet::new(|x: Loc| v.gh.a.contains(x) || reaches(v, m, x) || reach_alloc(v, m, x)), b: v.gh.b }
}
pub open spec fn rely(v: V, m: Loc) -> V { V { gh: rely_gh(v, m), ..v } }
/// ... on the content allocated at `m`
pub open spec fn rely_alloc(v: V, m: Loc) -> V { V { gh: Gh { a: v.gh.a.insert(m), ..v.gh }, ..v } }
pub open spec fn rely_on(v: V, e: E) -> V { if e.eff is Observe { rely(v, e.loc) } else { rely_alloc(v, e.loc) } }
/// in a state where everything is marked, what a clean location depends on is clean, and as recorded
pub proof fn clean_edge(v: V, l: Loc, k: int)
    requires inv(v), clean(v, l), v.t[l].kind is Comp, 0 <= k < v.t[l].succs.len(),
    ensures edge_wf(v, l, v.t[l].succs[k]), solid(v, v.t[l].succs[k]),
{ reveal(core); assert(comp_off(v, l)); assert(edge_wf(v, l, v.t[l].succs[k])); assert(!bad(v, l, k)); }
pub proof fn chain_clean(v: V, c: Seq<Loc>)
    requires inv(v), chain(v, c), clean(v, c[0]),
    ensures clean(v, c.last()),
    decreases c.len(),
{
    if c.len() > 1 {
        let d = c.drop_last();
        assert(chain(v, d)) by { assert forall|i: int| 0 <= i < d.len() - 1 implies obs_edge(v, #[trigger] d[i], d[i + 1]) by { assert(obs_edge(v, c[i], c[i + 1])); } }
        chain_clean(v, d);
        let x = c[c.len() - 2]; assert(d.last() == x); assert(obs_edge(v, x, c[c.len() - 2 + 1]));
        let k = choose|k: int| 0 <= k < v.t[x].succs.len() && (#[trigger] v.t[x].succs[k]).eff is Observe && v.t[x].succs[k].loc == c.last();
        clean_edge(v, x, k);
    }
}
pub proof fn relied_more(v: V, w: V)
    requires core(v), w == (V { gh: w.gh, ..v }), w.gh.b == v.gh.b, forall|l: Loc| #[trigger] v.gh.d.contains(l) ==> w.gh.d.contains(l), forall|l: Loc| #[trigger] v.gh.a.contains(l) ==> w.gh.a.contains(l), d1(w),
        all_marked(v),
    ensures inv(w), guar(v, w), forall|l: Loc| clean(w, l) == #[trigger] clean(v, l), forall|l: Loc| low(w, l) == #[trigger] low(v, l),
{
    reveal(core); reveal(guar);
    assert forall|l: Loc| #[trigger] onstack(w, l) == onstack(v, l) by {}
    assert forall|l: Loc| #[trigger] comp_off(w, l) == comp_off(v, l) by {}
    assert forall|l: Loc| clean(w, l) == #[trigger] clean(v, l) by {}
    assert forall|l: Loc, d: Dep| #[trigger] accepts(w, l, d) == accepts(v, l, d) by {}
    assert forall|l: Loc| low(w, l) == #[trigger] low(v, l) by {}
    assert(w1(w)) by { assert forall|l: Loc, k: int| comp_off(w, l) && 0 <= k < w.t[l].succs.len() implies edge_wf(w, l, #[trigger] w.t[l].succs[k]) by { assert(comp_off(v, l)); assert(edge_wf(v, l, v.t[l].succs[k])); } }
    assert(w2(w)) by { assert forall|m: Loc, p: P| has(w, m) && #[trigger] w.t[m].preds.contains(p) implies comp_off(w, p.loc) && has_key(w.t[p.loc].succs, p.eff, m) by { assert(has(v, m)); assert(comp_off(v, p.loc)); } }
    assert(w3(w));
    assert(w5(w)) by { assert forall|l: Loc| #[trigger] has(w, l) && w.t[l].kind is Pure implies *l.id is Structural by { assert(has(v, l)); } }
    assert(s1(w)) by { assert forall|l: Loc| #[trigger] comp_off(w, l) && w.t[l].res is Some implies ran(w.t[l].producer, *l.path, w.t[l].succs, w.t[l].res->0) by { assert(comp_off(v, l)); } }
    assert(d2(w)) by { assert forall|i: int| 0 <= i < w.s.len() implies frame_ok(w, #[trigger] w.s[i]) by { assert(frame_ok(v, v.s[i]));
        assert forall|j: int| 0 <= j < w.s[i].succs.len() implies fe_ok(w, w.s[i].loc, #[trigger] w.s[i].succs[j]) by { assert(fe_ok(v, v.s[i].loc, v.s[i].succs[j])); } } }
    assert(b1(w)) by { assert forall|l: Loc| #[trigger] w.gh.b.contains(l) implies comp_off(w, l) && w.t[l].res is Some by { assert(comp_off(v, l)); } }
    assert(all_marked(w)) by { assert forall|l: Loc, k: int| !#[trigger] bad(w, l, k) by { assert(!bad(v, l, k)); } }
    assert(same_stack(v, w)) by { if v.s.len() > 0 { assert(prefix(v.s.last().succs, w.s.last().succs)); } }
    assert forall|l: Loc| #[trigger] busy(v, l) implies kept(v, w, l) by {}
}
pub proof fn rely_ok(v: V, m: Loc)
    requires inv(v), clean(v, m),
    ensures ({ let w = rely(v, m); inv(w) && guar(v, w) && w.gh.d.contains(m) && w.gh.a.contains(m) && (forall|l: Loc| clean(w, l) == #[trigger] clean(v, l)) && (forall|l: Loc| low(w, l) == #[trigger] low(v, l)) }),
{
    reveal(core);
    let w = rely(v, m);
    assert(reaches(v, m, m)) by { let c = seq![m]; assert(chain(v, c) && c[0] == m && c.last() == m); }
    assert(d1(w)) by {
        assert forall|l: Loc| #[trigger] w.gh.d.contains(l) implies w.gh.a.contains(l) && clean(w, l) by {
            if v.gh.d.contains(l) { assert(clean(v, l)); }
            else { let c = choose|c: Seq<Loc>| #[trigger] chain(v, c) && c[0] == m && c.last() == l; chain_clean(v, c); }
            assert(onstack(w, l) == onstack(v, l));
        }
        assert forall|l: Loc, k: int| w.gh.d.contains(l) && w.t[l].kind is Comp && 0 <= k < w.t[l].succs.len() implies relied(w, #[trigger] w.t[l].succs[k]) by {
            let e = v.t[l].succs[k];
            if v.gh.d.contains(l) { assert(relied(v, e)); }
            else {
                let c = choose|c: Seq<Loc>| #[trigger] chain(v, c) && c[0] == m && c.last() == l;
                if e.eff is Observe {
                    let c2 = c.push(e.loc);
                    assert(chain(v, c2)) by { assert forall|i: int| 0 <= i < c2.len() - 1 implies obs_edge(v, #[trigger] c2[i], c2[i + 1]) by { if i < c.len() - 1 { assert(obs_edge(v, c[i], c[i + 1])); } else { assert(c2[i] == l); assert(has_key(v.t[l].succs, Effect::Observe, e.loc)); } } }
                    assert(c2[0] == m && c2.last() == e.loc); assert(reaches(v, m, e.loc));
                } else { assert(reaches(v, m, l)); assert(has_key(v.t[l].succs, Effect::Allocate, e.loc)); assert(reach_alloc(v, m, e.loc)); }
            }
        }
        assert forall|l: Loc| #[trigger] w.gh.a.contains(l) implies has(w, l) by {
            if v.gh.a.contains(l) { assert(has(v, l)); }
            else if reaches(v, m, l) { let c = choose|c: Seq<Loc>| #[trigger] chain(v, c) && c[0] == m && c.last() == l; chain_clean(v, c); }
            else {
                let x = choose|x: Loc| #[trigger] reaches(v, m, x) && alloc_edge(v, x, l);
                let c = choose|c: Seq<Loc>| #[trigger] chain(v, c) && c[0] == m && c.last() == x; chain_clean(v, c);
                let k = choose|k: int| 0 <= k < v.t[x].succs.len() && (#[trigger] v.t[x].succs[k]).eff is Allocate && v.t[x].succs[k].loc == l;
                clean_edge(v, x, k);
            }
        }
    }
    relied_more(v, w);
}
pub proof fn rely_alloc_ok(v: V, m: Loc)
    requires inv(v), has(v, m),
    ensures ({ let w = rely_alloc(v, m); inv(w) && guar(v, w) && w.gh.a.contains(m) && (forall|l: Loc| clean(w, l) == #[trigger] clean(v, l)) && (forall|l: Loc| low(w, l) == #[trigger] low(v, l)) }),
{
    reveal(core);
    let w = rely_alloc(v, m);
    assert(d1(w)) by {
        assert forall|l: Loc| #[trigger] w.gh.d.contains(l) implies w.gh.a.contains(l) && clean(w, l) by { assert(v.gh.d.contains(l)); assert(clean(v, l)); assert(onstack(w, l) == onstack(v, l)); }
        assert forall|l: Loc, k: int| w.gh.d.contains(l) && w.t[l].kind is Comp && 0 <= k < w.t[l].succs.len() implies relied(w, #[trigger] w.t[l].succs[k]) by { assert(relied(v, v.t[l].succs[k])); }
        assert forall|l: Loc| #[trigger] w.gh.a.contains(l) implies has(w, l) by { if l != m { assert(v.gh.a.contains(l)); assert(has(v, l)); } }
    }
    relied_more(v, w);
}
/// what was relied on stays as it was recorded
pub proof fn relied_accepts(v: V, w: V, e: E)
    requires core(v), core(w), guar(v, w), relied(v, e), accepts(v, e.loc, e.dep), (e.eff is Observe) == is_obs_dep(e.dep),
    ensures relied(w, e), solid(w, e),
{
    reveal(core); reveal(guar);
    let l = e.loc;
    if e.eff is Observe { assert(v.gh.d.contains(l)); assert(w.gh.d.contains(l)); assert(v.gh.a.contains(l)); assert(clean(w, l)); }
    else { assert(v.gh.a.contains(l)); assert(w.gh.a.contains(l)); }
    assert(same_content(v.t[l], w.t[l]));
}

// ================= running a computation
pub open spec fn es(f: Seq<FE>) -> Seq<E> { Seq::new(f.len(), |i: int| f[i].e) }
pub open spec fn tgt(s: Seq<E>, m: Loc) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).loc == m }
pub open spec fn rm_preds(t: IMap<Loc, N>, l: Loc, s: Seq<E>) -> IMap<Loc, N> {
    IMap::new(|m: Loc| t.dom().contains(m), |m: Loc| if tgt(s, m) { N { preds: minus(t[m].preds, l), ..t[m] } } else { t[m] })
}
pub open spec fn new_pred(f: Seq<FE>, l: Loc, m: Loc, p: P) -> bool { exists|k: int| 0 <= k < f.len() && (#[trigger] f[k]).e.loc == m && p == (P { eff: f[k].e.eff, loc: l, dep: f[k].pd }) }
pub open spec fn ins_preds(t: IMap<Loc, N>, l: Loc, f: Seq<FE>) -> IMap<Loc, N> {
    IMap::new(|m: Loc| t.dom().contains(m), |m: Loc| N { preds: ISet::new(|p: P| t[m].preds.contains(p) || new_pred(f, l, m, p)), ..t[m] })
}
pub open spec fn cleared(n: N) -> N { N { succs: Seq::empty(), dirty: ISet::empty(), ..n } }
/// `l` starts to run
pub open spec fn started(v: V, l: Loc) -> V {
    V { t: rm_preds(v.t.insert(l, cleared(v.t[l])), l, v.t[l].succs), s: v.s.push(Fr { loc: l, succs: Seq::empty() }), path: *l.path, ..v }
}
/// the run of `l` ended with `r`
pub open spec fn finished(v: V, l: Loc, path: Path, r: Val) -> V {
    let f = v.s.last().succs; let t = ins_preds(v.t, l, f);
    V { t: t.insert(l, N { succs: es(f), dirty: ISet::empty(), res: Some(r), ..t[l] }), s: v.s.drop_last(), path: path, ..v }
}
pub proof fn push_on(v: V, w: V, f: Fr)
    requires w.s == v.s.push(f),
    ensures forall|q: Loc| #[trigger] onstack(w, q) == (onstack(v, q) || q == f.loc),
{
    assert forall|q: Loc| #[trigger] onstack(w, q) == (onstack(v, q) || q == f.loc) by {
        if onstack(v, q) { let i = choose|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == q; assert(w.s[i].loc == q); }
        if onstack(w, q) { let i = choose|i: int| 0 <= i < w.s.len() && (#[trigger] w.s[i]).loc == q; if i < v.s.len() { assert(v.s[i].loc == q); } }
        if q == f.loc { assert(w.s[v.s.len() as int].loc == q); }
    }
}
pub proof fn started_inv(v: V, l: Loc)
    requires inv(v), comp_off(v, l), !clean(v, l), low(v, l),
    ensures inv(started(v, l)), !v.gh.b.contains(l), !v.gh.d.contains(l), forall|q: Loc| #[trigger] onstack(started(v, l), q) == (onstack(v, q) || q == l),
{
    reveal(core);
    let w = started(v, l); let es0 = v.t[l].succs;
    push_on(v, w, Fr { loc: l, succs: Seq::empty() });
    assert(!v.gh.d.contains(l)); assert(!v.gh.b.contains(l));
    assert forall|q: Loc| #[trigger] has(w, q) == has(v, q) by {}
    assert forall|q: Loc| #[trigger] comp_off(w, q) == (comp_off(v, q) && q != l) by { assert(has(w, q) == has(v, q)); }
    assert forall|q: Loc| q != l && has(v, q) implies w.t[q] == (N { preds: w.t[q].preds, ..#[trigger] v.t[q] }) by {}
    assert forall|q: Loc| #[trigger] clean(v, q) implies clean(w, q) by { assert(q != l); assert(has(w, q)); assert(w.t[q] == (N { preds: w.t[q].preds, ..v.t[q] })); }
    assert forall|q: Loc, d: Dep| has(v, q) implies #[trigger] accepts(w, q, d) == accepts(v, q, d) by {}
    assert(w1(w)) by {
        assert forall|q: Loc, k: int| comp_off(w, q) && 0 <= k < w.t[q].succs.len() implies edge_wf(w, q, #[trigger] w.t[q].succs[k]) by {
            assert(comp_off(v, q)); assert(has(v, q)); let e = v.t[q].succs[k]; assert(edge_wf(v, q, e)); assert(has(w, e.loc)); assert(has(v, e.loc));
            assert(mirrored(w, q, e));
        }
    }
    assert(w2(w)) by {
        assert forall|m: Loc, p: P| has(w, m) && #[trigger] w.t[m].preds.contains(p) implies comp_off(w, p.loc) && has_key(w.t[p.loc].succs, p.eff, m) by {
            assert(has(v, m)); assert(v.t[m].preds.contains(p)); assert(comp_off(v, p.loc)); assert(has(v, p.loc));
            if p.loc == l { let k = choose|k: int| 0 <= k < es0.len() && (#[trigger] es0[k]).eff == p.eff && es0[k].loc == m; assert(tgt(es0, m)); }
        }
    }
    assert(w3(w)) by {
        assert forall|i: int| 0 <= i < w.s.len() implies has(w, (#[trigger] w.s[i]).loc) && w.t[w.s[i].loc].kind is Comp && w.t[w.s[i].loc].succs.len() == 0 by {
            if i < v.s.len() { assert(w.s[i] == v.s[i]); assert(has(v, v.s[i].loc)); assert(onstack(v, v.s[i].loc)); } else { assert(w.s[i].loc == l); assert(has(v, l)); }
        }
        assert forall|i: int, j: int| 0 <= i < w.s.len() && 0 <= j < w.s.len() && i != j implies (#[trigger] w.s[i]).loc != (#[trigger] w.s[j]).loc by {
            if i < v.s.len() { assert(onstack(v, v.s[i].loc)); } if j < v.s.len() { assert(onstack(v, v.s[j].loc)); }
        }
    }
    assert(w5(w)) by { assert forall|q: Loc| #[trigger] has(w, q) && w.t[q].kind is Pure implies *q.id is Structural by { assert(has(v, q)); } }
    assert(s1(w)) by { assert forall|q: Loc| #[trigger] comp_off(w, q) && w.t[q].res is Some implies ran(w.t[q].producer, *q.path, w.t[q].succs, w.t[q].res->0) by { assert(comp_off(v, q)); assert(has(v, q)); } }
    assert(d1(w)) by {
        assert forall|q: Loc| #[trigger] w.gh.d.contains(q) implies w.gh.a.contains(q) && clean(w, q) by { assert(v.gh.d.contains(q)); assert(clean(v, q)); }
        assert forall|q: Loc, k: int| w.gh.d.contains(q) && w.t[q].kind is Comp && 0 <= k < w.t[q].succs.len() implies relied(w, #[trigger] w.t[q].succs[k]) by { assert(v.gh.d.contains(q)); assert(clean(v, q)); assert(has(v, q)); assert(relied(v, v.t[q].succs[k])); }
        assert forall|q: Loc| #[trigger] w.gh.a.contains(q) implies has(w, q) by { assert(v.gh.a.contains(q)); assert(has(v, q)); }
    }
    assert(d2(w)) by {
        assert forall|i: int| 0 <= i < w.s.len() implies frame_ok(w, #[trigger] w.s[i]) by {
            if i < v.s.len() { let f = v.s[i]; assert(w.s[i] == f); assert(frame_ok(v, f));
                assert forall|j: int| 0 <= j < f.succs.len() implies fe_ok(w, f.loc, #[trigger] f.succs[j]) by { assert(fe_ok(v, f.loc, f.succs[j])); assert(has(v, f.succs[j].e.loc)); assert(has(w, f.succs[j].e.loc)); } }
        }
    }
    assert(b1(w)) by { assert forall|q: Loc| #[trigger] w.gh.b.contains(q) implies comp_off(w, q) && w.t[q].res is Some by { assert(v.gh.b.contains(q)); assert(comp_off(v, q)); assert(has(v, q)); } }
    assert(all_marked(w)) by {
        assert forall|q: Loc, k: int| !#[trigger] bad(w, q, k) by {
            if bad(w, q, k) { assert(comp_off(v, q)); assert(has(v, q)); let e = v.t[q].succs[k]; assert(w.t[q].succs[k] == e); assert(!bad(v, q, k)); assert(edge_wf(v, q, e)); assert(has(v, e.loc)); }
        }
    }
}
pub proof fn finished_inv(v: V, w: V, l: Loc, r: Val)
    requires inv(v), comp_off(v, l), !clean(v, l), low(v, l), inv(w), guar(started(v, l), w), ran(v.t[l].producer, *l.path, es(w.s.last().succs), r),
    ensures ({ let x = finished(w, l, v.path, r); inv(x) && guar(v, x) && clean(x, l) && x.s == v.s && x.t[l].res == Some(r) && x.t[l].kind is Comp }),
        w.s.len() > 0, w.s.last().loc == l, has(w, l), w.t[l].kind is Comp,
{
    started_inv(v, l);
    let u = started(v, l); let x = finished(w, l, v.path, r); let f = w.s.last().succs;
    reveal(core); reveal(guar);
    same_on(u, w);
    assert(u.s.last().loc == l);
    assert(x.s == v.s) by { assert forall|i: int| 0 <= i < v.s.len() implies x.s[i] == v.s[i] by { assert(u.s[i] == v.s[i]); assert(w.s[i] == u.s[i]); } assert(x.s =~= v.s); }
    assert(onstack(u, l)); assert(busy(u, l)); assert(kept(u, w, l)); assert(has(u, l)); assert(has(w, l));
    assert forall|q: Loc| #[trigger] onstack(x, q) == (onstack(w, q) && q != l) by {
        assert(onstack(x, q) == onstack(v, q)) by { if onstack(v, q) { let i = choose|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == q; assert(x.s[i].loc == q); } if onstack(x, q) { let i = choose|i: int| 0 <= i < x.s.len() && (#[trigger] x.s[i]).loc == q; assert(v.s[i].loc == q); } }
        assert(onstack(w, q) == onstack(u, q));
    }
    assert forall|q: Loc| #[trigger] has(x, q) == has(w, q) by {}
    assert forall|q: Loc| #[trigger] comp_off(x, q) == (comp_off(w, q) || q == l) by { assert(has(x, q) == has(w, q)); assert(onstack(w, l)); }
    assert forall|q: Loc| q != l && has(w, q) implies x.t[q] == (N { preds: x.t[q].preds, ..#[trigger] w.t[q] }) by {}
    assert(frame_ok(w, w.s[w.s.len() - 1]));
    assert forall|j: int| 0 <= j < f.len() implies fe_ok(w, l, #[trigger] f[j]) by {}
    assert forall|q: Loc| #[trigger] clean(w, q) implies clean(x, q) && q != l by { assert(onstack(w, l)); assert(has(x, q)); assert(x.t[q] == (N { preds: x.t[q].preds, ..w.t[q] })); }
    assert(clean(x, l)) by { assert(has(x, l)); assert forall|k: int| 0 <= k < x.t[l].succs.len() implies !bit(x.t[l], #[trigger] x.t[l].succs[k]) by {} }
    assert forall|q: Loc, d: Dep| has(w, q) && (q != l || !is_obs_dep(d)) implies #[trigger] accepts(x, q, d) == accepts(w, q, d) by {}
    assert(w1(x)) by {
        assert forall|q: Loc, k: int| comp_off(x, q) && 0 <= k < x.t[q].succs.len() implies edge_wf(x, q, #[trigger] x.t[q].succs[k]) by {
            assert(has(w, q));
            if q != l { assert(comp_off(w, q)); let e = w.t[q].succs[k]; assert(edge_wf(w, q, e)); assert(has(x, e.loc)); assert(has(w, e.loc)); assert(mirrored(x, q, e)); }
            else { let e = f[k].e; assert(fe_ok(w, l, f[k])); assert(x.t[l].succs[k] == e); assert(has(x, e.loc)); assert(has(w, e.loc)); let p = P { eff: e.eff, loc: l, dep: f[k].pd }; assert(new_pred(f, l, e.loc, p)); assert(x.t[e.loc].preds.contains(p)); assert(mirrored(x, l, e)); }
        }
    }
    assert(w2(x)) by {
        assert forall|m: Loc, p: P| has(x, m) && #[trigger] x.t[m].preds.contains(p) implies comp_off(x, p.loc) && has_key(x.t[p.loc].succs, p.eff, m) by {
            assert(has(w, m));
            if w.t[m].preds.contains(p) { assert(comp_off(w, p.loc)); assert(has(w, p.loc)); assert(onstack(w, l)); assert(p.loc != l); assert(comp_off(x, p.loc)); }
            else { assert(new_pred(f, l, m, p)); let k = choose|k: int| 0 <= k < f.len() && (#[trigger] f[k]).e.loc == m && p == (P { eff: f[k].e.eff, loc: l, dep: f[k].pd }); assert(x.t[l].succs[k] == f[k].e); assert(comp_off(x, l)); }
        }
    }
    assert(w3(x)) by {
        assert forall|i: int| 0 <= i < x.s.len() implies has(x, (#[trigger] x.s[i]).loc) && x.t[x.s[i].loc].kind is Comp && x.t[x.s[i].loc].succs.len() == 0 by { assert(x.s[i] == w.s[i]); assert(has(w, w.s[i].loc)); assert(onstack(x, x.s[i].loc)); }
        assert forall|i: int, j: int| 0 <= i < x.s.len() && 0 <= j < x.s.len() && i != j implies (#[trigger] x.s[i]).loc != (#[trigger] x.s[j]).loc by { assert(x.s[i] == w.s[i]); assert(x.s[j] == w.s[j]); }
    }
    assert(w5(x)) by { assert forall|q: Loc| #[trigger] has(x, q) && x.t[q].kind is Pure implies *q.id is Structural by { assert(has(w, q)); } }
    assert(s1(x)) by { assert forall|q: Loc| #[trigger] comp_off(x, q) && x.t[q].res is Some implies ran(x.t[q].producer, *q.path, x.t[q].succs, x.t[q].res->0) by { if q != l { assert(comp_off(w, q)); assert(has(w, q)); } else { assert(x.t[l].producer == v.t[l].producer); } } }
    assert(d1(x)) by {
        assert forall|q: Loc| #[trigger] x.gh.d.contains(q) implies x.gh.a.contains(q) && clean(x, q) by { assert(w.gh.d.contains(q)); assert(clean(w, q)); }
        assert forall|q: Loc, k: int| x.gh.d.contains(q) && x.t[q].kind is Comp && 0 <= k < x.t[q].succs.len() implies relied(x, #[trigger] x.t[q].succs[k]) by { assert(w.gh.d.contains(q)); assert(clean(w, q)); assert(has(w, q)); assert(relied(w, w.t[q].succs[k])); }
        assert forall|q: Loc| #[trigger] x.gh.a.contains(q) implies has(x, q) by { assert(w.gh.a.contains(q)); assert(has(w, q)); }
    }
    assert(d2(x)) by {
        assert forall|i: int| 0 <= i < x.s.len() implies frame_ok(x, #[trigger] x.s[i]) by {
            let g = w.s[i]; assert(x.s[i] == g); assert(frame_ok(w, g));
            assert forall|j: int| 0 <= j < g.succs.len() implies fe_ok(x, g.loc, #[trigger] g.succs[j]) by { let e = g.succs[j]; assert(fe_ok(w, g.loc, e)); assert(has(w, e.e.loc)); assert(has(x, e.e.loc)); if e.e.eff is Observe { assert(w.gh.d.contains(e.e.loc)); assert(clean(w, e.e.loc)); } }
        }
    }
    assert(b1(x)) by { assert forall|q: Loc| #[trigger] x.gh.b.contains(q) implies comp_off(x, q) && x.t[q].res is Some by { assert(w.gh.b.contains(q)); assert(comp_off(w, q)); assert(has(w, q)); } }
    assert(all_marked(x)) by {
        assert forall|q: Loc, k: int| !#[trigger] bad(x, q, k) by {
            if bad(x, q, k) {
                if q == l { let e = f[k].e; assert(x.t[l].succs[k] == e); assert(fe_ok(w, l, f[k])); if e.eff is Observe { assert(w.gh.d.contains(e.loc)); assert(clean(w, e.loc)); } assert(has(w, e.loc)); assert(solid(x, e)); }
                else { assert(comp_off(w, q)); assert(has(w, q)); let e = w.t[q].succs[k]; assert(x.t[q].succs[k] == e); assert(!bad(w, q, k)); assert(edge_wf(w, q, e)); assert(has(w, e.loc)); assert(solid(w, e)); assert(solid(x, e)); }
            }
        }
    }
    assert(guar(v, x)) by {
        assert(same_stack(v, x)) by { if v.s.len() > 0 { assert(prefix(v.s.last().succs, x.s.last().succs)); } }
        assert forall|q: Loc| #[trigger] has(v, q) implies has(x, q) by { assert(has(u, q)); assert(has(w, q)); }
        assert forall|q: Loc| #[trigger] v.gh.d.contains(q) implies x.gh.d.contains(q) by { assert(u.gh.d.contains(q)); }
        assert forall|q: Loc| #[trigger] v.gh.a.contains(q) implies x.gh.a.contains(q) && same_content(v.t[q], x.t[q]) by { assert(u.gh.a.contains(q)); assert(has(v, q)); assert(has(w, q)); }
        assert forall|q: Loc| #[trigger] v.gh.d.contains(q) && v.t[q].kind is Comp implies x.t[q].kind is Comp && x.t[q].res == v.t[q].res && x.t[q].succs == v.t[q].succs by { assert(u.gh.d.contains(q)); assert(q != l); assert(clean(v, q)); assert(has(v, q)); assert(has(u, q)); assert(has(w, q)); }
        assert forall|q: Loc| #[trigger] busy(v, q) implies kept(v, x, q) by {
            assert(q != l) by { if onstack(v, l) { let i = choose|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == l; } }
            assert(onstack(u, q) == (onstack(v, q) || q == l)); assert(busy(u, q)); assert(kept(u, w, q));
            assert(has(v, q)) by { if onstack(v, q) { let i = choose|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == q; assert(has(v, v.s[i].loc)); } else { assert(comp_off(v, q)); } }
            assert(has(u, q)); assert(has(w, q)); assert(u.t[q] == (N { preds: u.t[q].preds, ..v.t[q] })); assert(x.t[q] == (N { preds: x.t[q].preds, ..w.t[q] }));
            assert forall|k: (Effect, Loc)| #[trigger] v.t[q].dirty.contains(k) implies x.t[q].dirty.contains(k) by { assert(u.t[q].dirty.contains(k)); }
            assert forall|k: int| 0 <= k < v.t[q].succs.len() && relied(v, #[trigger] v.t[q].succs[k]) implies (bit(x.t[q], v.t[q].succs[k]) <==> bit(v.t[q], v.t[q].succs[k])) by { let e = u.t[q].succs[k]; assert(v.t[q].succs[k] == e); assert(relied(u, u.t[q].succs[k])); }
        }
    }
}
pub proof fn rm_none(t: IMap<Loc, N>, l: Loc, s: Seq<E>) ensures rm_preds(t, l, s.take(0)) == t { assert(rm_preds(t, l, s.take(0)) =~= t); }
pub proof fn rm_one(t: IMap<Loc, N>, l: Loc, s: Seq<E>, k: int)
    requires 0 <= k < s.len(), t.dom().contains(s[k].loc),
    ensures ({ let a = rm_preds(t, l, s.take(k)); rm_preds(t, l, s.take(k + 1)) == a.insert(s[k].loc, N { preds: minus(a[s[k].loc].preds, l), ..a[s[k].loc] }) }),
{
    let a = rm_preds(t, l, s.take(k)); let m = s[k].loc; let b = a.insert(m, N { preds: minus(a[m].preds, l), ..a[m] }); let c = rm_preds(t, l, s.take(k + 1));
    assert forall|q: Loc| #[trigger] c.dom().contains(q) implies c[q] == b[q] by {
        assert(tgt(s.take(k + 1), q) == (tgt(s.take(k), q) || q == m)) by {
            if tgt(s.take(k), q) { let j = choose|j: int| 0 <= j < s.take(k).len() && (#[trigger] s.take(k)[j]).loc == q; assert(s.take(k + 1)[j].loc == q); }
            if tgt(s.take(k + 1), q) { let j = choose|j: int| 0 <= j < s.take(k + 1).len() && (#[trigger] s.take(k + 1)[j]).loc == q; if j < k { assert(s.take(k)[j].loc == q); } }
            if q == m { assert(s.take(k + 1)[k].loc == m); }
        }
        if q == m { assert(minus(minus(t[m].preds, l), l) =~= minus(t[m].preds, l)); }
    }
    assert(c =~= b);
}
/// the reasons to run a computation again: it has no result, or a change was found
pub open spec fn changed_at(v: V, l: Loc, d: Dep) -> bool {
    match d { Dep::ForceDep(_) => !accepts(v, l, d), Dep::ForceMapDep(_) => !accepts(v, l, d), Dep::AllocStructuralThunk(_) => false, _ => true }
}
pub open spec fn changed_dep(v: V, e: E) -> bool { changed_at(v, e.loc, e.dep) }
pub open spec fn reason(v: V, l: Loc) -> bool {
    v.t[l].res is None || exists|k: int| 0 <= k < v.t[l].succs.len() && bit(v.t[l], #[trigger] v.t[l].succs[k]) && changed_dep(v, v.t[l].succs[k])
}
pub proof fn out_facts(v: V, l: Loc)
    requires core(v), comp_off(v, l),
    ensures forall|k: int| 0 <= k < v.t[l].succs.len() ==> edge_wf(v, l, #[trigger] v.t[l].succs[k]),
{ reveal(core); }
pub proof fn empty_facts()
    ensures forall|s: Seq<Succ>| s.len() == 0 ==> #[trigger] ses(s) == Seq::<E>::empty(), forall|s: Seq<Succ>| s.len() == 0 ==> #[trigger] dkeys(s) == ISet::<(Effect, Loc)>::empty(),
        forall|s: Seq<(Succ, Option<Rc<Dep>>)>| s.len() == 0 ==> #[trigger] fes(s) == Seq::<FE>::empty(),
        forall|s: Seq<Pred>| s.len() == 0 ==> #[trigger] ps(s) == ISet::<P>::empty(),
{
    assert forall|s: Seq<Succ>| s.len() == 0 implies #[trigger] ses(s) == Seq::<E>::empty() by { assert(ses(s) =~= Seq::<E>::empty()); }
    assert forall|s: Seq<Succ>| s.len() == 0 implies #[trigger] dkeys(s) == ISet::<(Effect, Loc)>::empty() by { assert(dkeys(s) =~= ISet::<(Effect, Loc)>::empty()); }
    assert forall|s: Seq<(Succ, Option<Rc<Dep>>)>| s.len() == 0 implies #[trigger] fes(s) == Seq::<FE>::empty() by { assert(fes(s) =~= Seq::<FE>::empty()); }
    assert forall|s: Seq<Pred>| s.len() == 0 implies #[trigger] ps(s) == ISet::<P>::empty() by { assert(ps(s) =~= ISet::<P>::empty()); }
}
pub open spec fn none_dirty(s: Seq<Succ>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).dirty }
pub proof fn undirty_facts()
    ensures forall|s: Seq<Succ>| none_dirty(s) ==> #[trigger] dkeys(s) == ISet::<(Effect, Loc)>::empty(),
{
    assert forall|s: Seq<Succ>| none_dirty(s) implies #[trigger] dkeys(s) == ISet::<(Effect, Loc)>::empty() by { assert(dkeys(s) =~= ISet::<(Effect, Loc)>::empty()); }
}
pub proof fn frame_facts(w: V)
    requires core(w), w.s.len() > 0,
    ensures forall|j: int| 0 <= j < w.s.last().succs.len() ==> fe_ok(w, w.s.last().loc, #[trigger] w.s.last().succs[j]),
{ reveal(core); assert(frame_ok(w, w.s[w.s.len() - 1])); }
pub proof fn ins_none(t: IMap<Loc, N>, l: Loc, f: Seq<FE>) ensures ins_preds(t, l, f.take(0)) == t, f.take(f.len() as int) == f
{
    assert forall|m: Loc| t.dom().contains(m) implies #[trigger] ins_preds(t, l, f.take(0))[m] == t[m] by { assert(ins_preds(t, l, f.take(0))[m].preds =~= t[m].preds); }
    assert(ins_preds(t, l, f.take(0)) =~= t); assert(f.take(f.len() as int) =~= f);
}
pub proof fn ins_one(t: IMap<Loc, N>, l: Loc, f: Seq<FE>, k: int)
    requires 0 <= k < f.len(), t.dom().contains(f[k].e.loc),
    ensures ({ let a = ins_preds(t, l, f.take(k)); let m = f[k].e.loc; ins_preds(t, l, f.take(k + 1)) == a.insert(m, N { preds: a[m].preds.insert(P { eff: f[k].e.eff, loc: l, dep: f[k].pd }), ..a[m] }) }),
{
    let a = ins_preds(t, l, f.take(k)); let m = f[k].e.loc; let b = a.insert(m, N { preds: a[m].preds.insert(P { eff: f[k].e.eff, loc: l, dep: f[k].pd }), ..a[m] }); let c = ins_preds(t, l, f.take(k + 1));
    assert forall|q: Loc| #[trigger] c.dom().contains(q) implies c[q] == b[q] by {
        assert forall|p: P| c[q].preds.contains(p) == b[q].preds.contains(p) by {
            if new_pred(f.take(k + 1), l, q, p) { let j = choose|j: int| 0 <= j < f.take(k + 1).len() && (#[trigger] f.take(k + 1)[j]).e.loc == q && p == (P { eff: f.take(k + 1)[j].e.eff, loc: l, dep: f.take(k + 1)[j].pd }); if j < k { assert(f.take(k)[j] == f[j]); assert(new_pred(f.take(k), l, q, p)); } }
            if new_pred(f.take(k), l, q, p) { let j = choose|j: int| 0 <= j < f.take(k).len() && (#[trigger] f.take(k)[j]).e.loc == q && p == (P { eff: f.take(k)[j].e.eff, loc: l, dep: f.take(k)[j].pd }); assert(f.take(k + 1)[j] == f[j]); assert(new_pred(f.take(k + 1), l, q, p)); }
            if q == m { assert(f.take(k + 1)[k] == f[k]); assert(new_pred(f.take(k + 1), l, m, P { eff: f[k].e.eff, loc: l, dep: f[k].pd })); }
        }
        assert(c[q].preds =~= b[q].preds);
    }
    assert(c =~= b);
}
