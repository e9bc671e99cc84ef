// ================= what running code preserves
pub open spec fn prefix(a: Seq<FE>, b: Seq<FE>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn same_content(n: N, m: N) -> bool { m.kind == n.kind && m.producer == n.producer && m.val == n.val }
pub open spec fn busy(v: V, l: Loc) -> bool { onstack(v, l) || v.gh.b.contains(l) }
pub open spec fn same_stack(v: V, w: V) -> bool {
    &&& w.s.len() == v.s.len()
    &&& forall|i: int| 0 <= i < v.s.len() - 1 ==> #[trigger] w.s[i] == v.s[i]
    &&& v.s.len() > 0 ==> w.s.last().loc == v.s.last().loc && prefix(v.s.last().succs, w.s.last().succs)
}
pub open spec fn kept(v: V, w: V, l: Loc) -> bool {
    &&& same_content(v.t[l], w.t[l]) && w.t[l].res == v.t[l].res && w.t[l].succs == v.t[l].succs
    &&& forall|k: (Effect, Loc)| #[trigger] v.t[l].dirty.contains(k) ==> w.t[l].dirty.contains(k)
    &&& forall|k: int| 0 <= k < v.t[l].succs.len() && relied(v, #[trigger] v.t[l].succs[k]) ==> (bit(w.t[l], v.t[l].succs[k]) <==> bit(v.t[l], v.t[l].succs[k]))
}
/// what is relied on, and what is running, stays as it is; the running computation records more
#[verifier::opaque]
pub open spec fn guar(v: V, w: V) -> bool {
    &&& same_stack(v, w) && w.path == v.path && w.flags == v.flags && w.gh.b == v.gh.b
    &&& forall|l: Loc| #[trigger] has(v, l) ==> has(w, l)
    &&& forall|l: Loc| #[trigger] v.gh.d.contains(l) ==> w.gh.d.contains(l)
    &&& forall|l: Loc| #[trigger] v.gh.a.contains(l) ==> w.gh.a.contains(l) && same_content(v.t[l], w.t[l])
    &&& forall|l: Loc| #[trigger] v.gh.d.contains(l) && v.t[l].kind is Comp ==> w.t[l].kind is Comp && w.t[l].res == v.t[l].res && w.t[l].succs == v.t[l].succs
    &&& forall|l: Loc| #[trigger] busy(v, l) ==> kept(v, w, l)
}
pub proof fn guar_refl(v: V) ensures guar(v, v) { reveal(guar); }
pub proof fn guar_at(v: V, w: V, l: Loc)
    requires guar(v, w),
    ensures same_stack(v, w), w.path == v.path, w.flags == v.flags, w.gh.b == v.gh.b, has(v, l) ==> has(w, l),
        onstack(w, l) == onstack(v, l), busy(w, l) == busy(v, l), low(w, l) == low(v, l),
        v.gh.d.contains(l) ==> w.gh.d.contains(l), v.gh.a.contains(l) ==> w.gh.a.contains(l), busy(v, l) ==> kept(v, w, l),
{
    reveal(guar);
    assert(has(v, l) ==> has(w, l));
    same_on(v, w);
    assert(onstack(w, l) == onstack(v, l));
    assert forall|i: int| 0 <= i < v.s.len() implies (#[trigger] w.s[i]).loc == v.s[i].loc by {}
    if low(v, l) { assert(low(w, l)); }
    if low(w, l) { assert forall|i: int| 0 <= i < v.s.len() implies rank(l) < rank((#[trigger] v.s[i]).loc) by { assert(w.s[i].loc == v.s[i].loc); } }
}
pub proof fn same_on(v: V, w: V)
    requires same_stack(v, w),
    ensures forall|l: Loc| #[trigger] onstack(w, l) == onstack(v, l),
{
    assert forall|i: int| 0 <= i < v.s.len() implies (#[trigger] w.s[i]).loc == v.s[i].loc by { if i < v.s.len() - 1 {} else { assert(i == v.s.len() - 1); } }
    assert forall|l: Loc| #[trigger] onstack(w, l) == onstack(v, l) by {
        if onstack(v, l) { let i = choose|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == l; assert(w.s[i].loc == l); }
        if onstack(w, l) { let i = choose|i: int| 0 <= i < w.s.len() && (#[trigger] w.s[i]).loc == l; assert(v.s[i].loc == l); }
    }
}
pub proof fn guar_trans(u: V, v: V, w: V)
    requires guar(u, v), guar(v, w),
    ensures guar(u, w),
{
    reveal(guar);
    same_on(u, v); same_on(v, w);
    assert(same_stack(u, w)) by {
        assert forall|i: int| 0 <= i < u.s.len() - 1 implies #[trigger] w.s[i] == u.s[i] by { assert(v.s[i] == u.s[i]); }
        if u.s.len() > 0 { let a = u.s.last().succs; let b = v.s.last().succs; let c = w.s.last().succs;
            assert forall|i: int| 0 <= i < a.len() implies #[trigger] c[i] == a[i] by { assert(b[i] == a[i]); } }
    }
    assert forall|l: Loc| #[trigger] has(u, l) implies has(w, l) by { assert(has(v, l)); }
    assert forall|l: Loc| #[trigger] u.gh.d.contains(l) implies w.gh.d.contains(l) by { assert(v.gh.d.contains(l)); }
    assert forall|l: Loc| #[trigger] u.gh.a.contains(l) implies w.gh.a.contains(l) && same_content(u.t[l], w.t[l]) by { assert(v.gh.a.contains(l)); }
    assert forall|l: Loc| #[trigger] u.gh.d.contains(l) && u.t[l].kind is Comp implies w.t[l].kind is Comp && w.t[l].res == u.t[l].res && w.t[l].succs == u.t[l].succs by {
        assert(v.gh.d.contains(l));
        assert(v.t[l].res == u.t[l].res);
        assert(v.t[l].kind is Comp);
    }
    assert forall|l: Loc| #[trigger] busy(u, l) implies kept(u, w, l) by {
        assert(onstack(v, l) == onstack(u, l)); assert(busy(v, l)); assert(kept(u, v, l)); assert(kept(v, w, l));
        assert forall|k: (Effect, Loc)| #[trigger] u.t[l].dirty.contains(k) implies w.t[l].dirty.contains(k) by { assert(v.t[l].dirty.contains(k)); }
        assert forall|k: int| 0 <= k < u.t[l].succs.len() && relied(u, #[trigger] u.t[l].succs[k]) implies (bit(w.t[l], u.t[l].succs[k]) <==> bit(u.t[l], u.t[l].succs[k])) by {
            let e = u.t[l].succs[k]; assert(v.t[l].succs[k] == e);
            assert(u.gh.d.contains(e.loc) ==> v.gh.d.contains(e.loc)); assert(u.gh.a.contains(e.loc) ==> v.gh.a.contains(e.loc));
            assert(relied(v, v.t[l].succs[k]));
        }
    }
}
