// ================= the interface
/// `body` ran in this namespace, with these flags
pub uninterp spec fn body_ran(b: Body, path: Path, flags: Flags, r: Val) -> bool;
/// outside of any computation, nothing is relied on
pub open spec fn top(v: V) -> V { if v.s.len() == 0 { V { gh: Gh { d: ISet::empty(), a: ISet::empty(), b: ISet::empty() }, ..v } } else { v } }
pub proof fn top_inv(v: V)
    requires inv(v),
    ensures inv(top(v)), forall|l: Loc| clean(top(v), l) == #[trigger] clean(v, l),
        v.s.len() == 0 ==> (forall|l: Loc| !(#[trigger] top(v).gh.a.contains(l)) && !busy(top(v), l) && low(top(v), l)),
{
    if v.s.len() == 0 {
        reveal(core); let w = top(v);
        assert forall|l: Loc| #[trigger] onstack(w, l) == onstack(v, l) by {}
        assert forall|l: Loc| #[trigger] comp_off(w, l) == comp_off(v, l) by {}
        assert forall|l: Loc| clean(w, l) == #[trigger] clean(v, l) by {}
        assert forall|l: Loc, d: Dep| #[trigger] accepts(w, l, d) == accepts(v, l, d) by {}
        assert(w1(w)) by { assert forall|l: Loc, k: int| comp_off(w, l) && 0 <= k < w.t[l].succs.len() implies edge_wf(w, l, #[trigger] w.t[l].succs[k]) by { assert(comp_off(v, l)); assert(edge_wf(v, l, v.t[l].succs[k])); } }
        assert(w2(w)) by { assert forall|m: Loc, p: P| has(w, m) && #[trigger] w.t[m].preds.contains(p) implies comp_off(w, p.loc) && has_key(w.t[p.loc].succs, p.eff, m) by { assert(has(v, m)); assert(comp_off(v, p.loc)); } }
        assert(w3(w));
        assert(w5(w)) by { assert forall|l: Loc| #[trigger] has(w, l) && w.t[l].kind is Pure implies *l.id is Structural by { assert(has(v, l)); } }
        assert(s1(w)) by { assert forall|l: Loc| #[trigger] comp_off(w, l) && w.t[l].res is Some implies ran(w.t[l].producer, *l.path, w.t[l].succs, w.t[l].res->0) by { assert(comp_off(v, l)); } }
        assert(d1(w)); assert(d2(w)); assert(b1(w));
        assert(all_marked(w)) by { assert forall|l: Loc, k: int| !#[trigger] bad(w, l, k) by { assert(!bad(v, l, k)); } }
    }
}
/// the invariant does not depend on the current namespace and the flags
pub open spec fn moved(v: V, p: Path, f: Flags) -> V { V { path: p, flags: f, ..v } }
pub proof fn moved_inv(v: V, p: Path, f: Flags)
    requires inv(v),
    ensures inv(moved(v, p, f)),
{
    reveal(core); let w = moved(v, p, f);
    assert forall|l: Loc| #[trigger] onstack(w, l) == onstack(v, l) by {}
    assert forall|l: Loc| #[trigger] comp_off(w, l) == comp_off(v, l) by {}
    assert forall|l: Loc| clean(w, l) == #[trigger] clean(v, l) by {}
    assert forall|l: Loc, d: Dep| #[trigger] accepts(w, l, d) == accepts(v, l, d) by {}
    assert(w1(w)) by { assert forall|l: Loc, k: int| comp_off(w, l) && 0 <= k < w.t[l].succs.len() implies edge_wf(w, l, #[trigger] w.t[l].succs[k]) by { assert(comp_off(v, l)); assert(edge_wf(v, l, v.t[l].succs[k])); } }
    assert(w2(w)) by { assert forall|m: Loc, p: P| has(w, m) && #[trigger] w.t[m].preds.contains(p) implies comp_off(w, p.loc) && has_key(w.t[p.loc].succs, p.eff, m) by { assert(has(v, m)); assert(comp_off(v, p.loc)); } }
    assert(w3(w));
    assert(w5(w)) by { assert forall|l: Loc| #[trigger] has(w, l) && w.t[l].kind is Pure implies *l.id is Structural by { assert(has(v, l)); } }
    assert(s1(w)) by { assert forall|l: Loc| #[trigger] comp_off(w, l) && w.t[l].res is Some implies ran(w.t[l].producer, *l.path, w.t[l].succs, w.t[l].res->0) by { assert(comp_off(v, l)); } }
    assert(d1(w)) by {
        assert forall|l: Loc| #[trigger] w.gh.d.contains(l) implies w.gh.a.contains(l) && clean(w, l) by { assert(v.gh.d.contains(l)); assert(clean(v, l)); }
        assert forall|l: Loc, k: int| w.gh.d.contains(l) && w.t[l].kind is Comp && 0 <= k < w.t[l].succs.len() implies relied(w, #[trigger] w.t[l].succs[k]) by { assert(relied(v, v.t[l].succs[k])); }
        assert forall|l: Loc| #[trigger] w.gh.a.contains(l) implies has(w, l) by { assert(v.gh.a.contains(l)); assert(has(v, l)); }
    }
    assert(d2(w)) by { assert forall|i: int| 0 <= i < w.s.len() implies frame_ok(w, #[trigger] w.s[i]) by { assert(frame_ok(v, v.s[i]));
        assert forall|j: int| 0 <= j < w.s[i].succs.len() implies fe_ok(w, w.s[i].loc, #[trigger] w.s[i].succs[j]) by { assert(fe_ok(v, v.s[i].loc, v.s[i].succs[j])); } } }
    assert(b1(w)) by { assert forall|l: Loc| #[trigger] w.gh.b.contains(l) implies comp_off(w, l) && w.t[l].res is Some by { assert(v.gh.b.contains(l)); assert(comp_off(v, l)); } }
    assert(all_marked(w)) by { assert forall|l: Loc, k: int| !#[trigger] bad(w, l, k) by { assert(!bad(v, l, k)); } }
}
pub proof fn moved_guar(v: V, w: V, p: Path, f: Flags)
    requires guar(moved(v, p, f), w),
    ensures guar(v, moved(w, v.path, v.flags)),
{
    reveal(guar); let u = moved(v, p, f); let x = moved(w, v.path, v.flags);
    assert forall|l: Loc| #[trigger] has(v, l) implies has(x, l) by { assert(has(u, l)); }
    assert forall|l: Loc| #[trigger] busy(v, l) implies kept(v, x, l) by { assert(onstack(u, l) == onstack(v, l)); assert(busy(u, l)); assert(kept(u, w, l));
        assert forall|k: int| 0 <= k < v.t[l].succs.len() && relied(v, #[trigger] v.t[l].succs[k]) implies (bit(x.t[l], v.t[l].succs[k]) <==> bit(v.t[l], v.t[l].succs[k])) by { assert(relied(u, u.t[l].succs[k])); } }
}
/// identity of a reference: the namespace, and the name (or, for structural identity, the content)
pub open spec fn loc_at(path: Path, id: ArtId) -> Loc { Loc { path: Rc::new(path), id: Rc::new(id), hash: loc_hash(Rc::new(path), Rc::new(id)) } }
pub open spec fn cell_id(fl: Flags, nm: Name, x: Val) -> ArtId { if fl.ignore_nominal_use_structural { ArtId::Structural(hash_of(&x)) } else { ArtId::Nominal(nm) } }
pub open spec fn cell_loc(v: V, nm: Name, x: Val) -> Loc { loc_at(v.path, cell_id(v.flags, nm, x)) }
pub open spec fn cell_pure(v: V) -> bool { v.flags.ignore_nominal_use_structural && v.flags.use_purity_optimization }
/// the content at `l` may change
pub open spec fn free(v: V, l: Loc) -> bool { v.s.len() == 0 || (!v.gh.a.contains(l) && !busy(v, l)) }
pub open spec fn cell_ok(v: V, nm: Name, x: Val) -> bool {
    let l = cell_loc(v, nm, x);
    has(v, l) ==> {
        &&& *l.id is Structural ==> !(v.t[l].kind is Comp) && v.t[l].val == x
        &&& !cell_pure(v) ==> !(v.t[l].kind is Pure)
        &&& v.t[l].kind is Comp || v.t[l].val != x ==> free(v, l)
    }
}
/// the running computation, if any, has recorded this last
pub open spec fn recorded(w: V, e: E) -> bool { w.s.len() > 0 ==> w.s.last().succs.len() > 0 && w.s.last().succs.last().e == e }
#[verifier::external_body] pub struct Body { v: u64 }
impl Body {
    /// user code: it uses the engine only through its interface
    #[verifier::external_body]
    pub fn call(self, g: &mut DCG) -> (r: Val)
        requires inv(v(*old(g))),
        ensures inv(v(*final(g))), same_stack(v(*old(g)), v(*final(g))), v(*final(g)).path == v(*old(g)).path, v(*final(g)).flags == v(*old(g)).flags,
            v(*old(g)).s.len() > 0 ==> guar(v(*old(g)), v(*final(g))), body_ran(self, v(*old(g)).path, v(*old(g)).flags, r),
    { unimplemented!() }
}
impl ProgPt {
    #[verifier::external_body]
    pub fn eq(&self, o: &ProgPt) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
}
pub uninterp spec fn app_ty(a: App) -> TypeId;
impl App {
    #[verifier::external_body]
    pub fn app_typeid(&self) -> (r: TypeId) ensures r == app_ty(*self) { unimplemented!() }
}
pub uninterp spec fn absres(f: AbsFam, arg: Val, x: Val) -> Val;
impl AbsFam {
    #[verifier::external_body]
    pub fn map(&self, arg: Val, x: Val) -> (r: Val) ensures r == absres(*self, arg, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(&self, arg: Val) -> (r: Val) { unimplemented!() }
}
pub proof fn new_inv(v: V)
    requires v.s.len() == 0, forall|l: Loc| !(#[trigger] has(v, l)), v.gh == (Gh { d: ISet::empty(), a: ISet::empty(), b: ISet::empty() }),
    ensures inv(v),
{ reveal(core); assert forall|l: Loc| !(#[trigger] comp_off(v, l)) by { assert(!(has(v, l))); } }
pub proof fn still_marked(u: V, w: V)
    requires inv(u), core(w), forall|x: Effect, m: Loc| #[trigger] bad_at(w, x, m) ==> bad_at(u, x, m),
    ensures inv(w),
{
    assert forall|q: Loc, k: int| !#[trigger] bad(w, q, k) by { if bad(w, q, k) { let e = key(w.t[q].succs[k]); assert(bad_at(w, e.0, e.1)); assert(bad_at(u, e.0, e.1)); let (a, b) = choose|a: Loc, b: int| #[trigger] bad(u, a, b) && key(u.t[a].succs[b]) == (e.0, e.1); } }
}
pub proof fn stack_same(v: V, w: V) requires w.s == v.s, ensures forall|x: V| #[trigger] same_stack(w, x) ==> same_stack(v, x) { assert forall|x: V| #[trigger] same_stack(w, x) implies same_stack(v, x) by {} }
pub proof fn top_facts(v: V)
    requires core(v),
    ensures v.s.len() > 0 ==> has(v, v.s.last().loc) && v.t[v.s.last().loc].kind is Comp && onstack(v, v.s.last().loc),
{ reveal(core); if v.s.len() > 0 { let i = v.s.len() - 1; assert(has(v, v.s[i].loc)); assert(v.s[i].loc == v.s.last().loc); } }
pub proof fn revoke_facts(v: V, l: Loc)
    requires core(v), comp_off(v, l),
    ensures forall|k: int| 0 <= k < v.t[l].succs.len() ==> has(v, (#[trigger] v.t[l].succs[k]).loc) && !(v.t[v.t[l].succs[k].loc].kind is Pure),
        rm_preds(v.t, l, v.t[l].succs).dom().contains(l), rm_preds(v.t, l, v.t[l].succs)[l] == v.t[l],
{
    reveal(core); let s = v.t[l].succs;
    assert forall|k: int| 0 <= k < s.len() implies has(v, (#[trigger] s[k]).loc) && !(v.t[s[k].loc].kind is Pure) && s[k].loc != l by { assert(edge_wf(v, l, v.t[l].succs[k])); }
    assert(!tgt(s, l));
}
pub proof fn fes_push_facts()
    ensures forall|s: Seq<(Succ, Option<Rc<Dep>>)>, x: (Succ, Option<Rc<Dep>>)| fes(#[trigger] s.push(x)) == fes(s).push(fe(x)),
{ assert forall|s: Seq<(Succ, Option<Rc<Dep>>)>, x: (Succ, Option<Rc<Dep>>)| fes(#[trigger] s.push(x)) == fes(s).push(fe(x)) by { assert(fes(s.push(x)) =~= fes(s).push(fe(x))); } }
pub proof fn table_facts()
    ensures forall|m: Map<Rc<Loc>, Node>, k: Rc<Loc>, b: Node| vt(#[trigger] m.insert(k, b)) == vt(m).insert(*k, vn(b)),
{ assert forall|m: Map<Rc<Loc>, Node>, k: Rc<Loc>, b: Node| vt(#[trigger] m.insert(k, b)) == vt(m).insert(*k, vn(b)) by { vt_insert(m, k, b); } }
pub proof fn put_same(t: IMap<Loc, N>, l: Loc, a: N, b: N) ensures t.insert(l, a).insert(l, b) == t.insert(l, b) { assert(t.insert(l, a).insert(l, b) =~= t.insert(l, b)); }
pub open spec fn frame_pushed(a: Seq<Frame>, b: Seq<Frame>) -> bool {
    &&& b.len() == a.len() && b.drop_last() =~= a.drop_last() && b.last().loc == a.last().loc
    &&& b.last().succs@ == a.last().succs@.push(b.last().succs@.last())
}
pub proof fn vs_len(a: Seq<Frame>) ensures vs(a).len() == a.len() {}
pub proof fn stack_pushed(a: Seq<Frame>, b: Seq<Frame>)
    requires a.len() > 0, frame_pushed(a, b),
    ensures vs(b) == vs(a).drop_last().push(Fr { loc: vs(a).last().loc, succs: vs(a).last().succs.push(fe(b.last().succs@.last())) }),
{
    let n = a.len() - 1;
    fes_push_facts(); assert forall|i: int| 0 <= i < n implies b[i] == a[i] by { assert(b.drop_last()[i] == a.drop_last()[i]); }
    assert(vs(b) =~= vs(a).drop_last().push(Fr { loc: vs(a).last().loc, succs: vs(a).last().succs.push(fe(b.last().succs@.last())) }));
}
/// the running computation has allocated `l`, and records it
pub open spec fn alloc_fe(l: Loc, d: Dep) -> FE { FE { e: E { eff: Effect::Allocate, loc: l, dep: d }, dirty: false, pd: None } }
pub open spec fn alloced(v: V, l: Loc, d: Dep) -> V { if v.s.len() > 0 { pushed(rely_alloc(v, l), alloc_fe(l, d)) } else { rely_alloc(v, l) } }
pub proof fn alloced_stack(v: V, l: Loc, d: Dep, a: Seq<Frame>, b: Seq<Frame>)
    requires v.s == vs(a), if a.len() > 0 { frame_pushed(a, b) && fe(b.last().succs@.last()) == alloc_fe(l, d) } else { b =~= a },
    ensures vs(b) == alloced(v, l, d).s,
{ if a.len() > 0 { stack_pushed(a, b); } }
pub open spec fn alloc_x(a: Seq<Frame>, b: Seq<Frame>, x: (Succ, Option<Rc<Dep>>), l: Loc, d: Dep) -> bool {
    &&& b == a.update(a.len() - 1, b.last()) && b.last().loc == a.last().loc && b.last().succs@ == a.last().succs@.push(x)
    &&& *x.0.loc == l && x.0.effect is Allocate && *x.0.dep == d && !x.0.dirty && x.1 is None
}
pub proof fn alloced_push(v: V, l: Loc, d: Dep, a: Seq<Frame>, b: Seq<Frame>, x: (Succ, Option<Rc<Dep>>))
    requires v.s == vs(a), if a.len() > 0 { alloc_x(a, b, x, l, d) } else { b == a },
    ensures vs(b) == alloced(v, l, d).s,
{ if a.len() > 0 { assert(b.drop_last() =~= a.drop_last()); } alloced_stack(v, l, d, a, b); }
pub proof fn alloced_inv(v: V, l: Loc, d: Dep)
    requires inv(v), has(v, l), v.s.len() > 0 ==> l != v.s.last().loc, !(v.t[l].kind is Pure), accepts(v, l, d), !is_obs_dep(d),
    ensures inv(alloced(v, l, d)), guar(v, alloced(v, l, d)), alloced(v, l, d).s.len() == v.s.len(),
{
    rely_alloc_ok(v, l); let w = rely_alloc(v, l);
    if v.s.len() > 0 { assert(fe_ok(w, w.s.last().loc, alloc_fe(l, d))); pushed_inv(w, alloc_fe(l, d)); guar_trans(v, w, alloced(v, l, d)); }
}
pub proof fn alloced_all(u: V, w: V, l: Loc, d: Dep)
    requires inv(u), inv(w), guar(u, w), has(w, l), w.s.len() > 0 ==> l != w.s.last().loc, !(w.t[l].kind is Pure), accepts(w, l, d), !is_obs_dep(d),
    ensures ({ let z = alloced(w, l, d);
        &&& inv(z) && guar(u, z) && same_stack(u, z) && z.path == u.path && z.flags == u.flags
        &&& z == (V { s: z.s, gh: z.gh, ..w }) && recorded(z, alloc_fe(l, d).e) }),
{ alloced_inv(w, l, d); let z = alloced(w, l, d); guar_trans(u, w, z); guar_at(u, z, l); }
pub open spec fn new_thunk(app: App) -> N { N { kind: Kind::Comp, preds: ISet::empty(), succs: Seq::empty(), dirty: ISet::empty(), producer: app, res: None, val: arbitrary() } }
pub proof fn fresh_all(u: V, l: Loc, app: App, d: Dep)
    requires inv(u), !(has(u, l)), accepts(put_node(u, l, new_thunk(app)), l, d), !is_obs_dep(d),
    ensures ({ let w = put_node(u, l, new_thunk(app)); let z = alloced(w, l, d);
        &&& inv(z) && guar(u, z) && same_stack(u, z) && z.path == u.path && z.flags == u.flags
        &&& z == (V { s: z.s, gh: z.gh, ..w }) && recorded(z, alloc_fe(l, d).e) }),
{ let n = new_thunk(app); fresh_inv(u, l, n); top_facts(u); let w = put_node(u, l, n); alloced_all(u, w, l, d); }
pub proof fn guar_stack(v: V, w: V) requires guar(v, w), ensures w.s.len() == v.s.len(), v.s.len() > 0 ==> w.s.last().loc == v.s.last().loc { reveal(guar); }
pub proof fn thunk_recontent(u: V, l: Loc, n: N)
    requires core(u), has(u, l), !(u.t[l].kind is Pure), n.kind is Comp, n.preds == u.t[l].preds, n.res is None, !u.gh.a.contains(l), !busy(u, l),
        n.succs == (if u.t[l].kind is Comp { u.t[l].succs } else { Seq::empty() }), n.dirty == (if u.t[l].kind is Comp { u.t[l].dirty } else { ISet::empty() }), u.t[l].kind is Mut ==> u.t[l].succs.len() == 0 && u.t[l].dirty == ISet::<(Effect, Loc)>::empty(),
    ensures recontent(u, l, n), core(put_node(u, l, n)),
{ assert(n.succs =~= u.t[l].succs); recontent_core(u, l, n); }
pub proof fn free_top(v: V)
    ensures forall|l: Loc| #[trigger] free(v, l) ==> !top(v).gh.a.contains(l) && !busy(top(v), l), same_stack(v, top(v)),
{ assert forall|l: Loc| #[trigger] free(v, l) implies !top(v).gh.a.contains(l) && !busy(top(v), l) by {} if v.s.len() > 0 { assert(prefix(v.s.last().succs, top(v).s.last().succs)); } }
pub open spec fn art_loc(a: AbsArt) -> Loc { *a->Loc_0 }
pub open spec fn holds(v: V, l: Loc, r: Val) -> bool { if v.t[l].kind is Comp { v.t[l].res == Some(r) } else { v.t[l].val == r } }
/// what is never recorded: constants
pub open spec fn constant(v: V, l: Loc) -> bool { v.t[l].kind is Pure || (*l.id is Structural && v.t[l].kind is Comp && v.t[l].succs.len() == 0 && v.flags.use_purity_optimization) }
pub open spec fn obs_e(l: Loc, r: Val) -> E { E { eff: Effect::Observe, loc: l, dep: Dep::ForceDep(ForceDep { res: r }) } }
/// the running computation, if any, has recorded that it observed the value of `l`
pub open spec fn observed(v: V, l: Loc, r: Val) -> bool {
    v.s.len() > 0 && !constant(v, l) ==> exists|j: int| 0 <= j < v.s.last().succs.len() && (#[trigger] v.s.last().succs[j]).e == obs_e(l, r) && v.s.last().succs[j].pd is None
}
pub open spec fn obs_fe(l: Loc, d: Dep, p: bool) -> FE { FE { e: E { eff: Effect::Observe, loc: l, dep: d }, dirty: false, pd: if p { Some(d) } else { None } } }
pub open spec fn obsed(v: V, l: Loc, d: Dep, p: bool) -> V { if v.s.len() > 0 { pushed(rely(v, l), obs_fe(l, d, p)) } else { rely(v, l) } }
pub proof fn obsed_inv(u: V, w: V, l: Loc, d: Dep, p: bool)
    requires inv(u), inv(w), guar(u, w), low(u, l), clean(w, l), !(w.t[l].kind is Pure), accepts(w, l, d), is_obs_dep(d), !p ==> d is ForceDep,
    ensures ({ let z = obsed(w, l, d, p); inv(z) && guar(u, z) && clean(z, l) && z.path == u.path && z.flags == u.flags && same_stack(u, z) && z == (V { s: z.s, gh: z.gh, ..w }) && recorded(z, obs_fe(l, d, p).e) }),
{
    rely_ok(w, l); let x = rely(w, l); let z = obsed(w, l, d, p); guar_at(u, w, l); top_facts(w); low_off(w, l);
    if w.s.len() > 0 { assert(w.s[w.s.len() - 1].loc == w.s.last().loc); assert(fe_ok(x, x.s.last().loc, obs_fe(l, d, p))); pushed_inv(x, obs_fe(l, d, p)); guar_trans(w, x, z); }
    guar_trans(u, w, z); guar_at(u, z, l);
}
pub proof fn obsed_stack(v: V, l: Loc, d: Dep, p: bool, a: Seq<Frame>, b: Seq<Frame>)
    requires v.s == vs(a), if a.len() > 0 { frame_pushed(a, b) && fe(b.last().succs@.last()) == obs_fe(l, d, p) } else { b =~= a },
    ensures vs(b) == obsed(v, l, d, p).s,
{ if a.len() > 0 { stack_pushed(a, b); } }
pub open spec fn dup_at(x: FE, l: Loc) -> bool { x.e.loc == l && x.e.eff is Observe && x.pd is None }
pub open spec fn is_dup_in(v: V, l: Loc) -> bool { v.s.len() > 0 && exists|j: int| 0 <= j < v.s.last().succs.len() && dup_at(#[trigger] v.s.last().succs[j], l) }
pub proof fn dup_facts(v: V, l: Loc)
    requires inv(v),
    ensures is_dup_in(v, l) ==> clean(v, l) && v.gh.d.contains(l) && !constant_pure(v, l),
{
    if is_dup_in(v, l) { frame_facts(v); let j = choose|j: int| 0 <= j < v.s.last().succs.len() && dup_at(#[trigger] v.s.last().succs[j], l); assert(fe_ok(v, v.s.last().loc, v.s.last().succs[j])); reveal(core); assert(clean(v, l)); }
}
pub proof fn top_low(v: V, l: Loc)
    ensures v.s.len() == 0 || low(v, l) ==> low(top(v), l),
{ }
pub open spec fn dup_x(x: (Succ, Option<Rc<Dep>>), l: Loc) -> bool { *x.0.loc == l && x.0.effect is Observe && x.1 is None }
pub proof fn obs_pushed(a: Seq<Frame>, b: Seq<Frame>, x: (Succ, Option<Rc<Dep>>), l: Loc, d: Dep, p: bool)
    requires a.len() > 0, b == a.update(a.len() - 1, b.last()), b.last().loc == a.last().loc, b.last().succs@ == a.last().succs@.push(x),
        *x.0.loc == l, x.0.effect is Observe, *x.0.dep == d, !x.0.dirty, od(x.1) == (if p { Some(d) } else { None }),
    ensures frame_pushed(a, b), fe(b.last().succs@.last()) == obs_fe(l, d, p),
{ assert(b.drop_last() =~= a.drop_last()); }
pub proof fn ses_len()
    ensures forall|s: Seq<Succ>| (#[trigger] ses(s)).len() == s.len(),
{}
pub proof fn clean_facts()
    ensures forall|v: V, l: Loc| #[trigger] clean(v, l) ==> has(v, l) && !onstack(v, l) && (v.t[l].kind is Comp ==> v.t[l].res is Some),
        forall|v: V, l: Loc| has(v, l) && !onstack(v, l) && !(v.t[l].kind is Comp) ==> #[trigger] clean(v, l),
{}
pub proof fn onstack_in(v: V, s: Seq<Frame>, l: Loc)
    requires v.s == vs(s),
    ensures onstack(v, l) == (exists|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).loc == l),
{
    if onstack(v, l) { let i = choss(v, l); assert(*s[i].loc == l); }
    if exists|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).loc == l { let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).loc == l; assert(v.s[j].loc == l); }
}
pub open spec fn choss(v: V, l: Loc) -> int { choose|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == l }
pub proof fn top_same(v: V)
    ensures top(v) == (V { gh: top(v).gh, ..v }), forall|l: Loc| #[trigger] onstack(top(v), l) == onstack(v, l), forall|l: Loc| #[trigger] clean(top(v), l) == clean(v, l),
{ assert forall|l: Loc| #[trigger] onstack(top(v), l) == onstack(v, l) by {} }
pub proof fn force_end(pb: bool, v0: V, u: V, w: V, z: V, l: Loc, r: Val, a: Seq<Frame>, b: Seq<Frame>)
    requires u == top(v0), inv(u), has(u, l), w.s == vs(a), z.s == vs(b), z == (V { s: z.s, gh: z.gh, ..w }),
        onstack(u, l) ==> w == u && if pb { a.len() > 0 && frame_pushed(a, b) } else { z == w },
        !onstack(u, l) ==> {
            &&& inv(w) && guar(u, w) && clean(w, l) && holds(w, l, r) && low(u, l) && (clean(u, l) ==> w.t == u.t)
            &&& !pb ==> z == w && (is_dup_in(u, l) || constant(w, l))
            &&& pb ==> z.gh == obsed(w, l, Dep::ForceDep(ForceDep { res: r }), false).gh && !(w.t[l].kind is Pure) && if a.len() > 0 { frame_pushed(a, b) && fe(b.last().succs@.last()) == obs_fe(l, Dep::ForceDep(ForceDep { res: r }), false) } else { b == a }
        },
    ensures
        !onstack(v0, l) ==> {
            &&& inv(z) && clean(z, l) && holds(z, l, r) && observed(z, l, r) && current(z, l)
            &&& (v0.s.len() > 0 ==> guar(v0, z))
            &&& (clean(v0, l) ==> z.t == v0.t)
            &&& z.path == v0.path && z.flags == v0.flags && same_stack(v0, z) },
        onstack(v0, l) ==> z.t == v0.t && same_stack(v0, z),
{
    assert(onstack(v0, l) == onstack(u, l)); guar_refl(w);
    if onstack(u, l) { if pb { stack_pushed(a, b); } }
    else {
        let d = Dep::ForceDep(ForceDep { res: r });
        guar_at(u, w, l);
        if !pb { if is_dup_in(u, l) { dup_observed(u, w, l, r); } }
        else { obsed_inv(u, w, l, d, false); obsed_stack(w, l, d, false, a, b); assert(z == obsed(w, l, d, false));
            if z.s.len() > 0 { let j = z.s.last().succs.len() - 1; assert(z.s.last().succs[j].e == obs_e(l, r)); } }
        if v0.s.len() == 0 { assert(same_stack(v0, z)); } else { guar_at(u, z, l); }
        assert(clean(v0, l) == clean(u, l)); clean_current(z, l);
    }
}
pub proof fn onstack_comp(v: V, l: Loc)
    requires inv(v),
    ensures onstack(v, l) ==> has(v, l) && v.t[l].kind is Comp && v.s.len() > 0,
{ reveal(core); if onstack(v, l) { let i = choose|i: int| 0 <= i < v.s.len() && (#[trigger] v.s[i]).loc == l; assert(has(v, v.s[i].loc)); } }
pub proof fn is_dup_same(v: V, s: Seq<Frame>, l: Loc)
    requires v.s == vs(s),
    ensures is_dup_in(v, l) == (s.len() > 0 && exists|j: int| 0 <= j < s.last().succs@.len() && dup_x(#[trigger] s.last().succs@[j], l)),
{
    if s.len() > 0 {
        let a = s.last().succs@; let b = v.s.last().succs; assert(v.s.last() == vf(s.last())); assert(b == fes(a));
        if is_dup_in(v, l) { let j = choose|j: int| 0 <= j < b.len() && dup_at(#[trigger] b[j], l); assert(dup_x(a[j], l)); }
        if exists|j: int| 0 <= j < a.len() && dup_x(#[trigger] a[j], l) { let j = choose|j: int| 0 <= j < a.len() && dup_x(#[trigger] a[j], l); assert(dup_at(b[j], l)); }
    }
}
pub open spec fn constant_pure(v: V, l: Loc) -> bool { v.t[l].kind is Pure }
/// an earlier observation by the same computation still holds
pub proof fn dup_observed(u: V, w: V, l: Loc, r: Val)
    requires inv(u), inv(w), guar(u, w), is_dup_in(u, l), holds(w, l, r),
    ensures observed(w, l, r),
{
    guar_at(u, w, l); frame_facts(w);
    let j = choose|j: int| 0 <= j < u.s.last().succs.len() && dup_at(#[trigger] u.s.last().succs[j], l);
    assert(w.s.last().succs[j] == u.s.last().succs[j]); assert(fe_ok(w, w.s.last().loc, w.s.last().succs[j]));
    assert(w.s.last().succs[j].e == obs_e(l, r));
}
pub open spec fn eff_id(fl: Flags, id: NameChoice) -> NameChoice { if id is Nominal && fl.ignore_nominal_use_structural { NameChoice::Structural } else { id } }
pub open spec fn thunk_id(fl: Flags, id: NameChoice, pp: ProgPt, arg: Val) -> ArtId { if eff_id(fl, id) is Nominal { ArtId::Nominal(id->Nominal_0) } else { ArtId::Structural(hash_of(&(&pp, &arg))) } }
pub open spec fn thunk_loc(v: V, id: NameChoice, pp: ProgPt, arg: Val) -> Loc { loc_at(v.path, thunk_id(v.flags, id, pp, arg)) }
pub open spec fn located(v: V, id: NameChoice) -> bool { eff_id(v.flags, id) is Nominal || eff_id(v.flags, id) is Structural }
/// the program uses one function for each reference, changes the content of references the
/// running computation does not rely on, and does not allocate the thunk that is running
pub open spec fn thunk_ok(v: V, id: NameChoice, app: App) -> bool {
    let l = thunk_loc(v, id, app.prog_pt, app.arg);
    &&& !(eff_id(v.flags, id) is Naive)
    &&& eff_id(v.flags, id) is Structural && has(v, l) ==> v.t[l].kind is Comp
    &&& eff_id(v.flags, id) is Nominal && has(v, l) && v.t[l].kind is Comp ==> v.t[l].producer.prog_pt == app.prog_pt && app_ty(v.t[l].producer) == app_ty(app) && (v.s.len() > 0 ==> l != v.s.last().loc) && (v.t[l].producer.arg != app.arg ==> free(v, l))
    &&& eff_id(v.flags, id) is Nominal && has(v, l) && v.t[l].kind is Mut ==> free(v, l)
}
pub proof fn nominal_not_pure(v: V, l: Loc) requires core(v), ensures has(v, l) && *l.id is Nominal ==> !(v.t[l].kind is Pure) { reveal(core); }
/// from-scratch consistent: what is cached is what a run of the current content returns, in which
/// each allocation is as recorded now, and each observation saw what is from-scratch consistent now
pub open spec fn current(v: V, l: Loc) -> bool
    decreases rank(l), 1int,
{
    has(v, l) && !onstack(v, l) && (v.t[l].kind is Comp ==> {
        &&& v.t[l].res is Some && ran(v.t[l].producer, *l.path, v.t[l].succs, v.t[l].res->0)
        &&& forall|k: int| 0 <= k < v.t[l].succs.len() ==> current_dep(v, l, #[trigger] v.t[l].succs[k])
    })
}
pub open spec fn current_dep(v: V, l: Loc, e: E) -> bool
    decreases rank(l), 0int,
{ accepts(v, e.loc, e.dep) && (e.eff is Observe ==> rank(e.loc) < rank(l) && current(v, e.loc)) }
pub proof fn clean_current(v: V, l: Loc)
    requires inv(v), clean(v, l),
    ensures current(v, l),
    decreases rank(l),
{
    reveal(core);
    if v.t[l].kind is Comp {
        assert(comp_off(v, l));
        assert forall|k: int| 0 <= k < v.t[l].succs.len() implies current_dep(v, l, #[trigger] v.t[l].succs[k]) by {
            let e = v.t[l].succs[k]; assert(edge_wf(v, l, e)); assert(!bit(v.t[l], e)); assert(!bad(v, l, k)); assert(solid(v, e));
            if e.eff is Observe { clean_current(v, e.loc); }
        }
    }
}
/// a partial observation is recorded with the projection and its result
pub open spec fn map_observed(w: V, l: Loc, d: Dep) -> bool {
    w.s.len() > 0 ==> exists|j: int| 0 <= j < w.s.last().succs.len() && (#[trigger] w.s.last().succs[j]) == obs_fe(l, d, true)
}
/// ... or with the abstraction and the family
pub open spec fn abs_observed(w: V, l: Loc, x: Val, f: AbsFam) -> bool {
    w.s.len() > 0 ==> exists|j: int, d: Dep| 0 <= j < w.s.last().succs.len() && (#[trigger] w.s.last().succs[j]) == (#[trigger] obs_fe(l, d, true)) && d is ForceAbsDep && d->ForceAbsDep_0.map.1 == f && d->ForceAbsDep_0.obs@ == x
}
pub open spec fn dep_of(d: Rc<Dep>) -> Dep { *d }
pub open spec fn obsed_gh(v: V, l: Loc) -> Gh { rely(v, l).gh }
pub proof fn obsed_gh_is(v: V, l: Loc, d: Dep, p: bool) ensures obsed(v, l, d, p).gh == obsed_gh(v, l) {}
pub proof fn part_end(v0: V, u: V, z: V, l: Loc, d: Dep, a: Seq<Frame>, b: Seq<Frame>)
    requires u == top(v0), inv(u), has(u, l), u.t[l].kind is Mut, !onstack(u, l), low(u, l), u.s == vs(a), z.s == vs(b), z == (V { s: z.s, gh: z.gh, ..u }), z.gh == obsed(u, l, d, true).gh,
        accepts(u, l, d), is_obs_dep(d), if a.len() > 0 { frame_pushed(a, b) && fe(b.last().succs@.last()) == obs_fe(l, d, true) } else { b == a },
    ensures inv(z), clean(z, l), current(z, l), z.t == v0.t, v0.s.len() > 0 ==> guar(v0, z), same_stack(v0, z),
        z.s.len() > 0 ==> z.s.last().succs.len() > 0 && z.s.last().succs[z.s.last().succs.len() - 1] == obs_fe(l, d, true),
{
    guar_refl(u); obsed_inv(u, u, l, d, true); obsed_stack(u, l, d, true, a, b); assert(z == obsed(u, l, d, true)); guar_at(u, z, l);
    if v0.s.len() == 0 { assert(same_stack(v0, z)); } clean_current(z, l);
}
//@ fn current_path
//@@ props E08
    ensures r == st.path, // [E08]
//@ fn DCG::new@Adapton
//@@ props E01
    ensures inv(v(r)), v(r).s.len() == 0, v(r).path is Empty, v(r).t == IMap::<Loc, N>::empty(),
//@@ tail
    proof { new_inv(v(vp_ret)); }
//@ fn DCG::put@Adapton
//@@ props E01
    ensures r == AbsArt::Rc(Rc::new(x)), *final(self) == *old(self),
//@ fn DCG::set@Adapton
//@@ props E01,E02
//@@ params self, cell, val
    requires cell is Loc, inv(v(*old(self))), v(*old(self)).s.len() == 0, has(v(*old(self)), *cell->Loc_0), v(*old(self)).t[*cell->Loc_0].kind is Mut,
    ensures inv(v(*final(self))), // [E01,E02]
        has(v(*final(self)), *cell->Loc_0), v(*final(self)).t[*cell->Loc_0].kind is Mut, v(*final(self)).t[*cell->Loc_0].val == val, // [E01]
        v(*old(self)).t[*cell->Loc_0].val == val ==> v(*final(self)).t == v(*old(self)).t, // [E03]
        v(*final(self)).s == v(*old(self)).s, v(*final(self)).path == v(*old(self)).path, v(*final(self)).flags == v(*old(self)).flags, // [E08]
//@@ entry
    let ghost v0 = v(*self); let ghost l = lc(cell->Loc_0);
    proof { top_inv(v0); }
    self.gh = Ghost(top(v0).gh);
//@@ tail
    proof { dirtied_at(put_node(top(v0), l, with_val(top(v0), l, val)), v(*self), l); }
//@ fn DCG::structural@Adapton
//@@ props E07,E08
//@@ sig pub fn structural(g: &mut DCG, body: Body) -> (r: Val)
//@@ callghost call g
    requires inv(v(*old(g))),
    ensures inv(v(*final(g))), same_stack(v(*old(g)), v(*final(g))), v(*final(g)).path == v(*old(g)).path, v(*final(g)).flags == v(*old(g)).flags, // [E08]
        v(*old(g)).s.len() > 0 ==> guar(v(*old(g)), v(*final(g))),
        body_ran(body, v(*old(g)).path, Flags { ignore_nominal_use_structural: true, ..v(*old(g)).flags }, r), // [E07,E08]
//@@ entry
    let ghost v0 = v(*g); let ghost f = Flags { ignore_nominal_use_structural: true, ..v0.flags };
    proof { moved_inv(v0, v0.path, f); }
//@@ before call 0
    proof { assert(v(*g) == moved(v0, v0.path, f)); }
//@@ after call 0
    let ghost w = v(*g);
    proof { moved_inv(w, v0.path, v0.flags); if v0.s.len() > 0 { moved_guar(v0, w, v0.path, f); } }
//@@ tail
    proof { assert(v(*g) == moved(w, v0.path, v0.flags)); }
//@ fn DCG::ns@Adapton
//@@ props E08
//@@ sig pub fn ns(g: &mut DCG, nm: Name, body: Body) -> (r: Val)
//@@ callghost call g
    requires inv(v(*old(g))),
    ensures inv(v(*final(g))), same_stack(v(*old(g)), v(*final(g))), v(*final(g)).path == v(*old(g)).path, v(*final(g)).flags == v(*old(g)).flags, // [E08]
        v(*old(g)).s.len() > 0 ==> guar(v(*old(g)), v(*final(g))),
        body_ran(body, Path::Child(Rc::new(v(*old(g)).path), nm), v(*old(g)).flags, r), // [E08]
//@@ entry
    let ghost v0 = v(*g); let ghost p = Path::Child(Rc::new(v0.path), nm);
    proof { moved_inv(v0, p, v0.flags); }
//@@ before call 0
    proof { assert(v(*g) == moved(v0, p, v0.flags)); }
//@@ after call 0
    let ghost w = v(*g);
    proof { moved_inv(w, v0.path, v0.flags); if v0.s.len() > 0 { moved_guar(v0, w, p, v0.flags); } }
//@@ tail
    proof { assert(v(*g) == moved(w, v0.path, v0.flags)); }
//@ fn DCG::cell@Adapton
//@@ props E01,E02,E06
//@@ params self, nm, val
//@@ attr #[verifier::rlimit(250)]
//@@ attr #[verifier::spinoff_prover]
    requires inv(v(*old(self))), cell_ok(v(*old(self)), nm, val),
    ensures inv(v(*final(self))), // [E01,E02]
        v(*old(self)).s.len() > 0 ==> guar(v(*old(self)), v(*final(self))), // [E01]
        r == AbsArt::Loc(Rc::new(cell_loc(v(*old(self)), nm, val))), // [E06,E07,E08]
        ({ let l = cell_loc(v(*old(self)), nm, val); let w = v(*final(self));
            &&& has(w, l) && !(w.t[l].kind is Comp) && w.t[l].val == val
            &&& !cell_pure(v(*old(self))) ==> w.t[l].kind is Mut && recorded(w, E { eff: Effect::Allocate, loc: l, dep: Dep::AllocCell(AllocCell { val: val }) }) }), // [E01,E06]
        has(v(*old(self)), cell_loc(v(*old(self)), nm, val)) && !(v(*old(self)).t[cell_loc(v(*old(self)), nm, val)].kind is Comp) && v(*old(self)).t[cell_loc(v(*old(self)), nm, val)].val == val ==> v(*final(self)).t == v(*old(self)).t, // [E03]
        v(*final(self)).path == v(*old(self)).path, v(*final(self)).flags == v(*old(self)).flags, same_stack(v(*old(self)), v(*final(self))), // [E08]
//@@ entry
    hide(vs); hide(all_marked); hide(low);  hide(clean); hide(ps); hide(ses); hide(fes); hide(dkeys); hide(rm_preds);  hide(marked_at); hide(bad_at); 
    let ghost v0 = v(*self); let ghost l = cell_loc(v0, nm, val); let ghost x = val; let ghost pure = cell_pure(v0); let ghost u = top(v0);
    proof { top_inv(v0); empty_facts(); table_facts(); guar_refl(u); }
    self.gh = Ghost(u.gh);
    let ghost mut w0 = u; let ghost mut w1 = u; let ghost mut s1 = self.stack@;
//@@ before contains_key 0
    proof { assert(lc(loc) == l); assert(is_pure == pure); assert(v(*self) == u); }
//@@ after set_ 0
    proof { dirtied_at(put_node(u, l, with_val(u, l, x)), v(*self), l); }
//@@ after dirty_alloc 0
    proof { still_marked(u, v(*self)); dirtied_at(u, v(*self), l); dirtied_guar(u, v(*self)); revoke_facts(v(*self), l); w0 = v(*self); }
//@@ after insert 0
    proof { if !is_fresh { comp_to_mut_inv(w0, l, x); comp_to_mut_guar(w0, l, x); guar_trans(u, w0, comp_to_mut(w0, l, x)); assert(node is Mut && vn(node).preds == w0.t[l].preds); assert(v(*self).t =~= comp_to_mut(w0, l, x).t); assert(v(*self) == comp_to_mut(w0, l, x)); }
        if is_fresh { assert(v(*self) == put_node(u, l, vn(node))); fresh_inv(u, l, vn(node)); } }
//@@ before last_mut 0
    proof { s1 = self.stack@; w1 = v(*self); top_facts(w1); guar_at(u, w1, l); alloced_inv(w1, l, Dep::AllocCell(AllocCell { val: x })); guar_trans(u, w1, alloced(w1, l, Dep::AllocCell(AllocCell { val: x }))); }
    self.gh = Ghost(rely_alloc(w1, l).gh);
//@@ tail
    proof {
        if pure { guar_at(u, v(*self), l); }
        else { let z = alloced(w1, l, Dep::AllocCell(AllocCell { val: x })); guar_at(u, z, l); alloced_stack(w1, l, Dep::AllocCell(AllocCell { val: x }), s1, self.stack@); assert(v(*self) == z); }
    }
//@ fn DCG::thunk@Adapton
//@@ props E01,E02,E06
//@@ params self, id, prog_pt, fn_box, arg, spurious
//@@ attr #[verifier::rlimit(250)]
//@@ attr #[verifier::spinoff_prover]
//@@ callghost call self
    requires inv(v(*old(self))), thunk_ok(v(*old(self)), id, App { prog_pt: prog_pt, fn_box: fn_box, arg: arg, spurious: spurious }),
    ensures inv(v(*final(self))), // [E01,E02]
        v(*old(self)).s.len() > 0 ==> guar(v(*old(self)), v(*final(self))), // [E01]
        v(*final(self)).path == v(*old(self)).path, v(*final(self)).flags == v(*old(self)).flags, same_stack(v(*old(self)), v(*final(self))), // [E08]
        located(v(*old(self)), id) ==> r == AbsArt::Loc(Rc::new(thunk_loc(v(*old(self)), id, prog_pt, arg))), // [E06,E07,E08]
        located(v(*old(self)), id) ==> ({ let v0 = v(*old(self)); let l = thunk_loc(v0, id, prog_pt, arg); let w = v(*final(self));
            &&& has(w, l) && w.t[l].kind is Comp
            &&& !(has(v0, l) && v0.t[l].kind is Comp && (eff_id(v0.flags, id) is Nominal ==> v0.t[l].producer.arg == arg)) ==> w.t[l].producer == (App { prog_pt: prog_pt, fn_box: fn_box, arg: arg, spurious: spurious }) }), // [E01,E06,E07]
        eff_id(v(*old(self)).flags, id) is Nominal ==> ({ let v0 = v(*old(self)); let l = thunk_loc(v0, id, prog_pt, arg); let w = v(*final(self));
            &&& w.t[l].producer.arg == arg && w.t[l].producer.prog_pt == prog_pt
            &&& recorded(w, E { eff: Effect::Allocate, loc: l, dep: Dep::AllocNominalThunk(AllocNominalThunk { val: arg }) }) }), // [E01,E06]
        located(v(*old(self)), id) ==> ({ let v0 = v(*old(self)); let l = thunk_loc(v0, id, prog_pt, arg); let w = v(*final(self));
            has(v0, l) && v0.t[l].kind is Comp && (eff_id(v0.flags, id) is Nominal ==> v0.t[l].producer.arg == arg) ==> w.t == v0.t }), // [E03,E06,E07]
//@@ entry
    hide(vs); hide(all_marked); hide(low); hide(clean); hide(ps); hide(ses); hide(fes); hide(dkeys); hide(marked_at); hide(bad_at); hide(same_stack); hide(alloced); hide(recorded); hide(busy); hide(fe);
    let ghost v0 = v(*self); let ghost l = thunk_loc(v0, id, prog_pt, arg); let ghost u = top(v0); let ghost app = App { prog_pt: prog_pt, fn_box: fn_box, arg: arg, spurious: spurious };
    let ghost ds = Dep::AllocStructuralThunk(AllocStructuralThunk); let ghost dn = Dep::AllocNominalThunk(AllocNominalThunk { val: arg });
    proof { top_inv(v0); empty_facts(); table_facts(); guar_refl(u); nominal_not_pure(u, l); top_facts(u); free_top(v0); stack_same(v0, u); assert(u.t.dom().contains(l) ==> u.t.insert(l, u.t[l]) =~= u.t); }
    self.gh = Ghost(u.gh);
    let ghost mut w1 = u; let ghost mut s1 = self.stack@; let ghost mut z = u; let ghost mut n = u.t[l]; let ghost mut px: (Succ, Option<Rc<Dep>>) = arbitrary();
    proof { vs_len(s1); }
//@@ after call 0
    proof { if v0.s.len() > 0 { guar_at(u, v(*self), l); } }
//@@ before push 0
    proof { px = (succ, None); }
//@@ before push 1
    proof { px = (succ, None); }
//@@ before last_mut 0
    proof { s1 = self.stack@; }
//@@ after insert 0
    proof { w1 = put_node(u, l, new_thunk(app)); z = alloced(w1, l, ds); fresh_all(u, l, app, ds); assert(s1.len() == 0 ==> self.stack@ =~= s1); alloced_push(w1, l, ds, s1, self.stack@, px); }
    self.gh = Ghost(z.gh);
    proof { assert(v(*self) == z); }
//@@ before dirty_alloc 0
    proof { n = v(*self).t[l]; assert(v(*self).t =~= put_node(u, l, n).t); assert(v(*self) == put_node(u, l, n)); thunk_recontent(u, l, n); assert(n.kind is Comp && n.producer.arg == arg && n.producer.prog_pt == prog_pt); assert(n.producer == app); }
//@@ after dirty_alloc 0
    proof { content_marked(u, l, n, v(*self)); guar_stack(u, v(*self)); dirtied_at(put_node(u, l, n), v(*self), l); alloced_all(u, v(*self), l, dn); }
//@@ before last_mut 1
    proof { s1 = self.stack@; w1 = v(*self); z = alloced(w1, l, dn); 
        if is_fresh { assert(w1 == put_node(u, l, new_thunk(app))); fresh_all(u, l, app, dn); }
        else if !do_dirty { assert(w1 == u); alloced_all(u, u, l, dn); }
 }
    self.gh = Ghost(z.gh);
//@@ tail
    proof { if eff_id(v0.flags, id) is Nominal { assert(s1.len() == 0 ==> self.stack@ =~= s1); alloced_push(w1, l, dn, s1, self.stack@, px); assert(v(*self) == z); } }
//@ fn DCG::force@Adapton
//@@ props E01,E02
//@@ params g, art, cycle_out
//@@ attr #[verifier::rlimit(250)]
//@@ attr #[verifier::spinoff_prover]
    requires art is Loc ==> inv(v(*old(g))) && has(v(*old(g)), *art->Loc_0) && if onstack(v(*old(g)), *art->Loc_0) { cycle_out is Some } else { v(*old(g)).s.len() == 0 || low(v(*old(g)), *art->Loc_0) },
    ensures art is Rc ==> r == *art->Rc_0 && v(*final(g)) == v(*old(g)), // [E01]
        art is Loc && !onstack(v(*old(g)), *art->Loc_0) ==> ({ let v0 = v(*old(g)); let w = v(*final(g)); let l = *art->Loc_0;
            &&& inv(w) && clean(w, l) && holds(w, l, r) && observed(w, l, r) && current(w, l) // [E01,E02]
            &&& (v0.s.len() > 0 ==> guar(v0, w)) // [E01]
            &&& (clean(v0, l) ==> w.t == v0.t) // [E03]
            &&& w.path == v0.path && w.flags == v0.flags && same_stack(v0, w) }), // [E08]
        art is Loc && onstack(v(*old(g)), *art->Loc_0) ==> r == cycle_out->0 && v(*final(g)).t == v(*old(g)).t && same_stack(v(*old(g)), v(*final(g))), // [E09]
//@@ attr #[verifier::allow_complex_invariants]
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    hide(all_marked); hide(low); hide(current); hide(same_stack); hide(obsed); hide(observed); hide(busy); hide(vs); hide(fes); hide(clean); hide(is_dup_in); hide(onstack); hide(ps); hide(ses); hide(dkeys); hide(top); hide(fe); hide(frame_pushed); hide(vt);
    let ghost v0 = v(*g); let ghost l = art_loc(*art); let ghost u = top(v0);
    proof { top_same(v0); if art is Loc { top_inv(v0); } guar_refl(u); if art is Loc { dup_facts(u, l); top_low(v0, l); top_facts(u); onstack_comp(u, l); } }
    g.gh = Ghost(if art is Loc { u.gh } else { v0.gh });
    let ghost mut w1 = u; let ghost mut s1 = g.stack@; let ghost mut pb = false; let ghost mut px: (Succ, Option<Rc<Dep>>) = arbitrary();
    proof { clean_facts(); ses_len(); vs_len(s1); onstack_in(u, s1, l); is_dup_same(u, s1, l); }
//@@ loop 0
    invariant_except_break is_cycle == (exists|j: int| 0 <= j < vp_i0 && *(#[trigger] vp_s0@[j]).loc == l),
    invariant 0 <= vp_i0 <= vp_s0@.len(), v(*st) == u, vp_s0@ == st.stack@,
    ensures is_cycle == (exists|j: int| 0 <= j < vp_s0@.len() && *(#[trigger] vp_s0@[j]).loc == l),
//@@ loopstart 0
//@@ loop 1
    invariant 0 <= vp_i1 <= vp_s1@.len(), is_dup == (exists|j: int| 0 <= j < vp_i1 && dup_x(#[trigger] vp_s1@[j], l)),
//@@ before res_node_of_loc 0
    proof { assert(st.stack@ =~= s1); assert(v(*st) == u); }
//@@ before loc_produce 0
    proof { assert(v(*g) == u); }
//@@ after loc_produce 0
    proof { w1 = v(*g); s1 = g.stack@; guar_at(u, w1, l); }
//@@ after clean 0
    proof { w1 = v(*g); s1 = g.stack@; guar_at(u, w1, l); }
//@@ before last_mut 1
    proof { assert(v(*st) == w1); s1 = st.stack@; pb = true; }
    st.gh = Ghost(if onstack(u, l) { w1.gh } else { obsed(w1, l, Dep::ForceDep(ForceDep { res: result }), false).gh });
//@@ before push 0
    proof { px = (succ, None); }
//@@ tail
    proof { if art is Loc { if pb { assert(s1.len() == 0 ==> g.stack@ =~= s1); if s1.len() > 0 { obs_pushed(s1, g.stack@, px, l, Dep::ForceDep(ForceDep { res: vp_ret }), false); } } force_end(pb, v0, u, w1, v(*g), l, vp_ret, s1, g.stack@); } }
//@ fn DCG::force_map@Adapton
//@@ props E01,E05
//@@ params g, art, mapf
//@@ attr #[verifier::rlimit(250)]
//@@ attr #[verifier::spinoff_prover]
    requires art is Loc ==> inv(v(*old(g))) && has(v(*old(g)), *art->Loc_0) && !onstack(v(*old(g)), *art->Loc_0) && (v(*old(g)).s.len() == 0 || low(v(*old(g)), *art->Loc_0)),
    ensures art is Rc ==> v(*final(g)) == v(*old(g)), // [E01]
        art is Loc ==> ({ let v0 = v(*old(g)); let w = v(*final(g)); let l = *art->Loc_0; 
            &&& inv(w) && clean(w, l) && current(w, l) && (v0.s.len() > 0 ==> guar(v0, w)) // [E01,E05]
            &&& (exists|x: Val| holds(w, l, x) && r == #[trigger] mapres(mapf, art_of(l), x) && (v0.t[l].kind is Mut ==> w.t == v0.t && map_observed(w, l, Dep::ForceMapDep(ForceMapDep { raw: PhantomData, mapf: mapf, res: r }))) && (!(v0.t[l].kind is Mut) ==> observed(w, l, x))) // [E01,E05]
            &&& (clean(v0, l) ==> w.t == v0.t) // [E03]
            &&& w.path == v0.path && w.flags == v0.flags && same_stack(v0, w) }), // [E08]
//@@ entry
    hide(all_marked); hide(low); hide(current); hide(same_stack); hide(obsed); hide(busy); hide(vs); hide(fes); hide(clean); hide(onstack); hide(ps); hide(ses); hide(dkeys); hide(top); hide(fe); hide(frame_pushed); hide(vt);
    let ghost v0 = v(*g); let ghost l = art_loc(*art); let ghost u = top(v0);
    proof { top_same(v0); if art is Loc { top_inv(v0); } guar_refl(u); if art is Loc { top_low(v0, l); } }
    let ghost mut s1 = g.stack@; let ghost mut px: (Succ, Option<Rc<Dep>>) = arbitrary(); let ghost mut pb = false; let ghost mut rr: Val = arbitrary();
    proof { clean_facts(); vs_len(s1); }
//@@ before last_mut 0
    proof { assert(st.stack@ =~= s1); assert(v(*st) == v0); pb = true; rr = res; }
    st.gh = Ghost(obsed(u, l, Dep::ForceMapDep(ForceMapDep { raw: PhantomData, mapf: mapf, res: res }), true).gh);
//@@ before push 0
    proof { px = (succ, Some(dep)); }
//@@ tail
    proof { if art is Loc && pb {
        let d = Dep::ForceMapDep(ForceMapDep { raw: PhantomData, mapf: mapf, res: rr });
        assert(s1.len() == 0 ==> g.stack@ =~= s1); if s1.len() > 0 { obs_pushed(s1, g.stack@, px, l, d, true); } 
        part_end(v0, u, v(*g), l, d, s1, g.stack@);
        assert(holds(v(*g), l, v0.t[l].val));
    } }
//@ fn DCG::force_abs@Adapton
//@@ props E01,E05
//@@ params g, absmapfam, arg, art
//@@ attr #[verifier::rlimit(250)]
//@@ attr #[verifier::spinoff_prover]
    requires art is Loc ==> inv(v(*old(g))) && has(v(*old(g)), *art->Loc_0) && !onstack(v(*old(g)), *art->Loc_0) && (v(*old(g)).s.len() == 0 || low(v(*old(g)), *art->Loc_0)),
    ensures art is Rc ==> r == absres(absmapfam, arg, *art->Rc_0) && v(*final(g)) == v(*old(g)), // [E01]
        art is Loc ==> ({ let v0 = v(*old(g)); let w = v(*final(g)); let l = *art->Loc_0; 
            &&& inv(w) && clean(w, l) && current(w, l) && (v0.s.len() > 0 ==> guar(v0, w)) // [E01,E05]
            &&& (exists|x: Val| holds(w, l, x) && r == #[trigger] absres(absmapfam, arg, x) && (v0.t[l].kind is Mut ==> w.t == v0.t && abs_observed(w, l, x, absmapfam)) && (!(v0.t[l].kind is Mut) ==> observed(w, l, x))) // [E01,E05]
            &&& (clean(v0, l) ==> w.t == v0.t) // [E03]
            &&& w.path == v0.path && w.flags == v0.flags && same_stack(v0, w) }), // [E08]
//@@ entry
    hide(all_marked); hide(low); hide(current); hide(same_stack); hide(obsed); hide(busy); hide(vs); hide(fes); hide(clean); hide(onstack); hide(ps); hide(ses); hide(dkeys); hide(top); hide(fe); hide(frame_pushed); hide(vt);
    let ghost v0 = v(*g); let ghost l = art_loc(*art); let ghost u = top(v0); let ghost vp_obs = v0.t[l].val;
    proof { top_same(v0); if art is Loc { top_inv(v0); } guar_refl(u); if art is Loc { top_low(v0, l); } }
    let ghost mut s1 = g.stack@; let ghost mut px: (Succ, Option<Rc<Dep>>) = arbitrary(); let ghost mut pb = false; let ghost mut d: Dep = arbitrary();
    proof { clean_facts(); vs_len(s1); }
//@@ before last_mut 0
    proof { assert(st.stack@ =~= s1); assert(v(*st) == v0); pb = true; }
    st.gh = Ghost(obsed_gh(u, l));
//@@ before push 0
    proof { px = (succ, Some(dep)); d = dep_of(dep); }
//@@ tail
    proof { if art is Loc && pb {
        assert(s1.len() == 0 ==> g.stack@ =~= s1); if s1.len() > 0 { obs_pushed(s1, g.stack@, px, l, d, true); } else { d = Dep::ForceAbsDep(ForceAbsDep { phm: PhantomData, map: arbitrary(), obs: Ghost(v0.t[l].val) }); }
        obsed_gh_is(u, l, d, true);
        part_end(v0, u, v(*g), l, d, s1, g.stack@);
        assert(holds(v(*g), l, v0.t[l].val));
    } }
//@ end
