// ================= the abstract state
pub enum Kind { Comp, Pure, Mut }
/// a dependency: what was done (observed or allocated), to which location, and what was seen there
pub ghost struct E { pub eff: Effect, pub loc: Loc, pub dep: Dep }
/// a dependent: who did it, and how
pub ghost struct P { pub eff: Effect, pub loc: Loc, pub dep: Option<Dep> }
/// a node.  `succs`, `dirty`, `producer`, `res` matter for Comp, `val` for Pure and Mut.
/// `dirty`: the keys (effect, target) whose shared dirty bit is set
pub ghost struct N { pub kind: Kind, pub preds: ISet<P>, pub succs: Seq<E>, pub dirty: ISet<(Effect, Loc)>, pub producer: App, pub res: Option<Val>, pub val: Val }
pub ghost struct FE { pub e: E, pub dirty: bool, pub pd: Option<Dep> }
pub ghost struct Fr { pub loc: Loc, pub succs: Seq<FE> }
pub ghost struct V { pub t: IMap<Loc, N>, pub s: Seq<Fr>, pub path: Path, pub flags: Flags, pub gh: Gh }
pub open spec fn se(s: Succ) -> E { E { eff: s.effect, loc: *s.loc, dep: *s.dep } }
pub open spec fn ses(s: Seq<Succ>) -> Seq<E> { Seq::new(s.len(), |i: int| se(s[i])) }
pub open spec fn od(d: Option<Rc<Dep>>) -> Option<Dep> { match d { Some(d) => Some(*d), None => None } }
pub open spec fn pe(p: Pred) -> P { P { eff: p.effect, loc: *p.loc, dep: od(p.dep) } }
pub open spec fn ps(s: Seq<Pred>) -> ISet<P> { ISet::new(|p: P| exists|i: int| 0 <= i < s.len() && pe(#[trigger] s[i]) == p) }
pub open spec fn fe(x: (Succ, Option<Rc<Dep>>)) -> FE { FE { e: se(x.0), dirty: x.0.dirty, pd: od(x.1) } }
pub open spec fn fes(s: Seq<(Succ, Option<Rc<Dep>>)>) -> Seq<FE> { Seq::new(s.len(), |i: int| fe(s[i])) }
pub open spec fn vn(n: Node) -> N {
    match n {
        Node::Comp(c) => N { kind: Kind::Comp, preds: ps(c.preds@), succs: ses(c.succs@), dirty: dkeys(c.succs@), producer: c.producer, res: c.res, val: arbitrary() },
        Node::Mut(m) => N { kind: Kind::Mut, preds: ps(m.preds@), succs: Seq::empty(), dirty: ISet::empty(), producer: arbitrary(), res: None, val: m.val },
        Node::Pure(m) => N { kind: Kind::Pure, preds: ISet::empty(), succs: Seq::empty(), dirty: ISet::empty(), producer: arbitrary(), res: None, val: m.val },
    }
}
pub open spec fn vt(m: Map<Rc<Loc>, Node>) -> IMap<Loc, N> { IMap::new(|l: Loc| m.dom().contains(Rc::new(l)), |l: Loc| vn(m[Rc::new(l)])) }
pub open spec fn vf(f: Frame) -> Fr { Fr { loc: *f.loc, succs: fes(f.succs@) } }
pub open spec fn vs(s: Seq<Frame>) -> Seq<Fr> { Seq::new(s.len(), |i: int| vf(s[i])) }
pub open spec fn v(st: DCG) -> V { V { t: vt(st.table@), s: vs(st.stack@), path: *st.path, flags: st.flags, gh: st.gh@ } }
// ================= edges and dirty bits
pub open spec fn keyed(s: Succ, e: Effect, l: Loc) -> bool { s.effect == e && *s.loc == l }
/// `i` is the first edge with this effect and target: it carries the dirty bit of all of them
pub open spec fn is_first(s: Seq<Succ>, e: Effect, l: Loc, i: int) -> bool {
    &&& 0 <= i < s.len() && keyed(s[i], e, l)
    &&& forall|j: int| 0 <= j < i ==> !keyed(#[trigger] s[j], e, l)
}
pub open spec fn dkeys(s: Seq<Succ>) -> ISet<(Effect, Loc)> { ISet::new(|k: (Effect, Loc)| exists|i: int| is_first(s, k.0, k.1, i) && s[i].dirty) }
pub open spec fn has_key(s: Seq<E>, e: Effect, l: Loc) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).eff == e && s[i].loc == l }
pub open spec fn with_key(n: N, e: Effect, l: Loc, b: bool) -> N { N { dirty: if b { n.dirty.insert((e, l)) } else { n.dirty.remove((e, l)) }, ..n } }
pub open spec fn with_bit(v: V, p: Loc, e: Effect, l: Loc, b: bool) -> V { V { t: v.t.insert(p, with_key(v.t[p], e, l, b)), ..v } }
pub proof fn same_bit(v: V, p: Loc, e: Effect, l: Loc)
    requires v.t.dom().contains(p),
    ensures with_bit(v, p, e, l, v.t[p].dirty.contains((e, l))) == v,
{
    let b = v.t[p].dirty.contains((e, l)); let n = with_key(v.t[p], e, l, b);
    assert(n.dirty =~= v.t[p].dirty); assert(v.t.insert(p, n) =~= v.t);
}
pub proof fn first_unique(s: Seq<Succ>, e: Effect, l: Loc, i: int, j: int)
    requires is_first(s, e, l, i), is_first(s, e, l, j),
    ensures i == j,
{ if i < j { assert(!keyed(s[i], e, l)); } if j < i { assert(!keyed(s[j], e, l)); } }
/// changing the dirty flag of the first edge changes the shared bit and nothing else
pub proof fn set_first(s: Seq<Succ>, e: Effect, l: Loc, i: int, x: Succ)
    requires is_first(s, e, l, i), x.loc == s[i].loc, x.effect == s[i].effect, x.dep == s[i].dep,
    ensures ses(s.update(i, x)) == ses(s),
        dkeys(s.update(i, x)) == (if x.dirty { dkeys(s).insert((e, l)) } else { dkeys(s).remove((e, l)) }),
{
    let t = s.update(i, x);
    assert(ses(t) =~= ses(s));
    assert forall|k: (Effect, Loc), j: int| #[trigger] is_first(s, k.0, k.1, j) implies is_first(t, k.0, k.1, j) by {
        assert forall|m: int| 0 <= m < j implies !keyed(#[trigger] t[m], k.0, k.1) by { assert(!keyed(s[m], k.0, k.1)); }
    }
    assert forall|k: (Effect, Loc), j: int| #[trigger] is_first(t, k.0, k.1, j) implies is_first(s, k.0, k.1, j) by {
        assert forall|m: int| 0 <= m < j implies !keyed(#[trigger] s[m], k.0, k.1) by { assert(!keyed(t[m], k.0, k.1)); }
    }
    assert forall|k: (Effect, Loc)| dkeys(t).contains(k) == (if x.dirty { dkeys(s).insert((e, l)) } else { dkeys(s).remove((e, l)) }).contains(k) by {
        if k == (e, l) {
            if dkeys(t).contains(k) { let j = choose|j: int| is_first(t, k.0, k.1, j) && t[j].dirty; first_unique(s, e, l, i, j); }
            if x.dirty { assert(is_first(t, k.0, k.1, i) && t[i].dirty); }
        } else {
            if dkeys(t).contains(k) { let j = choose|j: int| is_first(t, k.0, k.1, j) && t[j].dirty; assert(is_first(s, k.0, k.1, j) && j != i); assert(s[j].dirty); }
            if dkeys(s).contains(k) { let j = choose|j: int| is_first(s, k.0, k.1, j) && s[j].dirty; assert(is_first(t, k.0, k.1, j) && j != i); assert(t[j].dirty); }
        }
    }
    assert(dkeys(t) =~= (if x.dirty { dkeys(s).insert((e, l)) } else { dkeys(s).remove((e, l)) }));
}
pub proof fn vt_insert(m: Map<Rc<Loc>, Node>, k: Rc<Loc>, b: Node)
    ensures vt(m.insert(k, b)) == vt(m).insert(*k, vn(b)),
{ assert(vt(m.insert(k, b)) =~= vt(m).insert(*k, vn(b))); }
// ---- the entries of the vector of dependents
pub open spec fn alloc_locs(p: Seq<Pred>) -> Seq<Rc<Loc>> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else { let r = alloc_locs(p.drop_last()); if p.last().effect is Allocate { r.push(p.last().loc) } else { r } }
}
pub open spec fn obs_locs(p: Seq<Pred>, comp: bool) -> Seq<(Rc<Loc>, Option<Rc<Dep>>)> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else { let r = obs_locs(p.drop_last(), comp); if p.last().effect is Observe { r.push((p.last().loc, if comp { None } else { p.last().dep })) } else { r } }
}
pub proof fn take_step<T>(s: Seq<T>, k: int)
    requires 0 <= k < s.len(),
    ensures s.take(k + 1).drop_last() == s.take(k), s.take(k + 1).last() == s[k], s.take(k + 1) == s.take(k).push(s[k]), s.take(s.len() as int) == s,
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1) =~= s.take(k).push(s[k])); assert(s.take(s.len() as int) =~= s); }
/// what the dirtying algorithm gets: all observers, with the dependency of partial observers
pub open spec fn lists_obs(n: ISet<P>, c: bool, r: Seq<(Rc<Loc>, Option<Rc<Dep>>)>) -> bool {
    &&& forall|p: P| #[trigger] n.contains(p) && p.eff is Observe ==> exists|j: int| 0 <= j < r.len() && is_obs(#[trigger] r[j], p, c)
    &&& forall|j: int| 0 <= j < r.len() ==> obs_src(n, c, #[trigger] r[j])
}
pub open spec fn obs_src(n: ISet<P>, c: bool, x: (Rc<Loc>, Option<Rc<Dep>>)) -> bool { exists|p: P| #[trigger] n.contains(p) && p.eff is Observe && is_obs(x, p, c) }
pub open spec fn alloc_src(n: ISet<P>, x: Rc<Loc>) -> bool { exists|p: P| #[trigger] n.contains(p) && p.eff is Allocate && is_at(x, p.loc) }
pub open spec fn is_obs(x: (Rc<Loc>, Option<Rc<Dep>>), p: P, c: bool) -> bool { *x.0 == p.loc && od(x.1) == (if c { None } else { p.dep }) }
pub open spec fn lists_alloc(n: ISet<P>, r: Seq<Rc<Loc>>) -> bool {
    &&& forall|p: P| #[trigger] n.contains(p) && p.eff is Allocate ==> exists|j: int| 0 <= j < r.len() && is_at(#[trigger] r[j], p.loc)
    &&& forall|j: int| 0 <= j < r.len() ==> alloc_src(n, #[trigger] r[j])
}
pub open spec fn is_at(x: Rc<Loc>, l: Loc) -> bool { *x == l }
pub proof fn obs_listed(s: Seq<Pred>, c: bool)
    ensures lists_obs(ps(s), c, obs_locs(s, c)),
    decreases s.len(),
{
    if s.len() > 0 {
        let q = s.drop_last(); let x = s.last(); obs_listed(q, c); assert(q.push(x) =~= s); ps_push(q, x);
        let r = obs_locs(q, c); let r2 = obs_locs(s, c);
        assert forall|p: P| #[trigger] ps(s).contains(p) && p.eff is Observe implies exists|j: int| 0 <= j < r2.len() && is_obs(#[trigger] r2[j], p, c) by {
            if ps(q).contains(p) { let j = choose|j: int| 0 <= j < r.len() && is_obs(#[trigger] r[j], p, c); assert(is_obs(r2[j], p, c)); }
            else { assert(is_obs(r2[r.len() as int], p, c)); }
        }
        assert forall|j: int| 0 <= j < r2.len() implies obs_src(ps(s), c, #[trigger] r2[j]) by {
            if j < r.len() { assert(r2[j] == r[j]); let p = choose|p: P| #[trigger] ps(q).contains(p) && p.eff is Observe && is_obs(r[j], p, c); assert(ps(s).contains(p) && is_obs(r2[j], p, c)); }
            else { assert(ps(s).contains(pe(x))); assert(is_obs(r2[j], pe(x), c)); }
        }
        assert(lists_obs(ps(s), c, r2));
    } else {
        assert forall|p: P| !(#[trigger] ps(s).contains(p)) by {}
        assert(obs_locs(s, c).len() == 0);
    }
}
pub proof fn alloc_listed(s: Seq<Pred>)
    ensures lists_alloc(ps(s), alloc_locs(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        let q = s.drop_last(); let x = s.last(); alloc_listed(q); assert(q.push(x) =~= s); ps_push(q, x);
        let r = alloc_locs(q); let r2 = alloc_locs(s);
        assert forall|p: P| #[trigger] ps(s).contains(p) && p.eff is Allocate implies exists|j: int| 0 <= j < r2.len() && is_at(#[trigger] r2[j], p.loc) by {
            if ps(q).contains(p) { let j = choose|j: int| 0 <= j < r.len() && is_at(#[trigger] r[j], p.loc); assert(is_at(r2[j], p.loc)); }
            else { assert(is_at(r2[r.len() as int], p.loc)); }
        }
        assert forall|j: int| 0 <= j < r2.len() implies alloc_src(ps(s), #[trigger] r2[j]) by {
            if j < r.len() { assert(r2[j] == r[j]); let p = choose|p: P| #[trigger] ps(q).contains(p) && p.eff is Allocate && is_at(r[j], p.loc); assert(ps(s).contains(p) && is_at(r2[j], p.loc)); }
            else { assert(ps(s).contains(pe(x)) && is_at(r2[j], pe(x).loc)); }
        }
    }
}
pub proof fn ps_push(s: Seq<Pred>, x: Pred)
    ensures ps(s.push(x)) == ps(s).insert(pe(x)),
{
    let t = s.push(x);
    assert forall|p: P| ps(t).contains(p) == ps(s).insert(pe(x)).contains(p) by {
        if ps(t).contains(p) { let i = choose|i: int| 0 <= i < t.len() && pe(#[trigger] t[i]) == p; if i < s.len() { assert(pe(s[i]) == p); } }
        if ps(s).contains(p) { let i = choose|i: int| 0 <= i < s.len() && pe(#[trigger] s[i]) == p; assert(pe(t[i]) == p); }
        if p == pe(x) { assert(pe(t[s.len() as int]) == p); }
    }
    assert(ps(t) =~= ps(s).insert(pe(x)));
}
/// the entries kept when those of `l` are removed
pub open spec fn without(s: Seq<Pred>, l: Loc) -> Seq<Pred> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let r = without(s.drop_last(), l); if *s.last().loc == l { r } else { r.push(s.last()) } }
}
pub open spec fn minus(p: ISet<P>, l: Loc) -> ISet<P> { ISet::new(|x: P| p.contains(x) && x.loc != l) }
pub proof fn ps_without(s: Seq<Pred>, l: Loc)
    ensures ps(without(s, l)) == minus(ps(s), l),
    decreases s.len(),
{
    if s.len() == 0 { assert(ps(without(s, l)) =~= minus(ps(s), l)); }
    else {
        let q = s.drop_last(); ps_without(q, l); let x = s.last();
        assert(q.push(x) =~= s); ps_push(q, x);
        ps_push(without(q, l), x);
        assert(ps(without(s, l)) =~= minus(ps(s), l));
    }
}
pub open spec fn take_steps<T>(s: Seq<T>) -> bool {
    &&& s.take(s.len() as int) == s && s.take(0) == Seq::<T>::empty()
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s.take(k + 1)).drop_last() == s.take(k) && s.take(k + 1).last() == s[k] && s.take(k + 1).len() == k + 1
}
pub proof fn take_step2<T>(s: Seq<T>)
    ensures take_steps(s),
{
    assert(s.take(0) =~= Seq::<T>::empty()); assert(s.take(s.len() as int) =~= s);
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s.take(k + 1)).drop_last() == s.take(k) && s.take(k + 1).last() == s[k] && s.take(k + 1).len() == k + 1 by { take_step(s, k); }
}
pub open spec fn loc_hash(path: Rc<Path>, id: Rc<ArtId>) -> u64 { hash_of(&(&path, &id)) }
pub open spec fn raw(n: Node) -> Seq<Pred> { match n { Node::Mut(m) => m.preds@, Node::Comp(c) => c.preds@, _ => Seq::empty() } }
pub proof fn listed_facts(n: &Node)
    requires !((*n) is Pure),
    ensures lists_alloc(vn(*n).preds, alloc_locs(raw(*n))), lists_obs(vn(*n).preds, n is Comp, obs_locs(raw(*n), n is Comp)), take_steps(raw(*n)),
{ obs_listed(raw(*n), n is Comp); alloc_listed(raw(*n)); take_step2(raw(*n)); }
pub proof fn push_facts(n: &Node)
    ensures forall|x: Pred| ps(#[trigger] raw(*n).push(x)) == ps(raw(*n)).insert(pe(x)),
{ assert forall|x: Pred| ps(#[trigger] raw(*n).push(x)) == ps(raw(*n)).insert(pe(x)) by { ps_push(raw(*n), x); } }
pub proof fn without_facts(n: &Node)
    ensures take_steps(raw(*n)), forall|l: Loc| ps(#[trigger] without(raw(*n), l)) == minus(ps(raw(*n)), l),
{ take_step2(raw(*n)); assert forall|l: Loc| ps(#[trigger] without(raw(*n), l)) == minus(ps(raw(*n)), l) by { ps_without(raw(*n), l); } }
pub proof fn first_facts()
    ensures
        forall|s: Seq<Succ>, e: Effect, l: Loc, i: int| #[trigger] is_first(s, e, l, i) ==> (dkeys(s).contains((e, l)) <==> s[i].dirty),
        forall|s: Seq<Succ>, e: Effect, l: Loc, i: int, x: Succ| #[trigger] is_first(s, e, l, i) && x.loc == s[i].loc && x.effect == s[i].effect && x.dep == s[i].dep ==> {
            let t = #[trigger] s.update(i, x);
            ses(t) == ses(s) && dkeys(t) == (if x.dirty { dkeys(s).insert((e, l)) } else { dkeys(s).remove((e, l)) }) },
{
    assert forall|s: Seq<Succ>, e: Effect, l: Loc, i: int| #[trigger] is_first(s, e, l, i) implies (dkeys(s).contains((e, l)) <==> s[i].dirty) by {
        if dkeys(s).contains((e, l)) { let j = choose|j: int| is_first(s, e, l, j) && s[j].dirty; first_unique(s, e, l, i, j); }
        if s[i].dirty { let k = (e, l); assert(is_first(s, k.0, k.1, i) && s[i].dirty); assert(dkeys(s).contains(k)); }
    }
    assert forall|s: Seq<Succ>, e: Effect, l: Loc, i: int, x: Succ| #[trigger] is_first(s, e, l, i) && x.loc == s[i].loc && x.effect == s[i].effect && x.dep == s[i].dep implies {
            let t = #[trigger] s.update(i, x);
            ses(t) == ses(s) && dkeys(t) == (if x.dirty { dkeys(s).insert((e, l)) } else { dkeys(s).remove((e, l)) }) } by { set_first(s, e, l, i, x); }
}
pub open spec fn lc(r: Rc<Loc>) -> Loc { *r }
