// ---- reflections (module `reflect` proves what they show)
pub type TE = reflect::trace::Effect;
pub type Tr = reflect::trace::Trace;
pub type RLoc = reflect::Loc;
pub uninterp spec fn rl(l: Loc) -> RLoc;
pub open spec fn rlr(l: Rc<Loc>) -> RLoc { rl(*l) }
pub open spec fn re(e: Effect) -> reflect::Effect { match e { Effect::Observe => reflect::Effect::Force, Effect::Allocate => reflect::Effect::Alloc } }
pub open spec fn rs(x: Succ) -> reflect::Succ { reflect::Succ { dirty: x.dirty, loc: rl(*x.loc), effect: re(x.effect), value: reflect::Val::ValTODO, is_dup: false } }
pub trait Reflect<T> where Self: Sized { spec fn rv(&self) -> T; fn reflect(&self) -> (r: T) ensures r == self.rv(); }
impl Reflect<reflect::Loc> for Rc<Loc> { open spec fn rv(&self) -> RLoc { rl(**self) } #[verifier::external_body] fn reflect(&self) -> (r: RLoc) { unimplemented!() } }
impl<'a> Reflect<Option<reflect::Loc>> for Option<&'a Rc<Loc>> { open spec fn rv(&self) -> Option<RLoc> { match *self { None => None, Some(x) => Some(rl(**x)) } } #[verifier::external_body] fn reflect(&self) -> (r: Option<RLoc>) { unimplemented!() } }
impl Reflect<Option<reflect::Loc>> for Option<Loc> { open spec fn rv(&self) -> Option<RLoc> { match *self { None => None, Some(x) => Some(rl(x)) } } #[verifier::external_body] fn reflect(&self) -> (r: Option<RLoc>) { unimplemented!() } }
impl Reflect<reflect::Succ> for Succ { open spec fn rv(&self) -> reflect::Succ { rs(*self) } #[verifier::external_body] fn reflect(&self) -> (r: reflect::Succ) { unimplemented!() } }
impl Reflect<reflect::Succ> for reflect::Succ { open spec fn rv(&self) -> reflect::Succ { *self } #[verifier::external_body] fn reflect(&self) -> (r: reflect::Succ) { unimplemented!() } }

// ---- the recording: a stack of sequences of traces, the extents that are open
pub type TV = Option<Seq<Seq<Tr>>>;
pub open spec fn tv(t: Option<TraceSt>) -> TV { match t { None => None, Some(x) => Some(x.stack@.map_values(|b: Vec<Tr>| b@)) } }
/// recording is off, or an extent is open
pub open spec fn rec_ok(t: TV) -> bool { t is Some ==> t->0.len() > 0 }
pub open spec fn same_but_last(a: Seq<Seq<Tr>>, b: Seq<Seq<Tr>>) -> bool { a.len() == b.len() && a.len() > 0 && a.drop_last() == b.drop_last() }
pub open spec fn is_leaf(x: Tr, eff: TE, e: reflect::trace::EffectEdge) -> bool { x.effect == eff && x.edge == e && x.extent@.len() == 0 }
/// the stack with one more trace, that has nothing nested
pub open spec fn pushed(a: Seq<Seq<Tr>>, b: Seq<Seq<Tr>>, eff: TE, e: reflect::trace::EffectEdge) -> bool {
    same_but_last(a, b) && b.last().len() == a.last().len() + 1 && b.last().drop_last() == a.last() && is_leaf(b.last().last(), eff, e)
}
/// an effect has begun
pub open spec fn begun(a: TV, b: TV, eff: TE, e: reflect::trace::EffectEdge, ext: bool) -> bool {
    match a { None => b is None, Some(s) => b is Some && if ext { b->0.len() == s.len() + 1 && b->0.last().len() == 0 && pushed(s, b->0.drop_last(), eff, e) } else { pushed(s, b->0, eff, e) } }
}
/// the extent on top can be closed
pub open spec fn closable(a: TV) -> bool { a is Some ==> ({ let s = a->0; s.len() >= 2 && s[s.len() - 2].len() > 0 && s[s.len() - 2].last().extent@.len() == 0 }) }
/// the extent on top has been closed: it is that of the last trace below
pub open spec fn ended(a: TV, b: TV) -> bool {
    match a { None => b is None, Some(s) => b is Some && ({ let t = b->0; 
        &&& same_but_last(s.drop_last(), t) && t.last().len() > 0 && t.last().len() == s.drop_last().last().len() && t.last().drop_last() == s.drop_last().last().drop_last()
        &&& ({ let x = s.drop_last().last().last(); let y = t.last().last(); y.effect == x.effect && y.edge == x.edge && y.extent@ == s.last() }) }) }
}
/// traces were added to the extent on top, and nothing else happened
pub open spec fn grown(a: TV, b: TV) -> bool {
    match a { None => b is None, Some(s) => b is Some && same_but_last(s, b->0) && s.last().len() <= b->0.last().len() && b->0.last().take(s.last().len() as int) == s.last() }
}
pub open spec fn added(a: TV, b: TV) -> Seq<Tr> { match a { None => Seq::empty(), Some(s) => b->0.last().skip(s.last().len() as int) } }
pub proof fn grown_refl(a: TV)
    requires rec_ok(a),
    ensures grown(a, a), added(a, a).len() == 0,
{ if a is Some { assert(a->0.last().take(a->0.last().len() as int) =~= a->0.last()); } }
pub proof fn grown_trans(a: TV, b: TV, c: TV)
    requires grown(a, b), grown(b, c),
    ensures grown(a, c), added(a, c) =~= added(a, b) + added(b, c),
{ if a is Some { let (x, y, z) = (a->0.last(), b->0.last(), c->0.last()); assert(z.take(x.len() as int) =~= z.take(y.len() as int).take(x.len() as int)); assert(z.skip(x.len() as int) =~= y.skip(x.len() as int) + z.skip(y.len() as int)); } }
/// an effect without an extent adds one trace
pub proof fn leaf(a: TV, b: TV, eff: TE, e: reflect::trace::EffectEdge)
    requires begun(a, b, eff, e, false), rec_ok(a),
    ensures grown(a, b), a is None ==> added(a, b).len() == 0, a is Some ==> added(a, b).len() == 1 && is_leaf(added(a, b)[0], eff, e),
{ if a is Some { let (x, y) = (a->0.last(), b->0.last()); assert(y.take(x.len() as int) =~= y.drop_last()); assert(y.skip(x.len() as int) =~= seq![y.last()]); } }
/// an effect with an extent adds one trace, that has what was added meanwhile nested in it
pub proof fn nested(a: TV, b: TV, c: TV, d: TV, eff: TE, e: reflect::trace::EffectEdge)
    requires begun(a, b, eff, e, true), grown(b, c), ended(c, d), rec_ok(a),
    ensures closable(c), grown(a, d), a is None ==> added(a, d).len() == 0, a is Some ==> added(a, d).len() == 1 && ({ let x = added(a, d)[0]; x.effect == eff && x.edge == e && x.extent@ == added(b, c) }),
{
    if a is Some {
        let (s, t, u, w) = (a->0, b->0, c->0, d->0);
        assert(u.drop_last() =~= t.drop_last());
        assert(w.drop_last() =~= t.drop_last().drop_last());
        assert(s.drop_last() =~= w.drop_last());
        let (x, y) = (s.last(), w.last());
        assert(y.drop_last() =~= x);
        assert(y.take(x.len() as int) =~= y.drop_last()); assert(y.skip(x.len() as int) =~= seq![y.last()]);
        assert(u.last().skip(0) =~= u.last());
    }
}
pub proof fn can_close(a: TV, b: TV, c: TV, eff: TE, e: reflect::trace::EffectEdge)
    requires begun(a, b, eff, e, true), grown(b, c), rec_ok(a),
    ensures closable(c), rec_ok(c),
{ if a is Some { let (t, u) = (b->0, c->0); assert(u.drop_last() =~= t.drop_last()); assert(u[u.len() - 2] == u.drop_last().last()); } }

// ---- what a trace says
pub open spec fn fwd(l: Option<RLoc>, s: reflect::Succ) -> reflect::trace::EffectEdge { reflect::trace::EffectEdge::Fwd(reflect::trace::Edge { loc: l, succ: s }) }
pub open spec fn is_fwd(x: Tr) -> bool { x.edge is Fwd }
pub open spec fn by(x: Tr) -> Option<RLoc> { x.edge->Fwd_0.loc }
pub open spec fn on(x: Tr) -> reflect::Succ { x.edge->Fwd_0.succ }
/// an edge at `l` becomes dirty
pub open spec fn dirt(x: Tr, l: RLoc, any: bool) -> bool { is_fwd(x) && x.effect is Dirty && on(x).loc == l && by(x) is Some && (on(x).effect is Force || any) }
/// `l` loses an edge
pub open spec fn remv(x: Tr, l: RLoc) -> bool { is_fwd(x) && x.effect is Remove && by(x) == Some(l) }
/// a step of the program that runs as `l` (None: of the editor, who may also dirty edges)
pub open spec fn step(x: Tr, l: Option<RLoc>) -> bool { x.effect is Debug || (is_fwd(x) && (x.effect is Alloc || x.effect is Force) && by(x) == l) || (is_fwd(x) && x.effect is Dirty && l is None) }
/// part of an evaluation of `l`
pub open spec fn run_by(x: Tr, l: RLoc) -> bool { remv(x, l) || step(x, Some(l)) }
/// part of checking whether `l` still has the value it had
pub open spec fn check_of(x: Tr, l: RLoc) -> bool { is_fwd(x) && ((x.effect is CleanRec && by(x) == Some(l)) || (x.effect is CleanEval && by(x) is None && on(x).loc == l)) }
pub open spec fn rec_of(x: Tr, l: RLoc) -> bool { is_fwd(x) && x.effect is CleanRec && by(x) == Some(l) }
pub open spec fn all_dirt(s: Seq<Tr>, l: RLoc, any: bool) -> bool { forall|i: int| 0 <= i < s.len() ==> dirt(#[trigger] s[i], l, any) }
pub open spec fn all_remv(s: Seq<Tr>, l: RLoc) -> bool { forall|i: int| 0 <= i < s.len() ==> remv(#[trigger] s[i], l) }
pub open spec fn all_steps(s: Seq<Tr>, l: Option<RLoc>) -> bool { forall|i: int| 0 <= i < s.len() ==> step(#[trigger] s[i], l) }
pub open spec fn all_run(s: Seq<Tr>, l: RLoc) -> bool { forall|i: int| 0 <= i < s.len() ==> run_by(#[trigger] s[i], l) }
pub open spec fn all_check(s: Seq<Tr>, l: RLoc) -> bool { forall|i: int| 0 <= i < s.len() ==> check_of(#[trigger] s[i], l) }
pub open spec fn all_rec(s: Seq<Tr>, l: RLoc) -> bool { forall|i: int| 0 <= i < s.len() ==> rec_of(#[trigger] s[i], l) }
pub open spec fn dirt_or_remv(s: Seq<Tr>, l: RLoc) -> bool { forall|i: int| 0 <= i < s.len() ==> dirt(#[trigger] s[i], l, true) || remv(s[i], l) }
/// what can be nested in an effect
pub open spec fn fits(eff: TE, l: Option<RLoc>, t: reflect::Succ, s: Seq<Tr>) -> bool {
    match eff {
        TE::Debug(_, _) => true,
        // a fresh location, and the same content, affect nothing
        TE::Alloc(c, _) => t.effect is Alloc && match c { reflect::trace::AllocCase::LocFresh => s.len() == 0, reflect::trace::AllocCase::LocExists(f) => if f is ContentSame { s.len() == 0 } else { dirt_or_remv(s, t.loc) } },
        TE::Force(c) => t.effect is Force && match c {
            reflect::trace::ForceCase::RefGet => s.len() == 0,
            reflect::trace::ForceCase::CompCacheMiss => all_run(s, t.loc), // evaluated
            reflect::trace::ForceCase::CompCacheHit => all_rec(s, t.loc), // checked
        },
        // then the edges to its source become dirty
        TE::Dirty => l is Some && all_dirt(s, l->0, false),
        TE::Remove => s.len() == 0 && l is Some,
        TE::CleanEdge => s.len() == 0 && l is Some,
        // the target is checked; then the edge is clean, or its source is evaluated
        TE::CleanRec => l is Some && s.len() > 0 && all_check(s.drop_last(), t.loc) && is_fwd(s.last()) && by(s.last()) == l && on(s.last()) == t && (s.last().effect is CleanEdge || s.last().effect is CleanEval),
        TE::CleanEval => if l is Some { all_run(s, l->0) } else { all_run(s, t.loc) },
    }
}
pub open spec fn ok(x: Tr) -> bool decreases x {
    (if x.effect is Debug { x.edge is None } else { is_fwd(x) && fits(x.effect, by(x), on(x), x.extent@) })
        && forall|i: int| 0 <= i < x.extent@.len() ==> ok(#[trigger] x.extent@[i])
}
pub open spec fn all_ok(s: Seq<Tr>) -> bool { forall|i: int| 0 <= i < s.len() ==> ok(#[trigger] s[i]) }

// ---- the engine, as far as traces depend on it
pub open spec fn cur(st: DCG) -> Option<RLoc> { if st.stack@.len() > 0 { Some(rl(*st.stack@.last().loc)) } else { None } }
/// the frames are those of before; only the one on top may have recorded more
pub open spec fn same_frames(a: Seq<Frame>, b: Seq<Frame>) -> bool { a.len() == b.len() && (a.len() > 0 ==> a.drop_last() == b.drop_last() && a.last().loc == b.last().loc) }
pub open spec fn onstack(s: Seq<Frame>, l: Rc<Loc>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).loc == l }
/// the program has added to the trace, as its current location
pub open spec fn went(st: DCG, a: TV, b: TV) -> bool { grown(a, b) && all_steps(added(a, b), cur(st)) && all_ok(added(a, b)) }
/// one effect was recorded
pub open spec fn one(a: TV, b: TV, eff: TE, l: Option<RLoc>, t: reflect::Succ) -> bool {
    grown(a, b) && (a is Some ==> added(a, b).len() == 1 && ({ let x = added(a, b)[0]; x.effect == eff && x.edge == fwd(l, t) && ok(x) }))
}
pub proof fn leaf_done(a: TV, b: TV, eff: TE, l: Option<RLoc>, t: reflect::Succ)
    requires begun(a, b, eff, fwd(l, t), false), rec_ok(a), fits(eff, l, t, Seq::empty()), !(eff is Debug),
    ensures one(a, b, eff, l, t), rec_ok(b),
{ leaf(a, b, eff, fwd(l, t)); if a is Some { let x = added(a, b)[0]; assert(x.extent@ =~= Seq::empty()); } }
pub proof fn effect_done(a: TV, b: TV, c: TV, d: TV, eff: TE, l: Option<RLoc>, t: reflect::Succ)
    requires begun(a, b, eff, fwd(l, t), true), grown(b, c), ended(c, d), rec_ok(a), a is Some ==> fits(eff, l, t, added(b, c)), all_ok(added(b, c)), !(eff is Debug),
    ensures one(a, d, eff, l, t), rec_ok(d),
{ nested(a, b, c, d, eff, fwd(l, t)); }
pub proof fn one_more(a: TV, b: TV, c: TV, eff: TE, l: Option<RLoc>, t: reflect::Succ)
    requires grown(a, b), one(b, c, eff, l, t),
    ensures grown(a, c), b is None ==> added(a, c).len() == 0, b is Some ==> added(a, c).len() == added(a, b).len() + 1 && added(a, c) =~= added(a, b).push(added(b, c)[0]) && added(b, c)[0].effect == eff && added(b, c)[0].edge == fwd(l, t) && ok(added(b, c)[0]),
{ grown_trans(a, b, c); if b is None { assert(a is None); } }
pub open spec fn tok(l: Rc<Loc>, eff: reflect::Effect, dup: bool) -> reflect::Succ { reflect::Succ { loc: rl(*l), effect: eff, value: reflect::Val::ValTODO, dirty: false, is_dup: dup } }
pub open spec fn exists_with(same: bool) -> reflect::trace::AllocCase { reflect::trace::AllocCase::LocExists(if same { reflect::trace::ChangeFlag::ContentSame } else { reflect::trace::ChangeFlag::ContentDiff }) }
/// allocating `x` at `l`
pub open spec fn cell_case(st: DCG, l: Rc<Loc>, x: Val) -> reflect::trace::AllocCase {
    if !st.table@.dom().contains(l) { reflect::trace::AllocCase::LocFresh }
    else { exists_with(match st.table@[l] { Node::Mut(n) => n.val == x, Node::Pure(n) => n.val == x, Node::Comp(_) => false }) }
}
/// allocating a thunk at `l`; structural identity determines the content
pub open spec fn thunk_case(st: DCG, l: Rc<Loc>, arg: Val, nominal: bool) -> reflect::trace::AllocCase {
    if !st.table@.dom().contains(l) { reflect::trace::AllocCase::LocFresh }
    else { exists_with(!nominal || match st.table@[l] { Node::Comp(n) => n.producer.arg == arg, _ => false }) }
}
/// demanding `l`
pub open spec fn force_case(st: DCG, l: Rc<Loc>) -> reflect::trace::ForceCase {
    match st.table@[l] { Node::Comp(n) => if onstack(st.stack@, l) || n.res is Some { reflect::trace::ForceCase::CompCacheHit } else { reflect::trace::ForceCase::CompCacheMiss }, _ => reflect::trace::ForceCase::RefGet }
}
pub open spec fn dup_x(x: (Succ, Option<Rc<Dep>>), l: Rc<Loc>) -> bool { x.0.loc == l && x.0.effect is Observe && x.1 is None }
pub open spec fn dup(st: DCG, l: Rc<Loc>) -> bool { st.stack@.len() > 0 && exists|j: int| 0 <= j < st.stack@.last().succs@.len() && dup_x(#[trigger] st.stack@.last().succs@[j], l) }
pub proof fn pushed_frame(a: Seq<Frame>, b: Seq<Frame>)
    requires a.len() > 0, b == a.update(a.len() - 1, b.last()), b.last().loc == a.last().loc,
    ensures same_frames(a, b),
{ assert(b.drop_last() =~= a.drop_last()); }
pub type Table = Map<Rc<Loc>, Node>;
pub open spec fn same_node(a: Node, b: Node) -> bool { match (a, b) { (Node::Comp(x), Node::Comp(y)) => x.succs@ == y.succs@ && x.preds@ == y.preds@ && x.producer == y.producer && x.res == y.res, _ => a == b } }
/// the same contents, dependencies and marks
pub open spec fn unmoved(a: Table, b: Table) -> bool { forall|l: Rc<Loc>| #![trigger a.dom().contains(l)] #![trigger b.dom().contains(l)] #![trigger b[l]] a.dom().contains(l) == b.dom().contains(l) && (a.dom().contains(l) ==> same_node(a[l], b[l])) }
pub proof fn same_update()
    ensures forall|s: Seq<Succ>, i: int| 0 <= i < s.len() ==> #[trigger] s.update(i, s[i]) == s, forall|s: Seq<Succ>, i: int, x: Succ| 0 <= i < s.len() && x == s[i] ==> #[trigger] s.update(i, x) == s,
{ assert forall|s: Seq<Succ>, i: int, x: Succ| 0 <= i < s.len() && x == s[i] implies #[trigger] s.update(i, x) == s by { assert(s.update(i, x) =~= s); } }
