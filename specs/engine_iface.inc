// ================= the functions programs call (src/engine.rs), and the selection of engines
/// running the function with no engine gives `r`
pub uninterp spec fn ran_naive(f: FnBox, arg: Val, spurious: Val, r: Val) -> bool;
pub uninterp spec fn body_ran_naive(b: Body, r: Val) -> bool;
pub open spec fn gv(g: Globals) -> V { v(g.engine->DCG_0) }
pub open spec fn ginv(g: Globals) -> bool { g.engine is DCG ==> inv(gv(g)) }
/// what a program may do to the engine in force: it stays in force
pub open spec fn gstep(a: Globals, b: Globals) -> bool {
    &&& ginv(b) && (a.engine is DCG <==> b.engine is DCG)
    &&& a.engine is DCG ==> same_stack(gv(a), gv(b)) && gv(b).path == gv(a).path && gv(b).flags == gv(a).flags && (gv(a).s.len() > 0 ==> guar(gv(a), gv(b)))
}
pub proof fn gstep_refl(g: Globals) requires ginv(g), ensures gstep(g, g) { if g.engine is DCG { guar_refl(gv(g)); } }
impl FnBox {
    /// user code: it uses the engine only through its interface, and does not select another one
    #[verifier::external_body]
    pub fn call_g(&self, arg: Val, spurious: Val, g: &mut Globals) -> (r: Val)
        requires ginv(*old(g)),
        ensures gstep(*old(g), *final(g)), old(g).engine is Naive ==> ran_naive(*self, arg, spurious, r),
            old(g).engine is DCG && gv(*old(g)).s.len() > 0 && gv(*old(g)).s.last().succs.len() == 0 ==> ran_fn(*self, arg, spurious, gv(*old(g)).path, es(gv(*final(g)).s.last().succs), r),
    { unimplemented!() }
}
impl Body {
    #[verifier::external_body]
    pub fn call_g(self, g: &mut Globals) -> (r: Val)
        requires ginv(*old(g)), old(g).engine is Naive,
        ensures gstep(*old(g), *final(g)), body_ran_naive(self, r),
    { unimplemented!() }
}
/// what a demand of `l` may assume and gives
pub open spec fn may_force(v0: V, l: Loc) -> bool { inv(v0) && has(v0, l) && (v0.s.len() == 0 || low(v0, l)) }
pub open spec fn forced(v0: V, w: V, l: Loc, r: Val) -> bool {
    &&& inv(w) && clean(w, l) && holds(w, l, r) && observed(w, l, r) && current(w, l)
    &&& v0.s.len() > 0 ==> guar(v0, w)
    &&& clean(v0, l) ==> w.t == v0.t
    &&& w.path == v0.path && w.flags == v0.flags && same_stack(v0, w)
}
/// the value an art that is in no graph stands for
pub open spec fn stands_for(a: Art, x: Val) -> bool {
    match a.art { EnumArt::Rc(y) => x == *y, EnumArt::Force(f) => ran_naive(f.fn_box, f.arg, f.spurious, x), EnumArt::Loc(_) => false }
}
//@ props M01
//@ fn NaiveThunk::force@Force
//@@ sig pub fn force(&self, g: &mut Globals) -> (r: Val)
//@@ callname call_g
//@@ callghost call g
    requires ginv(*old(g)),
    ensures gstep(*old(g), *final(g)), old(g).engine is Naive ==> ran_naive(self.fn_box, self.arg, self.spurious, r), // [M01]
//@ fn use_engine
//@@ sig pub fn use_engine(engine: Engine, g: &mut Globals) -> (r: Engine)
    ensures r == old(g).engine, final(g).engine == engine, // [M01]
//@ fn init_engine
//@@ sig pub fn init_engine(engine: Engine, g: &mut Globals) -> (r: Engine)
//@@ callghost use_engine g
    ensures r == old(g).engine, final(g).engine == engine, // [M01]
//@ fn init_dcg
//@@ sig pub fn init_dcg(g: &mut Globals) -> (r: Engine)
//@@ callghost init_engine g
    ensures r == old(g).engine, final(g).engine is DCG, ginv(*final(g)), gv(*final(g)).t == IMap::<Loc, N>::empty(), gv(*final(g)).s.len() == 0, gv(*final(g)).path is Empty, // [M01]
//@ fn init_naive
//@@ sig pub fn init_naive(g: &mut Globals) -> (r: Engine)
//@@ callghost init_engine g
    ensures r == old(g).engine, final(g).engine is Naive, // [M01]
//@ fn engine_is_naive
//@@ sig pub fn engine_is_naive(g: &mut Globals) -> (r: bool)
    ensures r == old(g).engine is Naive, *final(g) == *old(g), // [M01]
//@ fn engine_is_dcg
//@@ sig pub fn engine_is_dcg(g: &mut Globals) -> (r: bool)
    ensures r == old(g).engine is DCG, *final(g) == *old(g), // [M01]
//@ fn ns
//@@ props M01,E08
//@@ sig pub fn ns(n: Name, body: Body, g: &mut Globals) -> (r: Val)
//@@ callname call_g
//@@ callghost call g
    requires ginv(*old(g)),
    ensures gstep(*old(g), *final(g)), // [M01,E08]
        match old(g).engine { Engine::DCG(d) => body_ran(body, Path::Child(Rc::new(v(d).path), n), v(d).flags, r), Engine::Naive => body_ran_naive(body, r) }, // [M01,E08]
//@ fn structural
//@@ props M01,E07
//@@ sig pub fn structural(body: Body, g: &mut Globals) -> (r: Val)
//@@ callname call_g
//@@ callghost call g
    requires ginv(*old(g)),
    ensures gstep(*old(g), *final(g)), // [M01,E08]
        match old(g).engine { Engine::DCG(d) => body_ran(body, v(d).path, Flags { ignore_nominal_use_structural: true, ..v(d).flags }, r), Engine::Naive => body_ran_naive(body, r) }, // [M01,E07]
//@ fn put
//@@ params val
    ensures r.art == EnumArt::Rc(Rc::new(val)), forall|x: Val| #[trigger] stands_for(r, x) <==> x == val, // [M01]
//@ fn cell
//@@ props M01,E06
//@@ sig pub fn cell(n: Name, val: Val, g: &mut Globals) -> (r: Art)
    requires ginv(*old(g)), old(g).engine is DCG ==> cell_ok(gv(*old(g)), n, val),
    ensures gstep(*old(g), *final(g)), // [M01]
        old(g).engine is DCG ==> r.art == EnumArt::Loc(Rc::new(cell_loc(gv(*old(g)), n, val))), // [E06,E07,E08]
        old(g).engine is DCG ==> ({ let l = cell_loc(gv(*old(g)), n, val); let w = gv(*final(g)); has(w, l) && !(w.t[l].kind is Comp) && w.t[l].val == val
            && (!cell_pure(gv(*old(g))) ==> w.t[l].kind is Mut && recorded(w, E { eff: Effect::Allocate, loc: l, dep: Dep::AllocCell(AllocCell { val: val }) })) }), // [E01,E06]
        old(g).engine is Naive ==> forall|x: Val| #[trigger] stands_for(r, x) <==> x == val, // [M01]
//@ fn set
//@@ props M01,E01
//@@ sig pub fn set(a: &Art, val: Val, g: &mut Globals)
    requires a.art is Loc, old(g).engine is DCG, ({ let v0 = gv(*old(g)); let l = *a.art->Loc_0; inv(v0) && v0.s.len() == 0 && has(v0, l) && v0.t[l].kind is Mut }),
    ensures gstep(*old(g), *final(g)), ({ let w = gv(*final(g)); let l = *a.art->Loc_0; has(w, l) && w.t[l].kind is Mut && w.t[l].val == val }), // [M01,E01]
//@ fn thunk
//@@ props M01,E06
//@@ sig pub fn thunk(id: NameChoice, prog_pt: ProgPt, fn_box: FnBox, arg: Val, spurious: Val, g: &mut Globals) -> (r: Art)
//@@ callname call_g
//@@ callghost call g
    requires ginv(*old(g)), old(g).engine is DCG && !(id is Naive) ==> thunk_ok(gv(*old(g)), id, App { prog_pt: prog_pt, fn_box: fn_box, arg: arg, spurious: spurious }),
    ensures gstep(*old(g), *final(g)), // [M01]
        old(g).engine is Naive || id is Naive ==> r.art == EnumArt::Force(Rc::new(NaiveThunk { id: id, prog_pt: prog_pt, fn_box: fn_box, arg: arg, spurious: spurious })) && *final(g) == *old(g), // [M01,E06]
        old(g).engine is Naive ==> forall|x: Val| #[trigger] stands_for(r, x) <==> ran_naive(fn_box, arg, spurious, x), // [M01]
        old(g).engine is DCG && id is Eager ==> r.art is Rc, // [M01]
        old(g).engine is DCG && !(id is Naive) && !(id is Eager) ==> ({ let v0 = gv(*old(g)); let l = thunk_loc(v0, id, prog_pt, arg); let w = gv(*final(g));
            &&& r.art == EnumArt::Loc(Rc::new(l)) && has(w, l) && w.t[l].kind is Comp // [E06,E07,E08]
            &&& !(has(v0, l) && v0.t[l].kind is Comp && (eff_id(v0.flags, id) is Nominal ==> v0.t[l].producer.arg == arg)) ==> w.t[l].producer == (App { prog_pt: prog_pt, fn_box: fn_box, arg: arg, spurious: spurious })
            &&& eff_id(v0.flags, id) is Nominal ==> w.t[l].producer.arg == arg && w.t[l].producer.prog_pt == prog_pt
                && recorded(w, E { eff: Effect::Allocate, loc: l, dep: Dep::AllocNominalThunk(AllocNominalThunk { val: arg }) })
            &&& has(v0, l) && v0.t[l].kind is Comp && (eff_id(v0.flags, id) is Nominal ==> v0.t[l].producer.arg == arg) ==> w.t == v0.t }), // [E03,E06,E07]
//@@ entry
    proof { gstep_refl(*g); }
//@ fn force
//@@ props M01,E01
//@@ sig pub fn force(a: &Art, g: &mut Globals) -> (r: Val)
//@@ callghost .force g
    requires ginv(*old(g)), a.art is Loc ==> old(g).engine is DCG && may_force(gv(*old(g)), *a.art->Loc_0) && !onstack(gv(*old(g)), *a.art->Loc_0),
    ensures gstep(*old(g), *final(g)), // [M01]
        a.art is Rc ==> *final(g) == *old(g), // [M01]
        old(g).engine is Naive ==> stands_for(*a, r), a.art is Rc ==> stands_for(*a, r), // [M01]
        a.art is Loc ==> forced(gv(*old(g)), gv(*final(g)), *a.art->Loc_0, r), // [E01,E02,E03]
//@@ entry
    proof { gstep_refl(*g); }
//@ fn force_cycle
//@@ props M01,E09
//@@ sig pub fn force_cycle(a: &Art, cycle_out: Option<Val>, g: &mut Globals) -> (r: Val)
//@@ callghost .force g
    requires ginv(*old(g)), a.art is Loc ==> old(g).engine is DCG && ({ let v0 = gv(*old(g)); let l = *a.art->Loc_0; inv(v0) && has(v0, l) && if onstack(v0, l) { cycle_out is Some } else { v0.s.len() == 0 || low(v0, l) } }),
    ensures
        a.art is Rc ==> *final(g) == *old(g), old(g).engine is Naive ==> stands_for(*a, r), a.art is Rc ==> stands_for(*a, r), // [M01]
        a.art is Loc && !onstack(gv(*old(g)), *a.art->Loc_0) ==> forced(gv(*old(g)), gv(*final(g)), *a.art->Loc_0, r), // [E09,E01]
        a.art is Loc && onstack(gv(*old(g)), *a.art->Loc_0) ==> r == cycle_out->0 && gv(*final(g)).t == gv(*old(g)).t, // [E09]
//@ fn force_map
//@@ props M01,E05
//@@ sig pub fn force_map(a: &Art, mapf: Fun, g: &mut Globals) -> (r: Val)
//@@ callghost .force g
    requires ginv(*old(g)), a.art is Loc ==> old(g).engine is DCG && may_force(gv(*old(g)), *a.art->Loc_0) && !onstack(gv(*old(g)), *a.art->Loc_0),
    ensures gstep(*old(g), *final(g)), // [M01]
        !(a.art is Loc) && old(g).engine is Naive || a.art is Rc ==> exists|x: Val| stands_for(*a, x) && r == #[trigger] mapres(mapf, *a, x), // [M01]
        a.art is Loc ==> ({ let v0 = gv(*old(g)); let w = gv(*final(g)); let l = *a.art->Loc_0;
            &&& clean(w, l) && current(w, l) // [E01,E05]
            &&& (exists|x: Val| holds(w, l, x) && r == #[trigger] mapres(mapf, art_of(l), x) && (v0.t[l].kind is Mut ==> w.t == v0.t && map_observed(w, l, Dep::ForceMapDep(ForceMapDep { raw: PhantomData, mapf: mapf, res: r }))) && (!(v0.t[l].kind is Mut) ==> observed(w, l, x))) }), // [E01,E05]
//@@ entry
    proof { gstep_refl(*g); }
//@ fn force_abs
//@@ props M01,E05
//@@ sig pub fn force_abs(absmapfam: AbsFam, arg: Val, a: Art, g: &mut Globals) -> (r: Val)
//@@ callghost .force g
    requires ginv(*old(g)), a.art is Loc ==> old(g).engine is DCG && may_force(gv(*old(g)), *a.art->Loc_0) && !onstack(gv(*old(g)), *a.art->Loc_0),
    ensures gstep(*old(g), *final(g)), // [M01]
        !(a.art is Loc) && old(g).engine is Naive || a.art is Rc ==> exists|x: Val| stands_for(a, x) && r == #[trigger] absres(absmapfam, arg, x), // [M01]
        a.art is Loc ==> ({ let v0 = gv(*old(g)); let w = gv(*final(g)); let l = *a.art->Loc_0;
            &&& clean(w, l) && current(w, l) // [E01,E05]
            &&& (exists|x: Val| holds(w, l, x) && r == #[trigger] absres(absmapfam, arg, x) && (v0.t[l].kind is Mut ==> w.t == v0.t && abs_observed(w, l, x, absmapfam)) && (!(v0.t[l].kind is Mut) ==> observed(w, l, x))) }), // [E01,E05]
//@@ entry
    proof { gstep_refl(*g); }
//@ end
/// engines that are not in force: a program, whatever it does, leaves the value that
/// selecting an engine returned as it is, and selecting it again brings it back
pub fn vp_switch(mine: Engine, g: &mut Globals, f: FnBox, arg: Val, spurious: Val) -> (r: (Val, Engine))
    requires ginv(*old(g)), mine is DCG ==> inv(v(mine->DCG_0)),
    ensures final(g).engine == old(g).engine,
{
    let old_engine = use_engine(mine, g);
    let x = f.call_g(arg, spurious, g);
    let back = use_engine(old_engine, g);
    (x, back)
}
