//@ props A01
// ---- association lists as maps and sets
/// what the first pair with key `d` holds
pub open spec fn look<D, C>(s: Seq<(D, C)>, d: D) -> Option<C> decreases s.len() {
    if s.len() == 0 { None } else if s[0].0 == d { Some(s[0].1) } else { look(s.drop_first(), d) }
}
pub broadcast proof fn b_look<D, C>(d: D, c: C, s: Seq<(D, C)>, k: D) ensures #[trigger] look(seq![(d, c)] + s, k) == (if d == k { Some(c) } else { look(s, k) })
{ assert((seq![(d, c)] + s).drop_first() =~= s); }
//@ cfn List::empty@MapIntro
//@@ impl <Dom, Cod> List<(Dom, Cod)>
    ensures es(r) == Seq::<(Dom, Cod)>::empty(), forall|k: Dom| #[trigger] look(es(r), k) is None,
//@ cfn List::update@MapIntro
//@@ impl <Dom, Cod> List<(Dom, Cod)>
//@@ params map, d, c
    ensures es(r) == seq![(d, c)] + es(map), forall|k: Dom| #[trigger] look(es(r), k) == (if k == d { Some(c) } else { look(es(map), k) }),
//@@ entry
    broadcast use b_look;
//@ cfn List::find@MapElim
//@@ impl <Dom, Cod> List<(Dom, Cod)>
//@@ valcmp
//@@ stops
//@@ params map, d
    ensures r == look(es(*map), *d),
//@@ entry
    broadcast use b_look;
//@ end
/// `r` is what folding `f` over the pairs `s`, from the right, makes of `init`
pub open spec fn mfolded<D, C, Res, F: Fn(D, C, Res) -> Res>(f: F, s: Seq<(D, C)>, init: Res, r: Res) -> bool decreases s.len() {
    if s.len() == 0 { r == init } else { exists|m: Res| mfolded(f, s.drop_first(), init, m) && #[trigger] call_ensures(f, (s[0].0, s[0].1, m), r) }
}
pub proof fn mfold_of<D, C, Res, F: Fn(D, C, Res) -> Res, G: Fn((D, C), Res) -> Res>(f: F, g: G, s: Seq<(D, C)>, init: Res, r: Res)
    requires folded(g, s, init, r), forall|p: (D, C), a: Res, b: Res| #[trigger] call_ensures(g, (p, a), b) ==> call_ensures(f, (p.0, p.1, a), b)
    ensures mfolded(f, s, init, r) decreases s.len()
{
    if s.len() > 0 {
        let m = choose|m: Res| folded(g, s.drop_first(), init, m) && #[trigger] call_ensures(g, (s[0], m), r);
        mfold_of(f, g, s.drop_first(), init, m);
        assert(call_ensures(f, (s[0].0, s[0].1, m), r));
    }
}
//@ cfn List::fold@MapElim
//@@ impl <Dom, Cod> List<(Dom, Cod)>
//@@ params map, res, body
    requires forall|d: Dom, c: Cod, m: Res| call_requires(*body, (d, c, m)),
    ensures mfolded(*body, es(map), res, r),
//@@ closure 0 (p0: (Dom, Cod), p1: Res) -> (q: Res)
    ensures call_ensures(*body, (p0.0, p0.1, p1), q)
//@@ tail
    proof { mfold_of(*body, vp_c0, es(map), res, vp_ret); }
//@ cfn map_empty
    ensures es(r) == Seq::<(Dom, Cod)>::empty(),
//@ cfn map_update
//@@ params map, d, c
    ensures es(r) == seq![(d, c)] + es(map), forall|k: Dom| #[trigger] look(es(r), k) == (if k == d { Some(c) } else { look(es(map), k) }),
//@ cfn map_find
//@@ params map, d
    ensures r == look(es(*map), *d),
//@ cfn map_fold
//@@ gens Dom, Cod, Res
//@@ params map, res, body
    requires forall|d: Dom, c: Cod, m: Res| call_requires(*body, (d, c, m)),
    ensures mfolded(*body, es(map), res, r),
//@ end
/// membership
pub open spec fn mem<X>(s: Seq<(X, ())>, x: X) -> bool { look(s, x) is Some }
pub proof fn mem_iff<X>(s: Seq<(X, ())>, x: X) ensures mem(s, x) <==> s.contains((x, ())) decreases s.len()
{
    if s.len() > 0 {
        mem_iff(s.drop_first(), x);
        if s.drop_first().contains((x, ())) { let i = choose|i: int| 0 <= i < s.len() - 1 && s.drop_first()[i] == (x, ()); assert(s[i + 1] == (x, ())); }
        if s.contains((x, ())) && s[0].0 != x { let i = choose|i: int| 0 <= i < s.len() && s[i] == (x, ()); assert(s.drop_first()[i - 1] == (x, ())); }
        if s[0].0 == x { assert(s[0] == (x, ())); }
    }
}
//@ cfn Map::empty@SetIntro
//@@ impl <Elm> List<(Elm, ())>
//@@ rename set_empty
    ensures forall|k: Elm| !(#[trigger] mem(es(r), k)),
//@ cfn Map::add@SetIntro
//@@ impl <Elm> List<(Elm, ())>
//@@ params set, x
    ensures forall|k: Elm| #[trigger] mem(es(r), k) <==> k == x || mem(es(set), k),
//@ cfn Map::is_mem@SetElim
//@@ impl <Elm> List<(Elm, ())>
//@@ params set, e
    ensures r == mem(es(*set), *e),
//@ end
/// `r` is what folding `f` over the elements, from the right, makes of `init`
pub open spec fn keys<X>(s: Seq<(X, ())>) -> Seq<X> { s.map_values(|p: (X, ())| p.0) }
pub proof fn keys_fold<X, Res, F: Fn(X, Res) -> Res, G: Fn(X, (), Res) -> Res>(f: F, g: G, s: Seq<(X, ())>, init: Res, r: Res)
    requires mfolded(g, s, init, r), forall|x: X, u: (), a: Res, b: Res| #[trigger] call_ensures(g, (x, u, a), b) ==> call_ensures(f, (x, a), b)
    ensures folded(f, keys(s), init, r) decreases s.len()
{
    if s.len() > 0 {
        let m = choose|m: Res| mfolded(g, s.drop_first(), init, m) && #[trigger] call_ensures(g, (s[0].0, s[0].1, m), r);
        keys_fold(f, g, s.drop_first(), init, m);
        assert(keys(s).drop_first() =~= keys(s.drop_first()));
        assert(call_ensures(f, (keys(s)[0], m), r));
    }
}
//@ cfn Map::fold@SetElim
//@@ impl <Elm> List<(Elm, ())>
//@@ rename set_fold
//@@ params set, res, f
    requires forall|x: Elm, m: Res| call_requires(*f, (x, m)),
    ensures folded(*f, keys(es(set)), res, r),
//@@ closure 0 (p0: Elm, p1: (), p2: Res) -> (q: Res)
    ensures call_ensures(*f, (p0, p2), q)
//@@ tail
    proof { keys_fold(*f, vp_c0, es(set), res, vp_ret); }
//@ end
pub open spec fn inter_ok<X>(s: Seq<(X, ())>, o: Seq<(X, ())>, r: Seq<(X, ())>) -> bool { forall|k: X| #[trigger] mem(r, k) <==> mem(s, k) && mem(o, k) }
pub proof fn inter_fold<X, G: Fn(X, (), (List<(X, ())>, List<(X, ())>)) -> (List<(X, ())>, List<(X, ())>)>(g: G, s: Seq<(X, ())>, init: (List<(X, ())>, List<(X, ())>), r: (List<(X, ())>, List<(X, ())>))
    requires mfolded(g, s, init, r), forall|k: X| !(#[trigger] mem(es(init.0), k)),
        forall|x: X, u: (), a: (List<(X, ())>, List<(X, ())>), b: (List<(X, ())>, List<(X, ())>)| #[trigger] call_ensures(g, (x, u, a), b) ==> es(b.1) == es(a.1)
            && forall|k: X| #[trigger] mem(es(b.0), k) <==> mem(es(a.0), k) || (k == x && mem(es(a.1), x)),
    ensures es(r.1) == es(init.1), inter_ok(s, es(init.1), es(r.0)) decreases s.len()
{
    if s.len() > 0 {
        let m = choose|m: (List<(X, ())>, List<(X, ())>)| mfolded(g, s.drop_first(), init, m) && #[trigger] call_ensures(g, (s[0].0, s[0].1, m), r);
        inter_fold(g, s.drop_first(), init, m);
        assert(s =~= seq![(s[0].0, ())] + s.drop_first());
        assert forall|k: X| #[trigger] mem(es(r.0), k) <==> mem(s, k) && mem(es(init.1), k) by { b_look(s[0].0, (), s.drop_first(), k); assert(mem(es(m.0), k) <==> mem(s.drop_first(), k) && mem(es(init.1), k)); }
    }
}
//@ cfn Map::inter@SetIntro
//@@ impl <Elm> List<(Elm, ())>
//@@ params set, other
    ensures inter_ok(es(set), es(other), es(r)),
//@@ closure 0 (p0: Elm, p1: (), p2: (List<(Elm, ())>, List<(Elm, ())>)) -> (q: (List<(Elm, ())>, List<(Elm, ())>))
    ensures es(q.1) == es(p2.1), forall|k: Elm| #[trigger] mem(es(q.0), k) <==> mem(es(p2.0), k) || (k == p0 && mem(es(p2.1), p0))
//@@ tail
    proof {
        assert forall|a: (List<(Elm, ())>, List<(Elm, ())>), b: (List<(Elm, ())>, List<(Elm, ())>)| #[trigger] mfolded(vp_c0, es(set), a, b) && (forall|k: Elm| !(#[trigger] mem(es(a.0), k)))
            implies es(b.1) == es(a.1) && inter_ok(es(set), es(a.1), es(b.0)) by { inter_fold(vp_c0, es(set), a, b); } }
//@ end
