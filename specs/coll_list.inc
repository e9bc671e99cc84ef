//@ props L01,T01,S01,A01
// ---- lists as sequences of elements and names
pub type It<X> = NameElse<X>;
pub open spec fn items<X>(l: List<X>) -> Seq<It<X>> decreases l {
    match l {
        List::Nil => Seq::empty(),
        List::Cons(x, t) => seq![NameElse::Else(x)] + items(*t),
        List::Name(n, t) => seq![NameElse::Name(n)] + items(*t),
        List::Art(a) => items(*a.v),
        List::Tree(..) => arbitrary(),
    }
}
pub open spec fn elems<X>(s: Seq<It<X>>) -> Seq<X> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s[0] { NameElse::Else(x) => seq![x] + elems(s.drop_first()), NameElse::Name(_) => elems(s.drop_first()) } }
}
pub open spec fn es<X>(l: List<X>) -> Seq<X> { elems(items(l)) }
pub proof fn elems_push<X>(i: It<X>, s: Seq<It<X>>)
    ensures elems(seq![i] + s) == (match i { NameElse::Else(x) => seq![x] + elems(s), NameElse::Name(_) => elems(s) })
{ assert((seq![i] + s).drop_first() =~= s); }
pub broadcast proof fn b_elems_e<X>(x: X, s: Seq<It<X>>) ensures #[trigger] elems(seq![NameElse::Else(x)] + s) == seq![x] + elems(s) { elems_push(NameElse::Else(x), s) }
pub broadcast proof fn b_elems_n<X>(n: Name, s: Seq<It<X>>) ensures #[trigger] elems(seq![NameElse::Name(n)] + s) == elems(s) { elems_push(NameElse::Name(n), s) }
pub proof fn elems_app<X>(a: Seq<It<X>>, b: Seq<It<X>>) ensures elems(a + b) == elems(a) + elems(b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(elems(a) + elems(b) =~= elems(b)); }
    else {
        elems_app(a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        assert(elems(a + b) =~= elems(a) + elems(b));
    }
}
pub mod fns {
use super::*;
use vstd::prelude::*;
broadcast use {b_elems_e, b_elems_n};

//@ cfn List::nil@ListIntro
//@@ impl <X> List<X>
    ensures items(r) == Seq::<It<X>>::empty(),
//@ cfn List::cons@ListIntro
//@@ impl <X> List<X>
//@@ params hd, tl
    ensures items(r) == seq![NameElse::Else(hd)] + items(tl),
//@ cfn List::name@ListIntro
//@@ impl <X> List<X>
//@@ params nm, tl
    ensures items(r) == seq![NameElse::Name(nm)] + items(tl),
//@ cfn List::art@ListIntro
//@@ impl <X> List<X>
//@@ params art
    ensures items(r) == items(*art.v),
//@ cfn List::elim_arg@ListElim
//@@ impl <X> List<X>
//@@ open ListV<X>
//@@ stops
//@@ params list, arg, nilf, consf, namef
    ensures match r {
        ListV::Nil(l) => items(list) == Seq::<It<X>>::empty() && items(l) == items(list),
        ListV::Cons(x, t) => items(list) == seq![NameElse::Else(x)] + items(t),
        ListV::Name(n, t) => items(list) == seq![NameElse::Name(n)] + items(t) },
//@ cfn List::elim@ListElim
//@@ impl <X> List<X>
//@@ open ListV<X>
//@@ stops
//@@ params list, nilf, consf, namef
    ensures match r {
        ListV::Nil(l) => items(*list) == Seq::<It<X>>::empty() && items(l) == items(*list),
        ListV::Cons(x, t) => items(*list) == seq![NameElse::Else(x)] + items(t),
        ListV::Name(n, t) => items(*list) == seq![NameElse::Name(n)] + items(t) },
//@ cfn ListIntro::singleton
//@@ impl <X> List<X>
//@@ params hd
    ensures items(r) == seq![NameElse::Else(hd)],
//@@ tail
    proof { assert(items(vp_ret) =~= seq![NameElse::Else(hd)]); }
//@ cfn ListIntro::name_art
//@@ impl <X> List<X>
//@@ params nm, rest
    ensures items(r) == (match nm { Some(n) => seq![NameElse::Name(n)] + items(rest), None => items(rest) }),
//@ cfn ListElim::is_empty
//@@ impl <X> List<X>
//@@ params list
    ensures r == (es(*list).len() == 0),
//@ cfn ListElim::is_name
//@@ impl <X> List<X>
//@@ params list
    ensures r == (items(*list).len() > 0 && items(*list)[0] is Name),
//@ props L01
//@ cfn list_nil
    ensures items(r) == Seq::<It<X>>::empty(),
//@ cfn list_cons
//@@ params x, l
    ensures items(r) == seq![NameElse::Else(x)] + items(l),
//@ cfn list_name
//@@ params n, l
    ensures items(r) == seq![NameElse::Name(n)] + items(l),
//@ cfn list_art
//@@ params l
    ensures items(r) == items(*l.v),
//@ cfn list_name_art_op
//@@ params n, l
    ensures items(r) == (match n { Some(n) => seq![NameElse::Name(n)] + items(l), None => items(l) }),
//@ cfn list_name_op
//@@ params n, l
    ensures items(r) == (match n { Some(n) => seq![NameElse::Name(n)] + items(l), None => items(l) }),
//@ end

// ---- generation
//@ cfn list_gen
//@@ params len, gen_elm
    requires forall|i: usize| call_requires(*gen_elm, (i,)),
    ensures es(r).len() == len,
        forall|j: int| 0 <= j < len ==> call_ensures(*gen_elm, (j as usize,), #[trigger] es(r)[j]),
//@@ loop 0
    invariant vp_n0 == 0, vp_i0 <= len, es(out).len() == len - vp_i0,
        forall|i: usize| call_requires(*gen_elm, (i,)),
        forall|j: int| 0 <= j < len - vp_i0 ==> call_ensures(*gen_elm, ((j + vp_i0) as usize,), #[trigger] es(out)[j]),
//@@ loopstart 0
    let ghost vp_o = es(out);
//@@ loopend 0
    proof { assert(es(out) == seq![x] + vp_o);
        assert forall|j: int| 0 <= j < len - vp_i0 implies call_ensures(*gen_elm, ((j + vp_i0) as usize,), #[trigger] es(out)[j]) by {
            if j > 0 { assert(es(out)[j] == vp_o[j - 1]); } } }
//@ end

// ---- maps
/// `ys` is what `f` gives for `xs`, one by one
pub open spec fn mapped<X, Y, F: Fn(X) -> Y>(f: F, xs: Seq<X>, ys: Seq<Y>) -> bool {
    xs.len() == ys.len() && forall|i: int| 0 <= i < xs.len() ==> call_ensures(f, (xs[i],), #[trigger] ys[i])
}
/// as `mapped`, with the names where they were
pub open spec fn mapped_items<X, Y, F: Fn(X) -> Y>(f: F, a: Seq<It<X>>, b: Seq<It<Y>>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> map_item(f, a[i], #[trigger] b[i])
}
pub open spec fn map_item<X, Y, F: Fn(X) -> Y>(f: F, a: It<X>, b: It<Y>) -> bool {
    match (a, b) { (NameElse::Name(n), NameElse::Name(m)) => m == n, (NameElse::Else(x), NameElse::Else(y)) => call_ensures(f, (x,), y), _ => false }
}
/// as `mapped_items`, but a name may have become another one
pub open spec fn mapped_names<X, Y, F: Fn(X) -> Y>(f: F, a: Seq<It<X>>, b: Seq<It<Y>>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> map_item2(f, a[i], #[trigger] b[i])
}
pub open spec fn map_item2<X, Y, F: Fn(X) -> Y>(f: F, a: It<X>, b: It<Y>) -> bool {
    match (a, b) { (NameElse::Name(n), NameElse::Name(m)) => true, (NameElse::Else(x), NameElse::Else(y)) => call_ensures(f, (x,), y), _ => false }
}
pub proof fn mapped_cons<X, Y, F: Fn(X) -> Y>(f: F, x: X, xs: Seq<X>, y: Y, ys: Seq<Y>)
    requires mapped(f, xs, ys), call_ensures(f, (x,), y)
    ensures mapped(f, seq![x] + xs, seq![y] + ys)
{ assert forall|i: int| 0 <= i < xs.len() + 1 implies call_ensures(f, ((seq![x] + xs)[i],), #[trigger] (seq![y] + ys)[i]) by { if i > 0 { assert((seq![y] + ys)[i] == ys[i - 1]); } } }
pub proof fn mapped_items_cons<X, Y, F: Fn(X) -> Y>(f: F, x: It<X>, xs: Seq<It<X>>, y: It<Y>, ys: Seq<It<Y>>)
    requires mapped_items(f, xs, ys), map_item(f, x, y)
    ensures mapped_items(f, seq![x] + xs, seq![y] + ys)
{ assert forall|i: int| 0 <= i < xs.len() + 1 implies map_item(f, (seq![x] + xs)[i], #[trigger] (seq![y] + ys)[i]) by { if i > 0 { assert((seq![y] + ys)[i] == ys[i - 1]); } } }
pub proof fn mapped_names_cons<X, Y, F: Fn(X) -> Y>(f: F, x: It<X>, xs: Seq<It<X>>, y: It<Y>, ys: Seq<It<Y>>)
    requires mapped_names(f, xs, ys), map_item2(f, x, y)
    ensures mapped_names(f, seq![x] + xs, seq![y] + ys)
{ assert forall|i: int| 0 <= i < xs.len() + 1 implies map_item2(f, (seq![x] + xs)[i], #[trigger] (seq![y] + ys)[i]) by { if i > 0 { assert((seq![y] + ys)[i] == ys[i - 1]); } } }
/// mapping keeps the elements that `mapped` asks for
pub proof fn mapped_names_elems<X, Y, F: Fn(X) -> Y>(f: F, a: Seq<It<X>>, b: Seq<It<Y>>)
    requires mapped_names(f, a, b) ensures mapped(f, elems(a), elems(b)) decreases a.len()
{
    if a.len() > 0 {
        assert(map_item2(f, a[0], b[0]));
        let (at, bt) = (a.drop_first(), b.drop_first());
        assert forall|i: int| 0 <= i < at.len() implies map_item2(f, at[i], #[trigger] bt[i]) by { assert(map_item2(f, a[i + 1], b[i + 1])); }
        mapped_names_elems(f, at, bt);
        match (a[0], b[0]) { (NameElse::Else(x), NameElse::Else(y)) => mapped_cons(f, x, elems(at), y, elems(bt)), _ => {} }
    }
}
pub proof fn mapped_items_elems<X, Y, F: Fn(X) -> Y>(f: F, a: Seq<It<X>>, b: Seq<It<Y>>)
    requires mapped_items(f, a, b) ensures mapped(f, elems(a), elems(b))
{
    assert forall|i: int| 0 <= i < a.len() implies map_item2(f, a[i], #[trigger] b[i]) by { assert(map_item(f, a[i], b[i])); }
    mapped_names_elems(f, a, b);
}
pub broadcast proof fn b_mapped<X, Y, F: Fn(X) -> Y>(f: F, x: X, xs: Seq<X>, y: Y, ys: Seq<Y>)
    ensures mapped(f, xs, ys) && call_ensures(f, (x,), y) ==> #[trigger] mapped(f, seq![x] + xs, seq![y] + ys)
{ if mapped(f, xs, ys) && call_ensures(f, (x,), y) { mapped_cons(f, x, xs, y, ys) } }
pub broadcast proof fn b_mapped_items<X, Y, F: Fn(X) -> Y>(f: F, x: It<X>, xs: Seq<It<X>>, y: It<Y>, ys: Seq<It<Y>>)
    ensures mapped_items(f, xs, ys) && map_item(f, x, y) ==> #[trigger] mapped_items(f, seq![x] + xs, seq![y] + ys)
{ if mapped_items(f, xs, ys) && map_item(f, x, y) { mapped_items_cons(f, x, xs, y, ys) } }
pub broadcast proof fn b_mapped_names<X, Y, F: Fn(X) -> Y>(f: F, x: It<X>, xs: Seq<It<X>>, y: It<Y>, ys: Seq<It<Y>>)
    ensures mapped_names(f, xs, ys) && map_item2(f, x, y) ==> #[trigger] mapped_names(f, seq![x] + xs, seq![y] + ys)
{ if mapped_names(f, xs, ys) && map_item2(f, x, y) { mapped_names_cons(f, x, xs, y, ys) } }
pub broadcast group g_map { b_mapped, b_mapped_items, b_mapped_names }
//@ cfn list_map_lazy
//@@ params l, body
    requires forall|x: X| call_requires(*body, (x,)),
    ensures mapped(*body, es(l), es(r)),
//@@ entry
    broadcast use g_map;
//@ cfn list_map_eager
//@@ params l, body
    requires forall|x: X| call_requires(*body, (x,)),
    ensures mapped_items(*body, items(l), items(r)), mapped(*body, es(l), es(r)),
//@@ entry
    broadcast use g_map;
//@@ tail
    proof { mapped_items_elems(*body, items(l), items(vp_ret)); }
//@ cfn list_map_eager2
//@@ params l, body
    requires forall|x: X| call_requires(*body, (x,)),
    ensures mapped_names(*body, items(l), items(r)), mapped(*body, es(l), es(r)),
//@@ entry
    broadcast use g_map;
//@@ tail
    proof { mapped_names_elems(*body, items(l), items(vp_ret)); }
//@ end

// ---- filters
/// `ys` are those of `xs` for which `f` gives true, in order
pub open spec fn filtered<X, F: Fn(&X) -> bool>(f: F, xs: Seq<X>, ys: Seq<X>) -> bool decreases xs.len() {
    if xs.len() == 0 { ys.len() == 0 }
    else { (call_ensures(f, (&xs[0],), true) && ys.len() > 0 && ys[0] == xs[0] && filtered(f, xs.drop_first(), ys.drop_first()))
        || (call_ensures(f, (&xs[0],), false) && filtered(f, xs.drop_first(), ys)) }
}
/// as `filtered`, with every name where it was
pub open spec fn filtered_items<X, F: Fn(&X) -> bool>(f: F, a: Seq<It<X>>, b: Seq<It<X>>) -> bool decreases a.len() {
    if a.len() == 0 { b.len() == 0 }
    else { match a[0] {
        NameElse::Name(n) => b.len() > 0 && b[0] == a[0] && filtered_items(f, a.drop_first(), b.drop_first()),
        NameElse::Else(x) => (call_ensures(f, (&x,), true) && b.len() > 0 && b[0] == a[0] && filtered_items(f, a.drop_first(), b.drop_first()))
            || (call_ensures(f, (&x,), false) && filtered_items(f, a.drop_first(), b)) } }
}
pub broadcast proof fn b_filtered<X, F: Fn(&X) -> bool>(f: F, x: X, xs: Seq<X>, ys: Seq<X>)
    ensures (call_ensures(f, (&x,), true) && filtered(f, xs, ys) ==> #[trigger] filtered(f, seq![x] + xs, seq![x] + ys))
{ assert((seq![x] + xs).drop_first() =~= xs); assert((seq![x] + ys).drop_first() =~= ys); }
pub broadcast proof fn b_filtered2<X, F: Fn(&X) -> bool>(f: F, x: X, xs: Seq<X>, ys: Seq<X>)
    ensures call_ensures(f, (&x,), false) && filtered(f, xs, ys) ==> #[trigger] filtered(f, seq![x] + xs, ys)
{ assert((seq![x] + xs).drop_first() =~= xs); }
pub broadcast proof fn b_filtered_items<X, F: Fn(&X) -> bool>(f: F, x: It<X>, xs: Seq<It<X>>, ys: Seq<It<X>>)
    ensures ((x is Name || call_ensures(f, (&x->Else_0,), true)) && filtered_items(f, xs, ys) ==> #[trigger] filtered_items(f, seq![x] + xs, seq![x] + ys))
{ assert((seq![x] + xs).drop_first() =~= xs); assert((seq![x] + ys).drop_first() =~= ys); }
pub broadcast proof fn b_filtered_items2<X, F: Fn(&X) -> bool>(f: F, x: It<X>, xs: Seq<It<X>>, ys: Seq<It<X>>)
    ensures x is Else && call_ensures(f, (&x->Else_0,), false) && filtered_items(f, xs, ys) ==> #[trigger] filtered_items(f, seq![x] + xs, ys)
{ assert((seq![x] + xs).drop_first() =~= xs); }
pub broadcast group g_filter { b_filtered, b_filtered2, b_filtered_items, b_filtered_items2 }
pub proof fn filtered_items_elems<X, F: Fn(&X) -> bool>(f: F, a: Seq<It<X>>, b: Seq<It<X>>)
    requires filtered_items(f, a, b) ensures filtered(f, elems(a), elems(b)) decreases a.len()
{
    if a.len() > 0 {
        match a[0] {
            NameElse::Name(n) => { filtered_items_elems(f, a.drop_first(), b.drop_first()); }
            NameElse::Else(x) => {
                let at = a.drop_first();
                assert(elems(a).drop_first() =~= elems(at));
                if call_ensures(f, (&x,), true) && b.len() > 0 && b[0] == a[0] && filtered_items(f, at, b.drop_first()) {
                    filtered_items_elems(f, at, b.drop_first());
                    assert(elems(b).drop_first() =~= elems(b.drop_first()));
                } else { filtered_items_elems(f, at, b); }
            }
        }
    }
}
//@ cfn list_filter_lazy
//@@ params l, body
    requires forall|x: &X| call_requires(*body, (x,)),
    ensures filtered(*body, es(l), es(r)),
//@@ entry
    broadcast use g_filter;
//@ cfn list_filter_eager
//@@ params l, body
    requires forall|x: &X| call_requires(*body, (x,)),
    ensures filtered_items(*body, items(l), items(r)), filtered(*body, es(l), es(r)),
//@@ entry
    broadcast use g_filter;
//@@ tail
    proof { filtered_items_elems(*body, items(l), items(vp_ret)); }
//@ end

// ---- reversal, folds, stacks
pub open spec fn revs<T>(s: Seq<T>) -> Seq<T> { s.reverse() }
pub proof fn rev_cons<T>(x: T, s: Seq<T>, t: Seq<T>) ensures revs(seq![x] + s) + t == revs(s) + (seq![x] + t)
{ assert(revs(seq![x] + s) + t =~= revs(s) + (seq![x] + t)); }
//@ cfn list_reverse
//@@ params l, rev
    ensures es(r) == revs(es(l)) + es(rev),
//@ end
/// `r` is what folding `f` over `xs`, from the right, makes of `init`
pub open spec fn folded<X, Res, F: Fn(X, Res) -> Res>(f: F, xs: Seq<X>, init: Res, r: Res) -> bool decreases xs.len() {
    if xs.len() == 0 { r == init } else { exists|m: Res| folded(f, xs.drop_first(), init, m) && #[trigger] call_ensures(f, (xs[0], m), r) }
}
pub broadcast proof fn b_folded<X, Res, F: Fn(X, Res) -> Res>(f: F, x: X, xs: Seq<X>, init: Res, m: Res, r: Res)
    ensures folded(f, xs, init, m) && #[trigger] call_ensures(f, (x, m), r) ==> #[trigger] folded(f, seq![x] + xs, init, r)
{ let s = seq![x] + xs; assert(s.drop_first() =~= xs); if folded(f, xs, init, m) && call_ensures(f, (x, m), r) { assert(folded(f, s.drop_first(), init, m)); assert(call_ensures(f, (s[0], m), r)); } }
//@ props L01,A01
//@ cfn list_fold
//@@ params l, res, body
    requires forall|x: X, m: Res| call_requires(*body, (x, m)),
    ensures folded(*body, es(l), res, r),
//@@ entry
    broadcast use b_folded;
//@ props L01
//@ cfn list_is_empty
//@@ params stack
    ensures r == (es(*stack).len() == 0),
//@ end
/// what follows the first element
pub open spec fn popped<X>(s: Seq<It<X>>) -> Seq<It<X>> decreases s.len() { if s.len() == 0 { s } else if s[0] is Else { s.drop_first() } else { popped(s.drop_first()) } }
pub broadcast proof fn b_popped<X>(i: It<X>, s: Seq<It<X>>) ensures #[trigger] popped(seq![i] + s) == (if i is Else { s } else { popped(s) }) { assert((seq![i] + s).drop_first() =~= s); }
//@ cfn list_pop
//@@ params stack
    requires es(stack).len() > 0,
    ensures es(stack) == seq![r.0] + es(r.1), items(r.1) == popped(items(stack)),
//@@ entry
    broadcast use b_popped;
//@ cfn list_push
//@@ params stack, elm
    ensures items(r) == seq![NameElse::Else(elm)] + items(stack),
//@ end
pub proof fn fold_cons<X, F: Fn(X, List<X>) -> List<X>>(f: F, xs: Seq<X>, init: List<X>, r: List<X>)
    requires folded(f, xs, init, r), forall|x: X, a: List<X>, b: List<X>| #[trigger] call_ensures(f, (x, a), b) ==> items(b) == seq![NameElse::Else(x)] + items(a)
    ensures items(r) == xs.map_values(|x: X| NameElse::Else(x)) + items(init), es(r) == xs + es(init)
    decreases xs.len()
{
    if xs.len() == 0 { assert(xs.map_values(|x: X| NameElse::Else(x)) + items(init) =~= items(init)); assert(xs + es(init) =~= es(init)); }
    else {
        let m = choose|m: List<X>| folded(f, xs.drop_first(), init, m) && #[trigger] call_ensures(f, (xs[0], m), r);
        fold_cons(f, xs.drop_first(), init, m);
        assert(xs.map_values(|x: X| NameElse::Else(x)) =~= seq![NameElse::Else(xs[0])] + xs.drop_first().map_values(|x: X| NameElse::Else(x)));
        assert(items(r) =~= xs.map_values(|x: X| NameElse::Else(x)) + items(init));
        assert(xs =~= seq![xs[0]] + xs.drop_first());
        assert(es(r) =~= xs + es(init));
    }
}
//@ cfn list_append
//@@ params l1, l2
    ensures items(r) == es(l1).map_values(|x: X| NameElse::Else(x)) + items(l2), es(r) == es(l1) + es(l2),
//@@ closure 0 (p0: X, p1: List<X>) -> (q: List<X>)
    ensures items(q) == seq![NameElse::Else(p0)] + items(p1)
//@@ tail
    proof { fold_cons(vp_c0, es(l1), l2, vp_ret); }
//@ end

// ---- conversion
//@ cfn vec_of_list
//@@ params list, limit
    requires limit is Some ==> limit->0 > 0,
    ensures r@ =~= (match limit { None => items(list), Some(n) => items(list).take(if n < items(list).len() { n as int } else { items(list).len() as int }) }),
//@@ attr #[verifier::loop_isolation(false)]
//@@ entry
    let ghost vp_l = list;
//@@ loop 0
    invariant items(vp_l) == out@ + items(list), limit is Some ==> limit->0 > out@.len(), 
//@ cfn list_demand
//@@ params list, demand
    requires demand > 0,
    ensures r@ =~= items(list).take(if demand < items(list).len() { demand as int } else { items(list).len() as int }),
//@ cfn list_of_vec
//@@ params v
    ensures items(r) == v@,
//@@ loop 0
    invariant vp_s0 == v, vp_i0 <= v@.len(), items(l) == v@.skip(vp_i0 as int),
//@@ loopstart 0
    let ghost vp_o = items(l);
//@@ loopend 0
    proof { assert(v@.skip(vp_i0 as int) =~= seq![v@[vp_i0 as int]] + vp_o); }
//@ end
