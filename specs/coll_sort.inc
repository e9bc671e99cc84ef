//@ props S01
// ---- merging and sorting
/// the two sequences merged, as long as the first one's head is not greater
pub open spec fn merge<X>(a: Seq<X>, b: Seq<X>) -> Seq<X> decreases a.len() + b.len() {
    if a.len() == 0 { b } else if b.len() == 0 { a }
    else if le(a[0], b[0]) { seq![a[0]] + merge(a.drop_first(), b) } else { seq![b[0]] + merge(a, b.drop_first()) }
}
pub open spec fn sorted<X>(s: Seq<X>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> le(#[trigger] s[i], #[trigger] s[j]) }
pub broadcast proof fn b_merge<X>(x: X, xs: Seq<X>, y: X, ys: Seq<X>)
    ensures #[trigger] merge(seq![x] + xs, seq![y] + ys) == (if le(x, y) { seq![x] + merge(xs, seq![y] + ys) } else { seq![y] + merge(seq![x] + xs, ys) })
{ assert((seq![x] + xs).drop_first() =~= xs); assert((seq![y] + ys).drop_first() =~= ys); }
pub broadcast proof fn b_merge_nil<X>(a: Seq<X>) ensures #[trigger] merge(Seq::empty(), a) == a { }
pub broadcast proof fn b_merge_nil2<X>(a: Seq<X>) ensures #[trigger] merge(a, Seq::empty()) == a { if a.len() == 0 { assert(a =~= Seq::empty()); } }
pub broadcast group g_merge { b_merge, b_merge_nil, b_merge_nil2 }
//@ cfn list_merge
//@@ valcmp
//@@ params n1, l1, n2, l2
    ensures es(r) == merge(es(l1), es(l2)),
//@@ entry
    broadcast use g_merge;
//@ cfn list_merge_wrapper
//@@ params n1, l1, n2, l2
    ensures es(r) == merge(es(l1), es(l2)),
//@ end
pub proof fn merge_facts<X>(a: Seq<X>, b: Seq<X>)
    requires sorted(a), sorted(b)
    ensures sorted(merge(a, b)), merge(a, b).to_multiset() == a.to_multiset().add(b.to_multiset()),
        merge(a, b).len() == a.len() + b.len(),
        a.len() > 0 && b.len() > 0 ==> merge(a, b)[0] == (if le(a[0], b[0]) { a[0] } else { b[0] }),
    decreases a.len() + b.len()
{
    ax_le::<X>();
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a.len() == 0 { assert(a =~= Seq::empty()); assert(merge(a, b).to_multiset() =~= a.to_multiset().add(b.to_multiset())); }
    else if b.len() == 0 { assert(b =~= Seq::empty()); assert(merge(a, b).to_multiset() =~= a.to_multiset().add(b.to_multiset())); }
    else {
        let first = le(a[0], b[0]);
        let (h, t, o) = if first { (a[0], a.drop_first(), b) } else { (b[0], b.drop_first(), a) };
        assert(sorted(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies le(#[trigger] t[i], #[trigger] t[j]) by { if first { assert(le(a[i + 1], a[j + 1])); } else { assert(le(b[i + 1], b[j + 1])); } } }
        let m = if first { merge(t, b) } else { merge(a, t) };
        if first { merge_facts(t, b); } else { merge_facts(a, t); }
        assert(merge(a, b) == seq![h] + m);
        let s = seq![h] + m;
        if m.len() > 0 { assert(le(h, m[0])) by {
            if first { if t.len() > 0 { assert(le(a[0], a[1])); } } else { if t.len() > 0 { assert(le(b[0], b[1])); } assert(le(b[0], a[0])); } } }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies le(#[trigger] s[i], #[trigger] s[j]) by {
            assert(s[j] == m[j - 1]);
            if i > 0 { assert(s[i] == m[i - 1]); } else if j > 1 { assert(le(m[0], m[j - 1])); }
        }
        assert(seq![h] =~= Seq::empty().push(h));
        vstd::seq_lib::lemma_multiset_commutative(seq![h], m);
        vstd::seq_lib::lemma_multiset_commutative(seq![h], t);
        if first { assert(a =~= seq![h] + t); } else { assert(b =~= seq![h] + t); }
        assert(merge(a, b).to_multiset() =~= a.to_multiset().add(b.to_multiset()));
    }
}
/// `b` has what `s` has, in order
pub open spec fn sort_of<X>(s: Seq<X>, b: Seq<X>) -> bool { sorted(b) && b.to_multiset() == s.to_multiset() }
pub proof fn sort_app<X>(s: Seq<X>, a: Seq<X>, t: Seq<X>, b: Seq<X>)
    requires sort_of(s, a), sort_of(t, b) ensures sort_of(s + t, merge(a, b))
{ merge_facts(a, b); vstd::seq_lib::lemma_multiset_commutative(s, t); }
pub proof fn up_sort<X, KC: Fn() -> List<X>, LC: Fn(X) -> List<X>, BC: Fn(usize, List<X>, List<X>) -> List<X>, NC: Fn(Name, usize, List<X>, List<X>) -> List<X>>(nil: KC, leaf: LC, bin: BC, name: NC, t: Tree<X>, b: List<X>)
    requires up_rel(nil, leaf, bin, name, t, b),
        forall|q: List<X>| #[trigger] call_ensures(nil, (), q) ==> es(q) == Seq::<X>::empty(),
        forall|x: X, q: List<X>| #[trigger] call_ensures(leaf, (x,), q) ==> es(q) == seq![x],
        forall|v: usize, l: List<X>, r: List<X>, q: List<X>| #[trigger] call_ensures(bin, (v, l, r), q) ==> es(q) == merge(es(l), es(r)),
        forall|n: Name, v: usize, l: List<X>, r: List<X>, q: List<X>| #[trigger] call_ensures(name, (n, v, l, r), q) ==> es(q) == merge(es(l), es(r)),
    ensures sort_of(elems(titems(t)), es(b)),
    decreases t,
{
    broadcast use g_elems;
    match t {
        Tree::Nil => {} Tree::Leaf(x) => {}
        Tree::Bin(v, l, r) => {
            let (m1, m2) = choose|m1: List<X>, m2: List<X>| #[trigger] call_ensures(bin, (v, m1, m2), b) && up_rel(nil, leaf, bin, name, *l, m1) && up_rel(nil, leaf, bin, name, *r, m2);
            up_sort(nil, leaf, bin, name, *l, m1); up_sort(nil, leaf, bin, name, *r, m2);
            sort_app(elems(titems(*l)), es(m1), elems(titems(*r)), es(m2));
        }
        Tree::Name(n, v, l, r) => {
            let (m1, m2) = choose|m1: List<X>, m2: List<X>| #[trigger] call_ensures(name, (n, v, m1, m2), b) && up_rel(nil, leaf, bin, name, *l, m1) && up_rel(nil, leaf, bin, name, *r, m2);
            up_sort(nil, leaf, bin, name, *l, m1); up_sort(nil, leaf, bin, name, *r, m2);
            sort_app(elems(titems(*l)), es(m1), elems(titems(*r)), es(m2));
            assert(elems(titems(*l)) + Seq::<X>::empty() =~= elems(titems(*l)));
        }
        Tree::Art(u) => { up_sort(nil, leaf, bin, name, *u.v, b); }
    }
}
pub proof fn dn_sort<X, KC: Fn(Option<Name>) -> List<X>, LC: Fn(Option<Name>, X) -> List<X>, BC: Fn(Option<Name>, usize, List<X>, List<X>) -> List<X>, NC: Fn(Option<Name>, Name, usize, List<X>, List<X>) -> List<X>>(nil: KC, leaf: LC, bin: BC, name: NC, nm: Option<Name>, t: Tree<X>, b: List<X>)
    requires dn_rel(nil, leaf, bin, name, nm, t, b),
        forall|k: Option<Name>, q: List<X>| #[trigger] call_ensures(nil, (k,), q) ==> es(q) == Seq::<X>::empty(),
        forall|k: Option<Name>, x: X, q: List<X>| #[trigger] call_ensures(leaf, (k, x), q) ==> es(q) == seq![x],
        forall|k: Option<Name>, v: usize, l: List<X>, r: List<X>, q: List<X>| #[trigger] call_ensures(bin, (k, v, l, r), q) ==> es(q) == merge(es(l), es(r)),
        forall|k: Option<Name>, n: Name, v: usize, l: List<X>, r: List<X>, q: List<X>| #[trigger] call_ensures(name, (k, n, v, l, r), q) ==> es(q) == merge(es(l), es(r)),
    ensures sort_of(elems(titems(t)), es(b)),
    decreases t,
{
    broadcast use g_elems;
    match t {
        Tree::Nil => {} Tree::Leaf(x) => {}
        Tree::Bin(v, l, r) => {
            let (m1, m2) = choose|m1: List<X>, m2: List<X>| #[trigger] call_ensures(bin, (nm, v, m1, m2), b) && dn_rel(nil, leaf, bin, name, nm, *l, m1) && dn_rel(nil, leaf, bin, name, None, *r, m2);
            dn_sort(nil, leaf, bin, name, nm, *l, m1); dn_sort(nil, leaf, bin, name, None, *r, m2);
            sort_app(elems(titems(*l)), es(m1), elems(titems(*r)), es(m2));
        }
        Tree::Name(n, v, l, r) => {
            let (m1, m2) = choose|m1: List<X>, m2: List<X>| #[trigger] call_ensures(name, (nm, n, v, m1, m2), b) && dn_rel(nil, leaf, bin, name, nm, *l, m1) && dn_rel(nil, leaf, bin, name, Some(n), *r, m2);
            dn_sort(nil, leaf, bin, name, nm, *l, m1); dn_sort(nil, leaf, bin, name, Some(n), *r, m2);
            sort_app(elems(titems(*l)), es(m1), elems(titems(*r)), es(m2));
            assert(elems(titems(*l)) + Seq::<X>::empty() =~= elems(titems(*l)));
        }
        Tree::Art(u) => { dn_sort(nil, leaf, bin, name, nm, *u.v, b); }
    }
}
//@ cfn mergesort_list_of_tree
//@@ params tree
    ensures sort_of(elems(titems(tree)), es(r)),
//@@ entry
    broadcast use {b_tp, g_elems};
//@@ closure 0 () -> (q: List<X>)
    ensures es(q) == Seq::<X>::empty()
//@@ closure 1 (p0: X) -> (q: List<X>)
    ensures es(q) == seq![p0]
//@@ closure 2 (p0: usize, p1: List<X>, p2: List<X>) -> (q: List<X>)
    ensures es(q) == merge(es(p1), es(p2))
//@@ closure 3 (p0: Name, p1: usize, p2: List<X>, p3: List<X>) -> (q: List<X>)
    ensures es(q) == merge(es(p2), es(p3))
//@@ tail
    proof { up_sort(vp_c0, vp_c1, vp_c2, vp_c3, plain(tree), vp_ret); }
//@ cfn mergesort_list_of_tree2
//@@ params tree, nm
    ensures sort_of(elems(titems(tree)), es(r)),
//@@ entry
    broadcast use {b_tp, g_elems};
//@@ closure 0 (p0: Option<Name>) -> (q: List<X>)
    ensures es(q) == Seq::<X>::empty()
//@@ closure 1 (p0: Option<Name>, p1: X) -> (q: List<X>)
    ensures es(q) == seq![p1]
//@@ closure 2 (p0: Option<Name>, p1: usize, p2: List<X>, p3: List<X>) -> (q: List<X>)
    ensures es(q) == merge(es(p2), es(p3))
//@@ closure 3 (p0: Option<Name>, p1: Name, p2: usize, p3: List<X>, p4: List<X>) -> (q: List<X>)
    ensures es(q) == merge(es(p3), es(p4))
//@@ tail
    proof { dn_sort(vp_c0, vp_c1, vp_c2, vp_c3, nm, plain(tree), vp_ret); }
//@ cfn mergesort_list_of_tree3
//@@ params tree, nm
    ensures sort_of(elems(titems(tree)), es(r)),
//@@ entry
    broadcast use {b_tp, g_elems};
//@@ closure 0 (p0: Option<Name>) -> (q: List<X>)
    ensures es(q) == Seq::<X>::empty()
//@@ closure 1 (p0: Option<Name>, p1: X) -> (q: List<X>)
    ensures es(q) == seq![p1]
//@@ closure 2 (p0: Option<Name>, p1: usize, p2: List<X>, p3: List<X>) -> (q: List<X>)
    ensures es(q) == merge(es(p2), es(p3))
//@@ closure 3 (p0: Option<Name>, p1: Name, p2: usize, p3: List<X>, p4: List<X>) -> (q: List<X>)
    ensures es(q) == merge(es(p3), es(p4))
//@@ tail
    proof { dn_sort(vp_c0, vp_c1, vp_c2, vp_c3, nm, plain(tree), vp_ret); }
//@ end
