//@ props T01,S01
// ---- trees as sequences of elements and names
pub open spec fn titems<X>(t: Tree<X>) -> Seq<It<X>> decreases t {
    match t {
        Tree::Nil => Seq::empty(),
        Tree::Leaf(x) => seq![NameElse::Else(x)],
        Tree::Bin(_, l, r) => titems(*l) + titems(*r),
        Tree::Name(n, _, l, r) => titems(*l) + seq![NameElse::Name(n)] + titems(*r),
        Tree::Art(a) => titems(*a.v),
    }
}
/// the tree without its references
pub open spec fn plain<X>(t: Tree<X>) -> Tree<X> decreases t {
    match t {
        Tree::Nil => Tree::Nil,
        Tree::Leaf(x) => t,
        Tree::Bin(v, l, r) => Tree::Bin(v, Box::new(plain(*l)), Box::new(plain(*r))),
        Tree::Name(n, v, l, r) => Tree::Name(n, v, Box::new(plain(*l)), Box::new(plain(*r))),
        Tree::Art(a) => plain(*a.v),
    }
}
pub proof fn titems_plain<X>(t: Tree<X>) ensures titems(plain(t)) == titems(t) decreases t
{ match t { Tree::Bin(v, l, r) => { titems_plain(*l); titems_plain(*r); } Tree::Name(n, v, l, r) => { titems_plain(*l); titems_plain(*r); } Tree::Art(a) => titems_plain(*a.v), _ => {} } }
pub open spec fn plainv<X>(v: TreeV<X>) -> Tree<X> {
    match v { TreeV::Nil => Tree::Nil, TreeV::Leaf(x) => Tree::Leaf(x), TreeV::Bin(v, l, r) => Tree::Bin(v, Box::new(plain(l)), Box::new(plain(r))),
        TreeV::Name(n, v, l, r) => Tree::Name(n, v, Box::new(plain(l)), Box::new(plain(r))) }
}

//@ cfn Dir2::invert@Invert
//@@ impl  Dir2
    ensures r == (if *self is Left { Dir2::Right } else { Dir2::Left }),
//@ cfn Tree::nil@TreeIntro
//@@ impl <X> Tree<X>
    ensures plain(r) == Tree::<X>::Nil,
//@ cfn Tree::leaf@TreeIntro
//@@ impl <X> Tree<X>
//@@ params x
    ensures plain(r) == Tree::Leaf(x),
//@ cfn Tree::bin@TreeIntro
//@@ impl <X> Tree<X>
//@@ params lev, l, r
//@@ ret q
    ensures plain(q) == Tree::Bin(lev, Box::new(plain(l)), Box::new(plain(r))),
//@ cfn Tree::name@TreeIntro
//@@ impl <X> Tree<X>
//@@ params nm, lev, l, r
//@@ ret q
    ensures plain(q) == Tree::Name(nm, lev, Box::new(plain(l)), Box::new(plain(r))),
//@ cfn Tree::art@TreeIntro
//@@ impl <X> Tree<X>
//@@ params art
    ensures plain(r) == plain(*art.v),
//@ cfn Tree::elim_arg@TreeElim
//@@ impl <X> Tree<X>
//@@ open TreeV<X>
//@@ params tree, arg, nil, leaf, bin, name
    ensures plainv(r) == plain(tree),
//@ cfn Tree::elim@TreeElim
//@@ impl <X> Tree<X>
//@@ open TreeV<X>
//@@ params tree, nil, leaf, bin, name
    ensures plainv(r) == plain(tree),
//@ cfn Tree::elim_ref@TreeElim
//@@ impl <X> Tree<X>
//@@ open TreeV<X>
//@@ params tree, nil, leaf, bin, name
    ensures plainv(r) == plain(*tree),
//@ end

// ---- levels
/// the hash of a value, fed `n` times
pub uninterp spec fn hashn<T>(x: T, n: int) -> u64;
#[verifier::external_body] pub fn my_hash_n<T>(x: &&T, n: usize) -> (r: u64) ensures r == hashn(**x, n as int) { unimplemented!() }
pub open spec fn lev_of<T>(x: T) -> int { vstd::std_specs::bits::u64_trailing_zeros(hashn(x, 1)) as int }
pub open spec fn lev_item<X>(i: It<X>) -> int { match i { NameElse::Else(x) => lev_of(x) + 1, NameElse::Name(n) => lev_of(n) + 33 } }
//@ cfn usize::new@Level
//@@ rename lev_new
//@@ params x
    ensures r == lev_of(*x), r <= 64,
//@ cfn usize::bits@Level
//@@ rename lev_bits
    ensures r == 32,
//@ cfn usize::zero@Level
//@@ rename lev_zero
    ensures r == 0,
//@ cfn usize::max_val@Level
//@@ rename lev_max_val
    ensures r == usize::MAX,
//@ cfn usize::add@Level
//@@ rename lev_add
//@@ params x, y
    requires *x + *y <= usize::MAX,
    ensures r == *x + *y,
//@ cfn usize::inc@Level
//@@ rename lev_inc
//@@ params x
    requires *x < usize::MAX,
    ensures r == *x + 1,
//@ cfn usize::lte@Level
//@@ rename lev_lte
//@@ params x, y
    ensures r == (*x <= *y),
//@ cfn Level::max
//@@ rename lev_max
//@@ params a, b
//@@ ty Self=usize
    ensures r == (if *a <= *b { *b } else { *a }),
//@ end

// ---- tests
//@ cfn TreeElim::is_empty
//@@ impl <X> Tree<X>
//@@ params tree
    ensures r == (elems(titems(*tree)).len() == 0),
//@@ entry
    broadcast use g_elems;
//@ cfn TreeElim::is_nil
//@@ impl <X> Tree<X>
//@@ params tree
    ensures r == (plain(*tree) is Nil),
//@ cfn Tree::lev_of_tree@TreeElim
//@@ impl <X> Tree<X>
//@@ params tree
    ensures r == (match plain(*tree) { Tree::Nil => 0, Tree::Leaf(x) => lev_of(x), Tree::Bin(v, _, _) => v as int, Tree::Name(_, v, _, _) => v as int, _ => arbitrary() }),
//@ end
pub broadcast proof fn b_tp<X>(t: Tree<X>) ensures titems(t) == titems(#[trigger] plain(t)) { titems_plain(t); }
pub broadcast proof fn b_elems_app<X>(a: Seq<It<X>>, b: Seq<It<X>>) ensures #[trigger] elems(a + b) == elems(a) + elems(b) { elems_app(a, b); }
pub broadcast proof fn b_elems_1n<X>(n: Name) ensures #[trigger] elems(seq![NameElse::<X>::Name(n)]) == Seq::<X>::empty() { reveal_with_fuel(elems, 2); assert(seq![NameElse::<X>::Name(n)].drop_first() =~= Seq::empty()); }
pub broadcast proof fn b_elems_1e<X>(x: X) ensures #[trigger] elems(seq![NameElse::Else(x)]) == seq![x] { reveal_with_fuel(elems, 2); assert(seq![NameElse::Else(x)].drop_first() =~= Seq::empty()); assert(seq![x] + Seq::empty() =~= seq![x]); }
pub broadcast group g_elems { b_tp, b_elems_app, b_elems_1n, b_elems_1e }
pub broadcast proof fn b_rev_app<X>(a: Seq<X>, b: Seq<X>) ensures #[trigger] revs(a + b) == revs(b) + revs(a) { assert(revs(a + b) =~= revs(b) + revs(a)); }
pub broadcast proof fn b_rev_one<X>(a: X) ensures #[trigger] revs(seq![a]) == seq![a] { assert(revs(seq![a]) =~= seq![a]); }

// ---- construction
pub open spec fn sd<T>(d: Dir2, s: Seq<T>) -> Seq<T> { if d is Left { s } else { revs(s) } }
//@ cfn tree_of_list_rec
//@@ params dir_list, list, tree, tree_lev, parent_lev
    requires items(list).len() > 0 ==> lev_item(items(list)[0]) >= tree_lev,
    ensures sd(dir_list, titems(r.0)) + items(r.1) =~= sd(dir_list, titems(tree)) + items(list),
        items(r.1).len() > 0 ==> lev_item(items(r.1)[0]) > parent_lev,
//@@ entry
    broadcast use {b_tp, b_rev_app, b_rev_one};
//@ cfn tree_of_list
//@@ params dir_list, list
    ensures titems(r) =~= sd(dir_list, items(list)),
//@@ entry
    broadcast use {b_tp, b_rev_app, b_rev_one};
//@ end

// ---- folds
/// what folding over the tree in sequence makes of `a`, from the left or from the right
pub open spec fn seq_rel<X, Res, LC: Fn(X, Res) -> Res, BC: Fn(usize, Res) -> Res, NC: Fn(Name, usize, Res) -> Res>(leaf: LC, bin: BC, name: NC, left: bool, t: Tree<X>, a: Res, b: Res) -> bool decreases t {
    match t {
        Tree::Nil => b == a,
        Tree::Leaf(x) => call_ensures(leaf, (x, a), b),
        Tree::Bin(v, l, r) => exists|m1: Res, m2: Res| #[trigger] call_ensures(bin, (v, m1), m2) && (if left { seq_rel(leaf, bin, name, left, *l, a, m1) && seq_rel(leaf, bin, name, left, *r, m2, b) }
            else { seq_rel(leaf, bin, name, left, *r, a, m1) && seq_rel(leaf, bin, name, left, *l, m2, b) }),
        Tree::Name(n, v, l, r) => exists|m1: Res, m2: Res| #[trigger] call_ensures(name, (n, v, m1), m2) && (if left { seq_rel(leaf, bin, name, left, *l, a, m1) && seq_rel(leaf, bin, name, left, *r, m2, b) }
            else { seq_rel(leaf, bin, name, left, *r, a, m1) && seq_rel(leaf, bin, name, left, *l, m2, b) }),
        Tree::Art(t) => seq_rel(leaf, bin, name, left, *t.v, a, b),
    }
}
pub broadcast proof fn b_seq_bin<X, Res, LC: Fn(X, Res) -> Res, BC: Fn(usize, Res) -> Res, NC: Fn(Name, usize, Res) -> Res>(leaf: LC, bin: BC, name: NC, left: bool, f: Tree<X>, s: Tree<X>, v: usize, a: Res, m1: Res, m2: Res, b: Res)
    requires #[trigger] seq_rel(leaf, bin, name, left, f, a, m1), #[trigger] call_ensures(bin, (v, m1), m2), #[trigger] seq_rel(leaf, bin, name, left, s, m2, b),
    ensures left ==> seq_rel(leaf, bin, name, left, Tree::Bin(v, Box::new(f), Box::new(s)), a, b), !left ==> seq_rel(leaf, bin, name, left, Tree::Bin(v, Box::new(s), Box::new(f)), a, b),
{ if left { let t = Tree::Bin(v, Box::new(f), Box::new(s)); match t { Tree::Bin(v, l, r) => assert(exists|m1: Res, m2: Res| #[trigger] call_ensures(bin, (v, m1), m2) && seq_rel(leaf, bin, name, left, *l, a, m1) && seq_rel(leaf, bin, name, left, *r, m2, b)), _ => {} } } else { let t = Tree::Bin(v, Box::new(s), Box::new(f)); match t { Tree::Bin(v, l, r) => assert(exists|m1: Res, m2: Res| #[trigger] call_ensures(bin, (v, m1), m2) && seq_rel(leaf, bin, name, left, *r, a, m1) && seq_rel(leaf, bin, name, left, *l, m2, b)), _ => {} } } }
pub broadcast proof fn b_seq_name<X, Res, LC: Fn(X, Res) -> Res, BC: Fn(usize, Res) -> Res, NC: Fn(Name, usize, Res) -> Res>(leaf: LC, bin: BC, name: NC, left: bool, f: Tree<X>, s: Tree<X>, n: Name, v: usize, a: Res, m1: Res, m2: Res, b: Res)
    requires #[trigger] seq_rel(leaf, bin, name, left, f, a, m1), #[trigger] call_ensures(name, (n, v, m1), m2), #[trigger] seq_rel(leaf, bin, name, left, s, m2, b),
    ensures left ==> seq_rel(leaf, bin, name, left, Tree::Name(n, v, Box::new(f), Box::new(s)), a, b), !left ==> seq_rel(leaf, bin, name, left, Tree::Name(n, v, Box::new(s), Box::new(f)), a, b),
{ if left { let t = Tree::Name(n, v, Box::new(f), Box::new(s)); match t { Tree::Name(n, v, l, r) => assert(exists|m1: Res, m2: Res| #[trigger] call_ensures(name, (n, v, m1), m2) && seq_rel(leaf, bin, name, left, *l, a, m1) && seq_rel(leaf, bin, name, left, *r, m2, b)), _ => {} } } else { let t = Tree::Name(n, v, Box::new(s), Box::new(f)); match t { Tree::Name(n, v, l, r) => assert(exists|m1: Res, m2: Res| #[trigger] call_ensures(name, (n, v, m1), m2) && seq_rel(leaf, bin, name, left, *r, a, m1) && seq_rel(leaf, bin, name, left, *l, m2, b)), _ => {} } } }
//@ cfn tree_fold_seq
//@@ params tree, dir, res, leaf, bin, name
//@@ gens X, Res
    requires forall|x: X, m: Res| call_requires(*leaf, (x, m)), forall|v: usize, m: Res| call_requires(*bin, (v, m)), forall|n: Name, v: usize, m: Res| call_requires(*name, (n, v, m)),
    ensures seq_rel(*leaf, *bin, *name, dir is Left, plain(tree), res, r),
//@@ entry
    broadcast use {b_seq_bin, b_seq_name};
//@ end
/// what folding over the tree upwards gives
pub open spec fn up_rel<X, Res, KC: Fn() -> Res, LC: Fn(X) -> Res, BC: Fn(usize, Res, Res) -> Res, NC: Fn(Name, usize, Res, Res) -> Res>(nil: KC, leaf: LC, bin: BC, name: NC, t: Tree<X>, b: Res) -> bool decreases t {
    match t {
        Tree::Nil => call_ensures(nil, (), b),
        Tree::Leaf(x) => call_ensures(leaf, (x,), b),
        Tree::Bin(v, l, r) => exists|m1: Res, m2: Res| #[trigger] call_ensures(bin, (v, m1, m2), b) && up_rel(nil, leaf, bin, name, *l, m1) && up_rel(nil, leaf, bin, name, *r, m2),
        Tree::Name(n, v, l, r) => exists|m1: Res, m2: Res| #[trigger] call_ensures(name, (n, v, m1, m2), b) && up_rel(nil, leaf, bin, name, *l, m1) && up_rel(nil, leaf, bin, name, *r, m2),
        Tree::Art(t) => up_rel(nil, leaf, bin, name, *t.v, b),
    }
}
pub broadcast proof fn b_up_bin<X, Res, KC: Fn() -> Res, LC: Fn(X) -> Res, BC: Fn(usize, Res, Res) -> Res, NC: Fn(Name, usize, Res, Res) -> Res>(nil: KC, leaf: LC, bin: BC, name: NC, l: Tree<X>, r: Tree<X>, v: usize, m1: Res, m2: Res, b: Res)
    requires #[trigger] up_rel(nil, leaf, bin, name, l, m1), #[trigger] up_rel(nil, leaf, bin, name, r, m2), #[trigger] call_ensures(bin, (v, m1, m2), b),
    ensures up_rel(nil, leaf, bin, name, Tree::Bin(v, Box::new(l), Box::new(r)), b),
{ let t = Tree::Bin(v, Box::new(l), Box::new(r)); match t { Tree::Bin(v, l, r) => assert(exists|m1: Res, m2: Res| #[trigger] call_ensures(bin, (v, m1, m2), b) && up_rel(nil, leaf, bin, name, *l, m1) && up_rel(nil, leaf, bin, name, *r, m2)), _ => {} } }
pub broadcast proof fn b_up_name<X, Res, KC: Fn() -> Res, LC: Fn(X) -> Res, BC: Fn(usize, Res, Res) -> Res, NC: Fn(Name, usize, Res, Res) -> Res>(nil: KC, leaf: LC, bin: BC, name: NC, l: Tree<X>, r: Tree<X>, n: Name, v: usize, m1: Res, m2: Res, b: Res)
    requires #[trigger] up_rel(nil, leaf, bin, name, l, m1), #[trigger] up_rel(nil, leaf, bin, name, r, m2), #[trigger] call_ensures(name, (n, v, m1, m2), b),
    ensures up_rel(nil, leaf, bin, name, Tree::Name(n, v, Box::new(l), Box::new(r)), b),
{ let t = Tree::Name(n, v, Box::new(l), Box::new(r)); match t { Tree::Name(n, v, l, r) => assert(exists|m1: Res, m2: Res| #[trigger] call_ensures(name, (n, v, m1, m2), b) && up_rel(nil, leaf, bin, name, *l, m1) && up_rel(nil, leaf, bin, name, *r, m2)), _ => {} } }
//@ cfn tree_fold_up
//@@ params tree, nil, leaf, bin, name
//@@ gens X, Res
    requires call_requires(*nil, ()), forall|x: X| call_requires(*leaf, (x,)), forall|v: usize, a: Res, b: Res| call_requires(*bin, (v, a, b)), forall|n: Name, v: usize, a: Res, b: Res| call_requires(*name, (n, v, a, b)),
    ensures up_rel(*nil, *leaf, *bin, *name, plain(tree), r),
//@@ entry
    broadcast use {b_up_bin, b_up_name};
//@ end
/// as `up_rel`, with the name left of each subtree
pub open spec fn dn_rel<X, Res, KC: Fn(Option<Name>) -> Res, LC: Fn(Option<Name>, X) -> Res, BC: Fn(Option<Name>, usize, Res, Res) -> Res, NC: Fn(Option<Name>, Name, usize, Res, Res) -> Res>(nil: KC, leaf: LC, bin: BC, name: NC, nm: Option<Name>, t: Tree<X>, b: Res) -> bool decreases t {
    match t {
        Tree::Nil => call_ensures(nil, (nm,), b),
        Tree::Leaf(x) => call_ensures(leaf, (nm, x), b),
        Tree::Bin(v, l, r) => exists|m1: Res, m2: Res| #[trigger] call_ensures(bin, (nm, v, m1, m2), b) && dn_rel(nil, leaf, bin, name, nm, *l, m1) && dn_rel(nil, leaf, bin, name, None, *r, m2),
        Tree::Name(n, v, l, r) => exists|m1: Res, m2: Res| #[trigger] call_ensures(name, (nm, n, v, m1, m2), b) && dn_rel(nil, leaf, bin, name, nm, *l, m1) && dn_rel(nil, leaf, bin, name, Some(n), *r, m2),
        Tree::Art(t) => dn_rel(nil, leaf, bin, name, nm, *t.v, b),
    }
}
//@ cfn tree_fold_up_nm_dn
//@@ params tree, nm, nil, leaf, bin, name
//@@ gens X, Res
    requires forall|m: Option<Name>| call_requires(*nil, (m,)), forall|m: Option<Name>, x: X| call_requires(*leaf, (m, x)), forall|m: Option<Name>, v: usize, a: Res, b: Res| call_requires(*bin, (m, v, a, b)),
        forall|m: Option<Name>, n: Name, v: usize, a: Res, b: Res| call_requires(*name, (m, n, v, a, b)),
    ensures dn_rel(*nil, *leaf, *bin, *name, nm, plain(tree), r),
//@ end

// ---- reading a tree back
pub proof fn seq_list<X, LC: Fn(X, List<X>) -> List<X>, BC: Fn(usize, List<X>) -> List<X>, NC: Fn(Name, usize, List<X>) -> List<X>>(leaf: LC, bin: BC, name: NC, left: bool, t: Tree<X>, a: List<X>, b: List<X>)
    requires seq_rel(leaf, bin, name, left, t, a, b),
        forall|x: X, p: List<X>, q: List<X>| #[trigger] call_ensures(leaf, (x, p), q) ==> items(q) == seq![NameElse::Else(x)] + items(p),
        forall|v: usize, p: List<X>, q: List<X>| #[trigger] call_ensures(bin, (v, p), q) ==> items(q) == items(p),
        forall|n: Name, v: usize, p: List<X>, q: List<X>| #[trigger] call_ensures(name, (n, v, p), q) ==> items(q) == seq![NameElse::Name(n)] + items(p),
    ensures items(b) =~= (if left { revs(titems(t)) } else { titems(t) }) + items(a),
    decreases t,
{
    match t {
        Tree::Nil => { assert(revs(titems(t)) =~= titems(t)); } Tree::Leaf(x) => { b_rev_one(NameElse::<X>::Else(x)); }
        Tree::Bin(v, l, r) => {
            let (m1, m2) = choose|m1: List<X>, m2: List<X>| #[trigger] call_ensures(bin, (v, m1), m2) && (if left { seq_rel(leaf, bin, name, left, *l, a, m1) && seq_rel(leaf, bin, name, left, *r, m2, b) }
                else { seq_rel(leaf, bin, name, left, *r, a, m1) && seq_rel(leaf, bin, name, left, *l, m2, b) });
            b_rev_app(titems(*l), titems(*r));
            if left { seq_list(leaf, bin, name, left, *l, a, m1); seq_list(leaf, bin, name, left, *r, m2, b); }
            else { seq_list(leaf, bin, name, left, *r, a, m1); seq_list(leaf, bin, name, left, *l, m2, b); }
        }
        Tree::Name(n, v, l, r) => {
            let (m1, m2) = choose|m1: List<X>, m2: List<X>| #[trigger] call_ensures(name, (n, v, m1), m2) && (if left { seq_rel(leaf, bin, name, left, *l, a, m1) && seq_rel(leaf, bin, name, left, *r, m2, b) }
                else { seq_rel(leaf, bin, name, left, *r, a, m1) && seq_rel(leaf, bin, name, left, *l, m2, b) });
            let one = seq![NameElse::<X>::Name(n)]; b_rev_one(NameElse::<X>::Name(n)); b_rev_app(titems(*l), one); b_rev_app(titems(*l) + one, titems(*r));
            if left { seq_list(leaf, bin, name, left, *l, a, m1); seq_list(leaf, bin, name, left, *r, m2, b); }
            else { seq_list(leaf, bin, name, left, *r, a, m1); seq_list(leaf, bin, name, left, *l, m2, b); }
        }
        Tree::Art(u) => { seq_list(leaf, bin, name, left, *u.v, a, b); }
    }
}
//@ props T01
//@ cfn list_of_tree
//@@ params tree, dir
    ensures items(r) =~= sd(dir, titems(tree)),
//@@ entry
    broadcast use b_tp;
//@@ closure 0 (p0: X, p1: List<X>) -> (q: List<X>)
    ensures items(q) == seq![NameElse::Else(p0)] + items(p1)
//@@ closure 1 (p0: usize, p1: List<X>) -> (q: List<X>)
    ensures items(q) == items(p1)
//@@ closure 2 (p0: Name, p1: usize, p2: List<X>) -> (q: List<X>)
    ensures items(q) == seq![NameElse::Name(p0)] + items(p2)
//@@ tail
    proof { seq_list(vp_c0, vp_c1, vp_c2, dir is Right, plain(tree), nil, vp_ret); }
//@ end

// ---- filtering
/// what filtering puts before `out` for `i`
pub open spec fn lf_step<X, P: Fn(&X) -> bool>(pred: P, i: It<X>, a: Seq<It<X>>, b: Seq<It<X>>) -> bool {
    match i {
        NameElse::Else(x) => (call_ensures(pred, (&x,), true) && b == seq![i] + a) || (call_ensures(pred, (&x,), false) && b == a),
        NameElse::Name(n) => if a.len() > 0 && a[0] is Name { b == a } else { b == seq![i] + a },
    }
}
/// `b` is what filtering the sequence `s`, from its end, puts before `a`
pub open spec fn lf<X, P: Fn(&X) -> bool>(pred: P, s: Seq<It<X>>, a: Seq<It<X>>, b: Seq<It<X>>) -> bool decreases s.len() {
    if s.len() == 0 { b == a } else { exists|m: Seq<It<X>>| lf(pred, s.drop_first(), a, m) && #[trigger] lf_step(pred, s[0], m, b) }
}
pub proof fn lf_one<X, P: Fn(&X) -> bool>(pred: P, i: It<X>, a: Seq<It<X>>, b: Seq<It<X>>)
    requires lf_step(pred, i, a, b) ensures lf(pred, seq![i], a, b)
{ let s = seq![i]; assert(s.drop_first() =~= Seq::empty()); assert(lf(pred, s.drop_first(), a, a)); assert(lf_step(pred, s[0], a, b)); }
pub proof fn lf_app<X, P: Fn(&X) -> bool>(pred: P, s: Seq<It<X>>, t: Seq<It<X>>, a: Seq<It<X>>, m: Seq<It<X>>, b: Seq<It<X>>)
    requires lf(pred, t, a, m), lf(pred, s, m, b) ensures lf(pred, s + t, a, b) decreases s.len()
{
    if s.len() == 0 { assert(s + t =~= t); }
    else {
        let k = choose|k: Seq<It<X>>| lf(pred, s.drop_first(), m, k) && #[trigger] lf_step(pred, s[0], k, b);
        lf_app(pred, s.drop_first(), t, a, m, k);
        assert((s + t).drop_first() =~= s.drop_first() + t);
        assert(lf_step(pred, (s + t)[0], k, b));
    }
}
/// no two names in a row
pub open spec fn no_adjacent<X>(s: Seq<It<X>>) -> bool { forall|i: int| 0 <= i && i + 1 < s.len() ==> #[trigger] s[i] is Else || s[i + 1] is Else }
pub proof fn filtered_app<X, F: Fn(&X) -> bool>(f: F, a: Seq<X>, b: Seq<X>, c: Seq<X>, d: Seq<X>)
    requires filtered(f, a, b), filtered(f, c, d) ensures filtered(f, a + c, b + d) decreases a.len()
{
    if a.len() == 0 { assert(a + c =~= c); assert(b + d =~= d); }
    else {
        assert((a + c).drop_first() =~= a.drop_first() + c);
        if call_ensures(f, (&a[0],), true) && b.len() > 0 && b[0] == a[0] && filtered(f, a.drop_first(), b.drop_first()) {
            filtered_app(f, a.drop_first(), b.drop_first(), c, d);
            assert((b + d).drop_first() =~= b.drop_first() + d);
        } else { filtered_app(f, a.drop_first(), b, c, d); }
    }
}
/// filtering keeps the elements `pred` accepts, in order, and never leaves two names in a row
pub proof fn lf_facts<X, P: Fn(&X) -> bool>(pred: P, s: Seq<It<X>>, b: Seq<It<X>>)
    requires lf(pred, s, Seq::empty(), b) ensures filtered(pred, elems(s), elems(b)), no_adjacent(b) decreases s.len()
{
    if s.len() > 0 {
        let m = choose|m: Seq<It<X>>| lf(pred, s.drop_first(), Seq::empty(), m) && #[trigger] lf_step(pred, s[0], m, b);
        lf_facts(pred, s.drop_first(), m);
        assert(s =~= seq![s[0]] + s.drop_first());
        elems_push(s[0], s.drop_first()); elems_push(s[0], m);
        match s[0] { NameElse::Else(x) => { b_filtered(pred, x, elems(s.drop_first()), elems(m)); b_filtered2(pred, x, elems(s.drop_first()), elems(m)); } _ => {} }
        assert forall|i: int| 0 <= i && i + 1 < b.len() implies #[trigger] b[i] is Else || b[i + 1] is Else by {
            if b != m { if i > 0 { assert(b[i] == m[i - 1]); assert(b[i + 1] == m[i]); } else { assert(b[1] == m[0]); } } else { assert(m[i] is Else || m[i + 1] is Else); }
        }
    }
}
pub proof fn seq_lf<X, P: Fn(&X) -> bool, LC: Fn(X, List<X>) -> List<X>, BC: Fn(usize, List<X>) -> List<X>, NC: Fn(Name, usize, List<X>) -> List<X>>(pred: P, leaf: LC, bin: BC, name: NC, t: Tree<X>, a: List<X>, b: List<X>)
    requires seq_rel(leaf, bin, name, false, t, a, b),
        forall|x: X, p: List<X>, q: List<X>| #[trigger] call_ensures(leaf, (x, p), q) ==> lf_step(pred, NameElse::Else(x), items(p), items(q)),
        forall|v: usize, p: List<X>, q: List<X>| #[trigger] call_ensures(bin, (v, p), q) ==> items(q) == items(p),
        forall|n: Name, v: usize, p: List<X>, q: List<X>| #[trigger] call_ensures(name, (n, v, p), q) ==> lf_step(pred, NameElse::Name(n), items(p), items(q)),
    ensures lf(pred, titems(t), items(a), items(b)),
    decreases t,
{
    match t {
        Tree::Nil => {} Tree::Leaf(x) => { lf_one(pred, NameElse::Else(x), items(a), items(b)); }
        Tree::Bin(v, l, r) => {
            let (m1, m2) = choose|m1: List<X>, m2: List<X>| #[trigger] call_ensures(bin, (v, m1), m2) && seq_rel(leaf, bin, name, false, *r, a, m1) && seq_rel(leaf, bin, name, false, *l, m2, b);
            seq_lf(pred, leaf, bin, name, *r, a, m1); seq_lf(pred, leaf, bin, name, *l, m2, b);
            lf_app(pred, titems(*l), titems(*r), items(a), items(m1), items(b));
        }
        Tree::Name(n, v, l, r) => {
            let (m1, m2) = choose|m1: List<X>, m2: List<X>| #[trigger] call_ensures(name, (n, v, m1), m2) && seq_rel(leaf, bin, name, false, *r, a, m1) && seq_rel(leaf, bin, name, false, *l, m2, b);
            seq_lf(pred, leaf, bin, name, *r, a, m1); seq_lf(pred, leaf, bin, name, *l, m2, b);
            let one = seq![NameElse::<X>::Name(n)];
            lf_one(pred, NameElse::Name(n), items(m1), items(m2));
            lf_app(pred, titems(*l), one, items(m1), items(m2), items(b));
            lf_app(pred, titems(*l) + one, titems(*r), items(a), items(m1), items(b));
        }
        Tree::Art(u) => { seq_lf(pred, leaf, bin, name, *u.v, a, b); }
    }
}
//@ cfn filter_list_of_tree
//@@ params tree, pred
    requires forall|x: &X| call_requires(*pred, (x,)),
    ensures lf(*pred, titems(tree), Seq::empty(), items(r)), filtered(*pred, elems(titems(tree)), es(r)), no_adjacent(items(r)),
//@@ entry
    broadcast use b_tp;
//@@ closure 0 (p0: X, p1: List<X>) -> (q: List<X>)
    ensures lf_step(*pred, NameElse::Else(p0), items(p1), items(q))
//@@ closure 1 (p0: usize, p1: List<X>) -> (q: List<X>)
    ensures items(q) == items(p1)
//@@ closure 2 (p0: Name, p1: usize, p2: List<X>) -> (q: List<X>)
    ensures lf_step(*pred, NameElse::Name(p0), items(p2), items(q))
//@@ tail
    proof { seq_lf(*pred, vp_c0, vp_c1, vp_c2, plain(tree), nil, vp_ret); lf_facts(*pred, titems(tree), items(vp_ret)); }
//@ end

/// the two subtrees under one node, or the other one if one of them is empty
pub open spec fn join<X>(n: Option<Name>, v: usize, l: Tree<X>, r: Tree<X>) -> Tree<X> {
    if l is Nil { r } else if r is Nil { l } else { match n { None => Tree::Bin(v, Box::new(l), Box::new(r)), Some(n) => Tree::Name(n, v, Box::new(l), Box::new(r)) } }
}
/// no subtree of it is empty, unless it all is
pub open spec fn full<X>(t: Tree<X>) -> bool decreases t {
    match t { Tree::Bin(_, l, r) => !(*l is Nil) && !(*r is Nil) && full(*l) && full(*r), Tree::Name(_, _, l, r) => !(*l is Nil) && !(*r is Nil) && full(*l) && full(*r), Tree::Art(_) => false, _ => true }
}
//@ cfn bin_arts_niltest
//@@ params n, lev, l, r
//@@ ret q
    ensures plain(q) == join(n, lev, plain(l), plain(r)),
//@ end
pub proof fn join_facts<X>(n: Option<Name>, v: usize, l: Tree<X>, r: Tree<X>)
    requires full(l), full(r)
    ensures full(join(n, v, l, r)), elems(titems(join(n, v, l, r))) == elems(titems(l)) + elems(titems(r)),
{
    broadcast use g_elems;
    assert(Seq::<X>::empty() + elems(titems(r)) =~= elems(titems(r)));
    assert(elems(titems(l)) + Seq::<X>::empty() =~= elems(titems(l)));
}
/// `b` is `t` with the leaves that `pred` rejects taken out, and the nodes that leaves empty
pub open spec fn tf<X, P: Fn(&X) -> bool>(pred: P, t: Tree<X>, b: Tree<X>) -> bool decreases t {
    match t {
        Tree::Nil => b is Nil,
        Tree::Leaf(x) => (call_ensures(pred, (&x,), true) && b == t) || (call_ensures(pred, (&x,), false) && b is Nil),
        Tree::Bin(v, l, r) => exists|p: Tree<X>, q: Tree<X>| tf(pred, *l, p) && tf(pred, *r, q) && b == #[trigger] join(None, v, p, q),
        Tree::Name(n, v, l, r) => exists|p: Tree<X>, q: Tree<X>| tf(pred, *l, p) && tf(pred, *r, q) && b == #[trigger] join(Some(n), v, p, q),
        Tree::Art(u) => tf(pred, *u.v, b),
    }
}
pub proof fn tf_facts<X, P: Fn(&X) -> bool>(pred: P, t: Tree<X>, b: Tree<X>)
    requires tf(pred, t, b) ensures filtered(pred, elems(titems(t)), elems(titems(b))), full(b) decreases t
{
    broadcast use g_elems;
    match t {
        Tree::Nil => {}
        Tree::Leaf(x) => {
            let (e, s) = (Seq::<X>::empty(), seq![x]);
            assert(s.drop_first() =~= e); assert(filtered(pred, e, e));
        }
        Tree::Bin(v, l, r) => {
            let (p, q) = choose|p: Tree<X>, q: Tree<X>| tf(pred, *l, p) && tf(pred, *r, q) && b == #[trigger] join(None, v, p, q);
            tf_facts(pred, *l, p); tf_facts(pred, *r, q); join_facts(None, v, p, q);
            filtered_app(pred, elems(titems(*l)), elems(titems(p)), elems(titems(*r)), elems(titems(q)));
        }
        Tree::Name(n, v, l, r) => {
            let (p, q) = choose|p: Tree<X>, q: Tree<X>| tf(pred, *l, p) && tf(pred, *r, q) && b == #[trigger] join(Some(n), v, p, q);
            tf_facts(pred, *l, p); tf_facts(pred, *r, q); join_facts(Some(n), v, p, q);
            assert(elems(titems(*l)) + Seq::<X>::empty() =~= elems(titems(*l)));
            filtered_app(pred, elems(titems(*l)), elems(titems(p)), elems(titems(*r)), elems(titems(q)));
        }
        Tree::Art(u) => { tf_facts(pred, *u.v, b); }
    }
}
pub proof fn up_tf<X, P: Fn(&X) -> bool, KC: Fn() -> Tree<X>, LC: Fn(X) -> Tree<X>, BC: Fn(usize, Tree<X>, Tree<X>) -> Tree<X>, NC: Fn(Name, usize, Tree<X>, Tree<X>) -> Tree<X>>(pred: P, nil: KC, leaf: LC, bin: BC, name: NC, t: Tree<X>, b: Tree<X>)
    requires up_rel(nil, leaf, bin, name, t, b),
        forall|q: Tree<X>| #[trigger] call_ensures(nil, (), q) ==> plain(q) is Nil,
        forall|x: X, q: Tree<X>| #[trigger] call_ensures(leaf, (x,), q) ==> (call_ensures(pred, (&x,), true) && plain(q) == Tree::Leaf(x)) || (call_ensures(pred, (&x,), false) && plain(q) is Nil),
        forall|v: usize, l: Tree<X>, r: Tree<X>, q: Tree<X>| #[trigger] call_ensures(bin, (v, l, r), q) ==> plain(q) == join(None, v, plain(l), plain(r)),
        forall|n: Name, v: usize, l: Tree<X>, r: Tree<X>, q: Tree<X>| #[trigger] call_ensures(name, (n, v, l, r), q) ==> plain(q) == join(Some(n), v, plain(l), plain(r)),
    ensures tf(pred, t, plain(b)),
    decreases t,
{
    match t {
        Tree::Nil => {} Tree::Leaf(x) => {}
        Tree::Bin(v, l, r) => {
            let (m1, m2) = choose|m1: Tree<X>, m2: Tree<X>| #[trigger] call_ensures(bin, (v, m1, m2), b) && up_rel(nil, leaf, bin, name, *l, m1) && up_rel(nil, leaf, bin, name, *r, m2);
            up_tf(pred, nil, leaf, bin, name, *l, m1); up_tf(pred, nil, leaf, bin, name, *r, m2);
            assert(tf(pred, *l, plain(m1)) && tf(pred, *r, plain(m2)));
        }
        Tree::Name(n, v, l, r) => {
            let (m1, m2) = choose|m1: Tree<X>, m2: Tree<X>| #[trigger] call_ensures(name, (n, v, m1, m2), b) && up_rel(nil, leaf, bin, name, *l, m1) && up_rel(nil, leaf, bin, name, *r, m2);
            up_tf(pred, nil, leaf, bin, name, *l, m1); up_tf(pred, nil, leaf, bin, name, *r, m2);
            assert(tf(pred, *l, plain(m1)) && tf(pred, *r, plain(m2)));
        }
        Tree::Art(u) => { up_tf(pred, nil, leaf, bin, name, *u.v, b); }
    }
}
//@ cfn filter_tree_of_tree
//@@ params tree, pred
    requires forall|x: &X| call_requires(*pred, (x,)),
    ensures tf(*pred, plain(tree), plain(r)), filtered(*pred, elems(titems(tree)), elems(titems(r))), full(plain(r)),
//@@ entry
    broadcast use b_tp;
//@@ closure 0 () -> (q: Tree<X>)
    ensures plain(q) is Nil
//@@ closure 1 (p0: X) -> (q: Tree<X>)
    ensures (call_ensures(*pred, (&p0,), true) && plain(q) == Tree::Leaf(p0)) || (call_ensures(*pred, (&p0,), false) && plain(q) is Nil)
//@@ closure 2 (p0: usize, p1: Tree<X>, p2: Tree<X>) -> (q: Tree<X>)
    ensures plain(q) == join(None, p0, plain(p1), plain(p2))
//@@ closure 3 (p0: Name, p1: usize, p2: Tree<X>, p3: Tree<X>) -> (q: Tree<X>)
    ensures plain(q) == join(Some(p0), p1, plain(p2), plain(p3))
//@@ tail
    proof { up_tf(*pred, vp_c0, vp_c1, vp_c2, vp_c3, plain(tree), vp_ret); tf_facts(*pred, plain(tree), plain(vp_ret)); }
//@ end

// ---- pruning, copying
pub open spec fn pr<X>(t: Tree<X>) -> Tree<X> decreases t {
    match t { Tree::Bin(v, l, r) => join(None, v, pr(*l), pr(*r)), Tree::Name(n, v, l, r) => join(Some(n), v, pr(*l), pr(*r)), Tree::Art(u) => pr(*u.v), _ => t }
}
pub proof fn pr_facts<X>(t: Tree<X>) ensures full(pr(t)), elems(titems(pr(t))) == elems(titems(t)) decreases t
{
    broadcast use g_elems;
    match t {
        Tree::Bin(v, l, r) => { pr_facts(*l); pr_facts(*r); join_facts(None, v, pr(*l), pr(*r)); }
        Tree::Name(n, v, l, r) => { pr_facts(*l); pr_facts(*r); join_facts(Some(n), v, pr(*l), pr(*r)); assert(elems(titems(*l)) + Seq::<X>::empty() =~= elems(titems(*l))); }
        Tree::Art(u) => pr_facts(*u.v),
        _ => {}
    }
}
pub proof fn up_pr<X, KC: Fn() -> Tree<X>, LC: Fn(X) -> Tree<X>, BC: Fn(usize, Tree<X>, Tree<X>) -> Tree<X>, NC: Fn(Name, usize, Tree<X>, Tree<X>) -> Tree<X>>(copy: bool, nil: KC, leaf: LC, bin: BC, name: NC, t: Tree<X>, b: Tree<X>)
    requires up_rel(nil, leaf, bin, name, t, b),
        forall|q: Tree<X>| #[trigger] call_ensures(nil, (), q) ==> plain(q) is Nil,
        forall|x: X, q: Tree<X>| #[trigger] call_ensures(leaf, (x,), q) ==> plain(q) == Tree::Leaf(x),
        forall|v: usize, l: Tree<X>, r: Tree<X>, q: Tree<X>| #[trigger] call_ensures(bin, (v, l, r), q) ==> plain(q) == (if copy { Tree::Bin(v, Box::new(plain(l)), Box::new(plain(r))) } else { join(None, v, plain(l), plain(r)) }),
        forall|n: Name, v: usize, l: Tree<X>, r: Tree<X>, q: Tree<X>| #[trigger] call_ensures(name, (n, v, l, r), q) ==> plain(q) == (if copy { Tree::Name(n, v, Box::new(plain(l)), Box::new(plain(r))) } else { join(Some(n), v, plain(l), plain(r)) }),
    ensures plain(b) == (if copy { plain(t) } else { pr(t) }),
    decreases t,
{
    match t {
        Tree::Nil => {} Tree::Leaf(x) => {}
        Tree::Bin(v, l, r) => {
            let (m1, m2) = choose|m1: Tree<X>, m2: Tree<X>| #[trigger] call_ensures(bin, (v, m1, m2), b) && up_rel(nil, leaf, bin, name, *l, m1) && up_rel(nil, leaf, bin, name, *r, m2);
            up_pr(copy, nil, leaf, bin, name, *l, m1); up_pr(copy, nil, leaf, bin, name, *r, m2);
        }
        Tree::Name(n, v, l, r) => {
            let (m1, m2) = choose|m1: Tree<X>, m2: Tree<X>| #[trigger] call_ensures(name, (n, v, m1, m2), b) && up_rel(nil, leaf, bin, name, *l, m1) && up_rel(nil, leaf, bin, name, *r, m2);
            up_pr(copy, nil, leaf, bin, name, *l, m1); up_pr(copy, nil, leaf, bin, name, *r, m2);
        }
        Tree::Art(u) => { up_pr(copy, nil, leaf, bin, name, *u.v, b); }
    }
}
pub proof fn plain2<X>(t: Tree<X>) ensures plain(plain(t)) == plain(t) decreases t
{ match t { Tree::Bin(v, l, r) => { plain2(*l); plain2(*r); } Tree::Name(n, v, l, r) => { plain2(*l); plain2(*r); } Tree::Art(a) => plain2(*a.v), _ => {} } }
pub proof fn pr_plain<X>(t: Tree<X>) ensures pr(plain(t)) == pr(t) decreases t
{ match t { Tree::Bin(v, l, r) => { pr_plain(*l); pr_plain(*r); } Tree::Name(n, v, l, r) => { pr_plain(*l); pr_plain(*r); } Tree::Art(a) => pr_plain(*a.v), _ => {} } }
//@ cfn eager_tree_of_tree
//@@ params tree
    ensures plain(r) == plain(tree),
//@@ closure 0 () -> (q: Tree<X>)
    ensures plain(q) is Nil
//@@ closure 1 (p0: X) -> (q: Tree<X>)
    ensures plain(q) == Tree::Leaf(p0)
//@@ closure 2 (p0: usize, p1: Tree<X>, p2: Tree<X>) -> (q: Tree<X>)
    ensures plain(q) == Tree::Bin(p0, Box::new(plain(p1)), Box::new(plain(p2)))
//@@ closure 3 (p0: Name, p1: usize, p2: Tree<X>, p3: Tree<X>) -> (q: Tree<X>)
    ensures plain(q) == Tree::Name(p0, p1, Box::new(plain(p2)), Box::new(plain(p3)))
//@@ tail
    proof { up_pr(true, vp_c0, vp_c1, vp_c2, vp_c3, plain(tree), vp_ret); plain2(tree); }
//@ cfn prune_tree_of_tree
//@@ params tree
    ensures plain(r) == pr(tree), full(plain(r)), elems(titems(r)) == elems(titems(tree)),
//@@ entry
    broadcast use b_tp;
//@@ closure 0 () -> (q: Tree<X>)
    ensures plain(q) is Nil
//@@ closure 1 (p0: X) -> (q: Tree<X>)
    ensures plain(q) == Tree::Leaf(p0)
//@@ closure 2 (p0: usize, p1: Tree<X>, p2: Tree<X>) -> (q: Tree<X>)
    ensures plain(q) == join(None, p0, plain(p1), plain(p2))
//@@ closure 3 (p0: Name, p1: usize, p2: Tree<X>, p3: Tree<X>) -> (q: Tree<X>)
    ensures plain(q) == join(Some(p0), p1, plain(p2), plain(p3))
//@@ tail
    proof { up_pr(false, vp_c0, vp_c1, vp_c2, vp_c3, plain(tree), vp_ret); pr_plain(tree); pr_facts(tree); }
//@ end

// ---- monoids
pub open spec fn same<X>(a: X, b: &X) -> bool { a == *b }
pub open spec fn mono<X, F: Fn(X, X) -> X>(op: F, id: X, t: Tree<X>, b: X) -> bool decreases t {
    match t {
        Tree::Nil => b == id, Tree::Leaf(x) => b == x,
        Tree::Bin(_, l, r) => exists|p: X, q: X| mono(op, id, *l, p) && mono(op, id, *r, q) && #[trigger] call_ensures(op, (p, q), b),
        Tree::Name(_, _, l, r) => exists|p: X, q: X| mono(op, id, *l, p) && mono(op, id, *r, q) && #[trigger] call_ensures(op, (p, q), b),
        Tree::Art(u) => mono(op, id, *u.v, b),
    }
}
/// the elements put together with `g`, from the right
pub open spec fn total<X>(g: spec_fn(X, X) -> X, id: X, s: Seq<X>) -> X decreases s.len() { if s.len() == 0 { id } else { g(s[0], total(g, id, s.drop_first())) } }
pub proof fn total_app<X>(g: spec_fn(X, X) -> X, id: X, s: Seq<X>, t: Seq<X>)
    requires forall|x: X, y: X, z: X| #[trigger] g(g(x, y), z) == g(x, g(y, z)), forall|x: X| #[trigger] g(id, x) == x
    ensures total(g, id, s + t) == g(total(g, id, s), total(g, id, t)) decreases s.len()
{
    if s.len() == 0 { assert(s + t =~= t); }
    else { total_app(g, id, s.drop_first(), t); assert((s + t).drop_first() =~= s.drop_first() + t); assert(g(g(s[0], total(g, id, s.drop_first())), total(g, id, t)) == g(s[0], g(total(g, id, s.drop_first()), total(g, id, t)))); }
}
/// if `op` is a monoid, what the tree gives is what its elements give in sequence, whatever its shape
pub proof fn mono_total<X, F: Fn(X, X) -> X>(op: F, g: spec_fn(X, X) -> X, id: X, t: Tree<X>, b: X)
    requires mono(op, id, t, b), forall|x: X, y: X, z: X| #[trigger] call_ensures(op, (x, y), z) ==> z == g(x, y),
        forall|x: X, y: X, z: X| #[trigger] g(g(x, y), z) == g(x, g(y, z)), forall|x: X| #[trigger] g(id, x) == x, forall|x: X| #[trigger] g(x, id) == x
    ensures b == total(g, id, elems(titems(t))) decreases t
{
    broadcast use g_elems;
    match t {
        Tree::Nil => {}
        Tree::Leaf(x) => { let s = seq![x]; assert(s.drop_first() =~= Seq::empty()); assert(total(g, id, s.drop_first()) == id); assert(total(g, id, s) == g(x, id)); }
        Tree::Bin(v, l, r) => {
            let (p, q) = choose|p: X, q: X| mono(op, id, *l, p) && mono(op, id, *r, q) && #[trigger] call_ensures(op, (p, q), b);
            mono_total(op, g, id, *l, p); mono_total(op, g, id, *r, q); total_app(g, id, elems(titems(*l)), elems(titems(*r)));
        }
        Tree::Name(n, v, l, r) => {
            let (p, q) = choose|p: X, q: X| mono(op, id, *l, p) && mono(op, id, *r, q) && #[trigger] call_ensures(op, (p, q), b);
            mono_total(op, g, id, *l, p); mono_total(op, g, id, *r, q); total_app(g, id, elems(titems(*l)), elems(titems(*r)));
            assert(elems(titems(*l)) + Seq::<X>::empty() =~= elems(titems(*l)));
        }
        Tree::Art(u) => mono_total(op, g, id, *u.v, b),
    }
}
pub proof fn up_mono<X, F: Fn(X, X) -> X, KC: Fn() -> X, LC: Fn(X) -> X, BC: Fn(usize, X, X) -> X, NC: Fn(Name, usize, X, X) -> X>(op: F, id: X, nil: KC, leaf: LC, bin: BC, name: NC, t: Tree<X>, b: X)
    requires up_rel(nil, leaf, bin, name, t, b),
        forall|q: X| #[trigger] call_ensures(nil, (), q) ==> q == id,
        forall|x: X, q: X| #[trigger] call_ensures(leaf, (x,), q) ==> q == x,
        forall|v: usize, l: X, r: X, q: X| #[trigger] call_ensures(bin, (v, l, r), q) ==> call_ensures(op, (l, r), q),
        forall|n: Name, v: usize, l: X, r: X, q: X| #[trigger] call_ensures(name, (n, v, l, r), q) ==> call_ensures(op, (l, r), q),
    ensures mono(op, id, t, b),
    decreases t,
{
    match t {
        Tree::Nil => {} Tree::Leaf(x) => {}
        Tree::Bin(v, l, r) => {
            let (m1, m2) = choose|m1: X, m2: X| #[trigger] call_ensures(bin, (v, m1, m2), b) && up_rel(nil, leaf, bin, name, *l, m1) && up_rel(nil, leaf, bin, name, *r, m2);
            up_mono(op, id, nil, leaf, bin, name, *l, m1); up_mono(op, id, nil, leaf, bin, name, *r, m2);
            assert(mono(op, id, *l, m1) && mono(op, id, *r, m2));
        }
        Tree::Name(n, v, l, r) => {
            let (m1, m2) = choose|m1: X, m2: X| #[trigger] call_ensures(name, (n, v, m1, m2), b) && up_rel(nil, leaf, bin, name, *l, m1) && up_rel(nil, leaf, bin, name, *r, m2);
            up_mono(op, id, nil, leaf, bin, name, *l, m1); up_mono(op, id, nil, leaf, bin, name, *r, m2);
            assert(mono(op, id, *l, m1) && mono(op, id, *r, m2));
        }
        Tree::Art(u) => { up_mono(op, id, nil, leaf, bin, name, *u.v, b); }
    }
}
//@ cfn monoid_of_tree
//@@ params tree, id_elm, bin_op
    requires forall|x: X, y: X| call_requires(*bin_op, (x, y)),
    ensures mono(*bin_op, id_elm, plain(tree), r),
        forall|g: spec_fn(X, X) -> X| (forall|x: X, y: X, z: X| #[trigger] call_ensures(*bin_op, (x, y), z) ==> z == g(x, y)) && (forall|x: X, y: X, z: X| #[trigger] g(g(x, y), z) == g(x, g(y, z)))
            && (forall|x: X| #[trigger] g(id_elm, x) == x) && (forall|x: X| #[trigger] g(x, id_elm) == x) ==> r == #[trigger] total(g, id_elm, elems(titems(tree))),
//@@ entry
    broadcast use b_tp;
    let ghost vp_id = id_elm;
//@@ closure 0 () -> (q: X)
    ensures same(q, &id_elm)
//@@ closure 1 (p0: X) -> (q: X)
    ensures q == p0
//@@ closure 2 (p0: usize, p1: X, p2: X) -> (q: X)
    ensures call_ensures(*bin_op, (p1, p2), q)
//@@ closure 3 (p0: Name, p1: usize, p2: X, p3: X) -> (q: X)
    ensures call_ensures(*bin_op, (p2, p3), q)
//@@ tail
    proof { up_mono(*bin_op, vp_id, vp_c0, vp_c1, vp_c2, vp_c3, plain(tree), vp_ret);
        assert forall|g: spec_fn(X, X) -> X| (forall|x: X, y: X, z: X| #[trigger] call_ensures(*bin_op, (x, y), z) ==> z == g(x, y)) && (forall|x: X, y: X, z: X| #[trigger] g(g(x, y), z) == g(x, g(y, z)))
            && (forall|x: X| #[trigger] g(vp_id, x) == x) && (forall|x: X| #[trigger] g(x, vp_id) == x) implies vp_ret == #[trigger] total(g, vp_id, elems(titems(tree))) by { mono_total(*bin_op, g, vp_id, plain(tree), vp_ret); } }
//@ end
