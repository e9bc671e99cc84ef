//@ source src/catalog/bitstring.rs
//@ source src/catalog/trie.rs
//@ keep X
//@ props T02
//@ cty TrieIntro=Trie<$1>;TrieElim=Trie<$1>
//@ view Trie TrieV Nil/1 Leaf/2 Bin/3 Root/2 Name/2
//@ derives Trie PartialEq Eq Clone
//@ derives Meta PartialEq Eq Clone
//@ derives BS PartialEq Eq Clone Copy
//@ dropmacro println
//@ opt nateq natfn
//@ include coll_types.inc
use vstd::arithmetic::power::*;
use vstd::arithmetic::mul::*;
//@ struct BS
//@ const BS::MAX_LEN
//@ struct Meta
//@ enum Trie
//@ end
impl Copy for BS {}
impl Clone for BS { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub assume_specification[ i64::pow ](b: i64, e: u32) -> (r: i64)
    requires i64::MIN <= pow(b as int, e as nat) <= i64::MAX,
    ensures r as int == pow(b as int, e as nat);
pub enum TrieV<X> { Nil(BS), Leaf(BS, X), Bin(BS, Trie<X>, Trie<X>), Root(Meta, Trie<X>), Name(Name, Trie<X>) }
/// the state of a hasher, and what feeding it a value makes of it
#[verifier::external_body] pub struct DefaultHasher { h: u64 }
pub uninterp spec fn hfeed<T>(s: DefaultHasher, x: T) -> DefaultHasher;
pub uninterp spec fn hfin(s: DefaultHasher) -> u64;
pub uninterp spec fn hnew() -> DefaultHasher;
impl DefaultHasher {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r == hnew() { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == hfin(*self) { unimplemented!() }
}
pub trait VH: Sized { fn hash(&self, h: &mut DefaultHasher) ensures *final(h) == hfeed(*old(h), *self); }
impl<T> VH for T { #[verifier::external_body] fn hash(&self, h: &mut DefaultHasher) { unimplemented!() } }
/// std::cmp::min
pub fn min(a: i64, b: i64) -> (r: i64) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
/// the hash that places an element
pub open spec fn hx<X>(x: X) -> i64 { hfin(hfeed(hnew(), x)) as i64 }

//@ include bits_code.inc
//@ end
// ---- bits of a hash
pub open spec fn shr(h: i64, d: nat) -> i64 decreases d { if d == 0 { h } else { shr(h, (d - 1) as nat) >> 1 } }
/// bit `d`
pub open spec fn odd(h: i64, d: nat) -> bool { shr(h, d) & 1 == 1 }
pub proof fn shr_is(h: i64, d: nat) requires d <= 62 ensures shr(h, d) == h >> (d as u64) decreases d
{
    if d == 0 { assert(h >> 0u64 == h) by(bit_vector); }
    else {
        shr_is(h, (d - 1) as nat);
        let u = (d - 1) as u64; let w = d as u64;
        assert(u < 62 && w == add(u, 1) ==> (h >> u) >> 1 == h >> w) by(bit_vector);
    }
}
/// bit `d` of the hash is what the bit-string operations call bit `d`
pub proof fn odd_has(h: i64, d: nat) requires d <= 62 ensures odd(h, d) <==> has(h, d as int)
{
    shr_is(h, d); let u = d as u64;
    assert(u <= 62 ==> (((h >> u) & 1 == 1) <==> (h & (1i64 << u)) != 0)) by(bit_vector);
}

// ---- tries
pub open spec fn telems<X>(t: Trie<X>) -> Seq<X> decreases t {
    match t {
        Trie::Nil(_) => Seq::empty(), Trie::Leaf(_, x) => seq![x], Trie::Bin(_, l, r) => telems(*l) + telems(*r),
        Trie::Root(_, t) => telems(*t), Trie::Name(_, t) => telems(*t), Trie::Art(a) => telems(*a.v),
    }
}
/// each element is where the bits of its hash, from bit `d` on, put it
pub open spec fn placed<X>(t: Trie<X>, d: nat) -> bool decreases t {
    match t {
        Trie::Bin(_, l, r) => placed(*l, d + 1) && placed(*r, d + 1) && (forall|i: int| 0 <= i < telems(*l).len() ==> !odd(hx(#[trigger] telems(*l)[i]), d))
            && (forall|i: int| 0 <= i < telems(*r).len() ==> odd(hx(#[trigger] telems(*r)[i]), d)),
        Trie::Root(_, t) => placed(*t, d), Trie::Name(_, t) => placed(*t, d), Trie::Art(a) => placed(*a.v, d), _ => true,
    }
}
/// what is there without names, roots and references
pub open spec fn core<X>(t: Trie<X>) -> Trie<X> decreases t {
    match t { Trie::Root(_, t) => core(*t), Trie::Name(_, t) => core(*t), Trie::Art(a) => core(*a.v), _ => t }
}
pub proof fn core_facts<X>(t: Trie<X>) ensures telems(core(t)) == telems(t) decreases t
{ match t { Trie::Root(_, t) => core_facts(*t), Trie::Name(_, t) => core_facts(*t), Trie::Art(a) => core_facts(*a.v), _ => {} } }
/// the trie under its references
pub open spec fn strip<X>(t: Trie<X>) -> Trie<X> decreases t { match t { Trie::Art(a) => strip(*a.v), _ => t } }
pub broadcast proof fn strip_facts<X>(t: Trie<X>) ensures telems(#[trigger] strip(t)) == telems(t), core(strip(t)) == core(t) decreases t
{ match t { Trie::Art(a) => strip_facts(*a.v), _ => {} } }
pub broadcast proof fn strip_placed<X>(t: Trie<X>, d: nat) ensures placed(strip(t), d) == #[trigger] placed(t, d) decreases t
{ match t { Trie::Art(a) => { strip_placed(*a.v, d); assert(strip(t) == strip(*a.v)); assert(placed(t, d) == placed(*a.v, d)); }, _ => {} } }

pub open spec fn unview<X>(v: TrieV<X>) -> Trie<X> {
    match v { TrieV::Nil(b) => Trie::Nil(b), TrieV::Leaf(b, x) => Trie::Leaf(b, x), TrieV::Bin(b, l, r) => Trie::Bin(b, Box::new(l), Box::new(r)),
        TrieV::Root(m, t) => Trie::Root(m, Box::new(t)), TrieV::Name(n, t) => Trie::Name(n, Box::new(t)) }
}
pub mod fns {
use super::*;
use vstd::prelude::*;
broadcast use {strip_facts, strip_placed};

//@ cfn Trie::nil@TrieIntro
//@@ impl <X> Trie<X>
//@@ params bs
    ensures r == Trie::<X>::Nil(bs),
//@ cfn Trie::leaf@TrieIntro
//@@ impl <X> Trie<X>
//@@ params bs, x
    ensures r == Trie::Leaf(bs, x),
//@ cfn Trie::bin@TrieIntro
//@@ impl <X> Trie<X>
//@@ params bs, l, r
//@@ ret q
    ensures q == Trie::Bin(bs, Box::new(l), Box::new(r)),
//@ cfn Trie::root@TrieIntro
//@@ impl <X> Trie<X>
//@@ params meta, trie
    ensures r == Trie::Root(meta, Box::new(trie)),
//@ cfn Trie::name@TrieIntro
//@@ impl <X> Trie<X>
//@@ params nm, trie
    ensures r == Trie::Name(nm, Box::new(trie)),
//@ cfn Trie::art@TrieIntro
//@@ impl <X> Trie<X>
//@@ params art
    ensures r == Trie::Art(art),
//@ cfn Trie::empty@TrieIntro
//@@ impl <X> Trie<X>
//@@ params meta
    ensures telems(r) == Seq::<X>::empty(), core(r) == Trie::<X>::Nil(BS { length: 0, value: 0 }), placed(r, 0),
//@@ tail
    proof { reveal_with_fuel(telems, 8); reveal_with_fuel(core, 8); reveal_with_fuel(placed, 8); }
//@ cfn Trie::elim@TrieElim
//@@ impl <X> Trie<X>
//@@ open TrieV<X>
//@@ params trie, nil, leaf, bin, root, name
    ensures unview(r) == strip(trie),
//@ cfn Trie::elim_arg@TrieElim
//@@ impl <X> Trie<X>
//@@ open TrieV<X>
//@@ params trie, arg, nil, leaf, bin, root, name
    ensures unview(r) == strip(trie),
//@ cfn Trie::elim_ref@TrieElim
//@@ impl <X> Trie<X>
//@@ open TrieV<X>
//@@ params trie, nil, leaf, bin, root, name
    ensures unview(r) == strip(*trie),
//@ end

// ---- lookup
/// in a well-placed trie, an element is found exactly if it is there
pub open spec fn finds<X>(t: Trie<X>, x: X, i: i64, r: Option<X>) -> bool {
    (r is Some ==> r->0 == x && telems(t).contains(x)) && forall|d: nat| #[trigger] placed(t, d) && i == shr(hx(x), d) ==> (r is Some <==> telems(t).contains(x))
}
pub proof fn has_app<X>(a: Seq<X>, b: Seq<X>, x: X) ensures (a + b).contains(x) <==> a.contains(x) || b.contains(x)
{
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[i + a.len()] == x); }
    if (a + b).contains(x) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
}
pub broadcast proof fn b_finds_bin<X>(bs: BS, l: Trie<X>, r: Trie<X>, x: X, i: i64, o: Option<X>)
    ensures (if i & 1 == 1 { finds(r, x, i >> 1, o) } else { finds(l, x, i >> 1, o) }) ==> #[trigger] finds(Trie::Bin(bs, Box::new(l), Box::new(r)), x, i, o)
{
    let t = Trie::Bin(bs, Box::new(l), Box::new(r));
    has_app(telems(l), telems(r), x);
    if (if i & 1 == 1 { finds(r, x, i >> 1, o) } else { finds(l, x, i >> 1, o) }) {
        assert forall|d: nat| #[trigger] placed(t, d) && i == shr(hx(x), d) implies (o is Some <==> telems(t).contains(x)) by {
            assert(shr(hx(x), d + 1) == i >> 1);
            if telems(l).contains(x) { let k = choose|k: int| 0 <= k < telems(l).len() && telems(l)[k] == x; assert(!odd(hx(telems(l)[k]), d)); }
            if telems(r).contains(x) { let k = choose|k: int| 0 <= k < telems(r).len() && telems(r)[k] == x; assert(odd(hx(telems(r)[k]), d)); }
            assert(placed(l, d + 1) && placed(r, d + 1));
        }
    }
}
pub broadcast proof fn b_finds_up<X>(t: Trie<X>, x: X, i: i64, o: Option<X>) ensures finds(strip(t), x, i, o) <==> #[trigger] finds(t, x, i, o)
{
    broadcast use {strip_facts, strip_placed};
    if finds(strip(t), x, i, o) { assert forall|d: nat| #[trigger] placed(t, d) && i == shr(hx(x), d) implies (o is Some <==> telems(t).contains(x)) by { assert(placed(strip(t), d)); } }
    if finds(t, x, i, o) { assert forall|d: nat| #[trigger] placed(strip(t), d) && i == shr(hx(x), d) implies (o is Some <==> telems(t).contains(x)) by { assert(placed(t, d)); } }
}
pub broadcast proof fn b_finds_view<X>(v: TrieV<X>, x: X, i: i64, o: Option<X>)
    ensures (match v {
        TrieV::Nil(_) => o is None, TrieV::Leaf(_, y) => o == if x == y { Some(y) } else { None }, TrieV::Root(_, t) => finds(t, x, i, o), TrieV::Name(_, t) => finds(t, x, i, o),
        TrieV::Bin(_, l, r) => if i & 1 == 1 { finds(r, x, i >> 1, o) } else { finds(l, x, i >> 1, o) },
    }) ==> #[trigger] finds(unview(v), x, i, o)
{
    match v {
        TrieV::Nil(_) => {}, TrieV::Leaf(_, y) => { assert(telems(unview(v))[0] == y); },
        TrieV::Bin(bs, l, r) => { b_finds_bin(bs, l, r, x, i, o); },
        TrieV::Root(m, t) => {
            assert(telems(unview(v)) == telems(t)); assert(forall|d: nat| placed(unview(v), d) == #[trigger] placed(t, d)); assert(forall|d: nat| #[trigger] placed(unview(v), d) == placed(t, d));
        },
        TrieV::Name(m, t) => {
            assert(telems(unview(v)) == telems(t)); assert(forall|d: nat| placed(unview(v), d) == #[trigger] placed(t, d)); assert(forall|d: nat| #[trigger] placed(unview(v), d) == placed(t, d));
        },
    }
}
pub proof fn parity(i: i64) ensures i % 2 == 0 <==> i & 1 != 1, i & 1 == 0 <==> i & 1 != 1, i & 1 == 1 & i {
    assert(i % 2 == 0 <==> i & 1 != 1) by(bit_vector); assert(i & 1 == 0 <==> i & 1 != 1) by(bit_vector); assert(i & 1 == 1 & i) by(bit_vector);
}
//@ cfn Trie::find@TrieElim
//@@ impl <X> Trie<X>
//@@ valcmp
//@@ params trie, elt, i
    ensures finds(*trie, *elt, i, r),
//@@ entry
    broadcast use {b_finds_view, b_finds_up};
    proof { parity(i); }
//@ cfn Trie::is_empty@TrieElim
//@@ impl <X> Trie<X>
//@@ params trie
    ensures r == (core(*trie) is Nil), r ==> telems(*trie) == Seq::<X>::empty(),
//@@ entry
    proof { core_facts(*trie); }
//@ cfn Set::mem@SetElim
//@@ impl <X> Trie<X>
//@@ params set, elt
    ensures r ==> telems(*set).contains(*elt), placed(*set, 0) ==> (r <==> telems(*set).contains(*elt)),
//@ cfn Set::empty@SetIntro
//@@ impl <X> Trie<X>
//@@ rename set_empty
    ensures telems(r) == Seq::<X>::empty(), placed(r, 0), core(r) is Nil,
//@ end

// ---- folding, first element first
pub open spec fn lfold<X, Res, F: Fn(X, Res) -> Res>(f: F, xs: Seq<X>, init: Res, r: Res) -> bool decreases xs.len() {
    if xs.len() == 0 { r == init } else { exists|m: Res| lfold(f, xs.drop_last(), init, m) && #[trigger] call_ensures(f, (xs.last(), m), r) }
}
pub proof fn lfold_app<X, Res, F: Fn(X, Res) -> Res>(f: F, xs: Seq<X>, ys: Seq<X>, init: Res, m: Res, r: Res)
    requires lfold(f, xs, init, m), lfold(f, ys, m, r),
    ensures lfold(f, xs + ys, init, r),
    decreases ys.len(),
{
    if ys.len() == 0 { assert(xs + ys =~= xs); }
    else {
        let k = choose|k: Res| lfold(f, ys.drop_last(), m, k) && #[trigger] call_ensures(f, (ys.last(), k), r);
        lfold_app(f, xs, ys.drop_last(), init, m, k);
        assert((xs + ys).drop_last() =~= xs + ys.drop_last());
        assert(call_ensures(f, ((xs + ys).last(), k), r));
    }
}
pub broadcast proof fn b_lfold_app<X, Res, F: Fn(X, Res) -> Res>(f: F, xs: Seq<X>, ys: Seq<X>, init: Res, m: Res, r: Res)
    ensures #[trigger] lfold(f, xs, init, m) && #[trigger] lfold(f, ys, m, r) ==> lfold(f, xs + ys, init, r),
{ if lfold(f, xs, init, m) && lfold(f, ys, m, r) { lfold_app(f, xs, ys, init, m, r); } }
pub broadcast proof fn b_lfold_one<X, Res, F: Fn(X, Res) -> Res>(f: F, x: X, init: Res, r: Res)
    ensures call_ensures(f, (x, init), r) ==> #[trigger] lfold(f, seq![x], init, r),
{
    let s = seq![x];
    if call_ensures(f, (x, init), r) { assert(s.drop_last() =~= Seq::<X>::empty()); assert(lfold(f, s.drop_last(), init, init)); assert(call_ensures(f, (s.last(), init), r)); }
}
//@ cfn Set::fold@SetElim
//@@ impl <X> Trie<X>
//@@ gens X, Res
//@@ params set, res, f
    requires forall|x: X, m: Res| call_requires(*f, (x, m)),
    ensures lfold(*f, telems(set), res, r),
//@@ entry
    broadcast use {b_lfold_app, b_lfold_one};
//@ cfn trie_fold
//@@ params t, res, f
    requires forall|x: X, m: Res| call_requires(*f, (x, m)),
    ensures lfold(*f, telems(t), res, r),
//@@ entry
    broadcast use {b_lfold_app, b_lfold_one};
//@ end

// ---- splitting
/// the leaf, where the bits of its hash say it is
pub open spec fn at<X>(bs: BS, x: X) -> bool { wf(bs) && bs.value == hx(x) & mask(bs.length as int) }
/// the wider prefix is a prefix of the hash exactly if its last bit is the bit of the hash
pub proof fn wider(v: i64, w: i64, h: i64, n: int)
    requires 0 <= n < 62, v == h & mask(n), w & mask(n + 1) == w, w & mask(n) == v,
    ensures (w & h == w) <==> (has(w, n) ==> has(h, n)), (has(w, n) <==> has(h, n)) ==> w == h & mask(n + 1),
{
    let u = n as u64; let u1 = (n + 1) as u64;
    assert(u < 62 && u1 == add(u, 1) ==> 0 < (1i64 << u) && 0 < (1i64 << u1)) by(bit_vector);
    let m = mask(n); let m1 = mask(n + 1);
    assert(m == sub(1i64 << u, 1)); assert(m1 == sub(1i64 << u1, 1));
    assert(u < 62 && u1 == add(u, 1) && m == sub(1i64 << u, 1) && m1 == sub(1i64 << u1, 1) && v == h & m && w & m1 == w && w & m == v
        ==> ((w & h == w) <==> ((w & (1i64 << u)) == 0 || (h & (1i64 << u)) != 0))) by(bit_vector);
    assert(u < 62 && u1 == add(u, 1) && m == sub(1i64 << u, 1) && m1 == sub(1i64 << u1, 1) && v == h & m && w & m1 == w && w & m == v
        && ((w & (1i64 << u)) != 0 <==> (h & (1i64 << u)) != 0) ==> w == h & m1) by(bit_vector);
}
//@ cfn suffix
//@@ params bs, k
    ensures r == (bs.value & k == bs.value),
//@ cfn Trie::split_atomic@TrieElim
//@@ impl <X> Trie<X>
//@@ params trie
    requires trie is Nil || trie is Bin || (trie is Leaf && at(trie->Leaf_0, trie->Leaf_1) && trie->Leaf_0.length < 62),
    ensures !(trie is Leaf) ==> r == trie,
        trie is Leaf ==> r is Bin && r->Bin_0 == trie->Leaf_0 && telems(r) =~= seq![trie->Leaf_1] && placed(r, trie->Leaf_0.length as nat),
        trie is Leaf ==> (match *r->Bin_1 { Trie::Leaf(b, x) => at(b, x) && b.length == trie->Leaf_0.length + 1, Trie::Nil(b) => wf(b) && b.length == trie->Leaf_0.length + 1 && !(has(b.value, trie->Leaf_0.length as int)) && b.value & mask(trie->Leaf_0.length as int) == trie->Leaf_0.value, _ => false }),
        trie is Leaf ==> (match *r->Bin_2 { Trie::Leaf(b, x) => at(b, x) && b.length == trie->Leaf_0.length + 1, Trie::Nil(b) => wf(b) && b.length == trie->Leaf_0.length + 1 && has(b.value, trie->Leaf_0.length as int) && b.value & mask(trie->Leaf_0.length as int) == trie->Leaf_0.value, _ => false }),
//@@ entry
    proof { if trie is Leaf {
        let n = trie->Leaf_0.length as int; let v = trie->Leaf_0.value; let h = hx(trie->Leaf_1);
        mask_facts(n, v); odd_has(h, n as nat); reveal_with_fuel(telems, 3); reveal_with_fuel(placed, 3);
        assert forall|w: i64| #[trigger] (w & mask(n)) == v && w & mask(n + 1) == w implies ((w & h == w) <==> (has(w, n) ==> has(h, n))) && ((has(w, n) <==> has(h, n)) ==> w == h & mask(n + 1)) by { wider(v, w, h, n); }
    } }
//@ end
} // mod fns
fn main() {}
} // verus!
