//! Collections: lists, trees, sorting, tries, association lists, against
//! plain-vector oracles, under the naive engine and (incrementally, over a
//! sequence of edits of the input) under the DCG engine.
use crate::rng::Rng;
use crate::Case;
use adapton::catalog::bitstring::BS;
use adapton::catalog::collections::*;
use adapton::catalog::collections::trie;
use adapton::catalog::collections::trie::{Meta, Trie, TrieElim, TrieIntro};
use adapton::engine::manage::*;
use adapton::engine::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

macro_rules! bail { ($($x:tt)*) => { return Err(format!($($x)*)) } }
macro_rules! same { ($what:expr, $a:expr, $b:expr) => {{ let (a, b) = ($a, $b); if a != b { bail!("{}: got {:?}, expected {:?}", $what, a, b) } }} }
fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

type E = NameElse<i64>;
type L = List<i64>;
type T = Tree<i64>;
fn elems(v: &[E]) -> Vec<i64> { v.iter().filter_map(|e| match e { NameElse::Else(x) => Some(*x), _ => None }).collect() }
fn sp<R>(s: &'static str, f: impl FnOnce() -> R) -> R { ns(name_of_str(s), f) }
fn vl(l: L) -> Vec<E> { vec_of_list(l, None) }

fn gen(r: &mut Rng, n: usize, range: i64, density: usize) -> Vec<E> {
    let mut v = vec![]; let mut k = 1;
    for _ in 0..n {
        if r.chance(density) { v.push(NameElse::Name(name_of_usize(k))); k += 1 } else { v.push(NameElse::Else(r.val(range))) }
    }
    v
}
fn edit(r: &mut Rng, v: &mut Vec<E>, range: i64) {
    for _ in 0..1 + r.below(3) {
        let fresh = (1..10_000).find(|k| !v.contains(&NameElse::Name(name_of_usize(*k)))).unwrap();
        let i = r.below(v.len() + 1);
        match r.below(4) {
            0 => v.insert(i, NameElse::Else(r.val(range))),
            1 => v.insert(i, NameElse::Name(name_of_usize(fresh))),
            2 => if i < v.len() { v.remove(i); },
            _ => if i < v.len() { if let NameElse::Else(_) = v[i] { v[i] = NameElse::Else(r.val(range)) } },
        }
    }
}
/// runs `f` on a sequence of edited inputs, under the naive engine or one DCG
fn rounds(seed: u64, max: usize, range: i64, f: impl Fn(&[E], &mut Rng) -> Result<(), String>) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let density = *[0, 20, 50, 80].iter().nth(r.below(4)).unwrap();
    let n = r.below(max + 1);
    let mut v = gen(&mut r, n, range, density);
    let dcg = r.chance(70);
    let k = if dcg { 1 + r.below(6) } else { 1 };
    if dcg { init_dcg(); } else { init_naive(); }
    for i in 0..k {
        let mut s = Rng::new(seed ^ 0x5555); // the same choices in each round
        f(&v, &mut s).map_err(|e| format!("{} engine, round {}, input {:?}: {}", if dcg { "DCG" } else { "naive" }, i, v, e))?;
        edit(&mut r, &mut v, range);
    }
    Ok(1 + (k as u64) * (v.len() as u64 > 2) as u64)
}
fn input(v: &[E]) -> L { sp("input", || list_of_vec(&v.to_vec())) }

// ---------------------------------------------------------------- L01
fn lists(seed: u64) -> Result<u64, String> {
    rounds(seed, 24, 9, |v, r| {
        let x = elems(v);
        let l = || input(v);
        same!("vec_of_list(list_of_vec)", vl(l()), v.to_vec());
        let k = 1 + r.below(v.len() + 3);
        same!(format!("demand of {}", k), list_demand(l(), k), v.iter().take(k).cloned().collect::<Vec<_>>());
        same!("is_empty", list_is_empty::<i64, L>(&l()), x.is_empty());
        same!("is_name", L::is_name(&l()), matches!(v.first(), Some(NameElse::Name(_))));
        let m: Vec<i64> = x.iter().map(|x| x * 3 + 1).collect();
        let f: Rc<fn(i64) -> i64> = Rc::new(|x| x * 3 + 1);
        same!("list_map_lazy", elems(&vl(sp("ml", || list_map_lazy::<i64, L, i64, L, _>(l(), f.clone())))), m.clone());
        let named: Vec<E> = v.iter().map(|e| match e { NameElse::Else(x) => NameElse::Else(x * 3 + 1), n => n.clone() }).collect();
        same!("list_map_eager", vl(sp("me", || list_map_eager::<i64, L, i64, L, _>(l(), f.clone()))), named);
        same!("list_map_eager2", elems(&vl(sp("me2", || list_map_eager2::<i64, L, i64, L, _>(l(), f.clone())))), m);
        let p: Rc<fn(&i64) -> bool> = Rc::new(|x| x % 3 != 0);
        let fl: Vec<i64> = x.iter().cloned().filter(|x| x % 3 != 0).collect();
        same!("list_filter_lazy", elems(&vl(sp("fl", || list_filter_lazy::<i64, L, L, _>(l(), p.clone())))), fl.clone());
        let nf: Vec<E> = v.iter().filter(|e| match e { NameElse::Else(x) => x % 3 != 0, _ => true }).cloned().collect();
        same!("list_filter_eager", vl(sp("fe", || list_filter_eager::<i64, L, L, _>(l(), p.clone()))), nf);
        // the other element type, the other function
        let g: Rc<fn(i64) -> Vec<i64>> = Rc::new(|x| vec![x, -x]);
        let mg: List<Vec<i64>> = sp("mg", || list_map_eager::<i64, L, Vec<i64>, List<Vec<i64>>, _>(l(), g.clone()));
        let mg: Vec<Vec<i64>> = vec_of_list(mg, None).into_iter().filter_map(|e| match e { NameElse::Else(x) => Some(x), _ => None }).collect();
        same!("list_map_eager to another type", mg, x.iter().map(|x| vec![*x, -*x]).collect::<Vec<_>>());
        let mut rv = x.clone(); rv.reverse();
        let suffix: Vec<E> = (0..r.below(4)).map(|i| NameElse::Else(100 + i as i64)).collect();
        let out = vl(sp("rev", || list_reverse::<i64, L, L>(l(), list_of_vec(&suffix))));
        let mut exp = rv.clone(); exp.extend(elems(&suffix));
        same!("list_reverse", elems(&out), exp);
        same!("list_fold", list_fold(l(), vec![], Rc::new(|x: i64, mut v: Vec<i64>| { v.push(x); v })), rv);
        let mut exp = x.clone(); exp.extend(elems(&suffix));
        same!("list_append", elems(&vl(list_append(l(), list_of_vec(&suffix)))), exp);
        same!("list_push", elems(&vl(list_push(l(), 77))), std::iter::once(77).chain(x.iter().cloned()).collect::<Vec<_>>());
        if let Some(h) = x.first() {
            let (a, rest) = list_pop(l());
            same!("list_pop", a, *h);
            let at = v.iter().position(|e| matches!(e, NameElse::Else(_))).unwrap();
            same!("rest of list_pop", vl(rest), v[at + 1..].to_vec());
        }
        let n = r.below(12);
        let gl: L = sp("gen", || list_gen(n, |i| i as i64 * 2));
        let exp: Vec<E> = (0..n).flat_map(|i| vec![NameElse::Else(i as i64 * 2), NameElse::Name(name_of_usize(i))]).collect();
        same!("list_gen", vl(gl), exp);
        same!("singleton", vl(L::singleton(5)), vec![NameElse::Else(5)]);
        same!("name_art", vl(sp("na", || L::name_art(Some(name_of_usize(9)), L::singleton(5)))), vec![NameElse::Name(name_of_usize(9)), NameElse::Else(5)]);
        same!("name_art", vl(L::name_art(None, L::singleton(5))), vec![NameElse::Else(5)]);
        Ok(())
    })
}
/// map over a mapped list, demanded partially, then edited
fn list_pipes(seed: u64) -> Result<u64, String> {
    rounds(seed, 40, 9, |v, r| {
        let x = elems(v);
        let f: Rc<fn(i64) -> i64> = Rc::new(|x| x + 1);
        let p: Rc<fn(&i64) -> bool> = Rc::new(|x| x % 2 == 0);
        let l1: L = sp("p1", || list_map_eager::<i64, L, i64, L, _>(input(v), f.clone()));
        let l2: L = sp("p2", || list_filter_eager::<i64, L, L, _>(l1, p.clone()));
        let l3: L = sp("p3", || list_map_lazy::<i64, L, i64, L, _>(l2, f.clone()));
        let k = 1 + r.below(6);
        let exp: Vec<i64> = x.iter().map(|x| x + 1).filter(|x| x % 2 == 0).map(|x| x + 1).collect();
        same!("the first elements of a pipeline", elems(&list_demand(l3.clone(), k)), exp.iter().take(k).cloned().collect::<Vec<_>>());
        same!("a pipeline", elems(&vl(l3)), exp);
        Ok(())
    })
}

// ---------------------------------------------------------------- T01
fn dir(b: bool) -> Dir2 { if b { Dir2::Left } else { Dir2::Right } }
fn has_nil(t: &T) -> bool {
    match t { Tree::Nil => true, Tree::Leaf(_) => false, Tree::Bin(_, l, r) | Tree::Name(_, _, l, r) => has_nil(l) || has_nil(r), Tree::Art(a) => has_nil(&force(a)) }
}
fn flat(t: &T, out: &mut Vec<E>) {
    match t {
        Tree::Nil => {}
        Tree::Leaf(x) => out.push(NameElse::Else(*x)),
        Tree::Bin(_, l, r) => { flat(l, out); flat(r, out) }
        Tree::Name(n, _, l, r) => { flat(l, out); out.push(NameElse::Name(n.clone())); flat(r, out) }
        Tree::Art(a) => flat(&force(a), out),
    }
}
fn flatv(t: &T) -> Vec<E> { let mut o = vec![]; flat(t, &mut o); o }
/// the level of each binary node bounds the levels of the nodes below it
fn levels_ok(t: &T, max: usize) -> bool {
    match t {
        Tree::Nil | Tree::Leaf(_) => true,
        Tree::Bin(k, l, r) | Tree::Name(_, k, l, r) => *k <= max && levels_ok(l, *k) && levels_ok(r, *k),
        Tree::Art(a) => levels_ok(&force(a), max),
    }
}
fn trees(seed: u64) -> Result<u64, String> {
    rounds(seed, 40, 50, |v, r| {
        let d = r.chance(50);
        let mut v = v.to_vec();
        let t: T = sp("tol", || tree_of_list::<usize, i64, T, L>(dir(d), input(&v)));
        if !d { v.reverse() } // a tree built from the right
        let x = elems(&v);
        same!("in-order traversal of tree_of_list", flatv(&t), v.clone());
        if !levels_ok(&t, usize::max_value()) { bail!("a level is above its parent's in {:?}", t) }
        same!("list_of_tree left", vl(sp("lot1", || list_of_tree::<usize, i64, L, T>(t.clone(), Dir2::Left))), v.clone());
        let mut w = v.clone(); w.reverse();
        same!("list_of_tree right", vl(sp("lot2", || list_of_tree::<usize, i64, L, T>(t.clone(), Dir2::Right))), w);
        same!("is_empty", <T as TreeElim<usize, i64>>::is_empty(&t), x.is_empty());
        let seq = sp("seq", || tree_fold_seq(t.clone(), Dir2::Left, vec![], Rc::new(|x: i64, mut v: Vec<i64>| { v.push(x); v }), Rc::new(|_: usize, v: Vec<i64>| v), Rc::new(|_: Name, _: usize, v: Vec<i64>| v)));
        same!("tree_fold_seq left", seq, x.clone());
        let mut rx = x.clone(); rx.reverse();
        let seq = sp("seq2", || tree_fold_seq(t.clone(), Dir2::Right, vec![], Rc::new(|x: i64, mut v: Vec<i64>| { v.push(x); v }), Rc::new(|_: usize, v: Vec<i64>| v), Rc::new(|_: Name, _: usize, v: Vec<i64>| v)));
        same!("tree_fold_seq right", seq, rx);
        let up = sp("up", || tree_fold_up(t.clone(), Rc::new(|| vec![]), Rc::new(|x: i64| vec![NameElse::Else(x)]), Rc::new(|_: usize, mut l: Vec<E>, r: Vec<E>| { l.extend(r); l }), Rc::new(|n: Name, _: usize, mut l: Vec<E>, r: Vec<E>| { l.push(NameElse::Name(n)); l.extend(r); l })));
        same!("tree_fold_up", up, v.clone());
        // the name handed down is the closest name to the left
        let dn = sp("dn", || tree_fold_up_nm_dn(t.clone(), None, Rc::new(|_| vec![]), Rc::new(|_, x: i64| vec![x]), Rc::new(|_, _: usize, mut l: Vec<i64>, r: Vec<i64>| { l.extend(r); l }), Rc::new(|_, _n: Name, _: usize, mut l: Vec<i64>, r: Vec<i64>| { l.extend(r); l })));
        same!("tree_fold_up_nm_dn", dn, x.clone());
        let dn = sp("dn2", || tree_fold_up_nm_dn(t.clone(), Some(name_of_usize(12345)),
            Rc::new(|n: Option<Name>| n.into_iter().collect::<Vec<_>>()), Rc::new(|n: Option<Name>, _: i64| n.into_iter().collect::<Vec<_>>()),
            Rc::new(|_, _: usize, mut l: Vec<Name>, r: Vec<Name>| { l.extend(r); l }), Rc::new(|_, _n: Name, _: usize, mut l: Vec<Name>, r: Vec<Name>| { l.extend(r); l })));
        let mut names = vec![name_of_usize(12345)];
        names.extend(v.iter().filter_map(|e| match e { NameElse::Name(n) => Some(n.clone()), _ => None }));
        same!("the names handed down by tree_fold_up_nm_dn", dn, names);
        same!("monoid_of_tree sum", sp("m1", || monoid_of_tree::<usize, i64, T>(t.clone(), 0, Rc::new(|a, b| a + b))), x.iter().sum::<i64>());
        same!("monoid_of_tree max", sp("m2", || monoid_of_tree::<usize, i64, T>(t.clone(), -1, Rc::new(|a, b| if a > b { a } else { b }))), x.iter().cloned().max().unwrap_or(-1));
        // "first": associative, not commutative
        same!("monoid_of_tree first", sp("m3", || monoid_of_tree::<usize, i64, T>(t.clone(), -1, Rc::new(|a, b| if a == -1 { b } else { a }))), x.first().cloned().unwrap_or(-1));
        let e: T = sp("eager", || eager_tree_of_tree::<usize, i64, T, T>(t.clone()));
        same!("eager_tree_of_tree", flatv(&e), v.clone());
        fn arts(t: &T) -> bool { match t { Tree::Art(_) => true, Tree::Bin(_, l, r) | Tree::Name(_, _, l, r) => arts(l) || arts(r), _ => false } }
        if arts(&e) { bail!("eager_tree_of_tree leaves an articulation in {:?}", e) }
        let p: T = sp("prune", || prune_tree_of_tree::<usize, i64, T, T>(t.clone()));
        same!("elements of prune_tree_of_tree", elems(&flatv(&p)), x.clone());
        if !x.is_empty() && has_nil(&p) { bail!("prune_tree_of_tree leaves an empty subtree in {:?}", p) }
        let m = 2 + r.below(4) as i64;
        let fx: Vec<i64> = x.iter().cloned().filter(|x| x % m != 0).collect();
        let ft: T = sp("ftt", || filter_tree_of_tree::<usize, i64, T, T>(t.clone(), Box::new(move |x| x % m != 0)));
        same!("elements of filter_tree_of_tree", elems(&flatv(&ft)), fx.clone());
        let fl: L = sp("flt", || filter_list_of_tree::<usize, i64, L, T>(t.clone(), Box::new(move |x| x % m != 0)));
        let out = vl(fl);
        same!("elements of filter_list_of_tree", elems(&out), fx.clone());
        // exactly one name, one of the original ones, between elements that were separated by one
        let groups = |v: &[E], keep: &dyn Fn(i64) -> bool| -> Vec<Vec<Name>> {
            let mut g = vec![vec![]];
            for e in v { match e { NameElse::Name(n) => g.last_mut().unwrap().push(n.clone()), NameElse::Else(x) => if keep(*x) { g.push(vec![]) } } }
            g
        };
        let (g0, g1) = (groups(&v, &|x| x % m != 0), groups(&out, &|_| true));
        for i in 1..g0.len().saturating_sub(1) {
            if g1[i].len() != (!g0[i].is_empty()) as usize { bail!("filter_list_of_tree keeps {:?} of the names {:?}", g1[i], g0[i]) }
        }
        for i in 0..g0.len() { for n in &g1[i] { if !g0[i].contains(n) { bail!("filter_list_of_tree inserts {:?}", n) } } }
        Ok(())
    })
}
/// chunks of elements under few names, large ones, so that levels nest deeply
fn big_trees(seed: u64) -> Result<u64, String> {
    rounds(seed, 400, 1000, |v, r| {
        let x = elems(v);
        let d = r.chance(50);
        let t: T = sp("tol", || tree_of_list::<usize, i64, T, L>(dir(d), input(v)));
        if !levels_ok(&t, usize::max_value()) { bail!("a level is above its parent's") }
        let back = sp("lot", || list_of_tree::<usize, i64, L, T>(t.clone(), dir(d)));
        same!("list_of_tree(tree_of_list)", vl(back), v.to_vec());
        same!("sum", sp("m1", || monoid_of_tree::<usize, i64, T>(t.clone(), 0, Rc::new(|a, b| a + b))), x.iter().sum::<i64>());
        Ok(())
    })
}

// ---------------------------------------------------------------- S01
fn sorting(seed: u64) -> Result<u64, String> {
    rounds(seed, 60, 30, |v, r| {
        let mut x = elems(v); x.sort();
        let t: T = sp("tol", || tree_of_list::<usize, i64, T, L>(dir(r.chance(50)), input(v)));
        let t = if r.chance(50) { sp("prune", || prune_tree_of_tree::<usize, i64, T, T>(t)) } else { t };
        let nm = if r.chance(50) { Some(name_of_usize(66666)) } else { None };
        let s: L = match r.below(3) {
            0 => sp("sort1", || mergesort_list_of_tree::<i64, usize, T, L>(t)),
            1 => sp("sort2", || mergesort_list_of_tree2::<i64, usize, T, L>(t, nm)),
            _ => sp("sort3", || mergesort_list_of_tree3::<i64, usize, T, L>(t, nm)),
        };
        let k = 1 + r.below(8);
        let few = elems(&list_demand(s.clone(), k));
        same!("the first elements of the sorted list", few.clone(), x.iter().take(few.len()).cloned().collect::<Vec<_>>());
        same!("sorted list", elems(&vl(s)), x);
        Ok(())
    })
}
fn merging(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    if r.chance(60) { init_dcg(); } else { init_naive(); }
    let mut k = 1;
    let mut sorted = |r: &mut Rng| -> Vec<E> {
        let mut xs: Vec<i64> = (0..r.below(14)).map(|_| r.val(12)).collect(); xs.sort();
        let mut out = vec![];
        for x in xs { if r.chance(30) { out.push(NameElse::Name(name_of_usize(k))); k += 1 } out.push(NameElse::Else(x)) }
        out
    };
    let (a, b) = (sorted(&mut r), sorted(&mut r));
    let mut x = elems(&a); x.extend(elems(&b)); x.sort();
    let opt = |r: &mut Rng, k: usize| if r.chance(50) { Some(name_of_usize(k)) } else { None };
    let (n1, n2) = (opt(&mut r, 5001), opt(&mut r, 5002));
    let la: L = sp("a", || list_of_vec(&a)); let lb: L = sp("b", || list_of_vec(&b));
    let m: L = if r.chance(50) { list_merge(n1, la, n2, lb) } else { list_merge_wrapper(n1, la, n2, lb) };
    same!(format!("merge of {:?} and {:?}", a, b), elems(&vl(m)), x.clone());
    // elements that are equal but distinguishable: none may be lost or doubled
    let p: Vec<(i64, i64)> = (0..r.below(10)).map(|i| (r.val(3), i as i64)).collect();
    let v: Vec<NameElse<(i64, i64)>> = p.iter().enumerate().flat_map(|(i, x)| vec![NameElse::Else(*x), NameElse::Name(name_of_usize(7000 + i))]).collect();
    let l: List<(i64, i64)> = sp("pl", || list_of_vec(&v));
    let t: Tree<(i64, i64)> = sp("pt", || tree_of_list::<usize, _, _, List<(i64, i64)>>(Dir2::Left, l));
    let s: List<(i64, i64)> = sp("ps", || mergesort_list_of_tree2(t, None));
    let got: Vec<(i64, i64)> = vec_of_list(s, None).into_iter().filter_map(|e| match e { NameElse::Else(x) => Some(x), _ => None }).collect();
    let mut exp = p.clone(); exp.sort();
    same!("sorted pairs", got, exp);
    Ok(1 + x.len() as u64)
}

// ---------------------------------------------------------------- T02
/// a trie of the given elements in which each element sits at the position given by its hash
fn build(r: &mut Rng, xs: &[i64], bs: BS, k: &mut usize) -> Trie<i64> {
    let t = if xs.is_empty() && r.chance(70) { Trie::nil(bs) }
        else if xs.len() == 1 && r.chance(70) || bs.length >= 20 && xs.len() == 1 { Trie::leaf(bs, xs[0]) }
        else if bs.length >= 20 { Trie::nil(bs) }
        else {
            let (a, b): (Vec<i64>, Vec<i64>) = xs.iter().partition(|x| (hash(*x) >> bs.length) & 1 == 0);
            let l = build(r, &a, BS { length: bs.length + 1, value: bs.value }, k);
            let rr = build(r, &b, BS { length: bs.length + 1, value: bs.value | (1 << bs.length) }, k);
            Trie::bin(bs, l, rr)
        };
    match r.below(6) {
        0 => { *k += 1; let n = name_of_usize(*k); Trie::name(n.clone(), Trie::art(cell(n, t))) }
        1 => { *k += 1; Trie::art(cell(name_pair(name_of_str("only art"), name_of_usize(*k)), t)) }
        2 if bs.length == 0 => Trie::root(Meta { min_depth: 1 }, t),
        _ => t,
    }
}
fn tries(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    if r.chance(60) { init_dcg(); } else { init_naive(); }
    let mut xs: Vec<i64> = vec![];
    let n = r.below(12);
    while xs.len() < n { let x = r.val(40); if !xs.contains(&x) { xs.push(x) } }
    for round in 0..1 + r.below(3) {
        let mut k = 0;
        let mut rs = Rng::new(seed ^ 99);
        let t = sp("trie", || build(&mut rs, &xs, BS { length: 0, value: 0 }, &mut k));
        let what = |s: &str| format!("{} in round {}, {:?} in {:?}", s, round, xs, t);
        for x in 0..40 {
            let exp = if xs.contains(&x) { Some(x) } else { None };
            same!(what(&format!("find {}", x)), <Trie<i64> as TrieElim<i64>>::find(&t, &x, hash(&x) as i64), exp);
            same!(what(&format!("membership of {}", x)), <Trie<i64> as trie::SetElim<i64>>::mem(&t, &x), exp.is_some());
        }
        let f = Rc::new(|x: i64, mut v: Vec<i64>| { v.push(x); v });
        let a = sp("fold", || trie::trie_fold(t.clone(), vec![], f.clone()));
        let b = <Trie<i64> as trie::SetElim<i64>>::fold(t.clone(), vec![], f);
        same!(what("the two folds"), a.clone(), b);
        let mut a = a; a.sort(); let mut ys = xs.clone(); ys.sort();
        same!(what("fold"), a, ys);
        if xs.is_empty() {} else if TrieElim::is_empty(&t) { bail!("{}", what("is_empty")) }
        if xs.len() > 1 { let i = r.below(xs.len()); xs.remove(i); }
        let x = r.val(40); if !xs.contains(&x) { xs.push(x) }
    }
    if !TrieElim::<i64>::is_empty(&<Trie<i64> as TrieIntro<i64>>::empty(Meta { min_depth: 1 + r.below(30) as i64 })) { bail!("the empty trie is not empty") }
    // splitting a leaf keeps its element findable, and nothing else
    for _ in 0..20 {
        let x = r.val(1000); let d = r.below(30) as i64;
        let h = hash(&x) as i64;
        let bs = BS { length: d, value: h & ((1 << d) - 1) };
        let t = Trie::split_atomic(Trie::leaf(bs, x));
        same!(format!("find {} in {:?}", x, t), <Trie<i64> as TrieElim<i64>>::find(&t, &x, h >> d), Some(x));
        let y = r.val(1000);
        if y != x { same!(format!("find {} in {:?}", y, t), <Trie<i64> as TrieElim<i64>>::find(&t, &y, hash(&y) as i64 >> d), None) }
        if let Trie::Bin(b, l, rr) = &t {
            same!("prefix", *b, bs);
            for (k, s) in [l, rr].iter().enumerate() {
                let b = match &***s { Trie::Nil(b) | Trie::Leaf(b, _) => *b, o => bail!("split into {:?}", o) };
                same!(format!("prefix of side {} of the split of {:?}", k, bs), b, BS { length: d + 1, value: bs.value | ((k as i64) << d) });
            }
        } else { bail!("a split leaf is {:?}", t) }
    }
    Ok(1 + n as u64)
}

// ---------------------------------------------------------------- A01
fn assoc(seed: u64) -> Result<u64, String> {
    type M = List<(i64, i64)>;
    let mut r = Rng::new(seed);
    if r.chance(60) { init_dcg(); } else { init_naive(); }
    let mut m: M = map_empty::<i64, i64, M>();
    let mut model: Vec<(i64, i64)> = vec![];
    let mut set: List<(i64, ())> = <List<(i64, ())> as MapIntro<i64, ()>>::empty();
    let n = r.below(30);
    for i in 0..n {
        let (k, v) = (r.val(8), r.val(100));
        m = map_update(m, k, v); model.push((k, v));
        if r.chance(30) { for j in 0..1 + r.below(4) { let n = name_pair(name_of_usize(i), name_of_usize(j)); m = if r.chance(50) { List::Name(n, Box::new(m)) } else { List::Art(cell(n, m)) } } }
        if r.chance(20) { for j in 0..1 + r.below(4) { let n = name_pair(name_of_usize(i), name_of_usize(100 + j)); set = if r.chance(50) { List::Name(n, Box::new(set)) } else { List::Art(cell(n, set)) } } }
        set = <List<(i64, ())> as SetIntro<i64>>::add(set, k);
        for k in 0..9 {
            let exp = model.iter().rev().find(|(d, _)| *d == k).map(|x| x.1);
            same!(format!("lookup of {} after {:?}", k, model), map_find(&m, &k), exp);
            same!(format!("membership of {} after {:?}", k, model), <List<(i64, ())> as SetElim<i64>>::is_mem(&set, &k), exp.is_some());
        }
    }
    let all = map_fold(m, vec![], Rc::new(|k: i64, v: i64, mut a: Vec<(i64, i64)>| { a.push((k, v)); a }));
    same!("fold over the bindings", all, model.clone());
    let ks = <List<(i64, ())> as SetElim<i64>>::fold(set.clone(), vec![], |k, mut a: Vec<i64>| { a.push(k); a });
    same!("fold over the elements", ks, model.iter().map(|x| x.0).collect::<Vec<_>>());
    // intersection
    let mut other = <List<(i64, ())> as MapIntro<i64, ()>>::empty();
    let o: Vec<i64> = (0..r.below(8)).map(|_| r.val(10)).collect();
    for x in &o { other = <List<(i64, ())> as SetIntro<i64>>::add(other, *x) }
    let both = <List<(i64, ())> as SetIntro<i64>>::inter(set, other);
    for k in 0..10 { same!(format!("{} in the intersection", k), <List<(i64, ())> as SetElim<i64>>::is_mem(&both, &k), model.iter().any(|x| x.0 == k) && o.contains(&k)) }
    Ok(1 + n as u64)
}

pub fn cases(p: &str) -> Vec<(&'static str, Case)> {
    match p {
        "L01" => vec![("lists", lists as Case), ("list_pipes", list_pipes)],
        "T01" => vec![("trees", trees as Case), ("big_trees", big_trees)],
        "S01" => vec![("sorting", sorting as Case), ("merging", merging)],
        "T02" => vec![("tries", tries as Case)],
        "A01" => vec![("assoc", assoc as Case)],
        _ => vec![],
    }
}
