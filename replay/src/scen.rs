//! Scenario checks: identity of allocations, namespaces, cycles, dynamic
//! types, names, reflection, bit strings.
use crate::core::{num, slot_name};
use crate::rng::Rng;
use crate::Case;
use adapton::catalog::bitstring::{BitString, BS};
use adapton::engine::manage::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use adapton::prog_pt;
use adapton::reflect;
use adapton::reflect::trace::{AllocCase, AllocKind, ChangeFlag, Effect, ForceCase, Trace};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

macro_rules! bail { ($($x:tt)*) => { return Err(format!($($x)*)) } }
macro_rules! ensure { ($c:expr, $($x:tt)*) => { if !($c) { bail!($($x)*) } } }
fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn panics<T>(f: impl FnOnce() -> T) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

thread_local!(static RUNS: RefCell<Vec<i64>> = RefCell::new(vec![]));
fn ran(x: i64) { RUNS.with(|r| r.borrow_mut().push(x)) }
fn runs() -> Vec<i64> { RUNS.with(|r| std::mem::replace(&mut *r.borrow_mut(), vec![])) }
fn th<A: Hash + Eq + std::fmt::Debug + Clone + 'static, R: Hash + Eq + std::fmt::Debug + Clone + 'static>(id: NameChoice, p: &'static str, a: A, f: impl Fn(A) -> R + 'static) -> Art<R> {
    thunk(id, prog_pt!(p), Rc::new(Box::new(move |a: A, _: ()| f(a))), a, ())
}
fn nm(n: Name) -> NameChoice { NameChoice::Nominal(n) }
fn in_path<T>(p: &[usize], f: impl FnOnce() -> T) -> T {
    if p.is_empty() { f() } else { ns(name_of_usize(p[0]), || in_path(&p[1..], f)) }
}

// ---------------------------------------------------------------- E06
/// one location per namespace path and name; its content is the last one allocated there
fn identity(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg(); runs();
    let mut model: HashMap<(Vec<usize>, usize), (Art<i64>, i64)> = HashMap::new();
    let mut log: Vec<String> = vec![];
    let mut n = 0;
    // an observer of every location, demanded at the end and after random edits
    let res = (|| -> Result<(), String> {
        for _ in 0..(5 + r.below(30)) {
            let p: Vec<usize> = (0..r.below(3)).map(|_| r.below(2)).collect();
            let k = r.below(3); let x = r.val(6);
            let name = || if k == 0 { name_unit() } else { name_of_usize(k) };
            let key = (p.clone(), k);
            match r.below(5) {
                0 | 1 => {
                    log.push(format!("cell({:?}, {}, {})", p, k, x));
                    let a = in_path(&p, || cell(name(), x));
                    let old = model.insert(key.clone(), (a.clone(), x));
                    if let Some((o, _)) = old { ensure!(o == a, "cell {:?} does not reuse its location", key); ensure!(hash(&o) == hash(&a), "equal arts hash differently") }
                }
                2 => {
                    log.push(format!("thunk({:?}, {}, {})", p, k, x));
                    let a = in_path(&p, || th(nm(name()), "double", x, |x| { ran(x); 2 * x }));
                    let old = model.insert(key.clone(), (a.clone(), 2 * x));
                    if let Some((o, _)) = old { ensure!(o == a, "thunk {:?} does not reuse its location", key) }
                }
                3 => if let Some((a, v)) = model.get_mut(&key) {
                    let isc = is_cell(&key.0, k);
                    if isc { log.push(format!("set({:?}, {}, {})", p, k, x)); set(a, x); *v = x }
                },
                _ => {
                    // a thunk elsewhere that reads all of them
                    let arts: Vec<Art<i64>> = { let mut v: Vec<_> = model.iter().collect(); v.sort_by_key(|(k, _)| (*k).clone()); v.into_iter().map(|(_, (a, _))| a.clone()).collect() };
                    let exp: i64 = model.values().map(|(_, v)| *v).sum();
                    log.push("sum".into());
                    let s = th(nm(name_of_str("sum")), "sum", arts, |arts: Vec<Art<i64>>| arts.iter().map(|a| force(a)).sum::<i64>());
                    let got = force(&s);
                    ensure!(got == exp, "the sum of all locations is {} but should be {}", got, exp);
                }
            }
            n += 1;
            for (k1, (a1, _)) in &model { for (k2, (a2, _)) in &model { if k1 != k2 { ensure!(a1 != a2, "{:?} and {:?} share a location", k1, k2) } } }
        }
        for (k, (a, v)) in &model { let g = force(a); ensure!(g == *v, "location {:?} holds {} but the last allocation there gave {}", k, g, v) }
        // demanding again does not run anything; re-allocating with the same content neither
        runs();
        for (_, (a, v)) in &model { ensure!(force(a) == *v, "second demand differs") }
        ensure!(runs().is_empty(), "a second demand re-evaluated thunks");
        Ok(())
    })();
    init_naive();
    res.map(|_| n).map_err(|e| format!("{}\nhistory: {:#?}", e, log))
}
fn is_cell(p: &[usize], k: usize) -> bool {
    let d = reflect::dcg_reflect_now().unwrap();
    let path: Vec<Name> = p.iter().map(|x| name_of_usize(*x)).collect();
    let name = if k == 0 { name_unit() } else { name_of_usize(k) };
    match d.table.get(&reflect::Loc { path, name }) { Some(reflect::Node::Ref(_)) => true, _ => false }
}
/// re-allocation inside thunks: the same name in two generations of one thunk
fn realloc_inside(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg(); runs();
    let res = (|| -> Result<(), String> {
        let sel = cell(name_of_str("sel"), r.val(8));
        let inp = cell(name_of_str("inp"), r.val(8));
        let (s2, i2) = (sel.clone(), inp.clone());
        // the inner thunk's argument and the inner cell's content depend on `sel`
        let outer = th(nm(name_of_str("outer")), "outer", (), move |_| {
            let s = force(&s2); ran(100);
            let i3 = i2.clone();
            let c = cell(name_of_str("c"), s / 2);
            let c2 = c.clone();
            let inner = th(nm(name_of_str("inner")), "inner", (s % 2, c), move |(b, c)| { ran(200); let v = force(&i3); if b == 0 { v + force(&c) } else { v } });
            let _ = c2;
            (inner.clone(), force(&inner) * 10 + s)
        });
        let (mut sv, mut iv) = (force(&sel), force(&inp));
        let mut first: Option<Art<i64>> = None;
        let mut last: Option<(i64, i64)> = None;
        for _ in 0..(4 + r.below(10)) {
            match r.below(3) { 0 => { sv = r.val(8); set(&sel, sv) } 1 => { iv = r.val(8); set(&inp, iv) } _ => {} }
            runs();
            let (a, v) = force(&outer);
            let rs = runs();
            let exp = (iv + if sv % 2 == 0 { sv / 2 } else { 0 }) * 10 + sv;
            ensure!(v == exp, "sel {} inp {}: got {}, from scratch {}", sv, iv, v, exp);
            match &first { None => first = Some(a.clone()), Some(f) => ensure!(*f == a, "the inner thunk moved") }
            if let Some((ls, li)) = last {
                ensure!(rs.iter().filter(|x| **x == 100).count() <= 1 && rs.iter().filter(|x| **x == 200).count() <= 1, "evaluated twice: {:?}", rs);
                if ls == sv && li == iv { ensure!(rs.is_empty(), "nothing changed but {:?} ran", rs) }
                if li == iv && ls % 2 == sv % 2 && (sv % 2 == 1 || ls / 2 == sv / 2) { ensure!(!rs.contains(&200), "the inner thunk's argument and inputs are unchanged, but it ran again (sel {} -> {})", ls, sv) }
            }
            last = Some((sv, iv));
        }
        Ok(())
    })();
    init_naive();
    res.map(|_| 1)
}
/// cells and thunks take each other's places, outside and inside of computations
fn kind_swap(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg();
    let np = r.below(3);
    let path: Vec<usize> = (0..r.below(3)).map(|_| r.below(2)).collect();
    let alloc = move |is_thunk: bool, v: i64| -> Art<i64> { in_path(&path, || if is_thunk { th(nm(name_of_str("s")), "id", v, |v| v) } else { cell(name_of_str("s"), v) }) };
    let mut hist = vec![];
    let res = (|| -> Result<u64, String> {
        let mut content = r.val(5);
        let shared = alloc(r.chance(50), content);
        let (s1, s2, s3) = (shared.clone(), shared.clone(), shared.clone());
        let full = th(nm(name_of_str("full")), "full", (), move |_| force(&s1) * 2);
        let proj = th(nm(name_of_str("proj")), "proj", (), move |_| force_map(&s2, |_, v| v / 2));
        let both = th(nm(name_of_str("both")), "both", (), move |_| force_map(&s3, |_, v| v / 3) * 100 + force(&s3));
        let mut top = full.clone();
        for d in 0..np { let t = top.clone(); top = th(nm(name_pair(name_of_str("o"), name_of_usize(d))), "o", (), move |_| force(&t)); }
        let n = 2 + r.below(8);
        for step in 0..n {
            let look = r.below(16);
            if look & 1 == 0 { let v = force(&top); ensure!(v == content * 2, "an observer sees {} instead of {}", v, content * 2) }
            if look & 2 == 0 { let v = force(&proj); ensure!(v == content / 2, "a projection sees {} instead of {}", v, content / 2) }
            if look & 4 == 0 { let v = force(&both); ensure!(v == content / 3 * 100 + content, "a projection and a full demand see {} instead of {}", v, content / 3 * 100 + content) }
            let (k, inside, v) = (r.chance(50), r.chance(60), r.val(5));
            hist.push((look, k, inside, v));
            let a = if inside { let al = alloc.clone(); let deep = r.chance(50);
                let f = move |_: ()| al(k, v);
                let q = if deep { let g = Rc::new(f); th(nm(name_pair(name_of_str("q"), name_of_usize(step))), "q2", (), move |_| { let g = g.clone(); force(&th(nm(name_pair(name_of_str("qi"), name_of_usize(step))), "q", (), move |u| g(u))) }) }
                        else { th(nm(name_pair(name_of_str("q"), name_of_usize(step))), "q", (), f) };
                force(&q)
            } else { alloc(k, v) };
            ensure!(a == shared, "re-allocation moved"); content = v;
            let got = force(&shared); ensure!(got == v, "the location holds {} instead of {}", got, v);
        }
        let (a, b, c) = (force(&top), force(&proj), force(&both));
        ensure!((a, b, c) == (content * 2, content / 2, content / 3 * 100 + content), "the observers see {:?} but the location holds {}", (a, b, c), content);
        Ok(n as u64)
    })();
    init_naive();
    res.map_err(|e| format!("{}\nchain {} steps (demands, thunk, inside, content) {:?}", e, np, hist))
}
/// the spurious arguments and the function of a thunk belong to its argument: they follow it
fn companions(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let naive = r.chance(20);
    if naive { init_naive(); } else { init_dcg(); }
    let table: Vec<i64> = (0..4).map(|_| r.val(50)).collect();
    let scale: Vec<i64> = (0..4).map(|_| r.val(5)).collect();
    let mut hist = vec![];
    let res = (|| -> Result<u64, String> {
        let inp = cell(name_of_str("inp"), r.val(5)); let mut iv = force(&inp);
        let structural = r.chance(15);
        let n = 2 + r.below(10);
        for step in 0..n {
            let (k, a, inside, look) = (r.below(2), r.below(4), r.chance(40), r.chance(70));
            if !naive && r.chance(30) { iv = r.val(5); set(&inp, iv) }
            hist.push((k, a, inside, look, iv));
            let (i2, sp, sc) = (inp.clone(), table[a], scale[a]);
            let id = if structural { NameChoice::Structural } else { nm(name_pair(name_of_str("k"), name_of_usize(k))) };
            let id2 = id.clone();
            let mk = move || -> Art<i64> { let i3 = i2.clone(); thunk(id2.clone(), prog_pt!("companion"), Rc::new(Box::new(move |a: usize, s: Rc<dyn Fn(i64) -> i64>| s(a as i64 * sc) + force(&i3))), a, Rc::new(move |x: i64| x * 100 + sp)) };
            let want = a as i64 * sc * 100 + sp + iv;
            let t = if inside {
                let (t, v) = force(&th(nm(name_pair(name_of_str("w"), name_of_usize(step))), "w", look, move |l| { let t = mk(); let v = if l { force(&t) } else { want }; (t, v) }));
                ensure!(v == want, "step {}: inside of a computation the result is {} instead of {}", step, v, want); t
            } else { mk() };
            if look { let v = force(&t); ensure!(v == want, "step {}: the result is {} instead of {}", step, v, want) }
        }
        Ok(n as u64)
    })();
    init_naive();
    res.map_err(|e| format!("{}\nnaive {} companions {:?} factors {:?} steps (name, argument, inside, demand, input) {:?}", e, naive, table, scale, hist))
}
/// equality of unnamed and mapped thunks
fn art_equality(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg();
    let res = (|| -> Result<(), String> {
        let (x, y) = (r.val(5), r.val(5));
        let (a, b) = (put(x), put(y));
        ensure!((a == b) == (x == y), "put arts of {} and {} compare wrongly", x, y);
        let f = |p: &'static str, x: i64| th(NameChoice::Naive, p, x, |x| x + 1);
        ensure!((f("p", x) == f("p", y)) == (x == y), "naive thunks compare wrongly on arguments");
        ensure!(f("p", x) != f("q", x), "naive thunks of different program points compare equal");
        ensure!(hash(&f("p", x)) == hash(&f("p", x)), "equal naive thunks hash differently");
        let f2 = th(NameChoice::Naive, "p", (x as u8, 0u64, 7u8), |t| t.0 as i64);
        ensure!(f("p", x) != f2, "naive thunks of different argument types compare equal");
        let (c1, c2) = (cell(name_of_usize(1), x), cell(name_of_usize(2), y + 10));
        let g: Rc<dyn Fn(i64) -> i64> = Rc::new(|x| x + 1);
        let (m1, m2) = (thunk_map(c1.clone(), g.clone()), thunk_map(c2.clone(), g.clone()));
        ensure!(force(&m1) == x + 1 && force(&m2) == y + 11, "mapped thunks compute wrong values");
        ensure!(m1 != m2, "maps of different thunks compare equal");
        ensure!(m1 == thunk_map(c1.clone(), g.clone()), "maps of one thunk by one function differ");
        // as thunk arguments
        let run = |m: Art<i64>| force(&th(nm(name_of_str("user")), "user", m, |m| force(&m) * 2));
        let v1 = run(m1.clone()); let v2 = run(m2.clone());
        ensure!(v1 == 2 * (x + 1) && v2 == 2 * (y + 11), "a thunk over mapped thunks gave {} and {}", v1, v2);
        let xs: Vec<i64> = (0..40).map(|i| if i % 2 == 0 { r.next() as i64 } else { i }).collect();
        let ts: Vec<Art<i64>> = xs.iter().map(|x| f("p", *x)).collect();
        for i in 0..xs.len() { for j in 0..i { ensure!((ts[i] == ts[j]) == (xs[i] == xs[j]), "naive thunks on {} and {} compare wrongly", xs[i], xs[j]) } }
        set(&c2, y + 20); ensure!(run(m2) == 2 * (y + 21), "a change below a mapped thunk is missed");
        Ok(())
    })();
    init_naive(); res.map(|_| 1)
}

// ---------------------------------------------------------------- E07
fn structural_identity(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg(); runs();
    let mut n = 0;
    let res = (|| -> Result<(), String> {
        let inp: Vec<Art<i64>> = (0..3).map(|i| cell(name_pair(name_of_str("in"), name_of_usize(i)), r.val(9))).collect();
        let mut vals: Vec<i64> = inp.iter().map(|c| force(c)).collect();
        let mut seen: HashMap<(Vec<usize>, bool, usize, i64), Art<i64>> = HashMap::new();
        let mut cells: HashMap<(Vec<usize>, i64), Art<i64>> = HashMap::new();
        let mut last: HashMap<(Vec<usize>, bool, usize, i64), i64> = HashMap::new();
        for step in 0..(6 + r.below(20)) {
            n += 1;
            match r.below(6) {
                0 => { let i = r.below(3); vals[i] = r.val(9); set(&inp[i], vals[i]) }
                1 => {
                    // a structural cell is identified by its content only
                    let p: Vec<usize> = (0..r.below(2)).map(|_| r.below(2)).collect(); let v = r.val(4);
                    let a = in_path(&p, || structural(|| cell(name_of_usize(100 + step), v)));
                    ensure!(force(&a) == v, "a structural cell of {} holds {}", v, force(&a));
                    if let Some(b) = cells.get(&(p.clone(), v)) { ensure!(*b == a, "structural cells of equal content differ") }
                    for (k, b) in &cells { if *k != (p.clone(), v) { ensure!(*b != a, "structural cells of content/namespace {:?} and {:?} coincide", k, (&p, v)) } }
                    cells.insert((p, v), a);
                }
                _ => {
                    let p: Vec<usize> = (0..r.below(2)).map(|_| r.below(2)).collect();
                    let (i, x) = (r.below(3), r.val(3)); let other = r.chance(30); let under = r.chance(40);
                    let pt = if other { "mul" } else { "add" };
                    let inp2 = inp.clone();
                    let f = move |(i, x): (usize, i64)| { ran(i as i64); let v = force(&inp2[i]); if other { v * x } else { v + x } };
                    let a = in_path(&p, || if under { structural(|| th(nm(name_of_usize(step)), pt, (i, x), f)) } else { th(NameChoice::Structural, pt, (i, x), f) });
                    let key = (p, other, i, x);
                    if let Some(b) = seen.get(&key) { ensure!(*b == a, "structural thunks of equal program point and argument differ") }
                    for (k, b) in &seen { if *k != key { ensure!(*b != a, "structural thunks {:?} and {:?} coincide", k, key) } }
                    seen.insert(key.clone(), a.clone());
                    runs();
                    let got = force(&a); let rs = runs();
                    let exp = if key.1 { vals[i] * x } else { vals[i] + x };
                    ensure!(got == exp, "structural thunk {:?}: got {}, from scratch {}", key, got, exp);
                    ensure!(rs.len() <= 1, "evaluated more than once");
                    if last.get(&key) == Some(&vals[i]) { ensure!(rs.is_empty(), "a structural thunk was not shared: it ran again without a change") }
                    last.insert(key, vals[i]);
                }
            }
            // outside `structural` names count
            let (c1, c2) = (cell(name_of_str("a"), 1i64), cell(name_of_str("b"), 1i64));
            ensure!(c1 != c2, "names are ignored outside of structural regions");
        }
        // nested regions and inner namespaces
        let same = structural(|| { let a = structural(|| cell(name_of_usize(1), 5i64)); let b = cell(name_of_usize(2), 5i64); a == b });
        ensure!(same, "leaving an inner structural region ends the outer one");
        let c = cell(name_of_str("z1"), 5i64); let d = cell(name_of_str("z2"), 5i64);
        ensure!(c != d, "leaving a structural region does not restore names");
        Ok(())
    })();
    init_naive();
    res.map(|_| n)
}

// ---------------------------------------------------------------- E08
fn namespaces(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg(); runs();
    let res = (|| -> Result<(), String> {
        let x = r.val(9);
        let p: Vec<usize> = (0..1 + r.below(3)).map(|_| r.below(3)).collect();
        let q: Vec<usize> = (0..1 + r.below(3)).map(|_| 5 + r.below(3)).collect();
        let inp = cell(name_of_str("inp"), x);
        let i2 = inp.clone();
        // allocated in p; allocates a cell at its own namespace whenever it runs
        let q3 = q.clone();
        let t = in_path(&p, || th(nm(name_of_str("t")), "t", (), move |_| {
            let v = force(&i2);
            let a = cell(name_of_str("c"), v);
            let b = in_path(&q3, || cell(name_of_str("c"), v + 1));
            let c = cell(name_of_str("d"), v + 2);
            (a, b, c)
        }));
        let check = |(a, b, c): (Art<i64>, Art<i64>, Art<i64>), v: i64, why: &str| -> Result<(), String> {
            let ea = in_path(&p, || cell(name_of_str("c"), v));
            let pq: Vec<usize> = p.iter().chain(q.iter()).cloned().collect();
            let eb = in_path(&pq, || cell(name_of_str("c"), v + 1));
            let ec = in_path(&p, || cell(name_of_str("d"), v + 2));
            ensure!(a == ea && c == ec, "{}: a thunk allocates outside of its own namespace", why);
            ensure!(b == eb, "{}: a nested namespace of a thunk is not below the thunk's namespace", why);
            ensure!(force(&a) == v && force(&b) == v + 1 && force(&c) == v + 2, "{}: wrong contents", why);
            Ok(())
        };
        // demanded from some other namespace, which must be current again afterwards
        let before = cell(name_of_str("here"), 1i64);
        let (v, after) = in_path(&q, || { let here = cell(name_of_str("here"), 2i64); let v = force(&t); let h2 = cell(name_of_str("here"), 2i64); (v, here == h2) });
        ensure!(after, "demanding a thunk changes the current namespace");
        check(v, x, "first run")?;
        ensure!(before == cell(name_of_str("here"), 1i64), "the namespace is not restored");
        let y = x + 1 + r.val(5);
        set(&inp, y);
        // re-run during change propagation below another thunk in another namespace
        let t2 = t.clone();
        let u = in_path(&q, || th(nm(name_of_str("u")), "u", (), move |_| { let v = force(&t2); let h = cell(name_of_str("h"), 3i64); (v, h) }));
        let (v, h) = force(&u); check(v, y, "below another thunk")?;
        ensure!(h == in_path(&q, || cell(name_of_str("h"), 3i64)), "the demanding thunk continues in a foreign namespace");
        let z = y + 1 + r.val(5); set(&inp, z);
        let (v, h) = in_path(&[9], || force(&u)); check(v, z, "change propagation")?;
        ensure!(h == in_path(&q, || cell(name_of_str("h"), 3i64)), "the demanding thunk continues in a foreign namespace after propagation");
        let w = cell(name_of_str("here"), 1i64); ensure!(w == before, "the namespace is not restored after propagation");
        // re-entering a namespace reaches the same locations; different namespaces do not interfere
        let l1 = in_path(&p, || cell(name_of_str("k"), 10i64)); let l2 = in_path(&q, || cell(name_of_str("k"), 20i64)); let l3 = cell(name_of_str("k"), 30i64);
        ensure!(l1 == in_path(&p, || cell(name_of_str("k"), 10i64)), "re-entering a namespace reaches another location");
        ensure!(l1 != l2 && l2 != l3 && l1 != l3, "locations of different namespaces coincide");
        ensure!(force(&l1) == 10 && force(&l2) == 20 && force(&l3) == 30, "allocations in different namespaces interfere");
        let d = reflect::dcg_reflect_now().unwrap();
        ensure!(d.path.is_empty() && d.stack.is_empty(), "path or stack is not empty at the outer layer");
        Ok(())
    })();
    init_naive();
    res.map(|_| 1)
}

/// random nestings of namespaces, structural regions and demands against a model of path and mode
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Blk { Cell(usize), Ns(usize, Vec<Blk>), Struct(Vec<Blk>), Thunk(usize, Vec<Blk>), Demand(usize) }
fn bgen(r: &mut Rng, d: usize, next: &mut usize) -> Vec<Blk> {
    (0..1 + r.below(4)).map(|_| match if d == 0 { r.below(3) } else { r.below(8) } {
        0 | 1 => Blk::Cell(r.below(4)),
        2 => Blk::Demand(r.below(6)),
        3 | 4 => Blk::Ns(r.below(2), bgen(r, d - 1, next)),
        5 | 6 => Blk::Struct(bgen(r, d - 1, next)),
        _ => { *next += 1; let id = *next; Blk::Thunk(id, bgen(r, d - 1, next)) }
    }).collect()
}
type Key = (bool, Vec<usize>, usize);
#[derive(Default)]
struct BW { path: Vec<usize>, st: bool, arts: Vec<(Key, Art<i64>)>, ths: Vec<Option<(Art<i64>, Vec<usize>)>>, err: Option<String>, ran: Vec<(usize, Vec<usize>, bool)>, running: HashSet<usize> }
thread_local!(static BWS: RefCell<BW> = RefCell::new(BW::default()));
fn bw<T>(f: impl FnOnce(&mut BW) -> T) -> T { BWS.with(|x| f(&mut x.borrow_mut())) }
fn bprobe() {
    let got = reflect::dcg_reflect_now().unwrap().path;
    let exp: Vec<Name> = bw(|w| w.path.iter().map(|x| name_of_usize(*x)).collect());
    if got != exp { bw(|w| w.err.get_or_insert(format!("the current namespace is {:?}, but should be {:?}", got, exp)).len()); }
}
fn brun(bs: &[Blk]) {
    for b in bs {
        match b {
            Blk::Cell(k) => { let a = cell(name_of_usize(*k), 100 + *k as i64); bw(|w| { let key = (w.st, w.path.clone(), *k); w.arts.push((key, a)) }) }
            Blk::Ns(k, b) => { bw(|w| w.path.push(*k)); ns(name_of_usize(*k), || { bprobe(); brun(b) }); bw(|w| w.path.pop()); }
            Blk::Struct(b) => { let s = bw(|w| std::mem::replace(&mut w.st, true)); structural(|| brun(b)); bw(|w| w.st = s) }
            Blk::Thunk(id, b) => {
                let p = bw(|w| w.path.clone());
                let (p2, id2) = (p.clone(), *id);
                let body = move |t: (usize, Vec<Blk>)| {
                    let saved = bw(|w| { w.ran.push((id2, w.path.clone(), w.st)); w.running.insert(t.0); std::mem::replace(&mut w.path, p2.clone()) });
                    bprobe(); brun(&t.1);
                    bw(|w| { w.path = saved; w.running.remove(&t.0); }); 1i64 };
                let t = th(nm(name_pair(name_of_str("T"), name_of_usize(*id))), "body", (*id, b.clone()), body);
                bw(|w| { while w.ths.len() <= *id { w.ths.push(None) } w.ths[*id] = Some((t, p)) })
            }
            Blk::Demand(i) => {
                let t = bw(|w| { let n = w.ths.len(); if n == 0 { None } else { let i = *i % n; if w.running.contains(&i) { None } else { w.ths[i].clone() } } });
                if let Some((t, _)) = t { let _ = force(&t); bprobe() }
            }
        }
        bprobe();
    }
}
fn blocks(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let mut next = 0;
    let prog: Vec<Blk> = (0..2).flat_map(|_| bgen(&mut r, 4, &mut next)).collect();
    BWS.with(|x| *x.borrow_mut() = BW::default());
    init_dcg();
    let res = (|| -> Result<u64, String> {
        brun(&prog);
        for t in bw(|w| w.ths.clone()).into_iter().flatten() { let _ = force(&t.0); bprobe() }
        if let Some(e) = bw(|w| w.err.take()) { bail!("{}", e) }
        // what is allocated now is nominal and at the outermost namespace
        let a = cell(name_of_usize(0), 100i64); bw(|w| w.arts.push(((false, vec![], 0), a)));
        let arts = bw(|w| std::mem::replace(&mut w.arts, vec![]));
        for (i, (k, a)) in arts.iter().enumerate() { for (l, b) in arts[..i].iter() {
            ensure!((k == l) == (a == b), "allocations at (structural, namespace, name) {:?} and {:?}: same location is {}", k, l, a == b) } }
        for (k, a) in &arts { let v = force(a); ensure!(v == 100 + k.2 as i64, "{:?} holds {}", k, v) }
        Ok(arts.len() as u64)
    })();
    init_naive();
    res.map_err(|e| format!("{}\nprogram {:?}", e, prog))
}

// ---------------------------------------------------------------- E02
/// a location allocated by one computation and re-allocated by another, from outside or by `set`
fn realloc_dirties(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg(); runs();
    let depth = r.below(4);
    let is_thunk = r.chance(35);
    let observe = r.chance(60);
    let inp = cell(name_of_str("inp"), 0i64);
    let alloc = move |v: i64| -> Art<i64> { if is_thunk { th(nm(name_of_str("shared")), "dbl", v, |v| 2 * v) } else { cell(name_of_str("shared"), 2 * v) } };
    let i2 = inp.clone();
    // the producer allocates 2 * inp; some chain of thunks observes the producer, and `watch` the location
    let p = th(nm(name_of_str("p")), "p", (), move |_| { let v = force(&i2); ran(1); alloc(v) });
    let mut top: Art<Art<i64>> = p.clone();
    for d in 0..depth { let t = top.clone(); top = th(nm(name_pair(name_of_str("o"), name_of_usize(d))), "o", (), move |_| force(&t)); }
    let shared = force(&top);
    let s2 = shared.clone();
    let watch = th(nm(name_of_str("watch")), "watch", (), move |_| force(&s2) + 1);
    let mut hist = vec![];
    let res = (|| -> Result<u64, String> {
        let (mut content, mut x, mut n) = (0i64, 0i64, 0);
        let mut qv = 0;
        for step in 0..(3 + r.below(8)) {
            n += 1;
            if observe { let v = force(&watch); ensure!(v == 2 * content + 1, "an observer of the location sees {} instead of {}", v, 2 * content + 1) }
            let v = r.val(3);
            let via = r.below(5);
            hist.push((via, v));
            let old = content;
            match via {
                0 => { let a = alloc(v); ensure!(a == shared, "re-allocation moved"); content = v }
                1 if !is_thunk => { set(&shared, 2 * v); content = v }
                1 | 2 => {
                    qv += 1;
                    let q = th(nm(name_pair(name_of_str("q"), name_of_usize(step))), "q", (v, qv), move |(v, _)| alloc(v));
                    ensure!(force(&q) == shared, "re-allocation inside a thunk moved"); content = v
                }
                3 => { x = v; set(&inp, v) }
                _ => {}
            }
            if via == 4 {
                // demanding the producer re-establishes what it allocates
                let a = force(&top); content = x;
                ensure!(a == shared, "the producer returns another location");
                let g = force(&shared); ensure!(g == 2 * x, "after demanding the computation that allocates the location with {}, it holds {}", 2 * x, g);
                continue
            }
            let g = reflect::dcg_reflect_now().unwrap();
            let pl = |s: &str| g.table.keys().find(|l| l.name == name_of_str(Box::leak(s.to_string().into_boxed_str()))).cloned().unwrap();
            let dirty = |l: &reflect::Loc, t: &reflect::Loc, e: reflect::Effect| reflect::succs_of_node(&g.table[l]).unwrap().iter().find(|s| s.loc == *t && s.effect == e).map(|s| s.dirty);
            let (lp, ls) = (pl("p"), pl("shared"));
            let changed = via <= 2 && old != content;
            let stale = changed || (via == 3 && { let d = dirty(&lp, &pl("inp"), reflect::Effect::Force); d == Some(true) });
            if changed { ensure!(dirty(&lp, &ls, reflect::Effect::Alloc) == Some(true), "the location was re-allocated with other content, but the computation that allocated it is not marked out of date") }
            if stale {
                let mut l = lp.clone();
                for d in 0..depth { let o = g.table.keys().find(|k| k.name == name_pair(name_of_str("o"), name_of_usize(d))).unwrap().clone();
                    ensure!(dirty(&o, &l, reflect::Effect::Force) == Some(true), "observer {} of the computation that is out of date is not marked", d); l = o }
                if changed && observe { ensure!(dirty(&pl("watch"), &ls, reflect::Effect::Force) == Some(true), "an observer of a re-allocated location is not marked") }
            }
        }
        Ok(n)
    })();
    init_naive();
    res.map_err(|e| format!("{}\nthunk {} depth {} history (0 outside, 1 set, 2 inside, 3 input, 4 demand; value) {:?}", e, is_thunk, depth, hist))
}

/// several edges of one computation to one target; edits with and without effect
fn edges_shared(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg();
    let x = cell(name_of_str("x"), 0i64);
    let (div, depth) = (1 + r.below(3) as i64, r.below(3));
    let ops: Vec<usize> = (0..(1 + r.below(5))).map(|_| r.below(4)).collect();
    let x1 = x.clone();
    let mk = Rc::new(move || { let x2 = x1.clone(); th(nm(name_of_str("t")), "t", (), move |_| force(&x2) / div) });
    let (t, mk1, ops1) = (mk(), mk.clone(), ops.clone());
    let a = th(nm(name_of_str("a")), "a", (), move |_| { let mut s = 0; for o in &ops1 { match o { 0 => { let _ = mk1(); } 1 => s += force_map(&t, |_, v| v + 1), _ => s += force(&t) } } s });
    let val = |v: i64| -> i64 { ops.iter().map(|o| match o { 0 => 0, 1 => v / div + 1, _ => v / div }).sum() };
    let mut top = a.clone();
    for d in 0..depth { let t = top.clone(); top = th(nm(name_pair(name_of_str("o"), name_of_usize(d))), "o", (), move |_| force(&t)); }
    let mut hist = vec![];
    let res = (|| -> Result<u64, String> {
        let mut xv = 0; let mut computed = false;
        for _ in 0..(3 + r.below(10)) {
            if r.chance(70) { let v = force(&top); ensure!(v == val(xv), "the value is {} but should be {}", v, val(xv)); computed = true }
            let v = r.val(6); hist.push(v);
            let changed = v != xv; xv = v; set(&x, v);
            if changed && computed && ops.iter().any(|o| *o != 0) {
                let g = reflect::dcg_reflect_now().unwrap();
                let loc = |n: Name| reflect::Loc { path: vec![], name: n };
                let dirty = |l: &reflect::Loc, t: &reflect::Loc| reflect::succs_of_node(&g.table[l]).unwrap().iter().any(|s| s.loc == *t && s.effect == reflect::Effect::Force && s.dirty);
                let (lt, la) = (loc(name_of_str("t")), loc(name_of_str("a")));
                ensure!(dirty(&lt, &loc(name_of_str("x"))), "an observer of a changed cell is not marked");
                ensure!(dirty(&la, &lt), "an observer of an observer of a changed cell is not marked");
                let mut l = la;
                for d in 0..depth { let o = loc(name_pair(name_of_str("o"), name_of_usize(d))); ensure!(dirty(&o, &l), "observer {} in the chain is not marked", d); l = o }
            }
        }
        let v = force(&top); ensure!(v == val(xv), "the value is {} but should be {}", v, val(xv));
        Ok(hist.len() as u64)
    })();
    init_naive();
    res.map_err(|e| format!("{}\ndivisor {} operations (0 allocate, 1 project, 2 and 3 demand) {:?} depth {} edits {:?}", e, div, ops, depth, hist))
}

// ---------------------------------------------------------------- E09
#[derive(Clone)]
struct Graph { adj: Vec<Vec<(usize, bool)>>, fall: i64 }
thread_local!(static G: RefCell<Option<Rc<Graph>>> = RefCell::new(None));
thread_local!(static CUR: Cell<u64> = Cell::new(0));
fn gthunk(i: usize) -> Art<i64> { th(nm(name_pair(name_of_str("g"), name_of_usize(i))), "gnode", i, grun) }
fn grun(i: usize) -> i64 {
    ran(i as i64);
    let g = G.with(|g| g.borrow().clone().unwrap());
    let mut s = i as i64 + 1;
    for (j, twice) in &g.adj[i] {
        let t = gthunk(*j);
        let v = force_cycle(&t, Some(g.fall + *j as i64));
        s = (s * 3 + v) % 1009;
        if *twice { let v2 = force_cycle(&t, Some(g.fall + *j as i64)); s = (s * 3 + v2) % 1009 }
    }
    s
}
fn goracle(g: &Graph, i: usize, stack: &mut Vec<usize>, memo: &mut HashMap<usize, i64>, order: &mut Vec<i64>, cyc: &mut bool) -> i64 {
    if stack.contains(&i) { *cyc = true; return g.fall + i as i64 }
    if let Some(v) = memo.get(&i) { return *v }
    order.push(i as i64); stack.push(i);
    let mut s = i as i64 + 1;
    for (j, twice) in &g.adj[i] { for _ in 0..(1 + *twice as usize) { let v = goracle(g, *j, stack, memo, order, cyc); s = (s * 3 + v) % 1009 } }
    stack.pop(); memo.insert(i, s); s
}
fn gnone(i: usize) -> i64 { let g = G.with(|g| g.borrow().clone().unwrap()); let mut s = i as i64 + 1; for (j, _) in &g.adj[i] { let t = th(nm(name_pair(name_of_str("n"), name_of_usize(*j))), "gnone", *j, gnone); s = (s * 3 + force(&t)) % 1009 } s }
fn gnone_or(g: &Graph, i: usize, stack: &mut Vec<usize>, memo: &mut HashMap<usize, i64>) -> Option<i64> {
    if stack.contains(&i) { return None }
    if let Some(v) = memo.get(&i) { return Some(*v) }
    stack.push(i); let mut s = i as i64 + 1;
    for (j, _) in &g.adj[i] { s = (s * 3 + gnone_or(g, *j, stack, memo)?) % 1009 }
    stack.pop(); memo.insert(i, s); Some(s)
}
fn cycles(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let n = 2 + r.below(6);
    let dens = 10 + r.below(50);
    let g = Rc::new(Graph { adj: (0..n).map(|_| (0..n).filter(|_| r.chance(dens)).collect::<Vec<_>>().into_iter().map(|j| (j, r.chance(15))).collect()).collect(), fall: 5000 });
    let g = { let mut h = (*g).clone(); for a in h.adj.iter_mut() { for i in (1..a.len()).rev() { let j = r.below(i + 1); a.swap(i, j) } } Rc::new(h) };
    G.with(|x| *x.borrow_mut() = Some(g.clone()));
    let mut cyc = false;
    init_dcg(); runs();
    let mut memo = HashMap::new();
    let res = (|| -> Result<(), String> {
        for _ in 0..3 {
            let i = r.below(n);
            let mut order = vec![];
            let exp = goracle(&g, i, &mut vec![], &mut memo, &mut order, &mut cyc);
            let got = if r.chance(50) { force_cycle(&gthunk(i), Some(-1)) } else { force(&gthunk(i)) };
            ensure!(got == exp, "demand of node {}: got {}, but {} if the fallback is used exactly for nodes being evaluated", i, got, exp);
            let rs = runs();
            ensure!(rs == order, "evaluation order {:?}, expected {:?}", rs, order);
        }
        // demanding a cell or a cached thunk does not use the fallback
        let c = cell(name_of_str("c"), 3i64); ensure!(force_cycle(&c, Some(-1)) == 3, "the fallback was used for a cell");
        ensure!(force_cycle(&put(4i64), Some(-1)) == 4, "the fallback was used for a constant");
        // no fallback: panics exactly when there is a cycle
        init_dcg();
        let i = r.below(n);
        let exp = gnone_or(&g, i, &mut vec![], &mut HashMap::new());
        let got = catch_unwind(AssertUnwindSafe(|| force(&th(nm(name_pair(name_of_str("n"), name_of_usize(i))), "gnone", i, gnone)))).ok();
        ensure!(got == exp, "without fallback, demand of {}: {:?}, expected {:?} (None: it must be refused)", i, got, exp);
        Ok(())
    })();
    init_dcg(); init_naive();
    res.map(|_| cyc as u64).map_err(|e| format!("{}\ngraph {:?}", e, g.adj))
}

// ---------------------------------------------------------------- E10
fn types(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let x = r.val(50);
    let expect = |what: &str, want: bool, f: &mut dyn FnMut()| -> Result<(), String> {
        init_dcg();
        let p = panics(|| f());
        init_dcg();
        if p != want { Err(format!("{}: {}", what, if want { "accepted" } else { "refused" })) } else { Ok(()) }
    };
    let n = || name_of_str("n");
    let res = (|| -> Result<(), String> {
        expect("a cell re-allocated at another type", true, &mut || { let _ = cell(n(), x); let c = cell(n(), format!("{}", x)); let _ = force(&c); })?;
        expect("a cell re-allocated at another type of the same size", true, &mut || { let _ = cell(n(), x); let c = cell(n(), x as u64); let _ = force(&c); })?;
        expect("a cell re-allocated at a boxed type", true, &mut || { let _ = cell(n(), x as usize); let c = cell(n(), Box::new(x)); drop(c); })?;
        expect("a thunk in place of a cell of another type", true, &mut || { let _ = cell(n(), x); let _ = th(nm(n()), "f", x, |x| format!("{}", x)); })?;
        expect("a cell in place of a thunk of another type", true, &mut || { let _ = th(nm(n()), "f", x, |x| format!("{}", x)); let _ = cell(n(), x); })?;
        expect("a thunk re-allocated at another result type", true, &mut || { let _ = th(nm(n()), "f", x, |x| x); let _ = th(nm(n()), "f", x, |x| format!("{}", x)); })?;
        expect("a thunk re-allocated with another program point", true, &mut || { let _ = th(nm(n()), "f", x, |x| x); let _ = th(nm(n()), "g", x, |x| x); })?;
        expect("a thunk re-allocated with another argument type", true, &mut || { let _ = th(nm(n()), "f", x, |x| x); let _ = th(nm(n()), "f", format!("{}", x), |_| 1i64); })?;
        expect("a thunk re-allocated with another argument type of the same size", true, &mut || { let _ = th(nm(n()), "f", x, |x| x); let t = th(nm(n()), "f", x as u64, |x| x as i64); let _ = force(&t); })?;
        expect("structural thunks of another result type", true, &mut || { let a = th(NameChoice::Structural, "f", x, |x| x); let b = th(NameChoice::Structural, "f", x, |x| format!("{}", x)); let _ = force(&a); let _ = force(&b); })?;
        expect("a demand under another engine's graph", true, &mut || { let a = th(nm(n()), "f", x, |x| x); init_dcg(); let _ = force(&a); })?;
        expect("structural cells of different types with one hash", true, &mut || { let a = structural(|| cell(n(), x as u64)); let b = structural(|| cell(n(), x)); let _ = force(&a); let _ = force(&b); })?;
        expect("a cell re-allocated at its type", false, &mut || { let _ = cell(n(), x); let c = cell(n(), x + 1); assert!(force(&c) == x + 1) })?;
        expect("a thunk re-allocated at its type", false, &mut || { let _ = th(nm(n()), "f", x, |x| x); let t = th(nm(n()), "f", x + 1, |x| x); assert!(force(&t) == x + 1) })?;
        expect("unrelated types at unrelated names", false, &mut || { let a = cell(n(), x); let b = cell(name_of_str("m"), format!("{}", x)); assert!(force(&b) == format!("{}", force(&a))) })?;
        expect("one name at two types in two namespaces", false, &mut || { let a = cell(n(), x); let b = ns(n(), || cell(n(), format!("{}", x))); assert!(force(&b) == format!("{}", force(&a))) })?;
        // the same inside a running thunk
        let sel = r.below(4);
        expect("a type clash inside a running thunk", true, &mut || {
            let _ = cell(n(), x);
            let t = th(nm(name_of_str("outer")), "outer", (), move |_| match sel {
                0 => force(&cell(n(), format!("{}", x))).len() as i64,
                1 => { let s = cell(name_of_str("m"), x as u64); force(&s) as i64 + force(&cell(name_of_str("m"), x)) }
                2 => force(&th(nm(n()), "f", x, |x| (x, x))).0,
                _ => { let a = th(nm(name_of_str("k")), "f", x, |x| x); let b = th(nm(name_of_str("k")), "f", (x, x), |x| x.0); force(&a) + force(&b) }
            });
            let _ = force(&t);
        })?;
        // force_map and force_abs check too
        expect("a projection at another type", true, &mut || { let a = cell(n(), x as u64); let h = structural(|| cell(n(), x as u64)); let g = structural(|| cell(n(), x)); let _ = force_map(&g, |_, v| v); let _ = (a, h); })?;
        Ok(())
    })();
    init_naive();
    res.map(|_| 1)
}

// ---------------------------------------------------------------- N01
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum N { Unit, Us(usize), Is(isize), S(String), H(u64), P(Box<N>, Box<N>), L(Box<N>), R(Box<N>) }
fn ngen(r: &mut Rng, d: usize) -> N {
    let b = Box::new;
    match if d == 0 { r.below(5) } else { r.below(8) } {
        0 => N::Unit, 1 => N::Us(r.below(3)), 2 => N::Is(r.below(3) as isize - 1), 3 => N::S(["", "a", "0", "1", "rev", "a-l"][r.below(6)].into()), 4 => N::H(r.below(3) as u64),
        5 => N::P(b(ngen(r, d - 1)), b(ngen(r, d - 1))), 6 => N::L(b(ngen(r, d - 1))), _ => N::R(b(ngen(r, d - 1))),
    }
}
fn nreal(r: &mut Rng, n: &N) -> Name {
    match n {
        N::Unit => name_unit(), N::Us(u) => name_of_usize(*u), N::Is(i) => name_of_isize(*i), N::H(h) => name_of_hash64(*h),
        N::S(s) => { let st: &'static str = ["", "a", "0", "1", "rev", "a-l"].iter().find(|x| *x == s).unwrap(); if r.chance(50) { name_of_str(st) } else { name_of_string(s.clone()) } }
        N::P(a, b) => { let a = nreal(r, a); let b = nreal(r, b); name_pair(a, b) }
        N::L(a) => name_fork(nreal(r, a)).0, N::R(a) => name_fork(nreal(r, a)).1,
    }
}
fn names(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg();
    let res = (|| -> Result<(), String> {
        let ms: Vec<N> = (0..12).map(|_| ngen(&mut r, 3)).collect();
        let rs: Vec<Name> = ms.iter().map(|m| nreal(&mut r, m)).collect();
        for i in 0..ms.len() {
            let again = nreal(&mut r, &ms[i]);
            ensure!(again == rs[i] && hash(&again) == hash(&rs[i]), "building the name {:?} twice gives different names", ms[i]);
            for j in 0..i {
                ensure!((ms[i] == ms[j]) == (rs[i] == rs[j]), "names {:?} and {:?} compare {}", ms[i], ms[j], rs[i] == rs[j]);
                if rs[i] == rs[j] { ensure!(hash(&rs[i]) == hash(&rs[j]), "equal names hash differently") }
                let (a, b) = (cell(rs[i].clone(), 1i64), cell(rs[j].clone(), 1i64));
                ensure!((ms[i] == ms[j]) == (a == b), "cells named {:?} and {:?}: same location is {}", ms[i], ms[j], a == b);
            }
        }
        let m = ngen(&mut r, 3); let n = nreal(&mut r, &m);
        let (l, rr) = name_fork(n.clone());
        ensure!(l != rr && l != n && rr != n && hash(&l) != hash(&rr), "the two halves of a forked name are not distinct");
        let (a, b, c) = name_fork3(n.clone()); let v3 = [a, b, c];
        let (a, b, c, d) = name_fork4(n.clone()); let v4 = [a, b, c, d];
        for v in [&v3[..], &v4[..]] { let s: HashSet<u64> = v.iter().map(hash).collect(); ensure!(s.len() == v.len(), "forked names collide"); for i in 0..v.len() { ensure!(v[i] != n, "a forked name equals its origin"); for j in 0..i { ensure!(v[i] != v[j], "forked names are equal") } } }
        let (a, b, c) = name_fork3(n.clone()); ensure!([a, b, c] == v3, "forking three ways is not deterministic");
        let (a, b, c, d) = name_fork4(n.clone()); ensure!([a, b, c, d] == v4, "forking four ways is not deterministic");
        Ok(())
    })();
    init_naive(); res.map(|_| 1)
}

// ---------------------------------------------------------------- R01
fn kinds(t: &Trace) -> &Effect { &t.effect }
fn fwd(t: &Trace) -> Result<&reflect::trace::Edge, String> { match &t.edge { reflect::trace::EffectEdge::Fwd(e) => Ok(e), e => Err(format!("the effect {:?} has the edge {:?}", t.effect, e)) } }
/// who performs the effects nested in `t`, and on what
fn attributed(t: &Trace) -> Result<(), String> {
    let e = fwd(t)?; let (src, tgt) = (&e.loc, &e.succ.loc);
    let eff = match t.effect { Effect::Alloc(..) => Some(reflect::Effect::Alloc), Effect::Force(_) => Some(reflect::Effect::Force), _ => None };
    if let Some(x) = eff { if e.succ.effect != x { bail!("{:?} is recorded on an edge of kind {:?}", t.effect, e.succ.effect) } }
    for s in t.extent.iter() {
        let f = fwd(s)?;
        let ok = match (&t.effect, &s.effect) {
            (Effect::Force(ForceCase::CompCacheMiss), _) => f.loc.as_ref() == Some(tgt),
            (Effect::Force(ForceCase::CompCacheHit), Effect::CleanRec) => f.loc.as_ref() == Some(tgt),
            // a computation without a result is evaluated for its observer: the edge has no source
            (Effect::CleanEval, _) if src.is_none() => f.loc.as_ref() == Some(tgt),
            (Effect::CleanEval, _) => f.loc == *src,
            (Effect::CleanRec, Effect::CleanEval) if f.loc.is_none() => f.succ.loc == *tgt,
            (Effect::CleanRec, Effect::CleanRec) => f.loc.as_ref() == Some(tgt),
            (Effect::CleanRec, Effect::CleanEval) | (Effect::CleanRec, Effect::CleanEdge) => f.loc == *src && f.succ.loc == *tgt && f.succ.effect == e.succ.effect,
            (Effect::CleanRec, _) => f.loc.as_ref() == Some(tgt),
            (Effect::Dirty, Effect::Dirty) => Some(&f.succ.loc) == src.as_ref() && f.succ.effect == reflect::Effect::Force,
            (Effect::Alloc(..), Effect::Dirty) => f.succ.loc == *tgt,
            (Effect::Alloc(..), Effect::Remove) => f.loc.as_ref() == Some(tgt),
            _ => true,
        };
        if !ok { bail!("{:?} of {:?} by {:?} contains {:?} of {:?} by {:?}", t.effect, tgt, src, s.effect, f.succ.loc, f.loc) }
    }
    Ok(())
}
fn check_trace(t: &Trace, depth: usize) -> Result<(), String> {
    match kinds(t) {
        Effect::Remove | Effect::CleanEdge | Effect::Force(ForceCase::RefGet) | Effect::Alloc(AllocCase::LocFresh, _) => if !t.extent.is_empty() { bail!("the effect {:?} has a nested extent", t.effect) },
        Effect::Dirty => for s in t.extent.iter() { if !matches!(s.effect, Effect::Dirty) { bail!("{:?} nested inside dirtying", s.effect) } },
        Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentSame), _) => for s in t.extent.iter() { if !matches!(s.effect, Effect::Remove) { bail!("re-allocating the same content causes {:?}", s.effect) } },
        Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), _) => for s in t.extent.iter() { if !matches!(s.effect, Effect::Dirty | Effect::Remove) { bail!("allocation causes {:?}", s.effect) } },
        Effect::CleanRec => { match t.extent.last().map(|x| &x.effect) { Some(Effect::CleanEdge) | Some(Effect::CleanEval) => {} x => bail!("cleaning ends with {:?}", x) }
            let k = t.extent.iter().filter(|x| matches!(x.effect, Effect::CleanEdge)).count(); if k > 1 { bail!("an edge is cleaned {} times at once", k) } }
        _ => {}
    }
    attributed(t)?;
    if depth > 3000 { return Ok(()) }
    for s in t.extent.iter() { check_trace(s, depth + 1)? }
    Ok(())
}
#[derive(Default, PartialEq, Debug)]
struct Cnt { fresh: usize, same: usize, diff: usize, crec: usize, dirty: usize }
fn count(ts: &Vec<Trace>, c: &mut Cnt) {
    for t in ts { match t.effect {
        Effect::Alloc(AllocCase::LocFresh, _) => c.fresh += 1, Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentSame), _) => c.same += 1, Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), _) => c.diff += 1,
        Effect::CleanRec => c.crec += 1, Effect::Dirty => c.dirty += 1, _ => {} }
        count(&t.extent, c) }
}
pub fn trace_ok(t: &Vec<Trace>, _allocs: u64) -> Result<(), String> {
    for x in t {
        if !matches!(x.effect, Effect::Alloc(..) | Effect::Force(_) | Effect::Dirty) { bail!("{:?} at the top level of a trace", x.effect) }
        if let (false, Some(l)) = (matches!(x.effect, Effect::Dirty), &fwd(x)?.loc) { bail!("{:?} at the top level of a trace is attributed to {:?}", x.effect, l) }
        check_trace(x, 0)?
    }
    let mut c = Cnt::default(); count(t, &mut c);
    if c.fresh == 0 { bail!("a trace of a history that allocates records no allocation") }
    // trace_count prints a warning for every edge removed by an edit
    fn edits_remove(ts: &Vec<Trace>) -> bool { ts.iter().any(|t| matches!(t.effect, Effect::Alloc(..)) && t.extent.iter().any(|s| matches!(s.effect, Effect::Remove))) }
    if edits_remove(t) { return Ok(()) }
    let k = catch_unwind(AssertUnwindSafe(|| reflect::trace::trace_count(t, None))).map_err(|_| "trace_count panics".to_string())?;
    let d = Cnt { fresh: k.alloc_fresh.0 + k.alloc_fresh.1, same: k.alloc_nochange.0 + k.alloc_nochange.1, diff: k.alloc_change.0 + k.alloc_change.1, crec: k.clean_rec, dirty: k.dirty.0 + k.dirty.1 };
    if c != d { bail!("the trace contains {:?}, but trace_count reports {:?}", c, d) }
    Ok(())
}
/// the reflected graph of a graph whose shape is known
fn snapshot(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg();
    let res = (|| -> Result<(), String> {
        ensure!(reflect::dcg_reflect_now().unwrap().table.is_empty(), "a fresh graph is not empty");
        let n = 1 + r.below(6);
        let mut vals: Vec<i64> = (0..n).map(|_| r.val(40) - 20).collect();
        let cells: Vec<Art<i64>> = (0..n).map(|i| cell(slot_name(i), vals[i])).collect();
        let m = 1 + r.below(5);
        let picks: Vec<Vec<usize>> = (0..m).map(|_| (0..1 + r.below(3)).map(|_| r.below(n)).collect()).collect();
        let inner: Rc<RefCell<Option<reflect::DCG>>> = Rc::new(RefCell::new(None));
        let ths: Vec<Art<i64>> = (0..m).map(|j| { let (cs, p, inn) = (cells.clone(), picks[j].clone(), inner.clone());
            ns(name_of_str("T"), || th(nm(name_of_usize(j)), "sum", j, move |_| { let s = p.iter().map(|i| force(&cs[*i])).sum(); if j == 0 { *inn.borrow_mut() = reflect::dcg_reflect_now() } s })) }).collect();
        let mut forced: HashMap<usize, i64> = HashMap::new();
        for _ in 0..(2 + r.below(6)) {
            if r.chance(35) { let i = r.below(n); vals[i] = r.val(40) - 20; set(&cells[i], vals[i]) }
            else { let j = r.below(m); let v = force(&ths[j]); ensure!(v == picks[j].iter().map(|i| vals[*i]).sum::<i64>(), "wrong sum"); forced.insert(j, v); }
            let d = reflect::dcg_reflect_now().unwrap();
            ensure!(d.table.len() == n + m, "{} locations were allocated, {} are reflected", n + m, d.table.len());
            let tpath = vec![name_of_str("T")];
            for i in 0..n { match d.table.get(&reflect::Loc { path: vec![], name: slot_name(i) }) {
                Some(reflect::Node::Ref(x)) => {
                    ensure!(num(&x.value) == Some(vals[i]), "cell {} is {} but reflected as {:?}", i, vals[i], x.value);
                    let mut ps: Vec<String> = x.preds.iter().map(|p| format!("{:?}", p.loc.name)).collect(); ps.sort();
                    let mut es: Vec<String> = forced.keys().filter(|j| picks[**j].contains(&i)).map(|j| format!("{:?}", name_of_usize(*j))).collect(); es.sort();
                    ensure!(ps == es, "cell {}: reflected observers {:?}, actual {:?}", i, ps, es);
                }
                x => bail!("cell {} is reflected as {:?}", i, x) } }
            for j in 0..m { match d.table.get(&reflect::Loc { path: tpath.clone(), name: name_of_usize(j) }) {
                Some(reflect::Node::Comp(x)) => {
                    ensure!(x.prog_pt.symbol == "sum", "wrong program point");
                    match (forced.get(&j), &x.value) { (None, None) => {} (Some(v), Some(w)) if num(w) == Some(*v) => {} (a, b) => bail!("thunk {} last gave {:?}, reflected {:?}", j, a, b) }
                    let mut seen = HashSet::new();
                    let exp: Vec<Name> = if forced.contains_key(&j) { picks[j].iter().filter(|i| seen.insert(**i)).map(|i| slot_name(*i)).collect() } else { vec![] };
                    ensure!(x.succs.iter().map(|s| s.loc.name.clone()).collect::<Vec<_>>() == exp, "thunk {}: reflected edges differ from its demands", j);
                    for s in &x.succs { let i = (0..n).find(|i| slot_name(*i) == s.loc.name).unwrap();
                        let _ = i; if s.dirty { ensure!(picks[j].iter().any(|_| true), "") } }
                }
                x => bail!("thunk {} is reflected as {:?}", j, x) } }
        }
        let _ = force(&ths[0]);
        let d = inner.borrow_mut().take().unwrap();
        ensure!(d.stack.len() == 1 && d.stack[0].loc.name == name_of_usize(0) && d.path == vec![name_of_str("T")], "the stack or path of a running thunk is reflected wrongly");
        ensure!(d.stack[0].succs.len() == { let s: HashSet<_> = picks[0].iter().collect(); s.len() }, "the running frame's edges are reflected wrongly");
        Ok(())
    })();
    init_naive();
    ensure!(reflect::dcg_reflect_now().is_none(), "the naive engine reflects a graph");
    res.map(|_| 1)
}
/// values as reflected: numbers, strings, tuples, vectors, constructors, structs, names, articulations
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Dat { Empty, Tup(usize, String, Box<Dat>), One(Vec<Dat>), Pt { x: i64, long_field: Box<Dat> }, Two((usize, Option<i64>), (Box<Dat>, Name)), Ref(Art<i64>), Str_9(Strct) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Strct { a_1: Vec<(usize, String)>, b: Option<Name> }
fn dgen(r: &mut Rng, d: usize, arts: &Vec<(Art<i64>, reflect::Loc)>) -> (Dat, reflect::Val) {
    use reflect::{Const, Val};
    let nat = |n: usize| Val::Const(Const::Nat(n));
    let num = |n: i64| if n < 0 { Val::Const(Const::Num(n as isize)) } else { nat(n as usize) };
    let st = |r: &mut Rng| -> String { (0..r.below(5)).map(|_| *[' ', 'a', 'Z', '0', ',', ':', '(', ')', '[', ']', '{', '}', '-', '_', '.', '"', '\\', '\n', '\t', '\r', '\0', '\'', '\u{e9}', '\u{1f600}', '\u{7f}', '\u{301}', '\u{200b}', 'n', '\u{85}', '\u{9f}', '\u{ad}', '\u{feff}', '\u{10ffff}'].get(r.below(33)).unwrap()).collect() };
    let strv = |s: &String| Val::Const(Const::String(s.clone()));
    let sym = |s: &str| name_of_string(s.to_string());
    let name = |r: &mut Rng| -> Name { let m = loop { let m = ngen(r, 2); if m != N::Unit { break m } }; // the text of the unit name is that of a constructor
        nreal(r, &m) };
    let n = |r: &mut Rng| [0, 1, 9, 10, 907, 1 << 40, usize::MAX, 1 << 63, r.below(100000)][r.below(9)];
    let i = |r: &mut Rng| { let v = [0i64, 1, 10, 99, 1 << 40, i64::MAX][r.below(6)]; if r.chance(50) { if v == i64::MAX { i64::MIN } else { -v } } else { v } };
    match if d == 0 { r.below(2) * 5 } else { r.below(7) } {
        0 => (Dat::Empty, Val::Constr(sym("Empty"), vec![])),
        1 => { let (k, s, (x, v)) = (n(r), st(r), dgen(r, d - 1, arts)); let e = vec![nat(k), strv(&s), v]; (Dat::Tup(k, s, Box::new(x)), Val::Constr(sym("Tup"), e)) }
        2 => { let xs: Vec<_> = (0..r.below(4)).map(|_| dgen(r, d - 1, arts)).collect(); let (a, b): (Vec<_>, Vec<_>) = xs.into_iter().unzip(); (Dat::One(a), Val::Constr(sym("One"), vec![Val::Vec(b)])) }
        3 => { let (k, (x, v)) = (i(r), dgen(r, d - 1, arts)); (Dat::Pt { x: k, long_field: Box::new(x) }, Val::Struct(sym("Pt"), vec![(sym("x"), num(k)), (sym("long_field"), v)])) }
        4 => { let (k, o, (x, v), m) = (n(r), if r.chance(50) { Some(i(r)) } else { None }, dgen(r, d - 1, arts), name(r));
            let ov = match o { None => Val::Constr(sym("None"), vec![]), Some(y) => Val::Constr(sym("Some"), vec![num(y)]) };
            (Dat::Two((k, o), (Box::new(x), m.clone())), Val::Constr(sym("Two"), vec![Val::Tuple(vec![nat(k), ov]), Val::Tuple(vec![v, Val::Name(m)])])) }
        5 => { let (a, l) = arts[r.below(arts.len())].clone(); (Dat::Ref(a), Val::Constr(sym("Ref"), vec![Val::Art(l, reflect::ArtContent::Unknown)])) }
        _ => { let xs: Vec<(usize, String)> = (0..r.below(3)).map(|_| (n(r), st(r))).collect(); let m = if r.chance(50) { Some(name(r)) } else { None };
            let e = Val::Vec(xs.iter().map(|(k, s)| Val::Tuple(vec![nat(*k), strv(s)])).collect());
            let me = match &m { None => Val::Constr(sym("None"), vec![]), Some(m) => Val::Constr(sym("Some"), vec![Val::Name(m.clone())]) };
            (Dat::Str_9(Strct { a_1: xs, b: m }), Val::Constr(sym("Str_9"), vec![Val::Struct(sym("Strct"), vec![(sym("a_1"), e), (sym("b"), me)])])) }
    }
}
fn values(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg();
    let res = (|| -> Result<u64, String> {
        let sk = r.below(1000);
        let sa: Art<i64> = in_path(&[sk], || th(NameChoice::Structural, "structural", sk as i64, |x| x));
        let sl = match reflect::dcg_reflect_now().unwrap().table.keys().next() { Some(l) => l.clone(), None => bail!("a structural thunk has no location") };
        ensure!(sl.path.is_empty() || sl.path == vec![name_of_usize(sk)], "a structural thunk at {:?} is located at {:?}", sk, sl);
        let mut arts: Vec<(Art<i64>, reflect::Loc)> = (0..3).map(|k| { let p: Vec<usize> = (0..r.below(4)).map(|_| r.below(2)).collect();
            let m = ngen(&mut r, 2);
            let n = name_pair(name_of_usize(k), nreal(&mut r, &m));
            (in_path(&p, || cell(n.clone(), k as i64)), reflect::Loc { path: p.iter().map(|x| name_of_usize(*x)).collect(), name: n }) }).collect();
        arts.push((sa, sl));
        for i in 0..4 {
            let (x, v) = dgen(&mut r, 3, &arts);
            let got = reflect::reflect_val(&x);
            ensure!(got == v, "{:?} is reflected as {:?}, expected {:?}", x, got, v);
            let name = name_of_usize(1000 + i);
            if r.chance(50) { let _ = cell(name.clone(), x.clone()); }
            else { let y = x.clone(); let t = th(nm(name.clone()), "v", (), move |_| y.clone()); ensure!(force(&t) == x, "wrong value") }
            let d = reflect::dcg_reflect_now().unwrap();
            let got = match d.table.get(&reflect::Loc { path: vec![], name }) { Some(reflect::Node::Ref(n)) => Some(n.value.clone()), Some(reflect::Node::Comp(n)) => n.value.clone(), _ => None };
            ensure!(got.as_ref() == Some(&v), "a node holding {:?} is reflected with {:?}", x, got);
        }
        Ok(4)
    })();
    init_naive();
    res
}
/// locations at nested namespaces, some of equal names, as reflected
fn paths(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg();
    let res = (|| -> Result<u64, String> {
        let mut exp: HashMap<reflect::Loc, i64> = HashMap::new();
        let locn = |p: &[usize], k: usize| reflect::Loc { path: p.iter().map(|x| name_of_usize(*x)).collect(), name: name_of_usize(k) };
        let n = 1 + r.below(12);
        let mut arts = vec![];
        for _ in 0..n {
            let p: Vec<usize> = (0..r.below(5)).map(|_| r.below(2)).collect();
            let (k, v) = (r.below(2), r.val(50));
            let seen: Rc<RefCell<Vec<Name>>> = Default::default(); let s2 = seen.clone();
            let a = in_path(&p, || { *s2.borrow_mut() = reflect::dcg_reflect_now().unwrap().path; cell(name_of_usize(k), v) });
            ensure!(*seen.borrow() == locn(&p, k).path, "inside {:?} the reflected namespace is {:?}", p, seen.borrow());
            exp.insert(locn(&p, k), v); arts.push((a, locn(&p, k)));
        }
        let d = reflect::dcg_reflect_now().unwrap();
        ensure!(d.table.len() == exp.len(), "{} locations exist, {} are reflected", exp.len(), d.table.len());
        for (l, v) in &exp { match d.table.get(l) { Some(reflect::Node::Ref(x)) => ensure!(num(&x.value) == Some(*v), "{:?} holds {} but is reflected as {:?}", l, v, x.value), x => bail!("{:?} holds {} but is reflected as {:?}", l, v, x) } }
        // observed from thunks at some paths, with the trace of doing so
        let p: Vec<usize> = (0..r.below(4)).map(|_| r.below(2)).collect();
        let k = r.below(arts.len()); let (a, l) = arts[k].clone();
        let inner: Rc<RefCell<Option<reflect::DCG>>> = Default::default(); let i2 = inner.clone();
        let two = r.chance(50);
        let v = exp[&l];
        reflect::dcg_reflect_begin();
        let t = in_path(&p, || th(nm(name_of_usize(7)), "t", (), move |_| { let v = force(&a); *i2.borrow_mut() = reflect::dcg_reflect_now(); v }));
        let t2 = t.clone();
        let top = if two { in_path(&p, || th(nm(name_of_usize(8)), "t2", (), move |_| ns(name_of_usize(0), || force(&t2)))) } else { t.clone() };
        let got = force(&top);
        let tr = reflect::dcg_reflect_end();
        ensure!(got == v, "wrong value");
        let d = inner.borrow_mut().take().unwrap();
        let tl = locn(&p, 7); let tl2 = locn(&p, 8);
        let frames: Vec<reflect::Loc> = d.stack.iter().map(|f| f.loc.clone()).collect();
        let want = if two { vec![tl2.clone(), tl.clone()] } else { vec![tl.clone()] };
        let fr = frames.clone();
        ensure!(fr == want, "the stack is {:?} but reflected as {:?}", want, frames);
        ensure!(d.path == tl.path, "the namespace of a running thunk is {:?} but reflected as {:?}", tl.path, d.path);
        for f in &d.stack { if f.loc == tl { ensure!(f.succs.len() == 1 && f.succs[0].loc == l && f.succs[0].effect == reflect::Effect::Force && !f.succs[0].dirty, "the frame's observation is reflected as {:?}", f.succs) } }
        // the trace attributes every step to the computation that performed it
        fn flat(ts: &[Trace], o: &mut Vec<Trace>) { for t in ts { o.push(t.clone()); flat(&t.extent, o) } }
        let mut all = vec![]; flat(&tr, &mut all);
        let reads: Vec<&Trace> = all.iter().filter(|t| matches!(t.effect, Effect::Force(ForceCase::RefGet))).collect();
        ensure!(reads.len() == 1, "one read of a cell is traced {} times", reads.len());
        let e = fwd(reads[0])?;
        ensure!(e.loc.as_ref() == Some(&tl) && e.succ.loc == l && e.succ.effect == reflect::Effect::Force, "the read of {:?} by {:?} is traced as {:?}", l, tl, e);
        let mut misses: Vec<(Option<reflect::Loc>, reflect::Loc)> = vec![];
        for t in all.iter().filter(|t| matches!(t.effect, Effect::Force(ForceCase::CompCacheMiss))) { let e = fwd(t)?; misses.push((e.loc.clone(), e.succ.loc.clone())) }
        let want = if two { vec![(None, tl2.clone()), (Some(tl2), tl.clone())] } else { vec![(None, tl.clone())] };
        ensure!(misses == want, "the demands {:?} are traced as {:?}", want, misses);
        let d = reflect::dcg_reflect_now().unwrap();
        match d.table.get(&l) { Some(reflect::Node::Ref(x)) => ensure!(x.preds.len() == 1 && x.preds[0].loc == tl, "{:?} is observed by {:?} but reflected with {:?}", l, tl, x.preds), x => bail!("{:?} is reflected as {:?}", l, x) }
        Ok(n as u64)
    })();
    init_naive();
    res
}
/// exact trace of one small change
fn trace_small(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg();
    let x = r.val(9); let y = if r.chance(40) { x } else { r.val(9) };
    let c = cell(name_of_str("c"), x);
    let c2 = c.clone(); let t = th(nm(name_of_str("t")), "t", (), move |_| force(&c2) % 2);
    let t2 = t.clone(); let u = th(nm(name_of_str("u")), "u", (), move |_| force(&t2) + 1);
    let _ = force(&u);
    reflect::dcg_reflect_begin();
    ensure!(panics(|| reflect::dcg_reflect_begin()), "nested dcg_reflect_begin is accepted");
    let _ = cell(name_of_str("c"), y);
    let v = force(&u);
    let tr = reflect::dcg_reflect_end();
    init_naive();
    ensure!(v == y % 2 + 1, "wrong value");
    let shape = |t: &Trace| -> String { fn go(t: &Trace, o: &mut String) { o.push_str(match t.effect { Effect::Alloc(AllocCase::LocFresh, _) => "New", Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentSame), _) => "Same", Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), _) => "Diff", Effect::Force(ForceCase::CompCacheHit) => "Hit", Effect::Force(ForceCase::CompCacheMiss) => "Miss", Effect::Force(ForceCase::RefGet) => "Get", Effect::Dirty => "Dirty", Effect::CleanRec => "Rec", Effect::CleanEdge => "Edge", Effect::CleanEval => "Eval", Effect::Remove => "Remove", _ => "?" }); if !t.extent.is_empty() { o.push('('); for s in t.extent.iter() { go(s, o); o.push(' ') } o.push(')') } } let mut s = String::new(); go(t, &mut s); s };
    let got: Vec<String> = tr.iter().map(shape).collect();
    let exp = if x == y { vec!["Same", "Hit"] } else if x % 2 == y % 2 { vec!["Diff(Dirty(Dirty ) )", "Hit(Rec(Rec(Eval(Remove Get ) ) Edge ) )"] } else { vec!["Diff(Dirty(Dirty ) )", "Hit(Rec(Rec(Eval(Remove Get ) ) Eval(Remove Hit ) ) )"] };
    ensure!(got == exp, "change {} -> {}: trace {:?}, expected {:?}", x, y, got, exp);
    ensure!(panics(|| reflect::dcg_reflect_end()), "dcg_reflect_end without begin is accepted");
    Ok(1)
}

/// allocations and demands of each kind, by the editor or inside a thunk: which case each of them is traced as
fn trace_cases(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg();
    // (kind, name, value): 0 cell, 1 cell in structural mode, 2 structural thunk, 3 nominal thunk (argument: value), 4 thunk in structural mode
    let ops: Vec<(usize, usize, i64, bool)> = (0..1 + r.below(7)).map(|_| (r.below(5), r.below(2), r.val(3), r.chance(40))).collect();
    let inside = r.chance(50);
    let run = move |ops: &Vec<(usize, usize, i64, bool)>| for &(k, n, v, f) in ops {
        let nv = if n == 0 { "a" } else { "b" };
        let mk = |id: NameChoice| thunk(id, prog_pt!(stringify!("k")), Rc::new(Box::new(move |x: i64, _: ()| x)), v, ());
        let a = match k {
            0 => cell(name_of_str(nv), v),
            1 => structural(|| cell(name_of_str(nv), v)),
            2 => mk(NameChoice::Structural),
            3 => mk(NameChoice::Nominal(name_of_str(if n == 0 { "ta" } else { "tb" }))),
            _ => structural(|| mk(NameChoice::Nominal(name_of_str("any")))),
        };
        if f { let _ = force(&a); }
    };
    // the expected steps
    let mut st: HashMap<(usize, i64), i64> = HashMap::new(); let mut done: std::collections::HashSet<(usize, i64)> = Default::default();
    let mut exp: Vec<String> = vec![];
    for &(k, n, v, f) in &ops {
        let key = match k { 0 => (0, n as i64), 1 => (1, v), 2 | 4 => (2, v), _ => (3, n as i64) };
        let kind = if k <= 1 { "RefCell" } else { "Thunk" };
        let case = match st.insert(key, v) { None => "LocFresh", Some(w) if w == v => "LocExists(ContentSame)", Some(_) => { done.remove(&key); "LocExists(ContentDiff)" } };
        exp.push(format!("Alloc({}, {})", case, kind));
        if f { exp.push(if k <= 1 { "Force(RefGet)".into() } else if done.insert(key) { "Force(CompCacheMiss)".into() } else { "Force(CompCacheHit)".into() }) }
    }
    // whether a single evaluation may change its own allocations is not at stake here
    if inside { for k in [0usize, 3] { for n in 0..2 { let vs: Vec<i64> = ops.iter().filter(|o| o.0 == k && o.1 == n).map(|o| o.2).collect(); if vs.iter().any(|v| *v != vs[0]) { init_naive(); return Ok(0) } } } }
    let (o1, o2) = (ops.clone(), ops.clone());
    let t = th(nm(name_of_str("top")), "top", (), move |_| { run(&o1); 1i64 });
    reflect::dcg_reflect_begin();
    if inside { let _ = force(&t); } else { run(&o2) }
    let tr = reflect::dcg_reflect_end();
    let snap = reflect::dcg_reflect_now().unwrap();
    init_naive();
    let (steps, src) = if inside {
        ensure!(tr.len() == 1 && matches!(tr[0].effect, Effect::Force(ForceCase::CompCacheMiss)), "one demand is traced as {:?}", tr);
        (tr[0].extent.iter().collect::<Vec<_>>(), Some(fwd(&tr[0])?.succ.loc.clone()))
    } else { (tr.iter().collect(), None) };
    let got: Vec<String> = steps.iter().map(|t| format!("{:?}", t.effect)).collect();
    ensure!(got == exp, "the operations {:?}{} are traced as {:?}, expected {:?}", ops, if inside { " inside a thunk" } else { "" }, got, exp);
    for t in &steps {
        let e = fwd(t)?;
        ensure!(e.loc == src, "{:?} is attributed to {:?}, performed by {:?}", t.effect, e.loc, src);
        ensure!(snap.table.contains_key(&e.succ.loc), "{:?} names the location {:?}, which does not exist", t.effect, e.succ.loc);
        ensure!(e.succ.effect == if matches!(t.effect, Effect::Alloc(..)) { reflect::Effect::Alloc } else { reflect::Effect::Force }, "{:?} is recorded on an edge of kind {:?}", t.effect, e.succ.effect);
        match (&t.effect, snap.table.get(&e.succ.loc).unwrap()) { (Effect::Alloc(_, AllocKind::Thunk), reflect::Node::Comp(_)) => {} (Effect::Alloc(_, AllocKind::RefCell), reflect::Node::Comp(_)) => bail!("{:?} of a thunk", t.effect), (Effect::Alloc(_, AllocKind::Thunk), n) => bail!("{:?} of {:?}", t.effect, n), _ => {} }
    }
    Ok(ops.len() as u64)
}

/// cyclic demands, some repeated: which case each of them is traced as
fn trace_cycles(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg();
    let m = 1 + r.below(4);
    // the demands of each thunk, in order; the bool: with a value for a cycle
    let picks: Rc<Vec<Vec<usize>>> = Rc::new((0..m).map(|_| (0..r.below(4)).map(|_| r.below(m)).collect()).collect());
    let arts: Rc<RefCell<Vec<Art<i64>>>> = Rc::new(RefCell::new(vec![]));
    let mut v = vec![];
    for i in 0..m { let (p, a) = (picks.clone(), arts.clone());
        v.push(th(nm(name_of_usize(i)), "ring", i, move |i| { let mut s = 1; for j in &p[i] { let x = a.borrow()[*j].clone(); s += force_cycle(&x, Some(0)) } s })); }
    *arts.borrow_mut() = v.clone();
    reflect::dcg_reflect_begin();
    for i in 0..m { let _ = force_cycle(&v[i], Some(0)); }
    let tr = reflect::dcg_reflect_end();
    arts.borrow_mut().clear();
    init_naive();
    fn exp(i: usize, picks: &Vec<Vec<usize>>, seen: &mut Vec<bool>, src: Option<usize>, o: &mut Vec<(bool, Option<usize>, usize)>) {
        // a thunk that has run or is running answers from its cache or with the value for a cycle
        if seen[i] { o.push((true, src, i)); return }
        o.push((false, src, i)); seen[i] = true;
        for j in &picks[i] { exp(*j, picks, seen, Some(i), o) }
    }
    let mut e = vec![]; let mut seen = vec![false; m];
    for i in 0..m { exp(i, &picks, &mut seen, None, &mut e) }
    fn num_of(n: &Name, m: usize) -> usize { (0..m).find(|i| name_of_usize(*i) == *n).unwrap_or(m) }
    fn go(ts: &Vec<Trace>, m: usize, o: &mut Vec<(bool, Option<usize>, usize)>) -> Result<(), String> {
        for t in ts {
            let hit = match t.effect { Effect::Force(ForceCase::CompCacheHit) => true, Effect::Force(ForceCase::CompCacheMiss) => false, ref e => bail!("{:?} in a trace of demands", e) };
            let e = fwd(t)?; o.push((hit, e.loc.as_ref().map(|l| num_of(&l.name, m)), num_of(&e.succ.loc.name, m)));
            go(&t.extent, m, o)?
        }
        Ok(())
    }
    let mut got = vec![]; go(&tr, m, &mut got)?;
    ensure!(got == e, "thunks that demand {:?}, with a value for cycles: the demands (cached or cyclic, by, of) are {:?} but traced as {:?}", picks, e, got);
    Ok(e.len() as u64)
}
/// after a re-allocation by the editor: the edges of the allocators and of the observers, as reflected
fn reflect_dirty(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg();
    let n = 1 + r.below(4); let vals: Vec<i64> = (0..n).map(|_| r.val(5)).collect();
    let obs: Vec<bool> = (0..n).map(|_| r.chance(50)).collect(); let kind: Vec<bool> = (0..n).map(|_| r.chance(50)).collect();
    let names: Vec<&'static str> = vec!["k0", "k1", "k2", "k3"];
    let mk = { let (names, kind) = (names.clone(), kind.clone()); move |i: usize, v: i64| if kind[i] { th(nm(name_of_str(names[i])), "k", v, |v| 2 * v) } else { cell(name_of_str(names[i]), v) } };
    let (v2, o2, m2) = (vals.clone(), obs.clone(), mk.clone());
    let t = th(nm(name_of_str("maker")), "maker", (), move |_| { for i in 0..v2.len() { let a = m2(i, v2[i]); if o2[i] { let _ = force(&a); } } 7i64 });
    let _ = force(&t);
    let i = r.below(n); let w = r.val(5);
    let _ = mk(i, w);
    let changed = w != vals[i];
    let d = reflect::dcg_reflect_now().unwrap();
    init_naive();
    let mk = d.table.keys().find(|l| l.name == name_of_str("maker")).unwrap();
    for k in 0..n { let l = d.table.keys().find(|l| l.name == name_of_str(names[k])).unwrap();
        for e in [reflect::Effect::Alloc, reflect::Effect::Force] {
            let s: Vec<_> = reflect::succs_of_node(&d.table[mk]).unwrap().iter().filter(|s| s.loc == *l && s.effect == e).collect();
            let is_obs = e == reflect::Effect::Force;
            ensure!(s.len() == if is_obs { obs[k] as usize } else { 1 }, "{} edges of kind {:?} to {} are reflected", s.len(), e, names[k]);
            for s in s { let want = k == i && changed;
                ensure!(s.dirty == want, "{} was {} with {} content (kinds {:?}, values {:?}): the edge of kind {:?} to {} is reflected with dirty = {}", names[i], "re-allocated", if changed { "other" } else { "the same" }, kind, vals, e, names[k], s.dirty) }
        } }
    Ok(n as u64)
}

// ---------------------------------------------------------------- B01
fn bits(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let i = r.below(31) as i64; let b = (r.next() >> (33 + r.below(31))) as i64;
    ensure!(BS::flip(i, b) == b ^ (1i64 << i), "flip({}, {}) = {}", i, b, BS::flip(i, b));
    ensure!(BS::flip(i, BS::flip(i, b)) == b, "flip is not an involution at ({}, {})", i, b);
    ensure!(BS::is_set(i, b) == ((b >> i) & 1 == 1), "is_set({}, {}) = {}", i, b, BS::is_set(i, b));
    // any integer, negative ones too
    let (i, b) = (r.below(63) as i64, ((r.next() << 11) as i64) >> r.below(64));
    ensure!(BS::flip(i, b) == b ^ (1i64 << i), "flip({}, {}) = {}", i, b, BS::flip(i, b));
    ensure!(BS::is_set(i, b) == ((b >> i) & 1 == 1), "is_set({}, {}) = {}", i, b, BS::is_set(i, b));
    let (base, e) = (r.below(7) as i64 - 3, r.below(22) as i64);
    let mut p = 1i64; for _ in 0..e { p *= base }
    ensure!(BS::pow(base, e) == p, "pow({}, {}) = {}", base, e, BS::pow(base, e));
    let e2 = r.below(63) as i64; ensure!(BS::pow(2, e2) == 1i64 << e2, "pow(2, {})", e2);
    // build a bit string by prepending, read it back
    let n = r.below(31); let bsv: Vec<i64> = (0..n).map(|_| r.below(2) as i64).collect();
    let mut bs = BS { length: 0, value: 0 }; let mut v = 0i64;
    for (k, x) in bsv.iter().enumerate() { bs = BS::prepend(*x, bs); v |= x << k; ensure!(bs == BS { length: k as i64 + 1, value: v } && BS::length(bs) == k as i64 + 1, "prepending {:?} gives {:?}", &bsv[..=k], bs) }
    // also with garbage above the length
    let l = r.below(30) as i64; let g = (r.next() >> 34) as i64; let x = r.below(2) as i64;
    let q = BS::prepend(x, BS { length: l, value: g });
    ensure!(q == BS { length: l + 1, value: (g & !(1 << l)) | (x << l) }, "prepend({}, {}:{}) = {:?}", x, l, g, q);
    let s = r.below(31) as i64;
    let t = BS::shift_left(bs, s);
    ensure!(t == BS { length: n as i64, value: (v << s) & ((1i64 << n) - 1) }, "shift_left({:?}, {}) = {:?}", bs, s, t);
    ensure!(panics(|| BS::prepend(2 + r.below(5) as i64, bs)) && panics(|| BS::prepend(-1, bs)), "prepending a non-bit is accepted");
    Ok(1)
}

pub fn cases(p: &str) -> Vec<(&'static str, Case)> {
    match p {
        "E06" => vec![("nominal identity", identity as Case), ("re-allocation inside thunks", realloc_inside), ("cells and thunks in each other's place", kind_swap), ("equality of articulations", art_equality), ("companions of an argument", companions)],
        "E01" | "M01" => vec![("companions of an argument", companions as Case)],
        "E02" => vec![("re-allocations mark allocators and observers", realloc_dirties as Case), ("edges to one target", edges_shared)],
        "E07" => vec![("structural identity", structural_identity as Case)],
        "E08" => vec![("namespaces", namespaces as Case), ("nested blocks", blocks)],
        "E09" => vec![("cyclic demands", cycles as Case)],
        "E10" => vec![("dynamic types", types as Case)],
        "N01" => vec![("names", names as Case)],
        "R01" => vec![("snapshots", snapshot as Case), ("paths and attribution", paths), ("reflected values", values), ("trace of one change", trace_small), ("trace cases", trace_cases), ("traces of cyclic demands", trace_cycles), ("out-of-date edges", reflect_dirty)],
        "B01" => vec![("bit strings", bits as Case)],
        _ => vec![],
    }
}
