//! X01: the macros against the engine operations they abbreviate.
use crate::rng::Rng;
use crate::Case;
use adapton::engine::manage::*;
use adapton::engine::*;
use adapton::macros::*;
use adapton::{cell, cell_call, eager, fork, forko, get, let_cell, let_memo, let_thunk, memo, prog_pt, thunk};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

macro_rules! bail { ($($x:tt)*) => { return Err(format!($($x)*)) } }
macro_rules! ensure { ($c:expr, $($x:tt)*) => { if !($c) { bail!($($x)*) } } }
thread_local!(static RUNS: RefCell<Vec<(&'static str, Vec<i64>)>> = RefCell::new(vec![]));
fn ran(f: &'static str, a: &[i64]) { RUNS.with(|r| r.borrow_mut().push((f, a.to_vec()))) }
fn runs() -> Vec<(&'static str, Vec<i64>)> { RUNS.with(|r| std::mem::replace(&mut *r.borrow_mut(), vec![])) }
fn one(a: i64) -> i64 { ran("one", &[a]); a * 7 + 1 }
fn two(a: i64, b: i64) -> i64 { ran("two", &[a, b]); a * 10 - b }
fn three(a: i64, b: i64, c: i64) -> i64 { ran("three", &[a, b, c]); a * 100 + b * 10 - c }
fn four(a: i64, b: i64, c: i64, d: i64) -> i64 { ran("four", &[a, b, c, d]); a * 1000 + b * 100 + c * 10 - d }
fn gen<T: Into<i64>>(a: i64, b: T) -> i64 { let b = b.into(); ran("gen", &[a, b]); a * 3 - b }
fn val(f: &str, a: &[i64]) -> i64 {
    match f { "one" => a[0] * 7 + 1, "two" => a[0] * 10 - a[1], "three" => a[0] * 100 + a[1] * 10 - a[2], "four" => a[0] * 1000 + a[1] * 100 + a[2] * 10 - a[3], _ => a[0] * 3 - a[1] }
}
fn name(k: usize) -> Name { name_pair(name_of_str("x"), name_of_usize(k)) }
/// the location of a name, by an allocation that does not use a macro, in a fresh engine
fn place(n: &Name, path: &Option<Name>) -> Art<i64> {
    let old = init_dcg();
    let n = n.clone();
    let a = match path { None => cell(n, 0i64), Some(p) => ns(p.clone(), move || cell(n, 0i64)) };
    use_engine(old); a
}

/// thunk!, memo! and eager! in each of their forms
fn thunks(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg(); runs();
    let mut hist: Vec<String> = vec![];
    let path = if r.chance(30) { Some(name_of_usize(5)) } else { None };
    let res = (|| -> Result<u64, String> {
        let steps = 2 + r.below(10);
        // for each name: the function and arguments of its last allocation, and whether it has run since
        let mut last: std::collections::HashMap<String, (Vec<i64>, Vec<i64>)> = Default::default();
        for _ in 0..steps {
            let form = r.below(22);
            let (a, b, c, d) = (r.val(2), r.val(2), r.val(2), r.val(2));
            let k = form; // a name has one function throughout
            let none = r.chance(25);
            let nm = name(k);
            let opt = if none { None } else { Some(nm.clone()) };
            hist.push(format!("form {} args {:?} name {:?}", form, (a, b, c, d), opt));
            runs();
            // (function, arguments, arguments compared, reference, result)
            let go = move || -> (&'static str, Vec<i64>, usize, Option<Art<i64>>, Option<i64>, Option<Name>, bool) {
                match form {
                    0 => ("one", vec![a], 1, Some(thunk!([opt.clone()]? one; x: a)), None, opt, true),
                    1 => ("two", vec![a, b], 2, Some(thunk!([opt.clone()]? two; x: a, y: b)), None, opt, true),
                    2 => ("three", vec![a, b, c], 3, Some(thunk!([opt.clone()]? three; x: a, y: b, z: c)), None, opt, true),
                    3 => ("four", vec![a, b, c, d], 4, Some(thunk!([opt.clone()]? four; x: a, y: b, z: c, w: d)), None, opt, true),
                    4 => ("two", vec![a, b], 1, Some(thunk!([opt.clone()]? two; x: a ;; y: b)), None, opt, true),
                    5 => ("three", vec![a, b, c], 2, Some(thunk!([opt.clone()]? three; x: a, y: b ;; z: c)), None, opt, true),
                    6 => ("three", vec![a, b, c], 1, Some(thunk!([opt.clone()]? three; x: a ;; y: b, z: c)), None, opt, true),
                    7 => ("two", vec![a, b], 2, Some(thunk!(nm.clone() =>> two, x: a, y: b)), None, Some(nm), true),
                    8 => ("three", vec![a, b, c], 2, Some(thunk!(nm.clone() =>> three, x: a, y: b ;; z: c)), None, Some(nm), true),
                    9 => ("two", vec![a, b], 2, Some(thunk!([macname] two; x: a, y: b)), None, Some(name_of_str("macname")), true),
                    10 => { let (t, x) = memo!([opt.clone()]? three; x: a, y: b, z: c); ("three", vec![a, b, c], 3, Some(t), Some(x), opt, true) }
                    11 => { let (t, x) = memo!([opt.clone()]? two; x: a ;; y: b); ("two", vec![a, b], 1, Some(t), Some(x), opt, true) }
                    12 => { let x = memo!(nm.clone() =>> two, x: a, y: b); ("two", vec![a, b], 2, None, Some(x), Some(nm), true) }
                    13 => { let x = memo!(nm.clone() =>> three, x: a ;; y: b, z: c); ("three", vec![a, b, c], 1, None, Some(x), Some(nm), true) }
                    14 => { let (t, x): (Art<i64>, i64) = eager!(nm.clone() =>> two, x: a, y: b); ("two", vec![a, b], 2, Some(t), Some(x), Some(nm), true) }
                    15 => { let (t, x): (Art<i64>, i64) = eager!(nm.clone() =>> gen::<i32>, x: a, y: b as i32); ("gen", vec![a, b], 2, Some(t), Some(x), Some(nm), true) }
                    16 => { let (t, x): (Art<i64>, i64) = eager!(nm.clone() =>> gen =>> <i64>, x: a ;; y: b); ("gen", vec![a, b], 1, Some(t), Some(x), Some(nm), true) }
                    17 => { let (t, x): (Art<i64>, i64) = eager!(two, x: a, y: b); ("two", vec![a, b], 2, Some(t), Some(x), None, false) }
                    18 => { let (t, x): (Art<i64>, i64) = eager!(gen::<i64>, x: a, y: b); ("gen", vec![a, b], 2, Some(t), Some(x), None, false) }
                    19 => { let (t, x) = memo!([opt.clone()]? one; x: a); ("one", vec![a], 1, Some(t), Some(x), opt, true) }
                    20 => { let (t, x) = memo!([opt.clone()]? four; x: a, y: b ;; z: c, w: d); ("four", vec![a, b, c, d], 2, Some(t), Some(x), opt, true) }
                    _ => { let (t, x) = memo!([opt.clone()]? |x: i64, y: i64| { two(x, y) }; x: a, y: b); ("two", vec![a, b], 2, Some(t), Some(x), opt, true) }
                }
            };
            let (f, args, cmp, t, x, n, nominal) = match &path { None => go(), Some(p) => ns(p.clone(), go) };
            let during = runs();
            let v = t.as_ref().map(|t| force(t));
            let after = runs();
            // spurious arguments are those of the last allocation with other arguments
            let key = format!("{}", form);
            let eff = match (&n, last.get(&key)) { (Some(_), Some((old, _))) if old[..cmp] == args[..cmp] => old.clone(), _ => args.clone() };
            let fresh = match &n { Some(_) => last.get(&key).map_or(true, |(old, _)| old[..cmp] != args[..cmp]), None => true };
            let want = val(f, &eff);
            for y in [x, v].iter().flatten() { ensure!(*y == want, "the result is {} instead of {} = {}{:?}", y, want, f, eff) }
            let expect: Vec<(&'static str, Vec<i64>)> = if fresh { vec![(f, args.clone())] } else { vec![] };
            if nominal {
                let total: Vec<_> = during.iter().chain(after.iter()).cloned().collect();
                ensure!(total == expect, "what ran is {:?} instead of {:?}", total, expect);
                if x.is_none() && n.is_some() { ensure!(during.is_empty(), "a thunk ran before it was demanded") }
                if x.is_some() || n.is_none() { ensure!(after.is_empty(), "a memo, or a thunk without a name, is not evaluated at once") }
            }
            match (&n, &t) {
                (Some(n), Some(t)) => { let p = place(n, &path); ensure!(*t == p, "the reference is {:?} instead of the one of {:?}", t, n) }
                (None, Some(t)) if nominal => ensure!(*t == put(want), "without a name the reference is {:?} instead of a constant", t),
                (None, Some(t)) => { // structural
                    let id = NameChoice::Structural;
                    let (pa, pb) = (args[0], args[1]);
                    let u: Art<i64> = if form == 17 { thunk(id, prog_pt!("two"), Rc::new(Box::new(|(x, y, ()): (i64, i64, ()), ()| two(x, y))), (pa, pb, ()), ()) }
                        else { thunk(id, prog_pt!("gen"), Rc::new(Box::new(|(x, y): (i64, i64), ()| gen(x, y))), (pa, pb), ()) };
                    if path.is_none() { ensure!(*t == u, "the structural reference differs") } }
                _ => {}
            }
            if n.is_some() && fresh { last.insert(key, (args.clone(), eff.clone())); }
        }
        Ok(steps as u64)
    })();
    init_naive();
    res.map_err(|e| format!("{}\npath {:?} {:?}", e, path, hist))
}
/// forms with a body, let forms, cells, forks, get
fn rest(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg(); runs();
    let res = (|| -> Result<u64, String> {
        let (a, b, c) = (r.val(9), r.val(9), r.val(9));
        // cells
        let n = if r.chance(50) { Some(name(1)) } else { None };
        let e = cell!([n.clone()]? a);
        ensure!(e == n.clone().map_or(put(a), |n| place(&n, &None)), "cell!([{:?}]? _) is {:?}", n, e);
        ensure!(get!(e) == a && force(&e) == a, "cell! holds {} instead of {}", get!(e), a);
        let e = cell!([mcell] b); ensure!(e == place(&name_of_str("mcell"), &None) && get!(e) == b, "cell!([name] {}) is {:?} and holds {}", b, e, get!(e));
        let (e, f) = (cell!(a), cell!(b)); ensure!(e != f && get!(e) == a && get!(f) == b, "unnamed cells hold {} and {} instead of {} and {}", get!(e), get!(f), a, b);
        let k = bump_name_counter(); let m = bump_name_counter(); ensure!(k != m, "the counter of names gives {} twice", k);
        let g = cell_call!(name(2) =>> two, x: a, y: b); ensure!(g == place(&name(2), &None) && get!(g) == val("two", &[a, b]), "cell_call! is {:?} and holds {}", g, get!(g));
        let g = cell_call!(name(3) =>> gen::<i64>, x: a, y: b); ensure!(g == place(&name(3), &None) && get!(g) == val("gen", &[a, b]), "cell_call! with types is {:?} and holds {}", g, get!(g));
        let (x, y) = let_cell!{ ca = a; cb = b; (ca, cb) };
        ensure!(x == place(&name_of_str("ca"), &None) && y == place(&name_of_str("cb"), &None), "let_cell! binds {:?}", (x, y));
        ensure!((get!(x), get!(y)) == (a, b), "let_cell! holds {:?} instead of {:?}", (get!(x), get!(y)), (a, b));
        let z = let_cell!{ cc = c; cc };
        ensure!(z == place(&name_of_str("cc"), &None) && get!(z) == c, "let_cell! binds {:?} holding {} instead of {}", z, get!(z), c);
        // bodies
        runs();
        let (t, s) = let_thunk!{ ta = one(1); tb = two(1, 2); (ta, tb) };
        ensure!(runs().is_empty(), "let_thunk! evaluates");
        ensure!(t == place(&name_of_str("ta"), &None) && s == place(&name_of_str("tb"), &None), "let_thunk! binds {:?}", (&t, &s));
        ensure!((get!(t), get!(s)) == (8, 8), "let_thunk! gives {:?}", (get!(t), get!(s)));
        runs();
        let (v, w, t, s) = let_memo!{ v = (ma) = three(1, 2, 3); w = (mb) = one(2); (v, w, ma, mb) };
        ensure!(runs() == vec![("three", vec![1, 2, 3]), ("one", vec![2])], "let_memo! does not evaluate once each");
        ensure!((v, w, get!(t), get!(s)) == (117, 15, 117, 15), "let_memo! gives {:?}", (v, w, get!(t), get!(s)));
        ensure!(t == place(&name_of_str("ma"), &None) && s == place(&name_of_str("mb"), &None), "let_memo! binds {:?}", (&t, &s));
        runs();
        let t: Art<i64> = thunk![[bname] { two(3, 4) }]; let u: Art<i64> = thunk![[bname2] two(3, 5)];
        ensure!(runs().is_empty(), "thunk![[name] body] evaluates");
        ensure!(t == place(&name_of_str("bname"), &None) && (get!(t), get!(u)) == (26, 25), "thunk![[name] body] is {:?} and gives {:?}", t, (get!(t), get!(u)));
        runs();
        let n = if r.chance(50) { Some(name(4)) } else { None };
        let t: Art<i64> = thunk![[n.clone()]? { two(4, 4) }];
        ensure!(runs().is_empty() == n.is_some(), "thunk![[{:?}]? body] is evaluated at the wrong time", n);
        ensure!(get!(t) == 36 && t == n.clone().map_or(put(36), |n| place(&n, &None)), "thunk![[{:?}]? body] is {:?} and gives {}", n, t, get!(t));
        runs();
        let t: Art<i64> = thunk![ two(5, 4) ]; let u: Art<i64> = thunk![ two(5, 4) ];
        ensure!(runs().is_empty() && t != u && (get!(t), get!(u)) == (46, 46), "unnamed thunks are {:?}, {:?} and give {:?}", t, u, (get!(t), get!(u)));
        // the name of one body is not silently shared with another
        let two_bodies = r.below(5);
        let got = catch_unwind(AssertUnwindSafe(|| match two_bodies {
            0 => { let t: Art<i64> = thunk![[shared] { two(6, 1) }]; let x = get!(t); let u: Art<i64> = thunk![[shared] { two(6, 2) }]; (x, get!(u)) }
            1 => { let x = let_memo!{ v = (shm) = one(3); v }; let y = let_memo!{ v = (shm) = two(6, 2); v }; (x + 37, y) }
            2 => { let t = let_thunk!{ sht = two(6, 1); sht }; let x = get!(t); let u = let_thunk!{ sht = two(6, 2); sht }; (x, get!(u)) }
            3 => { let t: Art<i64> = thunk![[Some(name(6))]? { two(6, 1) }]; let x = get!(t); let u: Art<i64> = thunk![[Some(name(6))]? { two(6, 2) }]; (x, get!(u)) }
            _ => { let (_, x) = memo!([Some(name(7))]? two; x: 6, y: 1); let (_, y) = memo!([Some(name(7))]? gen; x: 20, y: 2); (x, y) }
        }));
        if let Ok(g) = got { ensure!(g == (59, 58), "two bodies under one name give {:?} (form {})", g, two_bodies) }
        // forks
        let n = name(8);
        let (l, q) = fork!(n.clone()); ensure!((l.clone(), q.clone()) == name_fork(n.clone()), "fork! gives {:?}", (l, q));
        let (l, q) = forko!(Some(n.clone())); let (wl, wq) = name_fork(n.clone()); ensure!((l.clone(), q.clone()) == (Some(wl), Some(wq)), "forko! gives {:?}", (l, q));
        let none: Option<Name> = None; let p: (Option<Name>, Option<Name>) = forko!(none); ensure!(p == (None, None), "forko! of no name gives {:?}", p);
        Ok(12)
    })();
    init_naive();
    res
}
/// `get!` with a value for cycles
fn cycles(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    init_dcg();
    let (a, out) = (r.val(9), r.val(9));
    let res = (|| -> Result<u64, String> {
        fn go(me: Option<i64>, n: i64, out: i64) -> i64 { // demands itself once
            let t = thunk!([Some(name_of_str("cyc"))]? go; m: me, n: n, o: out);
            get!(t, out) + n
        }
        let t = thunk!([Some(name_of_str("cyc"))]? go; m: None::<i64>, n: a, o: out);
        let v = get!(t, out);
        ensure!(v == out + a, "a cycle through get! gives {} instead of {}", v, out + a);
        let c = cell!(a); ensure!(get!(c, out) == a, "get! with a value for cycles gives {} for a cell of {}", get!(c, out), a);
        Ok(2)
    })();
    init_naive();
    res
}
pub fn cases() -> Vec<(&'static str, Case)> { vec![("thunks and memos", thunks as Case), ("cells, bodies, let forms, forks", rest), ("cycles", cycles)] }
