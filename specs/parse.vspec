//@ source src/parse_val.rs
//@ source src/reflect.rs
//@ source src/engine.rs
//@ keep name_of_str name_of_string name_of_usize name_of_isize name_of_hash64 name_pair name_fork name_unit Val Name
//@ opt natfn fmtdebug streq collectstr
//@ opt shimm:reverse=vp_reverse:mut shimm:to_digit=vp_to_digit:own shimm:to_string=vp_char_string:own shimm:as_bytes=vp_as_bytes:ref shimm:into_bytes=vp_into_bytes:own
//@ opt shimf:String::from_utf8=vp_from_utf8 shimf:isize::from_str_radix=vp_isize_dec shimf:usize::from_str_radix=vp_usize_dec shimf:std::char::from_u32=vp_from_u32
use vstd::prelude::*;
use std::rc::Rc;
verus! {
global size_of usize == 8;
#[verifier::external_body]
pub fn vp_panic<T>() -> (r: T) requires false { unimplemented!() }
pub fn vp_assert(b: bool) requires b {}
pub trait VpClone { fn vclone(&self) -> (r: Self) where Self: Sized ensures r == *self; }
impl VpClone for String { #[verifier::external_body] fn vclone(&self) -> (r: Self) { self.clone() } }
impl VpClone for usize { fn vclone(&self) -> (r: Self) { *self } }
impl VpClone for isize { fn vclone(&self) -> (r: Self) { *self } }
impl<T> VpClone for Vec<T> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub fn vp_vec1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] { vec![a] }
// ---- names: module `names` discharges these contracts on the real functions
#[verifier::external_body]
pub struct Name { x: u64 }
pub enum NT { Unit, Hash(u64), Usize(usize), Isize(isize), Str(Seq<char>), Pair(Box<NT>, Box<NT>), ForkL(Box<NT>), ForkR(Box<NT>) }
impl View for Name { type V = NT; uninterp spec fn view(&self) -> NT; }
impl VpClone for Name { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub fn name_unit() -> (r: Name) ensures r@ == NT::Unit { unimplemented!() }
#[verifier::external_body] pub fn name_of_hash64(h: u64) -> (r: Name) ensures r@ == NT::Hash(h) { unimplemented!() }
#[verifier::external_body] pub fn name_of_usize(h: usize) -> (r: Name) ensures r@ == NT::Usize(h) { unimplemented!() }
#[verifier::external_body] pub fn name_of_isize(h: isize) -> (r: Name) ensures r@ == NT::Isize(h) { unimplemented!() }
#[verifier::external_body] pub fn name_of_string(h: String) -> (r: Name) ensures r@ == NT::Str(h@) { unimplemented!() }
#[verifier::external_body] pub fn name_of_str(h: &'static str) -> (r: Name) ensures r@ == NT::Str(h@) { unimplemented!() }
#[verifier::external_body] pub fn name_pair(a: Name, b: Name) -> (r: Name) ensures r@ == NT::Pair(Box::new(a@), Box::new(b@)) { unimplemented!() }
#[verifier::external_body] pub fn name_fork(a: Name) -> (r: (Name, Name)) ensures r.0@ == NT::ForkL(Box::new(a@)), r.1@ == NT::ForkR(Box::new(a@)) { unimplemented!() }
// ---- equality
pub trait VE { type E; spec fn ev(&self) -> Self::E; }
impl VE for Name { type E = NT; open spec fn ev(&self) -> NT { self@ } }
impl VE for Tok { type E = TV; open spec fn ev(&self) -> TV { tv(*self) } }
#[verifier::external_body] pub fn vp_eq<T: VE>(a: &T, b: &T) -> (r: bool) ensures r == (a.ev() == b.ev()) { unimplemented!() }
#[verifier::external_body] pub fn vp_str_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// ---- the standard library
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn debug_text<V>(v: V) -> Seq<char>;
#[verifier::external_body] pub fn vp_debug<V>(v: &V) -> (r: String) ensures r@ == debug_text(*v) { unimplemented!() }
#[verifier::external_body] pub fn vp_into_bytes(s: String) -> (r: Vec<u8>) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body] pub fn vp_as_bytes(s: &String) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body] pub fn vp_char_string(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
#[verifier::external_body] pub fn vp_from_utf8(v: Vec<u8>) -> (r: Result<String, ()>)
    ensures forall|s: Seq<char>| utf8(s) == v@ ==> r is Ok && r->Ok_0@ == s { unimplemented!() }
#[verifier::external_body] pub fn vp_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
#[verifier::external_body] pub fn vp_collect_string(v: Vec<char>) -> (r: String) ensures r@ == v@ { unimplemented!() }
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn is_hex(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub open spec fn hexval(c: char) -> u32 { if '0' <= c <= '9' { (c as u32 - 48) as u32 } else if 'a' <= c <= 'f' { (c as u32 - 87) as u32 } else { (c as u32 - 55) as u32 } }
#[verifier::external_body] pub fn vp_to_digit(c: char, radix: u32) -> (r: Option<u32>) ensures radix == 16 && is_hex(c) ==> r == Some(hexval(c)) { unimplemented!() }
pub open spec fn ch(c: char) -> u32 { c as u32 }
#[verifier::external_body] pub fn vp_from_u32(c: u32) -> (r: Option<char>) ensures forall|x: char| #[trigger] ch(x) == c ==> r == Some(x) { unimplemented!() }
pub open spec fn dec(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { 10 * dec(s.drop_last()) + (s.last() as u32 - 48) as nat } }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
#[verifier::external_body] pub fn vp_usize_dec(s: &str, radix: u32) -> (r: Result<usize, ()>)
    ensures radix == 10 && digits(s@) && dec(s@) <= usize::MAX ==> r == Ok::<usize, ()>(dec(s@) as usize) { unimplemented!() }
#[verifier::external_body] pub fn vp_isize_dec(s: &str, radix: u32) -> (r: Result<isize, ()>)
    ensures radix == 10 && s@.len() > 1 && s@[0] == '-' && digits(s@.skip(1)) && -dec(s@.skip(1)) >= isize::MIN ==> r == Ok::<isize, ()>((-dec(s@.skip(1))) as isize) { unimplemented!() }

//@ type src/reflect.rs#Path
//@ enum src/reflect.rs#Val
//@ enum src/reflect.rs#Const
//@ enum src/reflect.rs#ArtContent
//@ struct src/reflect.rs#Loc
//@ enum BalTok
//@ enum Tok
//@ end
pub ghost enum TV { Left(BalTok), Right(BalTok), Num(isize), Nat(usize), Str(Seq<char>), Id(Seq<char>), Colon, Comma }
pub open spec fn tv(t: Tok) -> TV { match t {
    Tok::Left(b) => TV::Left(b), Tok::Right(b) => TV::Right(b), Tok::Const(Const::Num(n)) => TV::Num(n), Tok::Const(Const::Nat(n)) => TV::Nat(n),
    Tok::Const(Const::String(s)) => TV::Str(s@), Tok::Ident(s) => TV::Id(s@), Tok::Colon => TV::Colon, Tok::Comma => TV::Comma } }

// ---- what a text denotes, and the tokens of its text
pub ghost enum PV { Num(isize), Nat(usize), Str(Seq<char>), Tuple(Seq<PV>), Vec(bool, Seq<PV>), Con(Seq<char>, Seq<PV>), Struct(Seq<char>, Seq<(Seq<char>, PV)>) }
/// `f(a, b)`, `(a, b)`, `(a,)`, `[a, b]`, `[,a,b]` (how a path is written), `f { x: a, y: b }`
pub open spec fn ptoks(p: PV) -> Seq<TV> decreases p { match p {
    PV::Num(n) => seq![TV::Num(n)],
    PV::Nat(n) => seq![TV::Nat(n)],
    PV::Str(s) => seq![TV::Str(s)],
    PV::Tuple(ps) => seq![TV::Left(BalTok::Paren)] + seps(ps, 0, false, ps.len() == 1) + seq![TV::Right(BalTok::Paren)],
    PV::Vec(lead, ps) => seq![TV::Left(BalTok::Bracket)] + seps(ps, 0, lead, false) + seq![TV::Right(BalTok::Bracket)],
    PV::Con(c, ps) => if ps.len() == 0 { seq![TV::Id(c)] } else { seq![TV::Id(c), TV::Left(BalTok::Paren)] + seps(ps, 0, false, false) + seq![TV::Right(BalTok::Paren)] },
    PV::Struct(c, fs) => seq![TV::Id(c), TV::Left(BalTok::Brace)] + fseps(fs, 0, false) + seq![TV::Right(BalTok::Brace)],
} }
/// the elements from `k` on, after a comma if `c`; a comma at the end if `trail`
pub open spec fn seps(ps: Seq<PV>, k: int, c: bool, trail: bool) -> Seq<TV> decreases ps, ps.len() - k, (if c { 1int } else { 0int }) {
    if c { seq![TV::Comma] + seps(ps, k, false, trail) }
    else if 0 <= k < ps.len() { ptoks(ps[k]) + seps(ps, k + 1, k + 1 < ps.len() || trail, trail) }
    else { Seq::empty() }
}
pub open spec fn fseps(fs: Seq<(Seq<char>, PV)>, k: int, c: bool) -> Seq<TV> decreases fs, fs.len() - k, (if c { 1int } else { 0int }) {
    if c { seq![TV::Comma] + fseps(fs, k, false) }
    else if 0 <= k < fs.len() { seq![TV::Id(fs[k].0), TV::Colon] + ptoks(fs[k].1) + fseps(fs, k + 1, k + 1 < fs.len()) }
    else { Seq::empty() }
}
/// the name whose text this is
pub open spec fn as_name(p: PV) -> Option<NT> decreases p {
    match p { PV::Con(c, ps) => {
        if c == "Unit"@ { Some(NT::Unit) }
        else if c == "Hash64"@ { if ps.len() == 1 && ps[0] is Nat { Some(NT::Hash(ps[0]->Nat_0 as u64)) } else { None } }
        else if c == "String"@ { if ps.len() == 1 && ps[0] is Str { Some(NT::Str(ps[0]->Str_0)) } else { None } }
        else if c == "Usize"@ { if ps.len() == 1 && ps[0] is Nat { Some(NT::Usize(ps[0]->Nat_0)) } else { None } }
        else if c == "Isize"@ { if ps.len() == 1 && ps[0] is Nat { Some(NT::Isize(ps[0]->Nat_0 as isize)) } else if ps.len() == 1 && ps[0] is Num { Some(NT::Isize(ps[0]->Num_0)) } else { None } }
        else if c == "Pair"@ { if ps.len() == 2 { match (as_name(ps[0]), as_name(ps[1])) { (Some(a), Some(b)) => Some(NT::Pair(Box::new(a), Box::new(b))), _ => None } } else { None } }
        else if c == "ForkL"@ { if ps.len() == 1 { match as_name(ps[0]) { Some(a) => Some(NT::ForkL(Box::new(a))), _ => None } } else { None } }
        else if c == "ForkR"@ { if ps.len() == 1 { match as_name(ps[0]) { Some(a) => Some(NT::ForkR(Box::new(a))), _ => None } } else { None } }
        else { None }
    } _ => None }
}
/// the constructors of names are not used for something else
pub open spec fn arity_ok(c: Seq<char>, n: nat) -> bool {
    if c == "Unit"@ { n == 0 }
    else if c == "Hash64"@ || c == "String"@ || c == "Usize"@ || c == "Isize"@ { n <= 1 }
    else if c == "Pair"@ { n == 0 || n == 2 }
    else if c == "ForkL"@ || c == "ForkR"@ { n <= 1 }
    else { true }
}
pub open spec fn name_ok(p: PV) -> bool { p is Nat || as_name(p) is Some }
/// a structural identity is written as its hash
pub open spec fn name_of(p: PV) -> NT { match p { PV::Nat(h) => NT::Hash(h as u64), _ => as_name(p)->Some_0 } }
/// `Art { art: Loc { path: _, id: _ } }`
pub open spec fn art_shape(p: PV) -> bool { match p {
    PV::Struct(c, fs) => c == "Art"@ && fs.len() == 1 && fs[0].0 == "art"@ && (match fs[0].1 {
        PV::Struct(d, gs) => d == "Loc"@ && gs.len() == 2 && gs[0].0 == "path"@ && gs[1].0 == "id"@, _ => false }),
    _ => false } }
pub open spec fn art_path(p: PV) -> PV { p->Struct_1[0].1->Struct_1[0].1 }
pub open spec fn art_id(p: PV) -> PV { p->Struct_1[0].1->Struct_1[1].1 }
pub open spec fn wf(p: PV) -> bool decreases p { match p {
    PV::Num(_) | PV::Nat(_) | PV::Str(_) => true,
    PV::Tuple(ps) => forall|i: int| 0 <= i < ps.len() ==> wf(#[trigger] ps[i]),
    PV::Vec(_, ps) => forall|i: int| 0 <= i < ps.len() ==> wf(#[trigger] ps[i]),
    PV::Con(c, ps) => arity_ok(c, ps.len()) && forall|i: int| 0 <= i < ps.len() ==> wf(#[trigger] ps[i]),
    PV::Struct(c, fs) => (forall|i: int| 0 <= i < fs.len() ==> wf((#[trigger] fs[i]).1))
        && (art_shape(p) ==> art_path(p) is Vec && (forall|i: int| 0 <= i < art_path(p)->Vec_1.len() ==> name_ok(#[trigger] art_path(p)->Vec_1[i])) && name_ok(art_id(p))),
} }
/// `v` is the reflected value of the text that `p` describes
pub open spec fn is(v: Val, p: PV) -> bool decreases p { match p {
    PV::Num(n) => v == Val::Const(Const::Num(n)),
    PV::Nat(n) => v == Val::Const(Const::Nat(n)),
    PV::Str(s) => v is Const && v->Const_0 is String && v->Const_0->String_0@ == s,
    PV::Tuple(ps) => v is Tuple && v->Tuple_0@.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> is(#[trigger] v->Tuple_0@[i], ps[i]),
    PV::Vec(_, ps) => v is Vec && v->Vec_0@.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> is(#[trigger] v->Vec_0@[i], ps[i]),
    PV::Con(c, ps) => if ps.len() > 0 && as_name(p) is Some { v is Name && v->Name_0@ == as_name(p)->Some_0 } else {
        v is Constr && v->Constr_0@ == NT::Str(c) && v->Constr_1@.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> is(#[trigger] v->Constr_1@[i], ps[i]) },
    PV::Struct(c, fs) => if art_shape(p) { v is Art && v->Art_1 is Unknown && v->Art_0.name@ == name_of(art_id(p))
            && v->Art_0.path@.len() == art_path(p)->Vec_1.len() && forall|i: int| 0 <= i < art_path(p)->Vec_1.len() ==> (#[trigger] v->Art_0.path@[i])@ == name_of(art_path(p)->Vec_1[i]) }
        else { v is Struct && v->Struct_0@ == NT::Str(c) && v->Struct_1@.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> (#[trigger] v->Struct_1@[i]).0@ == NT::Str(fs[i].0) && is(v->Struct_1@[i].1, fs[i].1) },
} }
pub open spec fn iss(vs: Seq<Val>, ps: Seq<PV>, k: int) -> bool { 0 <= k <= ps.len() && vs.len() == k && forall|i: int| 0 <= i < k ==> is(#[trigger] vs[i], ps[i]) }
pub open spec fn issall(vs: Seq<Val>, ps: Seq<PV>) -> bool { iss(vs, ps, ps.len() as int) }
pub open spec fn isf(vs: Seq<(Name, Val)>, fs: Seq<(Seq<char>, PV)>, k: int) -> bool { 0 <= k <= fs.len() && vs.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] vs[i]).0@ == NT::Str(fs[i].0) && is(vs[i].1, fs[i].1) }

pub open spec fn named(ns: Seq<Name>, ps: Seq<PV>, k: int) -> bool { ns.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] ns[i])@ == name_of(ps[i]) }
/// the value of a constructor before it is found to be a name
pub open spec fn raw(v: Val, q: PV) -> bool { q is Con && v is Constr && v->Constr_0@ == NT::Str(q->Con_0) && issall(v->Constr_1@, kids(q)) }
/// one level of `is` and of `wf`
pub proof fn is_kids(v: Val, q: PV)
    ensures is(v, q) && v is Constr ==> iss(v->Constr_1@, kids(q), kids(q).len() as int),
        is(v, q) && v is Vec ==> iss(v->Vec_0@, kids(q), kids(q).len() as int),
        is(v, q) && v is Tuple ==> iss(v->Tuple_0@, kids(q), kids(q).len() as int),
        is(v, q) && v is Struct ==> isf(v->Struct_1@, fkids(q), fkids(q).len() as int),
{}
pub proof fn wf_kids(q: PV)
    ensures wf(q) ==> (forall|i: int| 0 <= i < kids(q).len() ==> wf(#[trigger] kids(q)[i])) && (forall|i: int| 0 <= i < fkids(q).len() ==> wf((#[trigger] fkids(q)[i]).1)),
{}
// ---- a reversed vector of tokens
pub open spec fn rv(s: Seq<Tok>) -> Seq<TV> { Seq::new(s.len(), |i: int| tv(s[s.len() - 1 - i])) }
pub proof fn rv_pop(s: Seq<Tok>)
    ensures rv(s).len() == s.len(), s.len() > 0 ==> rv(s)[0] == tv(s.last()) && rv(s.drop_last()) == rv(s).skip(1) && s.drop_last() == s.subrange(0, s.len() - 1) && rv(s) == seq![tv(s.last())] + rv(s.drop_last()) && s.drop_last().push(s.last()) == s,
{ if s.len() > 0 { assert(rv(s.drop_last()) =~= rv(s).skip(1)); assert(rv(s) =~= seq![tv(s.last())] + rv(s.drop_last())); assert(s.drop_last().push(s.last()) =~= s); } }
pub open spec fn rest_ok(rest: Seq<TV>) -> bool { rest.len() == 0 || rest[0] == TV::Comma || rest[0] is Right }
pub open spec fn opens(t: TV) -> bool { !(t is Right) && t != TV::Comma && t != TV::Colon }
pub proof fn first(p: PV) ensures ptoks(p).len() > 0, opens(ptoks(p)[0]) {}
pub open spec fn kids(p: PV) -> Seq<PV> { match p { PV::Tuple(ps) => ps, PV::Vec(_, ps) => ps, PV::Con(_, ps) => ps, _ => Seq::empty() } }
pub open spec fn fkids(p: PV) -> Seq<(Seq<char>, PV)> { match p { PV::Struct(_, fs) => fs, _ => Seq::empty() } }
pub open spec fn lead(p: PV) -> bool { match p { PV::Vec(l, _) => l, _ => false } }
pub open spec fn trail(p: PV) -> bool { match p { PV::Tuple(ps) => ps.len() == 1, _ => false } }
pub open spec fn head(p: PV) -> TV { match p { PV::Num(n) => TV::Num(n), PV::Nat(n) => TV::Nat(n), PV::Str(s) => TV::Str(s), PV::Tuple(_) => TV::Left(BalTok::Paren), PV::Vec(_, _) => TV::Left(BalTok::Bracket), PV::Con(c, _) => TV::Id(c), PV::Struct(c, _) => TV::Id(c) } }
/// the tokens of `p` and the rest, one or two tokens in
pub proof fn enter(p: PV, rest: Seq<TV>)
    ensures ptoks(p).len() > 0, opens(ptoks(p)[0]), (ptoks(p) + rest)[0] == ptoks(p)[0],
        (ptoks(p) + rest)[0] == head(p), p is Con ==> PV::Con(p->Con_0, kids(p)) == p,
        match p {
            PV::Num(_) | PV::Nat(_) | PV::Str(_) => (ptoks(p) + rest).skip(1) == rest,
            PV::Tuple(ps) => (ptoks(p) + rest).skip(1) == seps(ps, 0, false, ps.len() == 1) + seq![TV::Right(BalTok::Paren)] + rest,
            PV::Vec(l, ps) => (ptoks(p) + rest).skip(1) == seps(ps, 0, l, false) + seq![TV::Right(BalTok::Bracket)] + rest,
            PV::Con(c, ps) => if ps.len() == 0 { (ptoks(p) + rest).skip(1) == rest } else { (ptoks(p) + rest)[1] == TV::Left(BalTok::Paren) && (ptoks(p) + rest).skip(1).skip(1) == seps(ps, 0, false, false) + seq![TV::Right(BalTok::Paren)] + rest },
            PV::Struct(c, fs) => (ptoks(p) + rest)[1] == TV::Left(BalTok::Brace) && (ptoks(p) + rest).skip(1).skip(1) == fseps(fs, 0, false) + seq![TV::Right(BalTok::Brace)] + rest,
        },
{
    let t = ptoks(p) + rest;
    match p {
        PV::Num(_) | PV::Nat(_) | PV::Str(_) => { assert(t.skip(1) =~= rest); }
        PV::Tuple(ps) => { assert(t.skip(1) =~= seps(ps, 0, false, ps.len() == 1) + seq![TV::Right(BalTok::Paren)] + rest); }
        PV::Vec(l, ps) => { assert(t.skip(1) =~= seps(ps, 0, l, false) + seq![TV::Right(BalTok::Bracket)] + rest); }
        PV::Con(c, ps) => { if ps.len() == 0 { assert(t.skip(1) =~= rest); } else { assert(t.skip(1).skip(1) =~= seps(ps, 0, false, false) + seq![TV::Right(BalTok::Paren)] + rest); } }
        PV::Struct(c, fs) => { assert(t.skip(1).skip(1) =~= fseps(fs, 0, false) + seq![TV::Right(BalTok::Brace)] + rest); }
    }
}
pub open spec fn stail(ps: Seq<PV>, k: int, c: bool, trail: bool, bal: TV, rest: Seq<TV>) -> Seq<TV> { seps(ps, k, c, trail) + seq![bal] + rest }
pub proof fn sep_step(ps: Seq<PV>, k: int, c: bool, trail: bool, bal: TV, rest: Seq<TV>)
    requires 0 <= k <= ps.len(), bal is Right,
    ensures ({ let s = stail(ps, k, c, trail, bal, rest); s.len() > 0 &&
        if c { s[0] == TV::Comma && s.skip(1) == stail(ps, k, false, trail, bal, rest) }
        else if k < ps.len() { let r = stail(ps, k + 1, k + 1 < ps.len() || trail, trail, bal, rest); s == ptoks(ps[k]) + r && opens(s[0]) && rest_ok(r) && s.len() > r.len() }
        else { s[0] == bal && s.skip(1) == rest } }),
{
    let s = stail(ps, k, c, trail, bal, rest);
    if c { assert(s.skip(1) =~= stail(ps, k, false, trail, bal, rest)); }
    else if k < ps.len() { first(ps[k]); assert(s =~= ptoks(ps[k]) + stail(ps, k + 1, k + 1 < ps.len() || trail, trail, bal, rest)); }
    else { assert(s.skip(1) =~= rest); }
}
pub open spec fn ftail(fs: Seq<(Seq<char>, PV)>, k: int, c: bool, bal: TV, rest: Seq<TV>) -> Seq<TV> { fseps(fs, k, c) + seq![bal] + rest }
pub proof fn fsep_step(fs: Seq<(Seq<char>, PV)>, k: int, c: bool, bal: TV, rest: Seq<TV>)
    requires 0 <= k <= fs.len(), bal is Right,
    ensures ({ let s = ftail(fs, k, c, bal, rest); s.len() > 0 &&
        if c { s[0] == TV::Comma && s.skip(1) == ftail(fs, k, false, bal, rest) }
        else if k < fs.len() { let r = ftail(fs, k + 1, k + 1 < fs.len(), bal, rest); s.len() > 1 && s[0] == TV::Id(fs[k].0) && s[1] == TV::Colon && s.skip(1)[0] == TV::Colon && s.skip(1).skip(1) == ptoks(fs[k].1) + r && rest_ok(r) && s.len() > r.len() }
        else { s[0] == bal && s.skip(1) == rest } }),
{
    let s = ftail(fs, k, c, bal, rest);
    if c { assert(s.skip(1) =~= ftail(fs, k, false, bal, rest)); }
    else if k < fs.len() { assert(s.skip(1).skip(1) =~= ptoks(fs[k].1) + ftail(fs, k + 1, k + 1 < fs.len(), bal, rest)); }
    else { assert(s.skip(1) =~= rest); }
}
pub proof fn lits()
    ensures "Art"@ != "Loc"@, "Unit"@ != "Hash64"@,
{ reveal_strlit("Art"); reveal_strlit("Loc"); reveal_strlit("Unit"); reveal_strlit("Hash64"); assert("Art"@[0] != "Loc"@[0]); assert("Unit"@[0] != "Hash64"@[0]); }

// ---- the parser
//@ fn expect_tok
//@@ params toks, tok
    requires rv(toks@).len() > 0, rv(toks@)[0] == tv(tok),
    ensures r@.len() + 1 == toks@.len(), rv(r@) == rv(toks@).skip(1), // [R01] the expected token is consumed
//@@ entry
    proof { rv_pop(toks@); }
//@ fn parse_vals
//@@ params toks, vals, bal
//@@ ghost ps: Seq<PV>
//@@ ghost k: int
//@@ ghost c: bool
//@@ ghost tr: bool
//@@ ghost rest: Seq<TV>
    requires tv(bal) is Right, iss(vals@, ps, k), forall|i: int| 0 <= i < ps.len() ==> wf(#[trigger] ps[i]),
        rv(toks@) == stail(ps, k, c, tr, tv(bal), rest),
    ensures issall(r.0@, ps), // [R01] a list of values is read as these values, in order
        rv(r.1@) == rest,
    decreases toks.len(), 1int
//@@ entry
    proof { rv_pop(toks@); sep_step(ps, k, c, tr, tv(bal), rest); }
//@@ callghost parse_vals Ghost(ps), Ghost(if c { k } else { k + 1 }), Ghost(if c { false } else { k + 1 < ps.len() || tr }), Ghost(tr), Ghost(rest)
//@@ callghost parse_val_rec Ghost(ps[k]), Ghost(stail(ps, k + 1, k + 1 < ps.len() || tr, tr, tv(bal), rest))
//@ fn parse_fields
//@@ params toks, fields, bal
//@@ ghost fs: Seq<(Seq<char>, PV)>
//@@ ghost k: int
//@@ ghost c: bool
//@@ ghost rest: Seq<TV>
    requires tv(bal) is Right, isf(fields@, fs, k), forall|i: int| 0 <= i < fs.len() ==> wf((#[trigger] fs[i]).1),
        rv(toks@) == ftail(fs, k, c, tv(bal), rest),
    ensures isf(r.0@, fs, fs.len() as int), // [R01] a list of fields is read as these fields, in order
        rv(r.1@) == rest,
    decreases toks.len(), 1int
//@@ entry
    proof { rv_pop(toks@); fsep_step(fs, k, c, tv(bal), rest); }
//@@ callghost parse_fields Ghost(fs), Ghost(if c { k } else { k + 1 }), Ghost(if c { false } else { k + 1 < fs.len() }), Ghost(rest)
//@@ callghost parse_val_rec Ghost(fs[k].1), Ghost(ftail(fs, k + 1, k + 1 < fs.len(), tv(bal), rest))
//@ fn path_of_val
//@@ params p
//@@ ghost q: PV
    requires is(*p, q), q is Vec, forall|i: int| 0 <= i < q->Vec_1.len() ==> name_ok(#[trigger] q->Vec_1[i]),
    ensures r@.len() == q->Vec_1.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == name_of(q->Vec_1[i]), // [R01] the path of a reflected location has the names of its text, in order
//@@ callghost name_of_val Ghost(kids(q)[vp_i0 - 1])
//@@ loop 0
    invariant is(*p, q), q is Vec, *vp_s0 == p->Vec_0, p is Vec, forall|i: int| 0 <= i < q->Vec_1.len() ==> name_ok(#[trigger] q->Vec_1[i]),
        vp_i0 <= vp_s0@.len(), named(vp_out0@, q->Vec_1, vp_i0 as int),
    decreases vp_s0@.len() - vp_i0
//@ fn name_of_val
//@@ params n
//@@ ghost q: PV
    requires is(*n, q), name_ok(q),
    ensures r@ == name_of(q), // [R01] the name of a reflected location is the one of its text
    decreases q
//@@ callghost name_of_val Ghost(q)
//@ fn name_option_of_val
//@@ params n
    ensures forall|q: PV| #[trigger] wf(q) && (is(*n, q) || raw(*n, q)) ==> (match r { Some(x) => as_name(q) == Some(x@), None => as_name(q) is None }), // [R01] the text of a name, and no other, is read as this name
    decreases n
//@@ entry
    proof { assert forall|q: PV| #[trigger] is(*n, q) implies (*n is Constr ==> issall(n->Constr_1@, kids(q))) by { is_kids(*n, q); }
        assert forall|q: PV| #[trigger] wf(q) implies (forall|i: int| 0 <= i < kids(q).len() ==> wf(#[trigger] kids(q)[i])) by { wf_kids(q); } }
//@ fn parse_art_val
//@@ params i, fields
//@@ ghost q: PV
    requires q is Struct, q->Struct_0 == i@, isf(fields@, q->Struct_1, q->Struct_1.len() as int), wf(q),
    ensures match r { Some(v) => art_shape(q) && is(v, q), None => !art_shape(q) }, // [R01] the text of an articulation is read as its location, other texts are not
//@@ entry
    proof { lits(); }
//@@ callghost path_of_val Ghost(art_path(q))
//@@ callghost name_of_val Ghost(art_id(q))
//@ fn parse_val_rec
//@@ params toks
//@@ ghost p: PV
//@@ ghost rest: Seq<TV>
    requires wf(p), rest_ok(rest), rv(toks@) == ptoks(p) + rest,
    ensures is(r.0, p), // [R01] the tokens of a value are read as this value
        rv(r.1@) == rest,
    decreases toks.len(), 0int
//@@ entry
    hide(as_name); hide(art_shape);
    proof { rv_pop(toks@); rv_pop(toks@.drop_last()); enter(p, rest); wf_kids(p); }
//@@ callghost parse_vals Ghost(kids(p)), Ghost(0int), Ghost(lead(p)), Ghost(trail(p)), Ghost(rest)
//@@ callghost parse_fields Ghost(fkids(p)), Ghost(0int), Ghost(false), Ghost(rest)
//@@ callghost parse_art_val Ghost(p)
//@ fn parse_toks
//@@ params toks
//@@ ghost p: PV
    requires wf(p), toks@.map_values(|t: Tok| tv(t)) == ptoks(p),
    ensures is(r, p), // [R01] the tokens of a value are read as this value, all of them
//@@ entry
    proof { assert(rv(toks@.reverse()) =~= ptoks(p) + Seq::empty()) by { assert(toks@.map_values(|t: Tok| tv(t)).len() == ptoks(p).len()); assert forall|i: int| 0 <= i < ptoks(p).len() implies rv(toks@.reverse())[i] == ptoks(p)[i] by { assert(toks@.map_values(|t: Tok| tv(t))[i] == tv(toks@[i])); } } }
//@@ callghost parse_val_rec Ghost(p), Ghost(Seq::empty())
//@@ after parse_val_rec
    proof { assert(rv(toks@).len() == toks@.len()); }
//@ end

// ---- the lexer: a text is a sequence of pieces
/// the text of a string between its quotes: bytes as they are, and escape sequences
pub ghost enum Item { Raw(u8), Esc(u8), Uni(Seq<u8>, char) }
pub open spec fn esc(e: u8) -> u8 { if e == 110 { 10 } else if e == 114 { 13 } else if e == 116 { 9 } else if e == 48 { 0 } else { e } }
pub open spec fn hexnum(h: Seq<u8>) -> nat decreases h.len() { if h.len() == 0 { 0 } else { 16 * hexnum(h.drop_last()) + hexval(h.last() as char) as nat } }
pub open spec fn itext(i: Item) -> Seq<u8> { match i { Item::Raw(b) => seq![b], Item::Esc(e) => seq![92u8, e], Item::Uni(h, _) => seq![92u8, 117u8, 123u8] + h + seq![125u8] } }
pub open spec fn idec(i: Item) -> Seq<u8> { match i { Item::Raw(b) => seq![b], Item::Esc(e) => seq![esc(e)], Item::Uni(_, c) => utf8(seq![c]) } }
pub open spec fn iok(i: Item) -> bool { match i { Item::Raw(b) => b != 34 && b != 92, Item::Esc(e) => e != 117,
    Item::Uni(h, c) => hexnum(h) == ch(c) && forall|k: int| 0 <= k < h.len() ==> is_hex(#[trigger] h[k] as char) } }
pub open spec fn itexts(its: Seq<Item>, k: int) -> Seq<u8> decreases its.len() - k { if 0 <= k < its.len() { itext(its[k]) + itexts(its, k + 1) } else { Seq::empty() } }
pub open spec fn idecs(its: Seq<Item>, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { idecs(its, k - 1) + idec(its[k - 1]) } }
pub open spec fn text(b: Seq<u8>) -> Seq<char> { b.map_values(|x: u8| x as char) }
pub open spec fn idbyte(b: u8) -> bool { 97 <= b <= 122 || 65 <= b <= 90 || 48 <= b <= 57 || b == 95 }
pub open spec fn dgbyte(b: u8) -> bool { 48 <= b <= 57 }
pub ghost enum Piece { Sp, Sym(TV), Str(Seq<char>, Seq<Item>), Nat(usize, Seq<u8>), Num(isize, Seq<u8>), Id(Seq<u8>) }
pub open spec fn symbyte(t: TV) -> u8 { match t { TV::Colon => 58, TV::Comma => 44, TV::Left(BalTok::Brace) => 123, TV::Left(BalTok::Bracket) => 91, TV::Left(BalTok::Paren) => 40,
    TV::Right(BalTok::Brace) => 125, TV::Right(BalTok::Bracket) => 93, TV::Right(BalTok::Paren) => 41, _ => 0 } }
pub open spec fn ptext(p: Piece) -> Seq<u8> { match p { Piece::Sp => seq![32u8], Piece::Sym(t) => seq![symbyte(t)], Piece::Str(_, its) => seq![34u8] + itexts(its, 0) + seq![34u8],
    Piece::Nat(_, b) => b, Piece::Num(_, b) => b, Piece::Id(b) => b } }
pub open spec fn ptok(p: Piece) -> TV { match p { Piece::Sp => TV::Comma, Piece::Sym(t) => t, Piece::Str(s, _) => TV::Str(s), Piece::Nat(n, _) => TV::Nat(n), Piece::Num(n, _) => TV::Num(n), Piece::Id(b) => TV::Id(text(b)) } }
pub open spec fn pok(p: Piece) -> bool { match p {
    Piece::Sp => true,
    Piece::Sym(t) => symbyte(t) != 0,
    Piece::Str(s, its) => idecs(its, its.len() as int) == utf8(s) && forall|k: int| 0 <= k < its.len() ==> iok(#[trigger] its[k]),
    Piece::Nat(n, b) => digits(text(b)) && dec(text(b)) == n && b.len() > 0 && forall|k: int| 0 <= k < b.len() ==> dgbyte(#[trigger] b[k]),
    Piece::Num(n, b) => b.len() > 1 && b[0] == 45 && digits(text(b).skip(1)) && -dec(text(b).skip(1)) == n && forall|k: int| 1 <= k < b.len() ==> dgbyte(#[trigger] b[k]),
    Piece::Id(b) => b.len() > 0 && !dgbyte(b[0]) && forall|k: int| 0 <= k < b.len() ==> idbyte(#[trigger] b[k]),
} }
pub open spec fn wordy(p: Piece) -> bool { p is Nat || p is Num || p is Id }
/// well-formed pieces, words not next to each other
pub open spec fn psok(ps: Seq<Piece>) -> bool { (forall|k: int| 0 <= k < ps.len() ==> pok(#[trigger] ps[k])) && (forall|k: int| 0 <= k < ps.len() - 1 && wordy(#[trigger] ps[k]) ==> !wordy(ps[k + 1])) }
pub open spec fn from(ps: Seq<Piece>, k: int) -> Seq<u8> decreases ps.len() - k { if 0 <= k < ps.len() { ptext(ps[k]) + from(ps, k + 1) } else { Seq::empty() } }
pub open spec fn upto(ps: Seq<Piece>, k: int) -> Seq<TV> decreases k { if k <= 0 { Seq::empty() } else if ps[k - 1] is Sp { upto(ps, k - 1) } else { upto(ps, k - 1).push(ptok(ps[k - 1])) } }
pub open spec fn tvs(s: Seq<Tok>) -> Seq<TV> { s.map_values(|t: Tok| tv(t)) }
pub open spec fn rb(s: Seq<u8>) -> Seq<u8> { s.reverse() }
pub open spec fn lexst(rem: Seq<u8>, toks: Seq<Tok>, ps: Seq<Piece>, k: int) -> bool { 0 <= k <= ps.len() && rem == from(ps, k) && tvs(toks) == upto(ps, k) }
pub proof fn rb_pop(s: Seq<u8>)
    ensures rb(s).len() == s.len(), s.len() > 0 ==> rb(s)[0] == s.last() && rb(s.drop_last()) == rb(s).skip(1) && s.drop_last() == s.subrange(0, s.len() - 1) && s.drop_last().push(s.last()) == s,
{ if s.len() > 0 { assert(rb(s.drop_last()) =~= rb(s).skip(1)); assert(s.drop_last().push(s.last()) =~= s); } }
pub proof fn lex_step(ps: Seq<Piece>, k: int, rem: Seq<u8>, toks: Seq<Tok>)
    requires lexst(rem, toks, ps, k), psok(ps),
    ensures k == ps.len() ==> rem.len() == 0,
        k < ps.len() ==> rem.len() > 0 && rem == ptext(ps[k]) + from(ps, k + 1) && pok(ps[k]) && (match ps[k] {
            Piece::Sp => rem[0] == 32 && lexst(rem.skip(1), toks, ps, k + 1),
            Piece::Sym(t) => rem[0] == symbyte(t) && rem.skip(1) == from(ps, k + 1),
            Piece::Str(_, its) => rem[0] == 34 && rem.skip(1) == itexts(its, 0) + seq![34u8] + from(ps, k + 1),
            Piece::Nat(_, b) => dgbyte(rem[0]) && rem[0] == b[0] && rem.skip(1) == b.skip(1) + from(ps, k + 1),
            Piece::Num(_, b) => rem[0] == 45 && rem[0] == b[0] && rem.skip(1) == b.skip(1) + from(ps, k + 1),
            Piece::Id(b) => idbyte(rem[0]) && !dgbyte(rem[0]) && rem[0] == b[0] && rem.skip(1) == b.skip(1) + from(ps, k + 1),
        }),
        k < ps.len() && !(ps[k] is Sp) ==> forall|t: Tok| tv(t) == ptok(ps[k]) ==> lexst(from(ps, k + 1), #[trigger] toks.push(t), ps, k + 1),
        k < ps.len() && wordy(ps[k]) ==> from(ps, k + 1).len() == 0 || !idbyte(from(ps, k + 1)[0]),
{
    if k < ps.len() {
        let n = from(ps, k + 1);
        assert(pok(ps[k]));
        assert(rem == ptext(ps[k]) + n);
        assert(rem.skip(1) =~= ptext(ps[k]).skip(1) + n);
        match ps[k] { Piece::Sp => { assert(rem.skip(1) =~= n); } Piece::Sym(t) => { assert(rem.skip(1) =~= n); }
            Piece::Str(_, its) => { assert(ptext(ps[k]).skip(1) =~= itexts(its, 0) + seq![34u8]); } _ => {} }
        if !(ps[k] is Sp) { assert forall|t: Tok| tv(t) == ptok(ps[k]) implies lexst(n, #[trigger] toks.push(t), ps, k + 1) by { assert(tvs(toks.push(t)) =~= tvs(toks).push(tv(t))); } }
        if wordy(ps[k]) && k + 1 < ps.len() { assert(!wordy(ps[k + 1])); assert(pok(ps[k + 1])); assert(n[0] == ptext(ps[k + 1])[0]); }
    }
}
pub open spec fn strst(rem: Seq<u8>, out: Seq<u8>, its: Seq<Item>, rest: Seq<u8>, j: int) -> bool { 0 <= j <= its.len() && rem == itexts(its, j) + seq![34u8] + rest && out == idecs(its, j) }
pub proof fn str_step(rem: Seq<u8>, out: Seq<u8>, its: Seq<Item>, rest: Seq<u8>, j: int)
    requires strst(rem, out, its, rest, j), forall|k: int| 0 <= k < its.len() ==> iok(#[trigger] its[k]),
    ensures rem.len() > 0, j == its.len() ==> rem[0] == 34 && rem.skip(1) == rest && out == idecs(its, its.len() as int),
        j < its.len() ==> iok(its[j]) && ({ let n = itexts(its, j + 1) + seq![34u8] + rest;
            rem == itext(its[j]) + n && rem[0] == itext(its[j])[0] && rem.skip(1) == itext(its[j]).skip(1) + n && strst(n, out + idec(its[j]), its, rest, j + 1)
            && (its[j] is Raw ==> rem.skip(1) == n && out + idec(its[j]) == out.push(rem[0])) }),
{
    if j < its.len() {
        let n = itexts(its, j + 1) + seq![34u8] + rest;
        assert(iok(its[j]));
        assert(rem =~= itext(its[j]) + n);
        assert(rem.skip(1) =~= itext(its[j]).skip(1) + n);
        if its[j] is Raw { assert(rem.skip(1) =~= n); assert(out + idec(its[j]) =~= out.push(rem[0])); }
    } else { assert(rem.skip(1) =~= rest); }
}
pub proof fn hex_mono(h: Seq<u8>, j: int)
    requires 0 <= j <= h.len(),
    ensures hexnum(h.take(j)) <= hexnum(h), j < h.len() ==> hexnum(h.take(j + 1)) == 16 * hexnum(h.take(j)) + hexval(h[j] as char) as nat && hexnum(h.take(j + 1)) <= hexnum(h),
    decreases h.len() - j
{
    if j < h.len() { hex_mono(h, j + 1); assert(h.take(j + 1).drop_last() =~= h.take(j)); } else { assert(h.take(j) =~= h); }
}
pub open spec fn unitext(h: Seq<u8>, rest: Seq<u8>) -> Seq<u8> { seq![123u8] + h + seq![125u8] + rest }
/// `cs` are the characters of the word `w` read so far
pub open spec fn wst(rem: Seq<u8>, cs: Seq<char>, w: Seq<u8>, rest: Seq<u8>) -> bool { 1 <= cs.len() <= w.len() && cs == text(w.take(cs.len() as int)) && rem == w.skip(cs.len() as int) + rest }
pub proof fn word_step(rem: Seq<u8>, cs: Seq<char>, w: Seq<u8>, rest: Seq<u8>)
    requires wst(rem, cs, w, rest),
    ensures cs.len() == w.len() ==> cs == text(w) && rem == rest,
        cs.len() < w.len() ==> rem.len() > 0 && rem[0] == w[cs.len() as int] && wst(rem.skip(1), cs.push(rem[0] as char), w, rest),
{
    if cs.len() == w.len() { assert(w.take(cs.len() as int) =~= w); assert(rem =~= rest); }
    else { assert(rem.skip(1) =~= w.skip(cs.len() as int + 1) + rest); assert(cs.push(rem[0] as char) =~= text(w.take(cs.len() as int + 1))); }
}
//@ fn unescape
//@@ params chars, out
//@@ ghost it: Item
//@@ ghost rest: Seq<u8>
    requires iok(it), !(it is Raw), rb(old(chars)@) == itext(it).skip(1) + rest,
    ensures rb(final(chars)@) == rest, final(out)@ == old(out)@ + idec(it), // [R01] an escape sequence is read as the character it stands for
//@@ entry
    let ghost h = match it { Item::Uni(h, _) => h, _ => Seq::empty() };
    proof { rb_pop(chars@);
        match it { Item::Esc(e) => { assert((itext(it).skip(1) + rest).skip(1) =~= rest); assert((itext(it).skip(1) + rest)[0] == e); assert(old(out)@ + idec(it) =~= old(out)@.push(esc(e))); }
            Item::Uni(h, c) => { assert((itext(it).skip(1) + rest).skip(1) =~= unitext(h, rest)); assert((itext(it).skip(1) + rest)[0] == 117u8); } _ => {} } }
//@@ loop 0
    invariant_except_break it is Uni, iok(it), h == it->Uni_0, out@ == old(out)@,
        ({ let full = unitext(h, rest); let j = full.len() - chars@.len(); 0 <= j <= h.len() + 1 && rb(chars@) == full.skip(j) && code == hexnum(h.take(if j == 0 { 0 } else { j - 1 })) }),
    ensures it is Uni, iok(it), out@ == old(out)@, code == hexnum(it->Uni_0), rb(chars@) == rest,
    decreases chars@.len()
//@@ loopstart 0
    proof { let full = unitext(h, rest); let j = full.len() - chars@.len(); rb_pop(chars@); assert(full.skip(j).skip(1) =~= full.skip(j + 1)); assert(full.skip(j)[0] == full[j]);
        if j > 0 { hex_mono(h, j - 1); }
        if j == h.len() + 1 { assert(full.skip(j + 1) =~= rest); assert(h.take(j - 1) =~= h); assert(full[j] == 125u8); } else if j > 0 { assert(full[j] == h[j - 1]); } else { assert(h.take(0) =~= h.take(0)); } }
//@ fn lex
//@@ params chars
//@@ ghost ps: Seq<Piece>
    requires chars@ == from(ps, 0), psok(ps),
    ensures tvs(r@) == upto(ps, ps.len() as int), // [R01] a text is read as its tokens, in order
//@@ after vp_reverse
    assert(lexst(rb(chars@), toks@, ps, 0)) by { assert(tvs(toks@) =~= upto(ps, 0)); assert(chars@.reverse() =~= from(ps, 0)); }
//@@ loop 0
    invariant psok(ps), exists|k: int| lexst(rb(chars@), toks@, ps, k),
    decreases chars@.len()
//@@ loopstart 0
    let ghost k = choose|k: int| lexst(rb(chars@), toks@, ps, k);
    let ghost toks0 = toks@; let ghost rest = from(ps, k + 1);
    let ghost its = match ps[k] { Piece::Str(_, its) => its, _ => Seq::empty() };
    let ghost w = match ps[k] { Piece::Id(b) => b, Piece::Nat(_, b) => b, Piece::Num(_, b) => b, _ => Seq::empty() };
    proof { let rem = rb(chars@); rb_pop(chars@); lex_step(ps, k, rem, toks@);
        if k < ps.len() && ps[k] is Str { assert(strst(rem.skip(1), Seq::empty(), its, rest, 0)); }
        if k < ps.len() && wordy(ps[k]) { assert(wst(rem.skip(1), seq![rem[0] as char], w, rest)) by { assert(seq![rem[0] as char] =~= text(w.take(1))); } } }
//@@ callghost unescape Ghost(its[j]), Ghost(itexts(its, j + 1) + seq![34u8] + rest)
//@@ loop 1
    invariant_except_break exists|j: int| strst(rb(chars@), string_bytes@, its, rest, j),
    invariant forall|k: int| 0 <= k < its.len() ==> iok(#[trigger] its[k]),
    ensures rb(chars@) == rest, string_bytes@ == idecs(its, its.len() as int),
    decreases chars@.len()
//@@ loopstart 1
    let ghost j = choose|j: int| strst(rb(chars@), string_bytes@, its, rest, j);
    proof { rb_pop(chars@); str_step(rb(chars@), string_bytes@, its, rest, j); }
//@@ loop 2
    invariant_except_break wst(rb(chars@), digs@, w, rest),
    invariant rest.len() == 0 || !idbyte(rest[0]), forall|k: int| 1 <= k < w.len() ==> dgbyte(#[trigger] w[k]),
    ensures rb(chars@) == rest, digs@ == text(w),
    decreases chars@.len()
//@@ loopstart 2
    proof { rb_pop(chars@); word_step(rb(chars@), digs@, w, rest); }
//@@ loop 3
    invariant_except_break wst(rb(chars@), ident@, w, rest),
    invariant rest.len() == 0 || !idbyte(rest[0]), forall|k: int| 0 <= k < w.len() ==> idbyte(#[trigger] w[k]),
    ensures rb(chars@) == rest, ident@ == text(w),
    decreases chars@.len()
//@@ loopstart 3
    proof { rb_pop(chars@); word_step(rb(chars@), ident@, w, rest); }
//@ end
// ---- the text of a name is read as this name, the text of a location as this location
/// how `Debug` writes a name
pub open spec fn name_text(n: NT) -> PV decreases n { match n {
    NT::Unit => PV::Con("Unit"@, seq![]), NT::Hash(h) => PV::Con("Hash64"@, seq![PV::Nat(h as usize)]),
    NT::Usize(u) => PV::Con("Usize"@, seq![PV::Nat(u)]),
    NT::Isize(i) => PV::Con("Isize"@, seq![if i < 0 { PV::Num(i) } else { PV::Nat(i as usize) }]),
    NT::Str(s) => PV::Con("String"@, seq![PV::Str(s)]),
    NT::Pair(a, b) => PV::Con("Pair"@, seq![name_text(*a), name_text(*b)]),
    NT::ForkL(a) => PV::Con("ForkL"@, seq![name_text(*a)]), NT::ForkR(a) => PV::Con("ForkR"@, seq![name_text(*a)]),
} }
pub proof fn con_lits()
    ensures "Unit"@ != "Hash64"@, "Unit"@ != "String"@, "Unit"@ != "Usize"@, "Unit"@ != "Isize"@, "Unit"@ != "Pair"@, "Unit"@ != "ForkL"@, "Unit"@ != "ForkR"@,
        "Hash64"@ != "String"@, "Hash64"@ != "Usize"@, "Hash64"@ != "Isize"@, "Hash64"@ != "Pair"@, "Hash64"@ != "ForkL"@, "Hash64"@ != "ForkR"@,
        "String"@ != "Usize"@, "String"@ != "Isize"@, "String"@ != "Pair"@, "String"@ != "ForkL"@, "String"@ != "ForkR"@,
        "Usize"@ != "Isize"@, "Usize"@ != "Pair"@, "Usize"@ != "ForkL"@, "Usize"@ != "ForkR"@,
        "Isize"@ != "Pair"@, "Isize"@ != "ForkL"@, "Isize"@ != "ForkR"@, "Pair"@ != "ForkL"@, "Pair"@ != "ForkR"@, "ForkL"@ != "ForkR"@,
{
    reveal_strlit("Unit"); reveal_strlit("Hash64"); reveal_strlit("String"); reveal_strlit("Usize"); reveal_strlit("Isize"); reveal_strlit("Pair"); reveal_strlit("ForkL"); reveal_strlit("ForkR");
    assert("Unit"@[0] == 'U'); assert("Hash64"@[0] == 'H'); assert("String"@[0] == 'S'); assert("Usize"@[0] == 'U'); assert("Isize"@[0] == 'I'); assert("Pair"@[0] == 'P'); assert("ForkL"@[0] == 'F'); assert("ForkL"@[4] == 'L'); assert("ForkR"@[4] == 'R'); assert("ForkR"@[0] == 'F');
    assert("Unit"@.len() == 4); assert("Usize"@.len() == 5); assert("Pair"@.len() == 4);
}
pub proof fn name_round(n: NT)
    ensures wf(name_text(n)), as_name(name_text(n)) == Some(n), // [R01] the text of a name is read as this name
    decreases n
{
    con_lits();
    match n {
        NT::Pair(a, b) => { name_round(*a); name_round(*b); let ps = seq![name_text(*a), name_text(*b)]; assert(ps[0] == name_text(*a) && ps[1] == name_text(*b)); }
        NT::ForkL(a) => { name_round(*a); let ps = seq![name_text(*a)]; assert(ps[0] == name_text(*a)); }
        NT::ForkR(a) => { name_round(*a); let ps = seq![name_text(*a)]; assert(ps[0] == name_text(*a)); }
        NT::Hash(h) => { let ps = seq![PV::Nat(h as usize)]; assert(ps[0] == PV::Nat(h as usize)); }
        NT::Usize(u) => { let ps = seq![PV::Nat(u)]; assert(ps[0] == PV::Nat(u)); }
        NT::Isize(i) => { let x = if i < 0 { PV::Num(i) } else { PV::Nat(i as usize) }; let ps = seq![x]; assert(ps[0] == x); assert(wf(x)); }
        NT::Str(s) => { let ps = seq![PV::Str(s)]; assert(ps[0] == PV::Str(s)); }
        _ => {}
    }
    let t = name_text(n); assert(forall|i: int| 0 <= i < kids(t).len() ==> wf(#[trigger] kids(t)[i]));
}
pub open spec fn names_text(ns: Seq<NT>) -> Seq<PV> { ns.map_values(|n: NT| name_text(n)) }
/// how `Debug` writes an articulation: `Art { art: Loc { path:[,a,b], id:c } }`
pub open spec fn loc_text(path: Seq<NT>, id: PV) -> PV {
    PV::Struct("Art"@, seq![("art"@, PV::Struct("Loc"@, seq![("path"@, PV::Vec(path.len() > 0, names_text(path))), ("id"@, id)]))]) }
/// a name is written as a name, a structural identity as its hash
pub proof fn loc_round(path: Seq<NT>, id: NT, structural: bool, v: Val)
    requires structural ==> id is Hash,
    ensures ({ let t = loc_text(path, if structural { PV::Nat(id->Hash_0 as usize) } else { name_text(id) });
        wf(t) && (is(v, t) ==> v is Art && v->Art_0.path@.len() == path.len() && (forall|i: int| 0 <= i < path.len() ==> (#[trigger] v->Art_0.path@[i])@ == path[i])
            && v->Art_0.name@ == id) }), // [R01] the text of an articulation is read as its path and name
{
    lits();
    let pi = if structural { PV::Nat(id->Hash_0 as usize) } else { name_text(id) };
    let t = loc_text(path, pi); let l = t->Struct_1[0].1; let ps = names_text(path); let pp = PV::Vec(path.len() > 0, ps);
    name_round(id);
    assert forall|i: int| 0 <= i < ps.len() implies wf(#[trigger] ps[i]) && name_ok(ps[i]) && name_of(ps[i]) == path[i] by { assert(ps[i] == name_text(path[i])); name_round(path[i]); }
    assert(l->Struct_1[0] == ("path"@, pp) && l->Struct_1[1] == ("id"@, pi));
    assert(t->Struct_1[0] == ("art"@, l));
    assert(wf(pp)); assert(wf(pi)); assert(!art_shape(l)); assert(wf(l)); assert(art_shape(t)); assert(art_path(t) == pp && art_id(t) == pi); assert(wf(t));
    if is(v, t) { assert forall|i: int| 0 <= i < path.len() implies (#[trigger] v->Art_0.path@[i])@ == path[i] by { assert(name_of(ps[i]) == path[i]); } }
}
//@ fn parse_val
//@@ sig pub fn parse_val<V>(v: &V, Ghost(p): Ghost<PV>, Ghost(ps): Ghost<Seq<Piece>>) -> (r: Val)
    requires psok(ps), utf8(debug_text(*v)) == from(ps, 0), upto(ps, ps.len() as int) == ptoks(p), wf(p),
    ensures is(r, p), // [R01] the reflected value is the one that the text of the value describes
//@ end
fn main() {}
}
