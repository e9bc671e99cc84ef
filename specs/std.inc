// ---- functions of the standard library that vstd does not specify (assumed)
pub assume_specification<T> [<[T]>::swap](v: &mut [T], a: usize, b: usize)
    requires a < old(v)@.len(), b < old(v)@.len()
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]);
pub assume_specification<T> [<[T]>::reverse](v: &mut [T])
    ensures final(v)@ == old(v)@.reverse();
pub assume_specification<T> [Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });
pub assume_specification<T> [Option::<T>::xor](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T> [Option::<T>::replace](a: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures *final(a) == Some(v), r == *old(a);
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and](a: Option<T>, f: F) -> (r: bool)
    requires a is Some ==> f.requires((a->0,)),
    ensures a is None ==> !r, a is Some ==> f.ensures((a->0,), r);
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or](a: Option<T>, d: U, f: F) -> (r: U)
    requires a is Some ==> f.requires((a->0,)),
    ensures a is None ==> r == d, a is Some ==> f.ensures((a->0,), r);
pub assume_specification<T> [std::mem::replace](a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
/// equal pointers have equal content; nothing is said of others
#[verifier::external_body]
pub fn vp_ptr_eq<T: ?Sized>(a: &Rc<T>, b: &Rc<T>) -> (r: bool) ensures r ==> *a == *b { unimplemented!() }
/// `contains` by derived (structural) equality
#[verifier::external_body]
pub fn vp_contains<T>(v: &Vec<T>, x: &T) -> (r: bool) ensures r == (exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == *x) { unimplemented!() }
