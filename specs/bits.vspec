//@ source src/catalog/bitstring.rs
//@ opt nateq natfn
use vstd::prelude::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::mul::*;
verus! {
// ---- shims for the extraction
#[verifier::external_body]
pub fn vp_panic<T>() -> (r: T) requires false ensures false { unimplemented!() }
pub assume_specification[ i64::pow ](b: i64, e: u32) -> (r: i64)
    requires i64::MIN <= pow(b as int, e as nat) <= i64::MAX,
    ensures r as int == pow(b as int, e as nat);

//@ struct BS
//@ const BS::MAX_LEN
impl Clone for BS { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for BS {}

//@ include bits_code.inc
//@ end
}
fn main() {}
