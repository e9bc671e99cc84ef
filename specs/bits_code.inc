// ---- specification functions
pub open spec fn bit(i: int) -> i64 { 1i64 << (i as u64) }
pub open spec fn has(b: i64, i: int) -> bool { b & bit(i) != 0 }
/// the bits below `n`
pub open spec fn mask(n: int) -> i64 { ((1i64 << (n as u64)) - 1) as i64 }
/// a bit string whose value has no bit at or beyond its length
pub open spec fn wf(s: BS) -> bool { 0 <= s.length <= 62 && s.value & mask(s.length as int) == s.value }

pub proof fn bit_facts(i: int)
    requires 0 <= i <= 62,
    ensures bit(i) > 0, bit(i) as int == pow(2, i as nat), i < 62 ==> bit(i + 1) as int == 2 * bit(i),
    decreases i,
{
    let u = i as u64;
    assert(u <= 62 ==> (1i64 << u) > 0) by(bit_vector);
    assert(u < 62 ==> (1i64 << add(u, 1)) == 2 * (1i64 << u)) by(bit_vector);
    if i == 0 { assert(1i64 << 0u64 == 1) by(bit_vector); lemma_pow0(2); }
    else {
        bit_facts(i - 1);
        let v = (i - 1) as u64;
        assert(v < 62 ==> (1i64 << add(v, 1)) == 2 * (1i64 << v)) by(bit_vector);
        reveal(pow);
    }
}
pub proof fn pow_abs(b: int, n: nat)
    ensures b != 0 ==> pow(b, n) != 0, b == 0 && n > 0 ==> pow(b, n) == 0, -1 <= b <= 1 ==> -1 <= pow(b, n) <= 1,
    decreases n,
{
    reveal(pow);
    if n > 0 {
        pow_abs(b, (n - 1) as nat);
        let p = pow(b, (n - 1) as nat);
        assert(b != 0 && p != 0 ==> b * p != 0) by(nonlinear_arith);
        assert(-1 <= b <= 1 && -1 <= p <= 1 ==> -1 <= b * p <= 1) by(nonlinear_arith);
    }
}
pub proof fn flip_facts(i: int, b: i64)
    requires 0 <= i <= 62,
    ensures (bit(i) & b) == bit(i) <==> has(b, i),
        has(b, i) ==> b - bit(i) == b ^ bit(i) && i64::MIN <= b - bit(i),
        !(has(b, i)) ==> b + bit(i) == b ^ bit(i) && b + bit(i) <= i64::MAX,
        has(b ^ bit(i), i) <==> !(has(b, i)),
        forall|k: int| 0 <= k <= 62 && k != i ==> (#[trigger] has(b ^ bit(i), k) <==> has(b, k)),
        !(has(0, i)), 0 ^ bit(i) == bit(i),
{
    let u = i as u64;
    assert(u <= 62 ==> ((((1i64 << u) & b) == (1i64 << u)) <==> (b & (1i64 << u)) != 0)) by(bit_vector);
    assert(u <= 62 && (b & (1i64 << u)) != 0 ==> b - (1i64 << u) == (b ^ (1i64 << u))) by(bit_vector);
    assert(u <= 62 && (b & (1i64 << u)) == 0 ==> b + (1i64 << u) == (b ^ (1i64 << u))) by(bit_vector);
    assert(u <= 62 ==> ((((b ^ (1i64 << u)) & (1i64 << u)) != 0) <==> (b & (1i64 << u)) == 0)) by(bit_vector);
    assert forall|k: int| 0 <= k <= 62 && k != i implies (#[trigger] has(b ^ bit(i), k) <==> has(b, k)) by {
        let v = k as u64;
        assert(u <= 62 && v <= 62 && u != v ==> ((((b ^ (1i64 << u)) & (1i64 << v)) != 0) <==> (b & (1i64 << v)) != 0)) by(bit_vector);
    }
    assert((0i64 & (1i64 << u)) == 0) by(bit_vector);
    assert((0i64 ^ (1i64 << u)) == (1i64 << u)) by(bit_vector);
}
/// the ways of asking for a bit
pub proof fn shr_facts(i: i64, b: i64)
    requires 0 <= i <= 62,
    ensures (b >> i) & 1 == 1 <==> has(b, i as int), (b >> i) & 1 == 0 <==> !(has(b, i as int)), (b >> i) & 1 != 0 <==> has(b, i as int),
        (b & (1i64 << i)) != 0 <==> has(b, i as int), (b & (1i64 << i)) == 0 <==> !(has(b, i as int)), (1i64 << i) == bit(i as int), (b & (1i64 << i)) == (1i64 << i) <==> has(b, i as int),
{
    let u = i as u64;
    assert((b >> i) == (b >> u)); assert((1i64 << i) == (1i64 << u));
    assert(u <= 62 ==> ((((b >> u) & 1) == 1) <==> (b & (1i64 << u)) != 0)) by(bit_vector);
    let c = b >> u;
    assert((c & 1) == 0 || (c & 1) == 1) by(bit_vector);
    assert((c & 1) == (1 & c)) by(bit_vector);
    flip_facts(i as int, b);
    let t = 1i64 << u;
    assert((b & t) == (t & b)) by(bit_vector);
}
pub proof fn mask_facts(n: int, b: i64)
    requires 0 <= n < 62,
    ensures mask(n) == bit(n) - 1, mask(n + 1) == bit(n + 1) - 1,
        b & mask(n) == b ==> b & mask(n + 1) == b && !(has(b, n)) && (b ^ bit(n)) & mask(n + 1) == b ^ bit(n) && (b ^ bit(n)) & mask(n) == b,
{
    let u = n as u64;
    assert(u < 62 ==> i64::MIN <= (1i64 << u) - 1) by(bit_vector);
    assert(u <= 62 ==> 0 < (1i64 << u)) by(bit_vector);
    let w = (n + 1) as u64;
    assert(w <= 62 ==> 0 < (1i64 << w)) by(bit_vector);
    assert(u < 62 && w == add(u, 1) && (b & sub(1i64 << u, 1)) == b ==> (b & sub(1i64 << w, 1)) == b && (b & (1i64 << u)) == 0
        && ((b ^ (1i64 << u)) & sub(1i64 << w, 1)) == (b ^ (1i64 << u)) && ((b ^ (1i64 << u)) & sub(1i64 << u, 1)) == b) by(bit_vector);
    bit_facts(n); bit_facts(n + 1);
}
pub proof fn shift_facts(n: int, b: i64, i: i64)
    requires 0 <= n <= 62, 0 <= i <= 62,
    ensures mask(n) == bit(n) - 1, (b << i) == (b << (i as u64)), ((b << i) & mask(n)) & mask(n) == (b << i) & mask(n),
{
    let u = n as u64; let v = i as u64;
    assert(u <= 62 ==> 0 < (1i64 << u)) by(bit_vector);
    let m = mask(n); let x = b << i;
    assert((x & m) & m == x & m) by(bit_vector);
}
/// b^n, written as the code computes it; and no intermediate value exceeds it
pub proof fn pow_half(b: int, n: int)
    requires n >= 2, i64::MIN <= pow(b, n as nat) <= i64::MAX,
    ensures pow(b, n as nat) == pow(b, (n / 2) as nat) * pow(b, (n / 2) as nat) * (if n % 2 == 0 { 1int } else { b }),
        0 <= pow(b, (n / 2) as nat) * pow(b, (n / 2) as nat) <= i64::MAX,
        i64::MIN <= pow(b, (n / 2) as nat) <= i64::MAX,
{
    let h = (n / 2) as nat; let x = pow(b, h);
    lemma_pow_adds(b, h, h);
    reveal(pow);
    if n % 2 == 1 { assert(n == 2 * h + 1); assert(pow(b, n as nat) == b * pow(b, (h + h) as nat)); assert(b * (x * x) == (x * x) * b) by(nonlinear_arith); }
    pow_abs(b, h);
    assert(x * x >= 0) by(nonlinear_arith);
    if b == 0 { assert(x == 0); assert(x * x == 0) by(nonlinear_arith) requires x == 0; }
    else {
        let y = x * x;
        if n % 2 == 0 { assert(y * 1 == y); }
        else if -1 <= b <= 1 { assert(y <= 1) by(nonlinear_arith) requires y == x * x, -1 <= x <= 1; }
        else if b >= 2 { assert(y <= y * b) by(nonlinear_arith) requires y >= 0, b >= 2; }
        else { assert(y * 2 <= -(y * b)) by(nonlinear_arith) requires y >= 0, b <= -2; }
        assert(-y <= x <= y) by(nonlinear_arith) requires y == x * x;
    }
}

// ---- the code
//@ fn BS::pow
//@@ params b, n
    requires n >= 0, i64::MIN <= pow(b as int, n as nat) <= i64::MAX,
    ensures r as int == pow(b as int, n as nat), // [B01]
    decreases n,
//@@ entry
    proof { reveal(pow); if n >= 2 { pow_half(b as int, n as int); } else { lemma_pow0(b as int); lemma_pow1(b as int); } }
//@ fn BS::flip
//@@ params i, b
    requires 0 <= i <= 62,
    ensures r == b ^ bit(i as int), // [B01]
        forall|k: int| 0 <= k <= 62 && k != i ==> (#[trigger] has(r, k) <==> has(b, k)), has(r, i as int) <==> !(has(b, i as int)), // [B01]
//@@ entry
    proof { bit_facts(i as int); flip_facts(i as int, b); }
//@ fn BS::is_set
//@@ params i, b
    requires 0 <= i <= 62,
    ensures r <==> has(b, i as int), // [B01]
//@@ entry
    proof { bit_facts(i as int); flip_facts(i as int, b); flip_facts(i as int, 0); shr_facts(i, b); }
//@ fn BS::prepend
//@@ params b, bs
    requires b == 0 || b == 1, wf(bs), bs.length < 62,
    ensures wf(r), r.length == bs.length + 1, // [B01,T02]
        has(r.value, bs.length as int) <==> b == 1, // [B01,T02]
        r.value & mask(bs.length as int) == bs.value, // [B01,T02]
        forall|k: int| 0 <= k < bs.length ==> (#[trigger] has(r.value, k) <==> has(bs.value, k)), // [B01,T02]
//@@ entry
    proof { let n = bs.length as int; flip_facts(n, bs.value); mask_facts(n, bs.value); }
//@ fn BS::length
//@@ params bs
    ensures r == bs.length, // [B01]
//@ fn BS::shift_left
//@@ params bs, i
    requires wf(bs), 0 <= i <= 62,
    ensures r.length == bs.length, wf(r), r.value == (bs.value << (i as u64)) & mask(bs.length as int), // [B01]
//@@ entry
    proof { let n = bs.length as int; bit_facts(n); shift_facts(n, bs.value, i); }
//@ end
/// appending bits loses none of them, and distinct bits give distinct strings
pub proof fn max_len_fits() ensures BS::MAX_LEN < 62 {}
