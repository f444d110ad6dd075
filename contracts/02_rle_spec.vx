// Varint and run-length formats: encoders and decoders as pure functions.
//@ global
pub mod vxspec_rle {
use vstd::prelude::*;
use crate::vxspec::*;
use vstd::arithmetic::power2::*;

pub open spec fn P64() -> int { 0x1_0000_0000_0000_0000 }

/// LEB128.
pub open spec fn venc(v: nat) -> Seq<u8>
    decreases v
{
    if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + venc(v / 128) }
}
/// (value, bytes read) of the varint at position i; at most 10 bytes.
pub open spec fn vdec_at(b: Seq<u8>, i: nat, left: nat) -> Option<(nat, nat)>
    decreases left
{
    if left == 0 || i >= b.len() { None }
    else if b[i as int] < 128 { Some((b[i as int] as nat, 1nat)) }
    else {
        match vdec_at(b, i + 1, (left - 1) as nat) {
            Some(p) => Some(((b[i as int] - 128 + 128 * p.0) as nat, p.1 + 1)),
            None => None,
        }
    }
}
pub open spec fn vdec(b: Seq<u8>) -> Option<(nat, nat)> { vdec_at(b, 0, 10) }
/// A varint ends within the buffer, or at least 10 bytes are there.
pub open spec fn vsafe(b: Seq<u8>) -> bool {
    b.len() >= 10 || exists|i: int| 0 <= i < b.len() && #[trigger] b[i] < 128
}

pub proof fn lemma_venc_len(v: nat, j: nat)
    requires v < pow2(7 * j), j >= 1
    ensures 1 <= venc(v).len() <= j
    decreases j
{
    if v >= 128 {
        lemma2_to64();
        if j == 1 { assert(pow2(7) == 128); assert(false); }
        lemma_pow2_adds(7, (7 * (j - 1)) as nat);
        assert(v / 128 < pow2((7 * (j - 1)) as nat)) by (nonlinear_arith)
            requires v < 128 * pow2((7 * (j - 1)) as nat), v >= 0;
        lemma_venc_len(v / 128, (j - 1) as nat);
    }
}
/// Only zero is encoded with a zero byte in front.
pub proof fn lemma_venc_first(v: nat)
    requires v > 0
    ensures venc(v).len() > 0, venc(v)[0] != 0
{ }
/// no zero byte in front
#[verifier::opaque]
pub open spec fn nz(e: Seq<u8>) -> bool { e.len() > 0 ==> e[0] != 0 }
pub proof fn lemma_nz_add(e: Seq<u8>, v: nat, d: Seq<u8>)
    requires nz(e), v > 0
    ensures nz(e + (venc(v) + d))
{
    reveal(nz);
    lemma_venc_first(v);
    let s = e + (venc(v) + d);
    if e.len() > 0 { assert(s[0] == e[0]); } else { assert(s[0] == venc(v)[0]); }
}
pub proof fn lemma_venc_len10(v: nat)
    requires v < P64()
    ensures 1 <= venc(v).len() <= 10
{
    lemma2_to64();
    lemma2_to64_rest();
    lemma_pow2_adds(64, 6);
    assert(pow2(70) == pow2(64) * pow2(6));
    lemma_venc_len(v, 10);
}
/// length bounds in terms of the value: 1 + v/128.
pub proof fn lemma_venc_len_lin(v: nat)
    ensures 1 <= venc(v).len() <= 1 + v / 128
    decreases v
{
    if v >= 128 { lemma_venc_len_lin(v / 128); }
}
pub proof fn lemma_vdec_bounds(b: Seq<u8>, i: nat, left: nat)
    ensures vdec_at(b, i, left) matches Some(p) ==> 1 <= p.1 <= left && i + p.1 <= b.len()
    decreases left
{
    if left > 0 && i < b.len() && b[i as int] >= 128 { lemma_vdec_bounds(b, i + 1, (left - 1) as nat); }
}
/// only the bytes of the varint matter.
pub proof fn lemma_vdec_prefix(a: Seq<u8>, f: Seq<u8>, i: nat, left: nat)
    requires vdec_at(a, i, left) is Some
    ensures vdec_at(a + f, i, left) == vdec_at(a, i, left)
    decreases left
{
    if a[i as int] >= 128 { lemma_vdec_prefix(a, f, i + 1, (left - 1) as nat); }
}
pub proof fn lemma_vdec_venc(p: Seq<u8>, v: nat, f: Seq<u8>, left: nat)
    requires venc(v).len() <= left
    ensures vdec_at(p + venc(v) + f, p.len(), left) == Some((v, venc(v).len()))
    decreases v
{
    let s = p + venc(v) + f;
    if v >= 128 {
        let h = seq![(v % 128 + 128) as u8];
        assert(s =~= (p + h) + venc(v / 128) + f);
        lemma_vdec_venc(p + h, v / 128, f, (left - 1) as nat);
        assert(s[p.len() as int] == (v % 128 + 128) as u8);
    } else {
        assert(s[p.len() as int] == v as u8);
        assert(venc(v).len() == 1);
    }
}
pub proof fn lemma_varint_roundtrip(v: nat, f: Seq<u8>)
    requires v < P64()
    ensures vdec(venc(v) + f) == Some((v, venc(v).len())), 1 <= venc(v).len() <= 10
{
    lemma_venc_len10(v);
    lemma_vdec_venc(Seq::empty(), v, f, 10);
    assert(Seq::<u8>::empty() + venc(v) + f =~= venc(v) + f);
}

pub proof fn lemma_venc_len_log(x: nat, d: nat)
    requires pow2(d) <= x < pow2(d + 1)
    ensures venc(x).len() == d / 7 + 1
    decreases d
{
    lemma2_to64();
    if d < 7 {
        if d + 1 < 7 { lemma_pow2_strictly_increases(d + 1, 7); }
        assert(x < 128);
    } else {
        if 7 < d { lemma_pow2_strictly_increases(7, d); }
        assert(x >= 128);
        let e = (d - 7) as nat;
        lemma_pow2_adds(7, e);
        lemma_pow2_adds(7, e + 1);
        let a = pow2(e); let b = pow2(e + 1);
        assert(a <= x / 128) by (nonlinear_arith) requires 128 * a <= x;
        assert(x / 128 < b) by (nonlinear_arith) requires x < 128 * b;
        lemma_venc_len_log(x / 128, e);
        assert(d / 7 == e / 7 + 1);
    }
}
pub proof fn lemma_encoded_len(v: u64)
    ensures ({
        let n = vstd::std_specs::bits::u64_leading_zeros(v | 1) as u32;
        n <= 63 && (((n ^ 63u32) * 9 + 73) / 64) as nat == venc(v as nat).len()
    })
{
    let x = v | 1;
    assert(x != 0 && x / 2 == v / 2 && (x == v || x == v + 1 && v % 2 == 0)) by (bit_vector) requires x == v | 1;
    vstd::std_specs::bits::axiom_u64_leading_zeros(x);
    let n = vstd::std_specs::bits::u64_leading_zeros(x) as u32;
    assert(n <= 63);
    let d = (63 - n) as u64;
    assert(d == sub(63u64, n as u64));
    assert((x >> d) & 1 != 0);
    assert(n ^ 63u32 == 63 - n) by (bit_vector) requires n <= 63;
    assert((x >> d) >= 1) by (bit_vector) requires (x >> d) & 1 != 0;
    vstd::bits::lemma_u64_shr_is_div(x, d);
    let p = pow2(d as nat);
    lemma_pow2_pos(d as nat);
    assert(x as nat >= p) by (nonlinear_arith) requires x as nat / p >= 1, p > 0;
    if n >= 1 {
        let e = (64 - n) as u64;
        assert(e == sub(64u64, n as u64));
        assert(x >> e == 0);
        vstd::bits::lemma_u64_shr_is_div(x, e);
        let q = pow2(e as nat);
        lemma_pow2_pos(e as nat);
        assert((x as nat) < q) by (nonlinear_arith) requires x as nat / q == 0, q > 0;
    } else {
        lemma2_to64_rest();
        assert((x as nat) < pow2(64));
    }
    lemma_venc_len_log(x as nat, d as nat);
    // v and v | 1 have encodings of the same length
    assert(x as nat / 128 == v as nat / 128);
    assert(venc(x as nat).len() == venc(v as nat).len());
    assert((d * 9 + 73) / 64 == d / 7 + 1);
}
pub proof fn lemma_vdec_shifts()
    ensures
        forall|x: u32| x < 256 ==> #[trigger] (x << 7) == x * 128,
        forall|x: u32| x < 256 ==> #[trigger] (x << 14) == x * 16384,
        forall|x: u32| x < 256 ==> #[trigger] (x << 21) == x * 2097152,
        forall|x: u64| x < 0x1000_0000 ==> #[trigger] (x << 28) == x * 0x1000_0000,
        forall|x: u64| x < 0x1_0000 ==> #[trigger] (x << 56) == (x % 256) * 0x100_0000_0000_0000,
{
    assert(forall|x: u32| x < 256 ==> #[trigger] (x << 7) == x * 128) by (bit_vector);
    assert(forall|x: u32| x < 256 ==> #[trigger] (x << 14) == x * 16384) by (bit_vector);
    assert(forall|x: u32| x < 256 ==> #[trigger] (x << 21) == x * 2097152) by (bit_vector);
    assert(forall|x: u64| x < 0x1000_0000 ==> #[trigger] (x << 28) == x * 0x1000_0000) by (bit_vector);
    assert(forall|x: u64| x < 0x1_0000 ==> #[trigger] (x << 56) == (x % 256) * 0x100_0000_0000_0000) by (bit_vector);
}

/// The varint at the start of a buffer, case by case on its length.
pub proof fn lemma_vdec_cases(b: Seq<u8>)
    requires vsafe(b)
    ensures
        b.len() >= 1,
        b[0] >= 128 ==> b.len() > 1,
        b[0] >= 128 && b[1] >= 128 ==> b.len() > 2,
        b[0] >= 128 && b[1] >= 128 && b[2] >= 128 ==> b.len() > 3,
        b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 ==> b.len() > 4,
        b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] >= 128 ==> b.len() > 5,
        b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] >= 128 && b[5] >= 128 ==> b.len() > 6,
        b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] >= 128 && b[5] >= 128 && b[6] >= 128 ==> b.len() > 7,
        b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] >= 128 && b[5] >= 128 && b[6] >= 128 && b[7] >= 128 ==> b.len() > 8,
        b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] >= 128 && b[5] >= 128 && b[6] >= 128 && b[7] >= 128 && b[8] >= 128 ==> b.len() > 9,
        b.len() > 0 && b[0] < 128 ==> vdec(b) == Some(((b[0] * 1) as nat, 1nat)),
        b.len() > 1 && b[0] >= 128 && b[1] < 128 ==> vdec(b) == Some((((b[0] - 128) * 1 + b[1] * 128) as nat, 2nat)),
        b.len() > 2 && b[0] >= 128 && b[1] >= 128 && b[2] < 128 ==> vdec(b) == Some((((b[0] - 128) * 1 + (b[1] - 128) * 128 + b[2] * 16384) as nat, 3nat)),
        b.len() > 3 && b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] < 128 ==> vdec(b) == Some((((b[0] - 128) * 1 + (b[1] - 128) * 128 + (b[2] - 128) * 16384 + b[3] * 2097152) as nat, 4nat)),
        b.len() > 4 && b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] < 128 ==> vdec(b) == Some((((b[0] - 128) * 1 + (b[1] - 128) * 128 + (b[2] - 128) * 16384 + (b[3] - 128) * 2097152 + b[4] * 268435456) as nat, 5nat)),
        b.len() > 5 && b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] >= 128 && b[5] < 128 ==> vdec(b) == Some((((b[0] - 128) * 1 + (b[1] - 128) * 128 + (b[2] - 128) * 16384 + (b[3] - 128) * 2097152 + (b[4] - 128) * 268435456 + b[5] * 34359738368) as nat, 6nat)),
        b.len() > 6 && b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] >= 128 && b[5] >= 128 && b[6] < 128 ==> vdec(b) == Some((((b[0] - 128) * 1 + (b[1] - 128) * 128 + (b[2] - 128) * 16384 + (b[3] - 128) * 2097152 + (b[4] - 128) * 268435456 + (b[5] - 128) * 34359738368 + b[6] * 4398046511104) as nat, 7nat)),
        b.len() > 7 && b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] >= 128 && b[5] >= 128 && b[6] >= 128 && b[7] < 128 ==> vdec(b) == Some((((b[0] - 128) * 1 + (b[1] - 128) * 128 + (b[2] - 128) * 16384 + (b[3] - 128) * 2097152 + (b[4] - 128) * 268435456 + (b[5] - 128) * 34359738368 + (b[6] - 128) * 4398046511104 + b[7] * 562949953421312) as nat, 8nat)),
        b.len() > 8 && b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] >= 128 && b[5] >= 128 && b[6] >= 128 && b[7] >= 128 && b[8] < 128 ==> vdec(b) == Some((((b[0] - 128) * 1 + (b[1] - 128) * 128 + (b[2] - 128) * 16384 + (b[3] - 128) * 2097152 + (b[4] - 128) * 268435456 + (b[5] - 128) * 34359738368 + (b[6] - 128) * 4398046511104 + (b[7] - 128) * 562949953421312 + b[8] * 72057594037927936) as nat, 9nat)),
        b.len() > 9 && b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] >= 128 && b[5] >= 128 && b[6] >= 128 && b[7] >= 128 && b[8] >= 128 && b[9] < 128 ==> vdec(b) == Some((((b[0] - 128) * 1 + (b[1] - 128) * 128 + (b[2] - 128) * 16384 + (b[3] - 128) * 2097152 + (b[4] - 128) * 268435456 + (b[5] - 128) * 34359738368 + (b[6] - 128) * 4398046511104 + (b[7] - 128) * 562949953421312 + (b[8] - 128) * 72057594037927936 + b[9] * 9223372036854775808) as nat, 10nat)),
        b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] >= 128 && b[5] >= 128 && b[6] >= 128 && b[7] >= 128 && b[8] >= 128 && b[9] >= 128 ==> vdec(b) is None,
{
    reveal_with_fuel(vdec_at, 1); assert(vdec_at(b, 0, 10) == if b.len() <= 0 { None } else if b[0] < 128 { Some((b[0] as nat, 1nat)) } else { match vdec_at(b, 1, 9) { Some(p) => Some(((b[0] - 128 + 128 * p.0) as nat, p.1 + 1)), None => None } });
    reveal_with_fuel(vdec_at, 1); assert(vdec_at(b, 1, 9) == if b.len() <= 1 { None } else if b[1] < 128 { Some((b[1] as nat, 1nat)) } else { match vdec_at(b, 2, 8) { Some(p) => Some(((b[1] - 128 + 128 * p.0) as nat, p.1 + 1)), None => None } });
    reveal_with_fuel(vdec_at, 1); assert(vdec_at(b, 2, 8) == if b.len() <= 2 { None } else if b[2] < 128 { Some((b[2] as nat, 1nat)) } else { match vdec_at(b, 3, 7) { Some(p) => Some(((b[2] - 128 + 128 * p.0) as nat, p.1 + 1)), None => None } });
    reveal_with_fuel(vdec_at, 1); assert(vdec_at(b, 3, 7) == if b.len() <= 3 { None } else if b[3] < 128 { Some((b[3] as nat, 1nat)) } else { match vdec_at(b, 4, 6) { Some(p) => Some(((b[3] - 128 + 128 * p.0) as nat, p.1 + 1)), None => None } });
    reveal_with_fuel(vdec_at, 1); assert(vdec_at(b, 4, 6) == if b.len() <= 4 { None } else if b[4] < 128 { Some((b[4] as nat, 1nat)) } else { match vdec_at(b, 5, 5) { Some(p) => Some(((b[4] - 128 + 128 * p.0) as nat, p.1 + 1)), None => None } });
    reveal_with_fuel(vdec_at, 1); assert(vdec_at(b, 5, 5) == if b.len() <= 5 { None } else if b[5] < 128 { Some((b[5] as nat, 1nat)) } else { match vdec_at(b, 6, 4) { Some(p) => Some(((b[5] - 128 + 128 * p.0) as nat, p.1 + 1)), None => None } });
    reveal_with_fuel(vdec_at, 1); assert(vdec_at(b, 6, 4) == if b.len() <= 6 { None } else if b[6] < 128 { Some((b[6] as nat, 1nat)) } else { match vdec_at(b, 7, 3) { Some(p) => Some(((b[6] - 128 + 128 * p.0) as nat, p.1 + 1)), None => None } });
    reveal_with_fuel(vdec_at, 1); assert(vdec_at(b, 7, 3) == if b.len() <= 7 { None } else if b[7] < 128 { Some((b[7] as nat, 1nat)) } else { match vdec_at(b, 8, 2) { Some(p) => Some(((b[7] - 128 + 128 * p.0) as nat, p.1 + 1)), None => None } });
    reveal_with_fuel(vdec_at, 1); assert(vdec_at(b, 8, 2) == if b.len() <= 8 { None } else if b[8] < 128 { Some((b[8] as nat, 1nat)) } else { match vdec_at(b, 9, 1) { Some(p) => Some(((b[8] - 128 + 128 * p.0) as nat, p.1 + 1)), None => None } });
    reveal_with_fuel(vdec_at, 1); assert(vdec_at(b, 9, 1) == if b.len() <= 9 { None } else if b[9] < 128 { Some((b[9] as nat, 1nat)) } else { match vdec_at(b, 10, 0) { Some(p) => Some(((b[9] - 128 + 128 * p.0) as nat, p.1 + 1)), None => None } });
    assert(vdec_at(b, 10, 0) == None::<(nat, nat)>);
}
/// the low 64 bits of a number
#[verifier::opaque]
pub open spec fn low64(x: nat) -> nat { x % 0x1_0000_0000_0000_0000 }
pub broadcast proof fn lemma_top_bits(lo: nat, p: nat)
    requires lo < 0x100_0000_0000_0000
    ensures #[trigger] low64((lo + p * 0x100_0000_0000_0000) as nat) == lo + (p % 256) * 0x100_0000_0000_0000
{
    reveal(low64);
    let q = p / 256;
    let r = p % 256;
    assert(p == 256 * q + r);
    let x = (lo + r * 0x100_0000_0000_0000) as int;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q as int, x, 0x1_0000_0000_0000_0000);
    vstd::arithmetic::div_mod::lemma_small_mod(x as nat, 0x1_0000_0000_0000_0000);
}
pub broadcast proof fn lemma_no_top(x: nat)
    requires x < 0x1_0000_0000_0000_0000
    ensures #[trigger] low64(x) == x
{ reveal(low64); vstd::arithmetic::div_mod::lemma_small_mod(x, 0x1_0000_0000_0000_0000); }

// ---- run length ---------------------------------------------------------
pub open spec fn rep(b: u8, n: nat) -> Seq<u8> { Seq::new(n, |i: int| b) }

/// Reference decoder of the bitmap format: frames of `varint(2*n) byte` (a run
/// of n equal bytes) and `varint(2*n+1) n-bytes` (a literal).
#[verifier::opaque]
pub open spec fn rle_dec(b: Seq<u8>) -> Option<Seq<u8>>
    decreases b.len()
{
    if b.len() == 0 { Some(Seq::empty()) }
    else {
        match vdec(b) {
            None => None,
            Some(p) => {
                let n = (p.0 / 2) as int;
                let k = p.1 as int;
                let e = if p.0 % 2 == 1 { k + n } else { k + 1 };
                if k < 1 || e > b.len() { None }
                else {
                    match rle_dec(b.subrange(e, b.len() as int)) {
                        None => None,
                        Some(r) => Some((if p.0 % 2 == 1 { b.subrange(k, e) } else { rep(b[k], n as nat) }) + r),
                    }
                }
            }
        }
    }
}
pub proof fn lemma_rle_append(a: Seq<u8>, f: Seq<u8>)
    requires rle_dec(a) is Some, rle_dec(f) is Some
    ensures rle_dec(a + f) == Some(rle_dec(a)->Some_0 + rle_dec(f)->Some_0)
    decreases a.len()
{ reveal(rle_dec);
    if a.len() == 0 {
        assert(a + f =~= f);
        assert(rle_dec(a)->Some_0 + rle_dec(f)->Some_0 =~= rle_dec(f)->Some_0);
    } else {
        lemma_vdec_prefix(a, f, 0, 10);
        lemma_vdec_bounds(a, 0, 10);
        let p = vdec(a)->Some_0;
        let n = (p.0 / 2) as int;
        let k = p.1 as int;
        let e = if p.0 % 2 == 1 { k + n } else { k + 1 };
        let t = a.subrange(e, a.len() as int);
        lemma_rle_append(t, f);
        let s = a + f;
        assert(s.subrange(e, s.len() as int) =~= t + f);
        let h = if p.0 % 2 == 1 { a.subrange(k, e) } else { rep(a[k], n as nat) };
        let hs = if p.0 % 2 == 1 { s.subrange(k, e) } else { rep(s[k], n as nat) };
        assert(h =~= hs);
        assert(h + (rle_dec(t)->Some_0 + rle_dec(f)->Some_0) =~= (h + rle_dec(t)->Some_0) + rle_dec(f)->Some_0);
    }
}
pub proof fn lemma_rle_literal(d: Seq<u8>)
    requires 2 * d.len() + 1 < P64()
    ensures rle_dec(venc(2 * d.len() + 1) + d) == Some(d)
{ reveal(rle_dec);
    let v = 2 * d.len() + 1;
    lemma_varint_roundtrip(v, d);
    let s = venc(v) + d;
    let k = venc(v).len() as int;
    assert(v / 2 == d.len());
    assert(v % 2 == 1);
    assert(s.subrange(s.len() as int, s.len() as int) =~= Seq::<u8>::empty());
    assert(s.subrange(k, s.len() as int) =~= d);
    assert(d + Seq::<u8>::empty() =~= d);
    assert(rle_dec(Seq::<u8>::empty()) == Some(Seq::<u8>::empty()));
}
pub proof fn lemma_rle_run(b: u8, n: nat)
    requires 2 * n < P64()
    ensures rle_dec(venc(2 * n).push(b)) == Some(rep(b, n))
{ reveal(rle_dec);
    let v = 2 * n;
    lemma_varint_roundtrip(v, seq![b]);
    let s = venc(v) + seq![b];
    assert(s =~= venc(v).push(b));
    let k = venc(v).len() as int;
    assert(v / 2 == n);
    assert(v % 2 == 0);
    assert(s.subrange(k + 1, s.len() as int) =~= Seq::<u8>::empty());
    assert(rep(b, n) + Seq::<u8>::empty() =~= rep(b, n));
    assert(rle_dec(Seq::<u8>::empty()) == Some(Seq::<u8>::empty()));
}

// ---- bits of bytes ------------------------------------------------------
pub open spec fn bits_of(b: Seq<u8>) -> Seq<bool> {
    Seq::new(8 * b.len(), |i: int| bitat(b[i / 8], i % 8))
}
/// the low `n` bits of a byte
pub open spec fn low_bits(b: u8, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| bitat(b, i)) }
pub proof fn lemma_bits_of_push(s: Seq<u8>, b: u8)
    ensures bits_of(s.push(b)) == bits_of(s) + low_bits(b, 8)
{
    assert(bits_of(s.push(b)) =~= bits_of(s) + low_bits(b, 8));
}
/// `bytes` holds the bits of `s`, padded with zeros up to a whole byte.
pub open spec fn packs(bytes: Seq<u8>, s: Seq<bool>) -> bool {
    &&& bytes.len() == (s.len() + 7) / 8
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] bitat(bytes[i / 8], i % 8) == s[i]
    &&& forall|i: int| s.len() <= i < 8 * bytes.len() ==> !#[trigger] bitat(bytes[i / 8], i % 8)
}
/// `e` is a run-length encoding of the bitmap `s`.
pub open spec fn rle_is(e: Seq<u8>, s: Seq<bool>) -> bool {
    rle_dec(e) matches Some(bytes) && packs(bytes, s)
}
// ---- size of the run-length format ---------------------------------------
/// number of maximal stretches of equal bytes
#[verifier::opaque]
pub open spec fn stretches(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 }
    else { stretches(s.drop_last()) + (if s.len() == 1 || s[s.len() - 2] != s[s.len() - 1] { 1nat } else { 0nat }) }
}
pub proof fn lemma_stretches_push(s: Seq<u8>, b: u8)
    ensures stretches(s.push(b)) == stretches(s) + (if s.len() == 0 || s.last() != b { 1nat } else { 0nat })
{ reveal(stretches);
    assert(s.push(b).drop_last() =~= s);
}
pub proof fn lemma_stretches_pos(s: Seq<u8>)
    ensures s.len() > 0 ==> stretches(s) >= 1
    decreases s.len()
{ reveal(stretches);
    if s.len() > 1 { lemma_stretches_pos(s.drop_last()); }
}
pub proof fn lemma_stretches_add(a: Seq<u8>, b: Seq<u8>)
    requires a.len() > 0 && b.len() > 0 ==> a.last() != b[0]
    ensures stretches(a + b) == stretches(a) + stretches(b)
    decreases b.len()
{ reveal(stretches);
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_stretches_add(a, b.drop_last());
    }
}
pub proof fn lemma_stretches_rep(b: u8, n: nat)
    requires n >= 1
    ensures stretches(rep(b, n)) == 1
    decreases n
{ reveal(stretches);
    let s = rep(b, n);
    assert(s.drop_last() =~= rep(b, (n - 1) as nat));
    if n > 1 { lemma_stretches_rep(b, (n - 1) as nat); }
    else { assert(s.drop_last() =~= Seq::<u8>::empty()); assert(stretches(Seq::<u8>::empty()) == 0); }
}
/// A literal frame: what it decodes to, and what it costs.
pub proof fn lemma_rle_flush_literal(e: Seq<u8>, d: Seq<u8>)
    requires rle_dec(e) is Some, d.len() <= MAX_BITS()
    ensures ({
        let n = e + (venc((2 * d.len() + 1) as nat) + d.subrange(0, d.len() as int));
        let old = rle_dec(e)->Some_0;
        &&& nz(e) ==> nz(n)
        &&& rle_dec(n) == Some(old + d)
        &&& n.len() <= e.len() + d.len() + 10
        &&& n.len() <= e.len() + d.len() + 1 + d.len() / 64
        &&& (old.len() > 0 && d.len() > 0 ==> old.last() != d[0]) ==> stretches(old + d) == stretches(old) + stretches(d)
        &&& d.len() > 0 ==> stretches(d) >= 1
    })
{
    assert(d.subrange(0, d.len() as int) =~= d);
    if nz(e) { lemma_nz_add(e, (2 * d.len() + 1) as nat, d); }
    lemma_rle_literal(d);
    lemma_rle_append(e, venc((2 * d.len() + 1) as nat) + d);
    lemma_venc_len10((2 * d.len() + 1) as nat);
    lemma_venc_len_lin((2 * d.len() + 1) as nat);
    assert((2 * d.len() + 1) / 128 <= d.len() / 64);
    lemma_stretches_pos(d);
    let old = rle_dec(e)->Some_0;
    if old.len() > 0 && d.len() > 0 ==> old.last() != d[0] { lemma_stretches_add(old, d); }
}
pub proof fn lemma_rle_flush_run(e: Seq<u8>, b: u8, n: nat)
    requires rle_dec(e) is Some, 1 <= n <= MAX_BITS()
    ensures ({
        let x = e + venc((2 * n) as nat).push(b);
        let old = rle_dec(e)->Some_0;
        &&& nz(e) ==> nz(x)
        &&& rle_dec(x) == Some(old + rep(b, n))
        &&& x.len() <= e.len() + 11
        &&& x.len() <= e.len() + 2 + n / 64
        &&& (old.len() > 0 ==> old.last() != b) ==> stretches(old + rep(b, n)) == stretches(old) + 1
        &&& (old + rep(b, n)).last() == b
        &&& old.len() / 64 + n / 64 <= (old.len() + n) / 64
    })
{
    if nz(e) { lemma_nz_add(e, (2 * n) as nat, seq![b]); assert(venc((2 * n) as nat) + seq![b] =~= venc((2 * n) as nat).push(b)); }
    lemma_rle_run(b, n);
    lemma_rle_append(e, venc((2 * n) as nat).push(b));
    lemma_venc_len10((2 * n) as nat);
    lemma_venc_len_lin((2 * n) as nat);
    assert((2 * n) / 128 <= n / 64);
    lemma_stretches_rep(b, n);
    let old = rle_dec(e)->Some_0;
    if old.len() > 0 ==> old.last() != b { lemma_stretches_add(old, rep(b, n)); }
}
/// A run of three begins: the bytes before it are emitted as a literal.
pub proof fn lemma_rle_start_run(e: Seq<u8>, b: Seq<u8>, v: u8)
    requires
        rle_dec(e) is Some, 3 < b.len() <= MAX_BITS(), b.len() - 1 <= 2 * stretches(b.drop_last()),
        b[b.len() - 1] == v, b[b.len() - 2] == v, b[b.len() - 3] == v, b[b.len() - 4] != v,
        rle_dec(e)->Some_0.len() > 0 ==> rle_dec(e)->Some_0.last() != b[0],
        e.len() <= 12 * stretches(rle_dec(e)->Some_0),
    ensures ({
        let d = b.subrange(0, b.len() - 3);
        let n = e + (venc((2 * d.len() + 1) as nat) + d);
        let old = rle_dec(e)->Some_0;
        &&& nz(e) ==> nz(n)
        &&& rle_dec(n) == Some(old + d)
        &&& d + rep(v, 3) == b
        &&& n.len() <= e.len() + d.len() + 1 + d.len() / 64
        &&& old.len() / 64 + d.len() / 64 <= (old.len() + d.len()) / 64
        &&& n.len() <= 12 * stretches(old + d)
        &&& (old + d).last() != v
    })
{
    let d = b.subrange(0, b.len() - 3);
    let old = rle_dec(e)->Some_0;
    lemma_rle_flush_literal(e, d);
    assert(d.subrange(0, d.len() as int) =~= d);
    assert(d + rep(v, 3) =~= b);
    lemma_three(b, d, v);
    let n = e + (venc((2 * d.len() + 1) as nat) + d);
    lemma_cost(n.len() as int, e.len() as int, d.len() as int, stretches(old) as int, stretches(d) as int, stretches(old + d) as int);
}
proof fn lemma_cost(n: int, e: int, d: int, so: int, sd: int, s: int)
    requires n <= e + d + 10, e <= 12 * so, d <= 2 * sd, s == so + sd, sd >= 1
    ensures n <= 12 * s
{ }
proof fn lemma_three(b: Seq<u8>, d: Seq<u8>, v: u8)
    requires 3 < b.len(), d == b.subrange(0, b.len() - 3), b[b.len() - 2] == v, b[b.len() - 3] == v, b[b.len() - 4] != v,
    ensures stretches(b.drop_last()) == stretches(d) + 1
{
    let t = b.drop_last();
    assert(t =~= d.push(v).push(v));
    lemma_stretches_push(d, v);
    lemma_stretches_push(d.push(v), v);
}
/// The bits of whole bytes followed by a partial byte.
pub proof fn lemma_packs_of_bits(bytes: Seq<u8>, s: Seq<bool>, last: u8, n: int, whole: Seq<u8>)
    requires
        0 <= n < 8, s == bits_of(whole) + low_bits(last, n),
        bytes == if n > 0 { whole.push(last) } else { whole },
        forall|k: int| n <= k < 8 ==> !#[trigger] bitat(last, k),
    ensures packs(bytes, s)
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] bitat(bytes[i / 8], i % 8) == s[i] by {
        if i < 8 * whole.len() { assert(bits_of(whole)[i] == bitat(whole[i / 8], i % 8)); }
        else { assert(i / 8 == whole.len()); assert(i % 8 == i - 8 * whole.len()); }
    }
}
pub proof fn lemma_mask_table(k: int)
    requires 0 <= k < 8
    ensures ([1u8, 2u8, 4u8, 8u8, 16u8, 32u8, 64u8, 128u8])@[k] == 1u8 << (k as u8)
{
    lemma_bit_masks();
}
/// Everything about the empty sequence, wherever it is needed.
pub broadcast proof fn lemma_count_0(s: Seq<bool>)
    requires s.len() == 0
    ensures #[trigger] count(s) == 0
{ reveal(count); }
pub broadcast proof fn lemma_stretches_0(s: Seq<u8>)
    requires s.len() == 0
    ensures #[trigger] stretches(s) == 0
{ reveal(stretches); }
pub broadcast proof fn lemma_bytes_of_0<T>(s: Seq<T>)
    requires s.len() == 0
    ensures #[trigger] bytes_of(s) == Seq::<u8>::empty()
{ reveal(bytes_of); }
pub broadcast proof fn lemma_pos_0(s: Seq<bool>, base: int)
    requires s.len() == 0
    ensures #[trigger] pos_at(s, base) == Seq::<u32>::empty()
{ reveal(pos_at); }
pub broadcast proof fn lemma_nz_0(s: Seq<u8>)
    requires s.len() == 0
    ensures #[trigger] nz(s)
{ reveal(nz); }
pub broadcast proof fn lemma_rle_0(s: Seq<u8>)
    requires s.len() == 0
    ensures #[trigger] rle_dec(s) == Some(Seq::<u8>::empty())
{ reveal(rle_dec); }
pub broadcast group empties { lemma_count_0, lemma_stretches_0, lemma_bytes_of_0, lemma_pos_0, lemma_rle_0, lemma_nz_0 }
// ---- positions of the set bits --------------------------------------------
#[verifier::opaque]
pub open spec fn pos_at(s: Seq<bool>, base: int) -> Seq<u32>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let r = pos_at(s.drop_last(), base);
        if s.last() { r.push((base + s.len() - 1) as u32) } else { r }
    }
}
pub proof fn lemma_pos_len(s: Seq<bool>, base: int)
    ensures pos_at(s, base).len() == count(s)
    decreases s.len()
{ reveal(pos_at); reveal(count);
    if s.len() > 0 { lemma_pos_len(s.drop_last(), base); }
}
pub proof fn lemma_pos_add(a: Seq<bool>, b: Seq<bool>, base: int)
    ensures pos_at(a + b, base) == pos_at(a, base) + pos_at(b, base + a.len())
    decreases b.len()
{ reveal(pos_at);
    if b.len() == 0 { assert(a + b =~= a); assert(pos_at(a, base) + pos_at(b, base + a.len()) =~= pos_at(a, base)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_pos_add(a, b.drop_last(), base);
        assert(pos_at(a + b, base) =~= pos_at(a, base) + pos_at(b, base + a.len()));
    }
}
pub proof fn lemma_pos_push(s: Seq<bool>, b: bool, base: int)
    ensures pos_at(s.push(b), base) == if b { pos_at(s, base).push((base + s.len()) as u32) } else { pos_at(s, base) }
{ reveal(pos_at);
    assert(s.push(b).drop_last() =~= s);
}
pub proof fn lemma_vdec_vsafe(b: Seq<u8>, i: nat, left: nat)
    requires vdec_at(b, i, left) is Some
    ensures exists|j: int| 0 <= j < b.len() && #[trigger] b[j] < 128
    decreases left
{
    if b[i as int] >= 128 { lemma_vdec_vsafe(b, i + 1, (left - 1) as nat); }
    else { assert(b[i as int] < 128); }
}
/// One frame of a run-length encoding.
pub proof fn lemma_rle_frame(b: Seq<u8>)
    requires b.len() > 0, rle_dec(b) is Some
    ensures
        vdec(b) is Some, vsafe(b),
        ({
            let p = vdec(b)->Some_0;
            let n = (p.0 / 2) as int;
            let k = p.1 as int;
            let e = if p.0 % 2 == 1 { k + n } else { k + 1 };
            let h = if p.0 % 2 == 1 { b.subrange(k, e) } else { rep(b[k], n as nat) };
            &&& 1 <= k <= 10 && k <= e <= b.len() && (p.0 % 2 == 0 ==> k < b.len())
            &&& rle_dec(b.subrange(e, b.len() as int)) is Some
            &&& rle_dec(b) == Some(h + rle_dec(b.subrange(e, b.len() as int))->Some_0)
            &&& h.len() == n
        }),
{
    reveal(rle_dec);
    lemma_vdec_bounds(b, 0, 10);
    lemma_vdec_vsafe(b, 0, 10);
}
pub proof fn lemma_bits_of_add(a: Seq<u8>, b: Seq<u8>)
    ensures bits_of(a + b) == bits_of(a) + bits_of(b)
{
    assert(bits_of(a + b) =~= bits_of(a) + bits_of(b)) by {
        assert forall|i: int| 0 <= i < 8 * (a.len() + b.len()) implies #[trigger] bits_of(a + b)[i] == (bits_of(a) + bits_of(b))[i] by {
            if i >= 8 * a.len() { assert((i - 8 * a.len()) / 8 == i / 8 - a.len()); assert((i - 8 * a.len()) % 8 == i % 8); }
        }
    }
}
/// positions and their number, for two parts of a byte string
pub proof fn lemma_pos_bytes(a: Seq<u8>, b: Seq<u8>, base: int)
    ensures
        pos_at(bits_of(a + b), base) == pos_at(bits_of(a), base) + pos_at(bits_of(b), base + 8 * a.len()),
        count(bits_of(a + b)) == count(bits_of(a)) + count(bits_of(b)),
{
    lemma_bits_of_add(a, b);
    lemma_pos_add(bits_of(a), bits_of(b), base);
    lemma_count_add(bits_of(a), bits_of(b));
}
/// positions and counts around one part of a byte string
pub proof fn lemma_split_bytes(a: Seq<u8>, h: Seq<u8>, r: Seq<u8>, all: Seq<u8>, base: int)
    requires a + h + r =~= all
    ensures
        pos_at(bits_of(a + h), base) == pos_at(bits_of(a), base) + pos_at(bits_of(h), base + 8 * a.len()),
        count(bits_of(a + h)) == count(bits_of(a)) + count(bits_of(h)),
        count(bits_of(all)) == count(bits_of(a + h)) + count(bits_of(r)),
{
    lemma_pos_bytes(a, h, base);
    lemma_pos_bytes(a + h, r, base);
    assert(a + h + r == all);
}
pub proof fn lemma_bits_of_empty()
    ensures bits_of(Seq::<u8>::empty()) == Seq::<bool>::empty(), count(Seq::<bool>::empty()) == 0,
        forall|base: int| #[trigger] pos_at(Seq::<bool>::empty(), base) == Seq::<u32>::empty(),
{ reveal(pos_at); reveal(count); assert(bits_of(Seq::<u8>::empty()) =~= Seq::<bool>::empty()); }
pub proof fn lemma_bits_of_one(v: u8)
    ensures bits_of(seq![v]) == low_bits(v, 8)
{ assert(bits_of(seq![v]) =~= low_bits(v, 8)); }
pub proof fn lemma_no_bits(n: nat, base: int)
    ensures count(bits_of(rep(0, n))) == 0, pos_at(bits_of(rep(0, n)), base) == Seq::<u32>::empty()
{
    let s = bits_of(rep(0, n));
    broadcast use lemma_bit_zero;
    assert(s =~= Seq::new(8 * n, |i: int| false));
    lemma_none_set(8 * n, base);
}
pub proof fn lemma_none_set(n: nat, base: int)
    ensures count(Seq::new(n, |i: int| false)) == 0, pos_at(Seq::new(n, |i: int| false), base) == Seq::<u32>::empty()
    decreases n
{ reveal(pos_at); reveal(count);
    let s = Seq::new(n, |i: int| false);
    if n > 0 { assert(s.drop_last() =~= Seq::new((n - 1) as nat, |i: int| false)); lemma_none_set((n - 1) as nat, base); }
}
pub proof fn lemma_all_bits(n: nat, base: int)
    ensures bits_of(rep(0xFF, n)) == all_true(8 * n), count(all_true(8 * n)) == 8 * n
{
    assert(forall|k: u8| k < 8 ==> 255u8 & (#[trigger] (1u8 << k)) != 0) by (bit_vector);
    assert(bits_of(rep(0xFF, n)) =~= all_true(8 * n));
    lemma_count_all_true(8 * n);
}
} // vxspec_rle
