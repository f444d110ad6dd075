// Specification library: pure functions and lemmas, no executable code.
//@ global
pub mod vxspec {
use vstd::prelude::*;

// ---- limits -------------------------------------------------------------
/// more rows than this do not fit a machine; stands for "memory is finite".
pub open spec fn MAX_BITS() -> int { 0x1000_0000_0000_0000 }

// ---- bits ---------------------------------------------------------------
pub open spec fn bitat(b: u8, k: int) -> bool { b & (1u8 << (k as u8)) != 0 }

pub broadcast proof fn lemma_bit_or(b: u8, k: int, j: int)
    requires 0 <= k < 8, 0 <= j < 8
    ensures #[trigger] bitat(b | (1u8 << (k as u8)), j) == (bitat(b, j) || j == k)
{
    let k8 = k as u8; let j8 = j as u8;
    assert(((b | (1u8 << k8)) & (1u8 << j8) != 0) == ((b & (1u8 << j8)) != 0 || j8 == k8)) by (bit_vector)
        requires k8 < 8, j8 < 8;
}
pub proof fn lemma_bit_masks()
    ensures
        1u8 << 0u8 == 1, 1u8 << 1u8 == 2, 1u8 << 2u8 == 4, 1u8 << 3u8 == 8,
        1u8 << 4u8 == 16, 1u8 << 5u8 == 32, 1u8 << 6u8 == 64, 1u8 << 7u8 == 128,
{
    assert(1u8 << 0u8 == 1 && 1u8 << 1u8 == 2 && 1u8 << 2u8 == 4 && 1u8 << 3u8 == 8
        && 1u8 << 4u8 == 16 && 1u8 << 5u8 == 32 && 1u8 << 6u8 == 64 && 1u8 << 7u8 == 128) by (bit_vector);
}
pub broadcast proof fn lemma_bit_zero(k: int)
    requires 0 <= k < 8
    ensures #[trigger] bitat(0u8, k) == false
{
    let k8 = k as u8;
    assert(0u8 & (1u8 << k8) == 0) by (bit_vector);
}
pub proof fn lemma_shr3(x: usize)
    ensures x >> 3 == x / 8, x & 7 == x % 8, x & 7 < 8
{
    assert(x >> 3 == x / 8) by (bit_vector);
    assert(x & 7 == x % 8) by (bit_vector);
    assert(x & 7 < 8) by (bit_vector);
}

/// The same with other spellings of the arithmetic.
pub broadcast proof fn lemma_shr3_b(x: usize)
    ensures #[trigger] (x >> 3) == x / 8
{ assert(x >> 3 == x / 8) by (bit_vector); }
pub broadcast proof fn lemma_and7_b(x: usize)
    ensures #[trigger] (x & 7) == x % 8, x & 7 < 8
{ assert(x & 7 == x % 8 && x & 7 < 8) by (bit_vector); }
pub broadcast proof fn lemma_shr7_b(x: usize)
    ensures #[trigger] (x >> 7) == x / 128
{ assert(x >> 7 == x / 128) by (bit_vector); }
pub broadcast proof fn lemma_and127_b(x: usize)
    ensures #[trigger] (x & 127) == x % 128
{ assert(x & 127 == x % 128) by (bit_vector); }
pub broadcast proof fn lemma_bit_shr_b(b: u8, k: usize)
    requires k < 8
    ensures #[trigger] ((b >> k) & 1) == (if bitat(b, k as int) { 1u8 } else { 0u8 })
{
    let k8 = k as u8;
    assert((b >> k) & 1 == (if b & (1u8 << k8) != 0 { 1u8 } else { 0u8 })) by (bit_vector) requires k < 8, k8 == k as u8;
}
pub broadcast proof fn lemma_bit_shl_b(k: usize)
    requires k < 8
    ensures #[trigger] (1u8 << k) == 1u8 << (k as u8)
{
    let k8 = k as u8;
    assert(1u8 << k == 1u8 << k8) by (bit_vector) requires k < 8, k8 == k as u8;
}
pub broadcast group spellings {
    lemma_shr3_b, lemma_and7_b, lemma_shr7_b, lemma_and127_b, lemma_bit_shr_b, lemma_bit_shl_b
}

/// Number of set items.
#[verifier::opaque]
pub open spec fn count(s: Seq<bool>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { count(s.drop_last()) + (if s.last() { 1nat } else { 0nat }) }
}
pub proof fn lemma_count_push(s: Seq<bool>, b: bool)
    ensures count(s.push(b)) == count(s) + (if b { 1nat } else { 0nat })
{ reveal(count);
    assert(s.push(b).drop_last() =~= s);
}
pub proof fn lemma_count_add(a: Seq<bool>, b: Seq<bool>)
    ensures count(a + b) == count(a) + count(b)
    decreases b.len()
{ reveal(count);
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_count_add(a, b.drop_last());
    }
}
pub proof fn lemma_count_le(a: Seq<bool>)
    ensures count(a) <= a.len()
    decreases a.len()
{ reveal(count);
    if a.len() > 0 { lemma_count_le(a.drop_last()); }
}
pub open spec fn all_true(n: nat) -> Seq<bool> { Seq::new(n, |i: int| true) }
pub proof fn lemma_count_all_true(n: nat)
    ensures count(all_true(n)) == n
    decreases n
{ reveal(count);
    if n > 0 {
        assert(all_true(n).drop_last() =~= all_true((n - 1) as nat));
        lemma_count_all_true((n - 1) as nat);
    }
}
/// count over consecutive subranges
pub proof fn lemma_count_sub(s: Seq<bool>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= s.len()
    ensures count(s.subrange(a, c)) == count(s.subrange(a, b)) + count(s.subrange(b, c)),
        s.subrange(a, c) == s.subrange(a, b) + s.subrange(b, c),
{
    assert(s.subrange(a, c) =~= s.subrange(a, b) + s.subrange(b, c));
    lemma_count_add(s.subrange(a, b), s.subrange(b, c));
}
pub proof fn lemma_count_step(s: Seq<bool>, a: int, b: int)
    requires 0 <= a <= b < s.len()
    ensures count(s.subrange(a, b + 1)) == count(s.subrange(a, b)) + (if s[b] { 1nat } else { 0nat }),
        s.subrange(a, b + 1) == s.subrange(a, b).push(s[b]),
{
    assert(s.subrange(a, b + 1) =~= s.subrange(a, b).push(s[b]));
    lemma_count_push(s.subrange(a, b), s[b]);
}

/// A part of `b` is appended to `a`.
pub proof fn lemma_took(a: Seq<bool>, b: Seq<bool>, p: int, q: int)
    requires 0 <= p <= q <= b.len()
    ensures
        count(a + b.subrange(p, q)) == count(a) + count(b.subrange(p, q)),
        count(b.subrange(0, q)) == count(b.subrange(0, p)) + count(b.subrange(p, q)),
        count(b) == count(b.subrange(0, q)) + count(b.subrange(q, b.len() as int)),
{
    lemma_count_add(a, b.subrange(p, q));
    lemma_count_sub(b, 0, p, q);
    lemma_count_sub(b, 0, q, b.len() as int);
    assert(b.subrange(0, b.len() as int) =~= b);
}
/// ... and then the rest of it.
pub proof fn lemma_took_rest(a: Seq<bool>, b: Seq<bool>, p: int, q: int)
    requires 0 <= p <= q <= b.len()
    ensures
        a + b.subrange(p, q) + b.subrange(q, b.len() as int) == a + b.subrange(p, b.len() as int),
        b.subrange(0, b.len() as int) == b,
{
    assert(a + b.subrange(p, q) + b.subrange(q, b.len() as int) =~= a + b.subrange(p, b.len() as int));
    assert(b.subrange(0, b.len() as int) =~= b);
}
/// Nothing but values is appended.
pub proof fn lemma_took_all_true(n: nat, k: nat)
    ensures all_true(n) + all_true(k) == all_true(n + k), count(all_true(k)) == k
{
    assert(all_true(n) + all_true(k) =~= all_true(n + k));
    lemma_count_all_true(k);
}

pub proof fn lemma_has_null(s: Seq<bool>)
    ensures (count(s) != s.len()) == (exists|i: int| 0 <= i < s.len() && !s[i])
    decreases s.len()
{ reveal(count);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_has_null(t);
        lemma_count_le(t);
        if count(t) != t.len() {
            let i = choose|i: int| 0 <= i < t.len() && !t[i];
            assert(!s[i]);
        } else {
            if !s.last() { assert(!s[s.len() - 1]); }
            else {
                assert forall|i: int| 0 <= i < s.len() implies s[i] by {
                    if i < t.len() { assert(t[i]); }
                }
            }
        }
    }
}

pub broadcast proof fn lemma_count_add_b(a: Seq<bool>, b: Seq<bool>)
    ensures #[trigger] count(a + b) == count(a) + count(b)
{ lemma_count_add(a, b); }
pub broadcast proof fn lemma_count_sub_b(s: Seq<bool>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= s.len()
    ensures count(s.subrange(a, c)) == #[trigger] count(s.subrange(a, b)) + #[trigger] count(s.subrange(b, c))
{ lemma_count_sub(s, a, b, c); }

// ---- cloning ------------------------------------------------------------
/// Cloning a value of this type gives an equal value.
pub open spec fn clone_is_eq<T: Clone>() -> bool {
    forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b
}

// ---- bitpacking ---------------------------------------------------------
pub open spec fn fits(d: Seq<u32>, nb: nat) -> bool {
    forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i] as int) < vstd::arithmetic::power2::pow2(nb)
}
pub proof fn lemma_fits_mono(d: Seq<u32>, a: nat, b: nat)
    requires a <= b, fits(d, a)
    ensures fits(d, b)
{
    if a < b { vstd::arithmetic::power2::lemma_pow2_strictly_increases(a, b); }
}
/// The 16 * nb bytes BitPacker4x::compress writes for a chunk of 128 values.
pub uninterp spec fn bp_pack(d: Seq<u32>, nb: u8) -> Seq<u8>;
/// What BitPacker4x::decompress reads back from them.  (At width 32 bitpacking
/// 0.5.1 drops the first values of a chunk: a known finding.)
pub uninterp spec fn bp_unpack(b: Seq<u8>, nb: u8) -> Seq<u32>;
#[verifier::external_body]
pub proof fn axiom_bp(d: Seq<u32>, nb: u8)
    requires d.len() == 128, nb <= 31, fits(d, nb as nat)
    ensures bp_pack(d, nb).len() == 16 * nb, bp_unpack(bp_pack(d, nb), nb) == d
{ }
/// 128 zeros at any width are zero bytes.
#[verifier::external_body]
pub proof fn axiom_bp_zeros(d: Seq<u32>, nb: u8)
    requires d.len() == 128, nb <= 31, forall|i: int| 0 <= i < 128 ==> d[i] == 0
    ensures forall|i: int| 0 <= i < bp_pack(d, nb).len() ==> bp_pack(d, nb)[i] == 0
{ }
// ---- memory representation of fixed-width values ------------------------
/// The in-memory (little endian) bytes of a value.
pub uninterp spec fn repr<T>(t: T) -> Seq<u8>;
#[verifier::opaque]
pub open spec fn bytes_of<T>(s: Seq<T>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { bytes_of(s.drop_last()) + repr(s.last()) }
}
#[verifier::external_body]
pub proof fn axiom_repr_len<T>(t: T)
    ensures repr(t).len() == vstd::layout::size_of::<T>()
{ }
/// little endian bytes
pub open spec fn le8(x: int, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le8(x / 256, (n - 1) as nat) }
}
pub proof fn lemma_bytes_of_len<T>(s: Seq<T>)
    ensures bytes_of(s).len() == s.len() * vstd::layout::size_of::<T>()
    decreases s.len()
{ reveal(bytes_of);
    if s.len() > 0 {
        lemma_bytes_of_len(s.drop_last());
        axiom_repr_len(s.last());
        assert((s.len() - 1) * vstd::layout::size_of::<T>() + vstd::layout::size_of::<T>() == s.len() * vstd::layout::size_of::<T>()) by (nonlinear_arith);
    } else {
        assert(0 * vstd::layout::size_of::<T>() == 0) by (nonlinear_arith);
    }
}
pub proof fn lemma_bytes_of_add<T>(a: Seq<T>, b: Seq<T>)
    ensures bytes_of(a + b) == bytes_of(a) + bytes_of(b)
    decreases b.len()
{ reveal(bytes_of);
    if b.len() == 0 { assert(a + b =~= a); assert(bytes_of(a) + bytes_of(b) =~= bytes_of(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_bytes_of_add(a, b.drop_last());
        assert(bytes_of(a) + bytes_of(b) =~= (bytes_of(a) + bytes_of(b.drop_last())) + repr(b.last()));
    }
}
pub uninterp spec fn ptr_of<T>(s: Seq<T>) -> *const T;
pub uninterp spec fn mem_at<T>(p: *const T, n: nat) -> Seq<T>;
#[verifier::external_body]
pub proof fn axiom_raw_bytes<T>(s: Seq<T>)
    ensures mem_at(ptr_of(s) as *const u8, s.len() * vstd::layout::size_of::<T>()) == bytes_of(s)
{ reveal(bytes_of); }
// checked by rustc when the extracted crate is compiled
global size_of f64 == 8;
pub proof fn lemma_f64_size()
    ensures vstd::layout::size_of::<f64>() == 8
{ }
/// No slice is longer than isize::MAX bytes (Rust reference).
#[verifier::external_body]
pub proof fn axiom_slice_max(s: &[u8])
    ensures s@.len() <= isize::MAX
{ }
pub use crate::vxspec_rle::*;
pub use crate::vxspec_block::*;
} // vxspec
