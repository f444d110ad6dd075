// Block formats: what a block must decode to.
//@ global
pub mod vxspec_block {
use vstd::prelude::*;
use crate::vxspec::*;

// ---- the bitpacked item lengths -------------------------------------------
/// start of chunk i behind the width byte
pub open spec fn off_at(nb: int, i: int) -> int { 16 * nb * i }
pub proof fn lemma_off_at(nb: int, i: int)
    requires nb >= 0, i >= 0
    ensures off_at(nb, i + 1) == off_at(nb, i) + 16 * nb, off_at(nb, 0) == 0, off_at(nb, i) >= 0
{
    assert(16 * nb * (i + 1) == 16 * nb * i + 16 * nb) by (nonlinear_arith);
    assert(16 * nb * i >= 0) by (nonlinear_arith) requires nb >= 0, i >= 0;
    assert(16 * nb * 0 == 0) by (nonlinear_arith);
}
pub proof fn lemma_off_mono(nb: int, i: int, k: int)
    requires nb >= 0, 0 <= i <= k
    ensures off_at(nb, i) <= off_at(nb, k)
    decreases k - i
{
    if i < k { lemma_off_at(nb, i); lemma_off_mono(nb, i + 1, k); }
}
pub proof fn lemma_off_bound(nb: int, k: int, n: int)
    requires 0 <= nb <= 32, 0 <= k <= 0x8000_0000_0001, n == 128 * k
    ensures off_at(nb, k) <= 512 * k, nb * n == 8 * off_at(nb, k), nb * n <= 0x2000_0000_0000_0000, off_at(nb, k) >= 0
{
    assert(16 * nb * k <= 512 * k) by (nonlinear_arith) requires nb <= 32, k >= 0;
    assert(16 * nb * k >= 0) by (nonlinear_arith) requires nb >= 0, k >= 0;
    assert(nb * n == 8 * (16 * nb * k)) by (nonlinear_arith) requires n == 128 * k;
}
pub open spec fn off_chunk(s: Seq<u8>, nb: u8, i: int) -> Seq<u32> {
    bp_unpack(s.subrange(1 + off_at(nb as int, i), 1 + off_at(nb as int, i + 1)), nb)
}
/// the values of the first k chunks of a section
pub open spec fn off_vals(s: Seq<u8>, nb: u8, k: nat) -> Seq<u32>
    decreases k
{
    if k == 0 { Seq::empty() } else { off_vals(s, nb, (k - 1) as nat) + off_chunk(s, nb, k - 1) }
}
/// `s` is the section holding the item lengths `lens`: a width byte, then
/// chunks of 128 values of that width; the decoder of the section is off_vals.
pub open spec fn off_is(s: Seq<u8>, lens: Seq<u32>) -> bool {
    let k = (lens.len() + 127) / 128;
    let nb = s[0];
    &&& s.len() == 1 + off_at(nb as int, k as int)
    &&& nb <= 31
    &&& nb > 0 ==> !fits(lens, (nb - 1) as nat)
    &&& lens.len() <= off_vals(s, nb, k as nat).len()
    &&& off_vals(s, nb, k as nat).subrange(0, lens.len() as int) == lens
    // the last chunk is filled up with zeros
    &&& forall|i: int| lens.len() <= i < off_vals(s, nb, k as nat).len() ==> #[trigger] off_vals(s, nb, k as nat)[i] == 0
    // and a chunk of zeros is zero bytes
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] off_chunk(s, nb, i)).len() == 128
            && s.subrange(1 + off_at(nb as int, i), 1 + off_at(nb as int, i + 1)) == bp_pack(off_chunk(s, nb, i), nb)
}
/// chunk i of the padded lengths
pub open spec fn pad_chunk(p: Seq<u32>, i: int) -> Seq<u32> { p.subrange(128 * i, 128 * (i + 1)) }
pub proof fn lemma_off_vals(s: Seq<u8>, nb: u8, p: Seq<u32>, k: nat)
    requires
        nb <= 31, 128 * k <= p.len(), s.len() >= 1 + off_at(nb as int, k as int),
        forall|i: int| 0 <= i < k ==> fits(#[trigger] pad_chunk(p, i), nb as nat),
        forall|i: int| 0 <= i < k ==> s.subrange(1 + off_at(nb as int, i), 1 + off_at(nb as int, i + 1)) == bp_pack(#[trigger] pad_chunk(p, i), nb),
    ensures off_vals(s, nb, k) == p.subrange(0, 128 * k as int)
    decreases k
{
    if k == 0 { assert(p.subrange(0, 0) =~= Seq::<u32>::empty()); }
    else {
        lemma_off_at(nb as int, k - 1);
        lemma_off_vals(s, nb, p, (k - 1) as nat);
        axiom_bp(pad_chunk(p, k - 1), nb);
        assert(p.subrange(0, 128 * k as int) =~= p.subrange(0, 128 * (k - 1)) + pad_chunk(p, k - 1));
    }
}
// ---- columns ---------------------------------------------------------------
/// The content of a column (or of a part of it): the bytes of its values, the
/// length of each value, and for each row whether it has a value.
pub ghost struct Col {
    pub data: Seq<u8>,
    pub lens: Seq<u32>,
    pub bits: Seq<bool>,
}
pub open spec fn col0() -> Col { Col { data: Seq::empty(), lens: Seq::empty(), bits: Seq::empty() } }
pub open spec fn col_add(a: Col, b: Col) -> Col {
    Col { data: a.data + b.data, lens: a.lens + b.lens, bits: a.bits + b.bits }
}
pub open spec fn col_flat(cs: Seq<Col>) -> Col
    decreases cs.len()
{
    if cs.len() == 0 { col0() } else { col_add(col_flat(cs.drop_last()), cs.last()) }
}
pub type Blocks = Seq<(u32, Seq<u8>)>;

/// The layout of a block: fixed-width values, or variable-length values.
pub enum Kind {
    /// of this many bytes
    Fixed(int),
    Var,
}
/// the sum
#[verifier::opaque]
pub open spec fn total(s: Seq<u32>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last() as nat }
}
pub proof fn lemma_total_add(a: Seq<u32>, b: Seq<u32>)
    ensures total(a + b) == total(a) + total(b)
    decreases b.len()
{
    reveal(total);
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_total_add(a, b.drop_last());
    }
}
pub proof fn lemma_total_same(s: Seq<u32>, z: u32)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == z
    ensures total(s) == s.len() * z
    decreases s.len()
{
    reveal(total);
    if s.len() > 0 {
        lemma_total_same(s.drop_last(), z);
        assert((s.len() - 1) * z + z == s.len() * z) by (nonlinear_arith);
    } else { assert(0 * z == 0) by (nonlinear_arith); }
}
pub proof fn lemma_total_0(s: Seq<u32>)
    requires total(s) == 0
    ensures forall|i: int| 0 <= i < s.len() ==> s[i] == 0
    decreases s.len()
{
    reveal(total);
    if s.len() > 0 {
        lemma_total_0(s.drop_last());
        assert forall|i: int| 0 <= i < s.len() implies s[i] == 0 by {
            if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); }
        }
    }
}
pub open spec fn lens_are(lens: Seq<u32>, kind: Kind) -> bool {
    kind matches Kind::Fixed(z) ==> 0 < z && forall|i: int| 0 <= i < lens.len() ==> #[trigger] lens[i] == z
}

/// what follows the value bytes
pub open spec fn block_tail(t: Seq<u8>, c: Col, nullable: bool) -> bool {
    if nullable { rle_is(t, c.bits) && nz(t) } else { t.len() == 0 && c.bits == all_true(c.lens.len()) }
}
/// Block `b` decodes to `c`.
pub open spec fn block_is(b: Seq<u8>, c: Col, kind: Kind, nullable: bool) -> bool {
    vdec(b) matches Some(p) && {
        let n = p.0 as int;
        let k = p.1 as int;
        &&& n == c.data.len()
        &&& k + n <= b.len()
        &&& b.subrange(k, k + n) == c.data
        &&& count(c.bits) == c.lens.len()
        &&& total(c.lens) == n
        &&& lens_are(c.lens, kind)
        &&& match kind {
            Kind::Fixed(z) => block_tail(b.subrange(k + n, b.len() as int), c, nullable),
            Kind::Var => exists|m: int| k + n <= m <= b.len()
                && #[trigger] off_is(b.subrange(k + n, m), c.lens)
                && block_tail(b.subrange(m, b.len() as int), c, nullable),
        }
    }
}
/// A block put together from its parts.
pub proof fn lemma_block_fixed(b: Seq<u8>, c: Col, tail: Seq<u8>, kind: Kind, nullable: bool)
    requires
        b == venc(c.data.len()) + c.data + tail, c.data.len() < P64(),
        count(c.bits) == c.lens.len(), total(c.lens) == c.data.len(), lens_are(c.lens, kind), kind is Fixed, block_tail(tail, c, nullable),
    ensures block_is(b, c, kind, nullable)
{
    let n = c.data.len() as int;
    let k = venc(c.data.len()).len() as int;
    lemma_varint_roundtrip(c.data.len(), c.data + tail);
    assert(b =~= venc(c.data.len()) + (c.data + tail));
    assert(b.subrange(k, k + n) =~= c.data);
    assert(b.subrange(k + n, b.len() as int) =~= tail);
}
pub proof fn lemma_block_var(b: Seq<u8>, c: Col, offs: Seq<u8>, tail: Seq<u8>, nullable: bool)
    requires
        b == venc(c.data.len()) + c.data + offs + tail, c.data.len() < P64(), off_is(offs, c.lens),
        count(c.bits) == c.lens.len(), total(c.lens) == c.data.len(), block_tail(tail, c, nullable),
    ensures block_is(b, c, Kind::Var, nullable)
{
    hide(off_is);
    hide(block_tail);
    let n = c.data.len() as int;
    let k = venc(c.data.len()).len() as int;
    let m = k + n + offs.len();
    lemma_varint_roundtrip(c.data.len(), c.data + offs + tail);
    assert(b =~= venc(c.data.len()) + (c.data + offs + tail));
    assert(b.subrange(k, k + n) =~= c.data);
    assert(b.subrange(k + n, m) =~= offs);
    assert(b.subrange(m, b.len() as int) =~= tail);
    assert(k + n <= m <= b.len() && off_is(b.subrange(k + n, m), c.lens) && block_tail(b.subrange(m, b.len() as int), c, nullable));
}
pub open spec fn col_rows(c: Col) -> int { c.bits.len() as int }
/// The blocks decode to `cs`, and each is tagged with the id of its last row.
pub open spec fn blocks_are(bs: Blocks, cs: Seq<Col>, kind: Kind, nullable: bool) -> bool
    decreases bs.len()
{
    &&& bs.len() == cs.len()
    &&& bs.len() > 0 ==> {
        &&& block_is(bs.last().1, cs.last(), kind, nullable)
        &&& bs.last().0 + 1 == col_rows(col_flat(cs))
        &&& blocks_are(bs.drop_last(), cs.drop_last(), kind, nullable)
    }
}
/// The column c is held: the blocks decode to a prefix of it, the rest is pending.
pub open spec fn enc_holds(bs: Blocks, c: Col, pend: Col, rows: int, kind: Kind, nullable: bool) -> bool {
    exists|cs: Seq<Col>| {
        &&& #[trigger] blocks_are(bs, cs, kind, nullable)
        &&& col_add(col_flat(cs), pend) == c
        &&& rows == col_rows(col_flat(cs))
    }
}
/// A full block: at least `min` bytes of values, and less without its last value.
pub open spec fn block_full(b: Seq<u8>, min: int, kind: Kind, nullable: bool) -> bool {
    exists|c: Col| #[trigger] block_is(b, c, kind, nullable) && col_full(c, min)
}
pub open spec fn col_full(c: Col, min: int) -> bool {
    c.lens.len() > 0 && min <= c.data.len() && c.data.len() - c.lens.last() < min
}
pub open spec fn blocks_full(bs: Blocks, min: int, kind: Kind, nullable: bool) -> bool {
    forall|i: int| 0 <= i < bs.len() ==> block_full(#[trigger] bs[i].1, min, kind, nullable)
}
/// After a flush: only the last block may have less than `min` bytes.
pub open spec fn blocks_sized(bs: Blocks, min: int, kind: Kind, nullable: bool) -> bool {
    blocks_full(bs, min, kind, nullable)
    || (bs.len() > 0 && blocks_full(bs.drop_last(), min, kind, nullable)
        && exists|c: Col| #[trigger] block_is(bs.last().1, c, kind, nullable) && c.data.len() < min)
}
pub proof fn lemma_col_add(a: Col, b: Col, c: Col)
    ensures col_add(col_add(a, b), c) == col_add(a, col_add(b, c)), col_add(a, col0()) == a, col_add(col0(), a) == a
{
    assert(col_add(col_add(a, b), c).data =~= col_add(a, col_add(b, c)).data);
    assert(col_add(col_add(a, b), c).lens =~= col_add(a, col_add(b, c)).lens);
    assert(col_add(col_add(a, b), c).bits =~= col_add(a, col_add(b, c)).bits);
    assert(col_add(a, col0()).data =~= a.data);
    assert(col_add(a, col0()).lens =~= a.lens);
    assert(col_add(a, col0()).bits =~= a.bits);
    assert(col_add(col0(), a).data =~= a.data);
    assert(col_add(col0(), a).lens =~= a.lens);
    assert(col_add(col0(), a).bits =~= a.bits);
}
pub proof fn lemma_holds_start(kind: Kind, nullable: bool)
    ensures enc_holds(Seq::empty(), col0(), col0(), 0, kind, nullable)
{
    let cs = Seq::<Col>::empty();
    lemma_col_add(col0(), col0(), col0());
    assert(blocks_are(Seq::empty(), cs, kind, nullable));
}
/// `p` becomes pending.
pub proof fn lemma_holds_pend(bs: Blocks, c: Col, pend: Col, rows: int, kind: Kind, nullable: bool, p: Col)
    requires enc_holds(bs, c, pend, rows, kind, nullable)
    ensures enc_holds(bs, col_add(c, p), col_add(pend, p), rows, kind, nullable)
{
    let cs = choose|cs: Seq<Col>| {
        &&& #[trigger] blocks_are(bs, cs, kind, nullable)
        &&& col_add(col_flat(cs), pend) == c
        &&& rows == col_rows(col_flat(cs))
    };
    lemma_col_add(col_flat(cs), pend, p);
}
/// The pending column `p` is written as block `b`.
pub proof fn lemma_holds_write(bs: Blocks, c: Col, p: Col, rows: int, kind: Kind, nullable: bool, id: u32, b: Seq<u8>)
    requires
        enc_holds(bs, c, p, rows, kind, nullable), block_is(b, p, kind, nullable), id + 1 == rows + col_rows(p),
    ensures enc_holds(bs.push((id, b)), c, col0(), rows + col_rows(p), kind, nullable)
{
    let cs = choose|cs: Seq<Col>| {
        &&& #[trigger] blocks_are(bs, cs, kind, nullable)
        &&& col_add(col_flat(cs), p) == c
        &&& rows == col_rows(col_flat(cs))
    };
    let ds = cs.push(p);
    let bt = bs.push((id, b));
    assert(ds.drop_last() =~= cs);
    assert(bt.drop_last() =~= bs);
    assert(col_flat(ds) == col_add(col_flat(cs), p));
    lemma_col_add(col_flat(ds), col0(), col0());
    assert(blocks_are(bt, ds, kind, nullable));
}
pub proof fn lemma_full_push(bs: Blocks, min: int, kind: Kind, nullable: bool, id: u32, b: Seq<u8>, c: Col)
    requires blocks_full(bs, min, kind, nullable), block_is(b, c, kind, nullable)
    ensures
        col_full(c, min) ==> blocks_full(bs.push((id, b)), min, kind, nullable),
        c.data.len() < min ==> blocks_sized(bs.push((id, b)), min, kind, nullable),
{
    let bt = bs.push((id, b));
    assert(bt.drop_last() =~= bs);
    assert(bt.last().1 == b);
    if col_full(c, min) {
        assert forall|i: int| 0 <= i < bt.len() implies block_full(#[trigger] bt[i].1, min, kind, nullable) by {
            if i < bs.len() { assert(bt[i] == bs[i]); }
        }
    }
}
// ---- the state of an encoder ------------------------------------------------
/// The configuration of an encoder, what it holds back, and the number of rows
/// of the blocks it wrote.  `ok` is false for an encoder without a decoder.
pub ghost struct Enc {
    pub ok: bool,
    pub kind: Kind,
    pub nullable: bool,
    pub min: int,
    pub pend: Col,
    pub rows: int,
}
/// the blocks and the pending rows together are the column c
pub open spec fn enc_has(e: Enc, bs: Blocks, c: Col) -> bool {
    e.ok && enc_holds(bs, c, e.pend, e.rows, e.kind, e.nullable)
}
/// the blocks alone are the column c
pub open spec fn enc_done(e: Enc, bs: Blocks, c: Col) -> bool {
    e.ok && enc_holds(bs, c, col0(), e.rows, e.kind, e.nullable)
}
pub open spec fn enc_full(e: Enc, bs: Blocks) -> bool { e.ok && blocks_full(bs, e.min, e.kind, e.nullable) }
pub open spec fn enc_sized(e: Enc, bs: Blocks) -> bool { e.ok && blocks_sized(bs, e.min, e.kind, e.nullable) }
pub open spec fn enc_rows(e: Enc) -> int { e.rows + col_rows(e.pend) }
/// the same configuration
pub open spec fn enc_cfg(a: Enc, b: Enc) -> bool {
    a.ok == b.ok && a.kind == b.kind && a.nullable == b.nullable && a.min == b.min
}
// ---- the blocks determine the column ----------------------------------------
// A block has one reading: its rows are numbered by the tags, and with their
// number known no two columns share a block.  So "decodes to" above names one
// column, and a reader that has the tags can find it.
proof fn lemma_packs_unique(t: Seq<u8>, a: Seq<bool>, b: Seq<bool>)
    requires rle_is(t, a), rle_is(t, b), a.len() == b.len()
    ensures a == b
{
    let bytes = rle_dec(t)->Some_0;
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(a[i] == bitat(bytes[i / 8], i % 8));
        assert(b[i] == bitat(bytes[i / 8], i % 8));
    }
    assert(a =~= b);
}
proof fn lemma_tail_unique(t: Seq<u8>, a: Col, b: Col, nullable: bool)
    requires block_tail(t, a, nullable), block_tail(t, b, nullable), a.bits.len() == b.bits.len(), count(a.bits) == a.lens.len(), count(b.bits) == b.lens.len()
    ensures a.bits == b.bits, a.lens.len() == b.lens.len()
{
    if nullable { lemma_packs_unique(t, a.bits, b.bits); }
    else { assert(a.bits =~= b.bits); }
}
/// a shorter section is read the same way
proof fn lemma_off_vals_prefix(s: Seq<u8>, t: Seq<u8>, nb: u8, k: nat)
    requires
        1 + off_at(nb as int, k as int) <= s.len() <= t.len(), s == t.subrange(0, s.len() as int),
    ensures off_vals(s, nb, k) == off_vals(t, nb, k)
    decreases k
{
    if k > 0 {
        lemma_off_at(nb as int, k - 1);
        lemma_off_vals_prefix(s, t, nb, (k - 1) as nat);
        let x = 1 + off_at(nb as int, k - 1);
        let y = 1 + off_at(nb as int, k as int);
        assert(s.subrange(x, y) =~= t.subrange(x, y));
    }
}
/// fewer chunks are the first ones, each with 128 values
proof fn lemma_off_first(s: Seq<u8>, nb: u8, j: nat, k: nat)
    requires j <= k, forall|i: int| 0 <= i < k ==> (#[trigger] off_chunk(s, nb, i)).len() == 128
    ensures
        off_vals(s, nb, k).len() == 128 * k, off_vals(s, nb, j).len() == 128 * j,
        off_vals(s, nb, k).subrange(0, 128 * j as int) == off_vals(s, nb, j),
    decreases k
{
    if k == 0 { assert(off_vals(s, nb, k).subrange(0, 0) =~= off_vals(s, nb, j)); }
    else {
        let w = off_vals(s, nb, (k - 1) as nat);
        if j < k {
            lemma_off_first(s, nb, j, (k - 1) as nat);
            assert(off_chunk(s, nb, k - 1).len() == 128);
            assert((w + off_chunk(s, nb, k - 1)).subrange(0, 128 * j as int) =~= w.subrange(0, 128 * j as int));
        } else {
            lemma_off_first(s, nb, (k - 1) as nat, (k - 1) as nat);
            assert(off_chunk(s, nb, k - 1).len() == 128);
            assert(off_vals(s, nb, k).subrange(0, 128 * j as int) =~= off_vals(s, nb, j));
        }
    }
}
proof fn lemma_off_order(nb: int, i: int, k: int)
    requires nb >= 0, 0 <= i, 0 <= k, off_at(nb, i) < off_at(nb, k)
    ensures i < k, nb > 0
{
    if k <= i { lemma_off_mono(nb, k, i); }
    assert(nb == 0 ==> 16 * nb * k == 0) by (nonlinear_arith);
    lemma_off_at(nb, i);
}
/// Where the second of two lists of lengths needs more chunks, the first chunk
/// it adds is zero: the lengths before it add up to all bytes of the values.
proof fn lemma_extra_chunk(s: Seq<u8>, nb: u8, k1: nat, a: Seq<u32>, b: Seq<u32>)
    requires ({
        let k2 = ((b.len() + 127) / 128) as nat;
        let v = off_vals(s, nb, k1);
        let w = off_vals(s, nb, k2);
        &&& k1 < k2
        &&& forall|i: int| 0 <= i < k2 ==> (#[trigger] off_chunk(s, nb, i)).len() == 128
        &&& a.len() <= v.len() && v.subrange(0, a.len() as int) == a
        &&& forall|i: int| a.len() <= i < v.len() ==> #[trigger] v[i] == 0
        &&& b.len() <= w.len() && w.subrange(0, b.len() as int) == b
        &&& forall|i: int| b.len() <= i < w.len() ==> #[trigger] w[i] == 0
        &&& total(a) == total(b)
    })
    ensures forall|i: int| 0 <= i < 128 ==> off_chunk(s, nb, k1 as int)[i] == 0
{
    let k2 = ((b.len() + 127) / 128) as nat;
    let v = off_vals(s, nb, k1);
    let w = off_vals(s, nb, k2);
    let n = 128 * k1 as int;
    lemma_off_first(s, nb, k1, k2);
    lemma_off_first(s, nb, k1 + 1, k2);
    let z = v.subrange(a.len() as int, n);
    assert(v =~= a + z);
    lemma_total_add(a, z);
    lemma_total_same(z, 0);
    assert(z.len() * 0 == 0) by (nonlinear_arith);
    let y = b.subrange(n, b.len() as int);
    assert(b.subrange(0, n) =~= v) by {
        assert(b.subrange(0, n) =~= w.subrange(0, n));
    }
    assert(b =~= v + y);
    lemma_total_add(v, y);
    lemma_total_0(y);
    let d = off_chunk(s, nb, k1 as int);
    let w1 = off_vals(s, nb, k1 + 1);
    assert(d.len() == 128);
    assert forall|i: int| 0 <= i < 128 implies d[i] == 0 by {
        assert(w1[n + i] == d[i]);
        assert(w.subrange(0, 128 * (k1 + 1) as int)[n + i] == w[n + i]);
        if n + i < b.len() { assert(y[i] == 0); assert(w.subrange(0, b.len() as int)[n + i] == b[n + i]); }
    }
}
proof fn lemma_var_unique(r: Seq<u8>, m1: int, m2: int, a: Col, b: Col, nullable: bool)
    requires
        0 <= m1 <= m2 <= r.len(),
        off_is(r.subrange(0, m1), a.lens), block_tail(r.subrange(m1, r.len() as int), a, nullable),
        off_is(r.subrange(0, m2), b.lens), block_tail(r.subrange(m2, r.len() as int), b, nullable),
        a.bits.len() == b.bits.len(), count(a.bits) == a.lens.len(), count(b.bits) == b.lens.len(), total(a.lens) == total(b.lens),
    ensures a.lens == b.lens, a.bits == b.bits
{
    hide(rle_is);
    let s1 = r.subrange(0, m1);
    let s2 = r.subrange(0, m2);
    let nb = s1[0];
    let k1 = ((a.lens.len() + 127) / 128) as nat;
    let k2 = ((b.lens.len() + 127) / 128) as nat;
    lemma_off_at(nb as int, k1 as int);
    lemma_off_at(nb as int, k2 as int);
    lemma_off_at(s2[0] as int, k2 as int);
    assert(m1 >= 1);
    assert(s2[0] == r[0] && s1[0] == r[0]);
    if m1 == m2 {
        lemma_tail_unique(r.subrange(m1, r.len() as int), a, b, nullable);
    } else {
        lemma_off_order(nb as int, k1 as int, k2 as int);
        lemma_off_at(nb as int, k1 as int);
        lemma_off_mono(nb as int, k1 as int + 1, k2 as int);
        let x = 1 + off_at(nb as int, k1 as int);
        let y = 1 + off_at(nb as int, k1 as int + 1);
        assert(s2.subrange(0, m1) =~= s1);
        lemma_off_vals_prefix(s1, s2, nb, k1);
        let d = off_chunk(s2, nb, k1 as int);
        assert(d.len() == 128);
        lemma_extra_chunk(s2, nb, k1, a.lens, b.lens);
        axiom_bp_zeros(d, nb);
        assert(s2.subrange(x, y) == bp_pack(d, nb));
        assert(s2.subrange(x, y)[0] == 0);
        assert(y - x == 16 * nb);
        assert(s2[x] == 0);
        let t = r.subrange(m1, r.len() as int);
        assert(t.len() > 0);
        assert(t[0] == r[m1]);
        reveal(nz);
        assert(false);
    }
}
/// A block of a known number of rows holds one column.
pub proof fn lemma_block_unique(b: Seq<u8>, c: Col, d: Col, kind: Kind, nullable: bool)
    requires block_is(b, c, kind, nullable), block_is(b, d, kind, nullable), c.bits.len() == d.bits.len()
    ensures c == d
{
    hide(off_is);
    hide(rle_is);
    let p = vdec(b)->Some_0;
    let at = p.1 + p.0;
    let r = b.subrange(at as int, b.len() as int);
    let l = b.len() as int;
    if kind is Fixed {
        lemma_tail_unique(r, c, d, nullable);
        assert(c.lens =~= d.lens);
    } else {
        let m1 = choose|m: int| at <= m <= l && #[trigger] off_is(b.subrange(at as int, m), c.lens) && block_tail(b.subrange(m, l), c, nullable);
        let m2 = choose|m: int| at <= m <= l && #[trigger] off_is(b.subrange(at as int, m), d.lens) && block_tail(b.subrange(m, l), d, nullable);
        assert(b.subrange(at as int, m1) =~= r.subrange(0, m1 - at));
        assert(b.subrange(at as int, m2) =~= r.subrange(0, m2 - at));
        assert(b.subrange(m1, l) =~= r.subrange(m1 - at, r.len() as int));
        assert(b.subrange(m2, l) =~= r.subrange(m2 - at, r.len() as int));
        if m1 <= m2 { lemma_var_unique(r, m1 - at, m2 - at, c, d, nullable); }
        else { lemma_var_unique(r, m2 - at, m1 - at, d, c, nullable); }
    }
}
/// The blocks and their tags hold one sequence of columns.
pub proof fn lemma_blocks_unique(bs: Blocks, cs: Seq<Col>, ds: Seq<Col>, kind: Kind, nullable: bool)
    requires blocks_are(bs, cs, kind, nullable), blocks_are(bs, ds, kind, nullable)
    ensures cs == ds
    decreases bs.len()
{
    hide(block_is);
    if bs.len() > 0 {
        lemma_blocks_unique(bs.drop_last(), cs.drop_last(), ds.drop_last(), kind, nullable);
        assert(col_rows(col_flat(cs)) == col_rows(col_flat(cs.drop_last())) + col_rows(cs.last()));
        assert(col_rows(col_flat(ds)) == col_rows(col_flat(ds.drop_last())) + col_rows(ds.last()));
        lemma_block_unique(bs.last().1, cs.last(), ds.last(), kind, nullable);
        assert(cs =~= cs.drop_last().push(cs.last()));
        assert(ds =~= ds.drop_last().push(ds.last()));
    } else {
        assert(cs =~= ds);
    }
}
/// After the flush there is one column that the blocks hold.
pub proof fn lemma_done_unique(e: Enc, bs: Blocks, c: Col, d: Col)
    requires enc_done(e, bs, c), enc_done(e, bs, d)
    ensures c == d
{
    hide(blocks_are);
    let cs = choose|cs: Seq<Col>| {
        &&& #[trigger] blocks_are(bs, cs, e.kind, e.nullable)
        &&& col_add(col_flat(cs), col0()) == c
        &&& e.rows == col_rows(col_flat(cs))
    };
    let ds = choose|ds: Seq<Col>| {
        &&& #[trigger] blocks_are(bs, ds, e.kind, e.nullable)
        &&& col_add(col_flat(ds), col0()) == d
        &&& e.rows == col_rows(col_flat(ds))
    };
    lemma_blocks_unique(bs, cs, ds, e.kind, e.nullable);
}
} // vxspec_block
