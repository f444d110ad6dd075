//@ file encoding/varint.rs
//@ prelude
    // VX_CLIENT_BEGIN
    pub mod vx_client {
    use super::*;
    use vstd::prelude::*;
    /// Any value put at the end of any buffer reads back from there, whatever follows.
    fn client_varint(buf: &mut Vec<u8>, value: u64, rest: &Vec<u8>) -> (r: (u64, usize))
        ensures r.0 == value, old(buf)@.len() + r.1 <= final(buf)@.len(), final(buf)@.subrange(0, old(buf)@.len() as int) == old(buf)@
    {
        let ghost b0 = buf@;
        let at = buf.len();
        buf.put_varint(value);
        buf.extend_from_slice(rest.as_slice());
        let ghost e = venc(value as nat);
        proof {
            assert(buf@ == b0 + e + rest@);
            assert(buf@.subrange(at as int, buf@.len() as int) =~= e + rest@);
            lemma_varint_back(value, rest@);
        }
        match decode_varint(&buf.as_slice()[at..]) {
            Ok(p) => { proof { assert(buf@.subrange(0, b0.len() as int) =~= b0); } p }
            Err(_) => { proof { assert(false); } (0, 0) }
        }
    }
    proof fn lemma_varint_back(v: u64, t: Seq<u8>)
        ensures
            vsafe(venc(v as nat) + t),
            vdec(venc(v as nat) + t) == Some((v as nat, venc(v as nat).len())),
            low64(v as nat) == v as nat,
    {
        reveal(low64);
        lemma_varint_roundtrip(v as nat, t);
        lemma_vdec_vsafe(venc(v as nat) + t, 0, 10);
        assert(vsafe(venc(v as nat) + t));
    }
    } // vx_client
    // VX_CLIENT_END
//@ file encoding/bitmap_rle.rs
//@ prelude
    // VX_CLIENT_BEGIN
    pub mod vx_client {
    use super::*;
    use vstd::prelude::*;
    proof fn lemma_pos_false(s: Seq<bool>, base: int)
        requires forall|i: int| 0 <= i < s.len() ==> !s[i]
        ensures pos_at(s, base) == Seq::<u32>::empty(), count(s) == 0
    {
        assert(s =~= Seq::new(s.len(), |i: int| false));
        lemma_none_set(s.len(), base);
    }
    /// the padding adds no position
    proof fn lemma_packed_positions(bytes: Seq<u8>, s: Seq<bool>)
        requires packs(bytes, s)
        ensures pos_at(bits_of(bytes), 0) == pos_at(s, 0), count(bits_of(bytes)) == count(s)
    {
        let b = bits_of(bytes);
        let pad = b.subrange(s.len() as int, b.len() as int);
        assert(b =~= s + pad);
        lemma_pos_false(pad, s.len() as int);
        lemma_pos_add(s, pad, 0);
        lemma_count_add(s, pad);
        assert(pos_at(s, 0) + Seq::<u32>::empty() =~= pos_at(s, 0));
    }
    /// Any bits that are put come back as the positions of the set ones; the
    /// encoder can be cleared and used again.
    fn client_bitmap(enc: &mut Encoder, bits: &Vec<bool>, out: &mut [u32])
        requires old(enc).wf(), bits@.len() + 8 <= u32::MAX, count(bits@) <= old(out)@.len()
        ensures
            final(enc).wf(), final(enc)@ == Seq::<bool>::empty(),
            final(out)@.len() == old(out)@.len(),
            final(out)@.subrange(0, count(bits@) as int) == pos_at(bits@, 0),
    {
        enc.clear();
        let mut i: usize = 0;
        while i < bits.len()
            invariant
                i <= bits@.len(), bits@.len() + 8 <= u32::MAX, enc.wf(), enc@ == bits@.subrange(0, i as int),
            decreases bits@.len() - i
        {
            enc.put(bits[i]);
            i += 1;
            proof { assert(bits@.subrange(0, i as int) =~= bits@.subrange(0, i - 1).push(bits@[i - 1])); }
        }
        proof { assert(bits@.subrange(0, i as int) =~= bits@); }
        enc.flush();
        proof {
            lemma_packed_positions(rle_dec(enc.encoded_values@)->Some_0, bits@);
            lemma_pos_len(bits@, 0);
        }
        decode(enc.encoded_values(), out);
        enc.clear();
    }
    } // vx_client
    // VX_CLIENT_END
//@ file encoding/mod.rs
//@ prelude
    // VX_CLIENT_BEGIN
    pub mod vx_client {
    use super::*;
    use vstd::prelude::*;
    use super::raw::primitive_enc::{whole, buf_ok, fixed, good_size, sz, lemma_sz};
    use crate::store::indexing_buffer::PrimitiveBuffer;
    use crate::store::indexing_buffer::vx_client::{some, is_some, client_primitive, lemma_some_push, lemma_some_len};
    /// the column that holds the rows
    pub open spec fn rows_col<T>(rows: Seq<Option<T>>) -> Col {
        Col {
            data: bytes_of(some(rows)),
            lens: Seq::new(some(rows).len(), |i: int| vstd::layout::size_of::<T>() as u32),
            bits: is_some(rows),
        }
    }
    /// all rows of the batches, in order
    pub open spec fn all_rows<T>(bs: Seq<Vec<Option<T>>>) -> Seq<Option<T>>
        decreases bs.len()
    {
        if bs.len() == 0 { Seq::empty() } else { all_rows(bs.drop_last()) + bs.last()@ }
    }
    proof fn lemma_some_add<T>(a: Seq<Option<T>>, b: Seq<Option<T>>)
        ensures some(a + b) == some(a) + some(b), is_some(a + b) == is_some(a) + is_some(b)
        decreases b.len()
    {
        assert(is_some(a + b) =~= is_some(a) + is_some(b));
        if b.len() == 0 {
            assert(a + b =~= a);
            assert(some(a) + some(b) =~= some(a));
        } else {
            let c = b.drop_last();
            lemma_some_add(a, c);
            assert(b =~= c.push(b.last()));
            assert(a + b =~= (a + c).push(b.last()));
            lemma_some_push(c, b.last());
            lemma_some_push(a + c, b.last());
            assert(some(a + b) =~= some(a) + some(b));
        }
    }
    proof fn lemma_rows_add<T>(a: Seq<Option<T>>, b: Seq<Option<T>>)
        ensures rows_col(a + b) == col_add(rows_col(a), rows_col(b))
    {
        lemma_some_add(a, b);
        lemma_bytes_of_add(some(a), some(b));
        let x = rows_col(a + b);
        let y = col_add(rows_col(a), rows_col(b));
        assert(x.data =~= y.data);
        assert(x.lens =~= y.lens);
        assert(x.bits =~= y.bits);
    }
    proof fn lemma_batch<T>(bs: Seq<Vec<Option<T>>>, i: int)
        requires 0 <= i < bs.len()
        ensures
            rows_col(all_rows(bs.take(i + 1))) == col_add(rows_col(all_rows(bs.take(i))), rows_col(bs[i]@)),
            all_rows(bs.take(i)).len() + bs[i]@.len() <= all_rows(bs).len(),
        decreases bs.len() - i
    {
        assert(bs.take(i + 1).drop_last() =~= bs.take(i));
        lemma_rows_add(all_rows(bs.take(i)), bs[i]@);
        if i + 1 < bs.len() { lemma_batch(bs, i + 1); } else { assert(bs.take(i + 1) =~= bs); }
    }
    proof fn lemma_whole<T: Clone>(b: &PrimitiveBuffer<T>, rows: Seq<Option<T>>)
        requires b.wf(), b.vals() == some(rows), b.bits() == is_some(rows), good_size::<T>(), rows.len() < u32::MAX
        ensures whole(b) == rows_col(rows), buf_ok(b)
    {
        assert(b.vals().subrange(0, b.vals().len() as int) =~= b.vals());
        assert(whole(b).data =~= rows_col(rows).data);
        assert(whole(b).lens =~= rows_col(rows).lens);
        assert(whole(b).bits =~= b.bits());
        lemma_some_len(rows);
        let z = vstd::layout::size_of::<T>() as int;
        let n = b.vals().len() as int;
        assert(n * z <= 0x1_0000_0000 * 0x1_0000) by (nonlinear_arith) requires 0 <= n <= 0x1_0000_0000, 0 < z <= 0x1_0000;
    }
    /// The blocks hold the column c and no other, in blocks of the size asked for.
    pub open spec fn column_of(bs: Blocks, c: Col, kind: Kind, nullable: bool, min: int) -> bool {
        let e = Enc { ok: true, kind, nullable, min, pend: col0(), rows: col_rows(c) };
        &&& enc_done(e, bs, c)
        &&& forall|d: Col| #[trigger] enc_done(e, bs, d) ==> d == c
        &&& blocks_sized(bs, min, kind, nullable)
    }
    proof fn lemma_column_of(e: Enc, bs: Blocks, c: Col)
        requires enc_done(e, bs, c), enc_sized(e, bs)
        ensures column_of(bs, c, e.kind, e.nullable, e.min)
    {
        let cs = choose|cs: Seq<Col>| {
            &&& #[trigger] blocks_are(bs, cs, e.kind, e.nullable)
            &&& col_add(col_flat(cs), col0()) == c
            &&& e.rows == col_rows(col_flat(cs))
        };
        lemma_col_add(col_flat(cs), col0(), col0());
        let f = Enc { ok: true, kind: e.kind, nullable: e.nullable, min: e.min, pend: col0(), rows: col_rows(c) };
        assert(enc_done(f, bs, c));
        assert forall|d: Col| #[trigger] enc_done(f, bs, d) implies d == c by { lemma_done_unique(f, bs, c, d); }
    }
    /// Any rows, batch by batch through one buffer and a new encoder, into a sink
    /// that has no block yet: the blocks hold exactly these rows.
    fn client_rows<T: Clone + Copy, S: BlockSink>(
        enc: Box<dyn BlockEncoder<PrimitiveBuffer<T>, S>>, sink: &mut S, batches: &Vec<Vec<Option<T>>>, nullable: bool,
        Ghost(min): Ghost<int>,
    ) -> (r: Result<()>)
        requires
            enc.vx_wf(), enc.vx_enc() == enc_new(fixed::<T>(), nullable, min), old(sink).vx_sink_ok(), old(sink).vx_blocks().len() == 0,
            forall|b: &PrimitiveBuffer<T>| #[trigger] enc.vx_col(b) == whole(b),
            forall|b: &PrimitiveBuffer<T>| #[trigger] enc.vx_suits(b) == (buf_ok(b) && b.nullable() == nullable),
            good_size::<T>(), clone_is_eq::<T>(), all_rows(batches@).len() < u32::MAX,
            nullable || forall|i: int, j: int| 0 <= i < batches@.len() && 0 <= j < batches@[i]@.len() ==> (#[trigger] batches@[i]@[j]) is Some,
        ensures r is Ok ==> {
            &&& column_of(final(sink).vx_blocks(), rows_col(all_rows(batches@)), fixed::<T>(), nullable, min)
            &&& final(sink).vx_failed() == old(sink).vx_failed()
        }
    {
        let mut enc = enc;
        let ghost e0 = enc.vx_enc();
        proof {
            lemma_holds_start(fixed::<T>(), nullable);
            assert(batches@.take(0) =~= Seq::<Vec<Option<T>>>::empty());
            assert(sink.vx_blocks() =~= Seq::empty());
            assert(rows_col(Seq::<Option<T>>::empty()) == col0()) by {
                let x = rows_col(Seq::<Option<T>>::empty());
                lemma_bytes_of_len(some(Seq::<Option<T>>::empty()));
                let z = vstd::layout::size_of::<T>() as int;
                assert(0 * z == 0) by (nonlinear_arith);
                assert(x.data =~= Seq::<u8>::empty());
                assert(x.lens =~= Seq::<u32>::empty());
                assert(x.bits =~= Seq::<bool>::empty());
            }
            assert(enc_has(e0, sink.vx_blocks(), col0()));
        }
        let mut buf = PrimitiveBuffer::<T>::new(nullable);
        let mut i: usize = 0;
        while i < batches.len()
            invariant
                i <= batches@.len(), enc.vx_wf(), sink.vx_sink_ok(), buf.wf(), buf.nullable() == nullable,
                forall|b: &PrimitiveBuffer<T>| #[trigger] enc.vx_col(b) == whole(b),
                forall|b: &PrimitiveBuffer<T>| #[trigger] enc.vx_suits(b) == (buf_ok(b) && b.nullable() == nullable),
                good_size::<T>(), all_rows(batches@).len() < u32::MAX,
                nullable || forall|i: int, j: int| 0 <= i < batches@.len() && 0 <= j < batches@[i]@.len() ==> (#[trigger] batches@[i]@[j]) is Some,
                enc_has(enc.vx_enc(), sink.vx_blocks(), rows_col(all_rows(batches@.take(i as int)))),
                enc_rows(enc.vx_enc()) == col_rows(rows_col(all_rows(batches@.take(i as int)))),
                enc_cfg(enc.vx_enc(), e0), e0 == enc_new(fixed::<T>(), nullable, min),
                enc_full(enc.vx_enc(), sink.vx_blocks()),
                sink.vx_failed() == old(sink).vx_failed(),
            decreases batches@.len() - i
        {
            proof { lemma_batch(batches@, i as int); }
            client_primitive(&mut buf, &batches[i]);
            proof { lemma_whole(&buf, batches@[i as int]@); }
            enc.encode(&buf, sink)?;
            i += 1;
        }
        proof { assert(batches@.take(batches@.len() as int) =~= batches@); }
        enc.flush(sink)?;
        proof { lemma_column_of(enc.vx_enc(), sink.vx_blocks(), rows_col(all_rows(batches@))); }
        Ok(())
    }
    /// i32 columns
    fn client_i32<S: BlockSink + Send>(size: usize, nullable: bool, sink: &mut S, batches: &Vec<Vec<Option<i32>>>) -> (r: Result<()>)
        requires
            0 < size <= u32::MAX, old(sink).vx_sink_ok(), old(sink).vx_blocks().len() == 0, all_rows(batches@).len() < u32::MAX,
            nullable || forall|i: int, j: int| 0 <= i < batches@.len() && 0 <= j < batches@[i]@.len() ==> (#[trigger] batches@[i]@[j]) is Some,
        ensures r is Ok ==> {
            &&& column_of(final(sink).vx_blocks(), rows_col(all_rows(batches@)), Kind::Fixed(4), nullable, size as int)
            &&& final(sink).vx_failed() == old(sink).vx_failed()
        }
    {
        proof { broadcast use vstd::layout::layout_of_primitives; assert(clone_is_eq::<i32>()); }
        let enc = new_i32_encoder::<S>(Encoding::Raw, size, nullable)?;
        client_rows(enc, sink, batches, nullable, Ghost(size as int))
    }
    /// i64 columns
    fn client_i64<S: BlockSink + Send>(size: usize, nullable: bool, sink: &mut S, batches: &Vec<Vec<Option<i64>>>) -> (r: Result<()>)
        requires
            0 < size <= u32::MAX, old(sink).vx_sink_ok(), old(sink).vx_blocks().len() == 0, all_rows(batches@).len() < u32::MAX,
            nullable || forall|i: int, j: int| 0 <= i < batches@.len() && 0 <= j < batches@[i]@.len() ==> (#[trigger] batches@[i]@[j]) is Some,
        ensures r is Ok ==> {
            &&& column_of(final(sink).vx_blocks(), rows_col(all_rows(batches@)), Kind::Fixed(8), nullable, size as int)
            &&& final(sink).vx_failed() == old(sink).vx_failed()
        }
    {
        proof { broadcast use vstd::layout::layout_of_primitives; assert(clone_is_eq::<i64>()); }
        let enc = new_i64_encoder::<S>(Encoding::Raw, size, nullable)?;
        client_rows(enc, sink, batches, nullable, Ghost(size as int))
    }
    /// u64 columns
    fn client_u64<S: BlockSink + Send>(size: usize, nullable: bool, sink: &mut S, batches: &Vec<Vec<Option<u64>>>) -> (r: Result<()>)
        requires
            0 < size <= u32::MAX, old(sink).vx_sink_ok(), old(sink).vx_blocks().len() == 0, all_rows(batches@).len() < u32::MAX,
            nullable || forall|i: int, j: int| 0 <= i < batches@.len() && 0 <= j < batches@[i]@.len() ==> (#[trigger] batches@[i]@[j]) is Some,
        ensures r is Ok ==> {
            &&& column_of(final(sink).vx_blocks(), rows_col(all_rows(batches@)), Kind::Fixed(8), nullable, size as int)
            &&& final(sink).vx_failed() == old(sink).vx_failed()
        }
    {
        proof { broadcast use vstd::layout::layout_of_primitives; assert(clone_is_eq::<u64>()); }
        let enc = new_u64_encoder::<S>(Encoding::Raw, size, nullable)?;
        client_rows(enc, sink, batches, nullable, Ghost(size as int))
    }
    /// f64 columns
    fn client_f64<S: BlockSink + Send>(size: usize, nullable: bool, sink: &mut S, batches: &Vec<Vec<Option<f64>>>) -> (r: Result<()>)
        requires
            0 < size <= u32::MAX, old(sink).vx_sink_ok(), old(sink).vx_blocks().len() == 0, all_rows(batches@).len() < u32::MAX,
            nullable || forall|i: int, j: int| 0 <= i < batches@.len() && 0 <= j < batches@[i]@.len() ==> (#[trigger] batches@[i]@[j]) is Some,
        ensures r is Ok ==> {
            &&& column_of(final(sink).vx_blocks(), rows_col(all_rows(batches@)), Kind::Fixed(8), nullable, size as int)
            &&& final(sink).vx_failed() == old(sink).vx_failed()
        }
    {
        proof { broadcast use vstd::layout::layout_of_primitives; lemma_f64_size(); assert(clone_is_eq::<f64>()); }
        let enc = new_f64_encoder::<S>(Encoding::Raw, size, nullable)?;
        client_rows(enc, sink, batches, nullable, Ghost(size as int))
    }
    } // vx_client
    // VX_CLIENT_END
