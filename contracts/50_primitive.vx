//@ file encoding/raw/primitive_enc.rs
//@ prelude
    /// the part of a buffer with values [s, e) and rows [p, q)
    pub open spec fn part<T: Clone>(b: &PrimitiveBuffer<T>, s: int, e: int, p: int, q: int) -> Col {
        Col {
            data: bytes_of(b.vals().subrange(s, e)),
            lens: Seq::new((e - s) as nat, |i: int| vstd::layout::size_of::<T>() as u32),
            bits: b.bits().subrange(p, q),
        }
    }
    pub open spec fn whole<T: Clone>(b: &PrimitiveBuffer<T>) -> Col {
        part(b, 0, b.vals().len() as int, 0, b.bits().len() as int)
    }
    pub open spec fn fixed<T>() -> Kind { Kind::Fixed(vstd::layout::size_of::<T>() as int) }
    pub proof fn lemma_fixed<T: Clone>(b: &PrimitiveBuffer<T>, s: int, e: int, p: int, q: int)
        requires 0 <= s <= e <= b.vals().len(), good_size::<T>()
        ensures total(part(b, s, e, p, q).lens) == part(b, s, e, p, q).data.len(), lens_are(part(b, s, e, p, q).lens, fixed::<T>())
    {
        lemma_bytes_of_len(b.vals().subrange(s, e));
        lemma_total_same(part(b, s, e, p, q).lens, vstd::layout::size_of::<T>() as u32);
    }
    /// bytes of a number of values
    pub open spec fn sz<T>(n: int) -> int { n * vstd::layout::size_of::<T>() }
    pub proof fn lemma_part<T: Clone>(b: &PrimitiveBuffer<T>, s: int, e: int, p: int, q: int)
        requires 0 <= s <= e <= b.vals().len(), 0 <= p <= q <= b.bits().len()
        ensures
            col_add(part(b, 0, s, 0, p), part(b, s, e, p, q)) == part(b, 0, e, 0, q),
            part(b, s, s, p, p) == col0(),
            part(b, s, e, p, q).data.len() == sz::<T>(e - s),
    {
        let x = col_add(part(b, 0, s, 0, p), part(b, s, e, p, q));
        let y = part(b, 0, e, 0, q);
        assert(b.vals().subrange(0, s) + b.vals().subrange(s, e) =~= b.vals().subrange(0, e));
        lemma_bytes_of_add(b.vals().subrange(0, s), b.vals().subrange(s, e));
        assert(x.data =~= y.data);
        assert(x.lens =~= y.lens);
        assert(x.bits =~= y.bits);
        let z = part(b, s, s, p, p);
        assert(b.vals().subrange(s, s) =~= Seq::<T>::empty());
        assert(z.data =~= Seq::<u8>::empty());
        assert(z.lens =~= Seq::<u32>::empty());
        assert(z.bits =~= Seq::<bool>::empty());
        lemma_bytes_of_len(b.vals().subrange(s, e));
    }
    pub proof fn lemma_sz<T>(a: int, b: int)
        requires 0 <= a <= b, good_size::<T>()
        ensures 0 <= a <= sz::<T>(a) <= sz::<T>(b), sz::<T>(a + 1) == sz::<T>(a) + vstd::layout::size_of::<T>(), sz::<T>(0) == 0,
    {
        let z = vstd::layout::size_of::<T>() as int;
        assert(a * z <= b * z) by (nonlinear_arith) requires 0 <= a <= b, z > 0;
        assert(a <= a * z) by (nonlinear_arith) requires 0 <= a, z > 0;
        assert((a + 1) * z == a * z + z) by (nonlinear_arith);
        assert(0 * z == 0) by (nonlinear_arith);
    }
    pub open spec fn good_size<T>() -> bool { 0 < vstd::layout::size_of::<T>() <= 0x1_0000 }
//@ block Encoder
    pub open spec fn nullable(&self) -> bool { self.remaining.nullable() }
    pub open spec fn pend(&self) -> Col { whole(&self.remaining) }
    /// like wf, with any amount pending
    pub open spec fn wf0(&self) -> bool {
        &&& good_size::<T>()
        &&& buf_ok(&self.remaining)
        &&& 0 < self.min_block_size <= u32::MAX
        &&& self.num_rows + self.remaining.bits().len() < u32::MAX
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.wf0()
        &&& sz::<T>(self.remaining.vals().len() as int) < self.min_block_size
    }
    pub open spec fn enc(&self) -> Enc {
        Enc { ok: true, kind: fixed::<T>(), nullable: self.nullable(), min: self.min_block_size as int, pend: self.pend(), rows: self.num_rows as int }
    }
    pub open spec fn rows(&self) -> int { self.num_rows + self.remaining.bits().len() }
    pub open spec fn suits(&self, b: &PrimitiveBuffer<T>) -> bool { buf_ok(b) && b.nullable() == self.nullable() }
    pub open spec fn same(&self, o: &Self) -> bool {
        self.remaining == o.remaining && self.min_block_size == o.min_block_size
    }
//@ prelude
    pub open spec fn buf_ok<T: Clone>(b: &PrimitiveBuffer<T>) -> bool {
        &&& b.wf()
        &&& sz::<T>(b.vals().len() as int) <= 0x100_0000_0000_0000
        &&& b.bits().len() < u32::MAX
    }
    /// p is where the rows of the value number `start` begin: all rows before belong to previous values
    pub open spec fn row_pos<T: Clone>(b: &PrimitiveBuffer<T>, start: int, p: int) -> bool {
        &&& 0 <= start <= b.vals().len() && 0 <= p <= b.bits().len()
        &&& if b.nullable() { count(b.bits().subrange(0, p)) == start } else { p == start }
    }
//@ fn Encoder::new props=C01,C17
//@ sig
    requires clone_is_eq::<T>(), good_size::<T>(), 0 < block_size <= u32::MAX,
    ensures ret.wf(), ret.nullable() == nullable, ret.pend() == col0(), ret.num_rows == 0, ret.min_block_size == block_size,
//@ exit
    proof { let r = &vx_ret.remaining; lemma_part(r, 0, 0, 0, 0); assert(sz::<T>(0) == 0) by (nonlinear_arith); }
//@ fn Encoder::add_rows props=C01,C03
//@ sig
    requires old(self).num_rows + num_rows < u32::MAX,
    ensures
        final(self).same(old(self)), final(self).encoded_data@ == old(self).encoded_data@,
        final(self).num_rows == old(self).num_rows + num_rows,
//@ fn encode_primitive_buffer props=C01
//@ sig
    requires
        good_size::<T>(), buf_ok(buf), start <= end <= buf.vals().len(),
        buf.nullable() ==> row_pos(buf, start as int, bit_pos as int),
    ensures ({
        let p = if buf.nullable() { bit_pos as int } else { start as int };
        let q = if buf.nullable() { ret.last_validity_pos as int } else { end as int };
        &&& p <= q <= buf.bits().len()
        &&& ret.num_rows == q - p
        &&& row_pos(buf, end as int, q)
        &&& end == buf.vals().len() ==> q == buf.bits().len()
        &&& !buf.nullable() ==> ret.last_validity_pos == 0
        &&& block_is(final(encoded_data)@, part(buf, start as int, end as int, p, q), fixed::<T>(), buf.nullable())
    }),
//@ entry
    let ghost p = if buf.nullable() { bit_pos as int } else { start as int };
    let ghost part0 = buf.vals().subrange(start as int, end as int);
    proof {
        let b = buf.bits();
        lemma_count_le(b);
        lemma_sz::<T>(end - start, buf.vals().len() as int);
        lemma_bytes_of_len(part0);
        let z = vstd::layout::size_of::<T>() as int;
        assert(z * (end - start) == (end - start) * z) by (nonlinear_arith);
        lemma_count_sub(b, 0, p, b.len() as int);
        assert(b.subrange(0, b.len() as int) =~= b);
        lemma_venc_len10(bytes_of(part0).len());
        lemma_count_all_true((end - start) as nat);
        assert(all_true(buf.vals().len()).subrange(start as int, end as int) =~= all_true((end - start) as nat));
    }
//@ after extend_from_slice 0
    let ghost head = encoded_data@;
    proof { assert(head =~= venc(bytes_of(part0).len()) + bytes_of(part0)); }
//@ after put_from 0
    proof { let b = buf.bits(); lemma_count_sub(b, 0, p, last_bit_pos as int); lemma_count_sub(b, p, last_bit_pos as int, b.len() as int); }
//@ after put_rest 0
    proof {
        let b = buf.bits();
        lemma_count_sub(b, 0, p, last_bit_pos as int);
        assert(bitmap_encoder@ =~= b.subrange(p, last_bit_pos as int));
    }
//@ exit
    proof {
        let q = if buf.nullable() { vx_ret.last_validity_pos as int } else { end as int };
        let c = part(buf, start as int, end as int, p, q);
        let tail = encoded_data@.subrange(head.len() as int, encoded_data@.len() as int);
        assert(encoded_data@ =~= venc(c.data.len()) + c.data + tail);
        lemma_count_sub(buf.bits(), 0, p, q);
        if buf.nullable() { assert(tail =~= bitmap_encoder.encoded_values@); assert(rle_is(tail, c.bits)); }
        else { assert(tail =~= Seq::<u8>::empty()); assert(c.bits =~= all_true(c.lens.len())); }
        lemma_fixed(buf, start as int, end as int, p, q);
        lemma_block_fixed(encoded_data@, c, tail, fixed::<T>(), buf.nullable());
    }
//@ fn to_byte_slice props=C01
//@ sig
    requires sz::<T>(src@.len() as int) <= 0x100_0000_0000_0000,
    ensures ret@ == bytes_of(src@),
//@ entry
    proof { axiom_raw_bytes(src@); lemma_bytes_of_len(src@); }
//@ fn chunk props=C01,C04
//@ sig
    requires good_size::<T>(), buf_ok(buffer), start <= buffer.vals().len(), min_size <= u32::MAX,
    ensures
        start <= ret <= buffer.vals().len(),
        ret == buffer.vals().len() || sz::<T>(ret - start) >= min_size,
        ret > start ==> sz::<T>(ret - start - 1) < min_size,
//@ entry
    proof {
        lemma_sz::<T>(buffer.vals().len() as int, buffer.vals().len() as int);
        let z = vstd::layout::size_of::<T>() as int;
        let m = min_size as int;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, z);
        vstd::arithmetic::div_mod::lemma_mod_bound(m, z);
        assert(z * (m / z) == (m / z) * z) by (nonlinear_arith);
        assert(0 <= m / z <= m) by (nonlinear_arith) requires m >= 0, z > 0, m == z * (m / z) + m % z, 0 <= m % z < z;
        lemma_sz::<T>(m / z, m / z);
        if m / z > 0 { lemma_sz::<T>(m / z - 1, m / z); }
        assert forall|n: int| 0 <= n && (n < m / z || (n == m / z && m % z != 0)) implies #[trigger] sz::<T>(n) < m by {
            if n < m / z { lemma_sz::<T>(n, m / z - 1); }
        }
    }
//@ fn Encoder::write_block props=C01,C03,C05
//@ sig
    requires
        good_size::<T>(), buf_ok(buf), start < end <= buf.vals().len(), old(sink).vx_sink_ok(),
        buf.nullable() ==> row_pos(buf, start as int, bit_pos as int),
        old(self).num_rows + (buf.bits().len() - (if buf.nullable() { bit_pos as int } else { start as int })) < u32::MAX,
    ensures
        final(self).same(old(self)),
        ret matches Ok(r) ==> ({
            let p = if buf.nullable() { bit_pos as int } else { start as int };
            let q = if buf.nullable() { r.last_validity_pos as int } else { end as int };
            let b = final(self).encoded_data@;
            &&& p < q <= buf.bits().len()
            &&& row_pos(buf, end as int, q)
            &&& end == buf.vals().len() ==> q == buf.bits().len()
            &&& !buf.nullable() ==> r.last_validity_pos == 0
            &&& final(self).num_rows == old(self).num_rows + (q - p)
            &&& block_is(b, part(buf, start as int, end as int, p, q), fixed::<T>(), buf.nullable())
            &&& final(sink).vx_blocks() == old(sink).vx_blocks().push(((final(self).num_rows - 1) as u32, b))
            &&& final(sink).vx_sink_ok()
            &&& final(sink).vx_failed() == old(sink).vx_failed()
            &&& final(sink).vx_base() == old(sink).vx_base()
        }),
//@ before add_rows 0
    proof {
        let p = if buf.nullable() { bit_pos as int } else { start as int };
        let q = p + result.num_rows;
        lemma_count_sub(buf.bits(), 0, p, q);
        lemma_count_le(buf.bits().subrange(p, q));
    }
//@ fn Encoder::write_remaining props=C01,C03,C05
//@ sig
    requires
        old(self).wf0(), old(sink).vx_sink_ok(), old(self).remaining.bits().len() > 0,
    ensures
        final(self).same(old(self)),
        ret is Ok ==> ({
            let b = final(self).encoded_data@;
            &&& final(self).num_rows == old(self).num_rows + old(self).remaining.bits().len()
            &&& block_is(b, old(self).pend(), fixed::<T>(), old(self).nullable())
            &&& final(sink).vx_blocks() == old(sink).vx_blocks().push(((final(self).num_rows - 1) as u32, b))
            &&& final(sink).vx_sink_ok()
            &&& final(sink).vx_failed() == old(sink).vx_failed()
            &&& final(sink).vx_base() == old(sink).vx_base()
        }),
//@ entry
    proof { assert(self.remaining.bits().subrange(0, 0) =~= Seq::<bool>::empty()); }
//@ block BlockEncoder@Encoder
    open spec fn vx_enc(&self) -> Enc { self.enc() }
    open spec fn vx_wf(&self) -> bool { self.wf() }
    open spec fn vx_col(&self, b: &PrimitiveBuffer<T>) -> Col { whole(b) }
    open spec fn vx_suits(&self, b: &PrimitiveBuffer<T>) -> bool { self.suits(b) }
//@ fn BlockEncoder@Encoder::encode props=C01,C03,C04,C05
//@ entry
    let ghost bs0 = sink.vx_blocks();
    let ghost all = whole(buffer);
    let ghost mut vp: int = 0;
    let ghost nl = buffer.nullable();
    let ghost min = self.min_block_size as int;
    proof {
        lemma_part(buffer, 0, 0, 0, 0);
        lemma_count_le(buffer.bits());
        lemma_count_le(self.remaining.bits());
        lemma_sz::<T>(self.remaining.vals().len() as int, self.remaining.vals().len() as int);
        lemma_sz::<T>(buffer.vals().len() as int, buffer.vals().len() as int);
        assert(buffer.bits().subrange(0, 0) =~= Seq::<bool>::empty());
        assert forall|c: Col| #[trigger] enc_has(self.enc(), bs0, c) implies col_add(c, part(buffer, 0, 0, 0, 0)) == c by { lemma_col_add(c, c, c); }
        lemma_no_rows(&self.remaining);
    }
//@ before append_from 0
    let ghost pend0 = self.pend();
    let ghost rem0 = self.remaining;
//@ after append_from 0
    proof {
        let e = chunk_end as int;
        vp = if nl { validity_pos as int } else { e };
        if !nl { assert(buffer.bits().subrange(0, e) =~= all_true(e as nat)); }
        lemma_appended(&rem0, buffer, &self.remaining, 0, e, 0, vp);
        lemma_part(buffer, 0, e, 0, vp);
        assert(all_true(e as nat).len() == e);
        lemma_count_le(self.remaining.bits());
        let n = self.remaining.vals().len() as int;
        let r = rem0.vals().len() as int;
        lemma_sz_add::<T>(r, e);
        lemma_sz::<T>(n, 0xffff_ffff);
        if e > 0 { lemma_sz_add::<T>(r, e - 1); lemma_sz::<T>(n - 1, n); }
        assert(sz::<T>(0xffff_ffff) <= 0x1_0000_0000_0000) by (nonlinear_arith) requires 0 < vstd::layout::size_of::<T>() <= 0x1_0000;
        lemma_part(&self.remaining, 0, n, 0, self.remaining.bits().len() as int);
        assert forall|c: Col| #[trigger] enc_has(old(self).enc(), bs0, c) implies enc_has(self.enc(), bs0, col_add(c, part(buffer, 0, e, 0, vp))) by {
            lemma_holds_pend(bs0, c, pend0, self.num_rows as int, fixed::<T>(), nl, part(buffer, 0, e, 0, vp));
        }
    }
//@ before write_remaining 0
    let ghost pend1 = self.pend();
    let ghost rows1 = self.num_rows;
//@ after write_remaining 0
    proof {
        {
            let bl = sink.vx_blocks().last();
            assert forall|c: Col| #[trigger] enc_has(old(self).enc(), bs0, c) implies
                enc_holds(sink.vx_blocks(), col_add(c, part(buffer, 0, chunk_end as int, 0, vp)), col0(), self.num_rows as int, fixed::<T>(), nl) by {
                let d = col_add(c, part(buffer, 0, chunk_end as int, 0, vp));
                lemma_holds_write(bs0, d, pend1, rows1 as int, fixed::<T>(), nl, bl.0, bl.1);
            }
            if enc_full(old(self).enc(), bs0) { lemma_full_push(bs0, min, fixed::<T>(), nl, bl.0, bl.1, pend1); }
        }
    }
//@ after clear 0
    proof { lemma_no_rows(&self.remaining); }
//@ loop 0
    invariant
        self.wf(), self.suits(buffer), sink.vx_sink_ok(), nl == buffer.nullable(),
        self.min_block_size == old(self).min_block_size, min == self.min_block_size,
        all == whole(buffer), bs0 == old(sink).vx_blocks(),
        self.pend() == col0(), self.remaining.vals().len() == 0, self.remaining.bits().len() == 0,
        row_pos(buffer, buf_pos as int, vp), vp == if nl { validity_pos as int } else { buf_pos as int },
        self.num_rows + (buffer.bits().len() - vp) == old(self).rows() + buffer.bits().len(),
        old(self).rows() + buffer.bits().len() < u32::MAX,
        forall|c: Col| #[trigger] enc_has(old(self).enc(), bs0, c)
            ==> enc_has(self.enc(), sink.vx_blocks(), col_add(c, part(buffer, 0, buf_pos as int, 0, vp))),
        enc_full(old(self).enc(), bs0) ==> enc_full(self.enc(), sink.vx_blocks()),
        sink.vx_failed() == old(sink).vx_failed(), sink.vx_base() == old(sink).vx_base(),
        self.nullable() == old(self).nullable(),
    decreases buffer.vals().len() - buf_pos
//@ after chunk 1
    proof {
        lemma_sz::<T>(chunk_end - buf_pos, buffer.vals().len() as int);
        lemma_count_le(buffer.bits());
        if buf_pos < chunk_end { lemma_sz::<T>(chunk_end - buf_pos - 1, chunk_end - buf_pos); }
    }
//@ before append_from 1
    let ghost rem1 = self.remaining;
//@ after append_from 1
    proof {
        let e = chunk_end as int;
        let s = buf_pos as int;
        let q = buffer.bits().len() as int;
        let pt = part(buffer, s, e, vp, q);
        if !nl { assert(buffer.bits().subrange(s, e) =~= all_true((e - s) as nat)); }
        lemma_appended(&rem1, buffer, &self.remaining, s, e, vp, q);
        lemma_part(buffer, s, e, vp, q);
        lemma_col_add(pt, pt, pt);
        assert forall|c: Col| #[trigger] enc_has(old(self).enc(), bs0, c) implies enc_has(self.enc(), sink.vx_blocks(), col_add(c, all)) by {
            lemma_holds_pend(sink.vx_blocks(), col_add(c, part(buffer, 0, s, 0, vp)), col0(), self.num_rows as int, fixed::<T>(), nl, pt);
            lemma_col_add(c, part(buffer, 0, s, 0, vp), pt);
        }
    }
//@ before write_block 0
    let ghost bs1 = sink.vx_blocks();
    let ghost rows1 = self.num_rows;
//@ after write_block 0
    proof {
        {
            let e = chunk_end as int;
            let s = buf_pos as int;
            let q = if nl { result.last_validity_pos as int } else { e };
            let bl = sink.vx_blocks().last();
            let pt = part(buffer, s, e, vp, q);
            lemma_part(buffer, s, e, vp, q);
            lemma_col_add(pt, pt, pt);
            assert forall|c: Col| #[trigger] enc_has(old(self).enc(), bs0, c) implies
                enc_has(self.enc(), sink.vx_blocks(), col_add(c, part(buffer, 0, e, 0, q))) by {
                let c1 = col_add(c, part(buffer, 0, s, 0, vp));
                lemma_holds_pend(bs1, c1, col0(), rows1 as int, fixed::<T>(), nl, pt);
                lemma_holds_write(bs1, col_add(c1, pt), pt, rows1 as int, fixed::<T>(), nl, bl.0, bl.1);
                lemma_col_add(c, part(buffer, 0, s, 0, vp), pt);
            }
            if enc_full(old(self).enc(), bs0) { lemma_full_push(bs1, min, fixed::<T>(), nl, bl.0, bl.1, pt); }
            vp = q;
        }
    }
//@ fn BlockEncoder@Encoder::flush props=C01,C03,C04,C05
//@ entry
    let ghost bs0 = sink.vx_blocks();
    let ghost pend1 = self.pend();
    let ghost rows1 = self.num_rows;
    let ghost min = self.min_block_size as int;
    let ghost nl = self.nullable();
    proof { lemma_no_rows(&self.remaining); lemma_part(&self.remaining, 0, self.remaining.vals().len() as int, 0, self.remaining.bits().len() as int); }
//@ after write_remaining 0
    proof {
        {
            let bl = sink.vx_blocks().last();
            assert forall|c: Col| #[trigger] enc_has(old(self).enc(), bs0, c) implies
                enc_holds(sink.vx_blocks(), c, col0(), self.num_rows as int, fixed::<T>(), nl) by {
                lemma_holds_write(bs0, c, pend1, rows1 as int, fixed::<T>(), nl, bl.0, bl.1);
            }
            if enc_full(old(self).enc(), bs0) { lemma_full_push(bs0, min, fixed::<T>(), nl, bl.0, bl.1, pend1); }
        }
    }
//@ prelude
    pub proof fn lemma_no_rows<T: Clone>(b: &PrimitiveBuffer<T>)
        requires b.wf()
        ensures b.bits().len() == 0 ==> b.vals().len() == 0 && whole(b) == col0()
    {
        lemma_count_le(b.bits());
        if b.bits().len() == 0 { lemma_part(b, 0, 0, 0, 0); }
    }
    pub proof fn lemma_sz_add<T>(a: int, b: int)
        ensures sz::<T>(a + b) == sz::<T>(a) + sz::<T>(b)
    {
        let z = vstd::layout::size_of::<T>() as int;
        assert((a + b) * z == a * z + b * z) by (nonlinear_arith);
    }
    /// `c` is `a` with a part of `b` appended
    pub proof fn lemma_appended<T: Clone>(a: &PrimitiveBuffer<T>, b: &PrimitiveBuffer<T>, c: &PrimitiveBuffer<T>, s: int, e: int, p: int, q: int)
        requires
            0 <= s <= e <= b.vals().len(), 0 <= p <= q <= b.bits().len(),
            c.vals() == a.vals() + b.vals().subrange(s, e), c.bits() == a.bits() + b.bits().subrange(p, q),
        ensures whole(c) == col_add(whole(a), part(b, s, e, p, q))
    {
        let x = whole(c);
        let y = col_add(whole(a), part(b, s, e, p, q));
        lemma_bytes_of_add(a.vals(), b.vals().subrange(s, e));
        assert(a.vals().subrange(0, a.vals().len() as int) =~= a.vals());
        assert(a.bits().subrange(0, a.bits().len() as int) =~= a.bits());
        assert(c.vals().subrange(0, c.vals().len() as int) =~= c.vals());
        assert(c.bits().subrange(0, c.bits().len() as int) =~= c.bits());
        assert(x.data =~= y.data);
        assert(x.lens =~= y.lens);
        assert(x.bits =~= y.bits);
    }
