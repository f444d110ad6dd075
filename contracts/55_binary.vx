//@ file encoding/raw/binary_enc.rs
//@ prelude
    /// the part of a buffer with values [s, e) and rows [p, q)
    pub open spec fn part(b: &BinaryBuffer, s: int, e: int, p: int, q: int) -> Col {
        Col {
            data: b.bytes().subrange(b.offsets@[s] as int, b.offsets@[e] as int),
            lens: b.lens().subrange(s, e),
            bits: b.bits().subrange(p, q),
        }
    }
    pub open spec fn whole(b: &BinaryBuffer) -> Col {
        part(b, 0, b.n() as int, 0, b.bits().len() as int)
    }
    pub proof fn lemma_part(b: &BinaryBuffer, s: int, e: int, p: int, q: int)
        requires b.wf(), 0 <= s <= e <= b.n(), 0 <= p <= q <= b.bits().len()
        ensures
            0 <= b.offsets@[s] <= b.offsets@[e] <= b.bytes().len(),
            col_add(part(b, 0, s, 0, p), part(b, s, e, p, q)) == part(b, 0, e, 0, q),
            part(b, s, s, p, p) == col0(),
            part(b, s, e, p, q).data.len() == b.offsets@[e] - b.offsets@[s],
            part(b, s, e, p, q).lens.len() == e - s,
            e > s ==> part(b, s, e, p, q).lens.last() == b.offsets@[e] - b.offsets@[e - 1],
    {
        let x = col_add(part(b, 0, s, 0, p), part(b, s, e, p, q));
        let y = part(b, 0, e, 0, q);
        let l = b.n() as int;
        assert(b.offsets@[0] <= b.offsets@[s] <= b.offsets@[e] <= b.offsets@[l]);
        assert(x.data =~= y.data);
        assert(x.lens =~= y.lens);
        assert(x.bits =~= y.bits);
        let z = part(b, s, s, p, p);
        assert(z.data =~= Seq::<u8>::empty());
        assert(z.lens =~= Seq::<u32>::empty());
        assert(z.bits =~= Seq::<bool>::empty());
        if e > s { assert(b.offsets@[e - 1] <= b.offsets@[e]); assert(part(b, s, e, p, q).lens.last() == b.lens()[e - 1]); }
    }
    /// the lengths of a part add up to its bytes
    pub proof fn lemma_total(b: &BinaryBuffer, s: int, e: int)
        requires b.wf(), 0 <= s <= e <= b.n()
        ensures total(b.lens().subrange(s, e)) == b.offsets@[e] - b.offsets@[s]
        decreases e - s
    {
        let l = b.lens().subrange(s, e);
        reveal(total);
        if s < e {
            lemma_total(b, s, e - 1);
            assert(l.drop_last() =~= b.lens().subrange(s, e - 1));
            assert(l.last() == b.lens()[e - 1]);
            assert(b.offsets@[e - 1] <= b.offsets@[e]);
        }
    }
    /// the offsets follow from the lengths
    pub proof fn lemma_offsets(a: &BinaryBuffer, b: &BinaryBuffer, c: &BinaryBuffer, s: int, e: int, i: int)
        requires
            a.wf(), b.wf(), c.wf(), 0 <= s <= e <= b.n(), a.n() <= i <= c.n(),
            c.bytes() == a.bytes() + b.bytes().subrange(b.offsets@[s] as int, b.offsets@[e] as int),
            c.lens() == a.lens() + b.lens().subrange(s, e),
        ensures c.n() == a.n() + (e - s), c.offsets@[i] == a.bytes().len() + b.offsets@[s + (i - a.n())] - b.offsets@[s]
        decreases c.n() - i
    {
        assert(c.lens().len() == a.lens().len() + (e - s));
        assert(b.offsets@[s] <= b.offsets@[e] <= b.offsets@[b.n() as int]);
        assert(b.offsets@[0] <= b.offsets@[s]);
        if i == c.n() {
            assert(c.offsets@[i] == c.bytes().len());
        } else {
            lemma_offsets(a, b, c, s, e, i + 1);
            let k = s + (i - a.n());
            assert(c.lens()[i] == b.lens().subrange(s, e)[i - a.n()]);
            assert(c.lens()[i] == b.lens()[k]);
            assert(b.offsets@[k] <= b.offsets@[k + 1]);
            assert(c.offsets@[i] <= c.offsets@[i + 1]);
        }
    }
    pub open spec fn buf_ok(b: &BinaryBuffer) -> bool {
        &&& b.wf()
        &&& b.bytes().len() < u32::MAX
        &&& fits(b.lens(), 31)
        &&& b.bits().len() < u32::MAX
    }
    /// p is where the rows of the value number `start` begin: all rows before belong to previous values
    pub open spec fn row_pos(b: &BinaryBuffer, start: int, p: int) -> bool {
        &&& 0 <= start <= b.n() && 0 <= p <= b.bits().len()
        &&& if b.nullable() { count(b.bits().subrange(0, p)) == start } else { p == start }
    }
    pub open spec fn is_chunk(c: &BinaryChunk, b: &BinaryBuffer) -> bool {
        &&& c.start_pos <= c.end_pos <= b.n()
        &&& c.start_offset == b.offsets@[c.start_pos as int]
        &&& c.end_offset == b.offsets@[c.end_pos as int]
        &&& c.size == c.end_offset - c.start_offset
        &&& c.len == c.end_pos - c.start_pos
    }
    pub proof fn lemma_no_rows(b: &BinaryBuffer)
        requires b.wf()
        ensures b.bits().len() == 0 ==> b.n() == 0 && whole(b) == col0(), b.n() <= b.bits().len(), b.n() == 0 ==> b.bytes().len() == 0
    {
        lemma_count_le(b.bits());
        if b.bits().len() == 0 { lemma_part(b, 0, 0, 0, 0); }
    }
    /// `c` is `a` with a part of `b` appended
    pub proof fn lemma_appended(a: &BinaryBuffer, b: &BinaryBuffer, c: &BinaryBuffer, s: int, e: int, p: int, q: int)
        requires
            a.wf(), b.wf(), c.wf(), 0 <= s <= e <= b.n(), 0 <= p <= q <= b.bits().len(),
            c.bytes() == a.bytes() + b.bytes().subrange(b.offsets@[s] as int, b.offsets@[e] as int),
            c.lens() == a.lens() + b.lens().subrange(s, e), c.bits() == a.bits() + b.bits().subrange(p, q),
        ensures
            whole(c) == col_add(whole(a), part(b, s, e, p, q)),
            whole(c).data == c.bytes(), whole(c).lens == c.lens(), whole(c).bits == c.bits(),
            c.n() == a.n() + (e - s), c.bytes().len() == a.bytes().len() + (b.offsets@[e] - b.offsets@[s]),
            e > s ==> c.bytes().len() - c.lens().last() == a.bytes().len() + b.offsets@[e - 1] - b.offsets@[s],
    {
        let x = whole(c);
        let y = col_add(whole(a), part(b, s, e, p, q));
        lemma_part(b, s, e, p, q);
        assert(c.lens().len() == a.lens().len() + (e - s));
        lemma_offsets(a, b, c, s, e, c.n() as int);
        assert(a.bytes().subrange(0, a.bytes().len() as int) =~= a.bytes());
        assert(c.bytes().subrange(0, c.bytes().len() as int) =~= c.bytes());
        assert(a.bits().subrange(0, a.bits().len() as int) =~= a.bits());
        assert(a.lens().subrange(0, a.n() as int) =~= a.lens());
        assert(c.bits().subrange(0, c.bits().len() as int) =~= c.bits());
        assert(c.lens().subrange(0, c.n() as int) =~= c.lens());
        assert(x.data =~= y.data);
        assert(x.lens =~= y.lens);
        assert(x.bits =~= y.bits);
        if e > s {
            assert(c.lens().last() == b.lens().subrange(s, e).last());
            assert(c.lens().last() == b.lens()[e - 1]);
            assert(b.offsets@[e - 1] <= b.offsets@[e]);
        }
    }
//@ block Encoder
    pub open spec fn nullable(&self) -> bool { self.remaining.nullable() }
    pub open spec fn pend(&self) -> Col { whole(&self.remaining) }
    /// like wf, with any amount pending
    pub open spec fn wf0(&self) -> bool {
        &&& buf_ok(&self.remaining)
        &&& 0 < self.min_block_size <= u32::MAX
        &&& self.num_rows + self.remaining.bits().len() < u32::MAX
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.wf0()
        &&& self.remaining.bytes().len() < self.min_block_size
    }
    pub open spec fn enc(&self) -> Enc {
        Enc { ok: true, kind: Kind::Var, nullable: self.nullable(), min: self.min_block_size as int, pend: self.pend(), rows: self.num_rows as int }
    }
    pub open spec fn rows(&self) -> int { self.num_rows + self.remaining.bits().len() }
    pub open spec fn suits(&self, b: &BinaryBuffer) -> bool {
        buf_ok(b) && b.nullable() == self.nullable() && b.bytes().len() + self.min_block_size < u32::MAX
    }
    pub open spec fn same(&self, o: &Self) -> bool {
        self.remaining == o.remaining && self.min_block_size == o.min_block_size
    }
//@ fn Encoder::new props=C02,C17
//@ sig
    requires 0 < block_size,
    ensures ret.wf(), ret.nullable() == nullable, ret.pend() == col0(), ret.num_rows == 0, ret.min_block_size == block_size,
//@ exit
    proof { lemma_no_rows(&vx_ret.remaining); }
//@ fn Encoder::add_rows props=C02,C03
//@ sig
    requires old(self).num_rows + num_rows < u32::MAX,
    ensures
        final(self).same(old(self)), final(self).encoded_data@ == old(self).encoded_data@,
        final(self).num_rows == old(self).num_rows + num_rows,
//@ fn encode_binary_buffer props=C02
//@ sig
    requires
        buf_ok(buf), is_chunk(chunk, buf),
        buf.nullable() ==> row_pos(buf, chunk.start_pos as int, bit_pos as int),
    ensures ({
        let s = chunk.start_pos as int;
        let e = chunk.end_pos as int;
        let p = if buf.nullable() { bit_pos as int } else { s };
        let q = if buf.nullable() { ret.last_validity_pos as int } else { e };
        &&& p <= q <= buf.bits().len()
        &&& ret.num_rows == q - p
        &&& row_pos(buf, e, q)
        &&& e == buf.n() ==> q == buf.bits().len()
        &&& !buf.nullable() ==> ret.last_validity_pos == 0
        &&& block_is(final(encoded_data)@, part(buf, s, e, p, q), Kind::Var, buf.nullable())
    }),
//@ entry
    hide(crate::store::indexing_buffer::sorted);
    let ghost s = chunk.start_pos as int;
    let ghost e = chunk.end_pos as int;
    let ghost p = if buf.nullable() { bit_pos as int } else { s };
    let ghost data = buf.bytes().subrange(buf.offsets@[s] as int, buf.offsets@[e] as int);
    proof {
        let b = buf.bits();
        lemma_part(buf, s, e, 0, 0);
        lemma_count_le(b);
        lemma_count_sub(b, 0, p, b.len() as int);
        assert(b.subrange(0, b.len() as int) =~= b);
        lemma_venc_len10(data.len());
        lemma_count_all_true((e - s) as nat);
        assert(all_true(buf.n()).subrange(s, e) =~= all_true((e - s) as nat));
    }
//@ after extend_from_slice 0
    let ghost head = encoded_data@;
    proof { assert(head =~= venc(data.len()) + data); }
//@ loop 0 iter=it
    invariant
        buf_ok(buf), is_chunk(chunk, buf), s == chunk.start_pos, e == chunk.end_pos,
        offset_deltas@ == buf.lens().subrange(s, i as int), encoded_data@ == head,
//@ loop 0 exit
    proof { assert(offset_deltas@ =~= buf.lens().subrange(s, i + 1)); }
//@ before encode 0
    proof { assert(offset_deltas@ =~= buf.lens().subrange(s, e)); }
//@ after encode 0
    let ghost head2 = encoded_data@;
    let ghost offs = head2.subrange(head.len() as int, head2.len() as int);
    proof { assert(head2 =~= head + offs); }
//@ after put_from 0
    proof { let b = buf.bits(); lemma_count_sub(b, 0, p, last_bit_pos as int); lemma_count_sub(b, p, last_bit_pos as int, b.len() as int); }
//@ after put_rest 0
    proof {
        let b = buf.bits();
        lemma_count_sub(b, 0, p, last_bit_pos as int);
        assert(bitmap_encoder@ =~= b.subrange(p, last_bit_pos as int));
    }
//@ exit
    proof {
        let q = if buf.nullable() { vx_ret.last_validity_pos as int } else { e };
        let c = part(buf, s, e, p, q);
        let tail = encoded_data@.subrange(head2.len() as int, encoded_data@.len() as int);
        assert(encoded_data@ =~= venc(c.data.len()) + c.data + offs + tail);
        lemma_count_sub(buf.bits(), 0, p, q);
        if buf.nullable() { assert(tail =~= bitmap_encoder.encoded_values@); assert(rle_is(tail, c.bits)); }
        else { assert(tail =~= Seq::<u8>::empty()); assert(c.bits =~= all_true(c.lens.len())); }
        lemma_total(buf, s, e);
        lemma_block_var(encoded_data@, c, offs, tail, buf.nullable());
    }
//@ fn chunk props=C02,C04
//@ sig
    requires buffer.wf(), start_pos <= buffer.n(), 0 < min_size,
    ensures
        is_chunk(&ret, buffer), ret.start_pos == start_pos,
        ret.end_pos == buffer.n() || ret.size >= min_size,
        ret.end_pos > start_pos ==> buffer.offsets@[ret.end_pos - 1] - buffer.offsets@[start_pos as int] < min_size,
//@ closure 0 |offset: &&u32| -> (vx_r: bool)
    requires **offset >= start_offset,
    ensures vx_r == ((**offset - start_offset) as u64 >= min_size),
//@ entry
    proof {
        assert(forall|i: int| start_pos <= i < buffer.offsets@.len() ==> buffer.offsets@[start_pos as int] <= #[trigger] buffer.offsets@[i]);
    }
//@ fn Encoder::write_block props=C02,C03,C05
//@ sig
    requires
        buf_ok(buf), is_chunk(chunk, buf), chunk.start_pos < chunk.end_pos, old(sink).vx_sink_ok(),
        buf.nullable() ==> row_pos(buf, chunk.start_pos as int, bit_pos as int),
        old(self).num_rows + (buf.bits().len() - (if buf.nullable() { bit_pos as int } else { chunk.start_pos as int })) < u32::MAX,
    ensures
        final(self).same(old(self)),
        ret matches Ok(r) ==> ({
            let s = chunk.start_pos as int;
            let e = chunk.end_pos as int;
            let p = if buf.nullable() { bit_pos as int } else { s };
            let q = if buf.nullable() { r.last_validity_pos as int } else { e };
            let b = final(self).encoded_data@;
            &&& p < q <= buf.bits().len()
            &&& row_pos(buf, e, q)
            &&& e == buf.n() ==> q == buf.bits().len()
            &&& !buf.nullable() ==> r.last_validity_pos == 0
            &&& final(self).num_rows == old(self).num_rows + (q - p)
            &&& block_is(b, part(buf, s, e, p, q), Kind::Var, buf.nullable())
            &&& final(sink).vx_blocks() == old(sink).vx_blocks().push(((final(self).num_rows - 1) as u32, b))
            &&& final(sink).vx_sink_ok()
            &&& final(sink).vx_failed() == old(sink).vx_failed()
            &&& final(sink).vx_base() == old(sink).vx_base()
        }),
//@ before add_rows 0
    proof {
        let p = if buf.nullable() { bit_pos as int } else { chunk.start_pos as int };
        let q = p + result.num_rows;
        lemma_count_sub(buf.bits(), 0, p, q);
        lemma_count_le(buf.bits().subrange(p, q));
    }
//@ fn Encoder::write_remaining props=C02,C03,C05
//@ sig
    requires
        old(self).wf0(), old(sink).vx_sink_ok(), old(self).remaining.bits().len() > 0,
    ensures
        final(self).same(old(self)),
        ret is Ok ==> ({
            let b = final(self).encoded_data@;
            &&& final(self).num_rows == old(self).num_rows + old(self).remaining.bits().len()
            &&& block_is(b, old(self).pend(), Kind::Var, old(self).nullable())
            &&& final(sink).vx_blocks() == old(sink).vx_blocks().push(((final(self).num_rows - 1) as u32, b))
            &&& final(sink).vx_sink_ok()
            &&& final(sink).vx_failed() == old(sink).vx_failed()
            &&& final(sink).vx_base() == old(sink).vx_base()
        }),
//@ entry
    proof { assert(self.remaining.bits().subrange(0, 0) =~= Seq::<bool>::empty()); }
//@ block BlockEncoder@Encoder
    open spec fn vx_enc(&self) -> Enc { self.enc() }
    open spec fn vx_wf(&self) -> bool { self.wf() }
    open spec fn vx_col(&self, b: &BinaryBuffer) -> Col { whole(b) }
    open spec fn vx_suits(&self, b: &BinaryBuffer) -> bool { self.suits(b) }
//@ fn BlockEncoder@Encoder::encode props=C02,C03,C04,C05
//@ entry
    hide(crate::store::indexing_buffer::sorted);
    let ghost bs0 = sink.vx_blocks();
    let ghost all = whole(buffer);
    let ghost mut vp: int = 0;
    let ghost nl = buffer.nullable();
    let ghost min = self.min_block_size as int;
    proof {
        lemma_part(buffer, 0, 0, 0, 0);
        assert(buffer.bits().subrange(0, 0) =~= Seq::<bool>::empty());
        assert forall|c: Col| #[trigger] enc_has(self.enc(), bs0, c) implies col_add(c, part(buffer, 0, 0, 0, 0)) == c by { lemma_col_add(c, c, c); }
        lemma_no_rows(&self.remaining);
        lemma_no_rows(buffer);
    }
//@ before append_from 0
    let ghost pend0 = self.pend();
    let ghost rem0 = self.remaining;
    proof {
        lemma_part(buffer, 0, chunk.end_pos as int, 0, 0);
    }
//@ after append_from 0
    proof {
        let e = chunk.end_pos as int;
        vp = if nl { validity_pos as int } else { e };
        if !nl { assert(buffer.bits().subrange(0, e) =~= all_true(e as nat)); }
        assert(all_true(e as nat).len() == e);
        lemma_part(buffer, 0, e, 0, vp);
        lemma_appended(&rem0, buffer, &self.remaining, 0, e, 0, vp);
        lemma_no_rows(&self.remaining);
        assert forall|c: Col| #[trigger] enc_has(old(self).enc(), bs0, c) implies enc_has(self.enc(), bs0, col_add(c, part(buffer, 0, e, 0, vp))) by {
            lemma_holds_pend(bs0, c, pend0, self.num_rows as int, Kind::Var, nl, part(buffer, 0, e, 0, vp));
        }
    }
//@ before write_remaining 0
    let ghost pend1 = self.pend();
    let ghost rows1 = self.num_rows;
//@ after write_remaining 0
    proof {
        {
            let bl = sink.vx_blocks().last();
            assert forall|c: Col| #[trigger] enc_has(old(self).enc(), bs0, c) implies
                enc_holds(sink.vx_blocks(), col_add(c, part(buffer, 0, chunk.end_pos as int, 0, vp)), col0(), self.num_rows as int, Kind::Var, nl) by {
                let d = col_add(c, part(buffer, 0, chunk.end_pos as int, 0, vp));
                lemma_holds_write(bs0, d, pend1, rows1 as int, Kind::Var, nl, bl.0, bl.1);
            }
            if enc_full(old(self).enc(), bs0) { lemma_full_push(bs0, min, Kind::Var, nl, bl.0, bl.1, pend1); }
        }
    }
//@ after clear 0
    proof { lemma_no_rows(&self.remaining); }
//@ loop 0
    invariant
        self.wf(), self.suits(buffer), sink.vx_sink_ok(), nl == buffer.nullable(),
        self.min_block_size == old(self).min_block_size, min == self.min_block_size,
        all == whole(buffer), bs0 == old(sink).vx_blocks(),
        self.pend() == col0(), self.remaining.n() == 0, self.remaining.bits().len() == 0, self.remaining.bytes().len() == 0,
        buffer.n() <= buffer.bits().len(),
        row_pos(buffer, buf_pos as int, vp), vp == if nl { validity_pos as int } else { buf_pos as int },
        self.num_rows + (buffer.bits().len() - vp) == old(self).rows() + buffer.bits().len(),
        old(self).rows() + buffer.bits().len() < u32::MAX,
        forall|c: Col| #[trigger] enc_has(old(self).enc(), bs0, c)
            ==> enc_has(self.enc(), sink.vx_blocks(), col_add(c, part(buffer, 0, buf_pos as int, 0, vp))),
        enc_full(old(self).enc(), bs0) ==> enc_full(self.enc(), sink.vx_blocks()),
        sink.vx_failed() == old(sink).vx_failed(), sink.vx_base() == old(sink).vx_base(),
        self.nullable() == old(self).nullable(),
    decreases buffer.n() - buf_pos
//@ before append_from 1
    let ghost rem1 = self.remaining;
    proof { lemma_part(buffer, buf_pos as int, chunk.end_pos as int, 0, 0); }
//@ after append_from 1
    proof {
        let e = chunk.end_pos as int;
        let s = buf_pos as int;
        let q = buffer.bits().len() as int;
        let pt = part(buffer, s, e, vp, q);
        if !nl { assert(buffer.bits().subrange(s, e) =~= all_true((e - s) as nat)); }
        lemma_appended(&rem1, buffer, &self.remaining, s, e, vp, q);
        lemma_part(buffer, s, e, vp, q);
        lemma_col_add(pt, pt, pt);
        assert forall|c: Col| #[trigger] enc_has(old(self).enc(), bs0, c) implies enc_has(self.enc(), sink.vx_blocks(), col_add(c, all)) by {
            lemma_holds_pend(sink.vx_blocks(), col_add(c, part(buffer, 0, s, 0, vp)), col0(), self.num_rows as int, Kind::Var, nl, pt);
            lemma_col_add(c, part(buffer, 0, s, 0, vp), pt);
        }
    }
//@ before write_block 0
    let ghost bs1 = sink.vx_blocks();
    let ghost rows1 = self.num_rows;
//@ after write_block 0
    proof {
        {
            let e = chunk.end_pos as int;
            let s = buf_pos as int;
            let q = if nl { result.last_validity_pos as int } else { e };
            let bl = sink.vx_blocks().last();
            let pt = part(buffer, s, e, vp, q);
            lemma_part(buffer, s, e, vp, q);
            lemma_col_add(pt, pt, pt);
            assert forall|c: Col| #[trigger] enc_has(old(self).enc(), bs0, c) implies
                enc_has(self.enc(), sink.vx_blocks(), col_add(c, part(buffer, 0, e, 0, q))) by {
                let c1 = col_add(c, part(buffer, 0, s, 0, vp));
                lemma_holds_pend(bs1, c1, col0(), rows1 as int, Kind::Var, nl, pt);
                lemma_holds_write(bs1, col_add(c1, pt), pt, rows1 as int, Kind::Var, nl, bl.0, bl.1);
                lemma_col_add(c, part(buffer, 0, s, 0, vp), pt);
            }
            if enc_full(old(self).enc(), bs0) { lemma_full_push(bs1, min, Kind::Var, nl, bl.0, bl.1, pt); }
            vp = q;
        }
    }
//@ fn BlockEncoder@Encoder::flush props=C02,C03,C04,C05
//@ entry
    let ghost bs0 = sink.vx_blocks();
    let ghost pend1 = self.pend();
    let ghost rows1 = self.num_rows;
    let ghost min = self.min_block_size as int;
    let ghost nl = self.nullable();
    proof { lemma_no_rows(&self.remaining); lemma_part(&self.remaining, 0, self.remaining.n() as int, 0, self.remaining.bits().len() as int); }
//@ after write_remaining 0
    proof {
        {
            let bl = sink.vx_blocks().last();
            assert forall|c: Col| #[trigger] enc_has(old(self).enc(), bs0, c) implies
                enc_holds(sink.vx_blocks(), c, col0(), self.num_rows as int, Kind::Var, nl) by {
                lemma_holds_write(bs0, c, pend1, rows1 as int, Kind::Var, nl, bl.0, bl.1);
            }
            if enc_full(old(self).enc(), bs0) { lemma_full_push(bs0, min, Kind::Var, nl, bl.0, bl.1, pend1); }
        }
    }
