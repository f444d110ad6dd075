//@ file encoding/bitmap_rle.rs
//@ block Encoder
    /// the bytes already emitted, decoded.
    pub open spec fn emitted(&self) -> Seq<u8> { rle_dec(self.encoded_values@)->Some_0 }
    /// the whole bytes accepted and not emitted yet.
    pub open spec fn pending(&self) -> Seq<u8> {
        match self.state {
            State::Init => Seq::empty(),
            State::Literal => self.buffer@,
            State::StartOfRun => self.buffer@,
            State::Run => rep(self.last_value, self.repeat_count as nat),
        }
    }
    pub open spec fn all_bytes(&self) -> Seq<u8> { self.emitted() + self.pending() }
    /// the bits put since the last clear.
    pub open spec fn view(&self) -> Seq<bool> { bits_of(self.all_bytes()) + low_bits(self.byte, self.bit_pos as int) }
    pub open spec fn wf_state(&self) -> bool {
        &&& rle_dec(self.encoded_values@) is Some
        &&& self.all_bytes().len() * 8 + self.bit_pos <= MAX_BITS()
        &&& match self.state {
            State::Init => self.buffer@.len() == 0,
            State::Literal => self.buffer@.len() >= 1 && self.last_value == self.buffer@.last(),
            State::StartOfRun => self.buffer@.len() >= 2 && self.run_start_pos == self.buffer@.len() - 2
                && self.repeat_count == 2 && self.last_value == self.buffer@.last()
                && self.buffer@[self.buffer@.len() - 2] == self.last_value,
            State::Run => self.buffer@.len() == 0 && self.repeat_count >= 3,
        }
    }
    pub open spec fn wf_byte(&self) -> bool {
        &&& self.bit_pos < 8
        &&& forall|k: int| self.bit_pos <= k < 8 ==> !#[trigger] bitat(self.byte, k)
    }
    /// the size of what was emitted is bounded by its length and by its number of stretches.
    pub open spec fn compact(&self) -> bool {
        let d = self.emitted();
        let n = self.encoded_values@.len();
        let p = self.pending();
        &&& n <= 12 * stretches(d)
        &&& n <= d.len() + d.len() / 64 + (if self.state is Run { 1int } else { 0 })
        &&& p.len() > 0 && d.len() > 0 ==> d.last() != p[0]
        &&& self.state is Init ==> d.len() == 0
        &&& self.state is Literal ==> p.len() <= 2 * stretches(p) - 1
                && (p.len() >= 2 ==> p[p.len() - 2] != p[p.len() - 1])
        &&& self.state is StartOfRun ==> p.len() <= 2 * stretches(p)
                && (p.len() >= 3 ==> p[p.len() - 3] != p[p.len() - 2])
    }
    pub open spec fn wf(&self) -> bool { self.wf_state() && self.wf_byte() && self.compact() && nz(self.encoded_values@) }
    pub open spec fn same_but_encoded(&self, o: &Self) -> bool {
        &&& self.byte == o.byte && self.bit_pos == o.bit_pos && self.buffer@ == o.buffer@
        &&& self.repeat_count == o.repeat_count && self.last_value == o.last_value
        &&& self.run_start_pos == o.run_start_pos && self.state == o.state
    }
//@ fn Encoder::new props=C06,C07
//@ sig
    ensures ret.wf(), ret@ == Seq::<bool>::empty(),
//@ exit
    proof { broadcast use lemma_bit_zero; assert(vx_ret@ =~= Seq::<bool>::empty()); }
//@ fn Encoder::put props=C06,C07
//@ sig
    requires old(self).wf(), old(self)@.len() < MAX_BITS(),
    ensures final(self).wf(), final(self)@ == old(self)@.push(set),
//@ entry
    proof { broadcast use lemma_bit_zero, lemma_bit_or; lemma_bit_masks(); lemma_mask_table(self.bit_pos as int); }
//@ after append 0
    proof {
        assert(low_bits(self.byte, 8) =~= low_bits(old(self).byte, 7).push(set));
        lemma_bits_of_push(old(self).all_bytes(), self.byte);
    }
//@ exit
    proof {
        broadcast use lemma_bit_zero, lemma_bit_or;
        if old(self).bit_pos == 7 {
            assert(low_bits(0u8, 0) =~= Seq::<bool>::empty());
        }
        assert(self@ =~= old(self)@.push(set));
    }
//@ fn Encoder::put_from props=C06,C01,C02
//@ sig
    requires
        old(self).wf(), bitmap.wf(), start_pos <= bitmap@.len(),
        count(bitmap@.subrange(start_pos as int, bitmap@.len() as int)) >= num_valids,
        old(self)@.len() + (bitmap@.len() - start_pos) < MAX_BITS(),
    ensures
        final(self).wf(),
        start_pos <= ret <= bitmap@.len(),
        final(self)@ == old(self)@ + bitmap@.subrange(start_pos as int, ret as int),
        count(bitmap@.subrange(start_pos as int, ret as int)) == num_valids,
        num_valids == 0 ==> ret == start_pos,
//@ entry
    proof {
        assert(bitmap@.subrange(start_pos as int, start_pos as int) =~= Seq::<bool>::empty());
        assert(self@ =~= old(self)@ + bitmap@.subrange(start_pos as int, start_pos as int));
    }
//@ loop 0
    invariant
        self.wf(), bitmap.wf(), start_pos <= bit_pos <= bitmap@.len(), items <= num_valids,
        old(self)@.len() + (bitmap@.len() - start_pos) < MAX_BITS(),
        count(bitmap@.subrange(start_pos as int, bitmap@.len() as int)) >= num_valids,
        self@ == old(self)@ + bitmap@.subrange(start_pos as int, bit_pos as int),
        count(bitmap@.subrange(start_pos as int, bit_pos as int)) == items,
        bit_pos == start_pos ==> items == 0,
        num_valids == 0 ==> bit_pos == start_pos,
    decreases bitmap@.len() - bit_pos
//@ loop 0 entry
    proof {
        lemma_count_step(bitmap@, start_pos as int, bit_pos as int);
    }
//@ loop 0 exit
    proof { assert(self@ =~= old(self)@ + bitmap@.subrange(start_pos as int, bit_pos as int)); }
//@ fn Encoder::put_rest props=C06,C01,C02
//@ sig
    requires
        old(self).wf(), bitmap.wf(), start_pos <= bitmap@.len(),
        old(self)@.len() + (bitmap@.len() - start_pos) < MAX_BITS(),
    ensures
        final(self).wf(), ret == bitmap@.len(),
        final(self)@ == old(self)@ + bitmap@.subrange(start_pos as int, bitmap@.len() as int),
//@ entry
    proof { assert(self@ =~= old(self)@ + bitmap@.subrange(start_pos as int, start_pos as int)); }
//@ loop 0
    invariant
        self.wf(), bitmap.wf(), start_pos <= bit_pos <= bitmap@.len(),
        old(self)@.len() + (bitmap@.len() - start_pos) < MAX_BITS(),
        self@ == old(self)@ + bitmap@.subrange(start_pos as int, bit_pos as int),
    decreases bitmap@.len() - bit_pos
//@ loop 0 exit
    proof { assert(self@ =~= old(self)@ + bitmap@.subrange(start_pos as int, bit_pos as int)); }
//@ fn Encoder::flush props=C06,C07
//@ sig
    requires old(self).wf(), old(self)@.len() + 8 <= MAX_BITS(),
    ensures
        rle_is(final(self).encoded_values@, old(self)@),
        nz(final(self).encoded_values@), // [C02]
        ({
            let n = (old(self)@.len() + 7) / 8;
            &&& final(self).encoded_values@.len() <= n + n / 64 + 1
            &&& final(self).encoded_values@.len() <= 12 * stretches(rle_dec(final(self).encoded_values@)->Some_0)
        }),
//@ after append 0
    proof { lemma_bits_of_push(old(self).all_bytes(), old(self).byte); }
//@ before emit_bitmap_literal 0
    proof { lemma_rle_flush_literal(self.encoded_values@, self.buffer@); }
//@ before emit_bitmap_literal 1
    proof { lemma_rle_flush_literal(self.encoded_values@, self.buffer@); }
//@ before emit_run 0
    proof { lemma_rle_flush_run(self.encoded_values@, self.last_value, self.repeat_count as nat); }
//@ exit
    proof {
        let bytes = rle_dec(self.encoded_values@)->Some_0;
        let s = old(self)@;
        assert(bytes.len() == (s.len() + 7) / 8);
        lemma_packs_of_bits(bytes, s, old(self).byte, old(self).bit_pos as int, old(self).all_bytes());
    }
//@ fn Encoder::encoded_values props=C06,C07
//@ sig
    ensures ret@ == self.encoded_values@,
//@ fn Encoder::clear props=C06,C07
//@ sig
    ensures final(self).wf(), final(self)@ == Seq::<bool>::empty(),
//@ exit
    proof { broadcast use lemma_bit_zero; assert(self@ =~= Seq::<bool>::empty()); }
//@ fn Encoder::append props=C06,C07
//@ sig
    requires
        old(self).wf_state(), old(self).compact(), nz(old(self).encoded_values@), old(self).bit_pos <= 8,
        (old(self).all_bytes().len() + 1) * 8 + old(self).bit_pos <= MAX_BITS(),
    ensures
        final(self).wf_state(), final(self).compact(), nz(final(self).encoded_values@),
        final(self).all_bytes() == old(self).all_bytes().push(current_value),
        final(self).byte == old(self).byte, final(self).bit_pos == old(self).bit_pos,
//@ before emit_bitmap_literal 0
    let ghost e0 = self.encoded_values@;
    let ghost b0 = self.buffer@;
    proof { assert(b0.drop_last() =~= old(self).buffer@); lemma_rle_start_run(e0, b0, self.last_value); }
//@ before emit_run 0
    proof { lemma_rle_flush_run(self.encoded_values@, self.last_value, self.repeat_count as nat); }
//@ exit
    proof {
        let p0 = old(self).pending();
        lemma_stretches_push(p0, current_value);
        lemma_stretches_push(Seq::empty(), current_value);
        if self.pending().len() == 1 { assert(self.pending() =~= Seq::<u8>::empty().push(current_value)); }
        else if !(old(self).state is Run) && !(self.state is Run) { assert(self.pending() =~= p0.push(current_value)); }
        assert(self.all_bytes() =~= old(self).all_bytes().push(current_value));
    }
//@ fn Encoder::transition_to_literal props=C06,C07
//@ sig
    ensures
        final(self).state is Literal,
        final(self).encoded_values@ == old(self).encoded_values@, final(self).byte == old(self).byte,
        final(self).bit_pos == old(self).bit_pos, final(self).buffer@ == old(self).buffer@,
        final(self).last_value == old(self).last_value,
//@ fn Encoder::emit_bitmap_literal props=C06,C07
//@ sig
    requires
        bitmap_len <= old(self).buffer@.len(), bitmap_len <= MAX_BITS(),
        old(self).buffer@.len() > 0,
    ensures
        final(self).same_but_encoded(old(self)),
        final(self).encoded_values@ == old(self).encoded_values@
            + (venc((2 * bitmap_len + 1) as nat) + old(self).buffer@.subrange(0, bitmap_len as int)),
//@ entry
    proof {
        assert(((bitmap_len << 1) | 1) == 2 * bitmap_len + 1) by (bit_vector) requires bitmap_len <= 0x1000_0000_0000_0000;
        lemma_venc_len10((2 * bitmap_len + 1) as nat);
    }
//@ exit
    proof {
        assert(self.encoded_values@ =~= old(self).encoded_values@
            + (venc((2 * bitmap_len + 1) as nat) + old(self).buffer@.subrange(0, bitmap_len as int)));
    }
//@ fn Encoder::emit_run props=C06,C07
//@ sig
    requires run_len <= MAX_BITS(),
    ensures
        final(self).same_but_encoded(old(self)),
        final(self).encoded_values@ == old(self).encoded_values@ + venc((2 * run_len) as nat).push(run_value),
//@ entry
    proof {
        assert((run_len << 1) == 2 * run_len) by (bit_vector) requires run_len <= 0x1000_0000_0000_0000;
        lemma_venc_len10((2 * run_len) as nat);
    }
//@ exit
    proof { assert(self.encoded_values@ =~= old(self).encoded_values@ + venc((2 * run_len) as nat).push(run_value)); }
// ------------------------------------------------------------------ Decoder
//@ block Decoder
    pub open spec fn rest(&self) -> Seq<u8> {
        self.encoded_data@.subrange(self.encoded_data_pos as int, self.encoded_data@.len() as int)
    }
    /// the positions written so far
    pub open spec fn out(&self) -> Seq<u32> { self.decoded_data@.subrange(0, self.decoded_data_pos as int) }
    pub open spec fn wf(&self) -> bool {
        &&& self.encoded_data_pos <= self.encoded_data@.len()
        &&& self.decoded_data_pos <= self.decoded_data@.len()
    }
    /// there is room for the positions of the bits of `b`
    pub open spec fn room(&self, b: Seq<u8>) -> bool {
        &&& self.bitmap_pos + 8 * b.len() <= u32::MAX
        &&& self.decoded_data_pos + count(bits_of(b)) <= self.decoded_data@.len()
    }
    #[verifier::prophetic]
    pub open spec fn read(&self, o: &Self, b: Seq<u8>) -> bool {
        &&& self.wf()
        &&& self.encoded_data@ == o.encoded_data@ && self.encoded_data_pos == o.encoded_data_pos
        &&& self.out() == o.out() + pos_at(bits_of(b), o.bitmap_pos as int)
        &&& self.decoded_data_pos == o.decoded_data_pos + count(bits_of(b))
        &&& self.bitmap_pos == o.bitmap_pos + 8 * b.len()
        &&& self.decoded_data@.len() == o.decoded_data@.len()
        &&& final(self.decoded_data)@ == final(o.decoded_data)@
    }
//@ fn Decoder::new props=C06
//@ sig
    ensures
        ret.wf(), ret.encoded_data@ == encoded_data@, ret.encoded_data_pos == 0, ret.decoded_data_pos == 0, ret.bitmap_pos == 0,
        ret.decoded_data@ == old(decoded_data)@,
        final(decoded_data)@ == final(ret.decoded_data)@,
//@ fn Decoder::decode props=C06
//@ sig
    requires
        old(self).wf(), rle_dec(old(self).rest()) is Some, old(self).room(rle_dec(old(self).rest())->Some_0),
        old(self).decoded_data_pos == 0, old(self).bitmap_pos == 0,
    ensures
        final(self).wf(), ret == final(self).decoded_data_pos,
        final(self).out() == pos_at(bits_of(rle_dec(old(self).rest())->Some_0), 0),
        final(self).decoded_data@.len() == old(self).decoded_data@.len(),
        final(final(self).decoded_data)@ == final(old(self).decoded_data)@,
//@ entry
    let ghost all = rle_dec(self.rest())->Some_0;
    let ghost mut done: Seq<u8> = Seq::empty();
    proof {
        lemma_bits_of_empty();
        assert(done + all =~= all);
        assert(self.out() =~= Seq::<u32>::empty());
    }
//@ loop 0
    invariant
        self.wf(), rle_dec(self.rest()) is Some,
        self.room(rle_dec(self.rest())->Some_0),
        all == done + rle_dec(self.rest())->Some_0,
        self.bitmap_pos == 8 * done.len(),
        self.out() == pos_at(bits_of(done), 0),
        self.decoded_data@.len() == old(self).decoded_data@.len(),
        final(self.decoded_data)@ == final(old(self).decoded_data)@,
    decreases self.encoded_data@.len() - self.encoded_data_pos
//@ loop 0 entry
    let ghost out0 = self.out();
    let ghost r0 = rle_dec(self.rest())->Some_0;
    proof {
        assert forall|h: Seq<u8>, r1: Seq<u8>| #[trigger] (h + r1) == r0 implies
            count(bits_of(r0)) == count(bits_of(h)) + count(bits_of(r1)) && r0.len() == h.len() + r1.len() by {
            lemma_pos_bytes(h, r1, 0);
        }
    }
//@ loop 0 exit
    proof {
        let r1 = rle_dec(self.rest())->Some_0;
        let h = r0.subrange(0, r0.len() - r1.len());
        assert(r0 =~= h + r1);
        lemma_pos_bytes(done, h, 0);
        assert(done + (h + r1) =~= (done + h) + r1);
        assert(self.out() == out0 + pos_at(bits_of(h), 8 * done.len() as int)) by {
            assert forall|x: Seq<u8>| #[trigger] (x + r1) == r0 implies x == h by {
                assert(x =~= (x + r1).subrange(0, x.len() as int));
            }
        }
        done = done + h;
    }
//@ fn Decoder::read_frame props=C06
//@ sig
    requires
        old(self).wf(), old(self).rest().len() > 0, rle_dec(old(self).rest()) is Some,
        8 * rle_dec(old(self).rest())->Some_0.len() <= u32::MAX,
    ensures
        final(self).wf(), rle_dec(final(self).rest()) is Some,
        rle_dec(old(self).rest())->Some_0 == frame_bytes(ret) + rle_dec(final(self).rest())->Some_0,
        final(self).encoded_data@ == old(self).encoded_data@, final(self).encoded_data_pos > old(self).encoded_data_pos,
        final(self).decoded_data@ == old(self).decoded_data@,
        final(final(self).decoded_data)@ == final(old(self).decoded_data)@,
        final(self).decoded_data_pos == old(self).decoded_data_pos,
        final(self).bitmap_pos == old(self).bitmap_pos,
//@ entry
    let ghost r0 = self.rest();
    proof {
        lemma_rle_frame(r0);
        assert(self.encoded_data.len() == self.encoded_data@.len());
        broadcast use lemma_no_top;
        assert forall|h: u64| #[trigger] (h & 1) == h % 2 by { assert(h & 1 == h % 2) by (bit_vector); }
        assert forall|h: u64| #[trigger] (h >> 1) == h / 2 by { assert(h >> 1 == h / 2) by (bit_vector); }
        assert forall|a: int| 0 <= a <= r0.len() implies #[trigger] r0.subrange(a, r0.len() as int)
            == self.encoded_data@.subrange(self.encoded_data_pos + a, self.encoded_data@.len() as int) by {
            assert(r0.subrange(a, r0.len() as int) =~= self.encoded_data@.subrange(self.encoded_data_pos + a, self.encoded_data@.len() as int));
        }
        assert forall|a: int, b: int| 0 <= a <= b <= r0.len() implies #[trigger] r0.subrange(a, b)
            == self.encoded_data@.subrange(self.encoded_data_pos + a, self.encoded_data_pos + b) by {
            assert(r0.subrange(a, b) =~= self.encoded_data@.subrange(self.encoded_data_pos + a, self.encoded_data_pos + b));
        }
    }
//@ fn Decoder::decode_run props=C06
//@ sig
    requires old(self).wf(), old(self).room(rep(value, len as nat)),
    ensures final(self).read(old(self), rep(value, len as nat)),
//@ entry
    let ghost s0 = old(self);
    proof {
        lemma_bits_of_empty();
        lemma_no_bits(len as nat, self.bitmap_pos as int);
        lemma_all_bits(len as nat, self.bitmap_pos as int);
        assert(len << 3 == 8 * len) by (bit_vector) requires 8 * (len as int) <= 0xffff_ffff;
        assert(pos_at(bits_of(rep(value, 0)), self.bitmap_pos as int) =~= Seq::<u32>::empty()) by {
            assert(rep(value, 0) =~= Seq::<u8>::empty());
        }
        assert(all_true(0) =~= Seq::<bool>::empty());
    }
//@ loop 0 iter=it
    invariant
        old(self).wf(), old(self).room(rep(value, len as nat)),
        bitmap_len == 8 * len, it.index() <= bitmap_len,
        count(bits_of(rep(value, len as nat))) == 8 * len,
        self.wf(), self.encoded_data@ == old(self).encoded_data@, self.encoded_data_pos == old(self).encoded_data_pos,
        self.decoded_data@.len() == old(self).decoded_data@.len(),
        final(self.decoded_data)@ == final(old(self).decoded_data)@,
        self.bitmap_pos == old(self).bitmap_pos + it.index(),
        self.decoded_data_pos == old(self).decoded_data_pos + it.index(),
        self.out() == old(self).out() + pos_at(all_true(it.index() as nat), old(self).bitmap_pos as int),
//@ loop 0 entry
    let ghost n = self.bitmap_pos - old(self).bitmap_pos;
    let ghost out0 = self.out();
//@ loop 0 exit
    proof {
        assert(all_true(n as nat).push(true) =~= all_true((n + 1) as nat));
        lemma_pos_push(all_true(n as nat), true, old(self).bitmap_pos as int);
        assert(self.out() =~= out0.push((old(self).bitmap_pos + n) as u32));
        assert(self.out() =~= old(self).out() + pos_at(all_true((n + 1) as nat), old(self).bitmap_pos as int));
    }
//@ loop 1 iter=it
    invariant
        old(self).wf(), old(self).room(rep(value, len as nat)),
        self.read(old(self), rep(value, it.index() as nat)), it.index() <= len,
//@ loop 1 entry
    let ghost n = (self.bitmap_pos - old(self).bitmap_pos) / 8;
    let ghost s1 = self.out();
    proof {
        lemma_split_bytes(rep(value, n as nat), seq![value], rep(value, (len - n - 1) as nat), rep(value, len as nat), old(self).bitmap_pos as int);
        assert(rep(value, n as nat) + seq![value] =~= rep(value, (n + 1) as nat));
        assert(rep(value, n as nat) + seq![value] + rep(value, (len - n - 1) as nat) =~= rep(value, len as nat));
    }
//@ loop 1 exit
    proof {
        assert(self.out() =~= old(self).out() + pos_at(bits_of(rep(value, (n + 1) as nat)), old(self).bitmap_pos as int));
    }
//@ exit
    proof {
        if value == 0 { assert(self.out() =~= old(self).out() + pos_at(bits_of(rep(value, len as nat)), old(self).bitmap_pos as int)); }
    }
//@ fn Decoder::decode_bitmap props=C06
//@ sig
    requires old(self).wf(), old(self).room(bitmap@),
    ensures final(self).read(old(self), bitmap@),
//@ entry
    proof {
        lemma_bits_of_empty();
        assert(bitmap@.subrange(0, 0) =~= Seq::<u8>::empty());
        assert(bitmap@.subrange(0, bitmap@.len() as int) =~= bitmap@);
    }
//@ loop 0 iter=it
    invariant
        old(self).wf(), old(self).room(bitmap@),
        it.seq().len() == bitmap@.len(), forall|i: int| 0 <= i < bitmap@.len() ==> *it.seq()[i] == bitmap@[i],
        self.read(old(self), bitmap@.subrange(0, it.index() as int)),
//@ loop 0 entry
    let ghost n = (self.bitmap_pos - old(self).bitmap_pos) / 8;
    let ghost s1 = self.out();
    proof {
        let b = bitmap@;
        lemma_split_bytes(b.subrange(0, n), seq![b[n]], b.subrange(n + 1, b.len() as int), b, old(self).bitmap_pos as int);
        assert(b.subrange(0, n) + seq![b[n]] =~= b.subrange(0, n + 1));
        assert(b.subrange(0, n) + seq![b[n]] + b.subrange(n + 1, b.len() as int) =~= b);
    }
//@ loop 0 exit
    proof {
        assert(self.out() =~= old(self).out() + pos_at(bits_of(bitmap@.subrange(0, n + 1)), old(self).bitmap_pos as int));
    }
//@ exit
    proof { assert(bitmap@.subrange(0, bitmap@.len() as int) =~= bitmap@); }
//@ fn Decoder::decode_byte props=C06
//@ sig
    requires old(self).wf(), old(self).room(seq![byte]),
    ensures final(self).read(old(self), seq![byte]),
//@ entry
    proof {
        lemma_bits_of_empty();
        lemma_bits_of_one(byte);
        assert forall|i: int| 0 <= i < 8 implies ([1u8, 2u8, 4u8, 8u8, 16u8, 32u8, 64u8, 128u8])@[i] == 1u8 << (i as u8) by { lemma_mask_table(i); }
        assert(low_bits(byte, 0) =~= Seq::<bool>::empty());
        assert(self.out() =~= old(self).out() + pos_at(low_bits(byte, 0), old(self).bitmap_pos as int));
    }
//@ loop 0 iter=it
    invariant
        old(self).wf(), old(self).room(seq![byte]), bits_of(seq![byte]) == low_bits(byte, 8),
        it.seq().len() == 8, forall|i: int| 0 <= i < 8 ==> it.seq()[i] == 1u8 << (i as u8),
        self.wf(), self.encoded_data@ == old(self).encoded_data@, self.encoded_data_pos == old(self).encoded_data_pos,
        self.decoded_data@.len() == old(self).decoded_data@.len(),
        final(self.decoded_data)@ == final(old(self).decoded_data)@,
        self.bitmap_pos == old(self).bitmap_pos + it.index(),
        self.decoded_data_pos == old(self).decoded_data_pos + count(low_bits(byte, it.index() as int)),
        self.out() == old(self).out() + pos_at(low_bits(byte, it.index() as int), old(self).bitmap_pos as int),
//@ loop 0 entry
    let ghost n = self.bitmap_pos - old(self).bitmap_pos;
    let ghost out0 = self.out();
    proof {
        let l = low_bits(byte, n);
        assert(l.push(bitat(byte, n)) =~= low_bits(byte, n + 1));
        lemma_pos_push(l, bitat(byte, n), old(self).bitmap_pos as int);
        lemma_count_push(l, bitat(byte, n));
        lemma_count_sub(low_bits(byte, 8), 0, n + 1, 8);
        assert(low_bits(byte, 8).subrange(0, n + 1) =~= low_bits(byte, n + 1));
        assert(low_bits(byte, 8).subrange(0, 8) =~= low_bits(byte, 8));
    }
//@ loop 0 exit
    proof {
        if bitat(byte, n) { assert(self.out() =~= out0.push((old(self).bitmap_pos + n) as u32)); }
        else { assert(self.out() =~= out0); }
        assert(self.out() =~= old(self).out() + pos_at(low_bits(byte, n + 1), old(self).bitmap_pos as int));
    }
//@ prelude
    pub open spec fn frame_bytes(f: Frame) -> Seq<u8> {
        match f {
            Frame::Run { len, value } => rep(value, len as nat),
            Frame::Bitmap { bytes } => bytes@,
        }
    }
//@ fn decode props=C06
//@ sig
    requires
        rle_dec(encoded_data@) is Some,
        8 * rle_dec(encoded_data@)->Some_0.len() <= u32::MAX,
        count(bits_of(rle_dec(encoded_data@)->Some_0)) <= old(decoded_data)@.len(),
    ensures ({
        let p = pos_at(bits_of(rle_dec(encoded_data@)->Some_0), 0);
        final(decoded_data)@.len() == old(decoded_data)@.len() && final(decoded_data)@.subrange(0, p.len() as int) == p
    }),
//@ entry
    proof { assert(encoded_data@.subrange(0, encoded_data@.len() as int) =~= encoded_data@); lemma_pos_len(bits_of(rle_dec(encoded_data@)->Some_0), 0); }
