//@ file indexing_buffer.rs
// ---------------------------------------------------------------- Bitmap
//@ block Bitmap
    pub open spec fn view(&self) -> Seq<bool> {
        Seq::new(self.len as nat, |i: int| bitat(self.values@[i / 8], i % 8))
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.values@.len() > 0
        &&& self.len <= self.values@.len() * 8
        &&& self.len <= MAX_BITS()
        &&& forall|i: int| self.len <= i < self.values@.len() * 8 ==> !bitat(#[trigger] self.values@[i / 8], i % 8)
    }
//@ fn Bitmap::new props=C10
//@ sig
    ensures ret.wf(), ret@ == Seq::<bool>::empty(),
//@ exit
    proof { broadcast use lemma_bit_zero; assert(vx_ret@ =~= Seq::<bool>::empty()); }
//@ fn Bitmap::with_capacity props=C10
//@ sig
    ensures ret.wf(), ret@ == Seq::<bool>::empty(),
//@ entry
    proof { assert((cap >> 3) <= 0x1fff_ffff_ffff_ffff) by (bit_vector); }
//@ exit
    proof { broadcast use lemma_bit_zero; assert(vx_ret@ =~= Seq::<bool>::empty()); }
//@ fn Bitmap::append props=C10
//@ sig
    requires old(self).wf(), old(self)@.len() < MAX_BITS(),
    ensures final(self).wf(), final(self)@ == old(self)@.push(set),
//@ entry
    proof { lemma_shr3(self.len); lemma_bit_masks(); broadcast use lemma_bit_zero, lemma_bit_or; assert(forall|b: u8| #[trigger] (b | 0u8) == b) by (bit_vector); }
//@ exit
    proof {
        broadcast use lemma_bit_zero, lemma_bit_or;
        assert(self@ =~= old(self)@.push(set));
    }
//@ fn Bitmap::append_from props=C10,C01,C02
//@ sig
    requires
        old(self).wf(), src.wf(), start_pos <= src@.len(),
        count(src@.subrange(start_pos as int, src@.len() as int)) >= num_of_items,
        old(self)@.len() + (src@.len() - start_pos) < MAX_BITS(),
    ensures
        final(self).wf(),
        start_pos <= ret <= src@.len(),
        final(self)@ == old(self)@ + src@.subrange(start_pos as int, ret as int),
        count(src@.subrange(start_pos as int, ret as int)) == num_of_items,
        num_of_items == 0 ==> ret == start_pos,
        num_of_items > 0 ==> ret > start_pos && src@[ret - 1],
//@ entry
    proof {
        assert(src@.subrange(start_pos as int, start_pos as int) =~= Seq::<bool>::empty());
        assert(self@ =~= old(self)@ + src@.subrange(start_pos as int, start_pos as int));
    }
//@ loop 0
    invariant
        self.wf(), src.wf(), start_pos <= bit_pos <= src@.len(), items <= num_of_items,
        old(self)@.len() + (src@.len() - start_pos) < MAX_BITS(),
        count(src@.subrange(start_pos as int, src@.len() as int)) >= num_of_items,
        self@ == old(self)@ + src@.subrange(start_pos as int, bit_pos as int),
        count(src@.subrange(start_pos as int, bit_pos as int)) == items,
        bit_pos == start_pos ==> items == 0,
        bit_pos > start_pos ==> num_of_items > 0 && (items == num_of_items ==> src@[bit_pos - 1]),
    decreases src@.len() - bit_pos
//@ loop 0 entry
    proof {
        lemma_count_step(src@, start_pos as int, bit_pos as int);
        assert(src@.subrange(start_pos as int, bit_pos as int).push(src@[bit_pos as int]).len() > 0);
    }
    let ghost before = self@;
//@ loop 0 exit
    proof {
        assert(self@ =~= old(self)@ + src@.subrange(start_pos as int, bit_pos as int));
    }
//@ fn Bitmap::append_rest props=C10,C01,C02
//@ sig
    requires
        old(self).wf(), src.wf(), start_pos <= src@.len(),
        old(self)@.len() + (src@.len() - start_pos) < MAX_BITS(),
    ensures
        final(self).wf(), ret == src@.len(),
        final(self)@ == old(self)@ + src@.subrange(start_pos as int, src@.len() as int),
//@ entry
    proof { assert(self@ =~= old(self)@ + src@.subrange(start_pos as int, start_pos as int)); }
//@ loop 0
    invariant
        self.wf(), src.wf(), start_pos <= bit_pos <= src@.len(),
        old(self)@.len() + (src@.len() - start_pos) < MAX_BITS(),
        self@ == old(self)@ + src@.subrange(start_pos as int, bit_pos as int),
    decreases src@.len() - bit_pos
//@ loop 0 exit
    proof { assert(self@ =~= old(self)@ + src@.subrange(start_pos as int, bit_pos as int)); }
//@ fn Bitmap::is_set props=C10
//@ sig
    requires self.wf(), idx < self@.len(),
    ensures ret == self@[idx as int],
//@ entry
    proof { lemma_shr3(idx); lemma_bit_masks(); }
//@ fn Bitmap::len props=C10
//@ sig
    ensures ret == self@.len(),
//@ fn Bitmap::clear props=C10
//@ sig
    ensures final(self).wf(), final(self)@ == Seq::<bool>::empty(),
//@ exit
    proof { broadcast use lemma_bit_zero; assert(self@ =~= Seq::<bool>::empty()); }

// -------------------------------------------------------- PrimitiveBuffer
//@ block PrimitiveBuffer
    /// the non-null values, in order.
    pub open spec fn vals(&self) -> Seq<T> { self.values@ }
    pub open spec fn nullable(&self) -> bool { self.validity is Some }
    /// one bit per row: does the row have a value?
    pub open spec fn bits(&self) -> Seq<bool> {
        match self.validity { Some(b) => b@, None => all_true(self.values@.len()) }
    }
    pub open spec fn wf(&self) -> bool {
        &&& clone_is_eq::<T>()
        &&& self.validity matches Some(b) ==> b.wf() && count(b@) == self.values@.len()
        &&& count(self.bits()) == self.values@.len()
    }
//@ fn PrimitiveBuffer::new props=C11
//@ sig
    requires clone_is_eq::<T>(),
    ensures ret.wf(), ret.vals() == Seq::<T>::empty(), ret.bits() == Seq::<bool>::empty(), ret.nullable() == nullable,
//@ exit
    proof { assert(all_true(0) =~= Seq::<bool>::empty()); assert(vx_ret.values@ =~= Seq::<T>::empty()); }
//@ fn PrimitiveBuffer::append props=C11
//@ sig
    requires old(self).wf(), old(self).bits().len() < MAX_BITS(),
    ensures
        final(self).wf(), final(self).nullable() == old(self).nullable(),
        final(self).vals() == old(self).vals().push(value),
        final(self).bits() == old(self).bits().push(true),
//@ exit
    proof {
        lemma_count_push(old(self).bits(), true);
        assert(all_true(old(self).values@.len()).push(true) =~= all_true(self.values@.len()));
    }
//@ fn PrimitiveBuffer::append_null props=C11
//@ sig
    requires old(self).wf(), old(self).nullable(), old(self).bits().len() < MAX_BITS(),
    ensures
        final(self).wf(), final(self).nullable(),
        final(self).vals() == old(self).vals(),
        final(self).bits() == old(self).bits().push(false),
//@ entry
    proof { lemma_count_push(self.bits(), false); }
//@ fn PrimitiveBuffer::append_from props=C11,C01
//@ sig
    requires
        old(self).wf(), buf.wf(), old(self).nullable() == buf.nullable(),
        start <= end <= buf.vals().len(),
        old(self).vals().len() + (end - start) < u32::MAX,
        old(self).bits().len() + buf.bits().len() < MAX_BITS(),
        buf.nullable() ==> validity_pos <= buf.bits().len() && count(buf.bits().subrange(0, validity_pos as int)) == start,
    ensures
        final(self).wf(), final(self).nullable() == old(self).nullable(),
        final(self).vals() == old(self).vals() + buf.vals().subrange(start as int, end as int),
        !buf.nullable() ==> final(self).bits() == old(self).bits() + all_true((end - start) as nat),
        buf.nullable() ==> validity_pos <= ret <= buf.bits().len()
            && final(self).bits() == old(self).bits() + buf.bits().subrange(validity_pos as int, ret as int)
            && count(buf.bits().subrange(0, ret as int)) == end,
        buf.nullable() && end == buf.vals().len() ==> ret == buf.bits().len(),
//@ entry
    proof {
        if buf.nullable() { lemma_took(self.bits(), buf.bits(), validity_pos as int, validity_pos as int); }
        lemma_took_all_true(self.vals().len(), (end - start) as nat);
        lemma_count_add(self.bits(), all_true((end - start) as nat));
    }
//@ after extend_from_slice
    proof {
        assert(self.values@ =~= old(self).values@ + buf.values@.subrange(start as int, end as int));
    }
//@ after append_from 0
    proof { lemma_took(old(self).bits(), buf.bits(), validity_pos as int, last_pos as int); }
//@ after append_rest 0
    proof {
        lemma_took_rest(old(self).bits(), buf.bits(), validity_pos as int, last_pos as int);
        lemma_took(old(self).bits(), buf.bits(), validity_pos as int, vx_tail as int);
    }
//@ fn PrimitiveBuffer::values props=C11
//@ sig
    ensures ret@ == self.vals(),
//@ fn PrimitiveBuffer::validity props=C11
//@ sig
    ensures
        (ret is Some) == self.nullable(),
        ret matches Some(b) ==> b@ == self.bits() && (self.wf() ==> b.wf()),
//@ fn PrimitiveBuffer::len props=C11
//@ sig
    ensures ret == self.vals().len(),
//@ fn PrimitiveBuffer::num_values props=C11
//@ sig
    ensures ret == self.bits().len(),
//@ fn PrimitiveBuffer::is_nullable props=C11
//@ sig
    ensures ret == self.nullable(),
//@ fn PrimitiveBuffer::has_nulls props=C11
//@ sig
    requires self.wf(),
    ensures ret == (exists|i: int| 0 <= i < self.bits().len() && !self.bits()[i]),
//@ entry
    proof { lemma_count_le(self.bits()); lemma_has_null(self.bits()); }
//@ fn PrimitiveBuffer::clear props=C11
//@ sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).nullable() == old(self).nullable(),
        final(self).vals() == Seq::<T>::empty(), final(self).bits() == Seq::<bool>::empty(),
//@ exit
    proof { assert(all_true(0) =~= Seq::<bool>::empty()); }

// ----------------------------------------------------------- BinaryBuffer
//@ prelude
    pub open spec fn sorted(o: Seq<u32>) -> bool {
        forall|i: int, j: int| 0 <= i <= j < o.len() ==> o[i] <= o[j]
    }
    pub open spec fn lens_of(o: Seq<u32>) -> Seq<u32> {
        Seq::new((o.len() - 1) as nat, |i: int| (o[i + 1] - o[i]) as u32)
    }
    /// The offsets [s, e] of `b` are appended to `a`, moved up to follow its last.
    pub proof fn lemma_offsets_appended(a: Seq<u32>, b: Seq<u32>, c: Seq<u32>, s: int, e: int)
        requires
            a.len() > 0, 0 <= s <= e < b.len(), c.len() == a.len() + (e - s), sorted(a), sorted(b),
            forall|k: int| 0 <= k < a.len() ==> c[k] == a[k],
            forall|k: int| 0 <= k <= e - s ==> #[trigger] c[a.len() - 1 + k] == a.last() + b[s + k] - b[s],
        ensures lens_of(c) == lens_of(a) + lens_of(b).subrange(s, e), sorted(c), c.last() == a.last() + b[e] - b[s],
    {
        let m = a.len() - 1;
        assert forall|i: int| m <= i < c.len() implies c[i] == a.last() + b[s + (i - m)] - b[s] by {
            assert(c[m + (i - m)] == a.last() + b[s + (i - m)] - b[s]);
        }
        assert(lens_of(c) =~= lens_of(a) + lens_of(b).subrange(s, e));
    }
//@ block BinaryBuffer
    pub open spec fn nullable(&self) -> bool { self.validity is Some }
    pub open spec fn n(&self) -> nat { (self.offsets@.len() - 1) as nat }
    /// the bytes of all the non-null values, concatenated.
    pub open spec fn bytes(&self) -> Seq<u8> { self.data@ }
    /// the length of each of the non-null values.
    pub open spec fn lens(&self) -> Seq<u32> { lens_of(self.offsets@) }
    pub open spec fn bits(&self) -> Seq<bool> {
        match self.validity { Some(b) => b@, None => all_true(self.n()) }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.offsets@.len() > 0
        &&& self.offsets@[0] == 0
        &&& self.offsets@.last() == self.data@.len()
        &&& sorted(self.offsets@)
        &&& self.validity matches Some(b) ==> b.wf() && count(b@) == self.n()
        &&& count(self.bits()) == self.n()
        &&& self.offsets@.len() <= MAX_BITS()
    }
//@ fn BinaryBuffer::new props=C12
//@ sig
    ensures ret.wf(), ret.bytes() == Seq::<u8>::empty(), ret.lens() == Seq::<u32>::empty(),
        ret.bits() == Seq::<bool>::empty(), ret.nullable() == nullable,
//@ exit
    proof {
        assert(all_true(0) =~= Seq::<bool>::empty());
        assert(vx_ret.lens() =~= Seq::<u32>::empty());
        assert(vx_ret.data@ =~= Seq::<u8>::empty());
    }
//@ fn BinaryBuffer::append props=C12
//@ sig
    requires old(self).wf(), old(self).bits().len() < MAX_BITS(), old(self).lens().len() + 1 < MAX_BITS(),
        old(self).bytes().len() + value@.len() <= u32::MAX,
    ensures
        final(self).wf(), final(self).nullable() == old(self).nullable(),
        final(self).bytes() == old(self).bytes() + value@,
        final(self).lens() == old(self).lens().push(value@.len() as u32),
        final(self).bits() == old(self).bits().push(true),
//@ after extend_from_slice
    proof { assert(self.data@ =~= old(self).data@ + value@); }
//@ exit
    proof {
        lemma_count_push(old(self).bits(), true);
        assert(all_true(old(self).n()).push(true) =~= all_true(self.n()));
        assert(self.lens() =~= old(self).lens().push(value@.len() as u32));
    }
//@ fn BinaryBuffer::append_null props=C12
//@ sig
    requires old(self).wf(), old(self).nullable(), old(self).bits().len() < MAX_BITS(),
    ensures
        final(self).wf(), final(self).nullable(),
        final(self).bytes() == old(self).bytes(),
        final(self).lens() == old(self).lens(),
        final(self).bits() == old(self).bits().push(false),
//@ entry
    proof { lemma_count_push(self.bits(), false); }
//@ fn BinaryBuffer::item_len props=C12,C02
//@ sig
    requires self.wf(), idx < self.lens().len(),
    ensures ret == self.lens()[idx as int],
//@ fn BinaryBuffer::append_from props=C12,C02
//@ sig
    requires
        old(self).wf(), buf.wf(), old(self).nullable() == buf.nullable(),
        start <= end <= buf.lens().len(),
        old(self).bytes().len() + buf.bytes().len() < u32::MAX,
        old(self).lens().len() + buf.lens().len() < MAX_BITS(),
        old(self).bits().len() + buf.bits().len() < MAX_BITS(),
        buf.nullable() ==> validity_pos <= buf.bits().len() && count(buf.bits().subrange(0, validity_pos as int)) == start,
    ensures
        final(self).wf(), final(self).nullable() == old(self).nullable(),
        final(self).bytes() == old(self).bytes() + buf.bytes().subrange(buf.offsets@[start as int] as int, buf.offsets@[end as int] as int),
        final(self).lens() == old(self).lens() + buf.lens().subrange(start as int, end as int),
        !buf.nullable() ==> final(self).bits() == old(self).bits() + all_true((end - start) as nat),
        buf.nullable() ==> validity_pos <= ret <= buf.bits().len()
            && final(self).bits() == old(self).bits() + buf.bits().subrange(validity_pos as int, ret as int)
            && count(buf.bits().subrange(0, ret as int)) == end,
        buf.nullable() && end == buf.lens().len() ==> ret == buf.bits().len(),
//@ entry
    proof {
        if buf.nullable() { lemma_took(self.bits(), buf.bits(), validity_pos as int, validity_pos as int); }
        lemma_took_all_true(self.n(), (end - start) as nat);
        lemma_count_add(self.bits(), all_true((end - start) as nat));
    }
//@ loop 0 before
    let ghost d0 = self.data@;
//@ loop 0 iter=it
    invariant
        old(self).wf(), buf.wf(), start <= end <= buf.lens().len(),
        old(self).bytes().len() + buf.bytes().len() < u32::MAX,
        self.data@ == d0, self.validity == old(self).validity,
        self.offsets@.len() == old(self).offsets@.len() + (i - start),
        start <= i <= end,
        last_item_offset == self.offsets@.last(),
        last_item_offset == old(self).data@.len() + buf.offsets@[i as int] - buf.offsets@[start as int],
        forall|k: int| 0 <= k < old(self).offsets@.len() ==> self.offsets@[k] == old(self).offsets@[k],
        forall|k: int| 0 <= k <= i - start ==> #[trigger] self.offsets@[old(self).offsets@.len() - 1 + k]
            == old(self).data@.len() + buf.offsets@[start + k] - buf.offsets@[start as int],
//@ loop 0 entry
    proof { assert(buf.offsets@[i + 1] <= buf.offsets@.last()); assert(buf.offsets@[start as int] <= buf.offsets@[i as int]); }
//@ after extend_from_slice
    proof {
        assert(self.data@ =~= old(self).data@ + buf.data@.subrange(buf.offsets@[start as int] as int, buf.offsets@[end as int] as int));
    }
//@ after append_from 0
    proof {
        lemma_took(old(self).bits(), buf.bits(), validity_pos as int, last_pos as int);
        lemma_offsets_appended(old(self).offsets@, buf.offsets@, self.offsets@, start as int, end as int);
    }
//@ after append_rest 0
    proof {
        lemma_took_rest(old(self).bits(), buf.bits(), validity_pos as int, last_pos as int);
        lemma_took(old(self).bits(), buf.bits(), validity_pos as int, vx_tail as int);
    }
//@ exit
    proof { lemma_offsets_appended(old(self).offsets@, buf.offsets@, self.offsets@, start as int, end as int); }
//@ fn BinaryBuffer::data props=C12
//@ sig
    ensures ret@ == self.bytes(),
//@ fn BinaryBuffer::offsets props=C12
//@ sig
    ensures ret@ == self.offsets@,
//@ fn BinaryBuffer::validity props=C12
//@ sig
    ensures
        (ret is Some) == self.nullable(),
        ret matches Some(b) ==> b@ == self.bits() && (self.wf() ==> b.wf()),
//@ fn BinaryBuffer::len props=C12
//@ sig
    requires self.wf(),
    ensures ret == self.lens().len(),
//@ fn BinaryBuffer::num_values props=C12
//@ sig
    requires self.wf(),
    ensures ret == self.bits().len(),
//@ fn BinaryBuffer::is_nullable props=C12
//@ sig
    ensures ret == self.nullable(),
//@ fn BinaryBuffer::has_nulls props=C12
//@ sig
    requires self.wf(),
    ensures ret == (exists|i: int| 0 <= i < self.bits().len() && !self.bits()[i]),
//@ entry
    proof { lemma_count_le(self.bits()); lemma_has_null(self.bits()); }
//@ fn BinaryBuffer::clear props=C12
//@ sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).nullable() == old(self).nullable(),
        final(self).bytes() == Seq::<u8>::empty(), final(self).lens() == Seq::<u32>::empty(), final(self).bits() == Seq::<bool>::empty(),
//@ exit
    proof {
        assert(all_true(0) =~= Seq::<bool>::empty());
        assert(self.lens() =~= Seq::<u32>::empty());
    }

// ------------------------------------------------------------- BoolBuffer
//@ block BoolBuffer
    pub open spec fn nullable(&self) -> bool { self.validity is Some }
    pub open spec fn vals(&self) -> Seq<bool> { self.values@ }
    pub open spec fn bits(&self) -> Seq<bool> {
        match self.validity { Some(b) => b@, None => all_true(self.len as nat) }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.values.wf()
        &&& self.validity matches Some(b) ==> b.wf()
        &&& self.bits().len() == self.len
        &&& count(self.bits()) == self.values@.len()
    }
//@ fn BoolBuffer::new props=C13
//@ sig
    ensures ret.wf(), ret.vals() == Seq::<bool>::empty(), ret.bits() == Seq::<bool>::empty(), ret.nullable() == nullable,
//@ exit
    proof { assert(all_true(0) =~= Seq::<bool>::empty()); }
//@ fn BoolBuffer::append props=C13
//@ sig
    requires old(self).wf(), old(self).bits().len() < MAX_BITS(),
    ensures
        final(self).wf(), final(self).nullable() == old(self).nullable(),
        final(self).vals() == old(self).vals().push(value),
        final(self).bits() == old(self).bits().push(true),
//@ entry
    proof { lemma_count_le(self.bits()); }
//@ exit
    proof {
        lemma_count_push(old(self).bits(), true);
        assert(all_true(old(self).len as nat).push(true) =~= all_true(self.len as nat));
    }
//@ fn BoolBuffer::append_null props=C13
//@ sig
    requires old(self).wf(), old(self).nullable(), old(self).bits().len() < MAX_BITS(),
    ensures
        final(self).wf(), final(self).nullable(),
        final(self).vals() == old(self).vals(),
        final(self).bits() == old(self).bits().push(false),
//@ entry
    proof { lemma_count_push(self.bits(), false); }
//@ fn BoolBuffer::values props=C13
//@ sig
    ensures ret@ == self.vals(), self.wf() ==> ret.wf(),
//@ fn BoolBuffer::validity props=C13
//@ sig
    requires self.nullable(),
    ensures ret@ == self.bits(), self.wf() ==> ret.wf(),
//@ fn BoolBuffer::len props=C13
//@ sig
    requires self.wf(),
    ensures ret == self.bits().len(),
//@ fn BoolBuffer::is_nullable props=C13
//@ sig
    ensures ret == self.nullable(),
//@ fn BoolBuffer::has_nulls props=C13
//@ sig
    requires self.wf(),
    ensures ret == (exists|i: int| 0 <= i < self.bits().len() && !self.bits()[i]),
//@ entry
    proof { lemma_count_le(self.bits()); lemma_has_null(self.bits()); }
//@ fn BoolBuffer::clear props=C13
//@ sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).nullable() == old(self).nullable(),
        final(self).vals() == Seq::<bool>::empty(), final(self).bits() == Seq::<bool>::empty(),
//@ exit
    proof { assert(all_true(0) =~= Seq::<bool>::empty()); }
