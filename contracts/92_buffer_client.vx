//@ file indexing_buffer.rs
//@ prelude
    // VX_CLIENT_BEGIN
    pub mod vx_client {
    use super::*;
    use vstd::prelude::*;
    /// the values of the rows that have one
    pub open spec fn some<T>(rows: Seq<Option<T>>) -> Seq<T>
        decreases rows.len()
    {
        if rows.len() == 0 { Seq::empty() }
        else { match rows.last() { Some(v) => some(rows.drop_last()).push(v), None => some(rows.drop_last()) } }
    }
    /// which rows have one
    pub open spec fn is_some<T>(rows: Seq<Option<T>>) -> Seq<bool> { Seq::new(rows.len(), |i: int| rows[i] is Some) }
    pub open spec fn flat(vs: Seq<Vec<u8>>) -> Seq<u8>
        decreases vs.len()
    {
        if vs.len() == 0 { Seq::empty() } else { flat(vs.drop_last()) + vs.last()@ }
    }
    pub open spec fn lens(vs: Seq<Vec<u8>>) -> Seq<u32> { Seq::new(vs.len(), |i: int| vs[i]@.len() as u32) }
    pub proof fn lemma_some_push<T>(rows: Seq<Option<T>>, r: Option<T>)
        ensures
            some(rows.push(r)) == match r { Some(v) => some(rows).push(v), None => some(rows) },
            is_some(rows.push(r)) == is_some(rows).push(r is Some),
    {
        assert(rows.push(r).drop_last() =~= rows);
        assert(is_some(rows.push(r)) =~= is_some(rows).push(r is Some));
    }
    proof fn lemma_step<T>(rows: Seq<Option<T>>, i: int)
        requires 0 <= i < rows.len()
        ensures
            some(rows.take(i + 1)) == match rows[i] { Some(v) => some(rows.take(i)).push(v), None => some(rows.take(i)) },
            is_some(rows.take(i + 1)) == is_some(rows.take(i)).push(rows[i] is Some),
    {
        assert(rows.take(i + 1) =~= rows.take(i).push(rows[i]));
        lemma_some_push(rows.take(i), rows[i]);
    }
    pub proof fn lemma_flat_push(vs: Seq<Vec<u8>>, v: Vec<u8>)
        ensures flat(vs.push(v)) == flat(vs) + v@, lens(vs.push(v)) == lens(vs).push(v@.len() as u32)
    {
        assert(vs.push(v).drop_last() =~= vs);
        assert(lens(vs.push(v)) =~= lens(vs).push(v@.len() as u32));
    }
    proof fn lemma_flat_grows(rows: Seq<Option<Vec<u8>>>, i: int)
        requires 0 <= i < rows.len()
        ensures
            flat(some(rows.take(i))).len() + (match rows[i] { Some(v) => v@.len(), None => 0 }) <= flat(some(rows)).len(),
            some(rows.take(i)).len() <= i,
        decreases rows.len() - i
    {
        lemma_step(rows, i);
        if rows[i] is Some { lemma_flat_push(some(rows.take(i)), rows[i]->Some_0); }
        if i + 1 < rows.len() { lemma_flat_grows(rows, i + 1); } else { assert(rows.take(i + 1) =~= rows); }
        lemma_some_len(rows.take(i));
    }
    pub proof fn lemma_some_len<T>(rows: Seq<Option<T>>)
        ensures some(rows).len() <= rows.len()
        decreases rows.len()
    {
        if rows.len() > 0 { lemma_some_len(rows.drop_last()); }
    }
    /// A buffer holds the rows that were appended to it, cleared or new.
    pub fn client_primitive<T: Clone + Copy>(b: &mut PrimitiveBuffer<T>, rows: &Vec<Option<T>>)
        requires
            old(b).wf(), rows@.len() < MAX_BITS(),
            old(b).nullable() || forall|i: int| 0 <= i < rows@.len() ==> (#[trigger] rows@[i]) is Some,
        ensures
            final(b).wf(), final(b).nullable() == old(b).nullable(),
            final(b).vals() == some(rows@), final(b).bits() == is_some(rows@),
    {
        b.clear();
        let mut i: usize = 0;
        proof { assert(rows@.take(0) =~= Seq::<Option<T>>::empty()); assert(is_some(rows@.take(0)) =~= Seq::<bool>::empty()); }
        while i < rows.len()
            invariant
                i <= rows@.len(), rows@.len() < MAX_BITS(), b.wf(), b.nullable() == old(b).nullable(),
                old(b).nullable() || forall|i: int| 0 <= i < rows@.len() ==> (#[trigger] rows@[i]) is Some,
                b.vals() == some(rows@.take(i as int)), b.bits() == is_some(rows@.take(i as int)),
            decreases rows@.len() - i
        {
            proof { lemma_step(rows@, i as int); }
            match rows[i] {
                Some(v) => b.append(v),
                None => b.append_null(),
            }
            i += 1;
        }
        proof { assert(rows@.take(i as int) =~= rows@); }
    }
    pub fn client_binary(b: &mut BinaryBuffer, rows: &Vec<Option<Vec<u8>>>)
        requires
            old(b).wf(), rows@.len() + 1 < MAX_BITS(), flat(some(rows@)).len() <= u32::MAX,
            old(b).nullable() || forall|i: int| 0 <= i < rows@.len() ==> (#[trigger] rows@[i]) is Some,
        ensures
            final(b).wf(), final(b).nullable() == old(b).nullable(),
            final(b).bytes() == flat(some(rows@)), final(b).lens() == lens(some(rows@)), final(b).bits() == is_some(rows@),
    {
        b.clear();
        let mut i: usize = 0;
        proof {
            assert(rows@.take(0) =~= Seq::<Option<Vec<u8>>>::empty());
            assert(is_some(rows@.take(0)) =~= Seq::<bool>::empty());
            assert(lens(some(rows@.take(0))) =~= Seq::<u32>::empty());
        }
        while i < rows.len()
            invariant
                i <= rows@.len(), rows@.len() + 1 < MAX_BITS(), flat(some(rows@)).len() <= u32::MAX, b.wf(), b.nullable() == old(b).nullable(),
                old(b).nullable() || forall|i: int| 0 <= i < rows@.len() ==> (#[trigger] rows@[i]) is Some,
                b.bytes() == flat(some(rows@.take(i as int))), b.lens() == lens(some(rows@.take(i as int))),
                b.bits() == is_some(rows@.take(i as int)),
            decreases rows@.len() - i
        {
            proof {
                lemma_step(rows@, i as int);
                lemma_flat_grows(rows@, i as int);
                if rows@[i as int] is Some { lemma_flat_push(some(rows@.take(i as int)), rows@[i as int]->Some_0); }
            }
            match &rows[i] {
                Some(v) => b.append(v.as_slice()),
                None => b.append_null(),
            }
            i += 1;
        }
        proof { assert(rows@.take(i as int) =~= rows@); }
    }
    pub fn client_bool(b: &mut BoolBuffer, rows: &Vec<Option<bool>>)
        requires
            old(b).wf(), rows@.len() < MAX_BITS(),
            old(b).nullable() || forall|i: int| 0 <= i < rows@.len() ==> (#[trigger] rows@[i]) is Some,
        ensures
            final(b).wf(), final(b).nullable() == old(b).nullable(),
            final(b).vals() == some(rows@), final(b).bits() == is_some(rows@),
    {
        b.clear();
        let mut i: usize = 0;
        proof { assert(rows@.take(0) =~= Seq::<Option<bool>>::empty()); assert(is_some(rows@.take(0)) =~= Seq::<bool>::empty()); }
        while i < rows.len()
            invariant
                i <= rows@.len(), rows@.len() < MAX_BITS(), b.wf(), b.nullable() == old(b).nullable(),
                old(b).nullable() || forall|i: int| 0 <= i < rows@.len() ==> (#[trigger] rows@[i]) is Some,
                b.vals() == some(rows@.take(i as int)), b.bits() == is_some(rows@.take(i as int)),
            decreases rows@.len() - i
        {
            proof { lemma_step(rows@, i as int); }
            match rows[i] {
                Some(v) => b.append(v),
                None => b.append_null(),
            }
            i += 1;
        }
        proof { assert(rows@.take(i as int) =~= rows@); }
    }
    } // vx_client
    // VX_CLIENT_END
