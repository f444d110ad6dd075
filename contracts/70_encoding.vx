//@ file encoding/mod.rs
//@ block trait@BlockSink
    /// the blocks accepted so far, with their row ids.
    spec fn vx_blocks(&self) -> Blocks;
    /// what the sink held before the first block, the path of its file, and what
    /// the writer and the index it borrows will be when it gives them back.
    #[verifier::prophetic]
    spec fn vx_base(&self) -> (Seq<u8>, Seq<char>, crate::store::io::BlockWriter, crate::store::block_index::BlockIndex);
    /// a write failed.
    spec fn vx_failed(&self) -> bool;
    /// ready for another block.
    spec fn vx_sink_ok(&self) -> bool;
//@ fn trait@BlockSink::write_block props=C01,C02,C03,C05,C14
//@ sig
    requires old(self).vx_sink_ok(),
    ensures
        ret is Ok ==> final(self).vx_blocks() == old(self).vx_blocks().push((row_id, block_data@)), // [C14,C01,C02,C03]
        ret is Ok ==> final(self).vx_sink_ok() && final(self).vx_base() == old(self).vx_base(), // [C14]
        ret is Ok ==> final(self).vx_failed() == old(self).vx_failed(), // [C05]
//@ block trait@BlockEncoder
    spec fn vx_enc(&self) -> Enc;
    spec fn vx_wf(&self) -> bool;
    /// the column in a buffer
    spec fn vx_col(&self, b: &B) -> Col;
    /// the buffer suits the encoder
    spec fn vx_suits(&self, b: &B) -> bool;
//@ fn trait@BlockEncoder::encode props=C01,C02,C03,C04,C05,C14
//@ sig
    requires
        old(self).vx_wf(), old(self).vx_suits(buffer), old(sink).vx_sink_ok(),
        enc_rows(old(self).vx_enc()) + col_rows(old(self).vx_col(buffer)) < u32::MAX,
    ensures
        ret is Ok ==> final(self).vx_wf() && final(sink).vx_sink_ok(),
        ret is Ok ==> forall|c: Col| #[trigger] enc_has(old(self).vx_enc(), old(sink).vx_blocks(), c)
            ==> enc_has(final(self).vx_enc(), final(sink).vx_blocks(), col_add(c, old(self).vx_col(buffer))), // [C01,C02,C03]
        ret is Ok && old(self).vx_enc().ok ==> enc_rows(final(self).vx_enc()) == enc_rows(old(self).vx_enc()) + col_rows(old(self).vx_col(buffer)), // [C01,C02,C03]
        ret is Ok && enc_full(old(self).vx_enc(), old(sink).vx_blocks()) ==> enc_full(final(self).vx_enc(), final(sink).vx_blocks()), // [C04]
        ret is Ok ==> final(sink).vx_failed() == old(sink).vx_failed(), // [C05]
        ret is Ok ==> final(sink).vx_base() == old(sink).vx_base(), // [C14]
        ret is Ok ==> enc_cfg(final(self).vx_enc(), old(self).vx_enc()),
        forall|b: &B| #[trigger] final(self).vx_suits(b) == old(self).vx_suits(b),
        forall|b: &B| #[trigger] final(self).vx_col(b) == old(self).vx_col(b),
//@ fn trait@BlockEncoder::flush props=C01,C02,C03,C04,C05,C14
//@ sig
    requires old(self).vx_wf(), old(sink).vx_sink_ok(),
    ensures
        ret is Ok ==> final(sink).vx_sink_ok(),
        ret is Ok ==> forall|c: Col| #[trigger] enc_has(old(self).vx_enc(), old(sink).vx_blocks(), c)
            ==> enc_done(final(self).vx_enc(), final(sink).vx_blocks(), c), // [C01,C02,C03]
        ret is Ok && enc_full(old(self).vx_enc(), old(sink).vx_blocks()) ==> enc_sized(final(self).vx_enc(), final(sink).vx_blocks()), // [C04]
        ret is Ok ==> final(sink).vx_failed() == old(sink).vx_failed(), // [C05]
        ret is Ok ==> final(sink).vx_base() == old(sink).vx_base(), // [C14]
        ret is Ok ==> enc_cfg(final(self).vx_enc(), old(self).vx_enc()),
        ret matches Ok(l) ==> (old(self).vx_enc().ok ==> l is Plain), // [C16]
//@ prelude
    /// a new encoder of this kind
    pub open spec fn enc_new(kind: Kind, nullable: bool, min: int) -> Enc {
        Enc { ok: true, kind, nullable, min, pend: col0(), rows: 0 }
    }
//@ fn new_i32_encoder props=C17,C01
//@ sig
    requires 0 < block_size <= u32::MAX,
    ensures
        ret is Ok <==> encoder is Raw,
        ret matches Ok(e) ==> e.vx_wf() && e.vx_enc() == enc_new(Kind::Fixed(4), nullable, block_size as int),
        ret matches Ok(e) ==> forall|b: &Int32Buffer| #[trigger] e.vx_col(b) == raw::primitive_enc::whole(b),
        ret matches Ok(e) ==> forall|b: &Int32Buffer| #[trigger] e.vx_suits(b) == (raw::primitive_enc::buf_ok(b) && b.nullable() == nullable),
//@ entry
    proof { broadcast use vstd::layout::layout_of_primitives; assert(clone_is_eq::<i32>()); }
//@ fn new_i64_encoder props=C17,C01
//@ sig
    requires 0 < block_size <= u32::MAX,
    ensures
        ret is Ok <==> encoder is Raw,
        ret matches Ok(e) ==> e.vx_wf() && e.vx_enc() == enc_new(Kind::Fixed(8), nullable, block_size as int),
        ret matches Ok(e) ==> forall|b: &Int64Buffer| #[trigger] e.vx_col(b) == raw::primitive_enc::whole(b),
        ret matches Ok(e) ==> forall|b: &Int64Buffer| #[trigger] e.vx_suits(b) == (raw::primitive_enc::buf_ok(b) && b.nullable() == nullable),
//@ entry
    proof { broadcast use vstd::layout::layout_of_primitives; assert(clone_is_eq::<i64>()); }
//@ fn new_u64_encoder props=C17,C01
//@ sig
    requires 0 < block_size <= u32::MAX,
    ensures
        ret is Ok <==> encoder is Raw,
        ret matches Ok(e) ==> e.vx_wf() && e.vx_enc() == enc_new(Kind::Fixed(8), nullable, block_size as int),
        ret matches Ok(e) ==> forall|b: &Uint64Buffer| #[trigger] e.vx_col(b) == raw::primitive_enc::whole(b),
        ret matches Ok(e) ==> forall|b: &Uint64Buffer| #[trigger] e.vx_suits(b) == (raw::primitive_enc::buf_ok(b) && b.nullable() == nullable),
//@ entry
    proof { broadcast use vstd::layout::layout_of_primitives; assert(clone_is_eq::<u64>()); }
//@ fn new_f64_encoder props=C17,C01
//@ sig
    requires 0 < block_size <= u32::MAX,
    ensures
        ret is Ok <==> encoder is Raw,
        ret matches Ok(e) ==> e.vx_wf() && e.vx_enc() == enc_new(Kind::Fixed(8), nullable, block_size as int),
        ret matches Ok(e) ==> forall|b: &Float64Buffer| #[trigger] e.vx_col(b) == raw::primitive_enc::whole(b),
        ret matches Ok(e) ==> forall|b: &Float64Buffer| #[trigger] e.vx_suits(b) == (raw::primitive_enc::buf_ok(b) && b.nullable() == nullable),
//@ entry
    proof { broadcast use vstd::layout::layout_of_primitives; lemma_f64_size(); assert(clone_is_eq::<f64>()); }
//@ fn new_binary_encoder props=C17,C02
//@ sig
    requires 0 < block_size,
    ensures
        ret is Ok <==> (encoder is Raw || encoder is Snappy),
        ret matches Ok(e) ==> e.vx_wf() && (encoder is Raw ==> e.vx_enc() == enc_new(Kind::Var, nullable, block_size as int)),
        ret matches Ok(e) ==> (encoder is Raw ==> forall|b: &BinaryBuffer| #[trigger] e.vx_col(b) == raw::binary_enc::whole(b)),
        ret matches Ok(e) ==> (encoder is Raw ==> forall|b: &BinaryBuffer| #[trigger] e.vx_suits(b)
            == (raw::binary_enc::buf_ok(b) && b.nullable() == nullable && b.bytes().len() + block_size < u32::MAX)),
