//@ file block_sink.rs
//@ prelude
    /// The blocks of a data file, given the block index and where the first one starts.
    pub open spec fn blocks_at(data: Seq<u8>, ix: Seq<(u32, u64)>, start: int) -> Blocks {
        Seq::new(ix.len(), |i: int| (ix[i].0, data.subrange(if i == 0 { start } else { ix[i - 1].1 as int }, ix[i].1 as int)))
    }
    /// The index entries are the end offsets of consecutive blocks, up to the end of the file.
    pub open spec fn index_ok(data: Seq<u8>, ix: Seq<(u32, u64)>, start: int) -> bool {
        &&& 0 <= start <= data.len()
        &&& forall|i: int| 0 <= i < ix.len() ==> start <= (#[trigger] ix[i]).1 <= data.len()
        &&& forall|i: int, j: int| 0 <= i <= j < ix.len() ==> (#[trigger] ix[i]).1 <= (#[trigger] ix[j]).1
        &&& data.len() == if ix.len() == 0 { start } else { ix.last().1 as int }
    }
    pub proof fn lemma_block_added(data: Seq<u8>, ix: Seq<(u32, u64)>, start: int, b: Seq<u8>, id: u32, pos: u64)
        requires index_ok(data, ix, start), pos == data.len() + b.len()
        ensures
            index_ok(data + b, ix.push((id, pos)), start),
            blocks_at(data + b, ix.push((id, pos)), start) == blocks_at(data, ix, start).push((id, b)),
            (data + b).subrange(0, start) == data.subrange(0, start),
    {
        let n = ix.push((id, pos));
        let x = blocks_at(data + b, n, start);
        let y = blocks_at(data, ix, start).push((id, b));
        assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by {
            let a = if i == 0 { start } else { n[i - 1].1 as int };
            if i < ix.len() {
                assert(n[i] == ix[i]);
                if i > 0 { assert(n[i - 1] == ix[i - 1]); }
                assert((data + b).subrange(a, ix[i].1 as int) =~= data.subrange(a, ix[i].1 as int));
            } else {
                if i > 0 { assert(n[i - 1] == ix[i - 1]); }
                assert((data + b).subrange(a, pos as int) =~= b);
            }
        }
        assert(x =~= y);
        assert((data + b).subrange(0, start) =~= data.subrange(0, start));
    }
//@ struct-fields BlockSinkImpl
    pub vx_start: Ghost<int>,
//@ block BlockSinkImpl
    pub open spec fn wf(&self) -> bool {
        &&& self.data_writer.wf()
        &&& self.block_index.wf()
        &&& index_ok(self.data_writer@, self.block_index@, self.vx_start@)
    }
//@ fn BlockSinkImpl::new props=C14
//@ lit
    vx_start: Ghost(block_writer@.len() as int),
//@ sig
    ensures
        *ret.data_writer == *old(block_writer), *ret.block_index == *old(block_index), ret.vx_start@ == old(block_writer)@.len(),
        *final(block_writer) == *final(ret.data_writer), *final(block_index) == *final(ret.block_index),
//@ fn BlockSinkImpl::block_index props=C14
//@ sig
    ensures
        *ret == *old(self).block_index, *final(self).block_index == *final(ret),
        *final(self).data_writer == *old(self).data_writer, final(self).vx_start == old(self).vx_start,
        *final(final(self).data_writer) == *final(old(self).data_writer), *final(final(self).block_index) == *final(old(self).block_index),
//@ block BlockSink@BlockSinkImpl
    open spec fn vx_blocks(&self) -> Blocks { blocks_at(self.data_writer@, self.block_index@, self.vx_start@) }
    #[verifier::prophetic]
    open spec fn vx_base(&self) -> (Seq<u8>, Seq<char>, BlockWriter, BlockIndex) {
        (self.data_writer@.subrange(0, self.vx_start@), self.data_writer.file.path(), *final(self.data_writer), *final(self.block_index))
    }
    open spec fn vx_failed(&self) -> bool { self.data_writer.failed() }
    open spec fn vx_sink_ok(&self) -> bool { self.wf() }
//@ fn BlockSink@BlockSinkImpl::write_block props=C14,C05
//@ exit
    proof {
        lemma_block_added(old(self).data_writer@, old(self).block_index@, self.vx_start@, block_data@, row_id, self.data_writer.pos);
    }
//@ file segment_writer.rs
//@ prelude
    use crate::store::encoding::BlockSink as _;
    use crate::vxdeps::tokio::fs::durable;
    use crate::vxdeps::vxstd::path::path_join;
    use crate::vxdeps::base64::b64;
    /// the bytes of MEERKAT_DATA1
    pub open spec fn data_sig() -> Seq<u8> { seq![77u8, 69, 69, 82, 75, 65, 84, 95, 68, 65, 84, 65, 49] }
    /// the bytes of MEERKAT_IDX1
    pub open spec fn index_sig() -> Seq<u8> { seq![77u8, 69, 69, 82, 75, 65, 84, 95, 73, 68, 88, 49] }
    /// the segment's id in URL-safe base64, with an extension
    pub open spec fn file_name(id: Seq<u8>, ext: Seq<char>) -> Seq<char> {
        b64(id, crate::vxdeps::base64::Config::URL_SAFE_NO_PAD) + seq!['.'] + ext
    }
    /// what format!("{}.{}") makes of two strings
    pub proof fn lemma_fmt_dot()
        ensures forall|s: Seq<Seq<char>>| s.len() == 2 ==> #[trigger] fmt("{}.{}"@, s) == s[0] + seq!['.'] + s[1]
    {
        reveal_strlit("{}.{}");
        let t = "{}.{}"@;
        assert(t =~= seq!['{', '}', '.', '{', '}']);
        assert forall|s: Seq<Seq<char>>| s.len() == 2 implies #[trigger] fmt(t, s) == s[0] + seq!['.'] + s[1] by {
            let u = t.skip(2).skip(1);
            assert(t.skip(2) =~= seq!['.', '{', '}']);
            assert(u =~= seq!['{', '}']);
            assert(u.skip(2) =~= seq![]);
            reveal_with_fuel(fmt, 4);
            assert(fmt(u, s.skip(1)) =~= s[1]);
            assert(fmt(t.skip(2), s.skip(1)) =~= seq!['.'] + s[1]);
            assert(fmt(t, s) =~= s[0] + seq!['.'] + s[1]);
        }
    }
    pub open spec fn meta_is(m: Metadata, i: SegmentInfo) -> bool {
        &&& m.columns_layout@ == Map::<Seq<char>, segment_metadata::ColumnLayout>::empty()
        &&& m.segment_meta matches Some(s) && {
            &&& s.segment_id@ == i.segment_id@
            &&& s.table_name@ == i.table_name@
            &&& s.database_name@ == i.database_name@
            &&& s.shard_id == i.shard_id
            &&& s.num_rows == i.num_rows
            &&& s.columns_meta@ == Map::<Seq<char>, segment_metadata::ColumnMeta>::empty()
        }
    }
    /// m describes the column
    pub open spec fn column_meta_is(m: segment_metadata::ColumnMeta, i: ColumnInfo) -> bool {
        &&& m.name@ == i.name@
        &&& m.column_type == segment_metadata::pb_num(i.column_type)
        &&& m.nullable == i.nullable
        &&& m.encoding == segment_metadata::pb_num(i.encoding)
        &&& m.index_type == segment_metadata::pb_num(i.index_type)
    }
    /// a and b differ at most in the columns' entries for this name, and b has them
    pub open spec fn meta_column_added(a: Metadata, b: Metadata, i: ColumnInfo) -> bool {
        &&& a.segment_meta is Some && b.segment_meta is Some
        &&& b.segment_meta->Some_0 == segment_metadata::SegmentMeta { columns_meta: b.segment_meta->Some_0.columns_meta, ..a.segment_meta->Some_0 }
        &&& exists|m: segment_metadata::ColumnMeta| #[trigger] column_meta_is(m, i)
            && b.segment_meta->Some_0.columns_meta@ == a.segment_meta->Some_0.columns_meta@.insert(i.name@, m)
        &&& exists|l: segment_metadata::ColumnLayout| #[trigger] layout_full(l)
            && b.columns_layout@ == a.columns_layout@.insert(i.name@, l)
    }
    pub open spec fn layout_full(l: segment_metadata::ColumnLayout) -> bool {
        l.block_index_layout is Some && l.encoder_layout is Some
    }
//@ struct-attr ColumnWriter
#[verifier::reject_recursive_types(B)]
//@ block SegmentWriter
    pub open spec fn wf(&self) -> bool {
        &&& self.data_writer.wf()
        &&& self.index_writer.wf()
        &&& self.block_index.wf()
        &&& self.segment_meta.segment_meta is Some
    }
    pub open spec fn flushed(&self) -> bool { self.data_writer.file.flushed() && self.index_writer.file.flushed() }
    pub open spec fn failed(&self) -> bool { self.data_writer.failed() || self.index_writer.failed() }
    pub open spec fn paths(&self) -> (Seq<char>, Seq<char>) { (self.data_writer.file.path(), self.index_writer.file.path()) }
//@ fn SegmentWriter::new props=C16,C05
//@ entry
    proof {
        VX_REVEAL_STRLITS;
        broadcast use crate::vxdeps::vxstd::path::axiom_path_of;
        lemma_fmt_dot();
        reveal_strlit("dat");
        reveal_strlit("idx");
        assert("dat"@ =~= seq!['d', 'a', 't']);
        assert("idx"@ =~= seq!['i', 'd', 'x']);
    }
//@ exit
    proof {
        assert(vx_ret is Ok ==> vx_ret->Ok_0.data_writer@ =~= data_sig());
        assert(vx_ret is Ok ==> vx_ret->Ok_0.index_writer@ =~= index_sig());
        let m = vx_ret->Ok_0.segment_meta.segment_meta->Some_0;
        assert(vx_ret is Ok ==> m.segment_id@ =~= segment_info.segment_id@);
    }
//@ sig
    ensures
        ret matches Ok(w) ==> w.wf(),
        ret matches Ok(w) ==> w.data_writer@ == data_sig() && w.index_writer@ == index_sig(), // [C16]
        ret matches Ok(w) ==> !w.failed(), // [C05]
        ret matches Ok(w) ==> w.paths() == (
            path_join(path.vx_ref()@, file_name(segment_info.segment_id@, seq!['d', 'a', 't'])),
            path_join(path.vx_ref()@, file_name(segment_info.segment_id@, seq!['i', 'd', 'x']))), // [C16]
        ret matches Ok(w) ==> meta_is(w.segment_meta, segment_info), // [C16]
//@ fn SegmentWriter::write_headers props=C16,C05
//@ sig
    requires old(self).wf(),
    ensures
        ret is Ok ==> final(self).wf(),
        ret is Ok ==> final(self).data_writer@ == old(self).data_writer@ + data_sig(), // [C16]
        ret is Ok ==> final(self).index_writer@ == old(self).index_writer@ + index_sig(), // [C16]
        ret is Ok ==> final(self).failed() == old(self).failed(), // [C05]
        ret is Ok ==> final(self).segment_meta == old(self).segment_meta && final(self).block_index == old(self).block_index,
        final(self).paths() == old(self).paths(),
//@ fn SegmentWriter::new_binary_column_writer props=C17,C16,C14,C02,C04
//@ entry
    assert(1u32 << 17 == 131072) by (bit_vector);
//@ sig
    requires old(self).wf(),
    ensures
        ret is Ok <==> (column_info.encoding is Raw || column_info.encoding is Snappy), // [C17]
        ret matches Ok(w) ==> w.wf() && w.column_info == column_info && w.column_index is None,
        ret matches Ok(w) ==> w.cols() == Seq::<(u32, Seq<u8>)>::empty() && w.block_sink.vx_base()
            == (old(self).data_writer@, old(self).paths().0, final(self).data_writer, final(self).block_index), // [C14,C16]
        ret matches Ok(w) ==> w.failed() == old(self).failed(), // [C05]
        ret matches Ok(w) ==> *w.metadata == old(self).segment_meta && *final(w.metadata) == final(self).segment_meta, // [C16]
        ret matches Ok(w) ==> *w.index_writer == old(self).index_writer && *final(w.index_writer) == final(self).index_writer, // [C16]
        ret matches Ok(w) ==> *w.block_sink.data_writer == old(self).data_writer, // [C16]
        ret matches Ok(w) ==> (column_info.encoding is Raw ==> w.encoder.vx_enc() == encoding::enc_new(Kind::Var, column_info.nullable, 131072)), // [C04,C17]
        ret matches Ok(w) ==> (column_info.encoding is Raw ==> forall|b: &BinaryBuffer| #[trigger] w.encoder.vx_col(b) == encoding::raw::binary_enc::whole(b)), // [C02,C17]
        ret matches Ok(w) ==> (column_info.encoding is Raw ==> forall|b: &BinaryBuffer| #[trigger] w.encoder.vx_suits(b)
            == (encoding::raw::binary_enc::buf_ok(b) && b.nullable() == column_info.nullable && b.bytes().len() + 131072 < u32::MAX)), // [C02,C17]
//@ fn SegmentWriter::close props=C16,C05
//@ sig
    requires old(self).wf(),
    ensures
        ret is Ok ==> final(self).wf() && final(self).flushed(), // [C16]
        ret is Ok ==> final(self).data_writer@ == old(self).data_writer@, // [C16]
        ret is Ok ==> final(self).index_writer@ == old(self).index_writer@ + crate::vxdeps::prost::pb(old(self).segment_meta)
            + le8(old(self).index_writer@.len() as int, 8), // [C16]
        ret is Ok ==> final(self).failed() == old(self).failed(), // [C05]
        final(self).paths() == old(self).paths(),
//@ fn SegmentWriter::sync props=C16,C05
//@ sig
    requires self.wf(),
    ensures
        ret is Ok && self.flushed() ==> durable(self.paths().0, self.data_writer@) && durable(self.paths().1, self.index_writer@), // [C16]
//@ block ColumnWriter
    pub open spec fn wf(&self) -> bool {
        &&& self.encoder.vx_wf()
        &&& self.rest_wf()
    }
    /// the column can be closed
    pub open spec fn rest_wf(&self) -> bool {
        &&& self.block_sink.vx_sink_ok()
        &&& self.index_writer.wf()
        &&& self.metadata.segment_meta is Some
    }
    /// the column's blocks
    pub open spec fn cols(&self) -> Blocks { self.block_sink.vx_blocks() }
    pub open spec fn failed(&self) -> bool { self.block_sink.vx_failed() || self.index_writer.failed() }
//@ fn ColumnWriter::write props=C01,C02,C03,C04,C05,C14
//@ sig
    requires
        old(self).wf(), old(self).encoder.vx_suits(buf),
        enc_rows(old(self).encoder.vx_enc()) + col_rows(old(self).encoder.vx_col(buf)) < u32::MAX,
    ensures
        ret is Ok ==> final(self).wf(),
        ret is Ok ==> forall|c: Col| #[trigger] enc_has(old(self).encoder.vx_enc(), old(self).cols(), c)
            ==> enc_has(final(self).encoder.vx_enc(), final(self).cols(), col_add(c, old(self).encoder.vx_col(buf))), // [C01,C02,C03]
        ret is Ok && old(self).encoder.vx_enc().ok ==>
            enc_rows(final(self).encoder.vx_enc()) == enc_rows(old(self).encoder.vx_enc()) + col_rows(old(self).encoder.vx_col(buf)), // [C01,C02,C03]
        ret is Ok && enc_full(old(self).encoder.vx_enc(), old(self).cols()) ==> enc_full(final(self).encoder.vx_enc(), final(self).cols()), // [C04]
        ret is Ok ==> final(self).failed() == old(self).failed(), // [C05]
        ret is Ok ==> final(self).block_sink.vx_base() == old(self).block_sink.vx_base(), // [C14]
        ret is Ok ==> enc_cfg(final(self).encoder.vx_enc(), old(self).encoder.vx_enc()),
        forall|b: &B| #[trigger] final(self).encoder.vx_suits(b) == old(self).encoder.vx_suits(b),
        forall|b: &B| #[trigger] final(self).encoder.vx_col(b) == old(self).encoder.vx_col(b),
        ret is Ok ==> *final(self).metadata == *old(self).metadata && *final(self).index_writer == *old(self).index_writer
            && final(self).column_info == old(self).column_info, // [C16]
        ret is Ok ==> *final(final(self).metadata) == *final(old(self).metadata) && *final(final(self).index_writer) == *final(old(self).index_writer),
//@ fn ColumnWriter::close props=C01,C02,C03,C04,C05,C14,C16
//@ exit
    proof {
        if vx_ret is Ok {
            let m = self.metadata.segment_meta->Some_0.columns_meta@[self.column_info.name@];
            let l = self.metadata.columns_layout@[self.column_info.name@];
            assert(column_meta_is(m, self.column_info));
            assert(layout_full(l));
        }
    }
//@ sig
    requires old(self).wf(),
    ensures
        ret is Ok ==> final(self).rest_wf(),
        ret is Ok ==> forall|c: Col| #[trigger] enc_has(old(self).encoder.vx_enc(), old(self).cols(), c)
            ==> enc_done(final(self).encoder.vx_enc(), final(self).cols(), c), // [C01,C02,C03]
        ret is Ok && enc_full(old(self).encoder.vx_enc(), old(self).cols()) ==> enc_sized(final(self).encoder.vx_enc(), final(self).cols()), // [C04]
        ret is Ok ==> final(self).failed() == old(self).failed(), // [C05]
        ret is Ok ==> final(self).block_sink.vx_base() == old(self).block_sink.vx_base(), // [C14]
        ret is Ok ==> meta_column_added(*old(self).metadata, *final(self).metadata, old(self).column_info), // [C16]
        ret is Ok ==> old(self).index_writer@.is_prefix_of(final(self).index_writer@), // [C16]
        ret is Ok ==> final(self).index_writer.file.path() == old(self).index_writer.file.path(), // [C16]
        ret is Ok ==> enc_cfg(final(self).encoder.vx_enc(), old(self).encoder.vx_enc()),
        ret is Ok ==> final(self).column_info == old(self).column_info,
        ret is Ok ==> *final(final(self).metadata) == *final(old(self).metadata) && *final(final(self).index_writer) == *final(old(self).index_writer),
