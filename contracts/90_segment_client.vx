// A program that uses the store: what its user may conclude, from the contracts
// alone.  Nothing here is code of meerkat; every call below is a call of the
// real function, taken by its contract.
//@ file segment_writer.rs
//@ prelude
    // VX_CLIENT_BEGIN
    pub mod vx_client {
    use super::*;
    use vstd::prelude::*;
    use crate::store::encoding::raw::binary_enc::{whole, buf_ok};
    use crate::store::block_sink::{index_ok, blocks_at};
    use crate::store::indexing_buffer::vx_client::{some, is_some, flat, lens, client_binary, lemma_some_push, lemma_flat_push};
    pub type Rows = Vec<Option<Vec<u8>>>;
    /// the column that holds the rows
    pub open spec fn rows_col(rows: Seq<Option<Vec<u8>>>) -> Col {
        Col { data: flat(some(rows)), lens: lens(some(rows)), bits: is_some(rows) }
    }
    /// all rows of the batches, in order
    pub open spec fn all_rows(bs: Seq<Rows>) -> Seq<Option<Vec<u8>>>
        decreases bs.len()
    {
        if bs.len() == 0 { Seq::empty() } else { all_rows(bs.drop_last()) + bs.last()@ }
    }
    pub open spec fn suit(bs: Seq<Rows>, nullable: bool) -> bool {
        &&& all_rows(bs).len() < u32::MAX
        &&& forall|i: int| 0 <= i < bs.len() ==> suit_rows(#[trigger] bs[i]@, nullable)
    }
    pub open spec fn suit_rows(rows: Seq<Option<Vec<u8>>>, nullable: bool) -> bool {
        &&& flat(some(rows)).len() + 131072 < u32::MAX
        &&& fits(lens(some(rows)), 31)
        &&& nullable || forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]) is Some
    }
    proof fn lemma_rows_add(a: Seq<Option<Vec<u8>>>, b: Seq<Option<Vec<u8>>>)
        ensures rows_col(a + b) == col_add(rows_col(a), rows_col(b))
        decreases b.len()
    {
        if b.len() == 0 {
            assert(a + b =~= a);
            assert(rows_col(b).data =~= Seq::<u8>::empty());
            assert(rows_col(b).lens =~= Seq::<u32>::empty());
            assert(rows_col(b).bits =~= Seq::<bool>::empty());
            assert(rows_col(b) == col0());
            lemma_col_add(rows_col(a), col0(), col0());
        } else {
            let c = b.drop_last();
            let r = b.last();
            lemma_rows_add(a, c);
            assert(b =~= c.push(r));
            assert(a + b =~= (a + c).push(r));
            lemma_some_push(c, r);
            lemma_some_push(a + c, r);
            match r {
                Some(v) => { lemma_flat_push(some(c), v); lemma_flat_push(some(a + c), v); }
                None => {}
            }
            let x = rows_col(a + b);
            let y = col_add(rows_col(a), rows_col(b));
            assert(x.data =~= y.data);
            assert(x.lens =~= y.lens);
            assert(x.bits =~= y.bits);
        }
    }
    proof fn lemma_batch(bs: Seq<Rows>, i: int)
        requires 0 <= i < bs.len()
        ensures
            rows_col(all_rows(bs.take(i + 1))) == col_add(rows_col(all_rows(bs.take(i))), rows_col(bs[i]@)),
            all_rows(bs.take(i)).len() + bs[i]@.len() <= all_rows(bs).len(),
        decreases bs.len() - i
    {
        assert(bs.take(i + 1).drop_last() =~= bs.take(i));
        lemma_rows_add(all_rows(bs.take(i)), bs[i]@);
        if i + 1 < bs.len() { lemma_batch(bs, i + 1); } else { assert(bs.take(i + 1) =~= bs); }
    }
    proof fn lemma_whole(b: &BinaryBuffer, rows: Seq<Option<Vec<u8>>>)
        requires b.wf(), b.bytes() == flat(some(rows)), b.lens() == lens(some(rows)), b.bits() == is_some(rows)
        ensures whole(b) == rows_col(rows)
    {
        assert(whole(b).data =~= b.bytes());
        assert(whole(b).lens =~= b.lens());
        assert(whole(b).bits =~= b.bits());
    }
    /// In the data file, from `start` on, the index `ix` delimits blocks that hold
    /// the column c and no other.
    pub open spec fn column_in(data: Seq<u8>, ix: Seq<(u32, u64)>, start: int, c: Col, nullable: bool) -> bool {
        &&& index_ok(data, ix, start)
        &&& enc_done(done_enc(nullable, col_rows(c)), blocks_at(data, ix, start), c)
        &&& forall|d: Col| #[trigger] enc_done(done_enc(nullable, col_rows(c)), blocks_at(data, ix, start), d) ==> d == c
        &&& blocks_sized(blocks_at(data, ix, start), 131072, Kind::Var, nullable)
    }
    pub open spec fn done_enc(nullable: bool, rows: int) -> Enc {
        Enc { ok: true, kind: Kind::Var, nullable, min: 131072, pend: col0(), rows }
    }
    /// A column writer that is dropped gives back what it borrowed.
    fn give_back<'a>(c: ColumnWriter<'a, BinaryBuffer>)
        ensures
            has_resolved(c.metadata), has_resolved(c.index_writer),
            has_resolved(c.block_sink.data_writer), has_resolved(c.block_sink.block_index),
    {
        let ColumnWriter { metadata, index_writer, block_sink, encoder, column_info, column_index } = c;
        proof {
            assert(has_resolved(metadata));
            assert(has_resolved(index_writer));
            assert(has_resolved(block_sink));
        }
    }
    /// Writes the rows as one column, batch by batch, through one buffer.
    fn client_column(w: &mut SegmentWriter, info: ColumnInfo, batches: &Vec<Rows>) -> (r: Result<Ghost<Seq<(u32, u64)>>>)
        requires old(w).wf(), info.encoding is Raw, suit(batches@, info.nullable),
        ensures r matches Ok(ix) ==> {
            let start = old(w).data_writer@.len() as int;
            &&& final(w).wf()
            &&& final(w).data_writer@.subrange(0, start) == old(w).data_writer@
            &&& column_in(final(w).data_writer@, ix@, start, rows_col(all_rows(batches@)), info.nullable)
            &&& final(w).failed() == old(w).failed()
            &&& final(w).paths() == old(w).paths()
            &&& meta_column_added(old(w).segment_meta, final(w).segment_meta, info)
            &&& old(w).index_writer@.is_prefix_of(final(w).index_writer@)
        }
    {
        let ghost w0 = *w;
        let ghost nullable = info.nullable;
        let mut buf = BinaryBuffer::new(info.nullable);
        let mut c = w.new_binary_column_writer(info)?;
        let ghost e0 = c.encoder.vx_enc();
        proof {
            lemma_holds_start(Kind::Var, nullable);
            assert(batches@.take(0) =~= Seq::<Rows>::empty());
            lemma_rows_add(Seq::empty(), Seq::empty());
            assert(rows_col(Seq::empty()) == col0()) by {
                let x = rows_col(Seq::empty());
                assert(x.data =~= Seq::<u8>::empty());
                assert(x.lens =~= Seq::<u32>::empty());
                assert(x.bits =~= Seq::<bool>::empty());
            }
            assert(enc_has(e0, c.cols(), col0()));
        }
        let mut i: usize = 0;
        while i < batches.len()
            invariant
                i <= batches@.len(), buf.wf(), buf.nullable() == nullable, suit(batches@, nullable), nullable == info.nullable,
                c.wf(), c.column_info == info,
                enc_has(c.encoder.vx_enc(), c.cols(), rows_col(all_rows(batches@.take(i as int)))),
                enc_rows(c.encoder.vx_enc()) == col_rows(rows_col(all_rows(batches@.take(i as int)))),
                enc_cfg(c.encoder.vx_enc(), e0), e0 == encoding::enc_new(Kind::Var, nullable, 131072),
                enc_full(c.encoder.vx_enc(), c.cols()),
                c.block_sink.vx_base() == (w0.data_writer@, w0.paths().0, after_borrow(w).data_writer, after_borrow(w).block_index),
                *final(c.metadata) == after_borrow(w).segment_meta, *final(c.index_writer) == after_borrow(w).index_writer,
                c.failed() == w0.failed(),
                *c.metadata == w0.segment_meta, *c.index_writer == w0.index_writer,
                forall|b: &BinaryBuffer| #[trigger] c.encoder.vx_col(b) == whole(b),
                forall|b: &BinaryBuffer| #[trigger] c.encoder.vx_suits(b)
                    == (buf_ok(b) && b.nullable() == nullable && b.bytes().len() + 131072 < u32::MAX),
            decreases batches@.len() - i
        {
            let ghost rows = batches@[i as int]@;
            proof { lemma_batch(batches@, i as int); assert(suit_rows(rows, nullable)); }
            client_binary(&mut buf, &batches[i]);
            proof { lemma_whole(&buf, rows); }
            c.write(&buf)?;
            i += 1;
        }
        proof { assert(batches@.take(batches@.len() as int) =~= batches@); }
        c.close()?;
        let ghost ix = c.block_sink.block_index@;
        proof {
            let e = c.encoder.vx_enc();
            let bs = c.cols();
            let col = rows_col(all_rows(batches@));
            assert(enc_done(e, bs, col));
            lemma_done(e, bs, col);
            let start = w0.data_writer@.len() as int;
            let data = c.block_sink.data_writer@;
            assert(c.block_sink.vx_start@ == data.subrange(0, c.block_sink.vx_start@).len());
            assert(c.block_sink.vx_start@ == start);
            assert(bs == blocks_at(data, ix, start));
            assert(column_in(data, ix, start, col, nullable));
        }
        let ghost data = c.block_sink.data_writer@;
        let ghost meta = *c.metadata;
        // the writer gives back what it borrowed
        give_back(c);
        proof {
            assert(w.segment_meta == meta);
            assert(w.data_writer@ == data);
            assert(w.wf());
            assert(w.paths() == w0.paths());
            assert(w0.index_writer@.is_prefix_of(w.index_writer@));
            assert(w.failed() == w0.failed());
            assert(meta_column_added(w0.segment_meta, w.segment_meta, info));
        }
        Ok(Ghost(ix))
    }
    proof fn lemma_done(e: Enc, bs: Blocks, col: Col)
        requires enc_done(e, bs, col), e.kind is Var
        ensures
            e.rows == col_rows(col),
            enc_done(done_enc(e.nullable, col_rows(col)), bs, col),
            forall|d: Col| #[trigger] enc_done(done_enc(e.nullable, col_rows(col)), bs, d) ==> d == col,
    {
        let cs = choose|cs: Seq<Col>| {
            &&& #[trigger] blocks_are(bs, cs, e.kind, e.nullable)
            &&& col_add(col_flat(cs), col0()) == col
            &&& e.rows == col_rows(col_flat(cs))
        };
        lemma_col_add(col_flat(cs), col0(), col0());
        let f = done_enc(e.nullable, col_rows(col));
        assert(enc_done(f, bs, col));
        assert forall|d: Col| #[trigger] enc_done(f, bs, d) implies d == col by {
            lemma_done_unique(f, bs, col, d);
        }
    }
    /// A column to write.
    pub struct ClientColumn { pub info: ColumnInfo, pub batches: Vec<Rows> }
    /// How the columns lie in the two files.
    pub ghost struct Layout {
        /// the data file
        pub data: Seq<u8>,
        /// where each column starts, and where the last one ends
        pub ends: Seq<int>,
        /// the entries of the block index of each column
        pub ixs: Seq<Seq<(u32, u64)>>,
        /// the metadata before each column, and after the last one
        pub metas: Seq<Metadata>,
        /// the index file, up to the metadata
        pub index: Seq<u8>,
    }
    /// The columns are in the files, one behind the other, with nothing else.
    pub open spec fn layout_of(l: Layout, info: SegmentInfo, cols: Seq<ClientColumn>) -> bool {
        let n = cols.len();
        &&& l.ends.len() == n + 1 && l.ixs.len() == n && l.metas.len() == n + 1
        &&& data_sig().is_prefix_of(l.data) && index_sig().is_prefix_of(l.index)
        &&& l.ends[0] == data_sig().len() && l.ends[n as int] == l.data.len()
        &&& meta_is(l.metas[0], info)
        &&& forall|i: int| 0 <= i <= n ==> 0 <= #[trigger] l.ends[i] <= l.data.len()
        &&& forall|i: int| 0 <= i < n ==> column_at(l, #[trigger] cols[i], i)
    }
    pub open spec fn column_at(l: Layout, c: ClientColumn, i: int) -> bool {
        &&& column_in(l.data.subrange(0, l.ends[i + 1]), l.ixs[i], l.ends[i], rows_col(all_rows(c.batches@)), c.info.nullable)
        &&& meta_column_added(l.metas[i], l.metas[i + 1], c.info)
    }
    /// Writes a segment, closes it and syncs it: success means that both files
    /// are durable, hold exactly what was written, and that no write failed.
    fn client_segment<P: AsRef<Path>>(path: P, info: SegmentInfo, cols: Vec<ClientColumn>) -> (r: Result<Ghost<Layout>>)
        requires forall|i: int| 0 <= i < cols@.len() ==> (#[trigger] cols@[i]).info.encoding is Raw && suit(cols@[i].batches@, cols@[i].info.nullable)
        ensures r matches Ok(l) ==> {
            &&& layout_of(l@, info, cols@)
            &&& durable(path_join(path.vx_ref()@, file_name(info.segment_id@, seq!['d', 'a', 't'])), l@.data)
            &&& durable(path_join(path.vx_ref()@, file_name(info.segment_id@, seq!['i', 'd', 'x'])),
                    l@.index + crate::vxdeps::prost::pb(l@.metas.last()) + le8(l@.index.len() as int, 8))
        }
    {
        let mut w = SegmentWriter::new(path, info)?;
        let mut cols = cols;
        let ghost all = cols@;
        assert(all.len() == cols.len());
        let ghost paths = w.paths();
        let ghost mut l = Layout {
            data: w.data_writer@, ends: seq![w.data_writer@.len() as int], ixs: Seq::empty(), metas: seq![w.segment_meta], index: w.index_writer@,
        };
        let mut n: usize = 0;
        while cols.len() > 0
            invariant
                forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).info.encoding is Raw && suit(all[i].batches@, all[i].info.nullable),
                all.len() <= usize::MAX, n + cols@.len() == all.len(), cols@ == all.skip(n as int),
                w.wf(), !w.failed(), w.paths() == paths,
                w.data_writer@ == l.data, w.index_writer@ == l.index, w.segment_meta == l.metas.last(),
                layout_of(l, info, all.take(n as int)),
            decreases cols@.len()
        {
            let ghost w1 = w;
            let ghost l1 = l;
            let c = cols.remove(0);
            assert(c == all[n as int]);
            assert(cols@ =~= all.skip(n + 1));
            let ix = client_column(&mut w, c.info, &c.batches)?;
            proof {
                l = Layout {
                    data: w.data_writer@, ends: l1.ends.push(w.data_writer@.len() as int), ixs: l1.ixs.push(ix@),
                    metas: l1.metas.push(w.segment_meta), index: w.index_writer@,
                };
                let m = all.take(n + 1);
                assert(all.take(n as int) =~= m.drop_last());
                assert(l.data.subrange(0, l.data.len() as int) =~= l.data);
                assert forall|i: int| 0 <= i < m.len() implies column_at(l, #[trigger] m[i], i) by {
                    if i < n {
                        assert(column_at(l1, all.take(n as int)[i], i));
                        assert(l1.ends[i + 1] <= l1.data.len());
                        let e = l1.ends[i + 1];
                        assert(l.data.subrange(0, l1.data.len() as int) == l1.data);
                        assert(l1.data.subrange(0, e) =~= l.data.subrange(0, e));
                    }
                }
                assert(data_sig().is_prefix_of(l.data)) by {
                    assert(l.data.subrange(0, l1.data.len() as int) == l1.data);
                }
            }
            n += 1;
        }
        assert(all.take(n as int) =~= all);
        w.close()?;
        w.sync()?;
        Ok(Ghost(l))
    }
    } // vx_client
    // VX_CLIENT_END
