//@ file io/mod.rs
//@ prelude
    // derive(Clone)
    impl VxToOwned for BlockRange {
        type Owned = BlockRange;
        open spec fn vx_owned(&self, r: BlockRange) -> bool { r == *self }
        #[verifier::external_body]
        fn vx_to_owned(&self) -> (r: BlockRange) { self.clone() }
    }
    impl VxToOwned for OpInfo {
        type Owned = OpInfo;
        open spec fn vx_owned(&self, r: OpInfo) -> bool { r == *self }
        #[verifier::external_body]
        fn vx_to_owned(&self) -> (r: OpInfo) { self.clone() }
    }
//@ fn asyncify props=C15
//@ sig
    requires f.requires(()),
    ensures ret is Ok ==> f.ensures((), ret),
//@ block trait@BlockReader
    /// the content of the file
    spec fn vx_file(&self) -> Seq<u8>;
    spec fn vx_reader_ok(&self) -> bool;
//@ fn trait@BlockReader::read_block props=C15
//@ sig
    requires range.start <= range.end,
    ensures ret matches Ok(b) ==> is_range(b.vx_ref()@, self.vx_file(), range),
//@ fn trait@BlockReader::read_blocks props=C15
//@ sig
    requires forall|i: int| 0 <= i < read_ops@.len() ==> (#[trigger] read_ops@[i]).block_range.start <= read_ops@[i].block_range.end,
    ensures
        ret.items().len() == read_ops@.len(),
        forall|i: int| 0 <= i < read_ops@.len() ==> read_as(#[trigger] ret.items()[i], self.vx_file(), read_ops@[i]),
//@ fn trait@BlockReader::len props=C15
//@ sig
    requires self.vx_reader_ok(),
    ensures ret == self.vx_file().len(),
//@ prelude
    /// b holds the bytes of the range of the file; the file reaches that far.
    pub open spec fn is_range(b: Seq<u8>, file: Seq<u8>, r: BlockRange) -> bool {
        &&& b.len() == r.end - r.start
        &&& b.len() > 0 ==> r.end <= file.len() && b == file.subrange(r.start as int, r.end as int)
    }
    /// the result of a read operation carries the info of the operation
    pub open spec fn read_as<B: AsRef<[u8]>>(x: Result<Block<B>, BlockError>, file: Seq<u8>, op: ReadOp) -> bool {
        match x {
            Ok(b) => b.op_info == op.op_info && is_range(b.buf.vx_ref()@, file, op.block_range),
            Err(e) => e.op_info == op.op_info,
        }
    }

//@ file io/default_block_writer.rs
//@ block Writer
    pub open spec fn view(&self) -> Seq<u8> { self.file@ }
    pub open spec fn failed(&self) -> bool { self.file.failed() }
    pub open spec fn wf(&self) -> bool { self.pos == self.file@.len() && self.pos <= i64::MAX }
//@ fn Writer::new props=C14,C16
//@ sig
    ensures ret matches Ok(w) ==> w.wf() && w@ == Seq::<u8>::empty() && !w.failed() && w.file.path() == path.vx_ref()@,
//@ fn Writer::write_block props=C14,C16,C05
//@ sig
    requires old(self).wf(),
    ensures
        ret is Ok ==> final(self).wf() && final(self)@ == old(self)@ + block@, // [C14,C16]
        final(self).failed() == (old(self).failed() || ret is Err), // [C05]
        final(self).file.path() == old(self).file.path(),
//@ entry
    proof { axiom_slice_max(block); }
//@ fn Writer::flush props=C16,C05
//@ sig
    ensures
        ret is Ok ==> final(self)@ == old(self)@ && final(self).pos == old(self).pos && final(self).file.flushed(), // [C16]
        final(self).failed() == (old(self).failed() || ret is Err), // [C05]
        final(self).file.path() == old(self).file.path(),
//@ fn Writer::sync props=C16,C05
//@ sig
    ensures
        ret is Ok ==> final(self)@ == old(self)@ && final(self).pos == old(self).pos, // [C16]
        ret is Ok && old(self).file.flushed() ==> final(self).file.flushed() && crate::vxdeps::tokio::fs::durable(old(self).file.path(), old(self)@), // [C16]
        final(self).failed() == (old(self).failed() || ret is Err), // [C05]
        final(self).file.path() == old(self).file.path(),
//@ fn Writer::pos props=C14,C16
//@ sig
    ensures ret == self.pos,

//@ file io/unix_disk_block_reader.rs
//@ block Reader
    pub open spec fn wf(&self) -> bool { self.len == self.file@.len() }
//@ fn Reader::new props=C15
//@ closure 0 || -> (vx_r: io::Result<File>)
    ensures vx_r matches Ok(f) ==> f@ == crate::vxdeps::vxstd::fs::content(path@@)
//@ sig
    ensures ret matches Ok(r) ==> r.wf() && r.file@ == crate::vxdeps::vxstd::fs::content(path.vx_ref()@),
//@ block BlockReader@Reader
    open spec fn vx_file(&self) -> Seq<u8> { self.file@ }
    open spec fn vx_reader_ok(&self) -> bool { self.wf() }
//@ fn BlockReader@Reader::read_block props=C15
//@ entry
    broadcast use crate::vxdeps::axiom_vec_slice;
//@ closure 0 || -> (vx_r: io::Result<Vec<u8>>)
    requires range.start <= range.end
    ensures vx_r matches Ok(b) ==> crate::store::io::is_range(b@, file@, range)
//@ closure 1 |_vx0: ()| -> (vx_r: Vec<u8>)
    ensures vx_r == buf
//@ fn BlockReader@Reader::read_blocks props=C15
//@ entry
    broadcast use crate::vxdeps::axiom_vec_slice;
//@ closure 0 |op: ReadOp| -> (vx_r: (io::Result<Vec<u8>>, ReadOp))
    requires op.block_range.start <= op.block_range.end
    ensures vx_r.1 == op, vx_r.0 matches Ok(b) ==> crate::store::io::is_range(b@, self.file@, op.block_range)
//@ closure 1 |op_result: (io::Result<Vec<u8>>, ReadOp)| -> (vx_r: Result<Block<Vec<u8>>, BlockError>)
    ensures match op_result.0 {
        Ok(b) => vx_r is Ok && vx_r->Ok_0.buf == b && vx_r->Ok_0.op_info == op_result.1.op_info,
        Err(_) => vx_r is Err && vx_r->Err_0.op_info == op_result.1.op_info,
    }
//@ fn BlockReader@Reader::len props=C15

//@ file block_index.rs
//@ block BlockIndex
    /// (last row id, end offset) of the blocks
    pub open spec fn view(&self) -> Seq<(u32, u64)> {
        Seq::new(self.block_offset@.len(), |i: int| (self.block_row_id@[i], self.block_offset@[i]))
    }
    pub open spec fn wf(&self) -> bool { self.block_offset@.len() == self.block_row_id@.len() }
//@ fn BlockIndex::new props=C14
//@ sig
    ensures ret.wf(), ret@.len() == 0,
//@ fn BlockIndex::flush props=C05,C16
//@ sig
    requires old(block_writer).wf(),
    ensures
        ret is Ok ==> final(block_writer).wf() && old(block_writer)@.is_prefix_of(final(block_writer)@), // [C16]
        ret is Ok ==> final(block_writer).failed() == old(block_writer).failed(), // [C05]
        final(block_writer).file.path() == old(block_writer).file.path(),
//@ fn BlockIndex::index_block props=C14
//@ sig
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@.push((row_id, offset)),
//@ exit
    proof { assert(self@ =~= old(self)@.push((row_id, offset))); }
//@ fn BlockIndex::clear props=C14
//@ sig
    ensures final(self).wf(), final(self)@.len() == 0,

//@ file index/mod.rs
//@ fn trait@ColumnIndex::flush props=C05,C16
//@ sig
    requires old(writer).wf(),
    ensures
        ret is Ok ==> final(writer).wf() && old(writer)@.is_prefix_of(final(writer)@), // [C16]
        ret is Ok ==> final(writer).failed() == old(writer).failed(), // [C05]
        final(writer).file.path() == old(writer).file.path(),
