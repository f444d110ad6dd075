// The Snappy encoder is a stub (a known finding of C17): its contract claims
// nothing about the column.
//@ file encoding/snappy/snappy_enc.rs
//@ block BlockEncoder@Encoder
    open spec fn vx_enc(&self) -> Enc {
        Enc { ok: false, kind: Kind::Var, nullable: false, min: 0, pend: col0(), rows: 0 }
    }
    open spec fn vx_wf(&self) -> bool { true }
    open spec fn vx_col(&self, b: &BinaryBuffer) -> Col { col0() }
    open spec fn vx_suits(&self, b: &BinaryBuffer) -> bool { true }
//@ fn Encoder::new props=C17
//@ sig
    ensures true,
//@ fn BlockEncoder@Encoder::encode props=C17
//@ fn BlockEncoder@Encoder::flush props=C17
