//! C01-C04, C17: columns through the encoders, into a sink in memory.
use crate::cases::*;
use crate::oracle::{self, Row};
use crate::p_columns_gen::col_shape;
use crate::store::encoding::{self, BlockEncoder, BlockSink};
use crate::store::indexing_buffer::*;
use crate::store::segment_metadata::Encoding;
use crate::{ensure, fail};
use futures::executor::block_on;

pub struct Sink {
    pub blocks: Vec<(u32, Vec<u8>)>,
}
#[async_trait::async_trait]
impl BlockSink for Sink {
    async fn write_block(&mut self, row_id: u32, block_data: &[u8]) -> anyhow::Result<()> {
        self.blocks.push((row_id, block_data.to_vec()));
        Ok(())
    }
}

fn run_encoder<B>(
    mut e: Box<dyn BlockEncoder<B, Sink>>, bufs: &[B], flush: bool,
) -> Result<Vec<(u32, Vec<u8>)>, String> {
    let mut s = Sink { blocks: vec![] };
    for (i, b) in bufs.iter().enumerate() {
        if let Err(x) = block_on(e.encode(b, &mut s)) {
            fail!("encode of buffer {} fails: {:#}", i, x);
        }
    }
    if flush {
        if let Err(x) = block_on(e.flush(&mut s)) {
            fail!("flush fails: {:#}", x);
        }
    }
    Ok(s.blocks)
}

pub struct Done {
    pub blocks: Vec<(u32, Vec<u8>)>,
    pub rows: Vec<Row>,
    pub width: Option<usize>,
    pub nullable: bool,
    pub min: u64,
}
/// A random column through an encoder.
fn column(g: &mut Gen, var: bool, flush: bool) -> Result<Done, String> {
    #[cfg(feature = "segment")]
    {
        if flush && !g.small && g.below(12) == 7 {
            return crate::p_segment::column_on_disk(g, var);
        }
    }
    let nullable = g.bool();
    let c = col_shape(g, nullable, var);
    let min = c.min;
    let mut rows: Vec<Row> = vec![];
    macro_rules! prim {
        ($t:ty, $new:ident, $conv:expr) => {{
            let mut bufs = vec![];
            for pat in &c.bufs {
                let mut b: PrimitiveBuffer<$t> = PrimitiveBuffer::new(nullable);
                for r in pat {
                    match r {
                        Some(v) => {
                            let v: $t = $conv(v);
                            b.append(v);
                            rows.push(Some(v.to_ne_bytes().to_vec()));
                        }
                        None => {
                            b.append_null();
                            rows.push(None);
                        }
                    }
                }
                bufs.push(b);
            }
            let e = match encoding::$new::<Sink>(Encoding::Raw, min as usize, nullable) {
                Ok(e) => e,
                Err(x) => fail!("no raw encoder: {:#}", x),
            };
            let blocks = run_encoder(e, &bufs, flush)?;
            Ok(Done { blocks, rows, width: Some(std::mem::size_of::<$t>()), nullable, min })
        }};
    }
    fn w8(v: &Vec<u8>) -> u64 {
        let mut x = [0u8; 8];
        for (i, b) in v.iter().take(8).enumerate() {
            x[i] = *b;
        }
        u64::from_le_bytes(x)
    }
    if var {
        let mut bufs = vec![];
        for pat in &c.bufs {
            let mut b = BinaryBuffer::new(nullable);
            for r in pat {
                match r {
                    Some(v) => b.append(v),
                    None => b.append_null(),
                }
                rows.push(r.clone());
            }
            bufs.push(b);
        }
        let e = match encoding::new_binary_encoder::<Sink>(Encoding::Raw, min as u32, nullable) {
            Ok(e) => e,
            Err(x) => fail!("no raw encoder: {:#}", x),
        };
        let blocks = run_encoder(e, &bufs, flush)?;
        return Ok(Done { blocks, rows, width: None, nullable, min });
    }
    let ty = g.below(4);
    g.note(["i32", "i64", "u64", "f64"][ty as usize].to_string());
    match ty {
        0 => prim!(i32, new_i32_encoder, |v| w8(v) as i32),
        1 => prim!(i64, new_i64_encoder, |v| w8(v) as i64),
        2 => prim!(u64, new_u64_encoder, |v| w8(v)),
        _ => prim!(f64, new_f64_encoder, |v| f64::from_bits(w8(v))),
    }
}

pub fn c01(g: &mut Gen) -> Outcome {
    let d = column(g, false, true)?;
    g.nontrivial = d.blocks.len() > 1;
    oracle::check_column(&d.blocks, &d.rows, d.width, d.nullable)
}
pub fn c02(g: &mut Gen) -> Outcome {
    let d = column(g, true, true)?;
    g.nontrivial = d.blocks.len() > 1;
    oracle::check_column(&d.blocks, &d.rows, d.width, d.nullable)
}
/// Each block's tag is the id of its last row: counted from the blocks' own content.
pub fn c03(g: &mut Gen) -> Outcome {
    let var = g.bool();
    let flush = g.below(4) != 0;
    let d = column(g, var, flush)?;
    g.nontrivial = d.blocks.len() > 1;
    let mut next = 0usize; // first row of the block
    let mut data = 0usize;
    let all: Vec<u8> = d.rows.iter().flatten().flatten().copied().collect();
    for (i, (id, b)) in d.blocks.iter().enumerate() {
        ensure!(*id as usize >= next && (*id as usize) < d.rows.len(), "block {} is tagged {}, rows {}..{} are left", i, id, next, d.rows.len());
        let rows = &d.rows[next..*id as usize + 1];
        // the block's bytes are those of the rows that the tags give to it
        let n = oracle::data_len(b)?;
        let want: usize = rows.iter().flatten().map(|v| v.len()).sum();
        ensure!(n == want, "block {} is tagged rows {}..={}, of {} bytes, and holds {} bytes of values", i, next, id, want, n);
        let k = oracle::varint(b)?.1;
        ensure!(b.len() >= k + n && b[k..k + n] == all[data..data + n], "block {} does not hold the values of rows {}..={}", i, next, id);
        if d.nullable {
            // as many validity bits as rows, up to the padding of the last byte
            let nv = rows.iter().flatten().count();
            let blk = if d.width.is_some() { oracle::fixed_block(b, true)? } else { oracle::var_block(b, nv, true)? };
            let v = blk.valid.unwrap();
            ensure!((rows.len() + 7) / 8 * 8 == v.len(), "block {} is tagged with {} rows and has {} validity bits", i, rows.len(), v.len());
            let ones = v.iter().filter(|x| **x).count();
            ensure!(ones == nv, "block {} has {} values and {} valid rows", i, nv, ones);
        }
        data += n;
        next = *id as usize + 1;
    }
    if flush {
        ensure!(next == d.rows.len(), "the last block is tagged {}, the column has {} rows", next as i64 - 1, d.rows.len());
    }
    Ok(())
}
pub fn c04(g: &mut Gen) -> Outcome {
    let var = g.bool();
    let flush = g.below(4) != 0;
    let d = column(g, var, flush)?;
    g.nontrivial = d.blocks.len() > 1;
    let mut vals = d.rows.iter().flatten().map(|v| v.len()).peekable();
    let n = d.blocks.len();
    let mut last_row = 0;
    // first row of the block by the tags, while they agree with the blocks' content
    let mut next = Some(0usize);
    for (i, (id, b)) in d.blocks.iter().enumerate() {
        let len = oracle::data_len(b)?;
        // the last value of the block
        let mut c = 0;
        let mut last = 0;
        while c < len {
            match vals.next() {
                Some(v) => {
                    c += v;
                    last = v;
                }
                None => fail!("block {} has {} bytes of values, {} left in the column", i, len, c),
            }
        }
        // empty values at the end of a block take no bytes: skip those that follow
        if i + 1 < n || !flush {
            ensure!(len as u64 >= d.min, "block {} of {} has {} bytes of values, less than {}", i, n, len, d.min);
        }
        if len as u64 >= d.min {
            ensure!(((len - last) as u64) < d.min, "block {} has {} bytes of values; without the last, of {}, it has {} already (minimum {})", i, len, last, len - last, d.min);
        }
        // the same by the rows of the tag: an empty value after the boundary is one too many
        let rows = next.and_then(|k| d.rows.get(k..(*id as usize).saturating_add(1)));
        let rows = rows.filter(|r| r.iter().flatten().map(|v| v.len()).sum::<usize>() == len);
        next = rows.map(|_| *id as usize + 1);
        if let (Some(r), true) = (rows, d.width.is_none() && len as u64 >= d.min) {
            let last = r.iter().rev().flatten().next().map_or(0, |v| v.len());
            ensure!(((len - last) as u64) < d.min, "block {} of rows up to {} has {} bytes of values, and without the last value, of {}, {} already (minimum {})", i, id, len, last, len - last, d.min);
        }
        // a block of no rows: no data and nothing after it
        let after = &b[oracle::varint(b)?.1 + len..];
        let none = match (d.width.is_some(), d.nullable) {
            (true, _) => len == 0 && after.is_empty(),
            // empty items need no more than the byte of the width, so there are some
            (false, false) => len == 0 && after.len() <= 1 && vals.peek() != Some(&0) && last_row == d.rows.len(),
            (false, true) => len == 0 && after.len() <= 1,
        };
        ensure!(!none, "block {} of {} holds no rows", i, n);
        while vals.peek() == Some(&0) {
            vals.next();
        }
        last_row = (*id as usize).saturating_add(1);
    }
    if !flush {
        let left: usize = vals.sum();
        ensure!((left as u64) < d.min, "{} bytes of values are kept back although a block takes {}", left, d.min);
    }
    Ok(())
}

pub fn c17(g: &mut Gen) -> Outcome {
    #[cfg(feature = "segment")]
    {
        if g.below(8) == 7 {
            return crate::p_segment::c17_writer(g);
        }
    }
    let encs = [Encoding::Raw, Encoding::BitPacked, Encoding::DeltaBinaryPacked, Encoding::RleDictionary, Encoding::Snappy];
    let k = g.below(5) as usize;
    let enc = encs[k];
    let nullable = g.bool();
    let min = if g.small { 1 + g.below(9) } else { g.range(1, 300) };
    let ty = g.below(5);
    g.note(format!("{:?} for {} (block size {}, nullable {})", enc, ["i32", "i64", "u64", "f64", "binary"][ty as usize], min, nullable));
    let n = if g.small { 1 + g.below(3) } else { g.range(1, 60) };
    let pat = crate::p_columns_gen::nulls(g, n, nullable);
    let mut rows: Vec<Row> = vec![];
    g.nontrivial = true;
    macro_rules! prim {
        ($t:ty, $new:ident, $val:expr) => {{
            match encoding::$new::<Sink>(enc, min as usize, nullable) {
                Ok(e) => {
                    ensure!(enc == Encoding::Raw, "an encoder for {:?}", enc);
                    let mut b: PrimitiveBuffer<$t> = PrimitiveBuffer::new(nullable);
                    for (i, p) in pat.iter().enumerate() {
                        if *p {
                            let v: $t = $val(i);
                            b.append(v);
                            rows.push(Some(v.to_ne_bytes().to_vec()));
                        } else {
                            b.append_null();
                            rows.push(None);
                        }
                    }
                    let blocks = run_encoder(e, &[b], true)?;
                    oracle::check_column(&blocks, &rows, Some(std::mem::size_of::<$t>()), nullable)
                }
                Err(x) => {
                    ensure!(enc != Encoding::Raw, "Raw is refused: {:#}", x);
                    Ok(())
                }
            }
        }};
    }
    match ty {
        0 => prim!(i32, new_i32_encoder, |i| i as i32 * -77777),
        1 => prim!(i64, new_i64_encoder, |i| i as i64 * -7777777777),
        2 => prim!(u64, new_u64_encoder, |i| i as u64 * 7777777777),
        3 => prim!(f64, new_f64_encoder, |i| i as f64 * 0.1),
        _ => match encoding::new_binary_encoder::<Sink>(enc, min as u32, nullable) {
            Ok(e) => {
                ensure!(enc == Encoding::Raw || enc == Encoding::Snappy, "an encoder for {:?}", enc);
                if enc == Encoding::Snappy {
                    // known finding: the encoder is a stub
                    return Ok(());
                }
                let mut b = BinaryBuffer::new(nullable);
                for (i, p) in pat.iter().enumerate() {
                    if *p {
                        let v = vec![i as u8; i % 9];
                        b.append(&v);
                        rows.push(Some(v));
                    } else {
                        b.append_null();
                        rows.push(None);
                    }
                }
                let blocks = run_encoder(e, &[b], true)?;
                oracle::check_column(&blocks, &rows, None, nullable)
            }
            Err(x) => {
                ensure!(enc != Encoding::Raw && enc != Encoding::Snappy, "{:?} is refused: {:#}", enc, x);
                Ok(())
            }
        },
    }
}

/// Known finding of C17: the Snappy encoder is a stub.
pub fn known_c17() -> Outcome {
    let e = encoding::new_binary_encoder::<Sink>(Encoding::Snappy, 100, false).map_err(|e| e.to_string())?;
    let mut b = BinaryBuffer::new(false);
    b.append(b"first");
    b.append(b"second");
    let bl = run_encoder(e, &[b], true)?;
    ensure!(!bl.is_empty(), "the column [first, second] gives no block");
    ensure!(bl.last().unwrap().0 == 1, "the column [first, second] is written as {:?}", bl);
    Ok(())
}
