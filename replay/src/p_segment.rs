//! C05, C14, C16: segments on disk, with injected failures.
use crate::cases::*;
use crate::oracle::{self, Pb, Row};
use crate::p_columns_gen as colgen;
use crate::store::block_index::BlockIndex;
use crate::store::block_sink::BlockSinkImpl;
use crate::store::encoding::{self, BlockEncoder, BlockSink};
use crate::store::indexing_buffer::*;
use crate::store::io::BlockWriter;
use crate::store::segment_metadata::{ColumnType, Encoding, IndexType};
use crate::store::segment_writer::*;
use crate::{ensure, fail, faults, scratch};
use uuid::Uuid;

struct ColSpec {
    name: String,
    ty: usize,
    enc: Encoding,
    ix: usize,
    nullable: bool,
    bufs: Vec<Vec<Row>>,
}
struct SegSpec {
    id: [u8; 16],
    db: String,
    table: String,
    shard: u32,
    rows: u32,
    cols: Vec<ColSpec>,
}
const TYPES: [ColumnType; 10] = [
    ColumnType::Bool, ColumnType::Datetime, ColumnType::Decimal, ColumnType::Dynamic, ColumnType::Float64, ColumnType::Guid,
    ColumnType::Int32, ColumnType::Int64, ColumnType::String, ColumnType::Timespan,
];
const IXS: [IndexType; 4] = [IndexType::NoIndex, IndexType::FullText, IndexType::Brin, IndexType::Kdtree];

fn name(g: &mut Gen, i: u64) -> String {
    let bases = ["a", "column", "", "\u{e9}t\u{e9}", "with space.and/slash", " x", "MixedCase", "\u{c9}T\u{c9}\n", "nul\0", "a \t", "long"];
    let base = if g.small { g.pick(&bases[..5]) } else { g.pick(&bases) };
    if base == "long" {
        let l = match g.below(60) {
            0 => (1 << g.range(17, 24)) + g.below(3),
            1 | 2 => g.range(60_000, 70_000),
            _ => g.range(100, 300),
        };
        let mut s = "abcdefghijklmnopqrstuvwxyz".repeat(l as usize / 26 + 1);
        s.truncate(l as usize);
        s.push_str(&format!("{}", i));
        return s;
    }
    let tail = if i == 0 || g.small { "" } else { g.pick(&["", " ", "\n", "Z", "\u{dc}"]) };
    if i == 0 { base.to_string() } else { format!("{}{}{}", base, i, tail) }
}
/// `big`: one in so many segments has columns of several blocks.
fn seg(g: &mut Gen, snappy: bool, max_cols: u64, big: u64) -> SegSpec {
    let mut id = [0u8; 16];
    let mut r = g.bulk();
    let k = g.below(3);
    for b in id.iter_mut() {
        *b = match k {
            0 => r.next() as u8,
            1 => 0xff,
            _ => 0xfb,
        };
    }
    let nc = if g.small { g.below(2) } else { g.below(max_cols + 1) };
    let mut cols = vec![];
    let size = if !g.small && g.below(big) == 0 { 1 << 17 } else { 20 };
    for i in 0..nc {
        let nullable = g.bool();
        let enc = if snappy && g.below(6) == 0 { Encoding::Snappy } else { Encoding::Raw };
        let bufs = if g.small { colgen::buffers(g, nullable, true, 4) } else { colgen::buffers(g, nullable, true, size) };
        let bufs: Vec<_> = bufs.into_iter().take(5).collect();
        cols.push(ColSpec { name: name(g, i), ty: g.below(10) as usize, enc, ix: g.below(4) as usize, nullable, bufs });
    }
    let s = SegSpec {
        id,
        db: name(g, 0),
        table: name(g, 0),
        shard: g.pick(&[0u32, 4, u32::MAX]),
        rows: g.pick(&[0u32, 100_000, u32::MAX]),
        cols,
    };
    g.note(format!("segment {:02x?}, {} columns: {}", s.id, s.cols.len(), s.cols.iter().map(|c| format!("{:?} {:?} nullable {}", c.name, c.enc, c.nullable)).collect::<Vec<_>>().join(", ")));
    s
}
fn buffer(rows: &[Row], nullable: bool) -> BinaryBuffer {
    let mut b = BinaryBuffer::new(nullable);
    for r in rows {
        match r {
            Some(v) => b.append(v),
            None => b.append_null(),
        }
    }
    b
}
/// What the writer said about each column while it was open.
struct Written {
    /// (last row id, end offset) per block
    index: Vec<Vec<(u32, u64)>>,
    pos: Vec<u64>,
}
/// Writes the segment up to and including `close`.
async fn write_segment(dir: &std::path::Path, s: &SegSpec) -> Result<(SegmentWriter, Written), anyhow::Error> {
    let info = SegmentInfo {
        segment_id: Uuid::from_bytes(s.id),
        database_name: s.db.clone(),
        table_name: s.table.clone(),
        shard_id: s.shard,
        num_rows: s.rows,
    };
    let mut w = SegmentWriter::new(dir, info).await?;
    let mut wr = Written { index: vec![], pos: vec![] };
    for c in &s.cols {
        let ci = ColumnInfo {
            name: c.name.clone(),
            column_type: TYPES[c.ty],
            encoding: c.enc,
            index_type: IXS[c.ix],
            nullable: c.nullable,
        };
        let mut cw = w.new_binary_column_writer(ci)?;
        for b in &c.bufs {
            cw.write(&buffer(b, c.nullable)).await?;
        }
        cw.close().await?;
        let ix = &*cw.block_sink.block_index;
        wr.index.push(ix.block_row_id.iter().copied().zip(ix.block_offset.iter().copied()).collect());
        wr.pos.push(cw.block_sink.data_writer.pos());
    }
    w.close().await?;
    Ok((w, wr))
}
fn paths(dir: &std::path::Path, id: &[u8; 16]) -> (std::path::PathBuf, std::path::PathBuf) {
    let b = oracle::b64url(id);
    (dir.join(format!("{}.dat", b)), dir.join(format!("{}.idx", b)))
}
fn check_data(data: &[u8], s: &SegSpec, w: &Written) -> Outcome {
    ensure!(data.starts_with(b"MEERKAT_DATA1"), "the data file does not begin with its signature: {:02x?}", &data[..data.len().min(16)]);
    let mut at = 13u64;
    for (c, ix) in s.cols.iter().zip(&w.index) {
        let mut blocks = vec![];
        for (i, (id, end)) in ix.iter().enumerate() {
            ensure!(*end >= at && *end <= data.len() as u64, "column {:?}: entry {} ends at {}; the block begins at {}, the file has {} bytes", c.name, i, end, at, data.len());
            blocks.push((*id, data[at as usize..*end as usize].to_vec()));
            at = *end;
        }
        if c.enc == Encoding::Raw {
            let rows: Vec<Row> = c.bufs.iter().flatten().cloned().collect();
            oracle::check_column(&blocks, &rows, None, c.nullable).map_err(|e| format!("column {:?}: {}", c.name, e))?;
        }
    }
    ensure!(at == data.len() as u64, "{} bytes of the data file belong to no block", data.len() as i64 - at as i64);
    Ok(())
}

pub fn c14(g: &mut Gen) -> Outcome {
    let d = scratch::Fresh(scratch::fresh());
    let rt = scratch::runtime();
    if g.below(3) == 0 {
        let s = seg(g, false, 4, 2);
        g.nontrivial = !s.cols.is_empty();
        let (w, wr) = match rt.block_on(write_segment(&d.0, &s)) {
            Ok(x) => x,
            Err(e) => fail!("writing fails: {:#}", e),
        };
        drop(w);
        let data = match std::fs::read(paths(&d.0, &s.id).0) {
            Ok(x) => x,
            Err(e) => fail!("the data file: {}", e),
        };
        return check_data(&data, &s, &wr);
    }
    // blocks straight into the sink
    let ncol = if g.small { 1 + g.below(2) } else { g.range(1, 4) };
    let path = d.0.join("f");
    let mut cols: Vec<Vec<(u32, Vec<u8>)>> = vec![];
    for _ in 0..ncol {
        let n = if g.small { g.below(3) } else { g.below(8) };
        let mut v = vec![];
        for i in 0..n {
            let l = if g.small { g.below(3) } else { match g.below(6) { 0 => 0, 1 => g.range(1, 10), 2 => g.range(60_000, 200_000), 3 => if g.below(8) == 0 { 5_000_000 } else { 3 }, _ => g.range(1, 3000) } };
            let id = if g.bool() { i as u32 } else { g.below(1 << 32) as u32 };
            let mut r = g.bulk();
            v.push((id, (0..l).map(|_| r.next() as u8).collect()));
        }
        g.note(format!("column of blocks {:?}", v.iter().map(|(i, b): &(u32, Vec<u8>)| (*i, b.len())).collect::<Vec<_>>()));
        cols.push(v);
    }
    let head = g.bool();
    g.nontrivial = cols.iter().any(|c| c.len() > 1);
    if g.below(4) == 0 {
        g.note("a longer file of that name is there before".into());
        std::fs::write(&path, vec![1u8; cols.iter().flatten().map(|b| b.1.len()).sum::<usize>() + 100]).unwrap();
    }
    rt.block_on(async {
        let mut w = BlockWriter::new(&path).await.map_err(|e| e.to_string())?;
        let mut ix = BlockIndex::new();
        let mut all: Vec<u8> = vec![];
        if head {
            w.write_block(b"HEAD").await.map_err(|e| e.to_string())?;
            all.extend(b"HEAD");
        }
        for c in &cols {
            ix.clear();
            let mut want = vec![];
            {
                let mut sink = BlockSinkImpl::new(&mut w, &mut ix);
                for (id, b) in c {
                    sink.write_block(*id, b).await.map_err(|e| e.to_string())?;
                    all.extend(b);
                    want.push((*id, all.len() as u64));
                }
            }
            let got: Vec<(u32, u64)> = ix.block_row_id.iter().copied().zip(ix.block_offset.iter().copied()).collect();
            ensure!(ix.block_row_id.len() == ix.block_offset.len(), "{} row ids, {} offsets", ix.block_row_id.len(), ix.block_offset.len());
            ensure!(got == want, "index entries {:?}, expected {:?}", got, want);
            ensure!(w.pos() == all.len() as u64, "pos() is {}, {} bytes were written", w.pos(), all.len());
        }
        w.flush().await.map_err(|e| e.to_string())?;
        let f = std::fs::read(&path).map_err(|e| e.to_string())?;
        ensure!(f.len() == all.len(), "the file has {} bytes, {} were written", f.len(), all.len());
        ensure!(f == all, "the file differs from the blocks written");
        Ok(())
    })
}

#[cfg(feature = "columns")]
/// A column through a column writer, its blocks read back from the file by the index.
pub fn column_on_disk(g: &mut Gen, var: bool) -> Result<crate::p_columns::Done, String> {
    let d = scratch::Fresh(scratch::fresh());
    let rt = scratch::runtime();
    let fail = |e: anyhow::Error| format!("writing fails: {:#}", e);
    g.note("through a segment, read back from the file".into());
    if var {
        let mut s = seg(g, false, 4, 2);
        if s.cols.is_empty() {
            let nullable = g.bool();
            let size = if g.bool() { 1 << 17 } else { 20 };
            s.cols.push(ColSpec { name: "a".into(), ty: 8, enc: Encoding::Raw, ix: 0, nullable, bufs: colgen::buffers(g, nullable, true, size) });
        }
        let (w, wr) = rt.block_on(write_segment(&d.0, &s)).map_err(fail)?;
        drop(w);
        let data = std::fs::read(paths(&d.0, &s.id).0).map_err(|e| e.to_string())?;
        let k = g.below(s.cols.len() as u64) as usize;
        let mut at = if k == 0 { 13 } else { wr.pos[k - 1] };
        g.note(format!("column {}", k));
        let mut blocks = vec![];
        for (i, (id, end)) in wr.index[k].iter().enumerate() {
            ensure!(*end >= at && *end <= data.len() as u64, "entry {} ends at {}; the block begins at {}, the file has {} bytes", i, end, at, data.len());
            blocks.push((*id, data[at as usize..*end as usize].to_vec()));
            at = *end;
        }
        let c = &s.cols[k];
        return Ok(crate::p_columns::Done { blocks, rows: c.bufs.iter().flatten().cloned().collect(), width: None, nullable: c.nullable, min: BLOCK_SIZE as u64 });
    }
    let nullable = g.bool();
    let c = colgen::col_shape(g, nullable, false);
    let min = c.min;
    let ty = g.below(4);
    g.note(["i32", "i64", "u64", "f64"][ty as usize].to_string());
    let info = SegmentInfo { segment_id: Uuid::from_bytes([7; 16]), database_name: "d".into(), table_name: "t".into(), shard_id: 1, num_rows: 5 };
    let mut w = rt.block_on(SegmentWriter::new(&d.0, info)).map_err(fail)?;
    let mut rows: Vec<Row> = vec![];
    fn w8(v: &Vec<u8>) -> u64 {
        let mut x = [0u8; 8];
        for (i, b) in v.iter().take(8).enumerate() {
            x[i] = *b;
        }
        u64::from_le_bytes(x)
    }
    macro_rules! prim {
        ($t:ty, $new:ident, $ct:expr, $conv:expr) => {{
            let mut bufs = vec![];
            for pat in &c.bufs {
                let mut b: PrimitiveBuffer<$t> = PrimitiveBuffer::new(nullable);
                for r in pat {
                    match r {
                        Some(v) => {
                            let v: $t = $conv(v);
                            b.append(v);
                            rows.push(Some(v.to_ne_bytes().to_vec()));
                        }
                        None => {
                            b.append_null();
                            rows.push(None);
                        }
                    }
                }
                bufs.push(b);
            }
            let mut cw = ColumnWriter {
                column_info: ColumnInfo { name: "c".into(), column_type: $ct, encoding: Encoding::Raw, index_type: IndexType::NoIndex, nullable },
                metadata: &mut w.segment_meta,
                encoder: encoding::$new(Encoding::Raw, min as usize, nullable).map_err(|e| format!("no raw encoder: {:#}", e))?,
                block_sink: BlockSinkImpl::new(&mut w.data_writer, &mut w.block_index),
                index_writer: &mut w.index_writer,
                column_index: None,
            };
            rt.block_on(async {
                for b in &bufs {
                    cw.write(b).await?;
                }
                cw.close().await
            })
            .map_err(fail)?;
            std::mem::size_of::<$t>()
        }};
    }
    let width = match ty {
        0 => prim!(i32, new_i32_encoder, ColumnType::Int32, |v| w8(v) as i32),
        1 => prim!(i64, new_i64_encoder, ColumnType::Int64, |v| w8(v) as i64),
        2 => prim!(u64, new_u64_encoder, ColumnType::Int64, |v| w8(v)),
        _ => prim!(f64, new_f64_encoder, ColumnType::Float64, |v| f64::from_bits(w8(v))),
    };
    let ix: Vec<(u32, u64)> = w.block_index.block_row_id.iter().copied().zip(w.block_index.block_offset.iter().copied()).collect();
    rt.block_on(w.close()).map_err(fail)?;
    let data = std::fs::read(paths(&d.0, &[7; 16]).0).map_err(|e| e.to_string())?;
    let mut at = 13;
    let mut blocks = vec![];
    for (i, (id, end)) in ix.iter().enumerate() {
        ensure!(*end >= at && *end <= data.len() as u64, "entry {} ends at {}; the block begins at {}, the file has {} bytes", i, end, at, data.len());
        blocks.push((*id, data[at as usize..*end as usize].to_vec()));
        at = *end;
    }
    Ok(crate::p_columns::Done { blocks, rows, width: Some(width), nullable, min })
}

#[cfg(feature = "columns")]
/// Encodings asked of the segment writer.
pub fn c17_writer(g: &mut Gen) -> Outcome {
    let d = scratch::Fresh(scratch::fresh());
    let rt = scratch::runtime();
    let encs = [Encoding::Raw, Encoding::BitPacked, Encoding::DeltaBinaryPacked, Encoding::RleDictionary, Encoding::Snappy];
    let mut s = seg(g, false, 4, 50);
    let mut kept = vec![];
    g.nontrivial = true;
    let (w, wr) = rt.block_on(async {
        let info = SegmentInfo { segment_id: Uuid::from_bytes(s.id), database_name: s.db.clone(), table_name: s.table.clone(), shard_id: s.shard, num_rows: s.rows };
        let mut w = SegmentWriter::new(&d.0, info).await.map_err(|e| format!("{:#}", e))?;
        let mut wr = Written { index: vec![], pos: vec![] };
        for mut c in std::mem::take(&mut s.cols) {
            c.enc = g.pick(&encs);
            c.ty = g.pick(&[8usize, 8, 3, 5]);
            g.note(format!("column {:?} of type {:?} asked for in {:?}, nullable {}", c.name, TYPES[c.ty], c.enc, c.nullable));
            let ci = ColumnInfo { name: c.name.clone(), column_type: TYPES[c.ty], encoding: c.enc, index_type: IXS[c.ix], nullable: c.nullable };
            match w.new_binary_column_writer(ci) {
                Ok(mut cw) => {
                    ensure!(c.enc == Encoding::Raw || c.enc == Encoding::Snappy, "a column writer for {:?}", c.enc);
                    for b in &c.bufs {
                        cw.write(&buffer(b, c.nullable)).await.map_err(|e| format!("{:#}", e))?;
                    }
                    cw.close().await.map_err(|e| format!("{:#}", e))?;
                    let ix = &*cw.block_sink.block_index;
                    wr.index.push(ix.block_row_id.iter().copied().zip(ix.block_offset.iter().copied()).collect());
                    kept.push(c);
                }
                Err(e) => ensure!(c.enc != Encoding::Raw && c.enc != Encoding::Snappy, "{:?} is refused: {:#}", c.enc, e),
            }
        }
        w.close().await.map_err(|e| format!("{:#}", e))?;
        Ok::<_, String>((w, wr))
    })?;
    drop(w);
    s.cols = kept;
    let data = std::fs::read(paths(&d.0, &s.id).0).map_err(|e| e.to_string())?;
    check_data(&data, &s, &wr)
}

fn pbs(m: &[(u64, Pb)], f: u64) -> Vec<Vec<u8>> {
    m.iter().filter_map(|(k, v)| if *k == f { if let Pb::Bytes(b) = v { Some(b.clone()) } else { None } } else { None }).collect()
}
fn check_index(idx: &[u8], s: &SegSpec) -> Outcome {
    ensure!(idx.starts_with(b"MEERKAT_IDX1"), "the index file does not begin with its signature: {:02x?}", &idx[..idx.len().min(16)]);
    ensure!(idx.len() >= 20, "an index file of {} bytes", idx.len());
    let mut p = [0u8; 8];
    p.copy_from_slice(&idx[idx.len() - 8..]);
    let pos = u64::from_le_bytes(p);
    ensure!(pos >= 12 && pos <= idx.len() as u64 - 8, "the footer points to {}, in a file of {} bytes", pos, idx.len());
    let m = oracle::pb(&idx[pos as usize..idx.len() - 8])?;
    let sm = match oracle::pb_bytes(&m, 1) {
        Some(b) => oracle::pb(&b)?,
        None => fail!("no segment metadata"),
    };
    let id = oracle::pb_bytes(&sm, 1).unwrap_or_default();
    ensure!(id == s.id, "segment id {:02x?}", id);
    ensure!(oracle::pb_str(&sm, 2) == s.db, "database name {:?}, expected {:?}", oracle::pb_str(&sm, 2), s.db);
    ensure!(oracle::pb_str(&sm, 3) == s.table, "table name {:?}, expected {:?}", oracle::pb_str(&sm, 3), s.table);
    ensure!(oracle::pb_int(&sm, 4) == s.shard as u64, "shard {}", oracle::pb_int(&sm, 4));
    ensure!(oracle::pb_int(&sm, 7) == s.rows as u64, "{} rows", oracle::pb_int(&sm, 7));
    let metas = pbs(&sm, 8);
    let lays = pbs(&m, 2);
    ensure!(metas.len() == s.cols.len(), "metadata of {} columns, {} written", metas.len(), s.cols.len());
    ensure!(lays.len() == s.cols.len(), "layout of {} columns, {} written", lays.len(), s.cols.len());
    for c in &s.cols {
        let mut found = 0;
        for b in &metas {
            let e = oracle::pb(b)?;
            if oracle::pb_str(&e, 1) != c.name {
                continue;
            }
            found += 1;
            let v = oracle::pb(&oracle::pb_bytes(&e, 2).unwrap_or_default())?;
            ensure!(oracle::pb_str(&v, 1) == c.name, "column {:?} has the name {:?}", c.name, oracle::pb_str(&v, 1));
            ensure!(oracle::pb_int(&v, 2) == c.ty as u64, "column {:?} has type {}, expected {}", c.name, oracle::pb_int(&v, 2), c.ty);
            ensure!(oracle::pb_int(&v, 3) == c.nullable as u64, "column {:?}: nullable {}", c.name, oracle::pb_int(&v, 3));
            let en = if c.enc == Encoding::Raw { 0 } else { 4 };
            ensure!(oracle::pb_int(&v, 4) == en, "column {:?} has encoding {}, expected {}", c.name, oracle::pb_int(&v, 4), en);
            ensure!(oracle::pb_int(&v, 5) == c.ix as u64, "column {:?} has index type {}, expected {}", c.name, oracle::pb_int(&v, 5), c.ix);
        }
        ensure!(found == 1, "{} metadata entries for column {:?}", found, c.name);
        let mut found = 0;
        for b in &lays {
            let e = oracle::pb(b)?;
            if oracle::pb_str(&e, 1) != c.name {
                continue;
            }
            found += 1;
            let v = oracle::pb(&oracle::pb_bytes(&e, 2).unwrap_or_default())?;
            ensure!(oracle::pb_bytes(&v, 3).is_some(), "column {:?} has no block index layout", c.name);
            let f = if c.enc == Encoding::Raw { 4 } else { 6 };
            ensure!(oracle::pb_bytes(&v, f).is_some(), "column {:?} has no encoder layout of its encoding", c.name);
        }
        ensure!(found == 1, "{} layout entries for column {:?}", found, c.name);
    }
    Ok(())
}
pub fn c16(g: &mut Gen) -> Outcome {
    let d = scratch::Fresh(scratch::fresh());
    let rt = scratch::runtime();
    let s = seg(g, true, 6, 8);
    g.nontrivial = true;
    let (dp, ip) = paths(&d.0, &s.id);
    if g.below(4) == 0 {
        g.note("files of these names, with other content, are there before".into());
        std::fs::write(&dp, vec![1u8; 700_000]).unwrap();
        std::fs::write(&ip, vec![1u8; 5000]).unwrap();
    }
    let slow = if !g.small && g.below(20) == 0 { 30 } else { 0 };
    let plan = faults::Plan { dir: d.0.to_string_lossy().into_owned(), slow_ms: slow, ..Default::default() };
    faults::set(plan);
    let r = rt.block_on(async {
        let (w, wr) = match write_segment(&d.0, &s).await {
            Ok(x) => x,
            Err(e) => fail!("writing fails: {:#}", e),
        };
        // everything is in the files when close returns
        let names: Vec<String> = std::fs::read_dir(&d.0).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
        let data = match std::fs::read(&dp) {
            Ok(x) => x,
            Err(e) => fail!("no data file {:?} ({}): {:?}", dp.file_name(), e, names),
        };
        let idx = match std::fs::read(&ip) {
            Ok(x) => x,
            Err(e) => fail!("no index file {:?} ({}): {:?}", ip.file_name(), e, names),
        };
        ensure!(names.len() == 2, "files {:?}", names);
        ensure!(data.starts_with(b"MEERKAT_DATA1"), "the data file does not begin with its signature: {:02x?}", &data[..data.len().min(16)]);
        let end = wr.pos.last().copied().unwrap_or(13);
        ensure!(data.len() as u64 == end, "after close the data file has {} bytes, {} were written", data.len(), end);
        check_index(&idx, &s)?;
        if let Err(e) = w.sync().await {
            fail!("sync fails: {:#}", e);
        }
        let p = faults::take();
        for (f, n) in [(&dp, data.len()), (&ip, idx.len())].iter() {
            let f = f.to_string_lossy().into_owned();
            ensure!(p.synced.iter().any(|(x, m)| *x == f && *m == *n as u64), "after sync, {} is not synced (synced: {:?})", f, p.synced);
        }
        ensure!(std::fs::read(&dp).ok() == Some(data), "sync changes the data file");
        ensure!(std::fs::read(&ip).ok() == Some(idx), "sync changes the index file");
        Ok(())
    });
    faults::take();
    r
}

struct FailSink {
    left: usize,
    failed: bool,
}
#[async_trait::async_trait]
impl BlockSink for FailSink {
    async fn write_block(&mut self, row_id: u32, block_data: &[u8]) -> anyhow::Result<()> {
        if self.left == 0 {
            self.failed = true;
            return Err(anyhow::anyhow!("sink"));
        }
        self.left -= 1;
        Ok(())
    }
}
async fn into_failing<B>(mut e: Box<dyn BlockEncoder<B, FailSink>>, bufs: Vec<B>, left: usize) -> Outcome {
    let mut s = FailSink { left, failed: false };
    for (i, b) in bufs.iter().enumerate() {
        let r = e.encode(b, &mut s).await;
        ensure!(r.is_err() == s.failed, "encode of buffer {} gives {:?}; a block write {}", i, r, if s.failed { "failed" } else { "did not fail" });
        if s.failed {
            return Ok(());
        }
    }
    let r = e.flush(&mut s).await;
    ensure!(r.is_err() == s.failed, "flush gives {:?}; a block write {}", r, if s.failed { "failed" } else { "did not fail" });
    Ok(())
}

/// One file, one write or fsync of which fails.
fn failing_file(g: &mut Gen, rt: &tokio::runtime::Runtime, path: &std::path::Path) -> Outcome {
    let n = if g.small { g.below(3) } else { g.below(8) };
    let ops: Vec<u64> = (0..n).map(|_| if g.small { g.below(2) * 40 } else { g.pick(&[0u64, 40, 40, 3000, 3_000_000, u64::MAX]) }).collect();
    let end = g.below(3);
    let mut plan = faults::Plan { dir: path.to_string_lossy().into_owned(), once: !g.small && g.bool(), ..Default::default() };
    if end == 2 {
        plan.fail_sync = Some("f".into());
    } else {
        plan.fail_write = Some(("f".into(), g.below(if g.small { 3 } else { 8 }) as usize));
    }
    if !g.small {
        plan.errno = g.pick(&[0, 0, libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EINVAL, libc::EROFS, libc::EFBIG]);
        plan.slow_ms = g.pick(&[0u64, 0, 0, 3]);
    }
    g.note(format!("blocks of {:?} bytes ({} is a flush), {:?} {:?} once {} errno {}", ops, u64::MAX, plan.fail_write, plan.fail_sync, plan.once, plan.errno));
    g.nontrivial = true;
    faults::set(plan);
    let failed = || faults::PLAN.lock().unwrap().as_ref().map(|p| p.failed).unwrap_or(0);
    let r = rt.block_on(async {
        let mut w = BlockWriter::new(path).await.map_err(|e| e.to_string())?;
        let mut total = 0;
        for l in ops {
            if l == u64::MAX {
                if w.flush().await.is_err() {
                    ensure!(failed() > 0, "flush fails although nothing failed");
                    return Ok(());
                }
                ensure!(failed() == 0, "a write failed and flush returns Ok");
            } else {
                if w.write_block(&vec![7u8; l as usize]).await.is_err() {
                    ensure!(failed() > 0, "write_block fails although nothing failed");
                    return Ok(());
                }
                total += l;
            }
        }
        if w.flush().await.is_err() {
            ensure!(failed() > 0, "flush fails although nothing failed");
            return Ok(());
        }
        ensure!(failed() == 0, "a write failed and flush returns Ok");
        let len = std::fs::metadata(path).map(|m| m.len()).unwrap_or(0);
        ensure!(len == total, "flush returns Ok, the file has {} bytes of {}", len, total);
        let r = w.sync().await;
        ensure!(r.is_err() == (failed() > 0), "{} fsync failed and sync gives {:?}", failed(), r);
        Ok(())
    });
    faults::take();
    r
}

/// A column index that fails at a chosen call.
struct FailIndex {
    left: usize,
    flush: bool,
    failed: std::sync::Arc<std::sync::atomic::AtomicBool>,
}
#[async_trait::async_trait]
impl crate::store::index::ColumnIndex<BinaryBuffer> for FailIndex {
    fn index(&mut self, buffer: &BinaryBuffer) -> anyhow::Result<()> {
        if self.left == 0 {
            self.failed.store(true, std::sync::atomic::Ordering::SeqCst);
            anyhow::bail!("injected");
        }
        self.left -= 1;
        Ok(())
    }
    async fn flush(&mut self, writer: &mut BlockWriter) -> anyhow::Result<crate::store::segment_metadata::column_layout::ColumnIndexLayout> {
        if self.flush {
            self.failed.store(true, std::sync::atomic::Ordering::SeqCst);
            anyhow::bail!("injected");
        }
        Ok(crate::store::segment_metadata::column_layout::ColumnIndexLayout::NoIndex(crate::store::segment_metadata::NoIndex {}))
    }
}
fn failing_index(g: &mut Gen, rt: &tokio::runtime::Runtime) -> Outcome {
    let d = scratch::Fresh(scratch::fresh());
    let nullable = g.bool();
    let bufs = colgen::buffers(g, nullable, true, 4);
    let flush = g.bool();
    let left = g.below(if g.small { 3 } else { 6 }) as usize;
    g.note(format!("the column's index fails at buffer {}{}", left, if flush { ", or when flushed" } else { "" }));
    g.nontrivial = true;
    let failed = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let has = || failed.load(std::sync::atomic::Ordering::SeqCst);
    rt.block_on(async {
        let info = SegmentInfo { segment_id: Uuid::from_bytes([3; 16]), database_name: "d".into(), table_name: "t".into(), shard_id: 1, num_rows: 5 };
        let mut w = SegmentWriter::new(&d.0, info).await.map_err(|e| format!("{:#}", e))?;
        let ci = ColumnInfo { name: "c".into(), column_type: ColumnType::String, encoding: Encoding::Raw, index_type: IndexType::FullText, nullable };
        let mut cw = w.new_binary_column_writer(ci).map_err(|e| format!("{:#}", e))?;
        cw.column_index = Some(Box::new(FailIndex { left, flush, failed: failed.clone() }));
        for b in &bufs {
            let r = cw.write(&buffer(b, nullable)).await;
            ensure!(r.is_err() == has(), "the index {} and write gives {:?}", if has() { "failed" } else { "did not fail" }, r);
            if r.is_err() {
                return Ok(());
            }
        }
        let r = cw.close().await;
        ensure!(r.is_err() == has(), "the index {} and close gives {:?}", if has() { "failed" } else { "did not fail" }, r);
        Ok(())
    })
}

pub fn c05(g: &mut Gen) -> Outcome {
    let rt = scratch::runtime();
    if g.below(8) == 7 {
        return failing_index(g, &rt);
    }
    if g.below(3) == 0 {
        // a sink that fails
        let nullable = g.bool();
        let var = g.bool();
        let sh = colgen::col_shape(g, nullable, var);
        let left = g.below(if g.small { 3 } else { 8 }) as usize;
        g.note(format!("the write of block {} fails", left));
        g.nontrivial = true;
        if var {
            let bufs = sh.bufs.iter().map(|b| buffer(b, nullable)).collect();
            let enc = if !g.small && g.below(4) == 0 { Encoding::Snappy } else { Encoding::Raw };
            let e = encoding::new_binary_encoder::<FailSink>(enc, sh.min as u32, nullable).map_err(|e| e.to_string())?;
            return rt.block_on(into_failing(e, bufs, left));
        }
        let mut bufs = vec![];
        for b in &sh.bufs {
            let mut p: PrimitiveBuffer<u64> = PrimitiveBuffer::new(nullable);
            for r in b {
                match r {
                    Some(v) => p.append(v[0] as u64),
                    None => p.append_null(),
                }
            }
            bufs.push(p);
        }
        let e = encoding::new_u64_encoder::<FailSink>(Encoding::Raw, sh.min as usize, nullable).map_err(|e| e.to_string())?;
        return rt.block_on(into_failing(e, bufs, left));
    }
    let d = scratch::Fresh(scratch::fresh());
    if g.below(4) == 0 {
        return failing_file(g, &rt, &d.0.join("f"));
    }
    let s = seg(g, true, 2, 3);
    let (dp, ip) = paths(&d.0, &s.id);
    if !g.small && g.below(12) == 0 {
        let which = g.below(3);
        g.note(format!("{} cannot be created", ["the data file", "the index file", "any file"][which as usize]));
        g.nontrivial = true;
        let at = match which {
            0 => { std::fs::create_dir(&dp).unwrap(); d.0.clone() }
            1 => { std::fs::create_dir(&ip).unwrap(); d.0.clone() }
            _ => d.0.join("missing"),
        };
        ensure!(rt.block_on(write_segment(&at, &s)).is_err(), "a file cannot be created, and every call up to close returned Ok");
        return Ok(());
    }
    let mut plan = faults::Plan { dir: d.0.to_string_lossy().into_owned(), ..Default::default() };
    let which = g.pick(&[".dat", ".idx"]);
    let sync = g.below(5) == 0;
    if sync {
        plan.fail_sync = Some(which.into());
        g.note(format!("fsync of the {} file fails", which));
    } else {
        let k = g.below(if g.small { 4 } else { 7 }) as usize;
        plan.fail_write = Some((which.into(), k));
        plan.slow_ms = if g.small { 0 } else { g.pick(&[0u64, 0, 5]) };
        if g.below(3) == 0 {
            plan.short_write = Some(g.pick(&[1usize, 10, 10_000]).max(if g.small { 1 } else { 10_000 }));
        }
        plan.once = !g.small && g.bool();
        g.note(format!("write {} to the {} file{} fails (short writes {:?})", k, which, if plan.once { "" } else { ", and every one that follows," }, plan.short_write));
    }
    if !g.small {
        plan.errno = g.pick(&[0, 0, libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EINVAL, libc::EROFS, libc::EFBIG]);
        g.note(format!("errno {}", plan.errno));
    }
    faults::set(plan);
    let r = rt.block_on(async {
        let w = write_segment(&d.0, &s).await;
        let n = faults::PLAN.lock().unwrap().as_ref().map(|p| p.failed).unwrap_or(0);
        match w {
            Err(e) => {
                ensure!(n > 0, "an error without a failed write: {:#}", e);
                Ok(())
            }
            Ok((w, wr)) => {
                ensure!(n == 0, "a write failed, and every call up to close returned Ok");
                let data = std::fs::read(&dp).map_err(|e| e.to_string())?;
                let idx = std::fs::read(&ip).map_err(|e| e.to_string())?;
                check_data(&data, &s, &wr)?;
                check_index(&idx, &s)?;
                let r = w.sync().await;
                let n = faults::PLAN.lock().unwrap().as_ref().map(|p| p.failed).unwrap_or(0);
                ensure!(r.is_err() == (n > 0), "{} fsync failed and sync gives {:?}", n, r);
                Ok(())
            }
        }
    });
    g.nontrivial = true;
    faults::take();
    r
}
