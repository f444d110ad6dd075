//! Reference decoders, written from the format descriptions and independent of
//! the code under test.
#![allow(dead_code)]

/// LEB128.
pub fn varint(b: &[u8]) -> Result<(u64, usize), String> {
    let mut v: u128 = 0;
    for i in 0..b.len().min(10) {
        v |= ((b[i] & 0x7f) as u128) << (7 * i);
        if b[i] < 0x80 {
            if v > u64::MAX as u128 {
                return Err("varint overflow".into());
            }
            return Ok((v as u64, i + 1));
        }
    }
    Err("unterminated varint".into())
}
pub fn put_varint(mut v: u64) -> Vec<u8> {
    let mut r = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            r.push(b);
            return r;
        }
        r.push(b | 0x80);
    }
}

/// The bytes of a run-length encoded bitmap.
pub fn rle_bytes(mut b: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        let (h, n) = varint(b)?;
        b = &b[n..];
        let len = (h >> 1) as usize;
        if len > 1 << 28 {
            return Err(format!("frame of {} bytes", len));
        }
        if h & 1 == 1 {
            if b.len() < len {
                return Err("literal frame cut short".into());
            }
            out.extend_from_slice(&b[..len]);
            b = &b[len..];
        } else {
            if b.is_empty() {
                return Err("run frame without its byte".into());
            }
            out.resize(out.len() + len, b[0]);
            b = &b[1..];
        }
    }
    Ok(out)
}
pub fn bits(bytes: &[u8]) -> Vec<bool> {
    let mut r = Vec::with_capacity(bytes.len() * 8);
    for b in bytes {
        for k in 0..8 {
            r.push(b >> k & 1 == 1);
        }
    }
    r
}

/// The lengths section: a width byte and ceil(n / 128) chunks of 16 * width
/// bytes. Returns the lengths, the width and the bytes used.
pub fn lengths(b: &[u8], n: usize) -> Result<(Vec<u32>, u8, usize), String> {
    use bitpacking::{BitPacker, BitPacker4x};
    if b.is_empty() {
        return Err("no width byte".into());
    }
    let w = b[0];
    if w > 32 {
        return Err(format!("width {}", w));
    }
    let chunks = (n + 127) / 128;
    let used = 1 + chunks * 16 * w as usize;
    if b.len() < used {
        return Err(format!("lengths section cut short: {} of {} bytes", b.len(), used));
    }
    let bp = BitPacker4x::new();
    let mut out = vec![0u32; chunks * 128];
    for c in 0..chunks {
        let s = 1 + c * 16 * w as usize;
        bp.decompress(&b[s..s + 16 * w as usize], &mut out[c * 128..(c + 1) * 128], w);
    }
    out.truncate(n);
    Ok((out, w, used))
}

pub struct Block {
    /// the values' bytes
    pub data: Vec<u8>,
    pub lens: Option<Vec<u32>>,
    /// one bit per row, padded to a byte; None when not nullable
    pub valid: Option<Vec<bool>>,
}

pub fn fixed_block(b: &[u8], nullable: bool) -> Result<Block, String> {
    let (n, k) = varint(b)?;
    let b = &b[k..];
    if (b.len() as u64) < n {
        return Err(format!("block of {} bytes announces {} bytes of data", b.len(), n));
    }
    let (data, rest) = b.split_at(n as usize);
    tail(data, None, rest, nullable)
}
/// `n`: the number of values in the block.
pub fn var_block(b: &[u8], n: usize, nullable: bool) -> Result<Block, String> {
    let (len, k) = varint(b)?;
    let b = &b[k..];
    if (b.len() as u64) < len {
        return Err(format!("block of {} bytes announces {} bytes of data", b.len(), len));
    }
    let (data, rest) = b.split_at(len as usize);
    let (lens, _, used) = lengths(rest, n)?;
    tail(data, Some(lens), &rest[used..], nullable)
}
fn tail(data: &[u8], lens: Option<Vec<u32>>, rest: &[u8], nullable: bool) -> Result<Block, String> {
    let valid = if nullable {
        Some(bits(&rle_bytes(rest)?))
    } else {
        if !rest.is_empty() {
            return Err(format!("{} bytes after the data of a block without nulls", rest.len()));
        }
        None
    };
    Ok(Block { data: data.to_vec(), lens, valid })
}

/// A row: None for a null, or the bytes of the value.
pub type Row = Option<Vec<u8>>;

/// Do the blocks, with the row id of each one's last row, hold exactly these
/// rows? `width`: Some(bytes per value) for fixed-width columns.
pub fn check_column(blocks: &[(u32, Vec<u8>)], rows: &[Row], width: Option<usize>, nullable: bool) -> Result<(), String> {
    let mut at = 0usize;
    for (i, (id, b)) in blocks.iter().enumerate() {
        let end = *id as usize + 1;
        if end <= at && !(end == at) {
            return Err(format!("block {}: last row id {} after row {}", i, id, at));
        }
        if end > rows.len() {
            return Err(format!("block {}: last row id {} but the column has {} rows", i, id, rows.len()));
        }
        if end == at {
            return Err(format!("block {}: last row id {} repeats: no rows", i, id));
        }
        check_block(b, &rows[at..end], width, nullable).map_err(|e| format!("block {} (rows {}..{}): {}", i, at, end, e))?;
        at = end;
    }
    if at != rows.len() {
        return Err(format!("the blocks hold {} of {} rows", at, rows.len()));
    }
    Ok(())
}

pub fn check_block(b: &[u8], rows: &[Row], width: Option<usize>, nullable: bool) -> Result<(), String> {
    let vals: Vec<&Vec<u8>> = rows.iter().filter_map(|r| r.as_ref()).collect();
    let blk = match width {
        Some(_) => fixed_block(b, nullable)?,
        None => var_block(b, vals.len(), nullable)?,
    };
    let want: Vec<u8> = vals.iter().flat_map(|v| v.iter().copied()).collect();
    if blk.data != want {
        let k = blk.data.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("data of {} bytes, expected {}; first difference at byte {}", blk.data.len(), want.len(), k));
    }
    if let Some(l) = &blk.lens {
        for (i, v) in vals.iter().enumerate() {
            if l[i] as usize != v.len() {
                return Err(format!("value {} has length {} in the block, {} in the column", i, l[i], v.len()));
            }
        }
    }
    if let Some(v) = &blk.valid {
        if v.len() < rows.len() || v.len() >= rows.len() + 8 {
            return Err(format!("validity of {} bits for {} rows", v.len(), rows.len()));
        }
        for (i, r) in rows.iter().enumerate() {
            if v[i] != r.is_some() {
                return Err(format!("row {} is {} in the block", i, if v[i] { "a value" } else { "null" }));
            }
        }
        if v[rows.len()..].iter().any(|x| *x) {
            return Err("a bit is set after the last row".into());
        }
    }
    Ok(())
}

/// Bytes of values in a block, and the length of the last value.
pub fn data_len(b: &[u8]) -> Result<usize, String> {
    Ok(varint(b)?.0 as usize)
}

// ---- protobuf -----------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum Pb {
    Int(u64),
    Bytes(Vec<u8>),
}
pub fn pb(mut b: &[u8]) -> Result<Vec<(u64, Pb)>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        let (k, n) = varint(b)?;
        b = &b[n..];
        match k & 7 {
            0 => {
                let (v, n) = varint(b)?;
                b = &b[n..];
                out.push((k >> 3, Pb::Int(v)));
            }
            2 => {
                let (l, n) = varint(b)?;
                b = &b[n..];
                if (b.len() as u64) < l {
                    return Err("protobuf field cut short".into());
                }
                out.push((k >> 3, Pb::Bytes(b[..l as usize].to_vec())));
                b = &b[l as usize..];
            }
            w => return Err(format!("protobuf wire type {}", w)),
        }
    }
    Ok(out)
}
/// The last value of a field.
pub fn pb_bytes(m: &[(u64, Pb)], f: u64) -> Option<Vec<u8>> {
    m.iter().rev().find_map(|(k, v)| if *k == f { if let Pb::Bytes(b) = v { Some(b.clone()) } else { None } } else { None })
}
pub fn pb_int(m: &[(u64, Pb)], f: u64) -> u64 {
    m.iter().rev().find_map(|(k, v)| if *k == f { if let Pb::Int(b) = v { Some(*b) } else { None } } else { None }).unwrap_or(0)
}
pub fn pb_str(m: &[(u64, Pb)], f: u64) -> String {
    String::from_utf8_lossy(&pb_bytes(m, f).unwrap_or_default()).into_owned()
}

/// URL-safe base64 without padding.
pub fn b64url(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            s.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    s
}
