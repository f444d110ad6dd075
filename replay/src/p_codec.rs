//! C06-C09: bitmap compression, varints, item lengths.
use crate::cases::*;
use crate::oracle;
use crate::store::encoding::{bitmap_rle, offsets, varint};
use crate::store::indexing_buffer::Bitmap;
use crate::{ensure, fail};

/// Stretches of rows, byte-aligned or not.
fn bit_string(g: &mut Gen) -> Vec<bool> {
    let mut bits = vec![];
    if g.small {
        // bytes from a small alphabet, and a few bits
        let n = g.below(6);
        for _ in 0..n {
            let b = g.pick(&[0u8, 0xff, 0x01]);
            bits.extend(oracle::bits(&[b]));
        }
        let k = g.pick(&[0u64, 1, 7]);
        for i in 0..k {
            bits.push((i + n) % 2 == 0);
        }
        return bits;
    }
    if g.below(150) == 0 {
        // one very long stretch, of equal or of other bytes
        let kind = g.below(3);
        let len = if kind < 2 && g.below(3) == 0 {
            // up to 2^24 rows
            (1usize << g.range(17, 21)) + g.below(3) as usize
        } else {
            g.pick(&[65_534u64, 65_535, 65_536, 65_540, 131_072, 70_000]) as usize
        };
        let mut r = g.bulk();
        bits.resize(g.below(2) as usize * 8, true);
        match kind {
            0 => bits.resize(bits.len() + len * 8, false),
            1 => bits.resize(bits.len() + len * 8, true),
            _ => {
                for i in 0..len {
                    bits.extend(oracle::bits(&[i as u8 ^ (r.next() as u8 & 0xf0)]));
                }
            }
        }
        bits.push(true);
        bits.resize(bits.len() + g.below(10) as usize, g.bool());
        return bits;
    }
    let n = g.range(1, 10);
    for _ in 0..n {
        let len = match g.below(10) {
            0 => 62 + g.below(5),
            1 => 126 + g.below(5),
            2 => if g.below(20) == 0 { 8190 + g.below(5) } else { 3 },
            3 => g.range(20, 300),
            _ => g.range(1, 6),
        };
        match g.below(6) {
            0 => bits.resize(bits.len() + len as usize * 8, false),
            1 => bits.resize(bits.len() + len as usize * 8, true),
            2 => {
                let b = g.below(256) as u8;
                for _ in 0..len {
                    bits.extend(oracle::bits(&[b]));
                }
            }
            3 => {
                let mut r = g.bulk();
                for _ in 0..len {
                    bits.extend(oracle::bits(&[r.next() as u8]));
                }
            }
            4 => {
                let mut r = g.bulk();
                for _ in 0..len {
                    // few distinct bytes: short runs
                    bits.extend(oracle::bits(&[r.below(2) as u8 * 0x55]));
                }
            }
            _ => {
                let v = g.bool();
                let k = g.below(8);
                for _ in 0..k {
                    bits.push(v);
                }
            }
        }
    }
    bits
}
fn show(b: &[bool]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < b.len() && s.len() < 400 {
        let mut j = i;
        while j < b.len() && b[j] == b[i] {
            j += 1;
        }
        s.push_str(&format!("{}x{} ", b[i] as u8, j - i));
        i = j;
    }
    s
}
fn put_all(g: &mut Gen, e: &mut bitmap_rle::Encoder, bits: &[bool]) -> Outcome {
    if g.bool() {
        for b in bits {
            e.put(*b);
        }
        return Ok(());
    }
    // from a bitmap, in two steps
    let mut bm = Bitmap::new();
    for b in bits {
        bm.append(*b);
    }
    let ones = bits.iter().filter(|x| **x).count() as u64;
    let k = g.below(ones + 1) as usize;
    let p = e.put_from(&bm, 0, k);
    let want = if k == 0 { 0 } else { bits.iter().enumerate().filter(|x| *x.1).nth(k - 1).unwrap().0 + 1 };
    ensure!(p == want, "put_from({} values) returns {}, expected {}", k, p, want);
    let p = e.put_from(&bm, p, ones as usize - k);
    for b in &bits[p..] {
        e.put(*b);
    }
    Ok(())
}
fn check_encoded(enc: &[u8], bits: &[bool]) -> Outcome {
    let bytes = oracle::rle_bytes(enc)?;
    ensure!(bytes.len() == (bits.len() + 7) / 8, "{} bytes for {} bits", bytes.len(), bits.len());
    let got = oracle::bits(&bytes);
    for (i, b) in got.iter().enumerate() {
        let w = bits.get(i).copied().unwrap_or(false);
        ensure!(*b == w, "bit {} of {} decodes to {}", i, bits.len(), b);
    }
    Ok(())
}
pub fn c06(g: &mut Gen) -> Outcome {
    let mut e = bitmap_rle::Encoder::new();
    let rounds = if g.small { 1 + g.below(2) } else { g.range(1, 3) };
    for k in 0..rounds {
        if k > 0 {
            e.clear();
        }
        let bits = bit_string(g);
        g.note(format!("round {}: {}", k, show(&bits)));
        put_all(g, &mut e, &bits)?;
        e.flush();
        let enc = e.encoded_values().to_vec();
        check_encoded(&enc, &bits)?;
        let want: Vec<u32> = bits.iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u32).collect();
        let mut out = vec![0xdead_beefu32; want.len()];
        bitmap_rle::decode(&enc, &mut out);
        if out != want {
            let i = out.iter().zip(&want).take_while(|(a, b)| a == b).count();
            fail!("decode: position {} of {} is {}, expected {}", i, want.len(), out[i], want[i]);
        }
        if bits.len() > 16 {
            g.nontrivial = true;
        }
    }
    // frames the encoder itself may not produce
    if g.below(4) == 0 {
        let n = 1 + g.below(3);
        let mut enc = vec![];
        let mut pos = 0u64;
        let mut want: Vec<u32> = vec![];
        for _ in 0..n {
            let mut len = if g.small { g.below(3) } else { g.pick(&[0u64, 1, 2, 63, 64, 65, 127, 128, 200]) };
            let run = g.bool();
            let mut r = g.bulk();
            let b = if run { g.pick(&[0u8, 0xff, 0x81, 0x10]) } else { 0 };
            if run && b == 0 && !g.small && g.below(4) == 0 {
                // a very long stretch without values: up to 2^29 rows
                len = (1 << g.range(8, 26)) + g.below(3);
            }
            enc.extend(oracle::put_varint(len << 1 | !run as u64));
            if run {
                enc.push(b);
            }
            if run && b == 0 {
                pos += 8 * len;
                continue;
            }
            for _ in 0..len {
                let b = if run { b } else { r.next() as u8 };
                if !run {
                    enc.push(b);
                }
                if b == 0 {
                    pos += 8;
                    continue;
                }
                for k in 0..8 {
                    if b >> k & 1 == 1 {
                        want.push(pos as u32);
                    }
                    pos += 1;
                }
            }
        }
        g.note(format!("decode frames {:02x?}", enc));
        let mut out = vec![0u32; want.len()];
        bitmap_rle::decode(&enc, &mut out);
        ensure!(out == want, "decode of frames differs");
    }
    Ok(())
}
pub fn c07(g: &mut Gen) -> Outcome {
    let bits = bit_string(g);
    g.note(show(&bits));
    let mut e = bitmap_rle::Encoder::new();
    if g.bool() {
        // reused encoder
        for _ in 0..g.below(40) {
            e.put(true);
        }
        e.flush();
        e.clear();
    }
    for b in &bits {
        e.put(*b);
    }
    e.flush();
    let n = (bits.len() + 7) / 8;
    let len = e.encoded_values().len();
    ensure!(len <= n + n / 64 + 1, "{} bytes of bitmap take {} bytes encoded", n, len);
    // stretches of equal bytes
    let mut bytes = vec![0u8; n];
    for (i, b) in bits.iter().enumerate() {
        bytes[i / 8] |= (*b as u8) << (i % 8);
    }
    let s = if n == 0 { 0 } else { 1 + bytes.windows(2).filter(|w| w[0] != w[1]).count() };
    ensure!(len <= 12 * s, "{} stretches of equal bytes take {} bytes encoded", s, len);
    g.nontrivial = n > 2;
    Ok(())
}
fn num(g: &mut Gen) -> u64 {
    if g.small {
        let k = g.below(64);
        let d = g.below(3);
        return (1u64 << k).wrapping_add(d).wrapping_sub(1);
    }
    match g.below(4) {
        0 => {
            let k = g.below(64);
            (1u64 << k).wrapping_sub(g.below(3)).wrapping_add(g.below(3))
        }
        1 => g.below(u64::MAX) >> g.below(64),
        2 => u64::MAX - g.below(300),
        _ => g.below(70000),
    }
}
pub fn c08(g: &mut Gen) -> Outcome {
    use varint::Encoder as _;
    let n = if g.small { 1 } else { g.range(1, 20) };
    let mut all: Vec<u8> = vec![];
    let mut vs = vec![];
    for _ in 0..n {
        let v = num(g);
        g.note(format!("{}", v));
        let want = oracle::put_varint(v);
        let mut buf = [0xAAu8; 16];
        let k = varint::encode_varint(v, &mut buf);
        ensure!(buf[..k.min(16)] == want[..], "encode_varint({}) gives {:02x?}, expected {:02x?}", v, &buf[..k.min(16)], want);
        ensure!(buf[k..].iter().all(|x| *x == 0xAA), "encode_varint({}) writes beyond its {} bytes", v, k);
        ensure!(varint::encoded_len_varint(v) == want.len(), "encoded_len_varint({}) is {}", v, varint::encoded_len_varint(v));
        let mut tail = want.clone();
        for _ in 0..g.below(3) {
            tail.push(g.below(256) as u8);
        }
        match varint::decode_varint(&tail) {
            Ok((x, k)) => ensure!(x == v && k == want.len(), "decode_varint({:02x?}) gives ({}, {}), expected ({}, {})", tail, x, k, v, want.len()),
            Err(e) => fail!("decode_varint({:02x?}) fails: {}", tail, e),
        }
        all.put_varint(v);
        vs.push(v);
        g.nontrivial = true;
    }
    let mut b = &all[..];
    for v in &vs {
        match varint::decode_varint(b) {
            Ok((x, k)) => {
                ensure!(x == *v, "put_varint({}) decodes to {}", v, x);
                b = &b[k..];
            }
            Err(e) => fail!("put_varint({}) does not decode: {}", v, e),
        }
    }
    ensure!(b.is_empty(), "{} bytes after the last varint", b.len());
    // too long: an error, not a wrong number
    let mut bad: Vec<u8> = vec![];
    let style = g.below(3);
    for _ in 0..10 {
        bad.push(match if g.small { style } else { g.below(3) } {
            0 => 0x80,
            1 => 0xff,
            _ if g.small => 0x81,
            _ => 0x80 + g.below(128) as u8,
        });
    }
    for _ in 0..g.below(3) {
        bad.push(g.below(256) as u8);
    }
    if let Ok((x, k)) = varint::decode_varint(&bad) {
        fail!("decode_varint({:02x?}) gives ({}, {}) although ten bytes do not end the number", bad, x, k);
    }
    Ok(())
}
pub fn c09(g: &mut Gen) -> Outcome {
    let mut e = offsets::OffsetEncoder::new();
    let rounds = 1 + g.below(2);
    for _ in 0..rounds {
        let n = if g.small { g.pick(&[0u64, 1, 2, 127, 128, 129]) } else { match g.below(4) { 0 => g.range(0, 10), 1 => g.range(120, 136), 2 => g.range(250, 400), _ => if g.below(30) == 0 { g.range(1000, 20000) } else if g.below(150) == 0 { (1 << g.range(15, 21)) + g.below(300) } else { g.range(0, 300) } } };
        // 32 bits: see known()
        let bits = if g.small { g.pick(&[0u64, 1, 8, 31]) } else { g.below(32) };
        let mut r = g.bulk();
        let one = g.bool();
        let mut l: Vec<u32> = (0..n).map(|_| if one { 1 } else { r.next() } as u32 & (((1u64 << bits) - 1) as u32)).collect();
        if n > 0 && bits > 0 && g.bool() {
            // a single wide value somewhere
            let i = if g.below(3) == 0 { n as usize - 1 } else { g.below(n) as usize };
            l[i] = ((1u64 << bits) - 1) as u32;
            g.note(format!("value {} is {}", i, l[i]));
        }
        g.note(format!("{} lengths of up to {} bits: {:?}", n, bits, &l[..l.len().min(20)]));
        let mut src = l.clone();
        let prefix: Vec<u8> = (0..g.below(4)).map(|x| x as u8 + 1).collect();
        let mut dst = prefix.clone();
        e.encode(&mut src, &mut dst);
        ensure!(dst.len() > prefix.len() && dst[..prefix.len()] == prefix[..], "what was in the destination is gone");
        let sec = &dst[prefix.len()..];
        let (got, w, used) = oracle::lengths(sec, l.len())?;
        ensure!(used == sec.len(), "section of {} bytes, {} used", sec.len(), used);
        if got != l {
            let i = got.iter().zip(&l).take_while(|(a, b)| a == b).count();
            fail!("length {} of {} decodes to {}, expected {}", i, l.len(), got[i], l[i]);
        }
        let need = l.iter().map(|x| 32 - x.leading_zeros()).max().unwrap_or(0) as u8;
        ensure!(w == need, "width {} for values of {} bits", w, need);
        g.nontrivial |= n > 0 && bits > 0;
    }
    Ok(())
}

/// Known finding of C09: with a length of 2^31 or more the width is 32, and
/// BitPacker4x of bitpacking 0.5.1 drops the first four values of each chunk.
pub fn known_c09() -> Outcome {
    let mut e = offsets::OffsetEncoder::new();
    let l: Vec<u32> = vec![0x8000_0000, 1, 2, 3, 4, 5];
    let mut src = l.clone();
    let mut dst = vec![];
    e.encode(&mut src, &mut dst);
    let (got, _, _) = oracle::lengths(&dst, l.len())?;
    ensure!(got == l, "the lengths {:?} decode to {:?}", l, got);
    Ok(())
}
