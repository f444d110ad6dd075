//! C10-C13: the buffers against models that are plain vectors.
use crate::cases::*;
use crate::store::indexing_buffer::*;
use crate::{ensure, fail};

fn check_bitmap(b: &Bitmap, m: &[bool]) -> Outcome {
    ensure!(b.len() == m.len(), "length {} after {} appends", b.len(), m.len());
    for (i, v) in m.iter().enumerate() {
        ensure!(b.is_set(i) == *v, "bit {} of {} is {}", i, m.len(), !*v);
    }
    Ok(())
}
fn panics<R>(f: impl FnOnce() -> R) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

/// How many to append in one step, now and then across a growth of the bitmap.
fn amount(g: &mut Gen) -> u64 {
    if g.small {
        return 1 + g.below(3);
    }
    match g.below(12) {
        0 => g.range(1000, 3000),
        1 => g.range(8000, 9000),
        2 => if g.below(10) == 0 { g.range(15000, 70000) } else if g.below(6) == 0 { g.pick(&[255u64, 256, 32768, 65535, 65536, 65537, 131072]) } else { 64 },
        _ => g.range(1, 40),
    }
}
fn bulk_bit(kind: u64, r: &mut Rng, i: u64) -> bool {
    match kind {
        0 => true,
        1 => false,
        2 => r.below(2) == 1,
        3 => r.below(100) < 5,
        _ => (i / 13) % 2 == 0,
    }
}

/// Now and then: so many rows that a model of them all would be slow.
fn huge(g: &mut Gen) -> Option<(u64, u64)> {
    if g.small || g.below(1200) != 7 {
        return None;
    }
    let n = (1 << g.range(17, 24)) + g.below(20) - g.below(20);
    let k = g.below(6);
    g.note(format!("{} rows (pattern {})", n, k));
    g.nontrivial = true;
    Some((n, k))
}
fn huge_bit(k: u64, n: u64, i: u64) -> bool {
    match k {
        0 => true,
        1 => false,
        2 => i % 2 == 0,
        3 => i % 1000 != 0,
        4 => i < n / 2,
        _ => i >= n / 2,
    }
}
fn huge_bits(b: &Bitmap, n: u64, bit: impl Fn(u64) -> bool) -> Outcome {
    ensure!(b.len() as u64 == n, "length {} after {} appends", b.len(), n);
    for i in 0..n {
        ensure!(b.is_set(i as usize) == bit(i), "bit {} of {} is {}", i, n, !bit(i));
    }
    Ok(())
}

pub fn c10(g: &mut Gen) -> Outcome {
    if let Some((n, k)) = huge(g) {
        let mut b = Bitmap::new();
        for i in 0..n {
            b.append(huge_bit(k, n, i));
        }
        huge_bits(&b, n, |i| huge_bit(k, n, i))?;
        if g.bool() {
            g.note("append_from to another bitmap, clear, append again".into());
            let from = g.below(n.min(50));
            let ones = (from..n).filter(|i| huge_bit(k, n, *i)).count();
            let end = (from..n).rev().find(|i| huge_bit(k, n, *i)).map_or(from, |i| i + 1);
            let mut t = Bitmap::with_capacity(100);
            let r = t.append_from(&b, from as usize, ones);
            ensure!(r as u64 == end, "append_from returns {}, expected {}", r, end);
            huge_bits(&t, end - from, |i| huge_bit(k, n, from + i))?;
            b.clear();
            for i in 0..n {
                b.append(!huge_bit(k, n, i));
            }
            huge_bits(&b, n, |i| !huge_bit(k, n, i))?;
        }
        return Ok(());
    }
    let mut m: Vec<bool> = vec![];
    let mut b = if g.bool() {
        g.note("new()".into());
        Bitmap::new()
    } else {
        let caps: &[u64] = if g.small { &[0, 1, 8, 9] } else { &[0, 1, 7, 8, 9, 16, 63, 64, 1000, 1024, 8192, 100000] };
        let c = g.pick(caps) as usize;
        g.note(format!("with_capacity({})", c));
        Bitmap::with_capacity(c)
    };
    let n = if g.small { 1 + g.below(3) } else { g.range(1, 14) };
    for _ in 0..n {
        match g.below(if g.small { 4 } else { 6 }) {
            0 => {
                let v = g.bool();
                g.note(format!("append({})", v));
                b.append(v);
                m.push(v);
            }
            1 => {
                let n = amount(g);
                let kind = g.below(5);
                let mut r = g.bulk();
                g.note(format!("append x{} (kind {})", n, kind));
                for i in 0..n {
                    let v = bulk_bit(kind, &mut r, i);
                    b.append(v);
                    m.push(v);
                }
            }
            2 => {
                // from another bitmap: up to k set bits from a position
                let n = amount(g);
                let kind = g.below(5);
                let mut r = g.bulk();
                let mut src = Bitmap::new();
                let mut sm = vec![];
                for i in 0..n {
                    let v = bulk_bit(kind, &mut r, i);
                    src.append(v);
                    sm.push(v);
                }
                let start = g.below(n + 1) as usize;
                let ones = sm[start..].iter().filter(|x| **x).count();
                let k = g.below(ones as u64 + 1) as usize;
                g.note(format!("append_from(bitmap of {} (kind {}), {}, {})", n, kind, start, k));
                let ret = b.append_from(&src, start, k);
                // the shortest stretch from `start` with k set bits
                let mut p = start;
                let mut c = 0;
                while c < k {
                    c += sm[p] as usize;
                    m.push(sm[p]);
                    p += 1;
                }
                ensure!(ret == p, "append_from returns {}, expected {}", ret, p);
            }
            3 => {
                g.note("clear()".into());
                b.clear();
                m.clear();
            }
            4 => {
                let k = m.len();
                ensure!(panics(|| b.is_set(k)), "is_set({}) on {} bits does not panic", k, k);
            }
            _ => {
                check_bitmap(&b, &m)?;
            }
        }
        if m.len() > 8 {
            g.nontrivial = true;
        }
    }
    check_bitmap(&b, &m)
}

// ---- C11
struct PModel<T> {
    rows: Vec<Option<T>>,
}
fn check_prim<T: Clone + PartialEq + std::fmt::Debug>(b: &PrimitiveBuffer<T>, rows: &[Option<T>], nullable: bool) -> Outcome {
    let vals: Vec<T> = rows.iter().filter_map(|x| x.clone()).collect();
    ensure!(b.values() == &vals[..], "values() has {} values, {} appended", b.values().len(), vals.len());
    ensure!(b.len() == vals.len(), "len() is {}, {} values appended", b.len(), vals.len());
    ensure!(b.num_values() == rows.len(), "num_values() is {}, {} rows appended", b.num_values(), rows.len());
    ensure!(b.is_nullable() == nullable, "is_nullable() is {}", !nullable);
    ensure!(b.has_nulls() == (vals.len() != rows.len()), "has_nulls() is {} with {} rows and {} values", b.has_nulls(), rows.len(), vals.len());
    match b.validity() {
        None => ensure!(!nullable, "nullable buffer without validity"),
        Some(v) => {
            ensure!(nullable, "validity in a buffer that is not nullable");
            check_bitmap(v, &rows.iter().map(|x| x.is_some()).collect::<Vec<_>>())?;
        }
    }
    Ok(())
}
/// A random null pattern of n rows.
pub fn nulls(g: &mut Gen, n: u64, nullable: bool) -> Vec<bool> {
    if !nullable {
        return vec![true; n as usize];
    }
    if g.small {
        return (0..n).map(|_| g.bool()).collect();
    }
    let kind = g.below(7);
    let mut r = g.bulk();
    (0..n).map(|i| match kind {
        0 => true,
        1 => false,
        2 => r.below(2) == 1,
        3 => r.below(50) != 0,
        4 => r.below(50) == 0,
        5 => i < n / 2,
        _ => i >= n / 2,
    }).collect()
}
pub fn c11(g: &mut Gen) -> Outcome {
    match g.below(2) {
        0 => c11_t::<i32>(g, |r| r.next() as i32),
        _ => c11_t::<u64>(g, |r| r.next()),
    }
}
fn c11_t<T: Clone + PartialEq + std::fmt::Debug>(g: &mut Gen, val: fn(&mut Rng) -> T) -> Outcome {
    let nullable = g.bool();
    if let Some((n, k)) = huge(g) {
        let mut r = Rng::new(k);
        let mut b: PrimitiveBuffer<T> = PrimitiveBuffer::new(nullable);
        for i in 0..n {
            if huge_bit(k, n, i) || !nullable { b.append(val(&mut r)) } else { b.append_null() }
        }
        let mut r = Rng::new(k);
        let mut p = 0;
        for i in 0..n {
            if huge_bit(k, n, i) || !nullable {
                ensure!(b.values().get(p) == Some(&val(&mut r)), "value {} of {} rows", p, n);
                p += 1;
            }
        }
        ensure!(b.len() == p && b.values().len() == p, "{} values, {} appended", b.len(), p);
        ensure!(b.num_values() as u64 == n, "num_values() is {}, {} rows appended", b.num_values(), n);
        ensure!(b.has_nulls() == (p as u64 != n), "has_nulls() is {}", b.has_nulls());
        if let Some(v) = b.validity() {
            huge_bits(v, n, |i| huge_bit(k, n, i))?;
            let mut t: PrimitiveBuffer<T> = PrimitiveBuffer::new(nullable);
            let e = t.append_from(&b, 0, p, 0);
            ensure!(e as u64 == n, "append_from returns {} of {} rows", e, n);
            ensure!(t.values() == b.values(), "append_from: {} values of {}", t.values().len(), p);
            huge_bits(t.validity().unwrap(), n, |i| huge_bit(k, n, i))?;
        }
        return Ok(());
    }
    g.note(format!("PrimitiveBuffer<{}>::new({})", std::any::type_name::<T>(), nullable));
    let mut b: PrimitiveBuffer<T> = PrimitiveBuffer::new(nullable);
    let mut m: Vec<Option<T>> = vec![];
    let mut r = Rng::new(7);
    let n = if g.small { 1 + g.below(3) } else { g.range(1, 12) };
    for _ in 0..n {
        match g.below(4) {
            0 => {
                let n = amount(g);
                let pat = nulls(g, n, nullable);
                g.note(format!("append x{}: {}", n, pat.iter().take(60).map(|x| if *x { 'v' } else { 'n' }).collect::<String>()));
                for p in pat {
                    if p {
                        let v = val(&mut r);
                        b.append(v.clone());
                        m.push(Some(v));
                    } else {
                        b.append_null();
                        m.push(None);
                    }
                }
            }
            1 => {
                // all or part of another buffer
                let n = if g.bool() { amount(g) } else { g.below(12) };
                let pat = nulls(g, n, nullable);
                let mut src: PrimitiveBuffer<T> = PrimitiveBuffer::new(nullable);
                let mut sm = vec![];
                for p in &pat {
                    if *p {
                        let v = val(&mut r);
                        src.append(v.clone());
                        sm.push(Some(v));
                    } else {
                        src.append_null();
                        sm.push(None);
                    }
                }
                // a chunk: values start..end; rows from the first row after the previous chunk
                let nv = src.len();
                let end = if g.bool() { nv } else { g.below(nv as u64 + 1) as usize };
                let start = g.below(end as u64 + 1) as usize;
                let row_at = |k: usize| -> usize {
                    // rows used by the first k values
                    if k == 0 { return 0; }
                    let mut c = 0;
                    for (i, x) in sm.iter().enumerate() {
                        c += x.is_some() as usize;
                        if c == k { return i + 1; }
                    }
                    sm.len()
                };
                let from = row_at(start);
                let to = if end == nv { sm.len() } else { row_at(end).max(from) };
                let to = if end == start && end != nv { from } else { to };
                g.note(format!("append_from(buffer {}, {}, {}, {})", pat.iter().take(60).map(|x| if *x { 'v' } else { 'n' }).collect::<String>(), start, end, from));
                let ret = b.append_from(&src, start, end, if nullable { from } else { 0 });
                m.extend_from_slice(&sm[from..to]);
                if nullable {
                    ensure!(ret == to, "append_from returns {}, expected {}", ret, to);
                }
                g.nontrivial = true;
            }
            2 => {
                g.note("clear()".into());
                b.clear();
                m.clear();
            }
            _ => {
                if !nullable {
                    ensure!(panics(|| b.append_null()), "append_null on a buffer that is not nullable does not panic");
                }
                check_prim(&b, &m, nullable)?;
            }
        }
    }
    check_prim(&b, &m, nullable)
}

// ---- C12
fn check_bin(b: &BinaryBuffer, rows: &[Option<Vec<u8>>], nullable: bool) -> Outcome {
    let vals: Vec<&Vec<u8>> = rows.iter().filter_map(|x| x.as_ref()).collect();
    ensure!(b.len() == vals.len(), "len() is {}, {} values appended", b.len(), vals.len());
    ensure!(b.num_values() == rows.len(), "num_values() is {}, {} rows appended", b.num_values(), rows.len());
    ensure!(b.is_nullable() == nullable, "is_nullable() is {}", !nullable);
    ensure!(b.has_nulls() == (vals.len() != rows.len()), "has_nulls() is {} with {} rows and {} values", b.has_nulls(), rows.len(), vals.len());
    let all: Vec<u8> = vals.iter().flat_map(|x| x.iter().copied()).collect();
    ensure!(b.data() == &all[..], "data() differs: {} bytes, {} appended", b.data().len(), all.len());
    ensure!(b.offsets().len() == vals.len() + 1, "{} offsets for {} values", b.offsets().len(), vals.len());
    let mut o = 0;
    for (i, v) in vals.iter().enumerate() {
        ensure!(b.offsets()[i] as usize == o, "offset {} is {}, expected {}", i, b.offsets()[i], o);
        ensure!(b.item_len(i) as usize == v.len(), "item_len({}) is {}, expected {}", i, b.item_len(i), v.len());
        o += v.len();
    }
    ensure!(b.offsets()[vals.len()] as usize == o, "last offset is {}, expected {}", b.offsets()[vals.len()], o);
    match b.validity() {
        None => ensure!(!nullable, "nullable buffer without validity"),
        Some(v) => {
            ensure!(nullable, "validity in a buffer that is not nullable");
            check_bitmap(v, &rows.iter().map(|x| x.is_some()).collect::<Vec<_>>())?;
        }
    }
    Ok(())
}
pub fn c12(g: &mut Gen) -> Outcome {
    let nullable = g.bool();
    g.note(format!("BinaryBuffer::new({})", nullable));
    if let Some((n, k)) = huge(g) {
        let item = |i: u64| [i as u8, (i >> 8) as u8, 7];
        let len = |i: u64| (i % 4) as usize;
        let mut b = BinaryBuffer::new(nullable);
        for i in 0..n {
            if huge_bit(k, n, i) || !nullable { b.append(&item(i)[..len(i).min(3)]) } else { b.append_null() }
        }
        let (mut p, mut at) = (0usize, 0usize);
        for i in 0..n {
            if huge_bit(k, n, i) || !nullable {
                let w = &item(i)[..len(i).min(3)];
                ensure!(b.offsets()[p] as usize == at && b.item_len(p) as usize == w.len(), "item {} of {} rows: offset {}, length {}", p, n, b.offsets()[p], b.item_len(p));
                ensure!(&b.data()[at..at + w.len()] == w, "bytes of item {} of {} rows", p, n);
                at += w.len();
                p += 1;
            }
        }
        ensure!(b.len() == p && b.data().len() == at && b.offsets().len() == p + 1, "{} values, {} appended", b.len(), p);
        ensure!(b.num_values() as u64 == n, "num_values() is {}, {} rows appended", b.num_values(), n);
        ensure!(b.has_nulls() == (p as u64 != n), "has_nulls() is {}", b.has_nulls());
        if let Some(v) = b.validity() {
            huge_bits(v, n, |i| huge_bit(k, n, i))?;
            let mut t = BinaryBuffer::new(nullable);
            let e = t.append_from(&b, 0, p, 0);
            ensure!(e as u64 == n, "append_from returns {} of {} rows", e, n);
            ensure!(t.data() == b.data() && t.offsets() == b.offsets(), "append_from: {} values of {}", t.len(), p);
            huge_bits(t.validity().unwrap(), n, |i| huge_bit(k, n, i))?;
        }
        return Ok(());
    }
    let mut b = BinaryBuffer::new(nullable);
    let mut m: Vec<Option<Vec<u8>>> = vec![];
    let mut r = Rng::new(11);
    let item = |r: &mut Rng, big: bool| -> Vec<u8> {
        let n = match r.below(8) {
            0 => 0,
            1 => 1,
            2 if big => r.below(300),
            _ => r.below(6),
        };
        (0..n).map(|_| r.next() as u8).collect()
    };
    let n = if g.small { 1 + g.below(3) } else { g.range(1, 12) };
    let big = !g.small;
    for _ in 0..n {
        match g.below(4) {
            0 => {
                let n = amount(g);
                let pat = nulls(g, n, nullable);
                g.note(format!("append x{}: {}", n, pat.iter().take(60).map(|x| if *x { 'v' } else { 'n' }).collect::<String>()));
                for p in pat {
                    if p {
                        let v = item(&mut r, big);
                        b.append(&v);
                        m.push(Some(v));
                    } else {
                        b.append_null();
                        m.push(None);
                    }
                }
            }
            1 => {
                let n = if g.bool() { amount(g) } else { g.below(12) };
                let pat = nulls(g, n, nullable);
                let mut src = BinaryBuffer::new(nullable);
                let mut sm = vec![];
                for p in &pat {
                    if *p {
                        let v = item(&mut r, big);
                        src.append(&v);
                        sm.push(Some(v));
                    } else {
                        src.append_null();
                        sm.push(None);
                    }
                }
                let nv = src.len();
                let end = if g.bool() { nv } else { g.below(nv as u64 + 1) as usize };
                let start = g.below(end as u64 + 1) as usize;
                let row_at = |k: usize| -> usize {
                    if k == 0 { return 0; }
                    let mut c = 0;
                    for (i, x) in sm.iter().enumerate() {
                        c += x.is_some() as usize;
                        if c == k { return i + 1; }
                    }
                    sm.len()
                };
                let from = row_at(start);
                let to = if end == nv { sm.len() } else if end == start { from } else { row_at(end) };
                g.note(format!("append_from(buffer {}, {}, {}, {})", pat.iter().take(60).map(|x| if *x { 'v' } else { 'n' }).collect::<String>(), start, end, from));
                let ret = b.append_from(&src, start, end, if nullable { from } else { 0 });
                m.extend_from_slice(&sm[from..to]);
                if nullable {
                    ensure!(ret == to, "append_from returns {}, expected {}", ret, to);
                }
                g.nontrivial = true;
            }
            2 => {
                g.note("clear()".into());
                b.clear();
                m.clear();
            }
            _ => {
                if !nullable {
                    ensure!(panics(|| b.append_null()), "append_null on a buffer that is not nullable does not panic");
                }
                check_bin(&b, &m, nullable)?;
            }
        }
    }
    check_bin(&b, &m, nullable)
}

// ---- C13
fn check_bool(b: &BoolBuffer, rows: &[Option<bool>], nullable: bool) -> Outcome {
    ensure!(b.len() == rows.len(), "len() is {}, {} rows appended", b.len(), rows.len());
    ensure!(b.is_nullable() == nullable, "is_nullable() is {}", !nullable);
    let vals: Vec<bool> = rows.iter().filter_map(|x| *x).collect();
    check_bitmap(b.values(), &vals).map_err(|e| format!("values: {}", e))?;
    ensure!(b.has_nulls() == (vals.len() != rows.len()), "has_nulls() is {} with {} rows and {} values", b.has_nulls(), rows.len(), vals.len());
    if nullable {
        check_bitmap(b.validity(), &rows.iter().map(|x| x.is_some()).collect::<Vec<_>>()).map_err(|e| format!("validity: {}", e))?;
    }
    Ok(())
}
pub fn c13(g: &mut Gen) -> Outcome {
    let nullable = g.bool();
    g.note(format!("BoolBuffer::new({})", nullable));
    if let Some((n, k)) = huge(g) {
        let val = |i: u64| i % 3 == 0;
        let mut b = BoolBuffer::new(nullable);
        let mut vals = vec![];
        for i in 0..n {
            if huge_bit(k, n, i) || !nullable {
                b.append(val(i));
                vals.push(val(i));
            } else {
                b.append_null()
            }
        }
        ensure!(b.len() as u64 == n, "len() is {}, {} rows appended", b.len(), n);
        ensure!(b.has_nulls() == (vals.len() as u64 != n), "has_nulls() is {}", b.has_nulls());
        huge_bits(b.values(), vals.len() as u64, |i| vals[i as usize])?;
        if nullable {
            huge_bits(b.validity(), n, |i| huge_bit(k, n, i))?;
        }
        return Ok(());
    }
    let mut b = BoolBuffer::new(nullable);
    let mut m: Vec<Option<bool>> = vec![];
    let n = if g.small { 1 + g.below(4) } else { g.range(1, 12) };
    for _ in 0..n {
        match g.below(if g.small { 2 } else { 3 }) {
            0 => {
                let n = amount(g);
                let pat = nulls(g, n, nullable);
                let kind = g.below(5);
                let mut r = g.bulk();
                g.note(format!("append x{} (kind {}): {}", n, kind, pat.iter().take(60).map(|x| if *x { 'v' } else { 'n' }).collect::<String>()));
                for (i, p) in pat.into_iter().enumerate() {
                    if p {
                        let v = bulk_bit(kind, &mut r, i as u64);
                        b.append(v);
                        m.push(Some(v));
                    } else {
                        b.append_null();
                        m.push(None);
                    }
                }
                g.nontrivial = true;
            }
            1 => {
                g.note("clear()".into());
                b.clear();
                m.clear();
            }
            _ => {
                if !nullable {
                    ensure!(panics(|| b.append_null()), "append_null on a buffer that is not nullable does not panic");
                }
                check_bool(&b, &m, nullable)?;
            }
        }
    }
    check_bool(&b, &m, nullable)
}
