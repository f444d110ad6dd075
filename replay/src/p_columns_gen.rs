//! Random columns: buffers of rows.
use crate::cases::*;
use crate::oracle::Row;

/// A random null pattern of n rows.
pub fn nulls(g: &mut Gen, n: u64, nullable: bool) -> Vec<bool> {
    if !nullable {
        return vec![true; n as usize];
    }
    if g.small {
        return (0..n).map(|_| g.bool()).collect();
    }
    let kind = g.below(10);
    let mut r = g.bulk();
    let few = 1 + r.below(5);
    (0..n).map(|i| match kind {
        0 => true,
        1 => false,
        2 => r.below(2) == 1,
        3 => r.below(50) != 0,
        4 => r.below(50) == 0,
        5 => i < n / 2,
        6 => i >= n - few.min(n),
        7 => i < few,
        8 => i < few || i >= n - few.min(n),
        _ => i >= n / 2,
    }).collect()
}

pub struct Shape {
    pub min: u64,
    pub bufs: Vec<Vec<Row>>,
}
/// A column: the block size and buffers of rows. The values of fixed-width
/// columns have 8 bytes here; narrower types use the first ones.
pub fn col_shape(g: &mut Gen, nullable: bool, var: bool) -> Shape {
    let min = if g.small {
        g.pick(&[1u64, 4, 9])
    } else {
        match g.below(8) {
            0 => 1 << 17,
            1 => g.range(1, 10),
            2 => g.range(1, 4096),
            _ => g.range(1, 200),
        }
    };
    let bufs = buffers(g, nullable, var, min);
    Shape { min, bufs }
}
pub fn buffers(g: &mut Gen, nullable: bool, var: bool, min: u64) -> Vec<Vec<Row>> {
    let nb = if g.small { g.below(3) } else if g.below(20) == 0 { g.range(7, 30) } else { g.range(0, 6) };
    let mut bufs = vec![];
    for i in 0..nb {
        let n = if g.small {
            g.below(3)
        } else {
            match g.below(10) {
                0 => 0,
                1 => g.range(1000, 3000),
                2 => if g.below(10) == 0 { g.range(8000, 40000) } else if g.below(15) == 0 { if g.below(3) == 0 { g.range(131_000, 140_000) } else { g.range(65_500, 70_000) } } else { 1 },
                3 => min / 4 * g.below(4),
                _ => g.range(1, 60),
            }
        }.min(140_000);
        // now and then millions of nulls
        let sea = nullable && !g.small && g.below(500) == 7;
        let n = if sea { (1 << g.range(18, 22)) + g.below(300) } else { n };
        let pat = if sea {
            let (k, few) = (g.below(4), g.range(1, 9));
            (0..n).map(|i| match k {
                0 => false,
                1 => i < few,
                2 => i >= n - few,
                _ => i < few || i >= n - few,
            }).collect()
        } else {
            nulls(g, n, nullable)
        };
        let kind = if g.small { g.below(3) } else { g.below(9) };
        let mut r = g.bulk();
        // now and then a very long value
        let huge = if var && !g.small && n > 0 && g.below(300) == 0 { g.pick(&[1u64 << 15, 1 << 16, 1 << 20, 1 << 23, 1 << 24, 1 << 25]) + g.below(9) } else { 0 };
        let mut huge_at = if huge > 0 { r.below(n.min(40)) } else { u64::MAX };
        let ml = if var && !g.small { g.range(0, 2 * min.min(600) + 8) } else { 3 };
        let rows: Vec<Row> = pat.iter().map(|p| {
            if huge_at == 0 && *p {
                huge_at = u64::MAX;
                return Some(vec![b'h'; huge as usize]);
            }
            huge_at = huge_at.saturating_sub((huge_at != u64::MAX && huge_at > 0) as u64);
            if !*p {
                return None;
            }
            if var {
                let l = match kind {
                    0 => 1 + r.below(ml + 1),
                    1 => 0,
                    2 => if r.below(3) == 0 { ml } else { 0 },
                    3 => ml,
                    4 => if r.below(40) == 0 { 70000 } else { 0 },
                    5 => r.below(4),
                    _ => r.below(ml + 1),
                };
                // about 4 MB per column at most
                let l = if n > 200 { l.min(4_000_000 / n) } else { l };
                let b = r.next();
                Some((0..l).map(|k| (b.wrapping_add(k) % 251) as u8).collect())
            } else {
                let v = match kind {
                    0 => r.next(),
                    1 => r.below(3).wrapping_sub(1),
                    2 => 1 << 63 | r.below(2),
                    3 => i64::MAX as u64,
                    4 => i32::MIN as i64 as u64,
                    5 => f64::NAN.to_bits(),
                    6 => (r.below(1000) as f64).to_bits(),
                    _ => r.next() >> r.below(64),
                };
                Some(v.to_le_bytes().to_vec())
            }
        }).collect();
        g.note(format!("buffer {}: {} rows {}", i, n, show(&rows, var)));
        bufs.push(rows);
    }
    g.note(format!("{}, block size {}", if nullable { "nullable" } else { "not nullable" }, min));
    bufs
}
pub fn show(rows: &[Row], var: bool) -> String {
    let mut s = String::from("[");
    for r in rows.iter().take(24) {
        match r {
            None => s.push_str("null "),
            Some(v) if var && v.len() > 6 => s.push_str(&format!("<{} bytes> ", v.len())),
            Some(v) => s.push_str(&format!("{:02x?} ", v).replace(", ", " ")),
        }
    }
    if rows.len() > 24 {
        s.push_str("...");
    }
    s.push(']');
    s
}
