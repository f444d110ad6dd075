//! C15: block reads.
use crate::cases::*;
use crate::store::io::unix_disk_block_reader::Reader;
use crate::store::io::{BlockRange, BlockReader, OpInfo, ReadOp};
use crate::{ensure, fail, faults, scratch};
use futures::StreamExt;

fn content(n: u64, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    (0..n).map(|_| r.next() as u8).collect()
}
fn range(g: &mut Gen, len: u64) -> (u64, u64) {
    if g.small {
        let a = g.below(len + 3);
        let b = a + g.below(4);
        return (a, b);
    }
    match g.below(8) {
        0 => (0, len),
        1 => {
            let a = g.below(len + 1);
            (a, a)
        }
        2 => {
            // across the end
            let a = len.saturating_sub(g.below(5));
            (a, len + 1 + g.below(4))
        }
        3 => {
            let a = len + g.below(100);
            (a, a + 1 + g.below(100))
        }
        4 => (u64::MAX / 2 - 10, u64::MAX / 2 - 5),
        5 if len > 0 && g.below(150) == 0 => {
            // more than 4 GiB
            let a = g.below(len);
            (a, a + (1 << 32) + g.below(len - a + 1))
        }
        _ => {
            let a = g.below(len + 1);
            let b = a + g.below(len - a + 1);
            (a, b)
        }
    }
}
fn info(g: &mut Gen) -> OpInfo {
    match g.below(3) {
        0 => OpInfo::GenericBlock,
        1 => OpInfo::IndexBlock,
        _ => OpInfo::DataBlock { first_row_id: g.below(1 << 32) as u32 },
    }
}
/// What a read of this range has to give: None is an error.
fn expect(file: &[u8], a: u64, b: u64, fail_at: Option<u64>) -> Option<Vec<u8>> {
    if let Some(f) = fail_at {
        if a <= f && f < b {
            return None;
        }
    }
    if a == b {
        return Some(vec![]);
    }
    if b > file.len() as u64 {
        return None;
    }
    Some(file[a as usize..b as usize].to_vec())
}
pub fn c15(g: &mut Gen) -> Outcome {
    let rt = scratch::runtime();
    let d = scratch::Fresh(scratch::fresh());
    let len = if g.small { g.below(4) } else { match g.below(4) { 0 => g.below(4), 1 => g.range(100_000, 300_000), _ => g.range(10, 4000) } };
    let file = content(len, 5 + len);
    let path = d.0.join("blocks");
    std::fs::write(&path, &file).unwrap();
    g.note(format!("file of {} bytes", len));
    let mut plan = faults::Plan { dir: d.0.to_string_lossy().into_owned(), ..Default::default() };
    let mut fail_at = None;
    if !g.small {
        if g.below(3) == 0 {
            let k = g.range(1, 700) as usize;
            plan.short_read = Some(k.max(len as usize / 50));
            g.note(format!("at most {} bytes per system call", plan.short_read.unwrap()));
        }
        if g.below(3) == 0 && len > 0 {
            fail_at = Some(g.below(len));
            plan.fail_read_at = fail_at;
            g.note(format!("reads of offset {} fail", fail_at.unwrap()));
        }
    }
    let n = if g.small { g.below(3) } else { g.range(0, 9) };
    let mut ops = vec![];
    for _ in 0..n {
        let (a, b) = range(g, len);
        let i = info(g);
        ops.push((a, b, i));
    }
    if n > 0 && g.below(4) == 0 {
        plan.slow_read_at = Some((ops[0].0, 15));
    }
    g.note(format!("{:?}", ops));
    g.nontrivial = n > 1;
    faults::set(plan);
    let r: Outcome = rt.block_on(async {
        ensure!(Reader::new(d.0.join("missing")).await.is_err(), "a reader for a file that is not there");
        let rd = match Reader::new(&path).await {
            Ok(r) => r,
            Err(e) => fail!("cannot open the file: {}", e),
        };
        ensure!(rd.len() == len, "len() is {}, the file has {}", rd.len(), len);
        for (a, b, _) in &ops {
            let got = rd.read_block(BlockRange { start: *a, end: *b }).await;
            match (got, expect(&file, *a, *b, fail_at)) {
                (Ok(x), Some(y)) => ensure!(x == y, "read_block({}..{}) differs from the file", a, b),
                (Err(_), None) => {}
                (Ok(x), None) => fail!("read_block({}..{}) gives {} bytes, an error is due", a, b, x.len()),
                (Err(e), Some(_)) => fail!("read_block({}..{}) fails: {}", a, b, e),
            }
        }
        let reqs: Vec<ReadOp> = ops.iter().map(|(a, b, i)| ReadOp { block_range: BlockRange { start: *a, end: *b }, op_info: i.clone() }).collect();
        let mut st = rd.read_blocks(reqs);
        let mut k = 0;
        while let Some(x) = st.next().await {
            ensure!(k < ops.len(), "more results than operations");
            let (a, b, i) = &ops[k];
            let oi = match &x {
                Ok(b) => b.op_info.clone(),
                Err(e) => e.op_info.clone(),
            };
            ensure!(oi == *i, "result {} carries {:?}, the operation {:?}", k, oi, i);
            match (x, expect(&file, *a, *b, fail_at)) {
                (Ok(x), Some(y)) => ensure!(x.buf == y, "result {} ({}..{}) differs from the file", k, a, b),
                (Err(_), None) => {}
                (Ok(x), None) => fail!("result {} ({}..{}) has {} bytes, an error is due", k, a, b, x.buf.len()),
                (Err(e), Some(_)) => fail!("result {} ({}..{}) is an error: {:?}", k, a, b, e),
            }
            k += 1;
        }
        ensure!(k == ops.len(), "{} results for {} operations", k, ops.len());
        Ok(())
    });
    faults::take();
    r
}
