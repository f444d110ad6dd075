//! Bounded checks of the real code, and replay of failing inputs.
//!   replay search PROP --seed N --secs S --out FILE   (prints statistics as JSON)
//!   replay case PROP CHOICES...                       (runs one case)
#![allow(dead_code, unused_imports, unused_variables)]
mod cases;
mod faults;
mod oracle;
mod scratch;
#[path = "../gen/store/mod.rs"]
mod store;
#[cfg(feature = "buffers")]
mod p_buffers;
#[cfg(feature = "codec")]
mod p_codec;
#[cfg(feature = "columns")]
mod p_columns;
mod p_columns_gen;
#[cfg(feature = "io")]
mod p_io;
#[cfg(feature = "segment")]
mod p_segment;

use cases::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Prop = fn(&mut Gen) -> Outcome;

fn prop(id: &str) -> Option<(Prop, bool)> {
    // (function, uses global state: one worker only)
    #[cfg(feature = "buffers")]
    match id {
        "C10" => return Some((p_buffers::c10, false)),
        "C11" => return Some((p_buffers::c11, false)),
        "C12" => return Some((p_buffers::c12, false)),
        "C13" => return Some((p_buffers::c13, false)),
        _ => {}
    }
    #[cfg(feature = "codec")]
    match id {
        "C06" => return Some((p_codec::c06, false)),
        "C07" => return Some((p_codec::c07, false)),
        "C08" => return Some((p_codec::c08, false)),
        "C09" => return Some((p_codec::c09, false)),
        _ => {}
    }
    #[cfg(feature = "columns")]
    match id {
        "C01" => return Some((p_columns::c01, false)),
        "C02" => return Some((p_columns::c02, false)),
        "C03" => return Some((p_columns::c03, false)),
        "C04" => return Some((p_columns::c04, false)),
        "C17" => return Some((p_columns::c17, false)),
        _ => {}
    }
    #[cfg(feature = "io")]
    match id {
        "C15" => return Some((p_io::c15, true)),
        _ => {}
    }
    #[cfg(feature = "segment")]
    match id {
        "C05" => return Some((p_segment::c05, true)),
        "C14" => return Some((p_segment::c14, true)),
        "C16" => return Some((p_segment::c16, true)),
        _ => {}
    }
    None
}

thread_local! { static PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None); }

/// Run a case; a panic of the code under test is a failure.
fn run(p: Prop, g: &mut Gen) -> Outcome {
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p(g))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|m| m.borrow_mut().take()).unwrap_or_default())),
    };
    if r.is_err() && faults::REAL_ERROR.swap(false, Ordering::SeqCst) {
        eprintln!("a case was abandoned, the machine cannot write files: {:?}", r);
        return Ok(());
    }
    r
}

fn hash(l: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in l {
        h = (h ^ x).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    enumerated: u64,
    enum_done: bool,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    failure: Option<(Vec<u64>, bool, String, Vec<String>)>,
}

fn shrink(p: Prop, small: bool, log: Vec<u64>, msg: String, notes: Vec<String>, secs: f64) -> (Vec<u64>, String, Vec<String>) {
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let arc = Arc::new(Mutex::new(vec![]));
    let mut best = (log, msg, notes);
    let try_ = |c: &Vec<u64>| -> Option<(Vec<u64>, String, Vec<String>)> {
        let mut g = Gen::new(Mode::Replay(c.clone()), small, arc.clone());
        match run(p, &mut g) {
            Err(m) => {
                let l = arc.lock().unwrap().clone();
                Some((l, m, g.notes))
            }
            Ok(()) => None,
        }
    };
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        let mut k = best.0.len();
        while k >= 1 && Instant::now() < end {
            let mut i = 0;
            while i + k <= best.0.len() && Instant::now() < end {
                let mut c = best.0.clone();
                c.drain(i..i + k);
                match try_(&c) {
                    Some(b) if b.0.len() < best.0.len() || (b.0.len() == best.0.len() && b.0 < best.0) => {
                        best = b;
                        progress = true;
                    }
                    _ => i += k,
                }
            }
            k /= 2;
        }
        for i in 0..best.0.len() {
            if i >= best.0.len() {
                break;
            }
            let v = best.0[i];
            for n in [0, v / 2, v.saturating_sub(1)].iter().copied() {
                if i < best.0.len() && n < best.0[i] && Instant::now() < end {
                    let mut c = best.0.clone();
                    c[i] = n;
                    if let Some(b) = try_(&c) {
                        if b.0.len() <= best.0.len() && b.0 < best.0 {
                            best = b;
                            progress = true;
                        }
                    }
                }
            }
        }
    }
    best
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", m, l)));
    }));
    let id = a.get(2).cloned().unwrap_or_default();
    if a[1] == "known" {
        // the known findings of a property: does the listed input still fail?
        let r: Option<Outcome> = match id.as_str() {
            #[cfg(feature = "codec")]
            "C09" => Some(std::panic::catch_unwind(p_codec::known_c09).unwrap_or_else(|_| Err("panic".into()))),
            #[cfg(feature = "columns")]
            "C17" => Some(std::panic::catch_unwind(p_columns::known_c17).unwrap_or_else(|_| Err("panic".into()))),
            _ => None,
        };
        match r {
            Some(Err(m)) => println!("STILL {}", m),
            Some(Ok(())) => println!("GONE"),
            None => println!("NONE"),
        }
        return;
    }
    let (p, single) = match prop(&id) {
        Some(x) => x,
        None => {
            eprintln!("no such property in this build: {}", id);
            std::process::exit(3)
        }
    };
    let opt = |n: &str, d: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string());
    if a[1] == "case" {
        let small = a.iter().any(|x| x == "--small");
        let l: Vec<u64> = a[3..].iter().filter_map(|x| x.parse().ok()).collect();
        let mut g = Gen::new(Mode::Replay(l), small, Arc::new(Mutex::new(vec![])));
        let r = run(p, &mut g);
        for n in &g.notes {
            println!("  {}", n);
        }
        match r {
            Ok(()) => println!("OK"),
            Err(m) => {
                scratch::remove();
                println!("FAILS: {}", m);
                std::process::exit(1)
            }
        }
        scratch::remove();
        return;
    }
    let seed: u64 = opt("--seed", "1").parse().unwrap_or(1);
    let secs: f64 = opt("--secs", "10").parse().unwrap_or(10.0);
    let case_limit: f64 = opt("--case-limit", "30").parse().unwrap_or(30.0);
    let out = opt("--out", "");
    // no enumeration: for the processes beside the first
    let random = a.iter().any(|x| x == "--random");
    let t0 = Instant::now();
    let stats = Arc::new(Mutex::new(Stats::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let nw = if single { 1 } else { 7 };
    // worker 0 enumerates small cases and then joins the random search
    type Slot = (Arc<Mutex<Vec<u64>>>, Arc<Mutex<(Instant, bool, bool)>>);
    let slots: Vec<Slot> = (0..nw).map(|_| (Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new((Instant::now(), false, false))))).collect();
    let mut hs = vec![];
    for w in 0..nw {
        let (log, cur) = slots[w].clone();
        let stats = stats.clone();
        let stop = stop.clone();
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut rng = Rng::new(seed.wrapping_mul(1000003).wrapping_add(w as u64));
            let mut en: Option<Vec<(u64, u64)>> = if w == 0 && !random { Some(vec![]) } else { None };
            let half = Duration::from_secs_f64(secs * 0.5);
            let all = Duration::from_secs_f64(secs);
            loop {
                let el = t0.elapsed();
                if stop.load(Ordering::Relaxed) || el > all {
                    break;
                }
                if single && el > half {
                    en = None;
                }
                let (mode, small) = match &en {
                    Some(l) => (Mode::Enum(l.clone()), true),
                    None => (Mode::Random(Rng::new(rng.next())), rng.chance(1, 8)),
                };
                let mut g = Gen::new(mode, small, log.clone());
                *cur.lock().unwrap() = (Instant::now(), small, true);
                let r = run(p, &mut g);
                cur.lock().unwrap().2 = false;
                let l = log.lock().unwrap().clone();
                let mut s = stats.lock().unwrap();
                s.evaluations += 1;
                if g.nontrivial && s.distinct.len() < 3_000_000 {
                    let h = hash(&l).wrapping_add(small as u64);
                    if s.distinct.insert(h) && s.samples.len() < 4 && !small {
                        let n = g.notes.join("; ");
                        s.samples.push(n);
                    }
                }
                if en.is_some() {
                    s.enumerated += 1;
                }
                if let Err(m) = r {
                    if s.failure.is_none() {
                        s.failure = Some((l, small, m, g.notes.clone()));
                    }
                    stop.store(true, Ordering::Relaxed);
                    break;
                }
                if let Mode::Enum(l) = std::mem::replace(&mut g.mode, Mode::Replay(vec![])) {
                    let used = g.used();
                    en = Gen::advance(l, used);
                    if en.is_none() {
                        s.enum_done = true;
                    }
                }
            }
        }).unwrap());
    }
    // watch for a case that does not end
    let mut hung = None;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        for (log, cur) in &slots {
            let c = *cur.lock().unwrap();
            if c.2 && c.0.elapsed() > Duration::from_secs_f64(case_limit) {
                hung = Some((log.lock().unwrap().clone(), c.1));
            }
        }
        if hung.is_some() {
            break;
        }
    }
    let mut s = stats.lock().unwrap();
    if let (Some((l, small)), None) = (hung.clone(), &s.failure) {
        s.failure = Some((l, small, format!("no result within {} s", case_limit), vec![]));
    } else if let Some((l, small, m, n)) = s.failure.take() {
        let (l, m, n) = if l.len() < 200_000 { shrink(p, small, l, m, n, 15.0) } else { (l, m, n) };
        s.failure = Some((l, small, m, n));
    }
    let fail = match &s.failure {
        None => "null".to_string(),
        Some((l, small, m, n)) => {
            let c: Vec<String> = l.iter().map(|x| x.to_string()).collect();
            if !out.is_empty() {
                let text = format!(
                    "property: {}\nfails: {}\ncase:\n  {}\nchoices:{} {}\n",
                    id, m, n.join("\n  "), if *small { " --small" } else { "" }, c.join(" ")
                );
                std::fs::write(&out, text).ok();
            }
            format!("{{\"message\": {}, \"case\": {}, \"choices\": {}}}", js(m), js(&n.join("; ")), js(&c.join(" ")))
        }
    };
    println!(
        "{{\"property\": {}, \"evaluations\": {}, \"enumerated\": {}, \"enumeration_complete\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}], \"seconds\": {:.1}, \"failure\": {}}}",
        js(&id), s.evaluations, s.enumerated, s.enum_done, s.distinct.len(), s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "), t0.elapsed().as_secs_f64(), fail
    );
    let code = if s.failure.is_some() { 1 } else { 0 };
    drop(s);
    scratch::remove();
    use std::io::Write;
    std::io::stdout().flush().ok();
    std::process::exit(code);
}
