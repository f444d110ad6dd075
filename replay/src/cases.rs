//! Test cases as sequences of choices: drawn at random, enumerated, or replayed.
use std::sync::{Arc, Mutex};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

pub enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    /// (choice, bound) of the draws so far; the odometer advances them.
    Enum(Vec<(u64, u64)>),
}

pub struct Gen {
    pub mode: Mode,
    pos: usize,
    pub log: Arc<Mutex<Vec<u64>>>,
    pub notes: Vec<String>,
    /// small cases only, for the enumeration
    pub small: bool,
    pub nontrivial: bool,
}

impl Gen {
    pub fn new(mode: Mode, small: bool, log: Arc<Mutex<Vec<u64>>>) -> Self {
        log.lock().unwrap().clear();
        Gen { mode, pos: 0, log, notes: vec![], small, nontrivial: false }
    }
    /// A choice in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let pos = self.pos;
        self.pos += 1;
        let v = match &mut self.mode {
            Mode::Random(r) => r.below(n),
            Mode::Replay(l) => l.get(pos).copied().unwrap_or(0) % n,
            Mode::Enum(l) => {
                if pos == l.len() {
                    l.push((0, n));
                }
                l[pos].1 = n;
                l[pos].0.min(n - 1)
            }
        };
        self.log.lock().unwrap().push(v);
        v
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.below(s.len() as u64) as usize]
    }
    /// A generator for bulk data, from one choice.
    pub fn bulk(&mut self) -> Rng {
        let s = self.below(1 << 20);
        Rng::new(s)
    }
    pub fn note(&mut self, s: String) {
        if s.len() > 3000 {
            let mut e = 3000;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            self.notes.push(format!("{}...", &s[..e]));
        } else {
            self.notes.push(s);
        }
    }
    /// The next choices of an enumeration; None at the end.
    pub fn advance(mut l: Vec<(u64, u64)>, used: usize) -> Option<Vec<(u64, u64)>> {
        l.truncate(used);
        while let Some((v, n)) = l.pop() {
            if v + 1 < n {
                l.push((v + 1, n));
                return Some(l);
            }
        }
        None
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}

pub type Outcome = Result<(), String>;

#[macro_export]
macro_rules! fail { ($($t:tt)*) => { return Err(format!($($t)*)) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } } }
