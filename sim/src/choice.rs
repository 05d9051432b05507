//! The one source of every random decision of a simulated run.
//!
//! A run is a function of its choice sequence.  A fresh run draws the sequence
//! from a seeded generator and records it, a replay reads a recorded sequence.
//! Zero is always the simplest choice, an exhausted sequence yields zeros, so
//! deleting and lowering entries minimises text, schedule and faults alike.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b.rotate_left(32));
    r.next();
    r.next()
}

enum Mode {
    Random(Rng),
    Replay(Vec<u32>, usize),
}

pub struct Choices {
    mode: Mode,
    pub rec: Vec<u32>,
    /// Every choice is written out at once when the run may end the process
    file: Option<std::fs::File>,
}

impl Choices {
    pub fn random(seed: u64) -> Self {
        Choices { mode: Mode::Random(Rng::new(seed)), rec: Vec::new(), file: None }
    }
    pub fn record_to(mut self, path: &str) -> Self {
        self.file = std::fs::File::create(path).ok();
        self
    }
    pub fn replay(v: Vec<u32>) -> Self {
        Choices { mode: Mode::Replay(v, 0), rec: Vec::new(), file: None }
    }
    /// A number in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => (r.next() % n as u64) as u32,
            Mode::Replay(v, i) => {
                let x = v.get(*i).copied().unwrap_or(0);
                *i += 1;
                (x as usize % n) as u32
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.file {
            let _ = std::io::Write::write_all(f, &v.to_le_bytes());
        }
        v as usize
    }
    /// True with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Geometric-ish small number 0..=max
    pub fn small(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(1, 2) {
            n += 1;
        }
        n
    }
}
