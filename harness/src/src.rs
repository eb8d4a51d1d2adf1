//! Choice sequence: the source of every generated case.
//!
//! A generator draws bounded integers. The drawn values are recorded, so that a
//! case is entirely described by its choice sequence, which is what is shrunk
//! and what is written in replay files.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x100000001b3) ^ b);
    r.next()
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Src {
    replay: Option<Vec<u32>>,
    pos: usize,
    rng: Rng,
    pub rec: Vec<u32>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { replay: None, pos: 0, rng: Rng::new(seed), rec: Vec::new() }
    }
    pub fn replay(choices: Vec<u32>) -> Self {
        Src { replay: Some(choices), pos: 0, rng: Rng::new(0), rec: Vec::new() }
    }
    /// Integer in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0) as usize;
                self.pos += 1;
                if v >= n {
                    n - 1
                } else {
                    v
                }
            }
            None => (self.rng.next() % n as u64) as usize,
        };
        self.rec.push(v as u32);
        v
    }
    /// True with probability `num/den`; false is the simple case.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Weighted choice; returns the index.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// Random permutation of `xs`.
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // choice 0 = no swap
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
