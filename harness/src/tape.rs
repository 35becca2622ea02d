//! Choice tape: every random decision of a generated case is one bounded integer drawn here, so a
//! case is fully described by its list of choices. Shrinking and replaying operate on that list.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    // splitmix64
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

pub struct Tape {
    pub choices: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// first choices of a random tape (a mutated older case)
    script: Vec<u64>,
}

const UNIT: u64 = 1 << 24;

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { choices: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), script: Vec::new() }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Tape { choices, pos: 0, rng: None, script: Vec::new() }
    }
    /// A case like one of `corpus`: a few of its choices changed, dropped, repeated or taken from
    /// another one, and random from where it ends.
    pub fn mutant(corpus: &[Vec<u64>], seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let mut pick = |n: usize| ((r.next() as u128 * n as u128) >> 64) as usize;
        let mut c = corpus[pick(corpus.len())].clone();
        for _ in 0..1 + pick(4) {
            if c.is_empty() {
                break;
            }
            let i = pick(c.len());
            let k = (1 + pick(8)).min(c.len() - i);
            match pick(20) {
                0..=8 => c[i] = pick(1 << 30) as u64,
                9..=10 => c[i] = c[i].wrapping_add(1),
                11..=12 => c[i] = c[i].saturating_sub(1),
                13..=14 => {
                    c.drain(i..i + k);
                }
                15..=16 => {
                    let b: Vec<u64> = c[i..i + k].to_vec();
                    c.splice(i..i, b);
                }
                17..=18 => c.truncate(i),
                _ => {
                    let o = &corpus[pick(corpus.len())];
                    c.truncate(i);
                    c.extend(o.iter().skip(i));
                }
            }
        }
        Tape { choices: Vec::new(), pos: 0, rng: Some(r), script: c }
    }
    /// Number of choices consumed so far.
    pub fn used(&self) -> usize {
        self.pos
    }
    /// Uniform in [0, n). In replay, choices past the end are 0 (the simplest choice).
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => {
                let v = match self.script.get(self.pos) {
                    Some(v) => v % n,
                    None => ((r.next() as u128 * n as u128) >> 64) as u64,
                };
                self.choices.push(v);
                v
            }
            None => {
                if self.pos < self.choices.len() {
                    let v = self.choices[self.pos];
                    if v >= n { v % n } else { v }
                } else {
                    0
                }
            }
        };
        self.pos += 1;
        v
    }
    /// True with probability num/den; simplest is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    /// Integer in [lo, hi].
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Value in [0,1) on a 2^-24 grid.
    pub fn unit(&mut self) -> f64 {
        self.below(UNIT) as f64 / UNIT as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// Log-uniform in [lo, hi].
    pub fn logf(&mut self, lo: f64, hi: f64) -> f64 {
        (self.f(lo.ln(), hi.ln())).exp()
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        &xs[self.idx(xs.len())]
    }
    /// Index picked with the given weights; index 0 is simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
}
