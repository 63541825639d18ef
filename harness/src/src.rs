//! Source of choices driving every generator.
//!
//! All random decisions of a case go through `Src::below`. A case is either
//! drawn from a seeded generator (recording each choice) or replayed from a
//! recorded/edited list of choices, which makes every case reproducible and
//! shrinkable without knowing anything about the property.

pub enum Mode {
    Rng([u64; 4]),
    Choices(Vec<u64>, usize),
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Src {
    pub fn from_seed(seed: u64) -> Src {
        let mut x = seed;
        let s = [
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
        ];
        Src { mode: Mode::Rng(s), rec: Vec::new() }
    }

    pub fn from_choices(c: Vec<u64>) -> Src {
        Src { mode: Mode::Choices(c, 0), rec: Vec::new() }
    }

    /// Uniform in `0..n` (n >= 1); 0 is always the "simplest" choice.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let v = match &mut self.mode {
            Mode::Rng(s) => {
                let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
                let t = s[1] << 17;
                s[2] ^= s[0];
                s[3] ^= s[1];
                s[1] ^= s[2];
                s[0] ^= s[3];
                s[2] ^= t;
                s[3] = s[3].rotate_left(45);
                ((result as u128 * n as u128) >> 64) as u64
            }
            Mode::Choices(c, pos) => {
                let v = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.rec.push(v);
        v
    }

    /// A source continuing where this one stands, with an empty record.
    pub fn clone_forward(&self) -> Src {
        let mode = match &self.mode {
            Mode::Rng(s) => Mode::Rng(*s),
            Mode::Choices(c, p) => Mode::Choices(c.clone(), *p),
        };
        Src { mode, rec: Vec::new() }
    }

    /// Record choices made on a forward clone as this source's own.
    pub fn absorb(&mut self, rec: &[u64]) {
        self.rec.extend_from_slice(rec);
    }

    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Inclusive range, biased to nothing in particular.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }

    /// True with probability num/den; `false` is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }

    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut r = self.below(total as u64) as u32;
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.us(xs.len() - i);
            xs.swap(i, j);
        }
    }
}
