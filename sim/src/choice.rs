//! The single source of randomness.  Every decision of a run - generated operations, delays,
//! faults, thread switches - is drawn from one `Src`.  When recording, draws come from a PRNG
//! seeded by (VERIF_SEED, property, run index) and are written down; when replaying they come
//! from the recorded list (0, the simplest choice, once the list is used up), so a list of
//! integers is one exactly repeatable execution and can be minimised as such.

pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn next(&mut self) -> u64 {
        // xoshiro256**
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    rec: *mut u64,
    nrec: *mut u64,
    cap: u64,
    pub dict: Dict,
}

/// Constants and texts the code under test compares its data with (see `hooks`), offered as
/// sizes, values and strings.
#[derive(Clone, Default)]
pub struct Dict {
    pub nums: Vec<u64>,
    pub texts: Vec<String>,
}

impl Src {
    /// Draws from a PRNG.  The choices are written to `rec` (memory shared with the parent
    /// process, so that they outlive a crash of this one).
    pub fn record(seed: u64, dict: Dict, rec: *mut u64, nrec: *mut u64, cap: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), replay: Vec::new(), pos: 0, rec, nrec, cap, dict }
    }
    pub fn replay(choices: Vec<u64>, dict: Dict, rec: *mut u64, nrec: *mut u64, cap: u64) -> Src {
        Src { rng: None, replay: choices, pos: 0, rec, nrec, cap, dict }
    }

    #[inline]
    fn raw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                if n == 0 {
                    x
                } else {
                    ((x as u128 * n as u128) >> 64) as u64
                }
            }
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if self.pos > self.replay.len() + 300_000 {
                    // a shortened schedule under which a scenario does not end is of no use
                    panic!("the replayed schedule does not end");
                }
                v % n
            }
        };
        unsafe {
            let n = *self.nrec;
            if n < self.cap {
                *self.rec.add(n as usize) = v;
            }
            *self.nrec = n + 1;
        }
        v
    }

    /// A number in 0..n; 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.raw(n)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability num/den; false is the simplest choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flag(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn u64(&mut self) -> u64 {
        self.raw(u64::MAX)
    }
    /// Index chosen with the given weights; the first is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut x = self.below(t);
        for (i, w) in w.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        w.len() - 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.idx(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // 0 keeps the element in place
            let j = i - self.idx(i + 1);
            v.swap(i, j);
        }
    }
    /// A size: mostly small, sometimes one of the numbers the code compares against (+-1),
    /// capped at `max`.
    pub fn size(&mut self, small: usize, max: usize) -> usize {
        match self.weighted(&[20, 4, 2]) {
            0 => self.urange(0, small.min(max)),
            1 => {
                if self.dict.nums.is_empty() {
                    return self.urange(0, small.min(max));
                }
                let i = self.idx(self.dict.nums.len());
                let d = self.dict.nums[i];
                let off = self.below(3);
                let v = match off {
                    0 => d,
                    1 => d.wrapping_add(1),
                    _ => d.wrapping_sub(1),
                };
                if v as usize <= max {
                    v as usize
                } else {
                    (v % (max as u64 + 1)) as usize
                }
            }
            _ => {
                let hi = max.max(1);
                // log-uniform
                let bits = (usize::BITS - hi.leading_zeros()) as u64;
                let b = self.range(1, bits);
                let top = if b >= 63 { u64::MAX >> 1 } else { (1u64 << b) - 1 };
                self.below(top.min(hi as u64) + 1) as usize
            }
        }
    }
    /// An integer value of `bits` bits, biased to boundaries and dictionary constants.
    pub fn int(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let v = match self.weighted(&[6, 6, 3, 4]) {
            0 => self.below(4),
            1 => self.u64(),
            2 => {
                if self.dict.nums.is_empty() {
                    0
                } else {
                    let i = self.idx(self.dict.nums.len());
                    let o = self.below(3);
                    self.dict.nums[i].wrapping_add(o).wrapping_sub(1)
                }
            }
            _ => {
                let b = self.below(bits as u64);
                let o = self.below(3);
                (1u64 << b).wrapping_add(o).wrapping_sub(2)
            }
        };
        v & mask
    }
}
