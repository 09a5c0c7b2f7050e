//! Choice tapes. Every decision of a run is a draw from a tape; a tape is either fresh (backed by a
//! PRNG, recording what it returns) or a replay of recorded values (0 once exhausted). By
//! construction 0 is the simplest choice, so shrinking a tape shrinks the run.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    // splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub struct Tape {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub used: Vec<u64>,
    record: Option<std::fs::File>,
}

const MAX_DRAWS: usize = 4_000_000;

impl Tape {
    pub fn fresh(seed: u64) -> Tape {
        Tape {
            rng: Some(Rng::new(seed)),
            replay: Vec::new(),
            used: Vec::new(),
            record: None,
        }
    }
    pub fn replay(values: Vec<u64>) -> Tape {
        Tape {
            rng: None,
            replay: values,
            used: Vec::new(),
            record: None,
        }
    }
    /// A value in `0..n`; 0 is the simplest.
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 || self.used.len() >= MAX_DRAWS {
            return 0;
        }
        let v = match self.rng.as_mut() {
            // multiply-shift: uniform enough, deterministic
            Some(r) => ((r.next() as u128 * n as u128) >> 64) as u64,
            None => self.replay.get(self.used.len()).copied().unwrap_or(0) % n,
        };
        if let Some(f) = self.record.as_mut() {
            let _ = std::io::Write::write_all(f, &v.to_le_bytes());
        }
        self.used.push(v);
        v
    }
    /// Stream every drawn value to `f` (survives an abort).
    pub fn record(&mut self, f: std::fs::File) {
        self.record = Some(f);
    }
    pub fn raw(&mut self) -> u64 {
        self.draw(u64::MAX)
    }
    /// True with probability `num/den`; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        num > 0 && self.draw(den) >= den - num.min(den)
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.draw(xs.len() as u64) as usize]
    }
    /// Index into `ws` with probability proportional to its weight.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let mut v = self.draw(ws.iter().sum());
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
}
