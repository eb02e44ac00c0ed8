//! The one source of decisions of a simulated run.
//!
//! A run draws everything it decides from here. Draws are recorded, so that a run can be repeated
//! from the list of draws alone and so that the list can be minimised. 0 is always the simplest choice.

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}

pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = mix(h ^ b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w));
    }
    h
}

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// every draw is also written here, for the case that the process does not survive
    pub log: Option<std::fs::File>,
}

impl Src {
    pub fn new(seed: u64) -> Self {
        Src { state: seed, replay: None, pos: 0, rec: Vec::new(), log: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { state: 0, replay: Some(choices), pos: 0, rec: Vec::new(), log: None }
    }
    /// a number below n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(c) => c.get(self.pos).copied().unwrap_or(0) % n,
            None => {
                self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
                mix(self.state) % n
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = writeln!(f, "{v}");
        }
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; false is the simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, of: &'a [T]) -> &'a T {
        &of[self.usize(of.len())]
    }
    /// index by weight, the first is the simplest
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut v = self.below(w.iter().sum());
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.below(65536) as u16
    }
    /// bytes from one draw, so that long contents do not make the list of draws long
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut s = self.below(1 << 32);
        let z = s == 0;
        (0..n)
            .map(|_| {
                s = mix(s);
                if z {
                    0
                } else {
                    s as u8
                }
            })
            .collect()
    }
    /// small mostly, large sometimes
    pub fn size(&mut self, small: u64, large: u64) -> u64 {
        match self.below(8) {
            0..=5 => self.below(small + 1),
            6 => self.below((small * 8).min(large) + 1),
            _ => self.below(large + 1),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.usize(i + 1);
            v.swap(i, j);
        }
    }
}
