//! Choice-sequence source: every random decision of a case is one recorded `draw`, so a case can
//! be replayed and shrunk by editing the sequence. Zero is always the simplest choice.

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
}

#[inline]
pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash64(data: &[u8]) -> u64 {
    // FNV-1a followed by a finalizer, only used for counting distinct cases and seeding.
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    splitmix(&mut h)
}

impl Src {
    pub fn random(seed: u64, id: &str, idx: u64) -> Self {
        let mut s = seed ^ hash64(id.as_bytes()).rotate_left(17);
        let a = splitmix(&mut s);
        let mut t = a ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        let state = splitmix(&mut t);
        Src { state, replay: None, rec: Vec::with_capacity(256) }
    }

    pub fn replay(choices: Vec<u64>) -> Self { Src { state: 0, replay: Some(choices), rec: vec![] } }

    /// A full 64-bit draw.
    pub fn raw(&mut self) -> u64 {
        let v = match self.replay {
            Some(ref c) => c.get(self.rec.len()).copied().unwrap_or(0),
            None => splitmix(&mut self.state),
        };
        self.rec.push(v);
        v
    }

    /// A number in `0..n`, now and then a larger one.
    pub fn few(&mut self, n: usize) -> usize {
        match self.u(40) {
            0..=37 => self.us(n),
            38 => n + self.us(4),
            _ => self.us(14),
        }
    }

    /// A draw in `0..n`.
    pub fn u(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match self.replay {
            Some(ref c) => c.get(self.rec.len()).copied().unwrap_or(0) % n,
            None => splitmix(&mut self.state) % n,
        };
        self.rec.push(v);
        v
    }

    pub fn us(&mut self, n: usize) -> usize { self.u(n as u64) as usize }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.u(hi - lo + 1) }
    /// True with probability num/den; the simplest choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.u(den) >= den - num }
    pub fn bool(&mut self) -> bool { self.u(2) == 1 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.us(xs.len())] }

    /// `n` bytes out of one draw; draw zero gives zeros.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n == 0 {
            return vec![];
        }
        let mut s = self.raw();
        if s == 0 {
            return vec![0; n];
        }
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] { self.bytes(N).try_into().unwrap() }

    /// A length skewed towards small values.
    pub fn len(&mut self, max: usize) -> usize {
        match self.u(4) {
            0 => 0,
            1 => self.us(max.min(2) + 1),
            2 => self.us(max.min(8) + 1),
            _ => self.us(max + 1),
        }
    }

    pub fn u32_edge(&mut self) -> u32 {
        const E: &[u32] = &[
            0, 1, 2, 3, 0xff, 0x100, 0xffff, 0x10000, 499_999_999, 500_000_000, 500_000_001,
            0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffd, 0xffff_fffe, 0xffff_ffff, 0x0040_0000,
            0x0040_ffff,
        ];
        match self.u(3) {
            0 => self.u(300) as u32,
            1 => *self.pick(E),
            _ => self.raw() as u32,
        }
    }

    pub fn u64_edge(&mut self) -> u64 {
        const E: &[u64] = &[
            0, 1, 252, 253, 0xffff, 0x10000, 0xffff_ffff, 0x1_0000_0000, 2_100_000_000_000_000,
            0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0xffff_ffff_ffff_fffe, u64::MAX,
        ];
        match self.u(4) {
            0 => self.u(100_000),
            1 => *self.pick(E),
            2 => self.raw() >> self.u(64),
            _ => self.raw(),
        }
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        if v.len() < 2 {
            return;
        }
        // One draw so that zero keeps the order.
        let mut s = self.raw();
        if s == 0 {
            return;
        }
        for i in (1..v.len()).rev() {
            let j = (splitmix(&mut s) % (i as u64 + 1)) as usize;
            v.swap(i, j);
        }
    }
}
