//! Small deterministic generator (splitmix/xoshiro), seeded from VERIF_SEED.
use solana_sdk::pubkey::Pubkey;

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut z = seed;
        for x in s.iter_mut() {
            z = mix(z);
            *x = z;
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut b = [0; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.u64().to_le_bytes());
        }
        b
    }
    pub fn key(&mut self) -> Pubkey {
        Pubkey::new_from_array(self.bytes32())
    }
    /// 32 bytes as they occur in messages: random, or with a special shape.
    pub fn addr(&mut self) -> [u8; 32] {
        let mut b = self.bytes32();
        match self.below(24) {
            0 => b = [0; 32],
            1 => b = [0xff; 32],
            2 | 3 | 4 => b[..12].fill(0),
            5 => b[20..].fill(0),
            6 => b[1..].fill(0),
            7 => b[..31].fill(0),
            8 => b[0] = 0,
            9 => b[31] = 0,
            _ => {}
        }
        b
    }
    /// Log-uniform with boundary values.
    pub fn amount(&mut self) -> u64 {
        match self.below(12) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => u64::MAX - self.below(10),
            4 => 10u64.pow(self.below(20) as u32),
            5 => 10u64.pow(self.below(20) as u32).wrapping_sub(1),
            _ => {
                let bits = self.range(1, 64);
                self.u64() >> (64 - bits)
            }
        }
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.below(t);
        for (i, w) in w.iter().enumerate() {
            if x < *w as u64 {
                return i;
            }
            x -= *w as u64;
        }
        unreachable!()
    }
}
