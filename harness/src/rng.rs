//! Deterministic PRNG: every random choice in the harness comes from here, seeded by
//! (VERIF_SEED, property, case index), so a case number replays a case exactly.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0u64; 4];
        for i in 0..4 {
            z = mix(z.wrapping_add(i as u64 + 1));
            s[i] = z;
        }
        Rng { s }
    }
    pub fn for_case(seed: u64, prop: &str, idx: u64) -> Self {
        Rng::new(mix(seed) ^ mix(fnv(prop.as_bytes())).rotate_left(17) ^ mix(idx.wrapping_mul(0x1234_5678_9abc_def1)).rotate_left(31))
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn byte(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// uniform in 0..n (n>0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// log-uniform in lo..=hi
    pub fn logu(&mut self, lo: usize, hi: usize) -> usize {
        let a = ((lo + 1) as f64).ln();
        let b = ((hi + 2) as f64).ln();
        let u = (self.u64() >> 11) as f64 / (1u64 << 53) as f64;
        let v = (a + (b - a) * u).exp() as usize;
        v.saturating_sub(1).max(lo).min(hi)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for x in b.iter_mut() {
            *x = self.byte();
        }
    }
}
