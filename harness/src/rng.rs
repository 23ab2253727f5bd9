//! Deterministic generator (xoshiro256**, seeded by splitmix64).
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// FNV-1a/mix hash of a byte string (for signatures).
pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325 ^ (b.len() as u64).wrapping_mul(0x100000001b3);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for &x in it.remainder() {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() { x = x.wrapping_add(0x9E3779B97F4A7C15); *v = mix(x); }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n>0)
    pub fn below(&mut self, n: usize) -> usize { ((self.u64() as u128 * n as u128) >> 64) as usize }
    pub fn below64(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn byte(&mut self) -> u8 { self.u64() as u8 }
    /// true with probability p percent
    pub fn pct(&mut self, p: u32) -> bool { self.below(100) < p as usize }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn fill(&mut self, b: &mut [u8]) {
        let mut it = b.chunks_exact_mut(8);
        for c in &mut it { c.copy_from_slice(&self.u64().to_le_bytes()); }
        for x in it.into_remainder() { *x = self.byte(); }
    }
    pub fn vec(&mut self, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; self.fill(&mut v); v }
    /// a u64 whose bit length is uniform
    pub fn ulog(&mut self) -> u64 {
        let bits = self.below(65) as u32;
        if bits == 0 { 0 } else { (self.u64() >> (64 - bits)) | (1u64 << (bits - 1)) }
    }
    /// roughly log-uniform in lo..=hi
    pub fn lrange(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo { return lo; }
        let span = (hi - lo + 1) as f64;
        let u = (self.u64() >> 11) as f64 / (1u64 << 53) as f64;
        let v = (span + 1.0).powf(u) - 1.0;
        lo + (v as usize).min(hi - lo)
    }
    /// random bytes of a random length in lo..=hi
    pub fn rvec(&mut self, lo: usize, hi: usize) -> Vec<u8> { let n = self.range(lo, hi); self.vec(n) }
    pub fn fork(&mut self) -> Rng { Rng::new(self.u64()) }
}
