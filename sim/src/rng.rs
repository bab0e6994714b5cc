//! The one source of randomness: every choice of a run comes from its seed.
#[derive(Clone)]
pub struct Rng {
    pub s: [u64; 4],
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.rotate_left(32))
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed;
        let mut s = [0u64; 4];
        for x in s.iter_mut() {
            z = mix(z);
            *x = z;
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// 0..n-1
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability a/b
    pub fn p(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn b32(&mut self) -> [u8; 32] {
        let mut r = [0u8; 32];
        for c in r.chunks_mut(8) {
            c.copy_from_slice(&self.u64().to_le_bytes());
        }
        r
    }
    /// roughly log-uniform in 0..=max
    pub fn log(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let bits = usize::BITS - max.leading_zeros();
        let k = self.below(bits as usize + 1);
        let v = if k == 0 { 0 } else { (1usize << (k - 1)) + self.below(1usize << (k - 1)) };
        v.min(max)
    }
    /// weighted choice of an index
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: usize = w.iter().map(|x| *x as usize).sum();
        let mut k = self.below(t.max(1));
        for (i, x) in w.iter().enumerate() {
            if k < *x as usize {
                return i;
            }
            k -= *x as usize;
        }
        0
    }
}
