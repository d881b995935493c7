//! xoshiro-style PRNG: the only source of randomness of a simulated run.
#[derive(Clone)]
pub struct Rng { s: [u64; 2] }
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed.wrapping_add(0x9E3779B97F4A7C15);
        let mut n = || { z = z.wrapping_add(0x9E3779B97F4A7C15); let mut x = z; x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB); x ^ (x >> 31) };
        Rng { s: [n(), n()] }
    }
    pub fn next(&mut self) -> u64 {
        let (mut a, b) = (self.s[0], self.s[1]);
        let r = a.wrapping_add(b);
        self.s[0] = b; a ^= a << 23;
        self.s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 { if n <= 1 { 0 } else { (((self.next() >> 11) as u128 * n as u128) >> 53) as u64 } }
    /// inclusive range
    pub fn range(&mut self, a: u64, b: u64) -> u64 { if b <= a { a } else { a + self.below(b - a + 1) } }
    pub fn chance(&mut self, per_mille: u64) -> bool { self.below(1000) < per_mille }
    /// The name of a header field: any token will do.
    pub fn token(&mut self) -> String {
        const T: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789----__!#$%&'*+.^`|~";
        match self.below(4) {
            0 => self.pick(&["X--A", "-x", "x-", "a--b--", "9-9a-A", "-", "--", "X-", "xY-zW", "ETag", "TE-x", "WWW-Authenticate", "DNT", "x"]).to_string(),
            _ => (0..self.range(1, 14)).map(|_| *self.pick(T) as char).collect(),
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(31);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB); x ^ (x >> 31)
}
/// deterministic content byte `i` of the blob named by `seed`
pub fn blob(seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len { v.extend_from_slice(&r.next().to_le_bytes()); }
    v.truncate(len); v
}
