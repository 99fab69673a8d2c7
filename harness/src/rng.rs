//! Seeded choices for the generators.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + (self.next() as u128 % span) as i128) as i64
    }
    pub fn urange(&mut self, lo: u64, hi: u64) -> u64 {
        lo + (self.next() as u128 % (hi as u128 - lo as u128 + 1)) as u64
    }
    pub fn chance(&mut self, pct: u32) -> bool {
        self.below(100) < pct as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.below(total.max(1));
        for (i, k) in w.iter().enumerate() {
            if x < *k as u64 {
                return i;
            }
            x -= *k as u64;
        }
        w.len() - 1
    }
    pub fn text(&mut self, max: usize) -> String {
        let n = self.below(max as u64 + 1) as usize;
        let mut s = String::new();
        for _ in 0..n {
            let c = match self.below(8) {
                0 => *self.pick(&['"', '\\', '\n', '\r', '\t', '\0', '{', '}', '[', ',', ':', '\'', '%', '*', '$', '\u{7f}']),
                1 => char::from_u32(self.below(0xD7FF) as u32).unwrap_or('x'),
                2 => *self.pick(&['\u{1F600}', '\u{FFFF}', '\u{10FFFF}', '\u{2028}', '\u{FEFF}']),
                _ => (b'a' + self.below(26) as u8) as char,
            };
            s.push(c);
        }
        s
    }
}
