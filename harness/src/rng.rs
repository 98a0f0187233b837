//! xoshiro256** seeded by splitmix64: every random choice of a case derives from one u64.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h ^ b.len() as u64)
}
pub fn hash_u64s(v: &[u64]) -> u64 {
    v.iter().fold(v.len() as u64, |h, &x| mix(h ^ mix(x)))
}
pub fn hash_f32s(v: &[f32]) -> u64 {
    v.iter().fold(v.len() as u64, |h, &x| mix(h ^ x.to_bits() as u64))
}
/// numbers, fractions and names that are new in the working tree (see dict.py); generators visit them
/// and their neighbours more often, which steers the workload and decides nothing
#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub floats: Vec<f64>,
    pub names: Vec<[u8; 4]>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let Ok(s) = std::env::var("MON_DICT") else { return d };
        let mut it = s.trim().split(';').map(|p| p.split(',').filter(|x| !x.is_empty()));
        if let Some(p) = it.next() {
            d.ints = p.filter_map(|x| x.parse().ok()).collect()
        }
        if let Some(p) = it.next() {
            d.floats = p.filter_map(|x| x.parse().ok()).collect()
        }
        if let Some(p) = it.next() {
            d.names = p.filter_map(|x| u32::from_str_radix(x, 16).ok().map(|v| v.to_be_bytes())).collect()
        }
        d
    })
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0; 4];
        for x in s.iter_mut() {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            *x = mix(z);
        }
        Self { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    fn raw(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    /// rarely, a number of the dictionary (or a neighbour) in lo..=hi
    pub fn special(&mut self, lo: i128, hi: i128) -> Option<i128> {
        let d = &dict().ints;
        if d.is_empty() || hi - lo < 24 || self.raw(16) != 0 {
            return None;
        }
        let mut v = d[self.raw(d.len() as u64) as usize] as i128;
        if lo < 0 && self.raw(2) == 0 {
            v = -v
        }
        v += match self.raw(6) {
            0 => 1,
            1 => -1,
            _ => 0,
        };
        (lo..=hi).contains(&v).then_some(v)
    }
    /// same for lengths: the longer the rarer, so that the workload keeps its cost
    pub fn special_len(&mut self, lo: usize, hi: usize) -> Option<usize> {
        let v = self.special(lo as i128, hi as i128)? as usize;
        (self.raw(1 + v as u64 / 4096) == 0).then_some(v)
    }
    /// every second time, a number of the dictionary in lo..=hi, or `otherwise`
    pub fn dict_or(&mut self, otherwise: usize, lo: usize, hi: usize) -> usize {
        let d = &dict().ints;
        if d.is_empty() || self.raw(2) == 0 {
            return otherwise;
        }
        let ok: Vec<u64> = d.iter().copied().filter(|&v| v >= lo as u64 && v <= hi as u64).collect();
        if ok.is_empty() {
            return otherwise;
        }
        let v = ok[self.raw(ok.len() as u64) as usize] as usize;
        match self.raw(4) {
            0 if v < hi => v + 1,
            1 if v > lo => v - 1,
            _ => v,
        }
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        if let Some(v) = self.special(0, n as i128 - 1) {
            return v as u64;
        }
        self.raw(n)
    }
    pub fn usize(&mut self, lo: usize, hi_incl: usize) -> usize {
        if let Some(v) = self.special(lo as i128, hi_incl as i128) {
            return v as usize;
        }
        lo + self.raw((hi_incl - lo + 1) as u64) as usize
    }
    pub fn i64(&mut self, lo: i64, hi_incl: i64) -> i64 {
        if let Some(v) = self.special(lo as i128, hi_incl as i128) {
            return v as i64;
        }
        lo + self.raw((hi_incl - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.raw(den) < num
    }
    pub fn unit(&mut self) -> f64 {
        let d = dict();
        if !d.floats.is_empty() && self.raw(64) == 0 {
            let v = d.floats[self.raw(d.floats.len() as u64) as usize].abs();
            if v < 1.0 {
                return v;
            }
        }
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// uniform in -1..1
    pub fn sym(&mut self) -> f64 {
        self.unit() * 2.0 - 1.0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.raw(v.len() as u64) as usize]
    }
    /// log-uniform size in lo..=hi
    pub fn logsize(&mut self, lo: usize, hi: usize) -> usize {
        if let Some(v) = self.special_len(lo, hi) {
            return v;
        }
        let (a, b) = ((lo.max(1)) as f64, (hi + 1) as f64);
        let x = (a.ln() + self.unit() * (b.ln() - a.ln())).exp() as usize;
        if lo == 0 && self.chance(1, 20) {
            return 0;
        }
        x.clamp(lo, hi)
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}
