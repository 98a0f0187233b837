//! Signal generators. One value per sample, one call per channel.
use crate::rng::Rng;

pub const NF: f32 = 1.0 / i16::MAX as f32;

/// Independent restatement of the 0.1.3 quantiser.
pub fn trunc16(x: f32) -> i16 {
    (x.clamp(-1.0, 1.0) * 32767.0f32) as i16
}
/// Independent restatement of the 0.1.3 predictor: quadratic extrapolation in single precision,
/// arguments oldest first.
pub fn predict(h: [i16; 3]) -> i16 {
    let f = [h[0] as f32 * NF, h[1] as f32 * NF, h[2] as f32 * NF];
    let d = f[1] - f[0];
    let e = f[2] - f[0];
    let c0 = f[0];
    let c1 = (4.0f32 * d - e) * 0.5f32;
    let c2 = (e - 2.0f32 * d) * 0.5f32;
    trunc16(c0 + (c1 + c2 * 3.0f32) * 3.0f32)
}
/// f32 that quantises to `k` whether the quantiser truncates or rounds
pub fn grid(k: i32) -> f32 {
    let off = if k > 0 { 0.3 } else if k < 0 { -0.3 } else { 0.0 };
    (((k as f64 + off) / 32767.0) as f32).clamp(-1.0, 1.0)
}

pub const KINDS: usize = 19;
pub const KIND_NAMES: [&str; KINDS] = [
    "silence", "constant", "sine", "chirp", "noise", "nyquist", "square", "impulses", "walk", "saw",
    "quadratic", "extremes", "lsb", "outofrange", "residuals", "mix", "decay", "grid", "nonfinite",
];

#[derive(Clone, Copy, PartialEq)]
pub enum Domain {
    /// any f32 including non-finite
    Any,
    /// finite, may exceed [-1,1]
    Finite,
    /// within [-1,1]
    Unit,
}

pub fn gen_kind(r: &mut Rng, kind: usize, n: usize, out: &mut Vec<f32>) {
    let amp = match r.below(6) {
        0 => 1.0,
        1 => 0.9999,
        2 => r.unit(),
        3 => r.unit() * 0.1,
        4 => 0.5,
        _ => (r.unit() * -10.0).exp2(),
    };
    match kind {
        0 => out.extend(std::iter::repeat(if r.chance(1, 4) { -0.0 } else { 0.0 }).take(n)),
        1 => {
            let c = *r.pick(&[1.0, -1.0, amp, -amp, NF as f64, -NF as f64, 0.5, 1.0 / 3.0]) as f32;
            out.extend(std::iter::repeat(c).take(n))
        }
        2 => {
            let f = r.unit() * r.unit() * 3.0;
            let ph = r.unit() * 6.28;
            for i in 0..n {
                out.push((amp * (f * i as f64 + ph).sin()) as f32)
            }
        }
        3 => {
            let k = r.unit() * 3.14 / (n.max(1) as f64);
            for i in 0..n {
                out.push((amp * (k * (i as f64) * (i as f64)).sin()) as f32)
            }
        }
        4 => {
            for _ in 0..n {
                out.push((amp * r.sym()) as f32)
            }
        }
        5 => {
            for i in 0..n {
                out.push(if i % 2 == 0 { amp as f32 } else { -amp as f32 })
            }
        }
        6 => {
            let p = r.logsize(1, 300);
            let (a, b) = if r.chance(1, 2) { (amp, -amp) } else { (r.sym(), r.sym()) };
            for i in 0..n {
                out.push(if (i / p) % 2 == 0 { a as f32 } else { b as f32 })
            }
        }
        7 => {
            // quiet floor with rare impulses whose Rice quotient sits near multiples of 128
            let floor = *r.pick(&[0i32, 0, 0, 1, -3]);
            // (one impulse in a long quiet piece gives the longest unary runs)
            let gap = if n >= 4000 && r.chance(1, 2) { n / r.usize(1, 3) } else { r.logsize(2, 2000) };
            let mode = r.below(3);
            for _ in 0..n {
                if r.below(gap as u64) == 0 {
                    let v = match mode {
                        0 => (256 * r.i64(1, 127) + r.i64(-3, 3)) as i32,
                        1 => (128i64 << r.i64(0, 7)).min(32000) as i32 + r.i64(-2, 2) as i32,
                        _ => r.i64(-32767, 32767) as i32,
                    };
                    let v = if r.chance(1, 2) { v } else { -v };
                    out.push(grid(v.clamp(-32767, 32767)))
                } else {
                    out.push(grid(floor))
                }
            }
        }
        8 => {
            let step = amp * 0.3;
            let mut x: f64 = r.sym();
            for _ in 0..n {
                x = (x + r.sym() * step).clamp(-1.0, 1.0);
                out.push(x as f32)
            }
        }
        9 => {
            let p = r.logsize(2, 5000) as f64;
            for i in 0..n {
                let t = (i as f64 / p).fract();
                out.push(((t * 2.0 - 1.0) * amp) as f32)
            }
        }
        10 => {
            let p = r.logsize(4, 400);
            let (mut a, mut b, mut c) = (r.sym(), r.sym(), r.sym());
            for i in 0..n {
                if i % p == 0 {
                    a = r.sym();
                    b = r.sym();
                    c = r.sym();
                }
                let t = (i % p) as f64 / p as f64;
                out.push(((a + b * t + c * t * t) / 3.0) as f32)
            }
        }
        11 => {
            let set: [f32; 8] = [1.0, -1.0, 0.0, 0.99997, -0.99997, -1.0000305, 1.0, -1.0];
            for _ in 0..n {
                out.push(*r.pick(&set))
            }
        }
        12 => {
            for _ in 0..n {
                out.push(grid(r.i64(-2, 2) as i32))
            }
        }
        13 => {
            let big = *r.pick(&[1.5, 2.0, 100.0, 1e6, 3e38]);
            for _ in 0..n {
                out.push(if r.chance(1, 3) { (r.sym() * big) as f32 } else { r.sym() as f32 })
            }
        }
        14 => {
            // choose the prediction residual of every sample
            let mode = r.below(5);
            let base = r.i64(1, 32768) as i32;
            let mut h = [0i16; 3];
            for i in 0..n {
                let p = predict(h) as i32;
                let t = match mode {
                    0 => *r.pick(&[0, 1, -1, 32765, 32766, 32767, 32768, -32766, -32767, -32768, -32769, 65534, -65534, 49152, -49152]),
                    1 => {
                        let m = 1i32 << r.below(17);
                        (m + r.i64(-1, 1) as i32) * if r.chance(1, 2) { 1 } else { -1 }
                    }
                    2 => {
                        if r.chance(1, 2) {
                            base
                        } else {
                            -base
                        }
                    }
                    3 => r.i64(-(base as i64), base as i64) as i32,
                    _ => {
                        if r.chance(1, 50) {
                            r.i64(-65534, 65534) as i32
                        } else {
                            r.i64(-3, 3) as i32
                        }
                    }
                };
                let mut c = p + t;
                if !(-32767..=32767).contains(&c) {
                    c = p - t;
                }
                let c = c.clamp(-32767, 32767);
                out.push(grid(c));
                let _ = i;
                h = [h[1], h[2], c as i16];
            }
        }
        15 => {
            let mut left = n;
            while left > 0 {
                let k = r.logsize(1, left).min(left);
                let kind = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 17]);
                gen_kind(r, kind, k, out);
                left -= k;
            }
        }
        16 => {
            let d = 1.0 - r.unit() * 0.1;
            let mut a = amp;
            let f = r.unit() * 3.0;
            for i in 0..n {
                out.push((a * (f * i as f64).cos()) as f32);
                a *= d;
                if r.chance(1, 400) {
                    a = amp
                }
            }
        }
        17 => {
            for _ in 0..n {
                out.push(r.i64(-32767, 32767) as f32 * NF)
            }
        }
        _ => {
            let sp = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -f32::NAN, f32::MIN_POSITIVE / 2.0, f32::MAX, f32::MIN];
            for _ in 0..n {
                out.push(if r.chance(1, 20) { *r.pick(&sp) } else { (amp * r.sym()) as f32 })
            }
        }
    }
}

/// one channel of audio
pub fn channel(r: &mut Rng, dom: Domain, n: usize) -> (Vec<f32>, usize) {
    let kind = loop {
        let k = r.below(KINDS as u64) as usize;
        match (dom, k) {
            (Domain::Unit, 13) | (Domain::Unit, 18) | (Domain::Finite, 18) => continue,
            _ => break k,
        }
    };
    let mut v = Vec::with_capacity(n);
    gen_kind(r, kind, n, &mut v);
    if dom == Domain::Unit {
        for x in v.iter_mut() {
            *x = x.clamp(-1.0, 1.0)
        }
    }
    (v, kind)
}

pub struct Audio {
    pub ch: usize,
    pub frames: usize,
    pub data: Vec<f32>,
    pub kinds: Vec<usize>,
}
pub fn audio(r: &mut Rng, dom: Domain, ch: usize, frames: usize) -> Audio {
    let mut chans = vec![];
    let mut kinds = vec![];
    for c in 0..ch {
        if c >= 8 && c % 2 == 1 && chans.len() > 0 {
            // many channels: reuse generators but keep channels distinguishable
            let (v, k) = channel(r, dom, frames);
            chans.push(v);
            kinds.push(k);
            continue;
        }
        let (v, k) = channel(r, dom, frames);
        chans.push(v);
        kinds.push(k);
    }
    let mut data = Vec::with_capacity(frames * ch);
    for i in 0..frames {
        for c in 0..ch {
            data.push(chans[c][i])
        }
    }
    Audio { ch, frames, data, kinds }
}
impl Audio {
    pub fn describe(&self) -> String {
        let k: Vec<_> = self.kinds.iter().take(8).map(|&k| KIND_NAMES[k]).collect();
        format!("{} ch x {} frames [{}]", self.ch, self.frames, k.join(","))
    }
}

pub fn channels(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=6 => 1,
        7..=12 => 2,
        13..=15 => r.usize(3, 8),
        16..=17 => r.usize(3, 17),
        18 => r.usize(9, 64),
        _ => *r.pick(&[4usize, 6, 8, 16, 31, 32, 33, 100, 255]),
    }
}
pub fn rate(r: &mut Rng) -> u32 {
    if let Some(v) = r.special(1, u32::MAX as i128) {
        return v as u32;
    }
    if r.chance(1, 12) {
        return match r.below(3) {
            0 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) + 1, i32::MAX as u32, 1 << 24, (1 << 24) + 1, 65535, 65536, 65537]),
            1 => (r.u64() as u32 >> r.below(31)).max(1),
            _ => *r.pick(&[384_000u32, 352_800, 2_822_400, 100_000_000, 3_000_000_000, 4_000_000_000, 2, 3, 255, 256]),
        };
    }
    *r.pick(&[8000u32, 11025, 16000, 22050, 22257, 32000, 44100, 48000, 88200, 96000, 192000, 1000, 1, 999, 2000, 500])
}
/// number of sample frames, keeping ch*frames below `cap`
pub fn frames(r: &mut Rng, ch: usize, cap: usize) -> usize {
    let m = (cap / ch).max(4);
    match r.below(10) {
        0 => r.usize(0, 8.min(m)),
        1 => r.usize(0, 64.min(m)),
        _ => r.logsize(0, m),
    }
}
/// split `n` frames into encode calls (sizes in frames; zero sizes are empty calls)
pub fn partition(r: &mut Rng, n: usize, empties: bool) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    let style = r.below(9);
    let fixed = *r.pick(&[1usize, 2, 3, 4, 5, 7, 16, 63, 64, 65, 127, 128, 512, 1024, 4096]);
    let fixed = r.special(1, n as i128).map_or(fixed, |v| v as usize);
    while left > 0 {
        let k = match style {
            0 => left,
            1 => fixed,
            2 => 1024,
            3 => r.usize(1, 6),
            4 => r.logsize(1, left),
            5 => {
                if v.is_empty() {
                    r.usize(1, 4)
                } else {
                    r.logsize(1, left)
                }
            }
            6 => *r.pick(&[1usize, 2, 3, 1024, 1023, 1025]),
            7 => r.logsize(1, 4000),
            _ => {
                if v.is_empty() {
                    fixed
                } else {
                    left
                }
            }
        }
        .min(left)
        .max(1);
        v.push(k);
        left -= k;
        if v.len() > 4000 && style != 0 {
            // keep case cost bounded
            if left > 0 && r.chance(1, 1000) {
                v.push(left);
                left = 0;
            }
        }
    }
    if empties {
        let style = r.below(4);
        if style == 1 {
            // a burst of empty calls somewhere
            let at = r.usize(0, v.len());
            let k = r.usize(1, 25);
            for _ in 0..k {
                v.insert(at, 0);
            }
        } else if style == 2 {
            let k = r.usize(1, 6);
            for _ in 0..k {
                let at = r.usize(0, v.len());
                v.insert(at, 0);
            }
        }
    }
    v
}
pub fn part_desc(p: &[usize]) -> String {
    if p.len() <= 12 {
        format!("calls {:?}", p)
    } else {
        format!("calls {:?}.. ({} calls)", &p[..8], p.len())
    }
}
