//! Independent reader, writer and codec for the .adhoc layout (as of release 0.1.3).
use crate::sig::{predict, NF};

#[derive(Clone, Debug, Default)]
pub struct File {
    pub level: u32,
    pub nib_data: Vec<u8>,
    pub nib_count: u32,
    pub init_words: Vec<u64>,
    pub init_cursor: u128,
    pub sizes: Vec<u16>,
    pub cursors: Vec<u64>,
    pub hist: Vec<[i16; 3]>,
    pub header_cursor: u32,
    pub info: Option<(u32, u32)>,
    pub chunks: Vec<u128>,
    pub bit_cursor: u128,
    pub capacity: u128,
    pub consumed: usize,
}

struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() - self.1 < n {
            return Err(format!("file ends at {} inside a field", self.0.len()));
        }
        let s = &self.0[self.1..self.1 + n];
        self.1 += n;
        Ok(s)
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn u128(&mut self) -> Result<u128, String> {
        Ok(u128::from_le_bytes(self.take(16)?.try_into().unwrap()))
    }
    fn len(&mut self, elem: usize) -> Result<usize, String> {
        let n = self.u64()? as usize;
        if n.checked_mul(elem).map_or(true, |b| b > self.0.len()) {
            return Err(format!("implausible list length {}", n));
        }
        Ok(n)
    }
}

pub fn parse(b: &[u8]) -> Result<File, String> {
    let mut r = Rd(b, 0);
    let mut f = File::default();
    f.level = r.u32()?;
    let n = r.len(1)?;
    f.nib_data = r.take(n)?.to_vec();
    f.nib_count = r.u32()?;
    let n = r.len(8)?;
    for _ in 0..n {
        f.init_words.push(r.u64()?)
    }
    f.init_cursor = r.u128()?;
    let n = r.len(2)?;
    for _ in 0..n {
        f.sizes.push(u16::from_le_bytes(r.take(2)?.try_into().unwrap()))
    }
    let n = r.len(8)?;
    for _ in 0..n {
        f.cursors.push(r.u64()?)
    }
    let n = r.len(6)?;
    for _ in 0..n {
        let mut h = [0i16; 3];
        for x in h.iter_mut() {
            *x = i16::from_le_bytes(r.take(2)?.try_into().unwrap())
        }
        f.hist.push(h)
    }
    f.header_cursor = r.u32()?;
    f.info = match r.take(1)?[0] {
        0 => None,
        1 => Some((r.u32()?, r.u32()?)),
        t => return Err(format!("bad option tag {}", t)),
    };
    let n = r.len(16)?;
    for _ in 0..n {
        f.chunks.push(r.u128()?)
    }
    f.bit_cursor = r.u128()?;
    f.capacity = r.u128()?;
    f.consumed = r.1;
    Ok(f)
}

pub fn write(f: &File) -> Vec<u8> {
    let mut o = vec![];
    o.extend(f.level.to_le_bytes());
    o.extend((f.nib_data.len() as u64).to_le_bytes());
    o.extend(&f.nib_data);
    o.extend(f.nib_count.to_le_bytes());
    o.extend((f.init_words.len() as u64).to_le_bytes());
    for w in &f.init_words {
        o.extend(w.to_le_bytes())
    }
    o.extend(f.init_cursor.to_le_bytes());
    o.extend((f.sizes.len() as u64).to_le_bytes());
    for w in &f.sizes {
        o.extend(w.to_le_bytes())
    }
    o.extend((f.cursors.len() as u64).to_le_bytes());
    for w in &f.cursors {
        o.extend(w.to_le_bytes())
    }
    o.extend((f.hist.len() as u64).to_le_bytes());
    for h in &f.hist {
        for x in h {
            o.extend(x.to_le_bytes())
        }
    }
    o.extend(f.header_cursor.to_le_bytes());
    match f.info {
        None => o.push(0),
        Some((r, c)) => {
            o.push(1);
            o.extend(r.to_le_bytes());
            o.extend(c.to_le_bytes());
        }
    }
    o.extend((f.chunks.len() as u64).to_le_bytes());
    for w in &f.chunks {
        o.extend(w.to_le_bytes())
    }
    o.extend(f.bit_cursor.to_le_bytes());
    o.extend(f.capacity.to_le_bytes());
    o
}

impl File {
    pub fn exponent(&self, i: usize) -> u32 {
        ((self.nib_data.get(i / 2).copied().unwrap_or(0) >> (4 * (i % 2))) & 15) as u32
    }
    pub fn is_init(&self, i: usize) -> bool {
        (self.init_words.get(i / 64).copied().unwrap_or(0) >> (i % 64)) & 1 == 1
    }
    pub fn n(&self) -> usize {
        self.nib_count as usize
    }
    fn bit(&self, p: u64) -> u64 {
        match self.chunks.get((p / 128) as usize) {
            Some(c) => ((c >> (p % 128)) & 1) as u64,
            None => 0,
        }
    }
    fn bits(&self, p: u64, n: u32) -> u64 {
        (0..n as u64).fold(0, |a, i| a | self.bit(p + i) << i)
    }
}

pub struct FrameInfo {
    pub channel: usize,
    pub exp: u32,
    pub init: bool,
    pub start: u64,
    pub end: u64,
    pub raw_bits: u64,
    pub residuals: Vec<i32>,
    pub samples: Vec<i16>,
}

pub fn rice_bits(u: u32, k: u32) -> u64 {
    (u >> k) as u64 + 1 + 1 + k as u64
}
pub fn best_rice(res: &[i32]) -> u64 {
    (1..16).map(|k| res.iter().map(|&r| rice_bits(r.unsigned_abs(), k)).sum::<u64>()).min().unwrap_or(0)
}

/// Decode every frame in order. Structural deviations from the layout are errors.
pub fn decode(f: &File) -> Result<Vec<FrameInfo>, String> {
    let n = f.n();
    let (_, ch) = f.info.ok_or("no stream info")?;
    let ch = ch as usize;
    if f.nib_data.len() < (n + 1) / 2 || f.init_words.len() < (n + 63) / 64 || f.init_cursor != n as u128 {
        return Err(format!(
            "header lists disagree: {} exponents in {} bytes, {} initial flags in {} words",
            n, f.nib_data.len(), f.init_cursor, f.init_words.len()
        ));
    }
    if f.sizes.len() != n || f.cursors.len() != n || f.hist.len() != n {
        return Err(format!("header lists disagree: {} {} {} {}", n, f.sizes.len(), f.cursors.len(), f.hist.len()));
    }
    if ch == 0 || n % ch != 0 {
        return Err(format!("{} frames for {} channels", n, ch));
    }
    let mut hist: Vec<Vec<i16>> = vec![vec![]; ch];
    let mut out = vec![];
    let mut p: u64 = 0;
    for i in 0..n {
        let c = i % ch;
        if f.cursors[i] != p {
            return Err(format!("frame {} starts at bit {} but its header says {}", i, p, f.cursors[i]));
        }
        let init = f.is_init(i);
        if init != (i < ch) {
            return Err(format!("frame {} has initial flag {}", i, init));
        }
        let exp = f.exponent(i);
        let start = p;
        let h = &mut hist[c];
        let mut samples = vec![];
        let mut residuals = vec![];
        let size = f.sizes[i] as usize;
        let mut raw = 0;
        if init {
            h.clear();
            for _ in 0..size.min(3) {
                let s = f.bits(p, 16) as u16 as i16;
                p += 16;
                raw += 16;
                h.push(s);
                samples.push(s);
            }
        }
        let recorded = f.hist[i];
        let prev = |h: &Vec<i16>, k: usize| -> i16 {
            if h.is_empty() {
                0
            } else {
                h[h.len() - k.min(h.len())]
            }
        };
        let at_header = [prev(h, 3), prev(h, 2), prev(h, 1)];
        if recorded != at_header {
            return Err(format!("frame {} header history {:?}, expected {:?}", i, recorded, at_header));
        }
        while samples.len() < size {
            let sign = f.bit(p);
            p += 1;
            let mut q: u64 = 0;
            while f.bit(p) == 1 {
                q += 1;
                p += 1;
                if q > 70000 {
                    return Err(format!("unary run too long in frame {}", i));
                }
            }
            p += 1;
            let rem = f.bits(p, exp);
            p += exp as u64;
            let u = ((q << exp) + rem) as i64;
            let res = if sign == 1 { -u } else { u };
            if res.abs() > 65536 {
                return Err(format!("residual {} in frame {}", res, i));
            }
            let pr = predict([prev(h, 3), prev(h, 2), prev(h, 1)]);
            let s = (pr as i64 + res) as u16 as i16;
            residuals.push(res as i32);
            samples.push(s);
            h.push(s);
            if h.len() > 64 {
                h.drain(..56);
            }
        }
        out.push(FrameInfo { channel: c, exp, init, start, end: p, raw_bits: raw, residuals, samples });
    }
    if (p as u128) > f.chunks.len() as u128 * 128 {
        return Err(format!("coded data ends at bit {} beyond the stored {} bits", p, f.chunks.len() * 128));
    }
    Ok(out)
}

/// interleave and dequantise
pub fn render(f: &File, frames: &[FrameInfo]) -> Vec<f32> {
    let ch = f.info.unwrap().1 as usize;
    let scale = (1u32 << f.level) as f32;
    let mut out = vec![];
    for block in frames.chunks(ch) {
        let n = block[0].samples.len();
        for i in 0..n {
            for fr in block {
                let s = fr.samples.get(i).copied().unwrap_or(0);
                out.push((s as f32 * NF).clamp(-1.0, 1.0) * scale);
            }
        }
    }
    out
}

pub struct BitW {
    pub chunks: Vec<u128>,
    pub pos: u64,
}
impl BitW {
    pub fn put(&mut self, bit: u64) {
        let c = (self.pos / 128) as usize;
        while self.chunks.len() <= c {
            self.chunks.push(0)
        }
        self.chunks[c] |= ((bit & 1) as u128) << (self.pos % 128);
        self.pos += 1;
    }
    pub fn bits(&mut self, v: u64, n: u32) {
        for i in 0..n {
            self.put(v >> i)
        }
    }
}

/// Write quantised audio (interleaved i16, already divided by 2^level) with the given frame sizes;
/// `exp` chooses the Rice parameter of each frame.
pub fn encode(level: u32, rate: u32, ch: usize, pcm: &[i16], part: &[usize], mut exp: impl FnMut(&[i32]) -> u32) -> File {
    let mut f = File { level, info: Some((rate, ch as u32)), ..Default::default() };
    let mut w = BitW { chunks: vec![], pos: 0 };
    let mut hist: Vec<Vec<i16>> = vec![vec![]; ch];
    let mut at = 0;
    let mut idx = 0usize;
    for (bi, &sz) in part.iter().enumerate() {
        for c in 0..ch {
            let x: Vec<i16> = (0..sz).map(|i| pcm[(at + i) * ch + c]).collect();
            let h = &mut hist[c];
            let start = w.pos;
            let mut k = 0;
            if bi == 0 {
                while k < sz.min(3) {
                    w.bits(x[k] as u16 as u64, 16);
                    h.push(x[k]);
                    k += 1;
                }
            }
            let prev = |h: &Vec<i16>, k: usize| if h.is_empty() { 0 } else { h[h.len() - k.min(h.len())] };
            f.hist.push([prev(h, 3), prev(h, 2), prev(h, 1)]);
            let mut res = vec![];
            for &s in &x[k..] {
                let p = predict([prev(h, 3), prev(h, 2), prev(h, 1)]);
                res.push(s.wrapping_sub(p) as i32);
                h.push(s);
            }
            let e = exp(&res);
            for &r in &res {
                let u = r.unsigned_abs() as u64;
                w.put((r < 0) as u64);
                for _ in 0..(u >> e) {
                    w.put(1)
                }
                w.put(0);
                w.bits(u & ((1 << e) - 1), e);
            }
            if idx % 2 == 0 {
                f.nib_data.push(e as u8)
            } else {
                *f.nib_data.last_mut().unwrap() |= (e as u8) << 4
            }
            if idx % 64 == 0 {
                f.init_words.push(0)
            }
            *f.init_words.last_mut().unwrap() |= ((bi == 0) as u64) << (idx % 64);
            f.sizes.push(sz as u16);
            f.cursors.push(start);
            idx += 1;
        }
        at += sz;
    }
    f.nib_count = idx as u32;
    f.init_cursor = idx as u128;
    f.header_cursor = idx as u32;
    f.chunks = w.chunks;
    f.bit_cursor = w.pos as u128;
    f.capacity = w.pos as u128;
    f
}
