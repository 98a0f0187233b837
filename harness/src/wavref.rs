//! Independent RIFF/WAVE builder and strict parser.
use crate::rng::{dict, Rng};

#[derive(Debug, Clone)]
pub struct Wav {
    pub riff_size: u32,
    pub tag: u16,
    pub ch: u16,
    pub rate: u32,
    pub byte_rate: u32,
    pub align: u16,
    pub bits: u16,
    pub data: Vec<u8>,
    pub data_at: usize,
}

pub fn parse(b: &[u8]) -> Result<Wav, String> {
    let u16a = |p: usize| u16::from_le_bytes([b[p], b[p + 1]]);
    let u32a = |p: usize| u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
    if b.len() < 12 || &b[0..4] != b"RIFF" || &b[8..12] != b"WAVE" {
        return Err("no RIFF/WAVE magic".into());
    }
    let riff_size = u32a(4);
    let mut p = 12;
    let mut fmt = None;
    let mut data = None;
    while p + 8 <= b.len() {
        let sz = u32a(p + 4) as usize;
        if p + 8 + sz > b.len() {
            return Err(format!("chunk at {} of {} bytes exceeds file of {}", p, sz, b.len()));
        }
        if &b[p..p + 4] == b"fmt " {
            if sz < 16 || fmt.is_some() {
                return Err("bad fmt chunk".into());
            }
            let q = p + 8;
            fmt = Some((u16a(q), u16a(q + 2), u32a(q + 4), u32a(q + 8), u16a(q + 12), u16a(q + 14)));
        }
        if &b[p..p + 4] == b"data" {
            if fmt.is_none() || data.is_some() {
                return Err("bad data chunk".into());
            }
            data = Some((p + 8, sz));
        }
        p += 8 + sz + (sz & 1);
    }
    if p < b.len() {
        return Err(format!("{} stray bytes at the end", b.len() - p));
    }
    let f = fmt.ok_or("no fmt chunk")?;
    let (at, sz) = data.ok_or("no data chunk")?;
    Ok(Wav { riff_size, tag: f.0, ch: f.1, rate: f.2, byte_rate: f.3, align: f.4, bits: f.5, data: b[at..at + sz].to_vec(), data_at: at })
}

fn chunk(o: &mut Vec<u8>, id: &[u8], body: &[u8]) {
    o.extend(id);
    o.extend((body.len() as u32).to_le_bytes());
    o.extend(body);
    if body.len() % 2 == 1 {
        o.push(0)
    }
}

pub struct Layout {
    pub before_fmt: Vec<(Vec<u8>, Vec<u8>)>,
    pub between: Vec<(Vec<u8>, Vec<u8>)>,
    pub after: Vec<(Vec<u8>, Vec<u8>)>,
    pub fmt_size: usize,
    pub omit_final_pad: bool,
}
impl Layout {
    pub fn plain() -> Self {
        Layout { before_fmt: vec![], between: vec![], after: vec![], fmt_size: 16, omit_final_pad: false }
    }
    pub fn random(r: &mut Rng) -> Self {
        let mut l = Self::plain();
        l.fmt_size = *r.pick(&[16usize, 16, 18, 40]);
        if r.chance(1, 4) {
            for _ in 0..r.usize(1, 2) {
                l.before_fmt.push(extra(r))
            }
        }
        if r.chance(2, 3) {
            for _ in 0..r.usize(1, 3) {
                l.between.push(extra(r))
            }
        }
        if r.chance(2, 3) {
            for _ in 0..r.usize(1, 3) {
                l.after.push(extra(r))
            }
        }
        l
    }
    pub fn describe(&self) -> String {
        let f = |v: &Vec<(Vec<u8>, Vec<u8>)>| {
            v.iter().map(|(i, b)| format!("{}:{}", String::from_utf8_lossy(i), b.len())).collect::<Vec<_>>().join(" ")
        };
        format!("before fmt [{}] fmt {} between [{}] after [{}]", f(&self.before_fmt), self.fmt_size, f(&self.between), f(&self.after))
    }
}
fn extra(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let id = r.pick(&[&b"LIST"[..], b"JUNK", b"fact", b"bext", b"id3 ", b"cue ", b"PEAK", b"smpl", b"iXML", b"PAD "]).to_vec();
    let id = if !dict().names.is_empty() && r.chance(1, 3) { r.pick(&dict().names).to_vec() } else { id };
    let n = match r.below(5) {
        0 => 0,
        1 => 4,
        2 => r.usize(1, 40),
        3 => r.usize(100, 300),
        _ => r.logsize(1, 3000),
    };
    let mut body: Vec<u8> = match r.below(4) {
        0 => vec![0; n],
        1 => (0..n).map(|_| r.u64() as u8).collect(),
        2 => b"INFOICMT\x10\x00\x00\x00metadata of data and fmt data".iter().cycle().take(n).copied().collect(),
        _ => b"data\x08\x00\x00\x00RIFFfmt \x10\x00\x00\x00\x01\x00".iter().cycle().take(n).copied().collect(),
    };
    if n >= 20 && r.chance(1, 2) {
        let at = r.usize(0, n - 8);
        body[at..at + 8].copy_from_slice(b"data\x04\x00\x00\x00");
    }
    (id, body)
}

pub fn build(l: &Layout, tag: u16, ch: u16, rate: u32, bits: u16, data: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    o.extend(b"RIFF\0\0\0\0WAVE");
    for (i, b) in &l.before_fmt {
        chunk(&mut o, i, b)
    }
    let bytes = (bits as u32 / 8).max(1);
    let mut f = vec![];
    f.extend(tag.to_le_bytes());
    f.extend(ch.to_le_bytes());
    f.extend(rate.to_le_bytes());
    f.extend(rate.wrapping_mul(ch as u32).wrapping_mul(bytes).to_le_bytes());
    f.extend(((ch as u32 * bytes) as u16).to_le_bytes());
    f.extend(bits.to_le_bytes());
    if l.fmt_size > 16 {
        f.extend(((l.fmt_size - 18) as u16).to_le_bytes());
    }
    f.resize(l.fmt_size, 0);
    chunk(&mut o, b"fmt ", &f);
    for (i, b) in &l.between {
        chunk(&mut o, i, b)
    }
    chunk(&mut o, b"data", data);
    if data.len() % 2 == 1 && l.after.is_empty() && l.omit_final_pad {
        o.pop();
    }
    for (i, b) in &l.after {
        chunk(&mut o, i, b)
    }
    let n = o.len() as u32 - 8;
    o[4..8].copy_from_slice(&n.to_le_bytes());
    o
}
