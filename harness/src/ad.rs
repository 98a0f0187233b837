//! Helpers that drive the public codec API at its boundary.
use crate::ensure;
use crate::rng::Rng;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};

pub const STEP: f64 = 1.0 / 32767.0;

pub fn new_codec(rate: u32, ch: usize, level: u32) -> AdhocCodec {
    AdhocCodec::new().with_compression_level(level).with_info(StreamInfo::new(rate, ch as u32))
}
/// new codec through one of the equivalent construction orders
pub fn new_codec_any(r: &mut Rng, rate: u32, ch: usize, level: u32) -> AdhocCodec {
    let info = StreamInfo::new(rate, ch as u32);
    match r.below(3) {
        0 => AdhocCodec::new().with_compression_level(level).with_info(info),
        1 => AdhocCodec::new().with_info(info).with_compression_level(level),
        _ => {
            let mut c = AdhocCodec::new().with_compression_level(level);
            c.set_info(info);
            c
        }
    }
}
/// encode `data` in calls of `part` sample frames
pub fn encode_parts(c: &mut dyn Streamable, data: &[f32], ch: usize, part: &[usize]) -> Result<u64, String> {
    let mut at = 0;
    let mut total = 0u64;
    for &n in part {
        let got = c.encode(&data[at * ch..(at + n) * ch]);
        total += got.unwrap_or(0) as u64;
        at += n;
    }
    Ok(total)
}
pub fn rewind(r: &mut Rng, c: &mut AdhocCodec) {
    if r.chance(1, 2) {
        c.init()
    } else {
        c.seek(SeekFrom::Start(0))
    }
}
/// decode to the end with one buffer size
pub fn decode_all(c: &mut dyn Streamable, ch: usize, limit: usize) -> Result<Vec<f32>, String> {
    decode_all_buf(c, ch, limit, (4096 / ch).max(1) * ch)
}
pub fn decode_all_buf(c: &mut dyn Streamable, _ch: usize, limit: usize, len: usize) -> Result<Vec<f32>, String> {
    let mut out = vec![];
    let mut buf = vec![0.0f32; len];
    while let Some(n) = c.decode(&mut buf) {
        ensure!(n > 0 && n <= buf.len(), "decode reported {} samples for a buffer of {}", n, buf.len());
        out.extend_from_slice(&buf[..n]);
        ensure!(out.len() <= limit, "decode delivers more than {} samples", limit);
    }
    Ok(out)
}
/// decode up to `want` samples with random buffer sizes
pub fn decode_some(r: &mut Rng, c: &mut dyn Streamable, ch: usize, want: usize) -> Result<Vec<f32>, String> {
    let mut out = vec![];
    while out.len() < want {
        let m = (want - out.len()).max(ch);
        let len = match r.below(3) {
            0 => m,
            _ => r.usize(ch, m),
        } / ch
            * ch;
        let mut buf = vec![0.0f32; len.max(ch)];
        match c.decode(&mut buf) {
            None => break,
            Some(n) => {
                ensure!(n > 0 && n <= buf.len(), "decode reported {} samples for a buffer of {}", n, buf.len());
                out.extend_from_slice(&buf[..n])
            }
        }
    }
    Ok(out)
}
pub fn save(c: &AdhocCodec) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    c.save_to(&mut v).ok_or("save_to a Vec failed")?;
    Ok(v)
}
pub fn load(b: &[u8]) -> Result<AdhocCodec, String> {
    AdhocCodec::load(b).ok_or_else(|| "a file just saved does not load".to_string())
}
pub fn wav_save(c: &WavCodec) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    c.save_to(&mut v).map_err(|e| format!("wav save_to a Vec failed: {}", e))?;
    Ok(v)
}
pub fn wav_load(b: &[u8]) -> Result<WavCodec, String> {
    WavCodec::load(std::io::Cursor::new(b)).map_err(|e| format!("wav load failed: {}", e))
}
pub fn same(a: &[f32], b: &[f32]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} samples instead of {}", a.len(), b.len()));
    }
    for i in 0..a.len() {
        if a[i].to_bits() != b[i].to_bits() {
            return Err(format!("sample {} of {} is {} instead of {}", i, a.len(), a[i], b[i]));
        }
    }
    Ok(())
}
/// Positions allowed for trunc(rate * ms / 1000) under single-precision evaluation.
pub fn pos_range(rate: u32, ms: f64) -> (f64, f64) {
    const D: f64 = 2.5e-7;
    let p = rate as f64 * ms / 1000.0;
    let (a, b) = (p * (1.0 - D), p * (1.0 + D));
    (a.min(b).trunc(), a.max(b).trunc())
}
/// level-0 fidelity
pub fn check_level0(input: &[f32], out: &[f32], ch: usize) -> Result<f64, String> {
    ensure!(input.len() == out.len(), "{} samples decoded, {} encoded", out.len(), input.len());
    let mut worst = 0.0f64;
    for i in 0..out.len() {
        let x = input[i];
        ensure!(out[i].is_finite() && out[i].abs() <= 1.0001, "sample {} (frame {} channel {}) decodes to {}", i, i / ch, i % ch, out[i]);
        if !x.is_finite() {
            continue;
        }
        let e = (out[i] as f64 - (x as f64).clamp(-1.0, 1.0)).abs();
        worst = worst.max(e);
        ensure!(
            e <= STEP + 2e-7,
            "sample {} (frame {} channel {}): input {} decoded {} error {:.3} steps",
            i, i / ch, i % ch, x, out[i], e / STEP
        );
    }
    Ok(worst)
}
pub fn check_level(input: &[f32], out: &[f32], ch: usize, level: u32) -> Result<f64, String> {
    ensure!(input.len() == out.len(), "{} samples decoded, {} encoded", out.len(), input.len());
    let l = level.min(10);
    let bound = (1u64 << l) as f64 * STEP + if l > 0 { 0.001 } else { 0.0 } + 1e-6;
    let mut worst = 0.0f64;
    for i in 0..out.len() {
        let e = (out[i] as f64 - (input[i] as f64).clamp(-1.0, 1.0)).abs();
        worst = worst.max(e / bound);
        ensure!(
            e <= bound,
            "level {} sample {} (frame {} channel {}): input {} decoded {} error {} above {}",
            level, i, i / ch, i % ch, input[i], out[i], e, bound
        );
    }
    Ok(worst)
}
