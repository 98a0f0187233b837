//! C09-C11: the WAV codec.
use super::Prop;
use crate::ad::*;
use crate::ctx::*;
use crate::ensure;
use crate::rng::*;
use crate::sig::{self, Domain};
use crate::wavref::{self, Layout};
use adhoc_audio::{SeekFrom, StreamInfo, Streamable, WavCodec};

pub const PROPS: &[&Prop] = &[&C09, &C10, &C11];

fn many_channels(r: &mut Rng) -> usize {
    if r.chance(1, 25) {
        *r.pick(&[256usize, 257, 1000, 4096, 16383, 16384, 16385, 32766, 32767])
    } else {
        sig::channels(r)
    }
}
pub fn any_rate(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => *r.pick(&[0u32, 1, u32::MAX, i32::MAX as u32, i32::MAX as u32 + 1, 384000, 2_822_400]),
        1 => r.u64() as u32 >> r.below(32),
        _ => sig::rate(r),
    }
}
pub fn pcm16(b: &[u8]) -> Vec<i16> {
    b.chunks_exact(2).map(|x| i16::from_le_bytes([x[0], x[1]])).collect()
}

// ---------------------------------------------------------------- C09
pub static C09: Prop = Prop {
    id: "C09",
    quick: 400000,
    thorough: 5000000,
    run: c09,
    rule: "Each case encodes random audio (19 generators incl. out-of-range and non-finite samples, 1..32767 channels, any sample rate, 0..400000 samples, random call partition incl. trailing partial sample frames) into a WAV codec, parses the saved bytes with an independent strict RIFF parser (magic, every size, PCM tag, channels, rate, byte rate, block alignment, bit depth, no stray bytes), compares each stored sample with the input, loads the bytes, compares rate, channels and every decoded sample, and saves again expecting identical bytes; one recording grows sample by sample past 4 GB, where the sizes in the header end, and its saves must have correct sizes or fail; one case in 4000 has 40000 to a million channels, which must be refused or come back. Distinct by (input bits, channels, rate).",
    assume: &["channel counts up to 32767 (block alignment is a 16-bit field); the byte-rate field is judged when rate*channels*2 fits 32 bits"],
    require: &[("samples_compared", 1_000_000), ("files_without_audio", 200), ("files_below_256_bytes", 1000), ("channels_over_255", 200), ("resaves_compared", 10_000), ("saved_up_to_4_gb", 1), ("over_4_gb_refused", 1), ("too_many_channels_refused", 30)],
};
/// a WAV file too long to be held in memory twice
struct LongFile {
    head: Vec<u8>,
    len: u64,
    at: u64,
}
impl std::io::Read for LongFile {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (self.len - self.at).min(b.len() as u64) as usize;
        b[..n].fill(0x55);
        if (self.at as usize) < self.head.len() {
            let h = &self.head[self.at as usize..];
            let k = h.len().min(n);
            b[..k].copy_from_slice(&h[..k]);
        }
        self.at += n as u64;
        Ok(n)
    }
}
impl std::io::Seek for LongFile {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.at = match p {
            std::io::SeekFrom::Start(x) => x,
            std::io::SeekFrom::Current(x) => self.at.saturating_add_signed(x),
            std::io::SeekFrom::End(x) => self.len.saturating_add_signed(x),
        }
        .min(self.len);
        Ok(self.at)
    }
}
/// a file with a long stretch that need not be stored (it looks like chunks to those who land in it)
struct Sparse<'a> {
    file: &'a [u8],
    gap_at: u64,
    gap: u64,
    at: u64,
}
impl std::io::Read for Sparse<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let (head, tail) = self.file.split_at(self.gap_at as usize);
        let k = if self.at < self.gap_at {
            std::io::Read::read(&mut &head[self.at as usize..], b)?
        } else if self.at < self.gap_at + self.gap {
            let k = b.len().min((self.gap_at + self.gap - self.at) as usize);
            let filler = b"data\x04\0\0\0fmt ";
            for (i, x) in b[..k].iter_mut().enumerate() {
                *x = filler[(self.at as usize + i) % 12];
            }
            k
        } else {
            let i = (self.at - self.gap_at - self.gap).min(tail.len() as u64) as usize;
            std::io::Read::read(&mut &tail[i..], b)?
        };
        self.at += k as u64;
        Ok(k)
    }
}
impl std::io::Seek for Sparse<'_> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let to = match p {
            std::io::SeekFrom::Start(x) => Some(x),
            std::io::SeekFrom::Current(x) => self.at.checked_add_signed(x),
            std::io::SeekFrom::End(x) => (self.file.len() as u64 + self.gap).checked_add_signed(x),
        };
        self.at = to.ok_or(std::io::ErrorKind::InvalidInput)?;
        Ok(self.at)
    }
}
/// a chunk of up to 4 GB before or after the data chunk
fn huge_chunk(c: &mut Ctx, r: &mut Rng) -> Res {
    crate::CASE_EXTRA_MS.store(60_000, std::sync::atomic::Ordering::SeqCst);
    let ch = r.usize(1, 4);
    let rate = any_rate(r);
    let data: Vec<u8> = (0..ch * 2 * r.usize(1, 500)).map(|_| r.u64() as u8).collect();
    let mut lay = Layout::random(r);
    let place = r.usize(0, 2);
    let list = [&mut lay.before_fmt, &mut lay.between, &mut lay.after].into_iter().nth(place).unwrap();
    list.insert(r.usize(0, list.len()), (b"HUGE".to_vec(), vec![]));
    let mut file = wavref::build(&lay, 1, ch as u16, rate, 16, &data);
    let most = u32::MAX as u64 - 1 - (file.len() as u64 - 8);
    let size = match r.below(4) {
        0 => (1u64 << 31) - 3 + r.below(7),
        1 => (1u64 << 31) + r.below(1 << 31).min(most - (1 << 31)),
        2 => most - r.below(3),
        _ => r.below(most),
    };
    let gap = size + size % 2;
    let Some(h) = (12..file.len() - 7).find(|&k| file[k..k + 8] == *b"HUGE\0\0\0\0") else { return Err("harness: chunk not found".into()) };
    file[h + 4..h + 8].copy_from_slice(&(size as u32).to_le_bytes());
    let riff = (file.len() as u64 + gap - 8) as u32;
    file[4..8].copy_from_slice(&riff.to_le_bytes());
    c.d(format!("chunk of {} bytes, {}", size, lay.describe()));
    let mut w = WavCodec::load(Sparse { file: &file, gap_at: h as u64 + 8, gap, at: 0 }).map_err(|e| format!("a file with a chunk of {} bytes does not load: {}", size, e))?;
    let info = w.info();
    ensure!(info.channels() == ch && info.frequency() == rate as usize, "file with a chunk of {} bytes loaded as {} ch {} Hz instead of {} ch {} Hz", size, info.channels(), info.frequency(), ch, rate);
    let out = decode_all(&mut w, ch, data.len() + ch)?;
    ensure!(out.len() * 2 == data.len(), "{} samples loaded, {} in the data chunk (other chunk of {} bytes)", out.len(), data.len() / 2, size);
    for (i, x) in out.iter().enumerate() {
        let k = i16::from_le_bytes([data[2 * i], data[2 * i + 1]]);
        ensure!((*x as f64 - k as f64 / 32767.0).abs() < 1e-6, "sample {} is {} instead of {}/32767 (other chunk of {} bytes)", i, x, k, size);
    }
    c.count("chunks_up_to_4_gb", 1);
    c.sig(hash_bytes(&file));
    Ok(())
}
/// keeps the first bytes only
#[derive(Default)]
struct Head(Vec<u8>, u64);
impl std::io::Write for Head {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = b.len().min(64usize.saturating_sub(self.0.len()));
        self.0.extend(&b[..k]);
        self.1 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// around 4 GB, where the sizes in the header end
fn c09_giant(c: &mut Ctx, r: &mut Rng) -> Res {
    crate::CASE_EXTRA_MS.store(120_000, std::sync::atomic::Ordering::SeqCst);
    let most = u32::MAX as u64 - 36;
    let start = (most & !1) - 2 * r.below(4);
    let mut head = wavref::build(&Layout::plain(), 1, 1, 44100, 16, &[]);
    let n = head.len();
    head[n - 4..].copy_from_slice(&(start as u32).to_le_bytes());
    let file = LongFile { len: head.len() as u64 + start, head, at: 0 };
    let mut w = WavCodec::load(file).map_err(|e| format!("a WAV file of {} bytes does not load: {}", start, e))?;
    w.seek(SeekFrom::End(0));
    let mut len = start;
    c.d(format!("WAV recording that grows from {} bytes past 4 GB", start));
    for step in 0..12 {
        let mut h = Head::default();
        let saved = w.save_to(&mut h);
        if len <= most {
            ensure!(saved.is_ok(), "saving {} bytes of audio fails: {:?}", len, saved);
        }
        if saved.is_ok() {
            let word = |i: usize| u32::from_le_bytes(h.0[i..i + 4].try_into().unwrap()) as u64;
            ensure!(h.1 == len + 44, "{} bytes of audio saved as a file of {}", len, h.1);
            ensure!(word(4) + 8 == h.1 && word(40) == len, "{} bytes of audio are saved without an error in a file of {} whose header says {} and {}", len, h.1, word(4), word(40));
            c.count("saved_up_to_4_gb", 1);
        } else {
            c.count("over_4_gb_refused", 1);
        }
        let k = if step < 8 { 1 } else { r.usize(1, 40) };
        ensure!(w.encode(&vec![0.25; k]) == Some(k), "encode took less than {} samples", k);
        len += 2 * k as u64;
    }
    Ok(())
}
/// around 65535 channels, where the header's channel count ends
fn c09_many(c: &mut Ctx, r: &mut Rng) -> Res {
    let ch = match r.below(4) {
        0 => r.usize(65_530, 65_540),
        1 => 65_536 * r.usize(1, 8) + r.usize(0, 3),
        2 => r.usize(65_536, 500_000),
        _ => *r.pick(&[40_000usize, 65_535, 65_536, 65_537, 1 << 20]),
    };
    let n = r.usize(0, 2);
    let a: Vec<f32> = (0..n * ch).map(|_| r.sym() as f32).collect();
    c.d(format!("WAV recording of {} frames with {} channels", n, ch));
    c.sig(hash_u64s(&[ch as u64, hash_f32s(&a)]));
    let mut w = WavCodec::new(StreamInfo::new(44100, ch as u32));
    ensure!(w.encode(&a) == Some(a.len()), "encode took less than {} samples", a.len());
    let mut b = vec![];
    if w.save_to(&mut b).is_err() {
        ensure!(ch > 65_535, "{} channels cannot be saved", ch);
        c.count("too_many_channels_refused", 1);
        return Ok(());
    }
    let mut l = wav_load(&b).map_err(|e| format!("{} channels are saved without an error in a file that does not load: {}", ch, e))?;
    ensure!(l.info().channels() == ch, "{} channels are saved without an error as {}", ch, l.info().channels());
    check_level0(&a, &decode_all(&mut l, ch, a.len() + ch)?, ch).map(|_| ())
}
fn c09(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    if idx == 4 {
        return c09_giant(c, r);
    }
    if idx % 4000 == 9 {
        return c09_many(c, r);
    }
    let ch = many_channels(r);
    let rate = any_rate(r);
    let cap = if idx % 200 == 3 { 400_000 } else if ch > 255 { 70_000 } else { 6_000 };
    let n = match r.below(6) {
        0 => 0,
        1 => r.usize(1, 4).min((cap / ch).max(1)),
        _ => sig::frames(r, ch, cap),
    };
    let dom = *r.pick(&[Domain::Any, Domain::Finite, Domain::Unit]);
    let a = if ch > 255 {
        let mut v = vec![];
        let (x, k) = sig::channel(r, dom, n * ch);
        v.extend(x);
        sig::Audio { ch, frames: n, data: v, kinds: vec![k] }
    } else {
        sig::audio(r, dom, ch, n)
    };
    let part = sig::partition(r, n, true);
    c.d(format!("rate {} {} {}", rate, a.describe(), sig::part_desc(&part)));
    let mut w = WavCodec::new(StreamInfo::new(rate, ch as u32));
    let mut at = 0;
    for &p in &part {
        let mut call = a.data[at * ch..(at + p) * ch].to_vec();
        if ch > 1 && r.chance(1, 6) {
            let extra = r.usize(1, ch - 1);
            call.extend(std::iter::repeat(0.77f32).take(extra));
        }
        w.encode(&call);
        at += p;
    }
    let bytes = wav_save(&w)?;
    let f = wavref::parse(&bytes).map_err(|e| format!("saved file is not well-formed: {}", e))?;
    ensure!(f.riff_size as usize == bytes.len() - 8, "RIFF size {} in a file of {} bytes", f.riff_size, bytes.len());
    ensure!(f.tag == 1 && f.bits == 16, "format tag {} with {} bits", f.tag, f.bits);
    ensure!(f.ch as usize == ch && f.rate == rate, "header says {} channels {} Hz instead of {} {}", f.ch, f.rate, ch, rate);
    ensure!(f.align as usize == ch * 2, "block alignment {} for {} channels", f.align, ch);
    if rate as u64 * ch as u64 * 2 <= u32::MAX as u64 {
        ensure!(f.byte_rate as u64 == rate as u64 * ch as u64 * 2, "byte rate {} for {} Hz {} ch", f.byte_rate, rate, ch);
    }
    ensure!(f.data.len() == a.data.len() * 2, "data chunk of {} bytes for {} samples", f.data.len(), a.data.len());
    let pcm = pcm16(&f.data);
    for i in 0..pcm.len() {
        let x = a.data[i];
        if x.is_finite() {
            let e = (pcm[i] as f64 / 32767.0 - (x as f64).clamp(-1.0, 1.0)).abs();
            ensure!(e <= STEP + 2e-7, "stored sample {} is {} for input {}", i, pcm[i], x);
        }
    }
    let mut l = wav_load(&bytes)?;
    let info = l.info();
    ensure!(info.channels() == ch && info.frequency() == rate as usize, "loaded as {} ch {} Hz instead of {} {}", info.channels(), info.frequency(), ch, rate);
    let again = wav_save(&l)?;
    ensure!(again == bytes, "saving the loaded file gives {} bytes that differ from the {} loaded", again.len(), bytes.len());
    c.count("resaves_compared", 1);
    let out = decode_all(&mut l, ch, a.data.len() + ch)?;
    check_level0(&a.data, &out, ch).map_err(|e| format!("loaded: {}", e))?;
    w.seek(SeekFrom::Start(0));
    // one sample frame at a time, or some
    let own = if r.chance(1, 2) { decode_all_buf(&mut w, ch, a.data.len() + ch, ch * r.usize(1, 4) + r.usize(0, ch - 1))? } else { decode_all(&mut w, ch, a.data.len() + ch)? };
    same(&own, &out).map_err(|e| format!("loaded copy vs original: {}", e))?;
    let again = wav_save(&l)?;
    ensure!(again == bytes, "saving after decoding gives different bytes");
    c.count("samples_compared", out.len() as u64);
    c.count("files_without_audio", out.is_empty() as u64);
    c.count("files_below_256_bytes", (bytes.len() < 256) as u64);
    c.count("channels_over_255", (ch > 255) as u64);
    c.sig(hash_u64s(&[hash_f32s(&a.data), ch as u64, rate as u64]));
    Ok(())
}

// ---------------------------------------------------------------- C10
pub static C10: Prop = Prop {
    id: "C10",
    quick: 400000,
    thorough: 8000000,
    run: c10,
    rule: "Online model checking of random histories (5-60 calls) (1 to 32767 channels, any sample rate) of encode (whole, partial, empty), decode (any buffer length incl. 0, below one frame, no multiple of the frame), seek from start, current and end (milliseconds in range, around the ends, negative, extreme), save and load against a vector of 16-bit samples with one frame position; after every call the complete content is compared through the saved file and the position through what the next decode delivers. Distinct by the history.",
    assume: &["seek offsets where rate*t/1000 lies within 2.5e-7 relative of an integer are not generated (either neighbour would be right)"],
    require: &[("calls", 300_000), ("seeks_from_start", 20_000), ("seeks_from_current", 20_000), ("seeks_from_end", 20_000), ("overwrites", 10_000), ("overwrites_across_end", 3_000), ("seeks_on_empty", 1_000), ("channels_over_255", 100), ("rates_over_2_31", 500), ("extreme_seeks", 3_000)],
};
fn seek_ms(r: &mut Rng, rate: u32, frames: usize) -> i64 {
    let dur = (frames as f64 * 1000.0 / (rate.max(1)) as f64) as i64 + 3;
    match r.below(8) {
        0 => *r.pick(&[i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX / 2, i64::MIN / 2, 1 << 31, -(1 << 31), 1 << 32, 1 << 62, i64::MAX / 1000]),
        1 => (r.u64() as i64) >> r.below(64),
        2 => r.i64(-3, 3),
        3 => dur + r.i64(-5, 3),
        4 => -dur + r.i64(-3, 5),
        _ => r.i64(-dur, dur),
    }
}
fn c10(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let wide = idx % 300 == 7;
    let ch = match r.below(4) {
        _ if wide => *r.pick(&[256usize, 300, 1000, 4095, 16383, 16384, 16385, 20001, 32766, 32767]),
        0 => 1,
        1 => 2,
        _ => sig::channels(r),
    };
    let rate = match r.below(4) {
        0 => 1000,
        1 => 2000,
        2 => *r.pick(&[1u32, 7, 100, 500, 3000, 0]),
        _ if r.chance(1, 6) => any_rate(r),
        _ => sig::rate(r),
    };
    let mut m: Vec<i16> = vec![];
    let mut pos = 0usize; // in sample frames
    let mut hist: Vec<String> = vec![];
    let huge = idx % 50_000 == 1234;
    let large = huge || idx % 1000 == 17;
    let (ch, rate) = if huge { (1, rate.max(1)) } else { (ch, rate) };
    let mut w = WavCodec::new(StreamInfo::new(rate, ch as u32));
    let steps = if large || wide { r.usize(5, 12) } else { r.usize(5, if idx % 50 == 0 { 200 } else { 60 }) };
    c.count("streams_over_65536_frames", large as u64);
    c.count("channels_over_255", (wide) as u64);
    c.count("rates_over_2_31", (rate > i32::MAX as u32) as u64);
    c.count("streams_over_2_24_frames", huge as u64);
    let tail = |h: &Vec<String>| h[h.len().saturating_sub(12)..].join(", ");
    if large || r.chance(1, 3) {
        // start from a loaded file
        let n = if huge { (1 << 24) + r.usize(0, 100_000) } else if large { r.usize(65_000, 140_000) } else { r.usize(0, if wide { 6 } else { 60 }) };
        m = (0..n * ch).map(|_| r.i64(-32768, 32767) as i16).collect();
        let b: Vec<u8> = m.iter().flat_map(|x| x.to_le_bytes()).collect();
        w = wav_load(&wavref::build(&Layout::plain(), 1, ch as u16, rate, 16, &b))?;
        hist.push(format!("load {}", n));
    }
    let mut hh = hash_u64s(&[ch as u64, rate as u64]);
    for _ in 0..steps {
        let frames = m.len() / ch;
        c.count("calls", 1);
        match r.below(10) {
            0..=2 => {
                let n = match r.below(5) {
                    0 => r.usize(0, 2 * ch),
                    1 => r.usize(0, 3),
                    _ => r.logsize(1, 40) * ch,
                }
                .min(6000);
                let n = if wide { r.usize(0, 4) * ch + if r.chance(1, 2) { r.usize(0, ch - 1) } else { 0 } } else { n };
                let whole = n / ch * ch;
                let v: Vec<i32> = (0..n)
                    .map(|_| match r.below(4) {
                        0 => *r.pick(&[0, 1, -1, 32767, -32767]),
                        _ => r.i64(-32767, 32767) as i32,
                    })
                    .collect();
                let f: Vec<f32> = v.iter().map(|&k| sig::grid(k)).collect();
                hist.push(format!("encode {}", n));
                let got = w.encode(&f);
                ensure!(got.unwrap_or(0) == whole, "after [{}] encode of {} samples reports {:?} ({} channels)", tail(&hist), n, got, ch);
                let p = pos * ch;
                c.count("overwrites", (p < m.len() && whole > 0) as u64);
                c.count("overwrites_across_end", (p < m.len() && p + whole > m.len()) as u64);
                for (i, &k) in v[..whole].iter().enumerate() {
                    if p + i < m.len() {
                        m[p + i] = k as i16
                    } else {
                        m.push(k as i16)
                    }
                }
                pos += whole / ch;
                hh = hash_u64s(&[hh, 1, hash_f32s(&f)]);
            }
            3..=4 => {
                let len = match r.below(5) {
                    0 => r.usize(0, ch),
                    1 => r.usize(0, 3 * ch + 1),
                    _ => r.logsize(1, if wide { 8 } else { 60 } * ch),
                };
                let mut buf = vec![7.5f32; len];
                let got = w.decode(&mut buf).unwrap_or(0);
                hist.push(format!("decode {}", len));
                let want = (len / ch).min(frames - pos) * ch;
                ensure!(got == want, "after [{}] decode delivers {} samples, expected {} (position {} of {} frames, {} channels)", tail(&hist), got, want, pos, frames, ch);
                for i in 0..got {
                    let e = buf[i] as f64 - m[pos * ch + i] as f64 / 32767.0;
                    ensure!(e.abs() < 1e-6, "after [{}] sample {} delivered as {} instead of {}/32767", tail(&hist), pos * ch + i, buf[i], m[pos * ch + i]);
                }
                ensure!(buf[got..].iter().all(|&x| x == 7.5), "after [{}] decode wrote behind the {} samples it reported", tail(&hist), got);
                pos += want / ch;
                hh = hash_u64s(&[hh, 2, len as u64]);
            }
            5..=8 => {
                let mut t;
                let kind = r.below(3);
                loop {
                    t = seek_ms(r, rate, frames);
                    if kind == 0 && t < 0 {
                        if r.chance(1, 2) {
                            continue;
                        }
                        // as u64: far beyond the end
                    }
                    let v = if kind == 0 { t as u64 as f64 } else { t as f64 };
                    let (lo, hi) = pos_range(rate, v);
                    // both beyond the same end are the same
                    let clampv = |x: f64| x.clamp(-(frames as f64), frames as f64);
                    if clampv(lo) == clampv(hi) {
                        break;
                    }
                }
                let (reference, off) = match kind {
                    0 => (0f64, t as u64 as f64),
                    1 => (pos as f64, t as f64),
                    _ => (frames as f64, t as f64),
                };
                let off = (rate as f64 * off / 1000.0).trunc();
                let target = (reference + off).clamp(0.0, frames as f64) as usize;
                let (dt, name) = match kind {
                    0 => (SeekFrom::Start(t as u64), "seeks_from_start"),
                    1 => (SeekFrom::Current(t), "seeks_from_current"),
                    _ => (SeekFrom::End(t), "seeks_from_end"),
                };
                w.seek(dt);
                hist.push(format!("{:?}", dt));
                c.count(name, 1);
                c.count("seeks_on_empty", (frames == 0) as u64);
                c.count("extreme_seeks", (t.unsigned_abs() > 1 << 40) as u64);
                pos = target;
                hh = hash_u64s(&[hh, 3 + kind, t as u64]);
            }
            _ => {
                if r.chance(1, 3) {
                    w = wav_load(&wav_save(&w)?)?;
                    pos = 0;
                    hist.push("save+load".into());
                    hh = hash_u64s(&[hh, 9]);
                }
            }
        }
        // content after every call
        let b = wav_save(&w)?;
        let f = wavref::parse(&b).map_err(|e| format!("after [{}] save is not well-formed: {}", tail(&hist), e))?;
        let got = pcm16(&f.data);
        if got != m {
            let i = got.iter().zip(&m).position(|(a, b)| a != b).unwrap_or(got.len().min(m.len()));
            return Err(format!(
                "after [{}] content differs at sample {} ({} channels): {:?} instead of {:?}; {} samples instead of {}",
                tail(&hist), i, ch, got.get(i), m.get(i), got.len(), m.len()
            ));
        }
        let i = w.info();
        ensure!(i.channels() == ch && i.frequency() == rate as usize, "after [{}] info is {} ch {} Hz", tail(&hist), i.channels(), i.frequency());
    }
    // the position at the end of the history
    let rest = decode_all_buf(&mut w, ch, m.len() + ch, ch * 3)?;
    ensure!(rest.len() == m.len() - pos * ch, "after [{}] {} samples left, expected {}", tail(&hist), rest.len(), m.len() - pos * ch);
    for (i, x) in rest.iter().enumerate() {
        let e = *x as f64 - m[pos * ch + i] as f64 / 32767.0;
        ensure!(e.abs() < 1e-6, "after [{}] sample {} delivered as {}", tail(&hist), pos * ch + i, x);
    }
    c.d(format!("{} ch {} Hz: {}", ch, rate, hist.join(", ")));
    c.sig(hh);
    Ok(())
}

// ---------------------------------------------------------------- C11
pub static C11: Prop = Prop {
    id: "C11",
    quick: 400000,
    thorough: 8000000,
    run: c11,
    rule: "Each case builds a valid RIFF/WAVE file with an independent writer: 8- or 16-bit PCM, 1..65535 channels, fmt chunk of 16/18/40 bytes, random extra chunks (LIST, JUNK, fact, bext, ...; sizes 0..3000, contents incl. text that looks like 'data' and 'fmt ' headers) before fmt, before data and after data, data chunks of 0..300 kB, odd sizes with and without pad byte, partial last frames; and, for one case in 5000, one extra chunk of up to 4 GB (a sparse file whose gap looks like chunks); load must yield rate, channels and exactly the data chunk's whole frames. Other formats (24/32-bit, float, ADPCM, A-law) must be refused. Every value of 8-bit audio is checked for tolerance, monotony and symmetry (to one 16-bit step). Distinct by file bytes.",
    assume: &["8-bit tolerance 0.001 around (value-127.5)/127.5"],
    require: &[("files_loaded", 15_000), ("files_8bit", 4_000), ("files_with_chunks_before_data", 5_000), ("files_with_chunks_after_data", 5_000), ("files_without_samples", 500), ("files_below_300_bytes", 3_000), ("odd_data_sizes", 500), ("foreign_formats_refused", 1_500), ("chunks_up_to_4_gb", 20), ("samples_compared", 1_000_000)],
};
fn c11(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    if idx % 5000 == 77 {
        return huge_chunk(c, r);
    }
    let mut lay = if r.chance(1, 5) { Layout::plain() } else { Layout::random(r) };
    lay.omit_final_pad = r.chance(1, 2);
    let bits = if r.chance(1, 3) { 8u16 } else { 16 };
    let ch = if r.chance(1, 30) { *r.pick(&[1000usize, 32767, 32768, 40000, 65535]) } else { sig::channels(r) };
    let rate = any_rate(r);
    if r.chance(1, 10) {
        // another format
        let (tag, b) = *r.pick(&[(1u16, 24u16), (1, 32), (1, 12), (3, 32), (3, 64), (6, 8), (7, 8), (2, 4), (1, 64), (0x11, 4), (1, 20), (2, 16), (3, 16), (1, 4), (0x55, 0)]);
        let n = r.logsize(0, 500);
        let data: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
        let file = wavref::build(&lay, tag, ch.min(8) as u16, rate, b, &data);
        c.d(format!("format {} with {} bits, {}", tag, b, lay.describe()));
        ensure!(WavCodec::load(std::io::Cursor::new(&file[..])).is_err(), "a file with format tag {} and {} bits was not refused", tag, b);
        c.count("foreign_formats_refused", 1);
        c.sig(hash_bytes(&file));
        return Ok(());
    }
    let bytes = bits as usize / 8;
    let block = ch * bytes;
    let n = match r.below(7) {
        0 => 0,
        1 => r.usize(0, 3) * block,
        2 => r.logsize(1, 300),
        3 => r.usize(1, 20) * block + r.usize(0, block),
        _ => r.logsize(1, if idx % 300 == 0 { 300_000 } else { 6_000 }) / block * block,
    }
    .min(400_000);
    let mut data: Vec<u8> = if r.chance(1, 8) {
        b"datafmt LISTRIFF\x04\x00\x00\x00".iter().cycle().take(n).copied().collect()
    } else {
        (0..n).map(|_| r.u64() as u8).collect()
    };
    if bits == 8 && r.chance(1, 3) && n >= 256 {
        for i in 0..256 {
            data[i] = i as u8
        }
    }
    let file = wavref::build(&lay, 1, ch as u16, rate, bits, &data);
    c.d(format!("{} bit {} ch {} Hz, {} data bytes, {}", bits, ch, rate, n, lay.describe()));
    let mut w = wav_load(&file)?;
    let info = w.info();
    ensure!(info.channels() == ch && info.frequency() == rate as usize, "loaded as {} ch {} Hz, header says {} ch {} Hz", info.channels(), info.frequency(), ch, rate);
    let whole = n / block * ch;
    let out = decode_all(&mut w, ch, n + ch)?;
    ensure!(out.len() == whole, "{} samples loaded, data chunk holds {} whole samples ({} bytes)", out.len(), whole, n);
    if bits == 16 {
        for i in 0..whole {
            let k = i16::from_le_bytes([data[2 * i], data[2 * i + 1]]);
            let e = (out[i] as f64 - k as f64 / 32767.0).abs();
            ensure!(e < 1e-6, "sample {} is {} instead of {}/32767", i, out[i], k);
        }
        // taken over exactly: saving writes the same PCM
        let f = wavref::parse(&wav_save(&w)?).map_err(|e| format!("saved copy: {}", e))?;
        ensure!(f.data == data[..whole * 2], "saved copy of a 16-bit file has different PCM data");
    } else {
        let mut map = [None::<f32>; 256];
        for i in 0..whole {
            let v = data[i];
            let e = out[i] as f64 - (v as f64 - 127.5) / 127.5;
            ensure!(e.abs() <= 0.001, "8-bit value {} loads as {}", v, out[i]);
            ensure!(out[i].abs() <= 1.0, "8-bit value {} loads as {}", v, out[i]);
            match map[v as usize] {
                None => map[v as usize] = Some(out[i]),
                Some(x) => ensure!(x.to_bits() == out[i].to_bits(), "8-bit value {} loads as {} and as {}", v, x, out[i]),
            }
        }
        let mut last = f32::NEG_INFINITY;
        for v in 0..256 {
            if let Some(x) = map[v] {
                ensure!(x > last, "8-bit value {} loads as {}, not above {}", v, x, last);
                last = x;
                if let Some(y) = map[255 - v] {
                    ensure!((x as f64 + y as f64).abs() <= STEP + 2e-7, "8-bit values {} and {} load as {} and {}", v, 255 - v, x, y);
                }
            }
        }
        c.count("files_8bit", 1);
        c.count("files_8bit_all_values", map.iter().all(|x| x.is_some()) as u64);
    }
    c.count("files_loaded", 1);
    c.count("files_with_chunks_before_data", (!lay.between.is_empty() || !lay.before_fmt.is_empty()) as u64);
    c.count("files_with_chunks_after_data", (!lay.after.is_empty()) as u64);
    c.count("files_without_samples", (whole == 0) as u64);
    c.count("files_below_300_bytes", (file.len() < 300) as u64);
    c.count("odd_data_sizes", (n % 2) as u64);
    c.count("partial_last_frames", (n % block != 0) as u64);
    c.count("samples_compared", whole as u64);
    c.sig(hash_bytes(&file));
    Ok(())
}
