//! C27, C29, C30: what the levels buy, time linear in the length, several streams in one file.
use super::Prop;
use crate::ad::*;
use crate::ctx::*;
use crate::ensure;
use crate::rng::*;
use crate::sig::{self, Domain};
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};
use std::io::{Read, Write};
use std::sync::atomic::Ordering::Relaxed;

pub const PROPS: &[&Prop] = &[&C27, &C29, &C30];

// ---------------------------------------------------------------- C27
pub static C27: Prop = Prop {
    id: "C27",
    quick: 1600,
    thorough: 60000,
    run: c27,
    rule: "Each case draws 4000-30000 sample frames (1-4 channels, random calls) of noisy audio of moderate loudness, or of quiet, constant or tonal audio, encodes them at every level 0-10 and at one request above 10, and compares per level: the file size against level 0 (noise that spans at least 4 steps: at least 0.8 bits per sample saved from each level to the next, and 0.9 per level in all, less 0.1); the RMS error against an ideal quantizer of step 2^L/32767 with triangular dither of 0.001 (such noise: at most 10% above); the mean error per channel (such noise at every level, any audio at levels 1-5 where the dither spans a step: within 7 standard errors of 0); requests above 10 against the bytes of level 10. Distinct by signal and calls.",
    assume: &["noise of amplitude up to 0.25 around an offset within 0.6, so that neither clipping nor the 16-bit range interferes", "other audio within 0.95"],
    require: &[("levels_compared", 10_000), ("rms_checked", 5_000), ("mean_checked", 10_000), ("noisy", 400), ("constant", 100), ("other", 150), ("over_10_compared", 1_000)],
};
fn c27(c: &mut Ctx, r: &mut Rng, _idx: u64) -> Res {
    let ch = r.usize(1, 4);
    let n = r.logsize(4000, 30_000) / ch.min(2);
    let len = n * ch;
    let kind = r.below(4);
    let noisy = kind < 2;
    // noise has at least this amplitude
    let loudness = 0.125f64 * (1.0 / 16.0f64).powf(r.unit());
    let data: Vec<f32> = match kind {
        0 | 1 => {
            let amp: Vec<f64> = (0..ch).map(|_| loudness * (1.0 + r.unit())).collect();
            let off: Vec<f64> = (0..ch).map(|_| if r.chance(1, 2) { 0.0 } else { r.sym() * 0.6 }).collect();
            (0..len).map(|i| ((r.sym() + r.sym() + r.sym() + r.sym()) * 0.25 * amp[i % ch] + off[i % ch]) as f32).collect()
        }
        2 => {
            let v: Vec<f64> = (0..ch).map(|_| if r.chance(1, 2) { r.sym() * 0.9 } else { r.sym() * 0.01 }).collect();
            (0..len).map(|i| v[i % ch] as f32).collect()
        }
        _ => {
            let a = sig::audio(r, Domain::Unit, ch, n);
            let g = if r.chance(1, 3) { 0.01 } else { 0.95 };
            a.data.iter().map(|x| x * g).collect()
        }
    };
    c.count(["noisy", "noisy", "constant", "other"][kind as usize], 1);
    let fixed = *r.pick(&[n, 4096, 1024, 441, 100]);
    let part: Vec<usize> = if r.chance(1, 2) { sig::partition(r, n, false) } else { (0..n.div_ceil(fixed)).map(|i| fixed.min(n - i * fixed)).collect() };
    let rate = sig::rate(r);
    c.d(format!("kind {} {} ch x {} frames, {}", kind, ch, n, sig::part_desc(&part)));
    let mut size0 = 0f64;
    let mut last = 0f64;
    let mut file10 = vec![];
    for level in 0..=10u32 {
        let mut codec = new_codec_any(r, rate, ch, level);
        let k = encode_parts(&mut codec, &data, ch, &part)?;
        ensure!(k as usize == len, "encode reports {} of {} samples", k, len);
        let file = save(&codec)?;
        rewind(r, &mut codec);
        let out = decode_all(&mut codec, ch, len + 16)?;
        ensure!(out.len() == len, "level {}: {} of {} samples decoded", level, out.len(), len);
        // noise spans several steps
        let step = (1u64 << level) as f64 * STEP;
        let covered = noisy && loudness >= 4.0 * step * 0.999;
        // size
        let bits = file.len() as f64 * 8.0 / len as f64;
        if level == 0 {
            size0 = bits;
        } else {
            // (the residue takes 3 bits per sample at least)
            ensure!(!covered || bits <= last - 0.8, "noise takes {:.3} bits per sample at level {} and {:.3} at level {}", bits, level, last, level - 1);
            ensure!(!covered || bits <= size0 - 0.9 * level as f64 + 0.1, "noise takes {:.3} bits per sample at level {} and {:.3} at level 0", bits, level, size0);
            c.count("levels_compared", 1);
        }
        last = bits;
        // noise
        let dither = 0.001 * (1.0 - 1.0 / (1u64 << level) as f64);
        let ideal = (step * step / 12.0 + dither * dither / 6.0).sqrt();
        if covered {
            let rms = (data.iter().zip(&out).map(|(a, b)| (*a as f64 - *b as f64).powi(2)).sum::<f64>() / len as f64).sqrt();
            ensure!(rms <= 1.1 * ideal, "level {}: RMS error {:.3e}, {:.3} times that of an ideal dithered quantizer", level, rms, rms / ideal);
            c.count("rms_checked", 1);
        }
        if covered || (1..=5).contains(&level) {
            for k in 0..ch {
                let mean = (0..n).map(|i| out[i * ch + k] as f64 - data[i * ch + k] as f64).sum::<f64>() / n as f64;
                let sigma = ideal / (n as f64).sqrt();
                ensure!(mean.abs() <= 7.0 * sigma, "level {} channel {}: decoded audio is {:+.3e} off on average ({:.1} standard errors)", level, k, mean, mean / sigma);
                c.count("mean_checked", 1);
            }
        }
        if level == 10 {
            file10 = file;
        }
    }
    let over = super::codec::over_10(r);
    let mut codec = new_codec_any(r, rate, ch, over);
    encode_parts(&mut codec, &data, ch, &part)?;
    ensure!(save(&codec)? == file10, "level {} does not give the same file as level 10", over);
    c.count("over_10_compared", 1);
    c.sig(hash_f32s(&data) ^ part.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C29
pub static C29: Prop = Prop {
    id: "C29",
    quick: 162,
    thorough: 1500,
    run: c29,
    rule: "Each case measures the CPU time per sample of one operation (encode in one call, in equal calls of a random size, in random calls; re-encode over an old recording; decode in one call, in small buffers, with tiny frames; save; load; count and size bound; seek; for the compressed and the WAV codec) on n and on 64n samples, or on the same number in 4 and in 256 to 4096 channels; an operation that takes more than 8 times longer per sample in all of three independent measurements is not linear. Distinct by (operation, channels, sizes, signal).",
    assume: &["a quadratic step costs at least 1/5 of the linear work at 64n samples (0.5-2 million)", "thread CPU time, best of several runs at n"],
    require: &[("operations_timed", 60), ("cpu_ms_large", 1_000), ("long", 60), ("wide", 15), ("allocations_limited_below_1_per_10", 40)],
};
fn cpu_ns() -> f64 {
    let mut t = [0i64; 2];
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut i64) -> i32;
    }
    unsafe { clock_gettime(3, t.as_mut_ptr()) };
    t[0] as f64 * 1e9 + t[1] as f64
}
const OPS: [&str; 18] = [
    "encode in one call",
    "encode in equal calls",
    "encode in random calls",
    "encode over an old recording",
    "decode in one call",
    "decode in small buffers",
    "decode frame by frame from small calls",
    "save",
    "load",
    "count and bound",
    "seek near the end",
    "seek to the middle of one large recording of small calls",
    "rewind and decode again",
    "wav encode in calls",
    "wav decode in small buffers",
    "wav save",
    "wav load",
    "wav overwrite",
];
/// CPU time and allocations of one run of an operation on `n` frames
fn timed(op: usize, ch: usize, n: usize, per: usize, buf: usize, level: u32, proto: &[f32], seed: u64) -> Result<(f64, usize), String> {
    let mut r = Rng::new(seed);
    let len = n * ch;
    let data: Vec<f32> = proto.iter().cycle().take(len).copied().collect();
    let info = StreamInfo::new(44100, ch as u32);
    let mut codec = new_codec(44100, ch, level);
    let mut wav = WavCodec::new(info);
    let by = |c: &mut dyn Streamable, d: &[f32], k: usize| {
        for b in d.chunks(k.max(1) * ch) {
            c.encode(b);
        }
    };
    let drain = |c: &mut dyn Streamable, k: usize| -> usize {
        let mut b = vec![0.0; k.max(1) * ch];
        let mut n = 0;
        while let Some(k) = c.decode(&mut b) {
            if k == 0 {
                break;
            }
            n += k;
        }
        n
    };
    let mut file = vec![];
    // preparation
    match op {
        3 => {
            by(&mut codec, &data, per);
            codec.init();
        }
        4 | 5 | 7 | 9 | 12 => {
            by(&mut codec, &data, 4096);
            codec.init();
            if op == 12 {
                drain(&mut codec, 4096);
            }
        }
        6 | 10 | 11 => {
            by(&mut codec, &data, per.min(64));
            codec.init();
        }
        8 => {
            by(&mut codec, &data, per);
            file = save(&codec)?;
        }
        14 | 15 | 17 => {
            wav.encode(&data);
            wav.seek(SeekFrom::Start(0));
        }
        16 => {
            wav.encode(&data);
            file = wav_save(&wav)?;
        }
        _ => {}
    }
    let allocs = ALLOCS.load(Relaxed);
    let t = cpu_ns();
    let mut done = len;
    match op {
        0 => {
            codec.encode(&data);
        }
        1 | 3 => by(&mut codec, &data, per),
        2 => {
            let mut at = 0;
            while at < n {
                let k = r.logsize(1, 4000).min(n - at);
                codec.encode(&data[at * ch..(at + k) * ch]);
                at += k;
            }
        }
        4 => done = drain(&mut codec, n),
        5 => done = drain(&mut codec, buf),
        6 => done = drain(&mut codec, buf),
        7 => {
            save(&codec)?;
        }
        8 => {
            load(&file)?;
        }
        9 => {
            // a few times, as one is short
            let mut x = 0;
            for _ in 0..4 {
                x += codec.calculate_sample_count_per_channel() + Streamable::filesize_upperbound(&codec);
            }
            ensure!(x > 0, "no samples");
        }
        10 | 11 => {
            let ms = (n as f64 * if op == 10 { 0.999 } else { 0.5 } / 44.1) as u64;
            codec.seek(SeekFrom::Start(ms));
            let mut b = vec![0.0; ch];
            ensure!(codec.decode(&mut b).is_some(), "nothing to decode after a seek inside the audio");
        }
        12 => {
            codec.init();
            done = drain(&mut codec, buf);
        }
        13 => by(&mut wav, &data, per),
        14 => done = drain(&mut wav, buf),
        15 => {
            wav_save(&wav)?;
        }
        16 => {
            wav_load(&file)?;
        }
        _ => by(&mut wav, &data, per),
    }
    let t = cpu_ns() - t;
    let allocs = ALLOCS.load(Relaxed) - allocs;
    ensure!(done == len, "{}: {} of {} samples", OPS[op], done, len);
    Ok((t, allocs))
}
fn c29(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let op = (idx as usize) % OPS.len();
    let ch = *r.pick(&[1usize, 1, 2, 3, 8]);
    let slow = [0, 1, 2, 3, 6].contains(&op);
    let big = if op >= 13 { 4_000_000 } else if slow { r.usize(500_000, 1_000_000) } else { r.usize(700_000, 2_000_000) };
    // 64 times as long, or the same length in 64 times as many channels
    let wide = !(7..=11).contains(&op) && idx / OPS.len() as u64 % 3 == 2;
    let many = *r.pick(&[256, 1024, 4096]);
    let (ch, n1, ch2, n2) = if wide { (4, big / 4, many, big / many) } else { (ch, big / 64 / ch, ch, big / 64 / ch * 64) };
    let level = if r.chance(1, 2) { 0 } else { r.usize(1, 10) as u32 };
    let (per, buf) = (r.logsize(1, if wide { 300 } else { 2000 }), r.logsize(1, if wide { 300 } else { 2000 }));
    let a = sig::audio(r, Domain::Unit, ch, 5000);
    let seed = r.u64();
    c.d(format!("{}: {} ch x {} and {} ch x {} frames, calls of {}, buffers of {}, level {}, {}", OPS[op], ch, n1, ch2, n2, per, buf, level, a.describe()));
    let scale = (ch2 * n2) as f64 / (ch * n1) as f64;
    let mut worst = vec![];
    for _ in 0..3 {
        // the clock is coarse compared with short runs: the same work until 3 ms have been seen
        let (mut small, mut total, mut runs) = (f64::MAX, 0.0, 0);
        while runs < 3 || (total < 3e6 && runs < 300) {
            let (t, _) = timed(op, ch, n1, per, buf, level, &a.data, seed)?;
            small = small.min(t);
            total += t;
            runs += 1;
        }
        let small = small.max(2_000.0);
        let (large, allocs) = timed(op, ch2, n2, per, buf, level, &a.data, seed)?;
        // storage grows by doubling: a few allocations for each list, and room for a few in each call on each channel
        let frames = match op {
            0 | 4 | 7..=10 | 12 | 15 | 16 => n2.div_ceil(4096),
            1 | 3 | 13 | 17 => n2.div_ceil(per),
            2 | 5 | 14 => n2.div_ceil(buf.min(300)),
            _ => n2.div_ceil(per.min(64)),
        } * ch2;
        let limit = 300 + 40 * ch2 + 8 * frames + n2 * ch2 / 50;
        c.count("allocations_limited_below_1_per_10", (limit < n2 * ch2 / 10) as u64);
        let m = c.counters.entry("allocations_per_mille_of_limit_max".into()).or_default();
        *m = (*m).max((allocs * 1000 / limit) as u64);
        ensure!(allocs <= limit, "{} makes {} allocations for {} ch x {} frames, more than the few per call and list that growth by doubling takes ({})", OPS[op], allocs, ch2, n2, limit);
        let ratio = large / scale / small;
        c.count("operations_timed", 1);
        c.count(if wide { "wide" } else { "long" }, 1);
        c.count("cpu_ms_large", (large / 1e6) as u64);
        if std::env::var("MON_DEBUG").is_ok() {
            eprintln!("{:40} ch {} n {} per {} buf {} ratio {:.2} small {:.3} ms large {:.1} ms", OPS[op], ch2, n2, per, buf, ratio, small / 1e6, large / 1e6);
        }
        worst.push((ratio, small, large));
        if ratio <= 8.0 || large < 2e7 {
            if large >= 2e7 {
                c.count("slower_than_2x", (ratio > 2.0) as u64);
                let m = c.counters.entry("ratio_percent_max".into()).or_default();
                *m = (*m).max((ratio * 100.0) as u64);
            }
            break;
        }
    }
    if worst.len() == 3 && worst.iter().all(|w| w.0 > 8.0 && w.2 >= 2e7) {
        let w = worst.iter().min_by(|a, b| a.0.total_cmp(&b.0)).unwrap();
        return Err(format!("{} takes {:.2} ms for {} x {} samples but {:.0} ms for {} x {} ({:.0} times longer per sample)", OPS[op], w.1 / 1e6, ch, n1, w.2 / 1e6, ch2, n2, w.0));
    }
    c.sig(hash_u64s(&[idx, hash_f32s(&a.data), n1 as u64, per as u64]));
    Ok(())
}

// ---------------------------------------------------------------- C30
pub static C30: Prop = Prop {
    id: "C30",
    quick: 30000,
    thorough: 1500000,
    run: c30,
    rule: "Each case writes 1-6 recordings (compressed or WAV, any level and partition, with or without audio) and stray bytes one after another into one growing file (Vec, cursor in the middle of a buffer, writer that takes few bytes at a time), checking that each save appends exactly the bytes of a save on its own and leaves the rest alone; then loads them in turn from one reader passed by reference (slice, cursor, reader that delivers few bytes at a time), checking that the reader stands right behind the recording after each load and that each recording decodes, counts and re-saves as the original. Distinct by file bytes.",
    assume: &["WAV recordings are read through a seekable reader"],
    require: &[("saves_in_sequence", 20_000), ("loads_in_sequence", 20_000), ("compressed", 8_000), ("wav", 5_000), ("short_reads", 3_000), ("short_writes", 3_000), ("stray_bytes", 5_000)],
};
enum Rec {
    A(AdhocCodec),
    W(WavCodec),
}
impl Rec {
    fn s(&mut self) -> &mut dyn Streamable {
        match self {
            Rec::A(c) => c,
            Rec::W(c) => c,
        }
    }
    fn save_to(&self, w: &mut dyn Write) -> Res {
        match self {
            Rec::A(c) => c.save_to(w).ok_or("save_to failed")?,
            Rec::W(c) => c.save_to(w).map_err(|e| format!("wav save_to failed: {}", e))?,
        }
        Ok(())
    }
}
struct Few<T>(T, Rng);
impl<T: Read> Read for Few<T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1.usize(1, 40));
        self.0.read(&mut b[..n])
    }
}
impl<T: std::io::Seek> std::io::Seek for Few<T> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}
impl<T: Write> Write for Few<T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1.usize(1, 40));
        self.0.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}
fn c30(c: &mut Ctx, r: &mut Rng, _idx: u64) -> Res {
    let mut file: Vec<u8> = vec![];
    let mut recs = vec![];
    // behind the recordings: what was in the file before
    let cursor = r.chance(1, 3);
    let old: Vec<u8> = if cursor { (0..r.usize(0, 300_000)).map(|i| (i * 7) as u8).collect() } else { vec![] };
    if cursor {
        file = old.clone();
    }
    let mut at = 0usize;
    for _ in 0..r.usize(1, 6) {
        if r.chance(1, 3) {
            let k = r.usize(1, 50);
            let junk: Vec<u8> = (0..k).map(|_| r.u64() as u8).collect();
            if file.len() < at + k {
                file.resize(at + k, 0);
            }
            file[at..at + k].copy_from_slice(&junk);
            at += k;
            c.count("stray_bytes", 1);
        }
        let ch = sig::channels(r);
        let n = sig::frames(r, ch, 3000);
        let a = sig::audio(r, Domain::Finite, ch, n);
        let part = sig::partition(r, n, true);
        let rate = sig::rate(r);
        let mut rec = if r.chance(3, 5) {
            c.count("compressed", 1);
            let level = r.usize(0, 10) as u32;
            Rec::A(new_codec_any(r, rate, ch, level))
        } else {
            c.count("wav", 1);
            Rec::W(WavCodec::new(StreamInfo::new(rate, ch as u32)))
        };
        encode_parts(rec.s(), &a.data, ch, &part)?;
        let mut alone = vec![];
        rec.save_to(&mut alone)?;
        let few = r.chance(1, 3);
        c.count("short_writes", few as u64);
        let sub = r.fork();
        let before = file.clone();
        let end = if cursor {
            let mut cur = std::io::Cursor::new(std::mem::take(&mut file));
            cur.set_position(at as u64);
            if few {
                let mut f = Few(cur, sub);
                rec.save_to(&mut f)?;
                cur = f.0;
            } else {
                rec.save_to(&mut cur)?;
            }
            let p = cur.position() as usize;
            file = cur.into_inner();
            p
        } else {
            if few {
                let mut f = Few(&mut file, sub);
                rec.save_to(&mut f)?;
            } else {
                rec.save_to(&mut file)?;
            }
            file.len()
        };
        c.d(format!("{} {} at {} ({} bytes{})", if matches!(rec, Rec::A(_)) { "adhoc" } else { "wav" }, a.describe(), at, alone.len(), if few { ", few bytes a time" } else { "" }));
        ensure!(end == at + alone.len(), "a recording of {} bytes saved at {} leaves the writer at {}", alone.len(), at, end);
        ensure!(file[at..end] == alone[..], "a recording saved at {} differs from the same recording saved on its own", at);
        ensure!(file[..at] == before[..at] && (before.len() <= end || file[end..] == before[end..]), "saving at {} changes bytes outside the recording", at);
        c.count("saves_in_sequence", 1);
        recs.push((at, end, rec, alone, ch));
        at = end;
    }
    // read them back from one reader
    let few = r.chance(1, 3);
    c.count("short_reads", few as u64);
    let slice = !few && r.chance(1, 2) && recs.iter().all(|x| matches!(x.2, Rec::A(_)));
    let mut reader = Few(std::io::Cursor::new(&file[..]), r.fork());
    let mut rest = &file[..];
    for (start, end, rec, alone, ch) in recs.iter_mut() {
        let mut pos = if slice { file.len() - rest.len() } else { reader.0.position() as usize };
        // stray bytes
        while pos < *start {
            let k = (*start - pos).min(7);
            let mut b = [0u8; 7];
            if slice { rest.read_exact(&mut b[..k]) } else { reader.0.read_exact(&mut b[..k]) }.map_err(|e| e.to_string())?;
            pos += k;
        }
        ensure!(pos == *start, "harness: lost in the file");
        let mut back = match rec {
            Rec::A(_) => Rec::A(if slice { AdhocCodec::load(&mut rest) } else if few { AdhocCodec::load(&mut reader) } else { AdhocCodec::load(&mut reader.0) }.ok_or_else(|| format!("the recording at {} does not load", start))?),
            Rec::W(_) => Rec::W(if few { WavCodec::load(&mut reader) } else { WavCodec::load(&mut reader.0) }.map_err(|e| format!("the WAV recording at {} does not load: {}", start, e))?),
        };
        let pos = if slice { file.len() - rest.len() } else { reader.0.position() as usize };
        ensure!(pos == *end, "loading a recording of {} bytes at {} leaves the reader at {}", alone.len(), start, pos);
        let mut again = vec![];
        back.save_to(&mut again)?;
        // cursors may differ, the rest is compared by decoding
        ensure!(again.len() == alone.len(), "the recording at {} has {} bytes when saved again instead of {}", start, again.len(), alone.len());
        for x in [&mut back, rec] {
            match x {
                Rec::A(c) => c.init(),
                Rec::W(c) => c.seek(SeekFrom::Start(0)),
            }
        }
        if let (Rec::A(a), Rec::A(b)) = (&back, &*rec) {
            ensure!(a.calculate_sample_count_per_channel() == b.calculate_sample_count_per_channel(), "the recording at {} has another length when loaded", start);
        }
        let (i, j) = (back.s().info(), rec.s().info());
        ensure!(i.channels() == j.channels() && i.frequency() == j.frequency(), "the recording at {} has other channels or another rate when loaded", start);
        let limit = 4_000_000;
        let (x, y) = (decode_all(back.s(), *ch, limit)?, decode_all(rec.s(), *ch, limit)?);
        same(&x, &y).map_err(|e| format!("the recording at {}: {}", start, e))?;
        c.count("loads_in_sequence", 1);
    }
    c.sig(hash_bytes(&file));
    Ok(())
}
