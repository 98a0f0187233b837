//! C01-C08: the compressed codec at its API boundary.
use super::Prop;
use crate::ad::*;
use crate::ctx::*;
use crate::ensure;
use crate::rng::*;
use crate::sig::{self, Domain};
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable};

pub const PROPS: &[&Prop] = &[&C01, &C02, &C03, &C04, &C05, &C06, &C07, &C08];

/// how large a case may get (samples over all channels)
fn cap(c: &Ctx, r: &mut Rng) -> usize {
    if r.chance(1, if c.thorough { 60 } else { 150 }) {
        400_000
    } else if r.chance(1, 10) {
        40_000
    } else {
        6_000
    }
}
/// coverage bookkeeping from the saved file (never a verdict)
fn observe_file(c: &mut Ctx, file: &[u8]) {
    if let Ok(f) = crate::fmt::parse(file) {
        if f.n() > 2000 || f.chunks.len() > 4000 {
            return;
        }
        if let Ok(frames) = crate::fmt::decode(&f) {
            for fr in &frames {
                c.count(&format!("rice_parameter_{:02}", fr.exp), 1);
                let q = fr.residuals.iter().map(|&x| x.unsigned_abs() >> fr.exp).max().unwrap_or(0);
                c.count(
                    match q {
                        0..=15 => "unary_run_max_under_16",
                        16..=127 => "unary_run_max_under_128",
                        128..=1023 => "unary_run_max_under_1024",
                        _ => "unary_run_max_1024_up",
                    },
                    1,
                );
                if fr.residuals.iter().any(|&x| x >= 32766 || x <= -32766) {
                    c.count("frames_with_extreme_residual", 1)
                }
                if fr.init && fr.samples.len() < 3 {
                    c.count("short_first_frames", 1)
                }
                c.count("frames_observed", 1);
            }
        }
    }
}
fn big_frame_case(r: &mut Rng, idx: u64) -> Option<(usize, usize, Vec<usize>)> {
    // deterministic share of cases around the 65535-sample frame limit
    if idx % 400 == 7 {
        let ch = r.usize(1, 2);
        let n = *r.pick(&[65534usize, 65535, 65536, 65537, 65538, 131070, 131071, 140000, 196605 + 1]);
        let n = r.dict_or(n, 5000, 200_000);
        let pre = *r.pick(&[0usize, 0, 1, 2, 10]);
        let mut p = vec![];
        if pre > 0 {
            p.push(pre)
        }
        p.push(n);
        if r.chance(1, 2) {
            p.push(r.usize(1, 50))
        }
        return Some((ch, p.iter().sum(), p));
    }
    None
}
/// more channels than a byte can count
fn wide_case(r: &mut Rng, idx: u64) -> Option<(usize, usize, Vec<usize>)> {
    if idx % 300 == 21 {
        let ch = match r.below(8) {
            0 => *r.pick(&[65534usize, 65535, 65536, 65537, 66000]),
            1 => r.usize(3000, 9000),
            2 => *r.pick(&[256usize, 257, 511, 512, 1023, 1024, 4096]),
            _ => r.usize(256, 1500),
        };
        let ch = r.dict_or(ch, 34, 66_000);
        let n = r.usize(1, (40_000 / ch).clamp(3, 60));
        return Some((ch, n, sig::partition(r, n, false)));
    }
    None
}
/// loud streams of more than 2^23 bits
fn long_case(r: &mut Rng, idx: u64) -> Option<(usize, usize, Vec<usize>)> {
    if idx % 2500 == 31 {
        let ch = r.usize(1, 3);
        let n = r.usize(500_000, 700_000) / ch;
        let mut part = vec![];
        let mut left = n;
        while left > 0 {
            let k = r.usize(1000, 120_000).min(left);
            part.push(k);
            left -= k;
        }
        return Some((ch, n, part));
    }
    None
}
/// the deterministic share of cases chosen for their dimensions
pub fn scale_case(r: &mut Rng, idx: u64) -> Option<(usize, usize, Vec<usize>)> {
    big_frame_case(r, idx).or_else(|| many_headers(r, idx)).or_else(|| wide_case(r, idx)).or_else(|| long_case(r, idx))
}
/// audio for such a case: long streams are loud, so that they are long in bits too
pub fn scale_audio(r: &mut Rng, idx: u64, dom: Domain, ch: usize, n: usize) -> sig::Audio {
    if idx % 2500 != 31 {
        return sig::audio(r, dom, ch, n);
    }
    let data = (0..ch * n).map(|_| r.sym() as f32).collect();
    sig::Audio { ch, frames: n, data, kinds: vec![4] }
}
/// coverage of the rare dimensions
pub fn count_scale(c: &mut Ctx, ch: usize, part: &[usize], data: usize) {
    c.count("calls_over_65535", part.iter().filter(|&&p| p > 65535).count() as u64);
    c.count("over_255_channels", (ch > 255) as u64);
    c.count("over_65535_channels", (ch > 65535) as u64);
    c.count("over_65536_frame_headers", (part.len() * ch > 65536) as u64);
    c.count("over_500k_samples", (data >= 499_990) as u64);
}

/// A mono stream of more than 2^32 bits: one block of noise over and over. Returns the
/// block and the number of sample frames recorded.
fn giant(r: &mut Rng, codec: &mut dyn Streamable) -> Result<(Vec<f32>, u64), String> {
    crate::CASE_EXTRA_MS.store(200_000, std::sync::atomic::Ordering::SeqCst);
    let block: Vec<f32> = (0..65535).map(|_| sig::grid(r.i64(-32767, 32767) as i32)).collect();
    let mut frames = 0u64;
    while codec.filesize_upperbound() < (1 << 32) + (40 << 20) {
        let g = codec.encode(&block);
        ensure!(g == Some(block.len()), "encode reports {:?} of {}", g, block.len());
        frames += block.len() as u64;
        ensure!(frames < 1 << 29, "the size bound does not grow with the recording");
    }
    Ok((block, frames))
}
struct ByteCount(u64);
impl std::io::Write for ByteCount {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- C01
pub static C01: Prop = Prop {
    id: "C01",
    quick: 80000,
    thorough: 4000000,
    run: c01,
    rule: "Each case: random channel count (1..255, rarely to 70000), sample rate (up to 2^32-1), one of 19 signal generators per channel (noise, full-scale squares, sparse impulses at Rice-quotient edges, chosen prediction residuals up to +-65534, piecewise mixes, non-finite samples, ...), a random partition into encode calls incl. 1-sample and >65535-sample frames; encode at level 0, rewind, decode with random buffers, every sample compared. Non-trivial: at least one sample compared; distinct by hash of (input bits, partition).",
    assume: &["a decoded value may lie anywhere within one 16-bit step of the clamped input (truncation)", "non-finite inputs: only their neighbours are judged"],
    require: &[("samples_compared", 1_000_000), ("rice_parameter_14", 500), ("rice_parameter_01", 5000), ("unary_run_max_1024_up", 40), ("frames_with_extreme_residual", 50), ("short_first_frames", 50), ("calls_over_65535", 5)],
};
fn c01(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let (ch, n, part) = match scale_case(r, idx) {
        Some(x) => x,
        None => {
            let ch = sig::channels(r);
            let cp = cap(c, r);
            let n = sig::frames(r, ch, cp);
            let part = sig::partition(r, n, false);
            (ch, n, part)
        }
    };
    let dom = if r.chance(1, 6) { Domain::Any } else { Domain::Finite };
    // a quiet piece with one or two impulses is what makes unary runs of thousands of bits cheapest
    let sparse = idx % 150 == 8;
    let (ch, part) = if sparse { (1, vec![r.usize(8000, 70000)]) } else { (ch, part) };
    let a = if sparse {
        let mut data = vec![];
        sig::gen_kind(r, 0, part[0], &mut data);
        for _ in 0..r.usize(1, 2) {
            let at = r.usize(0, part[0] - 1);
            data[at] = sig::grid(r.i64(-32767, 32767) as i32);
        }
        sig::Audio { ch, frames: part[0], data, kinds: vec![7] }
    } else {
        scale_audio(r, idx, dom, ch, n)
    };
    let rate = sig::rate(r);
    c.d(format!("rate {} {} {}", rate, a.describe(), sig::part_desc(&part)));
    let mut codec = new_codec_any(r, rate, ch, 0);
    encode_parts(&mut codec, &a.data, ch, &part)?;
    if sparse || r.chance(1, 3) {
        let f = save(&codec)?;
        observe_file(c, &f);
    }
    rewind(r, &mut codec);
    let out = if r.chance(1, 3) {
        decode_some(r, &mut codec, ch, a.data.len() + ch)?
    } else {
        decode_all(&mut codec, ch, a.data.len() + 16)?
    };
    let w = check_level0(&a.data, &out, ch)?;
    c.count("samples_compared", out.len() as u64);
    count_scale(c, ch, &part, a.data.len());
    c.count("cases_with_error_over_half_step", (w > 0.5 * STEP) as u64);
    for &k in &a.kinds {
        c.count(&format!("signal_{}", sig::KIND_NAMES[k]), 1);
    }
    if !out.is_empty() {
        c.sig(hash_f32s(&a.data) ^ hash_u64s(&part.iter().map(|&x| x as u64).collect::<Vec<_>>()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C02
pub static C02: Prop = Prop {
    id: "C02",
    quick: 80000,
    thorough: 4000000,
    run: c02,
    rule: "As C01 with signals in [-1,1] and levels 1..10 plus requests above 10 (up to u32::MAX); the encoding codec after a rewind and a codec loaded from the saved file are both compared with the input sample by sample. Non-trivial: at least one sample; distinct by (input bits, level, partition).",
    assume: &["bound 2^L/32767 + 0.001 plus 1e-6 for single-precision rounding"],
    require: &[("samples_compared", 1_000_000), ("level_1", 500), ("level_10", 500), ("level_over_10", 200), ("short_first_calls", 50), ("calls_over_65535", 5)],
};
/// a requested level above 10 (which counts as 10)
pub fn over_10(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[11u32, 12, 15, 16, 31, 32, 33, 64, 100, u32::MAX]),
        1 => (1 << r.usize(4, 31)) + r.below(11) as u32,
        2 => (r.u64() as u32 >> r.below(28)).max(11),
        _ => *r.pick(&[127u32, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX - 1]),
    }
}
fn pick_level(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => over_10(r),
        _ => r.usize(1, 10) as u32,
    }
}
fn c02(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let (ch, n, part) = match scale_case(r, idx) {
        Some(x) => x,
        None => {
            let ch = sig::channels(r);
            let cp = cap(c, r);
            let n = sig::frames(r, ch, cp);
            let part = sig::partition(r, n, false);
            (ch, n, part)
        }
    };
    let a = scale_audio(r, idx, Domain::Unit, ch, n);
    let level = pick_level(r);
    let rate = sig::rate(r);
    c.d(format!("level {} rate {} {} {}", level, rate, a.describe(), sig::part_desc(&part)));
    let mut codec = new_codec_any(r, rate, ch, level);
    encode_parts(&mut codec, &a.data, ch, &part)?;
    let file = save(&codec)?;
    rewind(r, &mut codec);
    let out = decode_all(&mut codec, ch, a.data.len() + 16)?;
    check_level(&a.data, &out, ch, level).map_err(|e| format!("after rewind: {}", e))?;
    let mut l = load(&file)?;
    let out2 = decode_all(&mut l, ch, a.data.len() + 16)?;
    check_level(&a.data, &out2, ch, level).map_err(|e| format!("after load: {}", e))?;
    c.count("samples_compared", (out.len() + out2.len()) as u64);
    c.count(&if level > 10 { "level_over_10".into() } else { format!("level_{}", level) }, 1);
    count_scale(c, ch, &part, a.data.len());
    c.count("short_first_calls", (part.first().map_or(false, |&p| p < 3)) as u64);
    if !out.is_empty() {
        c.sig(hash_u64s(&[hash_f32s(&a.data), level as u64, part.len() as u64]));
    }
    Ok(())
}

// ---------------------------------------------------------------- C03
pub static C03: Prop = Prop {
    id: "C03",
    quick: 50000,
    thorough: 2500000,
    run: c03,
    rule: "Each case encodes one signal at level 0 under two to four random partitions (empty calls, bursts of empty calls, one-frame calls, calls over 65535 frames) and compares the decoded streams bit for bit; then, at any level, decodes one stream with random buffer sizes (not multiples of the channel count included) against a single-pass decode, with canary bit patterns in the unused part of every buffer, full-fill and repeated end-of-stream checks. Distinct by (input bits, partitions, level).",
    assume: &["every decode buffer holds at least one sample frame"],
    require: &[("partitions_compared", 5000), ("decode_calls_checked", 50_000), ("canaries_checked", 50_000), ("empty_encode_calls", 500), ("partial_buffers", 1000)],
};
fn c03(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let ch = sig::channels(r);
    let cp = cap(c, r).min(if idx % 100 == 3 { 300_000 } else { 40_000 });
    let n = if idx % 300 == 11 { r.usize(65530, 70000) } else { sig::frames(r, ch, cp) };
    let ch = if idx % 300 == 11 { r.usize(1, 2) } else { ch };
    let scale = scale_case(r, idx);
    let (ch, n) = scale.as_ref().map_or((ch, n), |x| (x.0, x.1));
    let a = scale_audio(r, idx, Domain::Finite, ch, n);
    let rate = sig::rate(r);
    c.d(format!("rate {} {}", rate, a.describe()));
    let k = if scale.is_some() { 2 } else { r.usize(2, 4) };
    let mut first: Option<(Vec<f32>, Vec<usize>)> = None;
    for j in 0..k {
        let part = match &scale {
            Some(x) if j == 1 => x.2.clone(),
            _ if j == 0 && r.chance(1, 2) => vec![n],
            _ => sig::partition(r, n, true),
        };
        count_scale(c, ch, &part, a.data.len());
        let mut codec = new_codec(rate, ch, 0);
        // each call checked to leave earlier ones alone only through the final stream
        encode_parts(&mut codec, &a.data, ch, &part)?;
        c.count("empty_encode_calls", part.iter().filter(|&&p| p == 0).count() as u64);
        let out = if r.chance(1, 4) {
            let f = save(&codec)?;
            let mut l = load(&f)?;
            decode_all(&mut l, ch, a.data.len() + 16)?
        } else {
            rewind(r, &mut codec);
            decode_all(&mut codec, ch, a.data.len() + 16)?
        };
        match &first {
            None => first = Some((out, part)),
            Some((o, p)) => {
                same(&out, o).map_err(|e| format!("{} and {} decode differently: {}", sig::part_desc(p), sig::part_desc(&part), e))?;
                c.count("partitions_compared", 1);
            }
        }
    }
    let (o, p) = first.unwrap();
    ensure!(o.len() == a.data.len(), "{}: {} samples decoded, {} encoded", sig::part_desc(&p), o.len(), a.data.len());
    // decode side
    let level = if r.chance(1, 2) { 0 } else { pick_level(r) };
    let part = sig::partition(r, n, true);
    c.d(format!("level {} {}", level, sig::part_desc(&part)));
    let mut codec = new_codec(rate, ch, level);
    encode_parts(&mut codec, &a.data, ch, &part)?;
    rewind(r, &mut codec);
    let whole = decode_all_buf(&mut codec, ch, a.data.len() + 16, (a.data.len() + ch).max(ch) / ch * ch)?;
    rewind(r, &mut codec);
    let mut at = 0;
    let style = r.below(5);
    let fixed = r.logsize(ch, (4000).max(ch));
    let canary = |i: usize| f32::from_bits(0x4100_0000 | (i as u32 & 0xffff) | 1);
    let mut calls = 0;
    loop {
        let len = match style {
            0 => fixed,
            1 => r.usize(ch, ch * 3),
            2 => r.logsize(ch, 5000.max(ch)),
            3 => ch + (whole.len() - at) / 2,
            _ => *r.pick(&[ch, ch + 1, 2 * ch - 1, 1024.max(ch), 1023.max(ch), 4096.max(ch)]),
        };
        let mut buf: Vec<f32> = (0..len).map(canary).collect();
        let got = codec.decode(&mut buf);
        let nread = got.unwrap_or(0);
        let legal = len / ch * ch;
        let want = legal.min(whole.len() - at);
        ensure!(nread == want, "buffer of {} at sample {} of {}: decode reports {:?}, expected {}", len, at, whole.len(), got, want);
        ensure!(got.is_none() == (want == 0), "decode returned {:?} for {} remaining samples", got, want);
        same(&buf[..nread], &whole[at..at + nread]).map_err(|e| format!("buffer of {} at sample {}: {}", len, at, e))?;
        for i in nread..len {
            ensure!(
                buf[i].to_bits() == canary(i).to_bits(),
                "decode wrote to index {} of the buffer but reports {} samples (buffer {}, level {})",
                i, nread, len, level
            );
        }
        c.count("canaries_checked", (len - nread) as u64);
        c.count("decode_calls_checked", 1);
        c.count("partial_buffers", (len % ch != 0) as u64);
        at += nread;
        if got.is_none() {
            calls += 1;
            if calls > 3 {
                break;
            }
        }
        if style == 1 && at > 20_000 && at < whole.len() {
            // bound the cost of tiny buffers on long streams
            let mut buf = vec![0.0; (whole.len() - at - ch).max(ch)];
            let nread = codec.decode(&mut buf).unwrap_or(0);
            let want = buf.len() / ch * ch;
            ensure!(nread == want.min(whole.len() - at), "large buffer after small ones: {} instead of {}", nread, want);
            same(&buf[..nread], &whole[at..at + nread])?;
            at += nread;
        }
    }
    if !whole.is_empty() {
        c.sig(hash_u64s(&[hash_f32s(&a.data), level as u64, p.len() as u64, part.len() as u64, k as u64]));
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
pub static C04: Prop = Prop {
    id: "C04",
    quick: 50000,
    thorough: 2500000,
    run: c04,
    rule: "Each case encodes a random stream, then performs a random history of partial decodes, seeks, rewinds, saves and loads; at every save the loaded copy must agree with a reference decode of the original in info, count and every sample, decoding of the saved codec must continue as if it had not been saved, and second-generation saves are loaded again. Distinct by (input bits, level, history).",
    assume: &[],
    require: &[("saves_checked", 10_000), ("second_generation_saves", 1000), ("saves_in_mid_decode", 1000), ("streams_over_64_headers", 500), ("samples_compared", 1_000_000)],
};
fn ms_in(r: &mut Rng, rate: u32, frames: usize) -> u64 {
    let dur = frames as f64 * 1000.0 / rate as f64;
    match r.below(8) {
        0 => 0,
        1 => dur as u64,
        2 => dur as u64 + r.below(3),
        3 => (dur as u64).saturating_sub(r.below(3)),
        4 => r.below(5),
        _ => (r.unit() * dur) as u64,
    }
}
fn many_headers(r: &mut Rng, idx: u64) -> Option<(usize, usize, Vec<usize>)> {
    if idx % 500 == 13 {
        let ch = r.usize(1, 3);
        let calls = *r.pick(&[65535usize / 3, 22000, 65537, 33000]);
        let calls = r.dict_or(calls * ch, 1, 200_000).div_ceil(ch);
        let part: Vec<usize> = (0..calls).map(|_| if r.chance(1, 20) { 2 } else { 1 }).collect();
        return Some((ch, part.iter().sum(), part));
    }
    None
}
fn c04(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let (ch, n, part) = match scale_case(r, idx) {
        Some(x) => x,
        None => {
            let ch = sig::channels(r);
            let cp = cap(c, r);
            let n = sig::frames(r, ch, cp);
            (ch, n, sig::partition(r, n, true))
        }
    };
    let a = scale_audio(r, idx, Domain::Finite, ch, n);
    let level = r.usize(0, 11) as u32;
    count_scale(c, ch, &part, a.data.len());
    let rate = sig::rate(r);
    c.d(format!("level {} rate {} {} {}", level, rate, a.describe(), sig::part_desc(&part)));
    let mut codec = new_codec_any(r, rate, ch, level);
    encode_parts(&mut codec, &a.data, ch, &part)?;
    let limit = a.data.len() + 16;
    // reference: what the original decodes to after a rewind
    let at_end = save(&codec)?;
    rewind(r, &mut codec);
    let whole = decode_all(&mut codec, ch, limit)?;
    if level == 0 {
        ensure!(whole.len() == a.data.len(), "{} samples decoded, {} encoded", whole.len(), a.data.len());
    }
    let per_ch = codec.calculate_sample_count_per_channel();
    let check = |c: &mut Ctx, r: &mut Rng, file: &[u8], tag: &str, depth: usize| -> Res {
        let mut bytes = file.to_vec();
        for gen in 0..=depth {
            let mut l = load(&bytes).map_err(|e| format!("{} generation {}: {}", tag, gen, e))?;
            let i = l.info();
            ensure!(
                i.channels() == ch && i.frequency() == rate as usize,
                "{} generation {}: info {} Hz {} ch instead of {} Hz {} ch",
                tag, gen, i.frequency(), i.channels(), rate, ch
            );
            let t = Streamable::info(&l);
            ensure!(t.channels() == ch && t.frequency() == rate as usize, "{} generation {}: info through the trait is {} Hz {} ch instead of {} Hz {} ch", tag, gen, t.frequency(), t.channels(), rate, ch);
            let copies = [
                bincode::serialize(&i).and_then(|b| bincode::deserialize(&b)).map_err(|e| e.to_string())?,
                crate::value::copy(&i, gen % 2 == 1).map_err(|e| e.to_string())?,
            ];
            for k in copies {
                let k: adhoc_audio::StreamInfo = k;
                ensure!(k.channels() == ch && k.frequency() == rate as usize && k.as_bytes() == i.as_bytes(), "a serialised and read back StreamInfo differs");
            }
            ensure!(
                l.calculate_sample_count_per_channel() == per_ch,
                "{} generation {}: count {} instead of {}",
                tag, gen, l.calculate_sample_count_per_channel(), per_ch
            );
            bytes = save(&l)?;
            if r.chance(1, 4) && !whole.is_empty() {
                // a second reader position must not matter for the next generation
                let want = r.usize(1, whole.len());
                decode_some(r, &mut l, ch, want)?;
                bytes = save(&l)?;
                rewind(r, &mut l);
            }
            let out = decode_all(&mut l, ch, limit)?;
            same(&out, &whole).map_err(|e| format!("{} generation {}: {}", tag, gen, e))?;
            c.count("samples_compared", out.len() as u64);
            if gen > 0 {
                c.count("second_generation_saves", 1)
            }
        }
        c.count("saves_checked", 1);
        Ok(())
    };
    let depth = r.usize(0, 2);
    check(c, r, &at_end, "saved right after encoding", depth)?;
    // history
    let steps = if a.data.len() > 20_000 { 3 } else { r.usize(2, 8) };
    rewind(r, &mut codec);
    // position of the original in its own decode, when known
    let mut pos: Option<usize> = Some(0);
    let mut hist = vec![];
    for _ in 0..steps {
        match r.below(5) {
            0 => {
                rewind(r, &mut codec);
                pos = Some(0);
                hist.push("rewind".to_string());
            }
            1 => {
                let want = r.logsize(1, whole.len().max(1));
                let out = decode_some(r, &mut codec, ch, want)?;
                if let Some(p) = pos {
                    let e = (p + out.len()).min(whole.len());
                    same(&out, &whole[p..e]).map_err(|e| format!("decode after {:?}: {}", hist, e))?;
                    pos = Some(e);
                }
                hist.push(format!("decode {}", out.len()));
            }
            2 if n > 0 => {
                let t = ms_in(r, rate, n);
                codec.seek(SeekFrom::Start(t));
                pos = if t == 0 { Some(0) } else { None };
                hist.push(format!("seek {}", t));
            }
            _ => {
                let f = save(&codec)?;
                hist.push("save".into());
                if pos.map_or(true, |p| p > 0 && p < whole.len()) {
                    c.count("saves_in_mid_decode", 1)
                }
                let tag = format!("saved after {:?}", hist);
                let d = r.usize(0, 1);
                check(c, r, &f, &tag, d)?;
                if r.chance(1, 5) {
                    codec = load(&f)?;
                    pos = Some(0);
                    hist.push("load".into());
                }
            }
        }
    }
    c.count("streams_over_64_headers", (part.len() * ch > 64) as u64);
    c.d(format!("history {:?}", hist));
    if !whole.is_empty() {
        c.sig(hash_u64s(&[hash_f32s(&a.data), level as u64, hash_bytes(format!("{:?}", hist).as_bytes())]));
    }
    Ok(())
}

// ---------------------------------------------------------------- C05
pub static C05: Prop = Prop {
    id: "C05",
    quick: 50000,
    thorough: 2500000,
    run: c05,
    rule: "Each case encodes (and often saves and loads) a stream with random frame sizes, decodes it once from the start, then performs a random history of seeks (inside frames, on frame edges, around and far beyond the end, at sample resolution through low sample rates), partial and complete decodes and rewinds; every delivered sample is compared with the full decode at the position derived from the remaining count. Distinct by (input bits, level, seek list). Short streams are swept exhaustively over all millisecond positions.",
    assume: &["position is floor(rate*t/1000); where rate*t/1000 lies within 2.5e-7 relative of an integer, both neighbours are allowed"],
    require: &[("seeks_checked", 40_000), ("seeks_inside_a_frame", 5000), ("seeks_to_frame_edge", 2000), ("seeks_past_end", 3000), ("exhaustive_sweeps", 200), ("samples_compared", 1_000_000), ("streams_without_audio", 5), ("seeks_in_over_2_32_bits", 80)],
};
fn c05_giant(c: &mut Ctx, r: &mut Rng) -> Res {
    let rate = 1000;
    let mut codec = new_codec(rate, 1, 0);
    let (block, frames) = giant(r, &mut codec)?;
    let l = block.len() as u64;
    c.d(format!("a stream of more than 2^32 bits: {} frames of noise", frames));
    let mut seeks = vec![0, 1, 1000, frames / 2, frames / 2 + 12_345, frames - 5_000_000, frames - 70_000, frames - 100, frames, frames + 1000];
    for _ in 0..40 {
        seeks.push(r.below(frames));
        seeks.push(frames - 1 - r.below(10_000_000));
    }
    let mut buf = vec![0.0f32; 512];
    for t in seeks {
        codec.seek(SeekFrom::Start(t));
        let (lo, hi) = pos_range(rate, t as f64);
        let mut out = vec![];
        while out.len() < 300 {
            match codec.decode(&mut buf) {
                Some(n) => out.extend_from_slice(&buf[..n]),
                None => break,
            }
        }
        let ok = (lo as u64..=hi as u64).any(|s| {
            let have = frames.saturating_sub(s).min(out.len() as u64);
            (have == out.len() as u64 || s + have == frames)
                && have == out.len() as u64
                && (out.len() >= 300 || s + have >= frames)
                && out.iter().enumerate().all(|(i, &x)| (x as f64 - block[((s + i as u64) % l) as usize] as f64).abs() <= STEP + 2e-7)
        });
        ensure!(ok, "after seek {} in a stream of {} frames (over 2^32 bits): {} samples {:?} do not continue at {}..={}", t, frames, out.len(), &out[..out.len().min(4)], lo, hi);
        c.count("seeks_in_over_2_32_bits", 1);
    }
    Ok(())
}
fn c05(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    if idx == 6 {
        return c05_giant(c, r);
    }
    let sweep = idx % 20 == 5;
    let (ch, n, part) = if sweep {
        let ch = r.usize(1, 5);
        let n = r.usize(1, 150);
        (ch, n, sig::partition(r, n, false))
    } else if idx % 25_000 == 777 {
        // positions beyond the integers that single precision can tell apart
        let n = (1 << 24) + r.usize(1000, 300_000);
        (1, n, vec![60_000; n / 60_000].into_iter().chain(Some(n % 60_000)).collect())
    } else if let Some(x) = scale_case(r, idx) {
        x
    } else {
        let ch = sig::channels(r);
        let cp = cap(c, r);
        let n = sig::frames(r, ch, cp);
        (ch, n, sig::partition(r, n, true))
    };
    let a = if n > 1 << 24 {
        c.count("over_2_24_frames", 1);
        sig::Audio { ch, frames: n, data: (0..n).map(|_| sig::grid(r.below(16) as i32)).collect(), kinds: vec![12] }
    } else {
        scale_audio(r, idx, Domain::Finite, ch, n)
    };
    count_scale(c, ch, &part, a.data.len());
    let level = if r.chance(1, 2) { 0 } else { r.usize(0, 10) as u32 };
    let rate = if sweep { *r.pick(&[1000u32, 1000, 500, 2000, 999]) } else if r.chance(1, 3) { *r.pick(&[1000u32, 100, 2000, 1]) } else { sig::rate(r) };
    c.d(format!("level {} rate {} {} {}", level, rate, a.describe(), sig::part_desc(&part)));
    let mut codec = new_codec_any(r, rate, ch, level);
    encode_parts(&mut codec, &a.data, ch, &part)?;
    if r.chance(1, 2) {
        codec = load(&save(&codec)?)?;
    } else if r.chance(1, 2) {
        rewind(r, &mut codec);
    }
    // otherwise the first seek happens directly after encoding
    let fresh = r.chance(1, 3);
    let limit = a.data.len() + 16;
    let whole = if fresh {
        let mut l = load(&save(&codec)?)?;
        decode_all(&mut l, ch, limit)?
    } else {
        rewind(r, &mut codec);
        decode_all(&mut codec, ch, limit)?
    };
    if n == 0 {
        c.count("streams_without_audio", 1);
    }
    let total = whole.len() / ch;
    ensure!(whole.len() == a.data.len(), "{} samples decoded, {} encoded", whole.len(), a.data.len());
    let mut edges = vec![0usize];
    for p in &part {
        edges.push(edges.last().unwrap() + p);
    }
    let mut hist: Vec<String> = vec![];
    let seeks: Vec<u64> = if sweep {
        let dur = (n as u64 * 1000) / rate as u64 + 3;
        let mut v: Vec<u64> = (0..=dur).collect();
        for i in (1..v.len()).rev() {
            let j = r.usize(0, i);
            v.swap(i, j)
        }
        c.count("exhaustive_sweeps", 1);
        v
    } else {
        let k = if a.data.len() > 50_000 { 3 } else { r.usize(2, 10) };
        (0..k)
            .map(|_| match r.below(12) {
                0 => *r.pick(&[u64::MAX, u64::MAX / 2, 1 << 32, 1 << 53, 1 << 24, 1 << 31, i64::MAX as u64, i64::MAX as u64 + 1]),
                1 => r.u64() >> r.below(64),
                2 => {
                    // a frame edge, when it falls on a millisecond
                    let e = *r.pick(&edges);
                    (e as u64 * 1000) / rate as u64
                }
                3 => {
                    let e = *r.pick(&edges);
                    ((e as u64 * 1000) / rate as u64 + 1).saturating_sub(r.below(3))
                }
                _ => ms_in(r, rate, n),
            })
            .collect()
    };
    for t in seeks {
        codec.seek(SeekFrom::Start(t));
        hist.push(format!("seek {}", t));
        let (lo, hi) = pos_range(rate, t as f64);
        let lo = lo.min(total as f64) as usize;
        let hi = hi.min(total as f64) as usize;
        c.count("seeks_checked", 1);
        if lo >= total {
            c.count("seeks_past_end", 1)
        } else if edges.binary_search(&lo).is_ok() {
            c.count("seeks_to_frame_edge", 1)
        } else {
            c.count("seeks_inside_a_frame", 1)
        }
        let tail = |hist: &Vec<String>| hist[hist.len().saturating_sub(6)..].join(",");
        let whole_tail = r.chance(1, if sweep { 3 } else { 2 }) && (total - lo) * ch < 100_000;
        if whole_tail {
            let out = if r.chance(1, 2) { decode_all(&mut codec, ch, limit)? } else { decode_some(r, &mut codec, ch, limit)? };
            ensure!(out.len() % ch == 0, "after {}: {} samples left for {} channels", tail(&hist), out.len(), ch);
            let start = total as i64 - (out.len() / ch) as i64;
            ensure!(
                start >= lo as i64 && start <= hi as i64,
                "after {}: {} of {} sample frames left, i.e. position {}, expected {}..={}",
                tail(&hist), out.len() / ch, total, start, lo, hi
            );
            same(&out, &whole[start as usize * ch..]).map_err(|e| format!("after {}: from frame {}: {}", tail(&hist), start, e))?;
            c.count("samples_compared", out.len() as u64);
            hist.push("decode to end".into());
            let mut b = vec![0.0; ch * 2];
            ensure!(codec.decode(&mut b).is_none(), "after {}: decode continues after the end", tail(&hist));
        } else {
            let want = r.logsize(1, ((total - lo) * ch).max(1)).max(ch).min(30_000.max(ch));
            let out = decode_some(r, &mut codec, ch, want)?;
            let mut ok = None;
            for s in lo..=hi {
                let e = (s * ch + out.len()).min(whole.len());
                match same(&out, &whole[s * ch..e]) {
                    Ok(()) => {
                        ok = Some(Ok(()));
                        break;
                    }
                    Err(m) => ok = ok.or(Some(Err(m))),
                }
            }
            if let Some(Err(m)) = ok {
                return Err(format!("after {}: from frame {}: {}", tail(&hist), lo, m));
            }
            let wanted = want.div_ceil(ch) * ch;
            ensure!(
                out.len() >= wanted.min((total - hi) * ch),
                "after {}: only {} samples delivered of {} available",
                tail(&hist), out.len(), (total - hi) * ch
            );
            c.count("samples_compared", out.len() as u64);
            hist.push(format!("decode {}", out.len()));
        }
        if r.chance(1, 10) {
            rewind(r, &mut codec);
            hist.push("rewind".into());
            let want = r.logsize(1, whole.len().max(1)).min(20_000);
            let out = decode_some(r, &mut codec, ch, want)?;
            same(&out, &whole[..out.len().min(whole.len())]).map_err(|e| format!("after {}: {}", tail(&hist), e))?;
        }
    }
    hist.truncate(60);
    c.d(hist.join(","));
    if n > 0 {
        c.sig(hash_u64s(&[hash_f32s(&a.data), level as u64, hash_bytes(hist.join(",").as_bytes())]));
    }
    Ok(())
}

// ---------------------------------------------------------------- C06
pub static C06: Prop = Prop {
    id: "C06",
    quick: 50000,
    thorough: 2500000,
    run: c06,
    rule: "Each case records 2-5 sessions into one codec (rewound by init or seek to the start, sometimes replaced by its loaded copy, sometimes partially decoded or seeked between), each session with new audio and partition; after every session counts, decode, seeks and the saved file are compared with a new codec that encoded only this session (bit for bit at level 0, by the level's error bound otherwise). Distinct by (all inputs, level).",
    assume: &["at levels above 0 the dither sequence continues across sessions, so only the error bound is required"],
    require: &[("sessions_checked", 10_000), ("shorter_than_before", 2000), ("longer_than_before", 2000), ("fewer_frames_than_before", 2000), ("reused_after_load", 500), ("empty_sessions", 100), ("level_changed", 1000), ("channels_changed", 1000), ("samples_compared", 1_000_000)],
};
fn c06(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let ch = sig::channels(r).min(33);
    let mut level = if r.chance(2, 3) { 0 } else { r.usize(1, 10) as u32 };
    let mut rate = if r.chance(1, 2) { 1000 } else { sig::rate(r) };
    let scale = scale_case(r, idx);
    let mut ch = scale.as_ref().map_or(ch, |x| x.0);
    let sessions = if scale.is_some() { 2 } else { r.usize(2, 5) };
    let scale_at = r.usize(0, sessions - 1);
    let mut codec = new_codec_any(r, rate, ch, level);
    let mut prev: Option<(usize, usize)> = None;
    let mut sigs = vec![level as u64, ch as u64];
    c.d(format!("level {} rate {} {} ch", level, rate, ch));
    for s in 0..sessions {
        let cp = if idx % 200 == 9 { 150_000 } else { 5000 };
        let n = if r.chance(1, 30) { 0 } else { sig::frames(r, ch, cp) };
        let part = if idx % 200 == 9 && r.chance(1, 2) { vec![n] } else { sig::partition(r, n, true) };
        let (n, part) = match &scale {
            Some(x) if s == scale_at => (x.1, x.2.clone()),
            // more than 65535 channels without audio are out of scope
            _ if ch > 65_535 && n == 0 => (1, vec![1]),
            _ => (n, part),
        };
        // the next recording may have another level, rate or number of channels
        let (old_ch, old_rate, old_level) = (ch, rate, level);
        if s > 0 && n > 0 && scale.is_none() && r.chance(1, 4) {
            let what = r.usize(1, 7);
            if what & 1 != 0 {
                level = r.usize(0, 10) as u32
            }
            if what & 2 != 0 {
                rate = sig::rate(r)
            }
            if what & 4 != 0 && n <= 5000 {
                ch = sig::channels(r).min(12)
            }
        }
        let dom = if level == 0 { Domain::Finite } else { Domain::Unit };
        let a = scale_audio(r, idx, dom, ch, n);
        count_scale(c, ch, &part, a.data.len());
        c.d(format!("session {}: level {} rate {} {} {}", s, level, rate, a.describe(), sig::part_desc(&part)));
        if s > 0 {
            // what happens between sessions
            match r.below(5) {
                0 => {
                    codec = load(&save(&codec)?)?;
                    c.count("reused_after_load", 1);
                    c.d("load");
                }
                1 => {
                    rewind(r, &mut codec);
                    let want = r.usize(1, 3000);
                    decode_some(r, &mut codec, old_ch, want)?;
                    c.d("decode some");
                }
                2 if prev.map_or(false, |p| p.0 > 0) => {
                    let t = ms_in(r, old_rate, prev.unwrap().0);
                    codec.seek(SeekFrom::Start(t));
                    c.d(format!("seek {}", t));
                }
                3 => {
                    let _ = save(&codec)?;
                }
                _ => {}
            }
            let order = r.chance(1, 2);
            if order {
                rewind(r, &mut codec);
            }
            if level != old_level {
                codec = codec.with_compression_level(level);
                c.count("level_changed", 1);
            }
            if ch != old_ch || rate != old_rate {
                let info = StreamInfo::new(rate, ch as u32);
                if r.chance(1, 2) {
                    codec.set_info(info)
                } else {
                    codec = codec.with_info(info)
                }
                c.count("info_changed", 1);
                c.count("channels_changed", (ch != old_ch) as u64);
            }
            if !order {
                rewind(r, &mut codec);
            }
        }
        if n == 0 {
            c.count("empty_sessions", 1);
        }
        let limit = a.data.len().max(100_000) * 2 + 400_000;
        let skip_empty = n == 0;
        encode_parts(&mut codec, &a.data, ch, &part)?;
        if skip_empty {
            // nothing recorded: the codec has simply been rewound; content stays the old one
            continue;
        }
        let mut newc = new_codec(rate, ch, level);
        encode_parts(&mut newc, &a.data, ch, &part)?;
        ensure!(
            codec.calculate_sample_count_per_channel() == n as u64,
            "session {}: count {} per channel, {} recorded",
            s, codec.calculate_sample_count_per_channel(), n
        );
        let i = codec.info();
        ensure!(i.channels() == ch && i.frequency() == rate as usize, "session {}: info {} Hz {} ch instead of {} Hz {} ch", s, i.frequency(), i.channels(), rate, ch);
        let file = save(&codec)?;
        newc.init();
        let fresh = decode_all(&mut newc, ch, limit)?;
        let compare = |out: &[f32], tag: &str| -> Res {
            if level == 0 {
                same(out, &fresh).map_err(|e| format!("session {}: {}: {}", s, tag, e))
            } else {
                check_level(&a.data, out, ch, level).map(|_| ()).map_err(|e| format!("session {}: {}: {}", s, tag, e))
            }
        };
        let mut l = load(&file)?;
        let i = l.info();
        ensure!(i.channels() == ch && i.frequency() == rate as usize, "session {}: loaded info {} Hz {} ch instead of {} Hz {} ch", s, i.frequency(), i.channels(), rate, ch);
        ensure!(l.calculate_sample_count_per_channel() == n as u64, "session {}: loaded count {} of {}", s, l.calculate_sample_count_per_channel(), n);
        let lo = decode_all(&mut l, ch, limit)?;
        compare(&lo, "saved and loaded")?;
        rewind(r, &mut codec);
        let out = decode_all(&mut codec, ch, limit)?;
        compare(&out, "decoded after rewind")?;
        same(&lo, &out).map_err(|e| format!("session {}: loaded copy differs: {}", s, e))?;
        for _ in 0..2 {
            let t = ms_in(r, rate, n);
            codec.seek(SeekFrom::Start(t));
            let tail = decode_all(&mut codec, ch, limit)?;
            ensure!(tail.len() <= out.len() && tail.len() % ch == 0, "session {}: seek {} leaves {} of {} samples", s, t, tail.len(), out.len());
            same(&tail, &out[out.len() - tail.len()..]).map_err(|e| format!("session {}: after seek {}: {}", s, t, e))?;
            let (plo, phi) = pos_range(rate, t as f64);
            let p = ((out.len() - tail.len()) / ch) as f64;
            ensure!(p >= plo.min(n as f64) && p <= phi.min(n as f64), "session {}: seek {} lands on {} of {}", s, t, p, n);
        }
        c.count("samples_compared", 2 * out.len() as u64);
        if let Some((pn, pp)) = prev {
            c.count("sessions_checked", 1);
            c.count("shorter_than_before", (n < pn) as u64);
            c.count("longer_than_before", (n > pn) as u64);
            c.count("fewer_frames_than_before", (part.len() < pp) as u64);
        }
        prev = Some((n, part.len()));
        sigs.push(hash_f32s(&a.data));
    }
    c.sig(hash_u64s(&sigs));
    Ok(())
}

// ---------------------------------------------------------------- C07
pub static C07: Prop = Prop {
    id: "C07",
    quick: 90000,
    thorough: 4500000,
    run: c07,
    rule: "Each case drives a compressed codec (or a WAV codec) through a random history of encode, decode, seek, rewind, save and load and after every step compares filesize_upperbound with the bytes a save at that moment writes: never below, and at most 5% plus 1024 bits above. Distinct by (history, sizes).",
    assume: &[],
    require: &[("bounds_checked_adhoc", 50_000), ("bounds_checked_wav", 5_000), ("empty_codecs", 500), ("after_load", 2000), ("after_decode", 2000), ("bounds_over_2_32_bits", 2)],
};
fn c07(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let giant_wav = idx == 7;
    let ch = sig::channels(r);
    let rate = sig::rate(r);
    let judge = |ub: u64, bytes: usize, what: &str| -> Res {
        let actual = bytes as u64 * 8;
        ensure!(ub >= actual, "{}: bound {} bits, save wrote {} bits", what, ub, actual);
        ensure!(ub <= actual + actual / 20 + 1024, "{}: bound {} bits is not tight, save wrote {} bits", what, ub, actual);
        Ok(())
    };
    if idx == 6 || giant_wav {
        let mut n = ByteCount(0);
        let ub = if giant_wav {
            let mut w = adhoc_audio::WavCodec::new(StreamInfo::new(rate, 1));
            giant(r, &mut w)?;
            w.save_to(&mut n)?;
            w.filesize_upperbound()
        } else {
            let mut k = new_codec(rate, 1, 0);
            giant(r, &mut k)?;
            k.save_to(&mut n).ok_or("save failed")?;
            k.filesize_upperbound()
        };
        judge(ub, n.0 as usize, &format!("stream of more than 2^32 bits (wav: {})", giant_wav))?;
        c.count("bounds_over_2_32_bits", 1);
        return Ok(());
    }
    if idx % 5 == 4 {
        let mut w = adhoc_audio::WavCodec::new(StreamInfo::new(rate, ch as u32));
        let steps = r.usize(1, 8);
        let mut hist = vec![];
        for _ in 0..steps {
            judge(w.filesize_upperbound(), wav_save(&w)?.len(), &format!("wav after {:?}", hist))?;
            c.count("bounds_checked_wav", 1);
            match r.below(4) {
                0 | 1 => {
                    let n = r.logsize(0, 3000);
                    let a = sig::audio(r, Domain::Finite, ch.min(16), n);
                    w.encode(&a.data);
                    hist.push(format!("encode {}", a.data.len()));
                }
                2 => {
                    w.seek(SeekFrom::Start(r.below(100)));
                    hist.push("seek".into());
                }
                _ => {
                    w = wav_load(&wav_save(&w)?)?;
                    hist.push("load".into());
                }
            }
        }
        judge(w.filesize_upperbound(), wav_save(&w)?.len(), &format!("wav after {:?}", hist))?;
        c.d(format!("wav {} ch {:?}", ch, hist));
        c.sig(hash_bytes(format!("{:?}{}", hist, ch).as_bytes()));
        return Ok(());
    }
    let level = r.usize(0, 10) as u32;
    let mut codec = new_codec_any(r, rate, ch, level);
    let steps = r.usize(1, 12);
    let mut hist: Vec<String> = vec![];
    let mut frames = 0usize;
    let mut can_encode = true;
    c.count("empty_codecs", 1);
    for _ in 0..=steps {
        let ub = codec.filesize_upperbound();
        let len = save(&codec)?.len();
        judge(ub, len, &format!("adhoc {} ch level {} after {:?}", ch, level, hist))?;
        c.count("bounds_checked_adhoc", 1);
        match hist.last().map(|s| s.split(' ').next().unwrap().to_string()).as_deref() {
            Some("load") => c.count("after_load", 1),
            Some("decode") => c.count("after_decode", 1),
            _ => {}
        }
        match r.below(8) {
            0..=3 if can_encode => {
                let n = match r.below(4) {
                    0 => r.usize(0, 5),
                    1 => r.logsize(1, 3000),
                    _ => r.logsize(1, 200),
                };
                let a = sig::audio(r, Domain::Finite, ch, n.min(60_000 / ch));
                let part = sig::partition(r, a.frames, true);
                encode_parts(&mut codec, &a.data, ch, &part)?;
                frames += a.frames;
                hist.push(format!("encode {}x{}", a.frames, part.len()));
            }
            4 => {
                rewind(r, &mut codec);
                can_encode = true;
                frames = frames.max(1) - 1;
                hist.push("rewind".into());
            }
            5 => {
                rewind(r, &mut codec);
                let want = r.usize(1, 4000);
                decode_some(r, &mut codec, ch, want)?;
                can_encode = false;
                hist.push(format!("decode {}", want));
            }
            6 if frames > 0 => {
                let t = ms_in(r, rate, frames);
                codec.seek(SeekFrom::Start(t));
                can_encode = t == 0;
                hist.push(format!("seek {}", t));
            }
            _ => {
                codec = load(&save(&codec)?)?;
                can_encode = true;
                hist.push("load".into());
            }
        }
    }
    c.d(format!("adhoc {} ch level {} {:?}", ch, level, hist));
    c.sig(hash_bytes(format!("{:?}{}{}", hist, ch, level).as_bytes()));
    Ok(())
}

// ---------------------------------------------------------------- C08
pub static C08: Prop = Prop {
    id: "C08",
    quick: 60000,
    thorough: 3000000,
    run: c08,
    rule: "Each case makes random encode calls of raw sample counts (partial sample frames, empty, one frame, around multiples of 65535 per channel) on a compressed codec and a WAV codec; every returned count is compared with the largest whole number of frames, and their sum with the per-channel count, the total decoded after a rewind and after save and load, and the content identity of the delivered frames at level 0; one file has more than 2^32 samples (the count, and what follows after seeks near its end). Distinct by (call sizes, channels, level).",
    assume: &["a stream of more than 65535 channels holds at least one sample frame"],
    require: &[("encode_calls", 30_000), ("partial_frame_calls", 5000), ("calls_over_65535", 10), ("totals_checked", 10_000), ("over_2_32_samples", 1)],
};
/// a file with more than 2^32 samples (silence takes the fewest bits)
fn c08_huge(c: &mut Ctx, r: &mut Rng) -> Res {
    use std::io::Read;
    crate::CASE_EXTRA_MS.store(120_000, std::sync::atomic::Ordering::SeqCst);
    let ch = r.usize(1, 3);
    let blocks = 65_600 / ch + r.usize(0, 50);
    let last = r.usize(1, 65_535);
    let n = blocks * ch;
    let mut f = crate::fmt::File { nib_data: vec![0; (n + 1) / 2], nib_count: n as u32, init_words: vec![0; (n + 63) / 64], init_cursor: n as u128, header_cursor: n as u32, info: Some((1000, ch as u32)), ..Default::default() };
    f.init_words[0] = (1 << ch) - 1;
    f.hist = vec![[0; 3]; n];
    let mut bits = 0u64;
    for i in 0..n {
        let size = if i / ch == blocks - 1 { last } else { 65_535 };
        f.sizes.push(size as u16);
        f.cursors.push(bits);
        bits += if i < ch { 3 * 16 + (size as u64 - 3) * 2 } else { size as u64 * 2 };
    }
    let chunks = bits / 128 + 1;
    let total = (blocks as u64 - 1) * 65_535 + last as u64;
    c.d(format!("a file of {} frames of silence in {} channels ({} samples)", total, ch, total * ch as u64));
    let mut head = crate::fmt::write(&f);
    let at = head.len() - 16 - 16 - 8;
    head.truncate(at);
    head.extend(chunks.to_le_bytes());
    let mut tail = (bits as u128).to_le_bytes().to_vec();
    tail.extend((bits as u128).to_le_bytes());
    let src = std::io::Cursor::new(head).chain(std::io::repeat(0).take(chunks * 16)).chain(std::io::Cursor::new(tail));
    let mut k = AdhocCodec::load(src).ok_or("the file does not load")?;
    let got = k.calculate_sample_count_per_channel();
    ensure!(got == total, "count {} per channel of {}", got, total);
    let mut buf = vec![1.0f32; 65_536];
    for _ in 0..12 {
        let t = total - r.below(300_000).min(total);
        let (lo, hi) = pos_range(1000, t as f64);
        k.seek(SeekFrom::Start(t));
        let mut have = 0u64;
        while let Some(n) = k.decode(&mut buf) {
            ensure!(n % ch == 0 && n > 0, "decode reports {} samples in {} channels", n, ch);
            ensure!(buf[..n].iter().all(|&x| x == 0.0), "silence decodes as {:?}", buf[..n].iter().find(|&&x| x != 0.0));
            have += (n / ch) as u64;
            ensure!(have < 2_000_000, "no end after seek {} of {}", t, total);
        }
        let (few, many) = (total.saturating_sub(hi as u64), total.saturating_sub(lo as u64));
        ensure!((few..=many).contains(&have), "after seek {} of {}: {} frames delivered, expected {}..={}", t, total, have, few, many);
        c.count("seeks_beyond_2_32_samples", 1);
    }
    c.count("over_2_32_samples", 1);
    Ok(())
}
fn c08(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    if idx % 1_000_000 == 4 {
        return c08_huge(c, r);
    }
    let ch = sig::channels(r);
    let big = idx % 250 == 5;
    let ch = if big { r.usize(1, 3) } else { ch };
    let level = if r.chance(1, 2) { 0 } else { r.usize(0, 12) as u32 };
    let rate = sig::rate(r);
    let (ch, ncalls) = match wide_case(r, idx) {
        Some(x) => (x.0, 3),
        None => (ch, r.usize(0, 12)),
    };
    let many = idx % 500 == 13;
    let mut sizes: Vec<usize> = (0..ncalls)
        .map(|_| match r.below(7) {
            0 => r.usize(0, ch),
            1 => r.usize(0, 5 * ch),
            2 => ch * r.usize(0, 20),
            3 => ch * r.usize(0, 20) + r.usize(0, ch - 1),
            4 => 1024,
            _ => r.logsize(0, 4000),
        })
        .collect();
    if big {
        let k = r.usize(1, 3);
        let n = (65535 * k) as i64 + r.i64(-2, 2);
        let extra = r.usize(0, ch - 1);
        let at = r.usize(0, sizes.len());
        sizes.insert(at, n as usize * ch + extra);
    }
    if many {
        sizes = (0..(70_000 / ch)).map(|_| ch * r.usize(1, 2) + r.usize(0, ch - 1)).collect();
    }
    if ch > 65535 {
        // without any audio such a stream is refused by load (see assumptions)
        sizes.push(ch);
    }
    if idx % 2500 == 31 {
        sizes.push(ch * (600_000 / ch));
    }
    c.count("over_255_channels", (ch > 255) as u64);
    c.count("over_65535_channels", (ch > 65535) as u64);
    c.count("over_65536_frame_headers", (sizes.len() * ch > 65536) as u64);
    c.count("over_500k_samples", (sizes.iter().sum::<usize>() > 500_000) as u64);
    c.d(format!("level {} rate {} {} ch, raw call sizes {:?} ({} calls)", level, rate, ch, &sizes[..sizes.len().min(30)], sizes.len()));
    let mut codec = new_codec_any(r, rate, ch, level);
    let mut wav = adhoc_audio::WavCodec::new(StreamInfo::new(rate, ch as u32));
    let mut taken: Vec<f32> = vec![];
    for &s in &sizes {
        let frames = s / ch;
        let mut a = if many { (0..frames * ch).map(|_| r.sym() as f32).collect() } else { sig::audio(r, Domain::Unit, ch, frames).data };
        let whole = a.len();
        while a.len() < s {
            a.push(r.sym() as f32)
        }
        let got = codec.encode(&a);
        ensure!(got == Some(whole), "encode of {} samples in {} channels reports {:?}, expected {}", s, ch, got, whole);
        let gw = wav.encode(&a);
        ensure!(gw == Some(whole), "wav encode of {} samples in {} channels reports {:?}, expected {}", s, ch, gw, whole);
        taken.extend_from_slice(&a[..whole]);
        c.count("encode_calls", 1);
        c.count("partial_frame_calls", (s % ch != 0) as u64);
        c.count("calls_over_65535", (frames > 65535) as u64);
    }
    let total = taken.len();
    let per = (total / ch) as u64;
    ensure!(codec.calculate_sample_count_per_channel() == per, "count {} per channel after taking {}", codec.calculate_sample_count_per_channel(), per);
    let file = save(&codec)?;
    rewind(r, &mut codec);
    ensure!(codec.calculate_sample_count_per_channel() == per, "count {} per channel after rewind, expected {}", codec.calculate_sample_count_per_channel(), per);
    let out = decode_some(r, &mut codec, ch, total + 5 * ch)?;
    ensure!(out.len() == total, "{} samples delivered, {} taken", out.len(), total);
    check_level(&taken, &out, ch, level)?;
    ensure!(codec.calculate_sample_count_per_channel() == per, "count {} per channel after decoding, expected {}", codec.calculate_sample_count_per_channel(), per);
    let mut l = load(&file)?;
    ensure!(l.calculate_sample_count_per_channel() == per, "count {} per channel after load, expected {}", l.calculate_sample_count_per_channel(), per);
    let out = decode_all(&mut l, ch, total + 16)?;
    ensure!(out.len() == total, "{} samples delivered by the loaded copy, {} taken", out.len(), total);
    wav.seek(SeekFrom::Start(0));
    let w = decode_all(&mut wav, ch, total + 16)?;
    check_level0(&taken, &w, ch).map_err(|e| format!("wav: {}", e))?;
    // reuse: the counts follow the new recording
    if total > 0 && r.chance(1, 3) {
        rewind(r, &mut codec);
        let n = r.usize(1, 50);
        let a = sig::audio(r, Domain::Unit, ch, n);
        let g = codec.encode(&a.data);
        ensure!(g == Some(a.data.len()), "encode after rewind reports {:?}", g);
        ensure!(codec.calculate_sample_count_per_channel() == n as u64, "count {} per channel after re-recording {}", codec.calculate_sample_count_per_channel(), n);
        codec.init();
        let o = decode_all(&mut codec, ch, total + a.data.len() + 16)?;
        ensure!(o.len() == a.data.len(), "{} samples delivered after re-recording {}", o.len(), a.data.len());
    }
    c.count("totals_checked", 1);
    c.sig(hash_u64s(&[ch as u64, level as u64, hash_u64s(&sizes.iter().map(|&x| x as u64).collect::<Vec<_>>())]));
    Ok(())
}
#[allow(dead_code)]
fn _unused(_: AdhocCodec) {}
