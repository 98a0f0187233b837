//! C24-C26: guarantees over whole working sessions (conversion chains, memory, interrupted recordings).
use super::Prop;
use crate::ad::*;
use crate::ctx::*;
use crate::ensure;
use crate::rng::*;
use crate::sig::{self, Domain};
use crate::wavref;
use adhoc_audio::{SeekFrom, StreamInfo, Streamable, WavCodec};
use std::sync::atomic::Ordering::Relaxed;

pub const PROPS: &[&Prop] = &[&C24, &C25, &C26];

/// encode in calls of the given sizes (sample frames)
fn feed(c: &mut dyn Streamable, data: &[f32], ch: usize, part: &[usize]) -> Res {
    let n = encode_parts(c, data, ch, part)?;
    ensure!(n == data.len() as u64, "encode reports {} of {} samples", n, data.len());
    Ok(())
}

// ---------------------------------------------------------------- C24
pub static C24: Prop = Prop {
    id: "C24",
    quick: 60000,
    thorough: 3000000,
    run: c24,
    rule: "Each case takes audio from a generated WAV file (8 or 16 bit, every 16-bit value possible) or a signal and sends it through a chain of 2-7 conversions, each through a compressed codec at level 0 or a WAV codec, with or without saving and loading, with random call and buffer sizes; every conversion of 16-bit audio must deliver exactly the same samples (-32768 becoming -32767); the first one of a signal must stay within one step and defines that audio. Distinct by (samples, chain).",
    assume: &["level 0 throughout (higher levels add dither in every generation)"],
    require: &[("hops_compared", 20_000), ("hops_adhoc", 5_000), ("hops_wav", 5_000), ("from_16_bit_file", 2_000), ("from_8_bit_file", 1_000), ("from_signal", 2_000), ("samples_compared", 1_000_000), ("all_16_bit_values", 3)],
};
fn c24(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let ch = sig::channels(r).min(64);
    let rate = sig::rate(r);
    let all = idx % 5000 == 3;
    let n = if all { 65536usize.div_ceil(ch) } else { let cp = if idx % 100 == 17 { 60_000 } else { 3000 }; sig::frames(r, ch, cp).max(1) };
    let len = ch * n;
    // generation 0
    let (start, tag): (Vec<f32>, &str) = match if all { 0 } else { r.below(4) } {
        0 | 1 => {
            let pcm: Vec<i16> = if all {
                (0..len).map(|i| (i as u16) as i16).collect()
            } else {
                let a = sig::audio(r, Domain::Unit, ch, n);
                let wild = r.chance(1, 2);
                (0..len).map(|i| if wild { r.u64() as i16 } else { (a.data[i] * 32767.0).round() as i16 }).collect()
            };
            let bytes: Vec<u8> = pcm.iter().flat_map(|s| s.to_le_bytes()).collect();
            let f = wavref::build(&wavref::Layout::random(r), 1, ch as u16, rate, 16, &bytes);
            let mut w = wav_load(&f)?;
            (decode_all(&mut w, ch, len + 16)?, "from_16_bit_file")
        }
        2 => {
            let bytes: Vec<u8> = (0..len).map(|_| r.u64() as u8).collect();
            let f = wavref::build(&wavref::Layout::random(r), 1, ch as u16, rate, 8, &bytes);
            let mut w = wav_load(&f)?;
            (decode_all(&mut w, ch, len + 16)?, "from_8_bit_file")
        }
        _ => (sig::audio(r, Domain::Unit, ch, n).data, "from_signal"),
    };
    ensure!(start.len() == len, "{} of {} samples read", start.len(), len);
    c.count(tag, 1);
    c.count("all_16_bit_values", all as u64);
    c.d(format!("{} {} ch {} frames", tag, ch, n));
    let hops = r.usize(2, 7);
    // what every conversion has to deliver: 16-bit audio exactly, but for -32768,
    // which lies outside [-1,1] and becomes -1
    let pcm = |v: &[f32]| v.iter().map(|&x| (x as f64 * 32767.0).round() as i32).collect::<Vec<i32>>();
    let clip = |v: Vec<i32>| v.into_iter().map(|x| x.max(-32767)).collect::<Vec<i32>>();
    let mut expect: Option<Vec<i32>> = if tag == "from_signal" { None } else { Some(clip(pcm(&start))) };
    let mut cur = start.clone();
    let mut chain = String::new();
    for h in 0..hops {
        let part = sig::partition(r, n, true);
        let adhoc = r.chance(1, 2);
        let file = r.chance(2, 3);
        let out = if adhoc {
            let mut k = new_codec_any(r, rate, ch, 0);
            feed(&mut k, &cur, ch, &part)?;
            if file {
                k = load(&save(&k)?)?;
            } else {
                rewind(r, &mut k);
            }
            c.count("hops_adhoc", 1);
            decode_some(r, &mut k, ch, len + ch)?
        } else {
            let mut w = WavCodec::new(StreamInfo::new(rate, ch as u32));
            feed(&mut w, &cur, ch, &part)?;
            if file {
                w = wav_load(&wav_save(&w)?)?;
            } else {
                w.seek(SeekFrom::Start(0));
            }
            c.count("hops_wav", 1);
            decode_some(r, &mut w, ch, len + ch)?
        };
        chain.push_str(match (adhoc, file) {
            (true, true) => "A",
            (true, false) => "a",
            (false, true) => "W",
            (false, false) => "w",
        });
        let tag = |e: String| format!("conversion {} of chain {}: {}", h + 1, chain, e);
        match &expect {
            None => {
                check_level0(&start, &out, ch).map_err(tag)?;
                expect = Some(pcm(&out));
            }
            Some(f) => {
                let got = pcm(&out);
                if &got != f {
                    let i = got.iter().zip(f).position(|(a, b)| a != b).unwrap_or(got.len().min(f.len()));
                    return Err(tag(format!(
                        "{} of {} samples, sample {} is {:?} instead of {:?}",
                        got.len(), f.len(), i, got.get(i), f.get(i)
                    )));
                }
                c.count("hops_compared", 1);
                c.count("samples_compared", out.len() as u64);
            }
        }
        cur = out;
    }
    c.d(format!("chain {}", chain));
    c.sig(hash_u64s(&[hash_f32s(&start), hash_bytes(chain.as_bytes())]));
    Ok(())
}

// ---------------------------------------------------------------- C25
pub static C25: Prop = Prop {
    id: "C25",
    quick: 24000,
    thorough: 1200000,
    run: c25,
    rule: "Each case repeats one working session (rewind, record, decode, seek, save) 12-60 times on one codec, or replaces a recording by shorter and longer ones, and reads the live heap bytes from a counting allocator after every session: no growth beyond what the third session held, decoding adds at most one frame per channel, everything is proportional to the stored audio, and dropping the codec returns every byte. Distinct by (channels, partition, level, session script).",
    assume: &["memory of a compressed codec: at most 4 times the saved file, plus 16 bytes per sample of the largest frame over all channels, plus 1 kB per channel, plus 64 kB; of a WAV codec: at most 4 times the saved file plus 64 kB", "at levels above 0 (where the dither differs between sessions) at most twice the memory of the third session"],
    require: &[("sessions_measured", 200_000), ("codecs_dropped", 10_000), ("repeated_adhoc", 5_000), ("repeated_wav", 2_000), ("decode_growth_checked", 20_000), ("partial_decodes_between", 10_000), ("seeks_between", 10_000), ("many_small_frames", 500), ("large_frames", 100), ("loaded_copies", 2_000)],
};
struct Sink;
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Tally(usize);
impl std::io::Write for Tally {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn live() -> usize {
    CUR.load(Relaxed)
}
fn c25(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    if idx % 4 == 3 {
        return c25_wav(c, r, idx);
    }
    let ch = if idx % 500 == 77 { r.usize(256, 3000) } else { sig::channels(r) };
    let level = if r.chance(2, 3) { 0 } else { r.usize(1, 10) as u32 };
    let rate = sig::rate(r);
    let (n, part) = match r.below(12) {
        0 => {
            let n = r.usize(200, 1500 / ch.min(7));
            (n, vec![1; n])
        }
        1 if idx % 5 == 0 => {
            let n = r.usize(1, 80_000 / ch);
            (n, vec![n])
        }
        _ => {
            let n = sig::frames(r, ch, 3000).max(1);
            (n, sig::partition(r, n, true))
        }
    };
    let a = sig::audio(r, Domain::Unit, ch, n);
    let rounds = if a.data.len() > 20_000 { 12 } else { r.usize(12, 60) };
    let maxframe = part.iter().copied().max().unwrap().min(65535);
    c.count("many_small_frames", (part.len() > 100) as u64);
    c.count("large_frames", (maxframe > 10_000) as u64);
    // the script of every session
    let decode_buf = ch * r.usize(1, 1 + 2048 / ch);
    let how_far = *r.pick(&[0usize, 1, 2, 3, 3, 3]);
    let save_each = r.chance(1, 3);
    let seeks: Vec<u64> = (0..r.usize(0, 3)).map(|_| (r.unit() * n as f64 * 1100.0 / rate as f64) as u64).collect();
    let loaded = r.chance(1, 4);
    let by_init = r.chance(1, 2);
    c.d(format!(
        "adhoc level {} {} {} rounds {} decode mode {} buffer {} seeks {:?} save {} loaded {}",
        level, a.describe(), sig::part_desc(&part), rounds, how_far, decode_buf, seeks, save_each, loaded
    ));
    let mut buf = vec![0.0f32; decode_buf];
    let mut levels = vec![0usize; rounds];
    let file = if loaded {
        let mut k = new_codec(rate, ch, level);
        feed(&mut k, &a.data, ch, &part)?;
        Some(save(&k)?)
    } else {
        None
    };
    c.count("loaded_copies", loaded as u64);
    let mut growth = (0usize, 0usize, 0u64);
    let base = live();
    let mut codec = match &file {
        Some(f) => load(f)?,
        None => new_codec(rate, ch, level),
    };
    let mut size = Tally(0);
    for k in 0..rounds {
        if by_init {
            codec.init()
        } else {
            codec.seek(SeekFrom::Start(0))
        }
        let mut at = 0;
        for &p in &part {
            codec.encode(&a.data[at * ch..(at + p) * ch]);
            at += p;
        }
        if k == 0 {
            codec.save_to(&mut size);
        } else if save_each {
            codec.save_to(Sink);
        }
        codec.init();
        let before = live();
        // 0: nothing, 1: one buffer, 2: half, 3: everything
        let goal = match how_far {
            0 => 0,
            1 => 1,
            2 => a.data.len() / 2,
            _ => usize::MAX,
        };
        let mut got = 0;
        let mut peak = before;
        while got < goal {
            match codec.decode(&mut buf) {
                Some(m) => got += m,
                None => break,
            }
            peak = peak.max(live());
        }
        // compared after the loop: formatting allocates
        growth = (growth.0.max(peak.saturating_sub(before)), before.max(growth.1), growth.2 + (how_far > 0) as u64);
        for &t in &seeks {
            codec.seek(SeekFrom::Start(t));
            codec.decode(&mut buf);
        }
        levels[k] = live() - base;
    }
    let end = levels[rounds - 1];
    let per_frame = 16 * ch * maxframe + 1024 * ch;
    ensure!(
        growth.0 <= per_frame + 4096,
        "decoding makes the codec grow by {} bytes; its largest frame holds {} samples in {} channels",
        growth.0, maxframe, ch
    );
    let allowed = 4 * size.0 + per_frame + 65536;
    let high = levels.iter().copied().max().unwrap();
    ensure!(high <= allowed, "codec holds {} bytes, more than {} (a saved file of {} bytes, {} channels)", high, allowed, size.0, ch);
    let steady = levels[2];
    let limit = if level == 0 { steady + steady / 4 + 1024 } else { 2 * steady + 4096 };
    ensure!(
        end <= limit,
        "the same session repeated {} times: {} bytes held after the third, {} after the last",
        rounds, steady, end
    );
    drop(codec);
    let left = live();
    ensure!(left <= base, "{} bytes still allocated after dropping the codec", left - base);
    c.count("sessions_measured", rounds as u64);
    c.count("decode_growth_checked", growth.2);
    c.count("repeated_adhoc", 1);
    c.count("codecs_dropped", 1);
    c.count("partial_decodes_between", if how_far == 1 || how_far == 2 { rounds as u64 } else { 0 });
    c.count("seeks_between", (seeks.len() * rounds) as u64);
    c.sig(hash_u64s(&[hash_f32s(&a.data), level as u64, how_far as u64, hash_u64s(&seeks), rounds as u64]));
    Ok(())
}
fn c25_wav(c: &mut Ctx, r: &mut Rng, _idx: u64) -> Res {
    let ch = sig::channels(r).min(33);
    let rate = sig::rate(r);
    let n = sig::frames(r, ch, 4000).max(1);
    let a = sig::audio(r, Domain::Unit, ch, n);
    let part = sig::partition(r, n, true);
    let rounds = r.usize(12, 60);
    let mode = r.below(3);
    c.d(format!("wav {} {} rounds {} mode {}", a.describe(), sig::part_desc(&part), rounds, mode));
    let mut buf = vec![0.0f32; ch * r.usize(1, 300)];
    let mut levels = vec![0usize; rounds];
    let base = live();
    let mut w = WavCodec::new(StreamInfo::new(rate, ch as u32));
    let mut size = Tally(0);
    for k in 0..rounds {
        match mode {
            0 => w.seek(SeekFrom::Start(0)),
            1 => w.seek(SeekFrom::Current(i64::MIN)),
            _ => w.seek(SeekFrom::End(i64::MIN)),
        }
        let mut at = 0;
        for &p in &part {
            w.encode(&a.data[at * ch..(at + p) * ch]);
            at += p;
        }
        if k == 0 {
            let _ = w.save_to(&mut size);
        } else if k % 3 == 0 {
            let _ = w.save_to(Sink);
        }
        w.seek(SeekFrom::Start(0));
        while w.decode(&mut buf).is_some() {}
        levels[k] = live() - base;
    }
    let (steady, end) = (levels[2], levels[rounds - 1]);
    ensure!(end <= steady + steady / 4 + 1024, "wav: the same session repeated {} times: {} bytes held after the third, {} after the last", rounds, steady, end);
    ensure!(end <= 4 * size.0 + 65536, "wav codec holds {} bytes for a file of {}", end, size.0);
    drop(w);
    let left = live();
    ensure!(left <= base, "{} bytes still allocated after dropping the wav codec", left - base);
    c.count("sessions_measured", rounds as u64);
    c.count("repeated_wav", 1);
    c.count("codecs_dropped", 1);
    c.sig(hash_u64s(&[hash_f32s(&a.data), mode, rounds as u64]));
    Ok(())
}

// ---------------------------------------------------------------- C26
pub static C26: Prop = Prop {
    id: "C26",
    quick: 40000,
    thorough: 2000000,
    run: c26,
    rule: "Each case records audio in random encode calls and saves (and asks for size bound, counts and info) at random points between them, including before the first and after the last; every file is loaded and decoded and compared bit for bit with the beginning of the finished recording; the finished file is compared byte for byte with that of an undisturbed twin. Also for WAV codecs, with overwriting. Distinct by (audio, partition, level, save points).",
    assume: &["a save before the first encode call of a stream of more than 65535 channels is not loaded"],
    require: &[("prefixes_checked", 50_000), ("empty_prefixes", 2_000), ("samples_compared", 1_000_000), ("twins_compared", 20_000), ("wav_prefixes_checked", 10_000), ("prefix_of_short_first_frame", 500), ("reused_codec", 2_000), ("older_recording_queried", 1_000), ("calls_over_65535", 5), ("over_255_channels", 20), ("over_65536_frame_headers", 5)],
};
fn c26(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    if idx % 5 == 2 {
        return c26_wav(c, r);
    }
    let (ch, n, part) = match super::codec::scale_case(r, idx) {
        Some(x) => x,
        None => {
            let ch = sig::channels(r);
            let cp = if idx % 100 == 40 { 40_000 } else { 3000 };
            let n = sig::frames(r, ch, cp);
            (ch, n, sig::partition(r, n, true))
        }
    };
    let dom = Domain::Finite;
    let a = super::codec::scale_audio(r, idx, dom, ch, n);
    super::codec::count_scale(c, ch, &part, a.data.len());
    let level = if r.chance(1, 2) { 0 } else { r.usize(0, 10) as u32 };
    let rate = sig::rate(r);
    c.d(format!("level {} rate {} {} {}", level, rate, a.describe(), sig::part_desc(&part)));
    // an older recording in the same codec must not show up either
    let reused = r.chance(1, 4) && ch < 300;
    c.count("reused_codec", reused as u64);
    let mut codec = new_codec(rate, ch, level);
    let mut twin = new_codec(rate, ch, level);
    if reused {
        let m = r.usize(1, 400);
        let old = sig::audio(r, Domain::Finite, ch, m);
        // any calls, or about as many as the recording over it has
        let op = if r.chance(1, 2) {
            sig::partition(r, m, true)
        } else {
            let k = part.len().clamp(1, m);
            (0..k).map(|i| m * (i + 1) / k - m * i / k).collect()
        };
        c.d(format!("over an older recording of {} frames in {} calls", m, op.len()));
        feed(&mut codec, &old.data, ch, &op)?;
        feed(&mut twin, &old.data, ch, &op)?;
        // what was asked about it must not show up either
        if r.chance(1, 2) {
            let count = codec.calculate_sample_count_per_channel();
            ensure!(count == m as u64, "count {} per channel after an older recording of {} frames", count, m);
            codec.filesize_upperbound();
            codec.info();
            if r.chance(1, 2) {
                save(&codec)?;
            }
            c.count("older_recording_queried", 1);
        }
        rewind(r, &mut codec);
        twin.init();
    }
    // save points: before call i
    let k = part.len();
    let want = if a.data.len() > 30_000 || k > 2000 { 3 } else { r.usize(1, 8) };
    let mut points: Vec<usize> = (0..want).map(|_| r.usize(0, k)).collect();
    if r.chance(1, 3) {
        points.push(0)
    }
    if r.chance(1, 3) {
        points.push(1.min(k))
    }
    points.sort();
    points.dedup();
    let mut files = vec![];
    let mut at = 0usize;
    for i in 0..=k {
        if points.binary_search(&i).is_ok() && !(reused && at == 0) && !(ch > 65535 && at == 0) {
            let count = codec.calculate_sample_count_per_channel();
            ensure!(count == at as u64, "count {} per channel after {} frames", count, at);
            let f = save(&codec)?;
            ensure!(codec.filesize_upperbound() >= 8 * f.len() as u64, "size bound {} bits below the {} bytes of a save after {} frames", codec.filesize_upperbound(), f.len(), at);
            let info = codec.info();
            ensure!(info.channels() == ch && info.frequency() == rate as usize, "info changed after {} frames", at);
            files.push((at, f));
        }
        if i < k {
            let s = &a.data[at * ch..(at + part[i]) * ch];
            let g = codec.encode(s);
            ensure!(g == Some(s.len()), "encode call {} reports {:?} of {}", i, g, s.len());
            twin.encode(s);
            at += part[i];
        }
    }
    let (last, tfile) = (save(&codec)?, save(&twin)?);
    if n > 0 {
        ensure!(last == tfile, "the finished file ({} bytes) differs from that of a recording without saves in between ({} bytes)", last.len(), tfile.len());
        c.count("twins_compared", 1);
    }
    twin.init();
    let whole = if n == 0 && reused { vec![] } else { decode_all(&mut twin, ch, a.data.len() + 16)? };
    if level == 0 {
        check_level0(&a.data, &whole, ch)?;
    }
    for (m, f) in &files {
        let mut l = load(f).map_err(|e| format!("after {} of {} frames: {}", m, n, e))?;
        ensure!(l.calculate_sample_count_per_channel() == *m as u64, "saved after {} frames: loaded count is {}", m, l.calculate_sample_count_per_channel());
        ensure!(l.info().channels() == ch && l.info().frequency() == rate as usize, "saved after {} frames: loaded info differs", m);
        let out = if r.chance(1, 3) { decode_some(r, &mut l, ch, a.data.len() + ch)? } else { decode_all(&mut l, ch, a.data.len() + 16)? };
        same(&out, &whole[..(m * ch).min(whole.len())]).map_err(|e| format!("saved after {} of {} frames: {}", m, n, e))?;
        c.count("prefixes_checked", 1);
        c.count("empty_prefixes", (*m == 0) as u64);
        c.count("prefix_of_short_first_frame", (*m == 1 || *m == 2) as u64);
        c.count("samples_compared", out.len() as u64);
    }
    rewind(r, &mut codec);
    if n > 0 {
        let out = decode_all(&mut codec, ch, a.data.len() + 16)?;
        same(&out, &whole).map_err(|e| format!("finished recording: {}", e))?;
        c.sig(hash_u64s(&[hash_f32s(&a.data), level as u64, hash_u64s(&points.iter().map(|&x| x as u64).collect::<Vec<_>>())]));
    }
    Ok(())
}
fn c26_wav(c: &mut Ctx, r: &mut Rng) -> Res {
    let ch = sig::channels(r).min(64);
    let rate = sig::rate(r);
    let n = sig::frames(r, ch, 3000);
    let a = sig::audio(r, Domain::Finite, ch, n);
    let part = sig::partition(r, n, true);
    c.d(format!("wav rate {} {} {}", rate, a.describe(), sig::part_desc(&part)));
    let info = StreamInfo::new(rate, ch as u32);
    let (mut w, mut twin) = (WavCodec::new(info), WavCodec::new(info));
    // the old content beyond the position stays in a WAV codec
    let mut old = vec![];
    if r.chance(1, 4) {
        let m = r.usize(1, 300);
        old = sig::audio(r, Domain::Finite, ch, m).data;
        w.encode(&old);
        twin.encode(&old);
        w.seek(SeekFrom::Start(0));
        twin.seek(SeekFrom::Start(0));
        twin.encode(&[]);
    }
    let mut at = 0;
    for i in 0..=part.len() {
        if r.chance(1, 2) || i == part.len() {
            let f = wav_save(&w)?;
            ensure!(w.filesize_upperbound() >= 8 * f.len() as u64, "size bound {} bits below the {} bytes of a save", w.filesize_upperbound(), f.len());
            let mut l = wav_load(&f)?;
            let i = Streamable::info(&l);
            ensure!(i.channels() == ch && i.frequency() == rate as usize, "info of a save after {} frames differs", at);
            let out = decode_all(&mut l, ch, a.data.len() + old.len() + 16)?;
            let mut expect = a.data[..at * ch].to_vec();
            if old.len() > expect.len() {
                let e = expect.len();
                expect.extend_from_slice(&old[e..]);
            }
            check_level0(&expect, &out, ch).map_err(|e| format!("wav saved after {} of {} frames: {}", at, n, e))?;
            c.count("wav_prefixes_checked", 1);
            c.count("samples_compared", out.len() as u64);
        }
        if i < part.len() {
            let s = &a.data[at * ch..(at + part[i]) * ch];
            w.encode(s);
            twin.encode(s);
            at += part[i];
        }
    }
    ensure!(wav_save(&w)? == wav_save(&twin)?, "the finished WAV file differs from that of a recording without saves in between");
    if n > 0 {
        c.sig(hash_u64s(&[hash_f32s(&a.data), ch as u64]));
    }
    Ok(())
}
