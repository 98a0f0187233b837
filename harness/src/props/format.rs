//! C18, C19: compression strength and format stability.
use super::Prop;
use crate::ad::*;
use crate::ctx::*;
use crate::ensure;
use crate::fmt;
use crate::rng::*;
use crate::sig::{self, Domain};
use adhoc_audio::{AdhocCodec, SeekFrom, Streamable};

pub const PROPS: &[&Prop] = &[&C18, &C19];

// ---------------------------------------------------------------- C18
pub static C18: Prop = Prop {
    id: "C18",
    quick: 60000,
    thorough: 3000000,
    run: c18,
    rule: "Each case encodes a random signal (biased to incompressible ones: noise, full-scale squares, chosen residuals, and to silence/constants) with random frame sizes into a new codec; the saved size at level 0 is compared with 9/8 of the PCM size (4 bits per sample for silence and constants) plus 24 bytes per channel per 65535-sample piece of each call plus 192 bytes; at every level an independent decoder recovers each frame's residuals and coded bits and compares them with the best of the 15 Rice parameters. Distinct by (input bits, level, partition).",
    assume: &[],
    require: &[("files_measured", 25_000), ("silent_or_constant_files", 3_000), ("frames_measured", 100_000), ("files_above_95_percent_of_pcm", 1_000), ("pieces_over_65535", 5), ("rice_parameter_14", 500), ("rice_parameter_01", 10_000), ("long_frames_of_changing_loudness", 500), ("samples_in_frames", 5_000_000)],
};
fn c18(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let (ch, n, part) = if idx % 1500 == 11 {
        let n = *r.pick(&[65535usize, 65536, 131071, 70_000]);
        let n = r.dict_or(n, 5000, 200_000);
        let pre = *r.pick(&[0usize, 0, 1, 10]);
        (r.usize(1, 2), n + pre, [pre, n][(pre == 0) as usize..].to_vec())
    } else if idx % 40 == 3 {
        let n = r.logsize(1500, 65_000);
        let n = r.dict_or(n, 1500, 65_000);
        // the first frame of a recording and the others take different paths
        let pre = *r.pick(&[0usize, 1, 7, 300]);
        (1, n + pre, [pre, n][(pre == 0) as usize..].to_vec())
    } else if idx % 600 == 21 {
        let (ch, n) = (r.usize(256, 2000), r.usize(1, 30));
        (ch, n, sig::partition(r, n, false))
    } else {
        let ch = sig::channels(r);
        let cap = if idx % 100 == 0 { 200_000 } else { 8_000 };
        let n = sig::frames(r, ch, cap);
        (ch, n, sig::partition(r, n, true))
    };
    let level = if r.chance(2, 3) { 0 } else { r.usize(1, 10) as u32 };
    let style = if idx % 40 == 3 { 4 } else { r.below(4) };
    let a = match style {
        4 => {
            // one frame whose loudness changes at a few points, so that no part of it is typical
            let mut d: Vec<f32> = vec![];
            while d.len() < n {
                let k = if r.chance(1, 2) { n / r.usize(2, 8) } else { r.logsize(1, n) }.clamp(1, n - d.len());
                let amp = if r.chance(1, 8) { 0.0 } else { r.unit() * (-(r.below(16) as f64)).exp2() };
                (0..k).for_each(|_| d.push((amp * r.sym()) as f32));
            }
            c.count("long_frames_of_changing_loudness", 1);
            sig::Audio { ch, frames: n, data: d, kinds: vec![15] }
        }
        0 => {
            let mut chans = vec![];
            for _ in 0..ch {
                let mut v = vec![];
                let k = *r.pick(&[4usize, 5, 11, 14, 17, 14, 6, 12]);
                sig::gen_kind(r, k, n, &mut v);
                chans.push(v);
            }
            let mut d = vec![];
            for i in 0..n {
                for v in &chans {
                    d.push(v[i].clamp(-1.0, 1.0))
                }
            }
            sig::Audio { ch, frames: n, data: d, kinds: vec![4] }
        }
        1 => {
            let vals: Vec<f32> = (0..ch).map(|_| *r.pick(&[0.0f32, 1.0, -1.0, 0.5, -0.25, 1e-4, -0.0, 1.7, 0.77])).collect();
            let silent = r.chance(1, 2);
            let d: Vec<f32> = (0..n * ch).map(|i| if silent { 0.0 } else { vals[i % ch] }).collect();
            sig::Audio { ch, frames: n, data: d, kinds: vec![if silent { 0 } else { 1 }] }
        }
        _ => sig::audio(r, Domain::Finite, ch, n),
    };
    c.d(format!("level {} {} {}", level, a.describe(), sig::part_desc(&part)));
    let mut k = new_codec_any(r, 44100, ch, level);
    encode_parts(&mut k, &a.data, ch, &part)?;
    let file = save(&k)?;
    let pieces: usize = part.iter().map(|&p| p.div_ceil(65535)).sum();
    c.count("pieces_over_65535", part.iter().filter(|&&p| p > 65535).count() as u64);
    let overhead = (24 * ch * pieces + 192) as u64 * 8;
    if level == 0 {
        let pcm = a.data.len() as u64 * 16;
        let bits = file.len() as u64 * 8;
        ensure!(
            bits * 8 <= pcm * 9 + overhead * 8,
            "{} samples of 16-bit PCM ({} bytes) saved as {} bytes; {} pieces in {} channels allow {}",
            a.data.len(), pcm / 8, file.len(), pieces, ch, pcm * 9 / 64 + overhead / 8
        );
        if bits * 20 > pcm * 19 && pcm > 0 {
            c.count("files_above_95_percent_of_pcm", 1);
        }
        if style == 1 && n > 0 {
            ensure!(
                bits <= a.data.len() as u64 * 4 + overhead,
                "constant signal of {} samples saved as {} bytes; {} pieces in {} channels allow {}",
                a.data.len(), file.len(), pieces, ch, (a.data.len() as u64 * 4 + overhead) / 8
            );
            c.count("silent_or_constant_files", 1);
        }
        c.count("files_measured", 1);
    }
    // frames; if the layout cannot be read, that is C19's business
    if a.data.len() <= 60_000 || idx % 3 == 0 {
        match fmt::parse(&file).and_then(|f| fmt::decode(&f)) {
            Err(_) => c.count("files_not_readable_by_the_independent_decoder", 1),
            Ok(frames) => {
                for (i, f) in frames.iter().enumerate() {
                    let bits = f.end - f.start - f.raw_bits;
                    let best = fmt::best_rice(&f.residuals);
                    ensure!(
                        bits <= best,
                        "frame {} (channel {}, {} residuals) takes {} bits with parameter {}, the best parameter gives {}",
                        i, f.channel, f.residuals.len(), bits, f.exp, best
                    );
                    c.count("frames_measured", 1);
                    c.count("samples_in_frames", f.samples.len() as u64);
                    if f.residuals.len() > 0 {
                        c.count(&format!("rice_parameter_{:02}", f.exp), 1);
                    }
                }
            }
        }
    }
    if n > 0 {
        c.sig(hash_u64s(&[hash_f32s(&a.data), level as u64, hash_u64s(&part.iter().map(|&x| x as u64).collect::<Vec<_>>())]));
    }
    Ok(())
}

// ---------------------------------------------------------------- C19
pub static C19: Prop = Prop {
    id: "C19",
    quick: 40000,
    thorough: 2000000,
    run: c19,
    rule: "Three monitors. Golden corpus: 240 files written by the unmodified release 0.1.3 (committed with hash of the samples it decoded, 1-40 channels, all levels, many frame structures) are loaded, their info, counts and every decoded sample compared, saved again and compared again. Forward: an independent writer of the layout produces files with random frame sizes, any Rice parameter 1-15 per frame, residuals up to the full 16-bit wrap, levels 0-10, surplus capacity and any header cursor; the crate must decode them bit-exactly, also after seeks. Backward: files saved by the crate after random histories (also re-recorded, reloaded, decoded half) are parsed by an independent reader that checks every header field and decodes; the samples must equal the crate's bit-exactly. Distinct by file bytes.",
    assume: &["golden files contain no residual beyond 32765, where 0.1.3 saturated; independent files contain no raw sample -32768, which no version writes"],
    require: &[("golden_files", 240), ("golden_samples", 250_000), ("files_of_independent_writer", 10_000), ("files_read_by_independent_reader", 10_000), ("rice_parameter_15", 500), ("long_unary_runs", 500), ("levels_10", 500), ("reused_codecs", 1_000)],
};
fn golden(c: &mut Ctx, r: &mut Rng, line: &str, dir: &str) -> Res {
    let f: Vec<&str> = line.split(' ').collect();
    let n = |i: usize| f[i].parse::<usize>().unwrap();
    let (rate, ch, level, count) = (n(1), n(2), n(3), n(4));
    let want = u64::from_str_radix(f[5], 16).unwrap();
    let b = std::fs::read(format!("{}/{}", dir, f[0])).map_err(|e| format!("{}: {}", f[0], e))?;
    c.d(format!("golden {} {} Hz {} ch level {} {} samples", f[0], rate, ch, level, count));
    let mut bytes = b;
    for gen in 0..2 {
        let mut k = AdhocCodec::load(&bytes[..]).ok_or_else(|| format!("{} (generation {}) does not load", f[0], gen))?;
        ensure!(k.info().channels() == ch && k.info().frequency() == rate, "{}: info {} ch {} Hz", f[0], k.info().channels(), k.info().frequency());
        ensure!(k.calculate_sample_count_per_channel() as usize * ch == count, "{}: count {} per channel, {} samples in all", f[0], k.calculate_sample_count_per_channel(), count);
        let out = if r.chance(1, 2) { decode_all(&mut k, ch, count + ch)? } else { decode_some(r, &mut k, ch, count + ch)? };
        ensure!(out.len() == count, "{}: {} samples instead of {}", f[0], out.len(), count);
        ensure!(hash_f32s(&out) == want, "{} (generation {}): decodes to other samples than release 0.1.3 gave", f[0], gen);
        c.count("golden_samples", count as u64);
        bytes = save(&k)?;
    }
    c.count("golden_files", 1);
    c.sig(hash_bytes(&bytes));
    Ok(())
}
fn c19(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/../golden");
    if idx < 240 {
        let index = std::fs::read_to_string(format!("{}/index.txt", dir)).expect("golden corpus");
        let line = index.lines().nth(idx as usize).expect("golden corpus");
        return golden(c, r, line, dir);
    }
    if r.chance(1, 2) {
        forward(c, r, idx)
    } else {
        backward(c, r, idx)
    }
}
fn forward(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let ch = sig::channels(r).min(64);
    let n = sig::frames(r, ch, if idx % 100 == 0 { 60_000 } else { 5_000 });
    let level = r.usize(0, 10) as u32;
    let rate = if r.chance(1, 2) { 1000 } else { sig::rate(r) };
    let (ch, n, part) = match super::codec::scale_case(r, idx) {
        Some(x) => x,
        None => (ch, n, sig::partition(r, n, r.clone().chance(1, 2))),
    };
    let part: Vec<usize> = part.into_iter().filter(|&p| p > 0).flat_map(|p| {
        let mut v = vec![65535; p / 65535];
        if p % 65535 > 0 {
            v.push(p % 65535)
        }
        v
    }).collect();
    let a = super::codec::scale_audio(r, idx, Domain::Unit, ch, n);
    super::codec::count_scale(c, ch, &part, a.data.len());
    let pcm: Vec<i16> = a.data.iter().map(|&x| sig::trunc16(x)).collect();
    let mode = r.below(4);
    let fixed = r.usize(1, 15) as u32;
    let mut rr = r.fork();
    let mut longest = 0u32;
    let mut exps = [0u64; 16];
    let f = fmt::encode(level, rate, ch, &pcm, &part, |res| {
        let e = match mode {
            0 => fixed,
            1 => rr.usize(1, 15) as u32,
            2 => (1..16).min_by_key(|&k| res.iter().map(|&x| fmt::rice_bits(x.unsigned_abs(), k)).sum::<u64>()).unwrap(),
            _ => *rr.pick(&[1u32, 15]),
        };
        // keep the file small when many residuals are huge
        let cost: u64 = res.iter().map(|&x| fmt::rice_bits(x.unsigned_abs(), e)).sum();
        let e = if cost > 400_000 && cost > 20 * res.len() as u64 { 12 } else { e };
        longest = longest.max(res.iter().map(|&x| x.unsigned_abs() >> e).max().unwrap_or(0));
        exps[e as usize] += 1;
        e
    });
    let mut f = f;
    if r.chance(1, 4) {
        for _ in 0..r.usize(1, 4) {
            f.chunks.push((r.u64() as u128) << 64 | r.u64() as u128)
        }
        f.capacity = f.chunks.len() as u128 * 128;
    }
    if r.chance(1, 4) {
        f.header_cursor = r.below(f.n() as u64 + 1) as u32;
        f.bit_cursor = r.below(f.chunks.len() as u64 * 128 + 1) as u128;
    }
    let bytes = fmt::write(&f);
    c.d(format!("written independently: level {} {} {} parameters mode {}", level, a.describe(), sig::part_desc(&part), mode));
    let frames = fmt::decode(&f).map_err(|e| format!("harness: {}", e))?;
    let want = fmt::render(&f, &frames);
    let mut k = load(&bytes).map_err(|_| "a file of the documented layout does not load".to_string())?;
    ensure!(k.info().channels() == ch && k.info().frequency() == rate as usize, "info {} ch {} Hz", k.info().channels(), k.info().frequency());
    ensure!(k.calculate_sample_count_per_channel() == n as u64, "count {} per channel instead of {}", k.calculate_sample_count_per_channel(), n);
    let out = decode_all(&mut k, ch, want.len() + ch)?;
    same(&out, &want)?;
    if n > 0 {
        for _ in 0..2 {
            let t = r.below(n as u64 * 1000 / rate as u64 + 3);
            k.seek(SeekFrom::Start(t));
            let tail = decode_all(&mut k, ch, want.len() + ch)?;
            ensure!(tail.len() <= want.len(), "seek {} leaves {} samples", t, tail.len());
            same(&tail, &want[want.len() - tail.len()..]).map_err(|e| format!("after seek {}: {}", t, e))?;
        }
    }
    for (e, &x) in exps.iter().enumerate() {
        if x > 0 {
            c.count(&format!("rice_parameter_{:02}", e), x);
        }
    }
    c.count("long_unary_runs", (longest >= 256) as u64);
    c.count(&format!("levels_{}", level), 1);
    c.count("files_of_independent_writer", 1);
    c.sig(hash_bytes(&bytes));
    Ok(())
}
fn backward(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let ch = sig::channels(r).min(64);
    let level = r.usize(0, 11) as u32;
    let rate = sig::rate(r);
    let mut k = new_codec_any(r, rate, ch, level);
    let sessions = *r.pick(&[1usize, 1, 2, 3]);
    let mut n = 0;
    let mut input = vec![];
    let scale = super::codec::scale_case(r, idx);
    let (ch, sessions) = scale.as_ref().map_or((ch, sessions), |x| (x.0, 1));
    if scale.is_some() {
        k = new_codec_any(r, rate, ch, level);
    }
    for s in 0..sessions {
        if s > 0 {
            match r.below(3) {
                0 => k = load(&save(&k)?)?,
                1 => {
                    rewind(r, &mut k);
                    let w = r.usize(1, 500);
                    decode_some(r, &mut k, ch, w)?;
                }
                _ => {}
            }
            rewind(r, &mut k);
            c.count("reused_codecs", 1);
        }
        n = sig::frames(r, ch, if idx % 100 == 1 { 90_000 } else { 4_000 }).max(1);
        let part = match &scale {
            Some(x) => {
                n = x.1;
                x.2.clone()
            }
            None => sig::partition(r, n, true),
        };
        let a = super::codec::scale_audio(r, idx, Domain::Finite, ch, n);
        super::codec::count_scale(c, ch, &part, a.data.len());
        encode_parts(&mut k, &a.data, ch, &part)?;
        c.d(format!("level {} {} {}", level, a.describe(), sig::part_desc(&part)));
        input = a.data;
    }
    if r.chance(1, 3) {
        rewind(r, &mut k);
        let w = r.usize(1, 500);
        decode_some(r, &mut k, ch, w)?;
    }
    let file = save(&k)?;
    let f = fmt::parse(&file).map_err(|e| format!("saved file does not follow the layout: {}", e))?;
    ensure!(f.consumed == file.len(), "saved file has {} bytes behind the layout's end", file.len() - f.consumed);
    ensure!(f.level == level.min(10), "level field {} for level {}", f.level, level);
    ensure!(f.info == Some((rate, ch as u32)), "info field {:?} for {} Hz {} ch", f.info, rate, ch);
    ensure!(f.n() >= ch && f.header_cursor as usize <= f.n(), "header cursor {} of {} frames", f.header_cursor, f.n());
    let frames = fmt::decode(&f).map_err(|e| format!("saved file does not follow the layout: {}", e))?;
    let want = fmt::render(&f, &frames);
    ensure!(want.len() == n * ch, "the independent decoder finds {} samples, {} were encoded", want.len(), n * ch);
    if level == 0 {
        check_level0(&input, &want, ch).map_err(|e| format!("independent decoder: {}", e))?;
    }
    rewind(r, &mut k);
    let out = decode_all(&mut k, ch, n * ch + ch)?;
    same(&out, &want).map_err(|e| format!("crate vs independent decoder: {}", e))?;
    let mut l = load(&file)?;
    let out = decode_all(&mut l, ch, n * ch + ch)?;
    same(&out, &want).map_err(|e| format!("loaded file vs independent decoder: {}", e))?;
    c.count("files_read_by_independent_reader", 1);
    c.sig(hash_bytes(&file));
    Ok(())
}
