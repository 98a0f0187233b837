//! C12, C13: hostile input files.
use super::Prop;
use crate::ad::*;
use crate::ctx::*;
use crate::ensure;
use crate::fmt;
use crate::rng::*;
use crate::sig::{self, Domain};
use crate::wavref::{self, Layout};
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};

pub const PROPS: &[&Prop] = &[&C12, &C13];

/// heap an operation may use for an input of `len` bytes
fn mem_bound(len: usize, ch: usize) -> usize {
    // a file of plausible size has at least 16 bytes for each channel beyond 65535
    (24 << 20) + 400 * len + 2000 * ch.min((len / 16).max(65_535))
}

/// generic byte-level damage
fn damage(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) -> &'static str {
    if b.is_empty() {
        b.extend((0..r.usize(1, 200)).map(|_| r.u64() as u8));
        return "random bytes";
    }
    let n = b.len();
    // most structure sits at both ends
    let at = match r.below(4) {
        0 => r.usize(0, n - 1),
        1 => r.usize(0, (n - 1).min(60)),
        2 => n - 1 - r.usize(0, (n - 1).min(90)),
        _ => r.logsize(1, n) - 1,
    };
    match r.below(10) {
        0 => {
            b[at] ^= 1 << r.below(8);
            "bit flip"
        }
        1 => {
            b[at] = r.u64() as u8;
            "byte"
        }
        2 => {
            b[at] = *r.pick(&[0u8, 0xff, 0x7f, 0x80, 1]);
            "edge byte"
        }
        3 => {
            let w = *r.pick(&[2usize, 4, 8, 16]);
            let v: u128 = match r.below(6) {
                0 => u128::MAX,
                1 => 0,
                2 => 1 << r.below(128),
                3 => (1u128 << r.below(64)).wrapping_sub(1),
                4 => r.u64() as u128,
                _ => r.below(70000) as u128,
            };
            for (i, x) in v.to_le_bytes()[..w].iter().enumerate() {
                if at + i < n {
                    b[at + i] = *x
                }
            }
            "edge word"
        }
        4 => {
            let k = r.usize(1, 16).min(n - at);
            b.drain(at..at + k);
            "deletion"
        }
        5 => {
            let k = r.usize(1, 24);
            let ins: Vec<u8> = (0..k).map(|_| if r.chance(1, 2) { 0 } else { r.u64() as u8 }).collect();
            b.splice(at..at, ins);
            "insertion"
        }
        6 if !other.is_empty() => {
            let p = r.usize(0, other.len() - 1);
            b.truncate(at);
            b.extend(&other[p..]);
            "splice"
        }
        7 => {
            for x in b[at..].iter_mut() {
                if r.chance(1, 3) {
                    *x = r.u64() as u8
                }
            }
            "noise"
        }
        8 => {
            let k = r.logsize(1, 64).min(n - at);
            let v = r.u64() as u8;
            b[at..at + k].iter_mut().for_each(|x| *x = v);
            "block fill"
        }
        _ => {
            let k = r.logsize(1, 200);
            b.extend((0..k).map(|_| r.u64() as u8));
            "appended bytes"
        }
    }
}

// ---------------------------------------------------------------- C12
pub static C12: Prop = Prop {
    id: "C12",
    quick: 60000,
    thorough: 4000000,
    run: c12,
    rule: "Each case takes a saved stream (from the crate or the independent encoder) and damages it: structurally (level, channels, rate, header lists of wrong length, exponents, sizes, bit cursors, header cursor, list length fields, missing or surplus chunks, random coded bits, inconsistent capacity) or on the byte level (flips, edge words, deletions, insertions, splices, noise), or builds random bytes behind plausible lengths, or frame sizes that claim 2^31 or more samples in numbers that wrap around to what the file could hold; loads it and, if it loads, runs a random history of all operations (info, count, size bound, save, seek incl. extreme, decode to the end, rewind, re-encode, decode) while a counting allocator and a CPU clock watch. Every strict prefix of a valid file (exhaustive up to 3000 bytes) must be refused. Distinct by file bytes.",
    assume: &["no abort, panic (arithmetic overflow included), more than 30 s of CPU, more output than 65535 samples per header and channel, or more than 24 MB + 400 bytes per input byte + 2000 per channel (65535 channels or one per 16 bytes of input) of heap"],
    require: &[("damaged_files", 30_000), ("damaged_files_that_load", 8_000), ("structural_damage_that_loads", 3_000), ("refused", 10_000), ("prefixes_refused", 400_000), ("ops_after_load", 60_000), ("damage: overclaiming sizes", 40)],
};
pub(super) fn small_file(r: &mut Rng, big: bool) -> Vec<u8> {
    let ch = if r.chance(1, 12) { r.usize(1, 255) } else { r.usize(1, 4) };
    let n = r.logsize(0, if big { 20_000 } else { 400 }) / if ch > 20 { 20 } else { 1 };
    let a = sig::audio(r, Domain::Finite, ch, n);
    let part = sig::partition(r, n, false);
    let level = if r.chance(1, 2) { 0 } else { r.usize(0, 10) as u32 };
    let mut c = new_codec(sig::rate(r), ch, level);
    let _ = encode_parts(&mut c, &a.data, ch, &part);
    if r.chance(1, 4) {
        rewind(r, &mut c);
        let _ = decode_some(r, &mut c, ch, n * ch / 2 + 1);
    }
    save(&c).unwrap_or_default()
}
fn structural(r: &mut Rng, f: &mut fmt::File) -> &'static str {
    let n = f.n().min(f.sizes.len()).min(f.cursors.len());
    let (rate, ch) = f.info.unwrap_or((44100, 1));
    let edge32 = |r: &mut Rng| match r.below(5) {
        0 => u32::MAX,
        1 => 0,
        2 => 1 << r.below(32),
        3 => r.u64() as u32,
        _ => r.below(300) as u32,
    };
    let edge64 = |r: &mut Rng| match r.below(6) {
        0 => u64::MAX,
        1 => 0,
        2 => 1 << r.below(64),
        3 => r.u64() >> r.below(64),
        4 => u64::MAX - r.below(200),
        _ => r.below(5000),
    };
    let any = |r: &mut Rng| if n == 0 { 0 } else { r.usize(0, n - 1) };
    match r.below(22) {
        0 => {
            f.level = match r.below(3) {
                0 => r.below(11) as u32,
                1 => r.usize(11, 40) as u32,
                _ => edge32(r),
            };
            "level"
        }
        1 => {
            f.info = Some((rate, edge32(r)));
            "channels"
        }
        2 => {
            f.info = Some((rate, match r.below(4) {
                0 => ch.wrapping_add(1),
                1 => ch.saturating_sub(1),
                2 => n as u32,
                _ => r.usize(0, 70_000) as u32,
            }));
            "channels nearby"
        }
        3 => {
            f.info = Some((edge32(r), ch));
            "rate"
        }
        4 => {
            f.info = None;
            "no info"
        }
        5 if n > 0 => {
            let i = any(r);
            f.sizes[i] = *r.pick(&[0u16, 1, 2, 3, 65535, 32768, 1000]);
            "frame size"
        }
        6 if n > 0 => {
            let i = any(r);
            f.cursors[i] = edge64(r);
            "bit cursor"
        }
        7 if !f.nib_data.is_empty() => {
            let i = (any(r) / 2).min(f.nib_data.len() - 1);
            f.nib_data[i] = *r.pick(&[0u8, 0x0f, 0xf0, 0xff, 0x10, 0x01]);
            "exponents"
        }
        8 => {
            for x in f.nib_data.iter_mut() {
                *x = r.u64() as u8
            }
            "all exponents"
        }
        9 if !f.init_words.is_empty() => {
            let i = (any(r) / 64).min(f.init_words.len() - 1);
            f.init_words[i] = r.u64();
            "initial flags"
        }
        10 => {
            f.nib_count = match r.below(3) {
                0 => edge32(r),
                1 => f.nib_count.wrapping_add(1),
                _ => f.nib_count.wrapping_sub(1),
            };
            "exponent count"
        }
        11 => {
            f.init_cursor = match r.below(4) {
                0 => u128::MAX - r.below(300) as u128,
                1 => edge64(r) as u128,
                2 => f.init_cursor.wrapping_add(1),
                _ => 1 << r.below(128),
            };
            "flag count"
        }
        12 => {
            f.header_cursor = edge32(r);
            "header cursor"
        }
        13 => {
            f.bit_cursor = match r.below(3) {
                0 => u128::MAX - r.below(300) as u128,
                1 => edge64(r) as u128,
                _ => 1 << r.below(128),
            };
            "stream cursor"
        }
        14 => {
            f.capacity = match r.below(4) {
                0 => u128::MAX - r.below(300) as u128,
                1 => edge64(r) as u128,
                2 => f.chunks.len() as u128 * 128 + r.below(300) as u128,
                _ => 1 << r.below(128),
            };
            "stream length"
        }
        15 => {
            let k = r.usize(0, f.chunks.len());
            f.chunks.truncate(k);
            "chunks removed"
        }
        16 => {
            let k = r.usize(0, 20);
            for _ in 0..k {
                f.chunks.push((r.u64() as u128) << 64 | r.u64() as u128)
            }
            "chunks added"
        }
        17 => {
            let v = *r.pick(&[0u128, u128::MAX, u128::MAX << 64]);
            for x in f.chunks.iter_mut() {
                *x = if r.chance(1, 2) { v } else { (r.u64() as u128) << 64 | r.u64() as u128 }
            }
            "coded bits"
        }
        18 => {
            // one list of another length
            match r.below(5) {
                0 => {
                    f.sizes.pop();
                }
                1 => {
                    f.cursors.pop();
                }
                2 => {
                    f.hist.pop();
                }
                3 => {
                    f.nib_data.pop();
                }
                _ => {
                    f.init_words.pop();
                }
            }
            "list shortened"
        }
        19 => {
            match r.below(5) {
                0 => f.sizes.push(r.u64() as u16),
                1 => f.cursors.push(edge64(r)),
                2 => f.hist.push([r.u64() as i16, -32768, 32767]),
                3 => f.nib_data.push(r.u64() as u8),
                _ => f.init_words.push(r.u64()),
            }
            "list extended"
        }
        20 => {
            // a consistent additional block of frames
            let k = match r.below(3) {
                0 => 1,
                1 => ch.min(50) as usize,
                _ => r.usize(1, 300),
            };
            for j in 0..k {
                let i = n + j;
                if i / 2 >= f.nib_data.len() {
                    f.nib_data.push(r.u64() as u8)
                }
                if i / 64 >= f.init_words.len() {
                    f.init_words.push(r.u64())
                }
                f.sizes.push(*r.pick(&[0u16, 0, 1, 5, 65535]));
                f.cursors.push(if r.chance(1, 2) { f.bit_cursor as u64 } else { edge64(r) });
                f.hist.push([r.u64() as i16, r.u64() as i16, 5]);
            }
            f.nib_count = f.nib_count.wrapping_add(k as u32);
            f.init_cursor = f.init_cursor.wrapping_add(k as u128);
            "frames added"
        }
        _ => {
            for s in f.sizes.iter_mut() {
                *s = *r.pick(&[0u16, 65535, 1])
            }
            "all sizes"
        }
    }
}
/// a consistent file whose frames claim far more samples than its coded bits can hold, in numbers
/// that wrap around in 31 or 32 bits to something the bits could hold
pub(super) fn overclaiming(r: &mut Rng) -> Vec<u8> {
    let ch = r.usize(1, 4);
    let wrap: u64 = *r.pick(&[1u64 << 31, 1 << 31, 1 << 32, 1 << 32, 1 << 33]);
    let chunks = r.usize(0, 2000);
    let samples = wrap + r.below(chunks as u64 * 64 + 1);
    let per = (65_535 * ch) as u64;
    let rounds = ((samples + per - 1) / per) as usize;
    let mut f = fmt::File { level: r.below(11) as u32, info: Some((sig::rate(r), ch as u32)), ..Default::default() };
    let n = rounds * ch;
    for i in 0..n {
        let last = samples - per * (rounds as u64 - 1);
        f.sizes.push(if i / ch + 1 < rounds { 65_535 } else { (last / ch as u64) as u16 });
        f.cursors.push(r.below(chunks as u64 * 128 + 1));
        f.hist.push([0; 3]);
    }
    if r.chance(1, 2) {
        // the same total in another order
        let k = r.usize(0, n - 1);
        f.sizes.rotate_left(k);
    }
    f.nib_data = vec![0x11; (n + 1) / 2];
    f.nib_count = n as u32;
    f.init_words = vec![0; (n + 63) / 64];
    f.init_cursor = n as u128;
    let fill = *r.pick(&[0u128, u128::MAX, 0x5555_5555_5555_5555_5555_5555_5555_5555]);
    f.chunks = vec![fill; chunks];
    f.bit_cursor = chunks as u128 * 128;
    f.capacity = f.bit_cursor;
    fmt::write(&f)
}
fn random_bytes(r: &mut Rng) -> Vec<u8> {
    let n = r.logsize(0, 3000);
    let mut b: Vec<u8> = (0..n).map(|_| if r.chance(1, 2) { 0 } else { r.u64() as u8 }).collect();
    if r.chance(2, 3) && n > 12 {
        // a plausible start: level and first list length
        b[..4].copy_from_slice(&(r.below(12) as u32).to_le_bytes());
        b[4..12].copy_from_slice(&r.below(n as u64).to_le_bytes());
    }
    b
}
/// all operations on a codec that loaded; returns after checking output volume and memory
fn battery(c: &mut Ctx, r: &mut Rng, mut k: AdhocCodec, headers: usize, len: usize) -> Res {
    let info = k.info();
    let ch = info.channels();
    ensure!(ch > 0, "a codec with 0 channels loaded");
    let bound = mem_bound(len, ch);
    let most = 65_535u128 * headers as u128 * ch as u128 + ch as u128;
    let steps = r.usize(3, 9);
    let mut hist: Vec<String> = vec![];
    let drain = |k: &mut AdhocCodec, r: &mut Rng, most: u128| -> Result<u64, String> {
        let blen = (*r.pick(&[ch, ch * 2, ch.max(1024), ch.max(8192)])).max(ch);
        let mut buf = vec![0.0f32; blen];
        let mut total = 0u64;
        loop {
            match k.decode(&mut buf) {
                None => break,
                Some(n) => {
                    ensure!(n > 0 && n <= buf.len(), "decode reported {} samples for a buffer of {}", n, buf.len());
                    total += n as u64;
                    ensure!((total as u128) <= most, "decode delivers more than {} samples", most);
                }
            }
        }
        Ok(total)
    };
    for s in 0..steps {
        let op = if s == 0 { r.below(3) } else { r.below(9) };
        let (res, peak) = peak_of(|| -> Result<String, String> {
            Ok(match op {
                0 => format!("decode {}", drain(&mut k, r, most)?),
                1 => {
                    let _ = k.calculate_sample_count_per_channel();
                    let u = k.filesize_upperbound();
                    let _ = k.info().frequency();
                    format!("bound {}", u)
                }
                2 => {
                    let b = save(&k)?;
                    let l = AdhocCodec::load(&b[..]).is_some();
                    format!("save {} reload {}", b.len(), l)
                }
                3..=5 => {
                    let t = match r.below(4) {
                        0 => r.u64() >> r.below(64),
                        1 => *r.pick(&[0u64, 1, u64::MAX, 1 << 32]),
                        _ => r.below(200),
                    };
                    k.seek(SeekFrom::Start(t));
                    if r.chance(2, 3) {
                        format!("seek {} decode {}", t, drain(&mut k, r, most)?)
                    } else {
                        format!("seek {}", t)
                    }
                }
                6 => {
                    k.init();
                    "init".to_string()
                }
                7 => {
                    let n = r.usize(0, 4 * ch);
                    let mut b = vec![0.0; n];
                    format!("decode {:?} of {}", k.decode(&mut b), n)
                }
                _ => {
                    rewind(r, &mut k);
                    let n = r.usize(0, if ch > 1000 { 3 } else { 60 });
                    let data: Vec<f32> = (0..n * ch).map(|_| r.sym() as f32).collect();
                    k.encode(&data);
                    if r.chance(1, 2) {
                        k.encode(&data);
                    }
                    k.init();
                    format!("record {} decode {}", n * ch, drain(&mut k, r, most + 2 * data.len() as u128)?)
                }
            })
        });
        let what = res.map_err(|e| format!("after [{}]: {}", hist.join(", "), e))?;
        hist.push(what);
        ensure!(peak <= bound, "[{}] used {} bytes of heap for a file of {} bytes", hist.join(", "), peak, len);
        c.count("ops_after_load", 1);
    }
    c.d(hist.join(", "));
    Ok(())
}
/// a damaged copy of `base`, or random bytes; what was done; whether to its structure
pub(super) fn damaged_adhoc(r: &mut Rng, base: &[u8]) -> (Vec<u8>, Vec<&'static str>, bool) {
    let other = if r.chance(1, 5) { small_file(r, false) } else { vec![] };
    let mut what = vec![];
    let mut structured = false;
    let file = match r.below(8) {
        0 => {
            what.push("random bytes");
            random_bytes(r)
        }
        1..=4 => {
            structured = true;
            match fmt::parse(base) {
                Ok(mut f) => {
                    for _ in 0..*r.pick(&[1usize, 1, 2, 3]) {
                        what.push(structural(r, &mut f))
                    }
                    let mut b = fmt::write(&f);
                    if r.chance(1, 6) {
                        what.push(damage(r, &mut b, &other))
                    }
                    b
                }
                Err(_) => {
                    let mut b = base.to_vec();
                    what.push(damage(r, &mut b, &other));
                    b
                }
            }
        }
        _ => {
            let mut b = base.to_vec();
            for _ in 0..*r.pick(&[1usize, 1, 2, 5]) {
                what.push(damage(r, &mut b, &other))
            }
            b
        }
    };
    (file, what, structured)
}
fn c12(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let big = idx % 100 == 3;
    let base = small_file(r, big);
    ensure!(AdhocCodec::load(&base[..]).is_some(), "an undamaged file does not load");
    if idx % 10 == 0 {
        let n = base.len();
        let cuts: Vec<usize> = if n <= 3000 { (0..n).collect() } else { (0..300).map(|_| r.usize(0, n - 1)).collect() };
        c.d(format!("{} prefixes of a file of {} bytes", cuts.len(), n));
        for k in cuts {
            ensure!(AdhocCodec::load(&base[..k]).is_none(), "the first {} of {} bytes load", k, n);
            c.count("prefixes_refused", 1);
        }
        c.sig(hash_bytes(&base));
        return Ok(());
    }
    let (file, what, structured) = if idx % 1000 == 17 { (overclaiming(r), vec!["overclaiming sizes"], true) } else { damaged_adhoc(r, &base) };
    c.d(format!("{} bytes, {}", file.len(), what.join("+")));
    c.count("damaged_files", 1);
    for w in &what {
        c.count(&format!("damage: {}", w), 1)
    }
    let (k, peak) = peak_of(|| AdhocCodec::load(&file[..]));
    let ch = k.as_ref().map_or(0, |k| k.info().channels());
    ensure!(peak <= mem_bound(file.len(), ch), "loading {} bytes used {} bytes of heap ({} channels)", file.len(), peak, ch);
    c.sig(hash_bytes(&file));
    match k {
        None => c.count("refused", 1),
        Some(k) => {
            c.count("damaged_files_that_load", 1);
            c.count("structural_damage_that_loads", structured as u64);
            // every header takes more than 8 bytes, so this bounds the number of headers
            let headers = file.len() / 8 + 1;
            battery(c, r, k, headers, file.len())?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13
pub static C13: Prop = Prop {
    id: "C13",
    quick: 100000,
    thorough: 6000000,
    run: c13,
    rule: "Each case builds a WAV file (independent writer with random chunk layout, or saved by the crate), damages header fields, chunk ids and sizes (edge values, beyond the file, wrapping), cuts it anywhere or damages bytes, or takes random bytes; loads it and, if it loads, checks that save and load gives the same info and samples, then runs a random history of decode, encode, seek (incl. extreme), save, and conversion to a compressed stream at a random level with its own decode, while a counting allocator and a CPU clock watch. Distinct by file bytes.",
    assume: &["no abort, panic (arithmetic overflow included), more than 30 s of CPU or more than 24 MB + 400 bytes per input byte + 2000 per channel (65535 channels or one per 16 bytes of input) of heap"],
    require: &[("damaged_files", 60_000), ("damaged_files_that_load", 15_000), ("refused", 15_000), ("reloads_compared", 15_000), ("conversions", 3_000), ("ops_after_load", 60_000), ("huge_channel_counts", 300)],
};
/// a WAV file with damaged fields or bytes; what was done
pub(super) fn damaged_wav(r: &mut Rng, big: bool) -> (Vec<u8>, String) {
    let lay = if r.chance(1, 3) { Layout::plain() } else { Layout::random(r) };
    let bits = *r.pick(&[8u16, 16, 16, 16]);
    let mut ch = r.usize(1, 8) as u16;
    if r.chance(1, 20) {
        ch = *r.pick(&[0u16, 255, 256, 32767, 32768, 65535, 1000]);
    }
    let n = r.logsize(0, if big { 60_000 } else { 1000 });
    let data: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
    let mut b = wavref::build(&lay, 1, ch, sig::rate(r), bits, &data);
    let mut what: Vec<String> = vec![];
    let hdr = b.len() - n.min(b.len());
    for _ in 0..*r.pick(&[1usize, 1, 2, 3]) {
        match r.below(6) {
            0 => {
                let k = if r.chance(1, 2) { r.usize(0, b.len()) } else { r.usize(0, hdr.min(b.len())) };
                b.truncate(k);
                what.push(format!("cut at {}", k));
            }
            1 | 2 if b.len() > 44 => {
                // header fields of the first fmt/data chunks found
                let tags: [&[u8]; 3] = [b"fmt ", b"data", b"LIST"];
                let t = *r.pick(&tags);
                if let Some(p) = b.windows(4).position(|w| w == t) {
                    let v = match r.below(7) {
                        0 => u32::MAX,
                        1 => 0,
                        2 => 1 << r.below(32),
                        3 => i32::MAX as u32 + r.below(2) as u32,
                        4 => u32::MAX - r.below(60) as u32,
                        5 => r.u64() as u32,
                        _ => r.below(100) as u32,
                    };
                    if t == b"fmt " && r.chance(3, 4) {
                        let q = p + 8 + *r.pick(&[0usize, 2, 2, 4, 8, 12, 14]);
                        if q + 2 <= b.len() {
                            b[q..q + 2].copy_from_slice(&(v as u16).to_le_bytes());
                            what.push(format!("fmt field {} = {}", q - p - 8, v as u16));
                        }
                    } else if p + 8 <= b.len() {
                        b[p + 4..p + 8].copy_from_slice(&v.to_le_bytes());
                        what.push(format!("{} size = {}", String::from_utf8_lossy(t), v));
                    }
                }
            }
            3 if b.len() > 44 => {
                let t: &[u8] = if r.chance(1, 2) { b"fmt " } else { b"data" };
                if let Some(p) = b.windows(4).position(|w| w == t) {
                    b[p + r.usize(0, 3)] ^= 1 << r.below(8);
                    what.push(format!("{} id damaged", String::from_utf8_lossy(t)));
                }
            }
            4 if r.chance(1, 4) => {
                let m = r.logsize(0, 400);
                b = (0..m).map(|_| r.u64() as u8).collect();
                if m > 60 {
                    b[..4].copy_from_slice(b"RIFF");
                    b[8..16].copy_from_slice(b"WAVEfmt ");
                }
                what.push("random bytes".into());
            }
            _ => what.push(damage(r, &mut b, &data).to_string()),
        }
    }
    let what = format!("from {} bit {} ch: {}", bits, ch, what.join(", "));
    (b, what)
}
fn c13(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let (b, what) = damaged_wav(r, idx % 100 == 0);
    c.d(format!("{} bytes {}", b.len(), what));
    c.count("damaged_files", 1);
    c.sig(hash_bytes(&b));
    let (l, peak) = peak_of(|| WavCodec::load(std::io::Cursor::new(&b[..])));
    let ch = l.as_ref().map_or(0, |w| w.info().channels());
    let bound = mem_bound(b.len(), ch);
    ensure!(peak <= bound, "loading {} bytes used {} bytes of heap", b.len(), peak);
    let mut w = match l {
        Err(_) => {
            c.count("refused", 1);
            return Ok(());
        }
        Ok(w) => w,
    };
    c.count("damaged_files_that_load", 1);
    c.count("huge_channel_counts", (ch > 255) as u64);
    ensure!(ch > 0, "a file with 0 channels loaded");
    let saved = wav_save(&w)?;
    let mut again = wav_load(&saved).map_err(|e| format!("a loaded file cannot be loaded after saving: {}", e))?;
    ensure!(
        again.info().channels() == ch && again.info().frequency() == w.info().frequency(),
        "info changed by save and load: {} ch {} Hz to {} ch {} Hz", ch, w.info().frequency(), again.info().channels(), again.info().frequency()
    );
    let limit = 2 * b.len() + ch;
    let x = decode_all(&mut w, ch, limit)?;
    let y = decode_all(&mut again, ch, limit)?;
    same(&y, &x).map_err(|e| format!("samples changed by save and load: {}", e))?;
    ensure!(w.filesize_upperbound() >= saved.len() as u64 * 8, "bound {} bits below the {} bytes saved", w.filesize_upperbound(), saved.len());
    c.count("reloads_compared", 1);
    let mut hist = vec![];
    for _ in 0..r.usize(1, 6) {
        let op = r.below(6);
        let (res, peak) = peak_of(|| -> Result<String, String> {
            Ok(match op {
                0 => {
                    let t = r.u64() as i64 >> r.below(64);
                    let dt = *r.pick(&[SeekFrom::Start(t as u64), SeekFrom::Current(t), SeekFrom::End(t), SeekFrom::Start(0)]);
                    w.seek(dt);
                    format!("{:?}", dt)
                }
                1 => {
                    let k = r.usize(0, 3 * ch + 2);
                    let mut buf = vec![0.0; k];
                    format!("decode {:?} of {}", w.decode(&mut buf), k)
                }
                2 => {
                    let k = r.usize(0, 3 * ch + 2);
                    let buf: Vec<f32> = (0..k).map(|_| r.sym() as f32).collect();
                    format!("encode {:?} of {}", w.encode(&buf), k)
                }
                3 => {
                    let s = wav_save(&w)?;
                    wav_load(&s).map_err(|e| format!("saved file does not load: {}", e))?;
                    format!("save {}", s.len())
                }
                _ => {
                    w.seek(SeekFrom::Start(0));
                    let level = r.usize(0, 10) as u32;
                    let info = w.info();
                    let mut k = AdhocCodec::new().with_compression_level(level).with_info(StreamInfo::new(info.frequency() as u32, ch as u32));
                    let mut buf = vec![0.0; (*r.pick(&[ch, ch.max(1024)])).max(1)];
                    let mut total = 0;
                    while let Some(n) = w.decode(&mut buf) {
                        k.encode(&buf[..n]);
                        total += n;
                        if total > 20_000 && ch > 255 {
                            break;
                        }
                    }
                    let mut k = load(&save(&k)?)?;
                    let out = decode_all(&mut k, ch, total)?;
                    ensure!(out.len() == total, "conversion delivers {} of {} samples", out.len(), total);
                    "convert".to_string()
                }
            })
        });
        let h = res.map_err(|e| format!("after [{}]: {}", hist.join(", "), e))?;
        c.count("conversions", (h == "convert") as u64);
        hist.push(h);
        // a conversion may need a few hundred bytes of header per sample frame and channel
        ensure!(peak <= bound + 400 * limit, "[{}] used {} bytes of heap for a file of {} bytes", hist.join(", "), peak, b.len());
        c.count("ops_after_load", 1);
    }
    c.d(hist.join(", "));
    Ok(())
}
