//! C20: the bit stream, reached through the guarded `verif_hooks` module.
use super::{copy, Prop, MIRI};
use crate::ctx::*;
use crate::ensure;
use crate::rng::*;
use adhoc_audio::verif_hooks::*;

// ------------------------------------------------------------------ C20

pub static C20: Prop = Prop {
    id: "C20",
    quick: 400000,
    thorough: 32000000,
    run: c20,
    rule: "Each case drives one bit stream (fresh, preallocated, or deserialised) through 1-6 rounds: the position is set anywhere inside the storage allocated so far (biased to chunk edges), a random sequence of 1-200 items (single bits, 0..128-bit fields written from u8..u128 values with and without surplus high bits, whole u8..u128 integers, Rice-coded integers with every parameter 0..15 and every power-of-two divisor, capped integers with divisors 1..1024) is written over whatever was there, then read back with peeks interleaved, compared with a bit-vector model that also predicts position and lengths and the untouched bits to the left; then reads past the end, clearing, and serialisation; 1 case in 20000 fills 2 to 30 MB (one of them more than 2^32 bits) with fields of one width and reads, peeks, overwrites and re-reads at random places and around the powers of two. Distinct by (positions, items).",
    assume: &["writes start inside or directly behind the allocated storage", "capped values within CAPPED_MIN..=CAPPED_MAX, divisors powers of two", "bits right of the last written bit are free space until written again, except that bits beyond everything ever written read as zero"],
    require: &[("items_written", 9000000), ("fields_across_chunk_edge", 600000), ("writes_over_old_data", 900000), ("rice_items", 900000), ("rice_unary_over_128", 15000), ("capped_items", 300000), ("capped_items_capped", 30000), ("surplus_high_bits", 300000), ("peeks", 900000), ("reads_past_end", 300000), ("serialised", 30000), ("streams_over_2_24_bits", 18), ("streams_over_2_32_bits", 1)],
};

#[derive(Clone, Debug)]
enum Item {
    Bit(u8),
    Bits(u128, usize, u8), // value, width, type of the argument
    Int(u128, u8),
    Rice(i16, i16),
    RiceDiv(i16, i16),
    Capped(i16, i16),
}
fn val(r: &mut Rng, bits: usize) -> u128 {
    let m = if bits >= 128 { !0 } else { (1u128 << bits) - 1 };
    let x = (r.u64() as u128) << 64 | r.u64() as u128;
    m & match r.below(6) {
        0 => 0,
        1 => !0,
        2 => 1u128 << r.below(128),
        3 => x & (r.u64() as u128),
        4 => r.special(0, u64::MAX as i128).map_or(x, |v| v as u128),
        _ => x,
    }
}
fn i16v(r: &mut Rng) -> i16 {
    match r.below(8) {
        0 => *r.pick(&[0, 1, -1, i16::MAX, i16::MIN, i16::MIN + 1, 127, 128, 129, -128, 255, 256, 8191, -8192]),
        1 => r.u64() as i16,
        2 => (1i32 << r.below(15)) as i16,
        _ => {
            let k = r.below(12) as u32;
            (r.i64(-(1 << k), 1 << k)) as i16
        }
    }
}
fn item(r: &mut Rng) -> Item {
    match r.below(12) {
        0 | 1 => Item::Bit(if r.chance(1, 8) { r.u64() as u8 } else { r.below(2) as u8 }),
        2..=5 => {
            let t = r.below(5) as u8;
            let tb = 8usize << t;
            let n = if r.chance(1, 2) { r.usize(0, tb) } else { *r.pick(&[0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128]) };
            Item::Bits(val(r, tb), n, t)
        }
        6 | 7 => {
            let t = r.below(5) as u8;
            Item::Int(val(r, 8 << t), t)
        }
        8 | 9 => {
            let e = r.below(16) as i16;
            // a large value with a small parameter takes up to 32768 bits: keep them rare
            let v = if e < 4 && (MIRI || !r.chance(1, 30)) { r.i64(-900, 900) as i16 } else { i16v(r) };
            Item::Rice(e, v)
        }
        10 => {
            let k = r.below(15) as u32;
            let v = if k < 4 && (MIRI || !r.chance(1, 30)) { r.i64(-900, 900) as i16 } else { i16v(r) };
            Item::RiceDiv(1 << k, v)
        }
        _ => Item::Capped(1 << r.below(11), i16v(r).clamp(CAPPED_MIN, CAPPED_MAX)),
    }
}
/// expected bits of an item
fn push_bits(m: &mut Vec<bool>, v: u128, n: usize) {
    for i in 0..n {
        m.push(i < 128 && (v >> i) & 1 == 1)
    }
}
fn rice_bits(m: &mut Vec<bool>, e: i16, v: i16) {
    let a = v.unsigned_abs() as u32;
    m.push(v < 0);
    for _ in 0..a >> e {
        m.push(true)
    }
    m.push(false);
    push_bits(m, (a & ((1u32 << e) - 1)) as u128, e as usize);
}
fn item_bits(it: &Item) -> Vec<bool> {
    let mut m = vec![];
    match *it {
        Item::Bit(b) => m.push(b & 1 == 1),
        Item::Bits(v, n, _) => push_bits(&mut m, v, n),
        Item::Int(v, t) => push_bits(&mut m, v, 8 << t),
        Item::Rice(e, v) => rice_bits(&mut m, e, v),
        Item::RiceDiv(d, v) => rice_bits(&mut m, d.trailing_zeros() as i16, v),
        Item::Capped(d, v) => {
            if v.unsigned_abs() / (d as u16) < 16 {
                m.push(false);
                rice_bits(&mut m, d.trailing_zeros() as i16, v)
            } else {
                m.push(true);
                push_bits(&mut m, v as u16 as u128, 14)
            }
        }
    }
    m
}
macro_rules! by_div {
    ($d:expr, $s:expr, $v:expr, $($n:literal)*) => { match $d { $($n => $s.write_compressed_capped::<$n>($v),)* _ => unreachable!() } };
}
fn write_item(s: &mut BitStream, it: &Item) {
    match *it {
        Item::Bit(b) => s.write_bit(b),
        Item::Bits(v, n, t) => match t {
            0 => s.write_bits(v as u8, n),
            1 => s.write_bits(v as u16, n),
            2 => s.write_bits(v as u32, n),
            3 => s.write_bits(v as u64, n),
            _ => s.write_bits(v, n),
        },
        Item::Int(v, t) => match t {
            0 => s.write(v as u8),
            1 => s.write(v as u16),
            2 => s.write(v as u32),
            3 => s.write(v as u64),
            _ => s.write(v),
        },
        Item::Rice(e, v) => s.write_compressed(e, v),
        Item::RiceDiv(d, v) => s.write_compressed_divisor(d, v),
        Item::Capped(d, v) => by_div!(d, s, v, 1 2 4 8 16 32 64 128 256 512 1024),
    }
}
fn mask(v: u128, n: usize) -> u128 {
    if n >= 128 {
        v
    } else {
        v & ((1u128 << n) - 1)
    }
}
fn read_item(s: &mut BitStream, it: &Item) -> Result<(), String> {
    let at = s.bit_cursor();
    let (got, want): (i128, i128) = match *it {
        Item::Bit(b) => (s.read_bit() as i128, (b & 1) as i128),
        Item::Bits(v, n, _) => (s.read_bits(n) as i128, mask(v, n) as i128),
        Item::Int(v, t) => (
            match t {
                0 => s.read::<u8>(),
                1 => s.read::<u16>(),
                2 => s.read::<u32>(),
                3 => s.read::<u64>(),
                _ => s.read::<u128>(),
            } as i128,
            v as i128,
        ),
        Item::Rice(e, v) => (s.read_compressed(e) as i128, v as i128),
        Item::RiceDiv(d, v) => (s.read_compressed_divisor(d) as i128, v as i128),
        Item::Capped(d, v) => (s.read_compressed_capped(d) as i128, v as i128),
    };
    ensure!(got == want, "{:?} written at bit {} reads back as {}", it, at, got);
    Ok(())
}
/// streams longer than 2^24 and 2^32 bits
fn long_stream(c: &mut Ctx, r: &mut Rng, giant: bool) -> Res {
    let w = if giant { 128 } else { *r.pick(&[128usize, 127, 126, 100, 65, 64, 63, 33]) };
    let bits = if giant { (1u64 << 32) + r.below(1 << 20) } else { (1u64 << 24) + r.logsize(1, 1 << 27) as u64 };
    let n = bits / w as u64;
    let salt = r.u64();
    let item = |i: u64, gen: u64| mask((hash_u64s(&[i, salt, gen]) as u128) << 64 | hash_u64s(&[salt, i, gen]) as u128, w);
    let mut s = if r.chance(1, 2) { BitStream::with_capacity_in_megabytes(r.usize(1, 3)) } else { BitStream::new() };
    let lead = r.usize(0, 127);
    s.write_bits(!0u128, lead);
    for i in 0..n {
        s.write_bits(item(i, 0), w);
    }
    let end = lead as u64 + n * w as u64;
    c.d(format!("stream of {} bits: {} set and {} fields of {}", end, lead, n, w));
    ensure!(s.len() as u64 == end && s.capacity() as u64 == end && s.bit_cursor() as u64 == end, "{} bits written: length {}, capacity {}, position {}", end, s.len(), s.capacity(), s.bit_cursor());
    ensure!(s.blocks_allocated() as u64 >= end.div_ceil(128), "{} chunks for {} bits", s.blocks_allocated(), end);
    let at = |i: u64| lead as u64 + i * w as u64;
    let place = |r: &mut Rng, n: u64| match r.below(4) {
        0 => ((1u64 << r.usize(10, 33)) / w as u64).saturating_add(r.below(5)).saturating_sub(2).min(n - 1),
        1 => n - 1 - r.below(300).min(n - 1),
        _ => r.below(n),
    };
    // (valid so far, generation): what lies right of an overwritten field is free space
    let mut valid = n;
    let mut newer = std::collections::BTreeMap::new();
    for gen in 0..20u64 {
        for _ in 0..200 {
            let i = place(r, valid);
            let want = item(i, *newer.get(&i).unwrap_or(&0));
            s.set_bit_cursor(at(i) as u128);
            if r.chance(1, 3) {
                ensure!(s.peek_bits(w) == want && s.bit_cursor() as u64 == at(i), "peek of {} bits at {} of {} differs from what was written", w, at(i), end);
            } else {
                let got = s.read_bits(w);
                ensure!(got == want, "{} bits at {} of {} differ from what was written", w, at(i), end);
                ensure!(s.bit_cursor() as u64 == at(i) + w as u64, "reading {} bits at {} moves the position to {}", w, at(i), s.bit_cursor());
            }
        }
        let i = place(r, valid);
        s.set_bit_cursor(at(i) as u128);
        let k = r.below(20) + 1;
        valid = (i + k).min(n);
        for j in i..valid {
            s.write_bits(item(j, gen + 1), w);
            newer.insert(j, gen + 1);
        }
        ensure!(s.bit_cursor() as u64 == at(valid) && s.len() as u64 == at(valid) && s.capacity() as u64 == end, "overwriting at {} of {}: position {}, length {}, capacity {}", at(i), end, s.bit_cursor(), s.len(), s.capacity());
        for j in (0..k).map(|j| i + j).filter(|&j| j < valid) {
            s.set_bit_cursor(at(j) as u128);
            ensure!(s.read_bits(w) == item(j, gen + 1), "{} bits overwritten at {} of {} read back differently", w, at(j), end);
        }
    }
    s.seek_start();
    ensure!(s.read_bits(lead) == mask(!0, lead), "the first {} bits of {} changed", lead, end);
    s.set_bit_cursor(end as u128 + r.below(300) as u128);
    ensure!(s.read_bits(r.usize(0, 128)) == 0, "a read beyond {} bits delivers something", end);
    c.count("streams_over_2_24_bits", 1);
    c.count("streams_over_2_32_bits", giant as u64);
    c.sig(hash_u64s(&[salt, n, w as u64]));
    Ok(())
}
pub fn c20(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    if !MIRI && idx % 20_000 == 3 {
        return long_stream(c, r, idx == 3);
    }
    let mut s = if r.chance(1, 5) { BitStream::with_capacity_in_megabytes(r.usize(0, 1)) } else { BitStream::new() };
    ensure!(s.len() == 0 && s.capacity() == 0 && s.blocks_allocated() == 0, "a new stream is not empty");
    let mut model: Vec<Option<bool>> = vec![]; // bits known; None = free space that may hold anything
    let mut high = 0u128; // everything ever written
    let mut h = vec![];
    for round in 0..r.usize(1, if MIRI { 2 } else { 6 }) {
        let room = (s.blocks_allocated() * 128).max(1) as u64;
        let start = match r.below(6) {
            0 | 1 => 0,
            2 => high as u64,
            3 => (r.below(room) & !127).min(high as u64 & !127).saturating_sub(0),
            4 => {
                let b = (r.below(room) & !127) + *r.pick(&[1, 2, 126, 127]);
                b.min(room.max(128) - 1)
            }
            _ => r.below(room),
        } as u128;
        s.set_bit_cursor(start);
        ensure!(s.len() as u128 == start && s.bit_cursor() == start, "set_bit_cursor({}) gives length {}", start, s.len());
        let n = if MIRI { r.usize(1, 4) } else if r.chance(1, 40) { r.usize(1, 200) } else { r.usize(1, 40) };
        let items: Vec<Item> = (0..n).map(|_| item(r)).collect();
        let old = high;
        while model.len() < start as usize {
            model.push(Some(false))
        }
        // writing invalidates what lies right of the position up to the old end
        for b in model.iter_mut().skip(start as usize) {
            *b = None
        }
        let mut at = start;
        for it in &items {
            write_item(&mut s, it);
            let bits = item_bits(it);
            at += bits.len() as u128;
            ensure!(s.bit_cursor() == at && s.len() as u128 == at, "round {}: {:?} at bit {} moves the position to {} instead of {}", round, it, at - bits.len() as u128, s.bit_cursor(), at);
            high = high.max(at);
            ensure!(s.capacity() as u128 == high, "capacity() is {} after {} bits were written", s.capacity(), high);
            ensure!(s.capacity_upperbound() as u128 == s.blocks_allocated() as u128 * 128 && s.capacity_upperbound() as u128 >= high, "{} blocks, upper bound {} for {} bits", s.blocks_allocated(), s.capacity_upperbound(), high);
            c.count("items_written", 1);
            let p = (at - bits.len() as u128) as usize;
            if bits.len() > 1 && bits.len() <= 128 && p / 128 != (p + bits.len() - 1) / 128 {
                c.count("fields_across_chunk_edge", 1);
            }
            if (p as u128) < old {
                c.count("writes_over_old_data", 1);
            }
            match *it {
                Item::Rice(e, v) => {
                    c.count("rice_items", 1);
                    if v.unsigned_abs() >> e > 128 {
                        c.count("rice_unary_over_128", 1);
                    }
                }
                Item::Capped(..) => {
                    c.count("capped_items", 1);
                    if bits[0] {
                        c.count("capped_items_capped", 1);
                    }
                }
                Item::Bits(v, n, _) if mask(v, n) != v => c.count("surplus_high_bits", 1),
                _ => {}
            }
            for (i, b) in bits.iter().enumerate() {
                if p + i < model.len() {
                    model[p + i] = Some(*b)
                } else {
                    model.push(Some(*b))
                }
            }
            h.push(hash_bytes(format!("{:?}{}", it, p).as_bytes()));
        }
        c.d(format!("round {} from {}: {} items", round, start, n));
        if r.chance(1, 5) {
            s = copy(&s)?;
            c.count("serialised", 1);
            ensure!(s.bit_cursor() == at && s.capacity() as u128 == high, "serialisation changes the position or length");
        }
        let blocks = s.blocks_allocated();
        // typed read back
        if start == 0 && r.chance(1, 2) {
            s.seek_start()
        } else {
            s.offset_bit_cursor(start as i128 - at as i128);
        }
        ensure!(s.bit_cursor() == start, "position {} after seeking to {}", s.bit_cursor(), start);
        for it in &items {
            let pos = s.bit_cursor();
            if r.chance(1, 4) {
                let n = r.usize(0, 128);
                let p = s.peek_bits(n);
                ensure!(s.bit_cursor() == pos, "peek_bits({}) moves the position", n);
                for i in 0..128 {
                    let m = model.get(pos as usize + i).copied().unwrap_or(Some(false));
                    let want = if i < n { m } else { Some(false) };
                    ensure!(want.is_none() || want == Some((p >> i) & 1 == 1), "peek_bits({}) at bit {}: bit {} is wrong", n, pos, i);
                }
                c.count("peeks", 1);
            }
            read_item(&mut s, it)?;
            let w = item_bits(it).len() as u128;
            ensure!(s.bit_cursor() == pos + w, "reading {:?} at bit {} moves the position to {} instead of {}", it, pos, s.bit_cursor(), pos + w);
        }
        // the whole stream again through windows of random width
        s.seek_start();
        let mut pos = 0usize;
        while pos < model.len() {
            let n = r.usize(1, 128);
            let v = s.read_bits(n);
            for i in 0..n {
                let m = model.get(pos + i).copied().unwrap_or(Some(false));
                ensure!(m.is_none() || m == Some((v >> i) & 1 == 1), "bit {} differs from what was written (window of {} bits at {})", pos + i, n, pos);
            }
            ensure!(n == 128 || v >> n == 0, "read_bits({}) delivers more than {} bits", n, n);
            pos += n;
            ensure!(s.bit_cursor() as usize == pos, "read_bits({}) moves by {}", n, s.bit_cursor());
        }
        // past the end
        let base = high.max(model.len() as u128) + r.below(400) as u128;
        for _ in 0..r.usize(1, 5) {
            s.set_bit_cursor(base);
            let z = match r.below(5) {
                0 => s.read_bit(),
                1 => s.read::<u32>(),
                2 => s.read_compressed(r.below(16) as i16) as u128,
                3 => s.peek::<u128>(),
                _ => s.read_bits(r.usize(0, 128)),
            };
            ensure!(z == 0, "a read at bit {} beyond the {} written delivers {}", base, high, z);
            c.count("reads_past_end", 1);
        }
        ensure!(s.blocks_allocated() == blocks && s.capacity() as u128 == high, "reading grows the stream ({} -> {} blocks)", blocks, s.blocks_allocated());
        if r.chance(1, 12) {
            s.zero();
            s.seek_start();
            let mut k = 0u128;
            while k < high {
                ensure!(s.read_bits(128) == 0, "zero() leaves bits at {}", k);
                k += 128
            }
            for b in model.iter_mut() {
                *b = Some(false)
            }
        }
    }
    c.sig(hash_u64s(&h));
    Ok(())
}
