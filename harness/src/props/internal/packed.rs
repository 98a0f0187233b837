//! C21: packed lists, ring buffer, history stack, reached through the guarded `verif_hooks` module.
use super::{big_size, copy, Prop, MIRI};
use crate::ctx::*;
use crate::ensure;
use crate::rng::*;
use adhoc_audio::verif_hooks::*;
use std::collections::VecDeque;
// ------------------------------------------------------------------ C21

pub static C21: Prop = Prop {
    id: "C21",
    quick: 600000,
    thorough: 48000000,
    run: c21,
    rule: "Each case drives one nibble list, bit vector, circular stack or ring buffer (every power-of-two capacity from 1 to 1024, array and larger vector backings, items with and without copies) through 1-600 random operations (one case in 1000 on a container that already holds up to 300000 items, sometimes up to 12 million) with phases of growth, shrinking, clearing and wrap-around, including out-of-range indices, and compares every result, all lengths and flags and periodically the whole contents with a Vec/VecDeque model; at random points the container is serialised and deserialised and the copy carries on. Distinct by (container, operations).",
    assume: &["ring buffer capacities are powers of two not larger than the backing", "popping an empty stack or reading at offset 0 is not judged"],
    require: &[("ops", 6000000), ("nibble_ops", 900000), ("bit_ops", 900000), ("stack_ops", 900000), ("ring_ops", 900000), ("invalid_index", 150000), ("pushes_refused_full", 60000), ("ring_wraps", 30000), ("cleared", 30000), ("serialised", 30000), ("stack_offset_clamped", 60000), ("big_containers", 500), ("over_2_22_items", 8)],
};

pub fn c21(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let big = !MIRI && idx % 4000 < 4;
    c.count("big_containers", big as u64);
    match idx % 4 {
        0 => nibbles(c, r, big),
        1 => bits(c, r, big),
        2 => stack(c, r, big),
        _ => ring(c, r, big),
    }
}
fn index(c: &mut Ctx, r: &mut Rng, len: usize) -> usize {
    if len == 0 || r.chance(1, 6) {
        c.count("invalid_index", 1);
        len + match r.below(4) {
            0 => 0,
            1 => 1,
            2 => r.usize(0, 200),
            _ => r.usize(0, 1 << 40),
        }
    } else {
        r.usize(0, len - 1)
    }
}
fn nops(r: &mut Rng) -> usize {
    if MIRI {
        r.usize(1, 25)
    } else if r.chance(1, 10) {
        r.usize(1, 600)
    } else {
        r.usize(1, 80)
    }
}
/// sometimes longer than a block number of 16 bits counts
fn long(c: &mut Ctx, r: &mut Rng) -> usize {
    if r.chance(1, 10) {
        c.count("over_2_22_items", 1);
        (1 << 22) + r.logsize(1, 1 << 23)
    } else {
        big_size(r)
    }
}
pub fn nibbles(c: &mut Ctx, r: &mut Rng, big: bool) -> Res {
    let (mut l, mut m) = (NibbleList::new(), Vec::<u8>::new());
    let n = if big { r.usize(5, 40) } else { nops(r) };
    if big {
        for _ in 0..long(c, r) {
            let v = r.below(16) as u8;
            l.push(v);
            m.push(v);
        }
    }
    let mut h = vec![0];
    let wide = r.chance(1, 4);
    for k in 0..n {
        let op = r.below(40);
        h.push(op);
        match op {
            0 if !big || k + 3 > n => {
                l.clear();
                m.clear();
                c.count("cleared", 1)
            }
            1 => {
                l = copy(&l)?;
                c.count("serialised", 1)
            }
            2 => {
                let t = if big && m.len() > 10 { m.len() - r.usize(0, 9) } else { r.usize(0, m.len() + 2) };
                l.truncate(t);
                m.truncate(t)
            }
            3..=12 => {
                let i = index(c, r, m.len());
                let got = l.get(i);
                ensure!(got == m.get(i).copied().unwrap_or(0), "op {}: nibble {} of {} is {} instead of {:?}", k, i, m.len(), got, m.get(i));
            }
            13..=19 => {
                let i = index(c, r, m.len());
                let v = r.below(if wide { 256 } else { 16 }) as u8;
                l.set(i, v);
                if let Some(x) = m.get_mut(i) {
                    *x = v & 15
                }
                h.push(i as u64 * 16 + v as u64);
            }
            _ => {
                let v = r.below(if wide { 256 } else { 16 }) as u8;
                l.push(v);
                m.push(v & 15);
                h.push(v as u64);
            }
        }
        ensure!(l.len() == m.len() && l.is_empty() == m.is_empty(), "op {} ({}): {} nibbles instead of {}", k, op, l.len(), m.len());
        if r.chance(1, 6) || k + 1 == n {
            let got: Vec<u8> = l.iter().collect();
            let at = (0..m.len().min(got.len())).find(|&i| m[i] != got[i]);
            ensure!(got == m, "op {} ({}): {} nibbles differ from the {} pushed, first at {:?}", k, op, got.len(), m.len(), at);
        }
        ensure!(l.capacity() >= 4 * l.len(), "capacity {} bits for {} nibbles", l.capacity(), l.len());
        c.count("nibble_ops", 1);
        c.count("ops", 1);
    }
    c.d(format!("nibble list, {} ops, final length {}", n, m.len()));
    c.sig(hash_u64s(&h));
    Ok(())
}
pub fn bits(c: &mut Ctx, r: &mut Rng, big: bool) -> Res {
    let (mut l, mut m) = (BitVec::new(), Vec::<u64>::new());
    let n = if big { r.usize(5, 40) } else { nops(r) };
    if big {
        for _ in 0..long(c, r) {
            let v = r.below(2);
            l.push(v);
            m.push(v);
        }
    }
    let wide = r.chance(1, 4);
    let mut h = vec![1];
    for k in 0..n {
        let op = r.below(40);
        h.push(op);
        match op {
            0 if !big || k + 3 > n => {
                l.clear();
                m.clear();
                c.count("cleared", 1)
            }
            1 => {
                l = copy(&l)?;
                c.count("serialised", 1)
            }
            2 => {
                let t = if big && m.len() > 10 { m.len() - r.usize(0, 9) } else { r.usize(0, m.len() + 2) };
                l.truncate(t);
                m.truncate(t)
            }
            3..=12 => {
                let i = index(c, r, m.len());
                let got = l.get(i);
                ensure!(got == m.get(i).copied().unwrap_or(0), "op {}: bit {} of {} is {}", k, i, m.len(), got);
            }
            13..=19 => {
                let i = index(c, r, m.len());
                let v = if wide { r.u64() } else { r.below(2) };
                l.set(i, v);
                if let Some(x) = m.get_mut(i) {
                    *x = v & 1
                }
                h.push(i as u64 * 2 + (v & 1));
            }
            _ => {
                for _ in 0..r.usize(1, 12) {
                    let v = if wide { r.u64() } else { r.below(2) };
                    l.push(v);
                    m.push(v & 1);
                    h.push(v & 1);
                }
            }
        }
        ensure!(l.len() == m.len(), "op {} ({}): {} bits instead of {}", k, op, l.len(), m.len());
        ensure!(l.capacity() >= l.len() && l.capacity() % 64 == 0, "capacity {} for {} bits", l.capacity(), l.len());
        if r.chance(1, 6) || k + 1 == n {
            let got: Vec<u64> = l.iter().collect();
            let at = (0..m.len().min(got.len())).find(|&i| m[i] != got[i]);
            ensure!(got == m, "op {} ({}): {} bits differ from the {} pushed, first at {:?}", k, op, got.len(), m.len(), at);
        }
        c.count("bit_ops", 1);
        c.count("ops", 1);
    }
    let q = if r.chance(1, 2) { r.below(300) } else { r.below(1 << 40) };
    ensure!(BitVec::compute_bits_required(q) as u64 == (q + 63) / 64 * 64, "compute_bits_required({}) = {}", q, BitVec::compute_bits_required(q));
    c.d(format!("bit vector, {} ops, final length {}", n, m.len()));
    c.sig(hash_u64s(&h));
    Ok(())
}
pub fn stack(c: &mut Ctx, r: &mut Rng, big: bool) -> Res {
    let (mut s, mut m) = (CircularStack::<i32>::new(), VecDeque::<i32>::new());
    let n = nops(r);
    let mut h = vec![2];
    let mut next = 1000;
    if big {
        for _ in 0..big_size(r) {
            next += 1;
            s.push(next);
            m.push_back(next);
            if m.len() > 4 {
                m.pop_front();
            }
        }
    }
    for k in 0..n {
        let op = r.below(if k < n / 2 { 30 } else { 20 });
        h.push(op);
        match op {
            0 => {
                s = copy(&s)?;
                c.count("serialised", 1)
            }
            1 => {
                let t = s; // Copy
                s = t
            }
            2..=8 => {
                let got = s.pop();
                if let Some(w) = m.pop_back() {
                    ensure!(got == w, "op {}: pop gives {} instead of {}", k, got, w);
                }
            }
            9..=12 => {
                if !m.is_empty() {
                    let o = if r.chance(1, 4) { r.usize(5, 1 << 30) } else { r.usize(1, 6) };
                    let w = m[m.len() - o.min(m.len())];
                    if o > m.len() {
                        c.count("stack_offset_clamped", 1)
                    }
                    ensure!(s.prev(o as u32) == w, "op {}: prev({}) of {:?} gives {}", k, o, m, s.prev(o as u32));
                }
            }
            _ => {
                next += 1;
                s.push(next);
                m.push_back(next);
                if m.len() > 4 {
                    m.pop_front();
                }
            }
        }
        ensure!(s.len() == m.len() && s.is_empty() == m.is_empty(), "op {} ({}): stack has length {} (empty: {}) instead of {}", k, op, s.len(), s.is_empty(), m.len());
        for o in 1..=m.len() {
            ensure!(s.prev(o as u32) == m[m.len() - o], "op {} ({}): prev({}) of {:?} gives {}", k, op, o, m, s.prev(o as u32));
        }
        c.count("stack_ops", 1);
        c.count("ops", 1);
    }
    c.d(format!("circular stack, {} ops", n));
    c.sig(hash_u64s(&h));
    Ok(())
}
pub fn ring(c: &mut Ctx, r: &mut Rng, big: bool) -> Res {
    let cap = 1usize << if big { *r.pick(&[8, 11, 12, 15, 16, 17]) } else if MIRI { r.below(4) } else if r.chance(1, 8) { r.below(11) } else { r.below(5) };
    if cap == 8 && r.chance(1, 3) {
        ring_ops(c, r, FixedRingBuffer::new([0u64; 8], 8), 8, |b| copy(b).map(Some))
    } else {
        let extra = r.usize(0, 3);
        ring_ops(c, r, FixedRingBuffer::new(vec![0u64; cap + extra], cap as u32), cap, |b| copy(b).map(Some))
    }
}
fn ring_ops<B>(c: &mut Ctx, r: &mut Rng, mut q: FixedRingBuffer<B>, cap: usize, dup: impl Fn(&FixedRingBuffer<B>) -> Result<Option<FixedRingBuffer<B>>, String>) -> Res
where
    B: std::ops::Index<usize, Output = u64> + std::ops::IndexMut<usize>,
{
    let mut m = VecDeque::<u64>::new();
    let n = nops(r) + if cap > 64 && cap < 2048 { cap } else { 0 };
    let mut h = vec![3, cap as u64];
    let mut bias = r.below(5);
    if cap >= 2048 {
        // start anywhere, nearly full
        for i in 0..r.usize(0, cap + 5) as u64 {
            q.push_rear(i);
            ensure!(q.pop_front().copied() == Some(i), "pushed {} into a ring of {} and did not get it back", i, cap);
        }
        for _ in 0..cap - r.usize(0, 40) {
            let (v, rear) = (r.u64(), r.chance(2, 3));
            if rear {
                q.push_rear(v);
                m.push_back(v)
            } else {
                q.push_front(v);
                m.push_front(v)
            }
        }
        bias = 3;
    }
    for k in 0..n {
        if r.chance(1, (cap as u64).max(8)) {
            bias = r.below(5)
        }
        let op = r.below(40);
        h.push(op * 8 + bias);
        let v = r.u64();
        match op {
            0 => {
                if r.chance(1, 3) {
                    q.clear();
                    m.clear();
                    c.count("cleared", 1)
                }
            }
            1 => {
                if let Some(x) = dup(&q)? {
                    q = x;
                    c.count("serialised", 1)
                }
            }
            _ => {
                let push = (op % 5) < bias.max(1).min(4);
                let rear = if bias == 0 { op % 2 == 0 } else { r.chance(1, 2) };
                match (push, rear) {
                    (true, x) => {
                        if m.len() == cap {
                            c.count("pushes_refused_full", 1)
                        }
                        if x {
                            q.push_rear(v);
                            if m.len() < cap {
                                m.push_back(v)
                            }
                        } else {
                            q.push_front(v);
                            if m.len() < cap {
                                m.push_front(v);
                                c.count("ring_wraps", 1)
                            }
                        }
                    }
                    (false, x) => {
                        let (got, want) = if x { (q.pop_rear().copied(), m.pop_back()) } else { (q.pop_front().copied(), m.pop_front()) };
                        ensure!(got == want, "op {}: pop_{} gives {:?} instead of {:?}", k, if x { "rear" } else { "front" }, got, want);
                    }
                }
            }
        }
        ensure!(q.len() == m.len() && q.is_empty() == m.is_empty() && q.is_full() == (m.len() == cap), "op {}: length {} (empty {}, full {}) instead of {} of {}", k, q.len(), q.is_empty(), q.is_full(), m.len(), cap);
        if cap <= 16 || r.chance(1, 20) || k + 1 == n {
            let got: Vec<u64> = q.iter().copied().collect();
            let at = (0..m.len().min(got.len())).find(|&i| m[i] != got[i]);
            ensure!(got.iter().eq(m.iter()), "op {}: {} items differ from the {} pushed, first at {:?}", k, got.len(), m.len(), at);
        }
        c.count("ring_ops", 1);
        c.count("ops", 1);
    }
    c.d(format!("ring buffer of {}, {} ops", cap, n));
    c.sig(hash_u64s(&h));
    Ok(())
}
