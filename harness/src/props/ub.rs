//! C15: workloads for the undefined-behaviour detectors (Miri, AddressSanitizer, MemorySanitizer,
//! std's unsafe-precondition checks). The detectors judge; wrong results and ordinary panics are
//! other properties' business and are only counted here.
use super::Prop;
use crate::ctx::*;
use crate::rng::*;
use crate::sig::{self, Domain};
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};

pub const PROPS: &[&Prop] = &[&C15];

pub static C15: Prop = Prop {
    id: "C15",
    quick: 40_000,
    thorough: 3_000_000,
    run: c15,
    rule: "Each case is one random history: an AdhocCodec or WavCodec (encode with empty, partial and odd slices, decode into empty, odd and unaligned sub-buffers, seeks anywhere, rewind, save, load, facts, byte views), loading damaged or random .adhoc/.wav bytes and using the result, codecs moved between and used on two threads at once, operations of the internal containers and numeric helpers, or calls with arguments and in orders they do not accept (unknown, freed and null list nodes, containers deserialised from damaged data, too small outputs, use on after a panic); run under Miri (small sizes, several interpreter seeds for addresses and schedules) and under AddressSanitizer with overflow and unsafe-precondition checks (larger sizes, plus the workloads of C03-C06, C10-C14 and C20-C22). Distinct by history.",
    assume: &["code reached by these histories; panics are not undefined behaviour and are left to the other properties"],
    require: &[("adhoc_histories", 2_000), ("wav_histories", 2_000), ("damaged_loads", 2_000), ("two_thread_histories", 500), ("container_histories", 2_000), ("misuse_codecs", 2_000), ("misuse_containers", 2_000), ("delegated_cases", 5_000)],
};
const SMALL: bool = cfg!(miri);

/// observations of one history, and its calls in words
#[derive(Default)]
struct H {
    v: Vec<u64>,
    s: String,
}
impl H {
    fn push(&mut self, x: u64) {
        self.v.push(x)
    }
    fn extend(&mut self, i: impl IntoIterator<Item = u64>) {
        self.v.extend(i)
    }
    fn log(&mut self, s: String) {
        if self.s.len() < 400 {
            self.s.push_str(&s);
            self.s.push(' ')
        }
    }
}
fn buf_ops(r: &mut Rng, max: usize) -> (usize, usize) {
    // length and start offset of a sub-slice
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.usize(0, 5),
        _ => r.usize(0, max),
    };
    (n, r.usize(0, 3))
}
fn drive(r: &mut Rng, c: &mut dyn Streamable, ch: usize, max: usize, steps: usize, wav: bool, h: &mut H) {
    for _ in 0..steps {
        let op = r.below(9);
        h.push(op);
        match op {
            0..=2 => {
                let (n, off) = buf_ops(r, max);
                let n = if r.chance(3, 4) { n / ch * ch } else { n };
                let mut d = vec![0.0f32; off];
                let kind = *r.pick(&[0usize, 1, 4, 11, 14, 7, 18]);
                sig::gen_kind(r, kind, n, &mut d);
                let x = c.encode(&d[off..]);
                h.log(format!("encode[{}]={:?}", n, x));
                h.push(n as u64 * 7 + x.unwrap_or(99) as u64);
            }
            3..=5 => {
                let (n, off) = buf_ops(r, max);
                let mut d = vec![0.5f32; off + n];
                let x = c.decode(&mut d[off..]);
                h.log(format!("decode[{}]={:?}", n, x));
                h.push(n as u64 * 5 + x.unwrap_or(99) as u64);
                std::hint::black_box(d.iter().map(|x| x.to_bits() as u64).sum::<u64>());
            }
            6 | 7 => {
                let t = match r.below(4) {
                    0 => 0,
                    1 => r.below(1 << 40),
                    _ => r.below(3 * max as u64),
                };
                h.push(t);
                h.log(format!("seek({})", t));
                c.seek(match r.below(if wav { 3 } else { 1 }) {
                    0 => SeekFrom::Start(t),
                    1 => SeekFrom::Current(t as i64 - max as i64),
                    _ => SeekFrom::End(t as i64 - 2 * max as i64),
                });
            }
            _ => {
                let i = c.info();
                std::hint::black_box(i.as_bytes().iter().map(|&b| b as u64).sum::<u64>() + c.filesize_upperbound() + i.channels() as u64 + i.frequency() as u64);
            }
        }
    }
}
fn adhoc(r: &mut Rng, h: &mut H) {
    let ch = if r.chance(1, 8) { r.usize(4, 20) } else { r.usize(1, 3) };
    let max = if SMALL { 24 } else { 3000 };
    h.log(format!("adhoc {} ch", ch));
    let mut c = crate::ad::new_codec_any(r, *r.clone().pick(&[1000u32, 44100, 8000, 1]), ch, r.clone().below(12) as u32);
    for _ in 0..r.usize(1, 3) {
        let steps = r.usize(1, 6);
        drive(r, &mut c, ch, max, steps, false, h);
        match r.below(4) {
            0 => c.init(),
            1 => {
                let mut v = vec![];
                c.save_to(&mut v);
                h.log(format!("save={} bytes", v.len()));
                h.push(hash_bytes(&v));
                if r.chance(1, 2) {
                    if let Some(n) = AdhocCodec::load(&v[..]) {
                        c = n
                    }
                }
            }
            _ => {
                h.push(c.calculate_sample_count_per_channel());
            }
        }
    }
    // always end by reading everything back
    c.init();
    let mut b = vec![0.0f32; ch * 7 + r.usize(0, ch)];
    let mut left = 2000;
    while let Some(n) = c.decode(&mut b) {
        h.push(n as u64);
        left -= 1;
        if left == 0 {
            break;
        }
    }
}
fn wav(r: &mut Rng, h: &mut H) {
    let ch = if r.chance(1, 8) { r.usize(4, 20) } else { r.usize(1, 3) };
    let max = if SMALL { 30 } else { 3000 };
    h.log(format!("wav {} ch", ch));
    let mut c = WavCodec::new(StreamInfo::new(*r.pick(&[1000u32, 44100, 8000]), ch as u32));
    for _ in 0..r.usize(1, 3) {
        let steps = r.usize(1, 8);
        drive(r, &mut c, ch, max, steps, true, h);
        if r.chance(1, 2) {
            let mut v = vec![];
            let _ = c.save_to(&mut v);
            h.push(hash_bytes(&v));
            if r.chance(1, 2) {
                if let Ok(n) = WavCodec::load(std::io::Cursor::new(&v[..])) {
                    c = n
                }
            }
        }
    }
    c.seek(SeekFrom::Start(0));
    let mut b = vec![0.0f32; ch * 7 + r.usize(0, ch)];
    let mut left = 2000;
    while let Some(n) = c.decode(&mut b) {
        h.push(n as u64);
        left -= 1;
        if left == 0 {
            break;
        }
    }
}
fn damage(r: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..r.usize(1, 4) {
        if v.is_empty() {
            return;
        }
        let head = v.len().min(120);
        let at = if r.chance(1, 2) { r.usize(0, head - 1) } else { r.usize(0, v.len() - 1) };
        match r.below(5) {
            0 => v[at] ^= 1 << r.below(8),
            1 => v[at] = r.u64() as u8,
            2 => v.truncate(at),
            3 => v.insert(at, r.u64() as u8),
            _ => {
                v[at] = *r.pick(&[0, 1, 2, 127, 128, 255]);
            }
        }
    }
}
fn hostile(r: &mut Rng, h: &mut H) {
    let ch = r.usize(1, 3);
    let n = r.usize(0, if SMALL { 20 } else { 400 });
    let mut d = vec![];
    let kind = *r.pick(&[4usize, 14, 2, 0]);
    sig::gen_kind(r, kind, n * ch, &mut d);
    let mut v = vec![];
    let max = if SMALL { 16 } else { 500 };
    let steps = r.usize(1, 6);
    if r.chance(1, 2) {
        let mut c = crate::ad::new_codec(8000, ch, r.below(11) as u32);
        for p in d.chunks(ch * r.usize(1, 9)) {
            c.encode(p);
        }
        c.save_to(&mut v);
        damage(r, &mut v);
        h.log(format!("load damaged file of {} bytes", v.len()));
        h.push(hash_bytes(&v));
        if let Some(mut c) = AdhocCodec::load(&v[..]) {
            let ch = c.info().channels();
            if ch > 0 && ch < 5000 {
                drive(r, &mut c, ch, max.max(ch), steps, false, h)
            }
        }
    } else {
        let mut c = WavCodec::new(StreamInfo::new(8000, ch as u32));
        c.encode(&d);
        let _ = c.save_to(&mut v);
        damage(r, &mut v);
        h.log(format!("load damaged file of {} bytes", v.len()));
        h.push(hash_bytes(&v));
        if let Ok(mut c) = WavCodec::load(std::io::Cursor::new(&v[..])) {
            let ch = c.info().channels();
            if ch > 0 && ch < 5000 {
                drive(r, &mut c, ch, max.max(ch), steps, true, h)
            }
        }
    }
}
fn threads(r: &mut Rng, h: &mut H) {
    let (mut a, mut b) = (r.fork(), r.fork());
    let t = std::thread::spawn(move || {
        let mut h = H::default();
        adhoc(&mut a, &mut h);
        if a.chance(1, 2) {
            wav(&mut a, &mut h)
        }
        // hand a codec over to the other thread half used
        let mut c = crate::ad::new_codec(8000, 1, 3);
        c.encode(&[0.1; 9]);
        (h, c)
    });
    let mut h2 = H::default();
    if b.chance(1, 2) {
        wav(&mut b, &mut h2)
    }
    adhoc(&mut b, &mut h2);
    if let Ok((h1, mut c)) = t.join() {
        c.init();
        c.decode(&mut [0.0; 20]);
        h.log("thread 1:".into());
        h.log(h1.s.clone());
        h.extend(h1.v);
    }
    h.log("thread 2:".into());
    h.log(h2.s.clone());
    h.extend(h2.v);
}
/// `f` may panic, and the objects it touches are used on afterwards
fn try_it<T>(h: &mut H, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    h.log(format!("{}{}", what, if x.is_err() { "!" } else { "" }));
    h.push(hash_bytes(what.as_bytes()) ^ x.is_err() as u64);
    x.ok()
}
/// wrong call orders and arguments on the codecs, each of which may panic
fn misuse_codecs(r: &mut Rng, h: &mut H) {
    let max = if SMALL { 20 } else { 800 };
    if r.chance(2, 3) {
        let mut c = AdhocCodec::new().with_compression_level(r.below(14) as u32);
        for _ in 0..r.usize(2, 10) {
            let n = r.usize(0, max);
            match r.below(9) {
                0 | 1 => {
                    let ch = *r.pick(&[0u32, 1, 1, 2, 2, 3, 5, 40]);
                    try_it(h, "set_info", || c.set_info(StreamInfo::new(*r.pick(&[0u32, 1, 1000, u32::MAX]), ch)));
                }
                2 | 3 => {
                    let mut d = vec![];
                    sig::gen_kind(r, *r.clone().pick(&[0usize, 4, 14]), n, &mut d);
                    try_it(h, "encode", || Streamable::encode(&mut c, &d));
                }
                4 => {
                    let mut d = vec![0.25; n];
                    try_it(h, "decode", || Streamable::decode(&mut c, &mut d));
                }
                5 => {
                    let t = if r.chance(1, 2) { r.below(2000) } else { r.u64() };
                    let s = match r.below(4) {
                        0 => SeekFrom::End(t as i64),
                        1 => SeekFrom::Current(t as i64),
                        _ => SeekFrom::Start(t),
                    };
                    try_it(h, "seek", || c.seek(s));
                }
                6 => {
                    try_it(h, "init", || c.init());
                }
                7 => {
                    try_it(h, "facts", || (Streamable::filesize_upperbound(&c), c.calculate_sample_count_per_channel(), c.info().as_bytes().to_vec()));
                }
                _ => {
                    let mut v = vec![];
                    try_it(h, "save", || c.save_to(&mut v).is_some());
                    if let Some(Some(x)) = try_it(h, "load", || AdhocCodec::load(&v[..])) {
                        c = x
                    }
                }
            }
        }
    } else {
        let ch = *r.pick(&[0u32, 1, 2, 3, 7, 65536, u32::MAX]);
        let mut c = WavCodec::new(StreamInfo::new(*r.pick(&[0u32, 1, 8000, u32::MAX]), ch));
        for _ in 0..r.usize(2, 10) {
            let n = r.usize(0, max);
            match r.below(5) {
                0 | 1 => {
                    try_it(h, "wencode", || c.encode(&vec![0.3; n]));
                }
                2 => {
                    let mut d = vec![0.25; n];
                    try_it(h, "wdecode", || c.decode(&mut d));
                }
                3 => {
                    let t = if r.chance(1, 2) { r.below(2000) as i64 - 1000 } else { r.u64() as i64 };
                    let s = match r.below(3) {
                        0 => SeekFrom::End(t),
                        1 => SeekFrom::Current(t),
                        _ => SeekFrom::Start(t as u64),
                    };
                    try_it(h, "wseek", || c.seek(s));
                }
                _ => {
                    let mut v = vec![];
                    try_it(h, "wsave", || c.save_to(&mut v).is_ok());
                    if let Some(Ok(x)) = try_it(h, "wload", || WavCodec::load(std::io::Cursor::new(&v[..]))) {
                        c = x
                    }
                }
            }
        }
    }
}
#[cfg(feature = "misuse")]
fn odd_index(r: &mut Rng, len: usize) -> usize {
    match r.below(8) {
        0 => len,
        1 => len + 1,
        2 => len.wrapping_sub(1),
        3 => u32::MAX as usize,
        4 => usize::MAX,
        5 => r.usize(0, 300),
        6 => r.u64() as usize,
        _ => r.usize(0, len + 2),
    }
}
/// containers and numeric helpers with arguments outside of what they accept, and containers
/// deserialised from damaged data, each call of which may panic
#[cfg(feature = "misuse")]
fn misuse_containers(r: &mut Rng, h: &mut H) {
    use adhoc_audio::verif_hooks::*;
    fn again<T: serde::Serialize + serde::de::DeserializeOwned>(r: &mut Rng, h: &mut H, x: &mut T) {
        if let Ok(mut v) = bincode::serialize(&*x) {
            if r.chance(2, 3) {
                damage(r, &mut v);
            }
            if let Some(Ok(y)) = try_it(h, "deserialize", || bincode::deserialize::<T>(&v)) {
                *x = y
            }
        }
    }
    let steps = r.usize(3, 16);
    match r.below(9) {
        0 | 1 => {
            let mut l = LinkedList::<Box<u64>>::new();
            let mut stale = vec![NULL, Ptr::from(0u32), Ptr::from(3u32), Ptr::from(u32::MAX - 1)];
            for k in 0..steps as u64 {
                let p = if r.chance(1, 2) { *r.pick(&stale) } else { Ptr::from(odd_index(r, l.len())) };
                match r.below(11) {
                    0 | 1 => {
                        try_it(h, "push_front", || l.push_front(Box::new(k)));
                        stale.push(l.front());
                    }
                    2 => {
                        try_it(h, "push_rear", || l.push_rear(Box::new(k)));
                        stale.push(l.rear());
                    }
                    3 => {
                        try_it(h, "pop", || (l.pop_front(), l.len()));
                    }
                    4 => {
                        try_it(h, "remove_at", || l.remove_at(p));
                    }
                    5 => {
                        try_it(h, "insert_at", || l.insert_at(p, if k & 1 == 0 { InsertDirection::Left } else { InsertDirection::Right }, Box::new(k)));
                    }
                    6 => {
                        try_it(h, "index", || l[p].data().map(|x| **x));
                    }
                    7 => {
                        try_it(h, "index_mut", || l[p].data_mut().map(|x| **x += 1));
                    }
                    8 => {
                        try_it(h, "get", || (l.get(p).and_then(|n| n.data()).map(|x| **x), l.get_mut(p).and_then(|n| n.data_mut()).map(|x| **x += 1)));
                    }
                    9 => {
                        if l.len() < 10_000 {
                            try_it(h, "iter", || l.iter().map(|x| **x).sum::<u64>());
                            try_it(h, "iter_mut", || {
                                let mut all: Vec<&mut Box<u64>> = l.iter_mut().collect();
                                all.iter_mut().for_each(|x| ***x += 1);
                                let n = all.len();
                                for i in 1..n {
                                    let (a, b) = all.split_at_mut(i);
                                    std::mem::swap(&mut *a[i - 1], &mut *b[0]);
                                }
                            });
                        }
                    }
                    _ => again(r, h, &mut l),
                }
            }
        }
        2 => {
            let mut l = LruCache::<u64, String>::new(r.usize(0, 4));
            for k in 0..steps as u64 {
                let key = r.below(6);
                match r.below(7) {
                    0..=2 => {
                        try_it(h, "put", || l.put(key, format!("v{}", k)));
                    }
                    3 => {
                        try_it(h, "get", || l.get(&key).cloned());
                    }
                    4 => {
                        try_it(h, "get_mut", || l.get_mut(&key).map(|x| x.push('x')));
                    }
                    5 => {
                        try_it(h, "remove", || (l.remove(&key), l.lookup(&key).cloned(), l.len()));
                    }
                    _ => again(r, h, &mut l),
                }
            }
        }
        3 => {
            let cap = *r.pick(&[1u32, 2, 4, 8, 16]);
            let mut q = FixedRingBuffer::new(vec![String::new(); r.usize(0, 17)], cap);
            for k in 0..steps {
                match r.below(7) {
                    0 => {
                        try_it(h, "push_front", || q.push_front(k.to_string()));
                    }
                    1 => {
                        try_it(h, "push_rear", || q.push_rear(k.to_string()));
                    }
                    2 => {
                        try_it(h, "pop_front", || q.pop_front().cloned());
                    }
                    3 => {
                        try_it(h, "pop_rear", || q.pop_rear().cloned());
                    }
                    4 => {
                        try_it(h, "iter", || q.iter().take(1000).map(|x| x.len()).sum::<usize>());
                    }
                    5 => {
                        let i = odd_index(r, cap as usize) as u32;
                        try_it(h, "index", || q[i].clone());
                    }
                    _ => again(r, h, &mut q),
                }
            }
        }
        4 => {
            let mut s = CircularStack::<i16>::new();
            for k in 0..steps {
                let i = odd_index(r, 4) as u32;
                match r.below(6) {
                    0 | 1 => {
                        try_it(h, "push", || s.push(k as i16));
                    }
                    2 => {
                        try_it(h, "pop", || s.pop());
                    }
                    3 => {
                        try_it(h, "prev", || s.prev(i));
                    }
                    4 => {
                        try_it(h, "index", || s[i]);
                        try_it(h, "index_mut", || s[i] = 5);
                    }
                    _ => again(r, h, &mut s),
                }
            }
        }
        5 => {
            let mut a = NibbleList::new();
            let mut b = BitVec::new();
            for k in 0..steps {
                let (i, j) = (odd_index(r, a.len()), odd_index(r, b.len()));
                match r.below(7) {
                    0 | 1 => {
                        let n = r.usize(0, 70);
                        try_it(h, "push", || {
                            for x in 0..n {
                                a.push((k + x) as u8);
                                b.push((k * x) as u64);
                            }
                        });
                    }
                    2 => {
                        try_it(h, "nget", || a.get(i));
                        try_it(h, "bget", || b.get(j));
                    }
                    3 => {
                        try_it(h, "nset", || a.set(i, 200));
                        try_it(h, "bset", || b.set(j, 3));
                    }
                    4 => {
                        try_it(h, "iter", || a.iter().take(1000).map(|x| x as u64).sum::<u64>() + b.iter().take(1000).sum::<u64>());
                    }
                    5 => {
                        a.clear();
                        b.clear();
                    }
                    _ => {
                        again(r, h, &mut a);
                        again(r, h, &mut b);
                    }
                }
            }
        }
        6 | 7 => {
            let mut s = BitStream::new();
            for _ in 0..steps {
                // positions between 256 MB and what no address space holds: code that extends the storage
                // up to there would be ended for want of memory, which is not the subject
                let at = (s.bit_cursor() / 128) as usize;
                if at >= 1 << 24 && at < 1 << 60 {
                    s.set_bit_cursor(at as u128 % 4096);
                }
                let n = odd_index(r, 128);
                let e = if r.chance(1, 2) { r.below(16) as i16 } else { r.u64() as i16 };
                let v = r.u64() as i16;
                match r.below(11) {
                    0 => {
                        try_it(h, "write_bits", || s.write_bits(v as u16, n));
                    }
                    1 => {
                        try_it(h, "read_bits", || s.read_bits(n));
                        try_it(h, "peek_bits", || s.peek_bits(n));
                    }
                    2 => {
                        try_it(h, "write_compressed", || s.write_compressed(e, v));
                    }
                    3 => {
                        try_it(h, "read_compressed", || s.read_compressed(e));
                    }
                    4 => {
                        try_it(h, "write_divisor", || s.write_compressed_divisor(e, v));
                        try_it(h, "write_capped", || s.write_compressed_capped::<2>(v));
                    }
                    5 => {
                        try_it(h, "read_divisor", || s.read_compressed_divisor(e));
                        try_it(h, "read_capped", || s.read_compressed_capped(e));
                    }
                    6 => {
                        let c = match r.below(4) {
                            0 => (r.u64() as u128) << 64 | r.u64() as u128,
                            1 => s.capacity() as u128,
                            _ => r.below(1000) as u128,
                        };
                        try_it(h, "set_bit_cursor", || s.set_bit_cursor(c));
                    }
                    7 => {
                        let o = if r.chance(1, 2) { r.below(400) as i128 - 200 } else { i128::MIN / (1 + r.below(9) as i128) };
                        try_it(h, "offset", || s.offset_bit_cursor(o));
                    }
                    8 => {
                        try_it(h, "seek_start", || s.seek_start());
                        try_it(h, "bit", || (s.write_bit(1), s.read_bit()));
                    }
                    9 => {
                        try_it(h, "write", || (s.write(v as u16), s.write(7u128)));
                        try_it(h, "read", || (s.read::<u32>(), s.peek::<u128>(), s.len(), s.capacity(), s.capacity_upperbound()));
                    }
                    _ => again(r, h, &mut s),
                }
            }
        }
        _ => {
            for _ in 0..steps {
                let a: Vec<f32> = (0..r.usize(0, 12)).map(|i| i as f32).collect();
                let b: Vec<f32> = (0..r.usize(0, 12)).map(|i| 1.0 / (1.0 + i as f32)).collect();
                let mut o = vec![0.0f32; r.usize(0, 12)];
                let n = r.usize(0, 14);
                match r.below(6) {
                    0 => {
                        try_it(h, "convolve", || convolve_1d(&a, &b, &mut o));
                    }
                    1 => {
                        try_it(h, "convolve_branchless", || convolve_1d_branchless(&a, &b, &mut o));
                    }
                    2 => {
                        try_it(h, "scale", || scale_signal(&a, n, &mut o).iter().sum::<f32>());
                    }
                    3 => {
                        try_it(h, "gauss0", || gaussian_filter::<0>(1.0, 2.0));
                        try_it(h, "gauss1", || gaussian_filter::<1>(0.0, f32::NAN));
                    }
                    4 => {
                        try_it(h, "mse", || compute_mse(&a, &b));
                    }
                    _ => {
                        let seed = r.u64();
                        try_it(h, "noise", || (PseudoRandom::new(seed).triangle().take(3).sum::<f32>(), PseudoRandom::new(seed).uniform().take(3).sum::<f32>()));
                    }
                }
                h.push(o.len() as u64 * 200 + a.len() as u64 * 14 + b.len() as u64);
            }
        }
    }
}
#[cfg(not(feature = "misuse"))]
fn misuse_containers(_: &mut Rng, _: &mut H) {}

fn containers(c: &mut Ctx, r: &mut Rng) {
    let idx = r.u64();
    let _ = super::internal::ub_case(c, r, idx);
}

fn c15(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let kind = idx % if SMALL { 8 } else { 12 };
    let mut h = H::default();
    h.push(kind);
    let mut sub = Ctx { thorough: false, seed: c.seed, scratch: c.scratch.clone(), ..Default::default() };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
        0 => adhoc(r, &mut h),
        1 => wav(r, &mut h),
        2 => hostile(r, &mut h),
        3 => threads(r, &mut h),
        6 => misuse_codecs(r, &mut h),
        7 => misuse_containers(r, &mut h),
        4 | 5 => {
            containers(&mut sub, r);
            h.log(sub.desc.chars().take(200).collect());
            h.extend(sub.sigs.iter().copied());
        }
        _ => {
            let ids = ["C03", "C04", "C05", "C06", "C10", "C11", "C12", "C13", "C14", "C20", "C21", "C22"];
            let id = *r.pick(&ids);
            if let Some(p) = super::all().into_iter().find(|p| p.id == id) {
                let _ = (p.run)(&mut sub, r, idx);
            }
            h.log(format!("{}: {}", id, sub.desc.chars().take(200).collect::<String>()));
            h.extend(sub.sigs.iter().copied());
            h.push(hash_bytes(sub.desc.as_bytes()));
        }
    }));
    c.count("panics_ignored", res.is_err() as u64);
    c.count(["adhoc_histories", "wav_histories", "damaged_loads", "two_thread_histories", "container_histories", "container_histories", "misuse_codecs", "misuse_containers", "delegated_cases", "delegated_cases", "delegated_cases", "delegated_cases"][kind as usize], 1);
    c.d(format!("{}: {} ({} observations)", ["adhoc", "wav", "damaged file", "two threads", "containers", "containers", "misused codec", "misused container", "delegated", "delegated", "delegated", "delegated"][kind as usize], h.s, h.v.len()));
    c.sig(hash_u64s(&h.v));
    Ok(())
}
