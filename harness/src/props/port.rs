//! C28: the same behaviour on wasm32 as here.
use super::hostile;
use super::Prop;
use crate::ctx::*;
use crate::ensure;
use crate::portexec::{self as px, *};
use crate::rng::*;
use crate::sig::{self, Domain};
use crate::wavref::{self, Layout};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

pub const PROPS: &[&Prop] = &[&C28];

pub static C28: Prop = Prop {
    id: "C28",
    quick: 25000,
    thorough: 1500000,
    run: c28,
    rule: "Each case draws a history of calls with their data (compressed and WAV codecs: encode with empty, partial and large calls, decode, rewind, seeks anywhere including extreme times, save, reload, info, counts, size bound; changed settings; loading files of release 0.1.3, foreign WAV layouts and damaged files of both formats and using the result), replays it on the crate built for this 64-bit machine and on the crate built for wasm32-unknown-unknown running in Node, and compares the logs of every result, delivered sample and saved byte; a panic or trap on either side only must not happen. Distinct by history.",
    assume: &["both builds have overflow checks and debug assertions", "histories fit the 4 GB of a wasm32 memory"],
    require: &[("calls_compared", 300_000), ("compressed_histories", 8_000), ("wav_histories", 3_000), ("damaged_adhoc_files", 2_000), ("damaged_wav_files", 2_000), ("foreign_wav_files", 1_000), ("released_files", 240), ("extreme_seeks", 5_000), ("saves", 20_000), ("calls_over_65535", 20), ("streams_over_2_pow_32_bits", 1)],
};

struct Peer {
    child: Child,
    stdin: ChildStdin,
    answers: Receiver<Answer>,
}
struct Answer {
    trapped: bool,
    /// trapped because more than 2 of its 4 GB were in use and the next piece did not fit
    memory_full: bool,
    pages: u32,
    log: Vec<u64>,
    message: String,
}
fn answer(o: &mut impl Read) -> std::io::Result<Answer> {
    let mut h = [0u8; 16];
    o.read_exact(&mut h)?;
    let w = |i: usize| u32::from_le_bytes(h[i..i + 4].try_into().unwrap());
    let mut log = vec![0u8; w(4) as usize * 8];
    o.read_exact(&mut log)?;
    let mut m = vec![0u8; w(8) as usize];
    o.read_exact(&mut m)?;
    let log = log.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
    Ok(Answer { trapped: w(0) != 0, memory_full: w(0) == 2 && w(12) > 32768, pages: w(12), log, message: String::from_utf8_lossy(&m).to_string() })
}
fn peer() -> Result<Peer, String> {
    let (js, wasm) = (std::env::var("MON_WASM_JS").unwrap_or_default(), std::env::var("MON_WASM").unwrap_or_default());
    let mut child = Command::new("node").args([&js, &wasm]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().map_err(|e| format!("harness: node does not start: {}", e))?;
    let stdin = child.stdin.take().unwrap();
    let mut out = child.stdout.take().unwrap();
    let (tx, answers) = channel();
    std::thread::spawn(move || {
        while let Ok(a) = answer(&mut out) {
            if tx.send(a).is_err() {
                break;
            }
        }
    });
    Ok(Peer { child, stdin, answers })
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! { static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) }; }
/// gives the history to Node and leaves it running there
fn start_wasm(h: &[u8]) -> Result<(), String> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            *p = Some(peer()?);
        }
        let k = p.as_mut().unwrap();
        let r = k.stdin.write_all(&(h.len() as u32).to_le_bytes()).and_then(|_| k.stdin.write_all(h)).map_err(|e| format!("harness: the Node process ended: {}", e));
        if r.is_err() {
            *p = None;
        }
        r
    })
}
fn from_wasm() -> Result<Answer, String> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        let r = p.as_mut().unwrap().answers.recv_timeout(Duration::from_secs(600)).map_err(|e| match e {
            RecvTimeoutError::Timeout => "the history does not end on wasm32 within 600 s".to_string(),
            RecvTimeoutError::Disconnected => "harness: the Node process ended".to_string(),
        });
        if r.is_err() {
            *p = None;
        }
        r
    })
}

#[derive(Default)]
struct Out {
    b: Vec<u8>,
    ops: Vec<u8>,
}
impl Out {
    fn op(&mut self, op: u8) {
        self.ops.push(op);
        self.b.push(op);
    }
    fn u32(&mut self, x: u32) {
        self.b.extend(x.to_le_bytes())
    }
    fn u64(&mut self, x: u64) {
        self.b.extend(x.to_le_bytes())
    }
    fn encode(&mut self, d: &[f32]) {
        self.op(ENCODE);
        self.u32(d.len() as u32);
        for x in d {
            self.b.extend(x.to_le_bytes())
        }
    }
    fn decode(&mut self, n: usize) {
        self.op(DECODE);
        self.u32(n as u32);
    }
    fn decode_all(&mut self, n: usize) {
        self.op(DECODE_ALL);
        self.u32(n as u32);
    }
    fn file(&mut self, op: u8, f: &[u8]) {
        self.op(op);
        self.u32(f.len() as u32);
        self.b.extend(f);
    }
}
/// a time to seek to: inside, around the end, and where 32-bit arithmetic would wrap
fn time(c: &mut Ctx, r: &mut Rng, rate: u32, frames: usize) -> u64 {
    let dur = frames as f64 * 1000.0 / rate.max(1) as f64;
    match r.below(6) {
        0 => 0,
        1 => (dur * (0.9 + r.unit() * 0.3)) as u64,
        2 => {
            c.count("extreme_seeks", 1);
            match r.below(5) {
                0 => u64::MAX - r.below(3),
                1 => (1u64 << 32) + r.below(1 + dur as u64),
                2 => ((1u64 << 32) as f64 * 1000.0 / rate.max(1) as f64) as u64 + r.below(2 + dur as u64),
                3 => ((1u64 << 31) as f64 * 1000.0 / rate.max(1) as f64) as u64 + r.below(2 + dur as u64),
                _ => 1 << r.below(64),
            }
        }
        _ => (dur * r.unit()) as u64,
    }
}
fn seek(c: &mut Ctx, r: &mut Rng, o: &mut Out, wav: bool, rate: u32, frames: usize) {
    let t = time(c, r, rate, frames);
    match if wav { r.below(3) } else { 0 } {
        0 => o.op(SEEK_START),
        1 => o.op(SEEK_CURRENT),
        _ => o.op(SEEK_END),
    }
    let back = *o.ops.last().unwrap() != SEEK_START && r.chance(1, 2);
    o.u64(if back { (t as i64).wrapping_neg() as u64 } else { t });
}
fn buf(r: &mut Rng, ch: usize) -> usize {
    ch * r.logsize(1, (20_000 / ch).max(1)) + if r.chance(1, 4) { r.usize(0, ch - 1) } else { 0 }
}
fn use_codec(c: &mut Ctx, r: &mut Rng, o: &mut Out, wav: bool, rate: u32, ch: usize, frames: usize, n: usize) {
    for _ in 0..n {
        match r.below(8) {
            0 => {
                o.op(SAVE);
                c.count("saves", 1);
            }
            1 => o.op(FACTS),
            2 => o.op(RELOAD),
            3 => o.op(INIT),
            4 => {
                let n = buf(r, ch);
                o.decode(n)
            }
            5 => {
                let n = buf(r, ch);
                o.decode_all(n)
            }
            _ => {
                seek(c, r, o, wav, rate, frames);
                let n = buf(r, ch);
                o.decode(n)
            }
        }
    }
}
fn lifecycle(c: &mut Ctx, r: &mut Rng, o: &mut Out, wav: bool, big: bool) {
    let mut ch = if !big && r.chance(1, 15) { *r.pick(&[255usize, 256, 257, 40, 100, 2000]) } else { r.usize(1, 6) };
    let mut rate = sig::rate(r);
    let level = if r.chance(1, 2) { 0 } else if r.chance(1, 10) { u32::MAX - r.below(3) as u32 } else { r.usize(1, 11) as u32 };
    if wav {
        o.op(NEW_WAV);
    } else {
        o.op(NEW_ADHOC);
        o.u32(level);
    }
    o.u32(rate);
    o.u32(ch as u32);
    let mut frames = 0;
    for session in 0..r.usize(1, 3) {
        let n = if big { r.usize(65_530, 140_000) } else { r.logsize(0, 4000 / ch.min(40)) };
        let dom = if r.chance(1, 6) { Domain::Any } else { Domain::Finite };
        let a = sig::audio(r, dom, ch, n);
        let part = sig::partition(r, n, true);
        let part = if part.len() > 60 || big { vec![n] } else { part };
        c.count("calls_over_65535", big as u64);
        let mut at = 0;
        for p in part {
            let extra = if r.chance(1, 8) { r.usize(0, ch - 1) } else { 0 };
            let end = ((at + p) * ch + extra).min(a.data.len());
            o.encode(&a.data[at * ch..end]);
            at += p;
            if r.chance(1, 10) {
                o.op(if r.chance(1, 2) { SAVE } else { FACTS });
            }
        }
        if r.chance(1, 6) && ch < 10 {
            // many small frames
            o.op(ENCODE_MANY);
            o.u32(r.logsize(1, 3000) as u32);
            let k = r.usize(1, 4) * ch;
            o.u32(k as u32);
            for _ in 0..k {
                o.b.extend((r.sym() as f32).to_le_bytes());
            }
        }
        frames = if wav && session > 0 { frames.max(n) } else { n };
        o.op(SAVE);
        o.op(FACTS);
        if !wav {
            o.op(INIT);
        }
        let k = r.usize(1, 12);
        use_codec(c, r, o, wav, rate, ch, frames, k);
        o.op(INIT);
        let k = buf(r, ch);
        o.decode_all(k);
        if wav {
            seek(c, r, o, true, rate, frames);
        } else {
            o.op(INIT);
            if r.chance(1, 4) {
                rate = sig::rate(r);
                ch = r.usize(1, 6);
                o.op(SET_INFO);
                o.u32(rate);
                o.u32(ch as u32);
            }
        }
    }
}
/// more than 2^32 bits of compressed audio
fn giant(c: &mut Ctx, r: &mut Rng, o: &mut Out) {
    crate::CASE_EXTRA_MS.store(200_000, std::sync::atomic::Ordering::SeqCst);
    o.op(NEW_ADHOC);
    o.u32(0);
    o.u32(44100);
    o.u32(1);
    o.op(ENCODE_MANY);
    o.u32(4000);
    o.u32(65535);
    for _ in 0..65535 {
        o.b.extend((r.sym() as f32).to_le_bytes());
    }
    o.op(FACTS);
    for _ in 0..4 {
        o.op(SEEK_START);
        o.u64((4000.0 * 65535.0 / 44.1 * (0.96 + 0.04 * r.unit())) as u64);
        o.decode(10_000);
    }
    o.op(RELOAD);
    o.op(FACTS);
    o.op(SEEK_START);
    o.u64((4000.0 * 65535.0 / 44.1 * 0.995) as u64);
    o.decode_all(100_000);
    c.count("streams_over_2_pow_32_bits", 1);
}
/// more channels than fit a 16-bit count
fn very_many_channels(c: &mut Ctx, r: &mut Rng, o: &mut Out) {
    let ch = *r.pick(&[65_535usize, 65_536, 65_537, 65_538, 70_000, 140_000]);
    let wav = ch < 65_536 && r.chance(1, 2);
    if wav {
        o.op(NEW_WAV);
    } else {
        o.op(NEW_ADHOC);
        o.u32(r.usize(0, 10) as u32);
    }
    o.u32(8000);
    o.u32(ch as u32);
    for _ in 0..r.usize(1, 2) {
        let n = ch * r.usize(0, 3) + r.usize(0, 5);
        let d: Vec<f32> = (0..n).map(|_| r.sym() as f32).collect();
        o.encode(&d);
    }
    o.op(FACTS);
    o.op(RELOAD);
    o.op(INIT);
    o.decode_all(ch * 2);
    o.op(SEEK_START);
    o.u64(r.below(3));
    o.decode(ch);
    o.op(SAVE);
    c.count("over_65534_channels", 1);
}
fn after_load(c: &mut Ctx, r: &mut Rng, o: &mut Out, wav: bool) {
    o.op(FACTS);
    o.op(SAVE);
    // channel counts of damaged files are not known here: large buffers hold a frame of most
    o.decode_all(*r.pick(&[4096usize, 70_000, 12]));
    for _ in 0..r.usize(1, 5) {
        let rate = *r.pick(&[1000u32, 8000, 44100]);
        seek(c, r, o, wav, rate, 2000);
        o.decode(*r.pick(&[4096usize, 70_000]));
    }
    o.op(RELOAD);
    o.op(FACTS);
    o.op(SAVE);
    o.decode_all(4096);
    o.op(INIT);
    if r.chance(1, 2) {
        let n = r.usize(0, 300);
        let d: Vec<f32> = (0..n).map(|_| r.sym() as f32).collect();
        o.encode(&d);
        o.op(INIT);
        o.decode_all(4096);
    }
    o.op(SAVE);
}
fn c28(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let mut o = Out::default();
    let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/../golden");
    let kind = match idx {
        0..=239 => 10,
        240 => 11,
        _ if idx % 2000 == 270 => 12,
        _ => idx % 10,
    };
    match kind {
        10 => {
            let f = format!("{}/{:03}.adhoc", dir, idx);
            let b = std::fs::read(&f).map_err(|e| format!("{}: {}", f, e))?;
            c.d(format!("released file {}", f));
            o.file(LOAD_ADHOC, &b);
            after_load(c, r, &mut o, false);
            c.count("released_files", 1);
        }
        11 => giant(c, r, &mut o),
        12 => very_many_channels(c, r, &mut o),
        0..=4 => {
            lifecycle(c, r, &mut o, false, idx % 1000 == 3);
            c.count("compressed_histories", 1);
        }
        5 | 6 => {
            lifecycle(c, r, &mut o, true, idx % 1000 == 5);
            c.count("wav_histories", 1);
        }
        7 => {
            let base = hostile::small_file(r, idx % 100 == 7);
            let (f, what, _) = if idx % 500 == 27 { (hostile::overclaiming(r), vec!["overclaiming sizes"], true) } else { hostile::damaged_adhoc(r, &base) };
            c.d(format!("damaged .adhoc of {} bytes: {}", f.len(), what.join("+")));
            o.file(LOAD_ADHOC, &f);
            after_load(c, r, &mut o, false);
            c.count("damaged_adhoc_files", 1);
        }
        8 => {
            let (f, what) = hostile::damaged_wav(r, false);
            c.d(format!("damaged .wav of {} bytes: {}", f.len(), what));
            o.file(LOAD_WAV, &f);
            after_load(c, r, &mut o, true);
            c.count("damaged_wav_files", 1);
        }
        _ => {
            let lay = Layout::random(r);
            let bits = *r.pick(&[8u16, 16, 16, 24]);
            let ch = if r.chance(1, 10) { r.usize(1, 65535) } else { r.usize(1, 8) } as u16;
            let n = r.logsize(0, 5000);
            let data: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
            let f = wavref::build(&lay, 1, ch, sig::rate(r), bits, &data);
            o.file(LOAD_WAV, &f);
            after_load(c, r, &mut o, true);
            c.count("foreign_wav_files", 1);
        }
    }
    c.d(format!("{} calls, {} bytes: {}", o.ops.len(), o.b.len(), o.ops.iter().take(30).map(|&x| px::NAMES[x as usize]).collect::<Vec<_>>().join(", ")));
    c.sig(hash_bytes(&o.b));
    let mut mine = vec![];
    start_wasm(&o.b)?;
    let panicked = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| px::exec(&o.b, &mut mine))).is_err();
    let theirs = from_wasm()?;
    c.count("calls_compared", mine.len() as u64);
    c.count("both_panicked", (panicked && theirs.trapped) as u64);
    if let Some(m) = c.counters.get_mut("wasm_memory_mb_max") {
        *m = (*m).max(theirs.pages as u64 / 16)
    } else {
        c.count("wasm_memory_mb_max", theirs.pages as u64 / 16)
    }
    let n = mine.len().min(theirs.log.len());
    for i in 0..n {
        ensure!(mine[i] == theirs.log[i], "call {} of {} ({}) gives another result on wasm32 than on this machine", i, o.ops.len(), px::NAMES[o.ops[i] as usize]);
    }
    if theirs.memory_full && theirs.log.len() <= mine.len() {
        // 4 GB are all a wasm32 program can have; how much a huge stream needs is not this property's business
        c.count("cut_by_the_4_gb_of_wasm32", 1);
        return Ok(());
    }
    let name = |i: usize| o.ops.get(i).map_or("-", |&x| px::NAMES[x as usize]);
    ensure!(!theirs.trapped || panicked, "call {} of {} ({}) panics on wasm32 only: {}", theirs.log.len(), o.ops.len(), name(theirs.log.len()), theirs.message);
    ensure!(!panicked || theirs.trapped, "call {} of {} ({}) panics on this machine only", mine.len(), o.ops.len(), name(mine.len()));
    ensure!(mine.len() == theirs.log.len(), "{} calls end on this machine, {} on wasm32", mine.len(), theirs.log.len());
    Ok(())
}
