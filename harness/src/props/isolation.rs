//! C16: determinism and isolation of codecs.
use super::Prop;
use crate::ad;
use crate::ctx::*;
use crate::ensure;
use crate::rng::*;
use crate::sig::{self, Domain};
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

pub const PROPS: &[&Prop] = &[&C16];

#[derive(Clone, Debug)]
enum Op {
    Encode(Vec<f32>),
    Decode(usize),
    Init,
    Seek(SeekFrom),
    Save,
    Reload,
    Facts,
}
#[derive(Clone, Debug)]
struct Hist {
    wav: bool,
    ch: usize,
    rate: u32,
    level: u32,
    ops: Vec<Op>,
}
fn hist(r: &mut Rng, cap: usize) -> Hist {
    let wav = r.chance(1, 4);
    let ch = if r.chance(1, 15) { r.usize(9, 64) } else { r.usize(1, 4) };
    let rate = *r.pick(&[1000u32, 8000, 44100, 48000]);
    let level = if r.chance(1, 4) { 0 } else { r.usize(1, 10) as u32 };
    let mut ops = vec![];
    let mut frames = 0usize;
    for _ in 0..r.usize(1, 3) {
        let n = r.logsize(1, (cap / ch).max(1));
        let dom = if r.chance(1, 8) { Domain::Any } else { Domain::Unit };
        let a = sig::audio(r, dom, ch, n);
        let part = sig::partition(r, n, true);
        let part = if part.len() > 40 { vec![n] } else { part };
        let mut at = 0;
        for p in part {
            ops.push(Op::Encode(a.data[at * ch..(at + p) * ch].to_vec()));
            at += p;
            if r.chance(1, 12) {
                ops.push(if r.chance(1, 2) { Op::Save } else { Op::Facts });
            }
        }
        frames = frames.max(n);
        for _ in 0..r.usize(1, 8) {
            match r.below(7) {
                0 => ops.push(Op::Save),
                1 => ops.push(Op::Facts),
                2 => ops.push(Op::Reload),
                3 if wav => {
                    let t = r.i64(-50, 50);
                    ops.push(Op::Seek(if r.chance(1, 2) { SeekFrom::Current(t) } else { SeekFrom::End(t) }))
                }
                _ => {
                    let t = if r.chance(1, 3) { 0 } else { r.below(frames as u64 * 1000 / rate as u64 + 2) };
                    ops.push(Op::Seek(SeekFrom::Start(t)));
                    for _ in 0..r.usize(0, 2) {
                        ops.push(Op::Decode(r.logsize(1, 2000)))
                    }
                }
            }
        }
        ops.push(Op::Init);
        ops.push(Op::Decode(frames * ch + ch));
        ops.push(Op::Save);
        ops.push(Op::Init);
    }
    Hist { wav, ch, rate, level, ops }
}
enum Codec {
    A(AdhocCodec),
    W(WavCodec),
}
struct Run {
    c: Codec,
    h: Arc<Hist>,
    at: usize,
    log: Vec<u64>,
    decoded: u64,
}
impl Run {
    fn new(h: &Arc<Hist>) -> Run {
        let c = if h.wav { Codec::W(WavCodec::new(StreamInfo::new(h.rate, h.ch as u32))) } else { Codec::A(ad::new_codec(h.rate, h.ch, h.level)) };
        Run { c, h: h.clone(), at: 0, log: vec![], decoded: 0 }
    }
    fn save(&self) -> Vec<u8> {
        let mut v = vec![];
        match &self.c {
            Codec::A(c) => {
                c.save_to(&mut v);
            }
            Codec::W(c) => {
                let _ = c.save_to(&mut v);
            }
        }
        v
    }
    fn step(&mut self) -> bool {
        let h = self.h.clone();
        if self.at >= h.ops.len() {
            return false;
        }
        let op = &h.ops[self.at];
        self.at += 1;
        let e = match op {
            Op::Encode(d) => {
                let x = match &mut self.c {
                    Codec::A(c) => c.encode(d),
                    Codec::W(c) => c.encode(d),
                };
                x.unwrap_or(0) as u64
            }
            Op::Decode(n) => {
                let mut b = vec![0.0; (*n).max(h.ch)];
                let x = match &mut self.c {
                    Codec::A(c) => c.decode(&mut b),
                    Codec::W(c) => c.decode(&mut b),
                };
                let n = x.unwrap_or(0);
                self.decoded += n as u64;
                hash_f32s(&b[..n.min(b.len())])
            }
            Op::Init => {
                match &mut self.c {
                    Codec::A(c) => c.init(),
                    Codec::W(c) => c.seek(SeekFrom::Start(0)),
                }
                0
            }
            Op::Seek(s) => {
                match &mut self.c {
                    Codec::A(c) => c.seek(*s),
                    Codec::W(c) => c.seek(*s),
                }
                0
            }
            Op::Save => hash_bytes(&self.save()),
            Op::Reload => {
                let b = self.save();
                match &mut self.c {
                    Codec::A(c) => match AdhocCodec::load(&b[..]) {
                        Some(n) => {
                            *c = n;
                            1
                        }
                        None => 2,
                    },
                    Codec::W(c) => match WavCodec::load(std::io::Cursor::new(&b[..])) {
                        Ok(n) => {
                            *c = n;
                            1
                        }
                        Err(_) => 2,
                    },
                }
            }
            Op::Facts => match &self.c {
                Codec::A(c) => hash_u64s(&[c.calculate_sample_count_per_channel(), c.filesize_upperbound(), c.info().channels() as u64, c.info().frequency() as u64]),
                Codec::W(c) => hash_u64s(&[c.filesize_upperbound(), c.info().channels() as u64, c.info().frequency() as u64]),
            },
        };
        self.log.push(e);
        true
    }
    fn all(mut self) -> Vec<u64> {
        while self.step() {}
        self.log
    }
}
fn diff(a: &[u64], b: &[u64], h: &Hist, how: &str) -> Res {
    if a != b {
        let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let mut op = format!("{:?}", h.ops.get(i));
        op.truncate(80);
        return Err(format!("{}: call {} of {} ({}) gives another result than alone ({} {} ch level {})", how, i, h.ops.len(), op, if h.wav { "wav" } else { "adhoc" }, h.ch, h.level));
    }
    Ok(())
}
fn batch(seed: u64) -> Vec<Arc<Hist>> {
    let mut r = Rng::new(seed);
    (0..12).map(|_| Arc::new(hist(&mut r, 1500))).collect()
}
/// entry point of the helper process: prints the transcripts of one batch
pub fn transcript_main(seed: u64) -> i32 {
    for h in batch(seed).iter().rev() {
        let l = Run::new(h).all();
        println!("{:016x} {}", hash_u64s(&l), l.len());
    }
    0
}

pub static C16: Prop = Prop {
    id: "C16",
    quick: 9000,
    thorough: 400000,
    run: c16,
    rule: "Each case draws 2-8 abstract call histories (encode at every level, decode, seek, rewind, save, load, queries; compressed and WAV) and records each one's transcript (hash of every result, delivered sample and saved byte) alone on fresh codecs; then replays them (a) twice after other codecs were used and dropped, (b) interleaved call by call in a random schedule on one thread, with some histories run by two codecs at once, (c) on one thread each, started by a barrier with random yields, with codecs moved between threads, and (d) for part of the cases in another process in another order; every transcript must equal the one taken alone. Observed thread interleavings are recorded by a global ticket per call. Distinct by (histories, schedule or observed ticket order).",
    assume: &[],
    require: &[("replays_interleaved", 25_000), ("replays_on_threads", 25_000), ("replays_in_other_process", 800), ("replays_repeated", 25_000), ("thread_switches_observed", 20_000), ("histories_with_dither", 15_000)],
};
fn c16(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let k = r.usize(2, 8);
    let cap = if idx % 40 == 0 { 30_000 } else { 1200 };
    let hs: Vec<Arc<Hist>> = (0..k).map(|_| Arc::new(hist(r, cap))).collect();
    c.d(format!("{} histories: {}", k, hs.iter().map(|h| format!("{} {}ch L{} {} calls", if h.wav { "wav" } else { "adhoc" }, h.ch, h.level, h.ops.len())).collect::<Vec<_>>().join(", ")));
    c.count("histories_with_dither", hs.iter().filter(|h| !h.wav && h.level > 0).count() as u64);
    let alone: Vec<Vec<u64>> = hs.iter().map(|h| Run::new(h).all()).collect();
    for (h, a) in hs.iter().zip(&alone) {
        diff(&Run::new(h).all(), a, h, "repeated on a new codec")?;
        c.count("replays_repeated", 1);
    }
    // one thread, random schedule, possibly two codecs per history
    let mut runs: Vec<(usize, Run)> = vec![];
    for i in 0..k {
        runs.push((i, Run::new(&hs[i])));
        if r.chance(1, 3) {
            runs.push((i, Run::new(&hs[i])));
        }
    }
    let mut live: Vec<usize> = (0..runs.len()).collect();
    let mut order = 0u64;
    let sticky = *r.pick(&[1u64, 1, 3, 10]);
    let mut cur = 0usize;
    while !live.is_empty() {
        if r.below(sticky) == 0 {
            cur = r.usize(0, live.len() - 1)
        }
        let j = cur.min(live.len() - 1);
        let id = live[j];
        order = mix(order ^ id as u64);
        if !runs[id].1.step() {
            live.swap_remove(j);
        }
    }
    for (i, run) in runs {
        diff(&run.log, &alone[i], &hs[i], "interleaved with other codecs on one thread")?;
        c.count("replays_interleaved", 1);
    }
    c.sig(hash_u64s(&[order, hash_u64s(&alone.concat())]));
    // threads
    let barrier = Arc::new(Barrier::new(k));
    let ticket = Arc::new(AtomicUsize::new(0));
    let mut th = vec![];
    for i in 0..k {
        let (b, t, mut rr) = (barrier.clone(), ticket.clone(), r.fork());
        // some are made, and some calls happen, on this thread, the rest elsewhere
        let mut run = None;
        if rr.chance(1, 2) {
            let mut x = Run::new(&hs[i]);
            for _ in 0..rr.usize(0, 2) {
                x.step();
            }
            run = Some(x);
        }
        let h = hs[i].clone();
        let mut builder = std::thread::Builder::new();
        if rr.chance(1, 2) {
            builder = builder.name("w".repeat(rr.usize(1, 20)));
        }
        th.push(builder.spawn(move || {
            b.wait();
            let mut run = run.unwrap_or_else(|| Run::new(&h));
            let mut mine = vec![];
            loop {
                if rr.chance(1, 4) {
                    std::thread::yield_now();
                }
                if !run.step() {
                    break;
                }
                mine.push(t.fetch_add(1, SeqCst));
            }
            (run, mine)
        }).map_err(|e| format!("harness: {}", e))?);
    }
    let mut seq: Vec<(usize, usize)> = vec![];
    let mut bad = None;
    for (i, t) in th.into_iter().enumerate() {
        match t.join() {
            Ok((run, mine)) => {
                seq.extend(mine.into_iter().map(|m| (m, i)));
                if let Err(e) = diff(&run.log, &alone[i], &hs[i], "run at the same time as codecs on other threads") {
                    bad = bad.or(Some(e));
                }
                c.count("replays_on_threads", 1);
            }
            Err(_) => bad = bad.or(Some("a codec panicked on its thread while others ran on theirs".into())),
        }
    }
    if let Some(e) = bad {
        return Err(e);
    }
    seq.sort();
    c.count("thread_switches_observed", seq.windows(2).filter(|w| w[0].1 != w[1].1).count() as u64);
    c.sig(hash_u64s(&seq.iter().map(|s| s.1 as u64).collect::<Vec<_>>()) ^ 0x5555);
    // another process
    if idx % 100 == 1 {
        let s = r.u64() >> 1;
        let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["transcript", "--seed", &s.to_string()]).env_clear().env("MON_DICT", std::env::var("MON_DICT").unwrap_or_default()).env("TZ", "Asia/Tokyo").env("LANG", "tr_TR.UTF-8").env("RUST_BACKTRACE", "1").current_dir("/").output().map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let mut theirs: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        theirs.reverse();
        let hs = batch(s);
        ensure!(theirs.len() == hs.len(), "helper process ended early: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr));
        for (h, t) in hs.iter().zip(&theirs) {
            let l = Run::new(h).all();
            ensure!(*t == format!("{:016x} {}", hash_u64s(&l), l.len()), "the same calls give other results in another process ({} {} ch level {})", if h.wav { "wav" } else { "adhoc" }, h.ch, h.level);
            c.count("replays_in_other_process", 1);
        }
    }
    Ok(())
}
