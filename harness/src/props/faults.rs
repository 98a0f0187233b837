//! C14: partial and failing I/O.
use super::Prop;
use crate::ad::*;
use crate::ctx::*;
use crate::ensure;
use crate::rng::*;
use crate::sig::{self, Domain};
use crate::wavref::{self, Layout};
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};
use std::io::{self, BufReader, BufWriter, ErrorKind, Read, Seek, Write};

pub const PROPS: &[&Prop] = &[&C14];

const KINDS: [ErrorKind; 9] = [ErrorKind::InvalidData, ErrorKind::WriteZero, ErrorKind::ConnectionReset, ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::PermissionDenied];

/// destination with scripted behaviour
struct Sink {
    got: Vec<u8>,
    r: Rng,
    max: usize,
    interrupt: u64,
    /// stops at this byte
    fail_at: usize,
    zero: bool,
    kind: ErrorKind,
    /// bytes count only once flushed
    pending: Option<Vec<u8>>,
    /// accepts everything again after one failure
    transient: bool,
    /// this many flushes are interrupted before they do anything
    flush_interrupts: u64,
    failed: u64,
    calls: u64,
}
impl Sink {
    fn take(&mut self, n: usize) -> io::Result<usize> {
        let have = self.got.len();
        if have >= self.fail_at && n > 0 {
            self.failed += 1;
            if self.transient {
                self.fail_at = usize::MAX;
            }
            return if self.zero { Ok(0) } else { Err(self.kind.into()) };
        }
        Ok(n.min(self.fail_at - have))
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.r.below(self.interrupt) == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        if let Some(p) = &mut self.pending {
            p.extend(b);
            return Ok(b.len());
        }
        let n = if b.is_empty() { 0 } else { self.r.usize(1, self.max.min(b.len())) };
        let n = self.take(n)?;
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_interrupts > 0 {
            self.flush_interrupts -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if let Some(p) = self.pending.take() {
            let n = self.take(p.len())?;
            self.got.extend(&p[..n]);
            if n < p.len() {
                self.failed += 1;
                return Err(self.kind.into());
            }
            self.pending = Some(vec![]);
        }
        Ok(())
    }
}

/// source with scripted behaviour
struct Source<'a> {
    b: &'a [u8],
    pos: u64,
    r: Rng,
    max: usize,
    interrupt: u64,
    fail_at: u64,
    kind: ErrorKind,
    seek_fail: bool,
    failed: u64,
    reads: u64,
}
impl<'a> Read for Source<'a> {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.interrupt > 0 && self.r.below(self.interrupt) == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        if o.is_empty() {
            return Ok(0);
        }
        if self.pos >= self.fail_at {
            self.failed += 1;
            return Err(self.kind.into());
        }
        let at = (self.pos as usize).min(self.b.len());
        let left = (self.b.len() - at).min((self.fail_at - self.pos).min(1 << 40) as usize);
        if left == 0 {
            return Ok(0);
        }
        let n = self.r.usize(1, self.max.min(left).min(o.len()));
        o[..n].copy_from_slice(&self.b[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl<'a> Seek for Source<'a> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if self.seek_fail {
            self.failed += 1;
            return Err(self.kind.into());
        }
        let p = match s {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.b.len() as i128 + d as i128,
        };
        if p < 0 || p > i64::MAX as i128 {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

enum Any {
    A(AdhocCodec),
    W(WavCodec),
}
impl Any {
    fn save<S: Write>(&self, s: S) -> bool {
        match self {
            Any::A(c) => c.save_to(s).is_some(),
            Any::W(c) => c.save_to(s).is_ok(),
        }
    }
    fn bytes(&self) -> Result<Vec<u8>, String> {
        match self {
            Any::A(c) => save(c),
            Any::W(c) => wav_save(c),
        }
    }
    fn stream(&mut self) -> &mut dyn Streamable {
        match self {
            Any::A(c) => c,
            Any::W(c) => c,
        }
    }
}

pub static C14: Prop = Prop {
    id: "C14",
    quick: 30000,
    thorough: 1500000,
    run: c14,
    rule: "Each case makes a compressed or WAV codec with random audio (or a WAV file with foreign chunks) and compares with an unrestricted save/load: (a) saves through destinations taking pieces of random size, with interruptions, alone, behind BufWriter of random capacity by value, or counting only flushed bytes: must succeed with identical bytes; (b) destinations that fail permanently or once, with an error or Ok(0), at byte F: success only if every byte was accepted, F exhaustive over all bytes of files up to 1500 bytes; interrupted flushes; slices that are too small and /dev/full; (c) loads from sources with pieces, interruptions, BufReader: same codec; (d) sources failing at byte F (exhaustive for small files) or in seek: never a codec that differs from the full one, and failure whenever F is before the end of the audio data. After failures the codec must still save its full bytes. Distinct by (file bytes, fault script).",
    assume: &["bytes behind the audio data chunk of a WAV file, and exactly the end of the file, are not 'needed'"],
    require: &[("saves_in_pieces", 20_000), ("interruptions", 10_000), ("saves_with_failure_injected", 300_000), ("failures_behind_bufwriter", 30_000), ("loads_in_pieces", 20_000), ("loads_with_failure_injected", 300_000), ("seek_failures", 1_000), ("exhaustive_fault_sweeps", 3_000)],
};
fn c14(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let ch = if r.chance(1, 20) { r.usize(9, 255) } else { r.usize(1, 4) };
    let n = r.logsize(0, if idx % 50 == 0 { 30_000 / ch } else { 300 });
    let rate = sig::rate(r);
    let is_wav = r.chance(1, 2);
    let a = sig::audio(r, Domain::Unit, ch, n);
    let part = sig::partition(r, n, false);
    let codec;
    let mut file;
    let mut needed;
    if is_wav {
        let mut w = WavCodec::new(StreamInfo::new(rate, ch as u32));
        encode_parts(&mut w, &a.data, ch, &part)?;
        file = wav_save(&w)?;
        needed = file.len();
        codec = Any::W(w);
        if r.chance(1, 2) {
            // load side: a foreign file with other chunks
            let mut l = Layout::random(r);
            l.omit_final_pad = r.chance(1, 2);
            let bits = *r.pick(&[8u16, 16]);
            let data: Vec<u8> = (0..n * ch * bits as usize / 8).map(|_| r.u64() as u8).collect();
            file = wavref::build(&l, 1, ch as u16, rate, bits, &data);
            let p = wavref::parse(&file).map(|p| p.data_at).unwrap_or(file.len() - data.len());
            needed = p + data.len();
            if data.is_empty() {
                needed = p;
            }
        }
    } else {
        let mut k = new_codec(rate, ch, r.usize(0, 10) as u32);
        encode_parts(&mut k, &a.data, ch, &part)?;
        file = save(&k)?;
        needed = file.len();
        codec = Any::A(k);
    }
    let want = codec.bytes()?;
    let name = if is_wav { "wav" } else { "adhoc" };
    c.d(format!("{} {} saved as {} bytes, load file {} bytes (needs {})", name, a.describe(), want.len(), file.len(), needed));
    let sink = |r: &mut Rng| Sink {
        got: vec![],
        r: r.fork(),
        max: *r.pick(&[1usize, 2, 3, 7, 16, 100, 1000, 1 << 20]),
        interrupt: *r.pick(&[0u64, 0, 2, 3, 10]),
        fail_at: usize::MAX,
        zero: false,
        kind: *r.pick(&KINDS),
        pending: None,
        transient: false,
        flush_interrupts: 0,
        failed: 0,
        calls: 0,
    };
    let save_via = |s: &mut Sink, style: u64, r: &mut Rng| -> bool {
        match style {
            0 | 1 => codec.save(s),
            2 => {
                let cap = *r.pick(&[1usize, 8, 30, 44, 100, 8192, 1 << 20]);
                codec.save(BufWriter::with_capacity(cap, s))
            }
            _ => {
                s.pending = Some(vec![]);
                codec.save(s)
            }
        }
    };
    // (a) pieces and interruptions
    for _ in 0..2 {
        let mut s = sink(r);
        let style = r.below(4);
        let ok = save_via(&mut s, style, r);
        ensure!(ok, "{} save fails through a destination taking pieces of up to {} bytes (interruptions 1 in {}, style {})", name, s.max, s.interrupt, style);
        ensure!(s.got == want, "{} save through pieces reports success but the destination got {} of {} bytes{} (style {})", name, s.got.len(), want.len(), if s.got.len() == want.len() { ", with other content" } else { "" }, style);
        c.count("saves_in_pieces", 1);
        c.count("interruptions", (s.interrupt > 0) as u64);
    }
    // (b) failures
    let exhaustive = want.len() <= 1500 && r.chance(1, 4);
    let cuts: Vec<usize> = if exhaustive { (0..want.len()).collect() } else { (0..20).map(|i| if i < 3 { want.len() - 1 - i.min(want.len() - 1) } else { r.usize(0, want.len() - 1) }).collect() };
    c.count("exhaustive_fault_sweeps", exhaustive as u64);
    for &f in &cuts {
        let mut s = sink(r);
        s.fail_at = f;
        s.max = *r.pick(&[1usize, 16, 1 << 20]);
        s.interrupt = if r.chance(1, 4) { 3 } else { 0 };
        s.zero = r.chance(1, 3);
        s.transient = r.chance(1, 8);
        let style = r.below(4);
        let ok = save_via(&mut s, style, r);
        ensure!(
            !ok || s.got == want,
            "{} save reports success although the destination {} at byte {} of {} ({} bytes accepted, style {})",
            name, if s.zero { "stopped accepting" } else { "failed" }, f, want.len(), s.got.len(), style
        );
        ensure!(s.got[..] == want[..s.got.len().min(want.len())] || s.transient, "{} save wrote other bytes before the failure at {}", name, f);
        c.count("saves_with_failure_injected", 1);
        c.count("failures_behind_bufwriter", (style == 2) as u64);
    }
    // a flush that is interrupted: a failure, or another try
    let mut s = sink(r);
    s.flush_interrupts = 1 + r.below(3);
    let ok = save_via(&mut s, 3, r);
    ensure!(!ok || s.got == want, "{} save reports success although the flush was interrupted and {} of {} bytes arrived", name, s.got.len(), want.len());
    c.count("flushes_interrupted", 1);
    if r.chance(1, 10) {
        let k = r.usize(0, want.len() - 1);
        let mut small = vec![0u8; k];
        ensure!(!codec.save(&mut small[..]), "{} save into a slice of {} bytes reports success for {} bytes", name, k, want.len());
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/full") {
            c.count("dev_full_saves", 1);
            let ok = if r.chance(1, 2) { codec.save(f) } else { codec.save(BufWriter::new(f)) };
            ensure!(!ok, "{} save to /dev/full reports success", name);
        }
    }
    ensure!(codec.bytes()? == want, "{} codec saves other bytes after failed saves", name);
    // (c) loading in pieces
    let open = |s: Source, buffered: usize| -> Option<Any> {
        if is_wav {
            if buffered > 0 {
                WavCodec::load(BufReader::with_capacity(buffered, s)).ok().map(Any::W)
            } else {
                WavCodec::load(s).ok().map(Any::W)
            }
        } else if buffered > 0 {
            AdhocCodec::load(BufReader::with_capacity(buffered, s)).map(Any::A)
        } else {
            AdhocCodec::load(s).map(Any::A)
        }
    };
    let mut full = if is_wav { Any::W(wav_load(&file)?) } else { Any::A(load(&file)?) };
    let full_bytes = full.bytes()?;
    let full_audio = decode_all(full.stream(), ch, n * ch + ch)?;
    ensure!(full_audio.len() == n * ch, "{} load from memory delivers {} of {} samples", name, full_audio.len(), n * ch);
    let source = |r: &mut Rng| Source {
        b: &file,
        pos: 0,
        r: r.fork(),
        max: *r.pick(&[1usize, 2, 3, 5, 11, 100, 1000, 1 << 20]),
        interrupt: *r.pick(&[0u64, 0, 2, 3, 10]),
        fail_at: u64::MAX,
        kind: *r.pick(&KINDS),
        seek_fail: false,
        failed: 0,
        reads: 0,
    };
    let buffering = |r: &mut Rng| if r.chance(1, 3) { *r.pick(&[1usize, 3, 16, 100, 8192]) } else { 0 };
    for _ in 0..2 {
        let s = source(r);
        let (max, int, buf) = (s.max, s.interrupt, buffering(r));
        let mut l = open(s, buf).ok_or_else(|| format!("{} load fails from a source delivering pieces of up to {} bytes (interruptions 1 in {}, buffer {})", name, max, int, buf))?;
        ensure!(l.bytes()? == full_bytes, "{} load in pieces of up to {} bytes gives another codec than from memory", name, max);
        same(&decode_all(l.stream(), ch, n * ch + ch)?, &full_audio).map_err(|e| format!("{} load in pieces: {}", name, e))?;
        c.count("loads_in_pieces", 1);
    }
    // (d) failing sources
    let ex = file.len() <= 1500 && r.chance(1, 4);
    let cuts: Vec<usize> = if ex { (0..file.len()).collect() } else { (0..20).map(|i| if i < 3 { needed - 1 - i } else { r.usize(0, file.len() - 1) }).collect() };
    for &f in &cuts {
        let mut s = source(r);
        s.fail_at = f as u64;
        s.max = *r.pick(&[1usize, 16, 1 << 20]);
        s.interrupt = if r.chance(1, 4) { 3 } else { 0 };
        let (buf, kind) = (buffering(r), s.kind);
        if let Some(l) = open(s, buf) {
            ensure!(f >= needed, "{} load succeeds although its source fails ({:?}) at byte {} of {} needed (buffer {})", name, kind, f, needed, buf);
            ensure!(l.bytes()? == full_bytes, "{} load from a source failing at byte {} gives another codec", name, f);
        }
        c.count("loads_with_failure_injected", 1);
    }
    if is_wav {
        let mut s = source(r);
        s.seek_fail = true;
        if let Some(l) = open(s, 0) {
            ensure!(l.bytes()? == full_bytes, "wav load with a failing seek gives another codec");
        }
        c.count("seek_failures", 1);
    }
    c.sig(hash_u64s(&[hash_bytes(&file), hash_bytes(&want), r.u64()]));
    Ok(())
}
