//! C17: the command line tool as a black box.
use super::Prop;
use crate::ad::*;
use crate::ctx::*;
use crate::ensure;
use crate::rng::*;
use crate::sig::{self, Domain};
use crate::wavref::{self, Layout};
use adhoc_audio::Streamable;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const PROPS: &[&Prop] = &[&C17];

pub static C17: Prop = Prop {
    id: "C17",
    quick: 2500,
    thorough: 120000,
    run: c17,
    rule: "Each case creates a scratch directory with 1-40 inputs (150-400 in some) with distinct stems (valid WAV of 8/16 bit with foreign chunks, 1 to 3000 channels, 0 samples and up; valid .adhoc; truncated, empty, foreign-format, missing, directory and other-extension inputs; names with dots, leading and trailing spaces, unicode, bytes that are not UTF-8, shell characters and 230 bytes; inputs given through symbolic links, whose name counts; WAV files of 4-9 million samples in one of 500 cases, of 17-24 million in one of 2000), runs the real binary built from the working tree with random level (also absent and above 10), output directory (given in several spellings and with such names, default, same as input, with older files of the same and other names, or directories that block one output), argument order and 1-8 worker threads, then compares a complete before/after snapshot of every file: outputs exist exactly for the readable inputs, have the right info, frame count and level error, are byte-identical with the output of a run on that input alone, and nothing else changed. Distinct by (file bytes, names, options).",
    assume: &["output names are distinct; extensions are lower-case wav/adhoc", "exit status is not judged; a run must end within 100 s without being killed by a signal"],
    require: &[("runs", 2_000), ("wav_inputs_converted", 4_000), ("adhoc_inputs_converted", 2_000), ("bad_inputs", 3_000), ("single_runs_compared", 3_000), ("runs_with_several_threads", 1_000), ("names_with_dots", 1_000), ("over_1024_channels", 40), ("outputs_overwritten", 300), ("default_output_dir", 200), ("names_not_utf8", 300), ("linked_inputs", 300), ("outputs_blocked", 50), ("over_4m_samples", 3), ("over_17m_samples", 1)],
};

/// a printable form of a file name that no other name has
fn key(p: &Path) -> String {
    let mut s = String::new();
    for c in p.as_os_str().as_bytes().utf8_chunks() {
        s.push_str(&c.valid().replace('\\', "\\\\"));
        for b in c.invalid() {
            s.push_str(&format!("\\x{:02x}", b));
        }
    }
    s
}
/// `stem` with an extension after it
fn named(stem: &OsStr, ext: &str) -> OsString {
    let mut n = stem.to_os_string();
    n.push(".");
    n.push(ext);
    n
}
fn snapshot(dir: &Path, base: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let name = key(p.strip_prefix(base).unwrap());
        if p.is_symlink() {
            // links to the inputs: the link itself must stay, what it points to is listed elsewhere
            let t = std::fs::read_link(&p).map(|t| t.into_os_string().into_vec()).unwrap_or_default();
            out.insert(name, [b"link to ".to_vec(), t].concat());
        } else if p.is_dir() {
            out.insert(format!("{}/", name), vec![]);
            snapshot(&p, base, out);
        } else {
            out.insert(name, std::fs::read(&p).unwrap_or_default());
        }
    }
}
fn exec(args: &[OsString], cwd: &Path, threads: Option<usize>) -> Res {
    let cli = std::env::var("MON_CLI").map_err(|_| "harness: MON_CLI not set".to_string()).unwrap();
    let mut cmd = Command::new(cli);
    cmd.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    if let Some(t) = threads {
        cmd.env("RAYON_NUM_THREADS", t.to_string());
    }
    let mut k = cmd.spawn().expect("cannot start the command line tool");
    let t0 = Instant::now();
    loop {
        if let Some(st) = k.try_wait().map_err(|e| e.to_string())? {
            ensure!(st.code().is_some(), "the tool was killed: {:?}", st);
            return Ok(());
        }
        if t0.elapsed() > Duration::from_secs(100) {
            let _ = k.kill();
            let _ = k.wait();
            return Err("the tool does not end within 100 s".into());
        }
        std::thread::sleep(Duration::from_micros(300));
    }
}
#[derive(Clone)]
enum Kind {
    Wav { rate: u32, ch: usize, samples: Vec<f32>, eight: bool },
    Adhoc { rate: u32, ch: usize, samples: Vec<f32> },
    Bad(&'static str),
}
struct Input {
    path: PathBuf,
    stem: OsString,
    kind: Kind,
}
struct Cleanup(PathBuf);
impl Drop for Cleanup {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn make_wav(r: &mut Rng) -> (Vec<u8>, u32, usize, Vec<f32>, bool) {
    make_wav_sized(r, None)
}
fn make_wav_sized(r: &mut Rng, long: Option<usize>) -> (Vec<u8>, u32, usize, Vec<f32>, bool) {
    let ch = if long.is_some() { r.usize(1, 3) } else if r.chance(1, 40) { *r.pick(&[1024usize, 1025, 1500, 3000]) } else if r.chance(1, 15) { r.usize(9, 200) } else { r.usize(1, 4) };
    let n = if let Some(n) = long { n / ch } else if ch > 200 { r.usize(0, 6) } else { {
        let m = if r.chance(1, 20) { 20_000 } else { 2500 } / ch.min(20);
        r.logsize(0, m)
    } };
    let rate = sig::rate(r);
    let bits = if r.chance(1, 4) { 8u16 } else { 16 };
    let a: Vec<f32> = if ch > 200 || long.is_some() {
        (0..n * ch).map(|_| r.sym() as f32).collect()
    } else {
        sig::audio(r, Domain::Unit, ch, n).data
    };
    let mut data = vec![];
    let mut samples = vec![];
    for x in a {
        if bits == 16 {
            let k = sig::trunc16(x);
            data.extend(k.to_le_bytes());
            samples.push(k as f32 / 32767.0);
        } else {
            let v = ((x * 127.5) + 127.5) as u8;
            data.push(v);
            samples.push(((v as f64 - 127.5) / 127.5) as f32);
        }
    }
    let l = if r.chance(1, 2) { Layout::plain() } else { Layout::random(r) };
    (wavref::build(&l, 1, ch as u16, rate, bits, &data), rate, ch, samples, bits == 8)
}
fn c17(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    let root = PathBuf::from(&c.scratch).join(format!("cli-{}-{}", std::process::id(), idx));
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(root.join("in/sub")).unwrap();
    std::fs::create_dir_all(root.join("cwd")).unwrap();
    let _clean = Cleanup(root.clone());
    let out_style = r.below(5); // 0-2 out, 3 default (cwd), 4 same as inputs
    let out_dir = match out_style {
        3 => root.join("cwd"),
        4 => root.join("in"),
        2 => root.join(OsStr::from_bytes(*r.pick(&[&b"out put"[..], b"out.wav", b"sortie-\xe9", "出力".as_bytes()]))),
        _ => root.join("out"),
    };
    std::fs::create_dir_all(&out_dir).unwrap();
    let many = idx % 250 == 11;
    let count = if many { r.usize(150, 400) } else if r.chance(1, 12) { r.usize(15, 40) } else { r.usize(1, 9) };
    let mut inputs: Vec<Input> = vec![];
    let mut h = vec![];
    for i in 0..count {
        let word = *r.pick(&["a", "song", "take 1", "v1.0", "a.b.c", "x.wav", "y.adhoc", "naïve", "音", "UPPER", "mix-down", "a.1", "a.2", "tape.", "wav", "adhoc", "...", "p%20q", "it's", "\t", "two  spaces ", "*", "[a-z]?", "line\nbreak", "back\\slash", "$HOME", "-dash", "=", "a,b;c", "~"]);
        // stems are distinct: the number comes first or last, at a dot or not
        let stem = match r.below(7) {
            0 => format!("{}{}", i, word),
            1 => format!("{}.{}", word, i),
            2 => format!("common.part.{}", i),
            3 => format!(" {}{} ", i, word),
            4 if r.chance(1, 3) => format!("{}{}", i, "long-name ".repeat(23)),
            _ => format!("{} {}", word, i),
        };
        let stem = if stem.starts_with('.') { format!("n{}", stem) } else { stem };
        let mut stem = OsString::from(stem);
        if r.chance(1, 10) {
            // not UTF-8, as old archives have them
            let mut b = stem.into_vec();
            b.insert(r.usize(0, b.len()), *r.pick(&[0xe9u8, 0xff, 0x80, 0xc3]));
            stem = OsString::from_vec(b);
            c.count("names_not_utf8", stem.to_str().is_none() as u64);
        }
        if inputs.iter().any(|x| x.stem == stem) {
            continue;
        }
        c.count("names_with_dots", stem.as_bytes().contains(&b'.') as u64);
        let dir = match r.below(3) {
            0 => root.join("in/sub"),
            1 if out_style != 3 => root.join("cwd"),
            _ => root.join("in"),
        };
        let (ext, bytes, kind): (&str, Option<Vec<u8>>, Kind) = match if idx % 500 == 7 && i == 0 { 0 } else { r.below(10) } {
            0..=3 => {
                let long = idx % 500 == 7 && i == 0;
                let (b, rate, ch, samples, eight) = if long { let n = if idx % 2000 == 7 { r.usize(17_000_000, 24_000_000) } else { r.usize(4_300_000, 9_000_000) }; make_wav_sized(r, Some(n)) } else { make_wav(r) };
                c.count("over_4m_samples", long as u64);
                c.count("over_17m_samples", (long && idx % 2000 == 7) as u64);
                c.count("over_1024_channels", (ch > 1024) as u64);
                ("wav", Some(b), Kind::Wav { rate, ch, samples, eight })
            }
            4..=6 => {
                let ch = if r.chance(1, 40) { 1100 } else { r.usize(1, 5) };
                c.count("over_1024_channels", (ch > 1024) as u64);
                let n = if ch > 100 { r.usize(1, 5) } else { r.logsize(0, 2500 / ch) };
                let a = if ch > 100 { (0..n * ch).map(|_| r.sym() as f32).collect() } else { sig::audio(r, Domain::Finite, ch, n).data };
                let part = sig::partition(r, n, false);
                let rate = sig::rate(r);
                let mut k = new_codec(rate, ch, r.usize(0, 10) as u32);
                encode_parts(&mut k, &a, ch, &part)?;
                let b = save(&k)?;
                let samples = decode_all(&mut load(&b)?, ch, n * ch + ch)?;
                ("adhoc", Some(b), Kind::Adhoc { rate, ch, samples })
            }
            _ => {
                let k = r.below(9);
                match k {
                    0 => ("wav", None, Kind::Bad("missing")),
                    1 => ("adhoc", None, Kind::Bad("missing")),
                    2 => ("wav", Some(vec![]), Kind::Bad("empty")),
                    3 => ("adhoc", Some(vec![]), Kind::Bad("empty")),
                    4 => {
                        let (b, ..) = make_wav(r);
                        let at = wavref::parse(&b).map(|p| p.data_at).unwrap_or(12);
                        ("wav", Some(b[..r.usize(0, at - 1)].to_vec()), Kind::Bad("wav cut in its header"))
                    }
                    5 => {
                        let a = sig::audio(r, Domain::Unit, 2, 100).data;
                        let mut k = new_codec(8000, 2, 3);
                        k.encode(&a);
                        let b = save(&k)?;
                        ("adhoc", Some(b[..r.usize(0, b.len() - 1)].to_vec()), Kind::Bad("adhoc cut"))
                    }
                    6 => ("wav", Some(wavref::build(&Layout::plain(), *r.pick(&[1u16, 3]), 2, 44100, 32, &[7u8; 80])), Kind::Bad("32 bit wav")),
                    7 => {
                        let (b, ..) = make_wav(r);
                        (*r.pick(&["txt", "mp3", "bak", "WAVX", "flac"]), Some(b), Kind::Bad("other extension"))
                    }
                    _ => (*r.pick(&["wav", "adhoc"]), None, Kind::Bad("directory")),
                }
            }
        };
        let path = dir.join(named(&stem, ext));
        if let Some(b) = &bytes {
            if r.chance(1, 12) {
                // the output is named after the link that was given
                let real = root.join("in").join(format!("real-{}.{}", i, r.pick(&["wav", "adhoc", "bin", "x.y"])));
                std::fs::write(&real, b).unwrap();
                std::os::unix::fs::symlink(&real, &path).unwrap();
                c.count("linked_inputs", 1);
            } else {
                std::fs::write(&path, b).unwrap();
            }
            h.push(hash_bytes(b));
        } else if matches!(kind, Kind::Bad("directory")) {
            std::fs::create_dir_all(&path).unwrap();
        }
        h.push(hash_bytes(path.file_name().unwrap().as_bytes()));
        inputs.push(Input { path, stem, kind });
    }
    // files that were there before
    std::fs::write(out_dir.join("keep.txt"), b"keep").unwrap();
    std::fs::write(root.join("in/bystander.wav"), b"not an input").unwrap();
    let mut blocked: Vec<String> = vec![];
    for i in &inputs {
        if out_style != 4 && r.chance(1, 6) {
            let e = if matches!(i.kind, Kind::Wav { .. }) { "adhoc" } else { "wav" };
            let p = out_dir.join(named(&i.stem, e));
            if p.is_symlink() || p.exists() {
            } else if r.chance(1, 6) {
                // the output cannot be made: the others must not notice
                std::fs::create_dir_all(&p).unwrap();
                blocked.push(key(p.strip_prefix(&root).unwrap()));
                c.count("outputs_blocked", 1);
            } else {
                std::fs::write(p, vec![0x55u8; r.usize(1, 20_000)]).unwrap();
                c.count("outputs_overwritten", !matches!(i.kind, Kind::Bad(_)) as u64);
            }
        }
    }
    let cwd = root.join("cwd");
    let level = match r.below(8) {
        0 => None,
        1 => Some(super::codec::over_10(r)),
        _ => Some(r.below(11) as u32),
    };
    let threads = if r.chance(1, 6) { None } else { Some(r.usize(1, 8)) };
    let level_args: Vec<OsString> = match level {
        None => vec![],
        Some(l) => match r.below(4) {
            0 => vec![format!("--comp-level={}", l).into()],
            1 => vec![format!("-c{}", l).into()],
            _ => vec![r.pick(&["-c", "--comp-level"]).into(), l.to_string().into()],
        },
    };
    let out_args = |r: &mut Rng, d: &Path| -> Vec<OsString> {
        let n = Path::new("..").join(d.file_name().unwrap());
        let v = match r.below(4) {
            0 => d.to_path_buf(),
            1 => d.join(""),
            2 => n.join(&n),
            _ => n,
        };
        let glued = |f: &str| {
            let mut f = OsString::from(f);
            f.push(&v);
            f
        };
        match r.below(4) {
            0 => vec![glued("--outdir=")],
            1 => vec![glued("-o")],
            _ => vec![r.pick(&["-o", "--outdir"]).into(), v.into()],
        }
    };
    let spell = |r: &mut Rng, p: &Path| -> OsString {
        let n = p.file_name().unwrap();
        if p.parent() == Some(&cwd) && r.chance(1, 2) {
            let plain = !n.as_bytes().starts_with(b"-");
            return if plain && r.chance(1, 2) { n.to_os_string() } else { Path::new(".").join(n).into_os_string() };
        }
        if r.chance(1, 2) {
            Path::new("..").join(p.strip_prefix(&root).unwrap()).into_os_string()
        } else {
            p.to_path_buf().into_os_string()
        }
    };
    let mut files: Vec<OsString> = inputs.iter().map(|i| spell(r, &i.path)).collect();
    for i in (1..files.len()).rev() {
        let j = r.usize(0, i);
        files.swap(i, j);
    }
    let mut opts = if out_style == 3 { vec![] } else { out_args(r, &out_dir) };
    if r.chance(1, 2) {
        opts.extend(level_args.clone())
    } else {
        opts = [level_args.clone(), opts].concat()
    }
    let args = if r.chance(1, 2) { [files, opts].concat() } else { [opts, files].concat() };
    c.d(format!("threads {:?} args {:?}", threads, args));
    let mut before = BTreeMap::new();
    snapshot(&root, &root, &mut before);
    exec(&args, &cwd, threads)?;
    let mut after = BTreeMap::new();
    snapshot(&root, &root, &mut after);
    c.count("runs", 1);
    c.count("runs_with_several_threads", threads.map_or(true, |t| t > 1) as u64);
    c.count("default_output_dir", (out_style == 3) as u64);
    let rel = |p: &Path| key(p.strip_prefix(&root).unwrap());
    let mut expected = BTreeMap::new();
    for i in &inputs {
        match i.kind {
            Kind::Wav { .. } => {
                expected.insert(rel(&out_dir.join(named(&i.stem, "adhoc"))), i);
            }
            Kind::Adhoc { .. } => {
                expected.insert(rel(&out_dir.join(named(&i.stem, "wav"))), i);
            }
            Kind::Bad(k) => {
                c.count("bad_inputs", 1);
                c.count(&format!("bad: {}", k), 1);
            }
        }
    }
    expected.retain(|n, _| !blocked.contains(n));
    for (n, b) in &before {
        if !expected.contains_key(n) {
            ensure!(after.contains_key(n), "{} disappeared", n);
            ensure!(after[n] == *b, "{} was changed", n);
        }
    }
    for n in after.keys() {
        ensure!(before.contains_key(n) || expected.contains_key(n), "{} was created, no readable input has that name", n);
    }
    for (n, i) in &expected {
        ensure!(after.contains_key(n), "no output {} for {}", n, rel(&i.path));
        let b = &after[n];
        match &i.kind {
            Kind::Wav { rate, ch, samples, eight } => {
                let mut k = load(b).map_err(|_| format!("output {} does not load", n))?;
                ensure!(k.info().frequency() == *rate as usize && k.info().channels() == *ch, "{}: {} Hz {} ch instead of {} {}", n, k.info().frequency(), k.info().channels(), rate, ch);
                ensure!(k.calculate_sample_count_per_channel() as usize == samples.len() / ch, "{}: {} frames instead of {}", n, k.calculate_sample_count_per_channel(), samples.len() / ch);
                let out = decode_all(&mut k, *ch, samples.len() + ch)?;
                let l = level.unwrap_or(5).min(10);
                // 8-bit audio is loaded within 0.001
                let tol = 0.0011;
                ensure!(out.len() == samples.len(), "{}: {} samples instead of {}", n, out.len(), samples.len());
                let bound = (1u64 << l) as f64 * STEP + if l > 0 { 0.001 } else { 0.0 } + if *eight { tol } else { 2e-6 };
                for j in 0..out.len() {
                    let e = (out[j] as f64 - samples[j] as f64).abs();
                    ensure!(e <= bound, "{}: level {} sample {} is {} for {}", n, l, j, out[j], samples[j]);
                }
                // a level that is not applied shows in the level field
                if let Ok(f) = crate::fmt::parse(b) {
                    ensure!(f.level == l, "{}: written with level {} instead of {}", n, f.level, l);
                }
                c.count("wav_inputs_converted", 1);
            }
            Kind::Adhoc { rate, ch, samples } => {
                let f = wavref::parse(b).map_err(|e| format!("{}: {}", n, e))?;
                ensure!(f.rate == *rate && f.ch as usize == *ch && f.bits == 16 && f.tag == 1, "{}: header {} Hz {} ch {} bits", n, f.rate, f.ch, f.bits);
                let pcm = super::wav::pcm16(&f.data);
                ensure!(pcm.len() == samples.len(), "{}: {} samples instead of {}", n, pcm.len(), samples.len());
                for j in 0..pcm.len() {
                    let e = (pcm[j] as f64 / 32767.0 - (samples[j] as f64).clamp(-1.0, 1.0)).abs();
                    ensure!(e <= STEP + 2e-7, "{}: sample {} is {} for {}", n, j, pcm[j], samples[j]);
                }
                c.count("adhoc_inputs_converted", 1);
            }
            Kind::Bad(_) => {}
        }
    }
    // alone, one thread
    let alone = root.join("alone");
    std::fs::create_dir_all(&alone).unwrap();
    let mut singles: Vec<&Input> = expected.values().copied().collect();
    while singles.len() > 5 {
        let j = r.usize(0, singles.len() - 1);
        singles.swap_remove(j);
    }
    for i in singles {
        let args = [level_args.clone(), vec![i.path.clone().into_os_string(), "-o".into(), alone.clone().into_os_string()]].concat();
        exec(&args, &cwd, Some(1))?;
        let e = if matches!(i.kind, Kind::Wav { .. }) { "adhoc" } else { "wav" };
        let name = named(&i.stem, e);
        let b = std::fs::read(alone.join(&name)).map_err(|_| format!("{} converted alone gives no {}", rel(&i.path), key(Path::new(&name))))?;
        ensure!(b == after[&rel(&out_dir.join(&name))], "{} converted alone differs from the batch's output", rel(&i.path));
        c.count("single_runs_compared", 1);
    }
    h.push(hash_bytes(format!("{:?}{:?}{}", level, threads, out_style).as_bytes()));
    c.sig(hash_u64s(&h));
    Ok(())
}
