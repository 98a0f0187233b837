//! Runtime monitors for adhoc_audio. See /verif/DESIGN.md.
mod ad;
mod ctx;
mod fmt;
mod portexec;
mod props;
mod rng;
mod sig;
#[allow(dead_code)]
mod value;
mod wavref;

use ctx::*;
use rng::*;
use std::collections::BTreeMap;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[cfg(not(any(miri, feature = "plainalloc")))]
#[global_allocator]
static G: Counting = Counting;

#[cfg(not(miri))]
extern "C" {
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}
#[cfg(miri)]
fn cpu_ms() -> u64 {
    0
}
#[cfg(not(miri))]
fn cpu_ms() -> u64 {
    let mut ts = [0i64; 2];
    // CLOCK_PROCESS_CPUTIME_ID
    unsafe { clock_gettime(2, &mut ts) };
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

const CASE_CPU_LIMIT_MS: u64 = 30_000;
static CASE_START: AtomicU64 = AtomicU64::new(0);
/// extra CPU time for a case that is large on purpose
pub static CASE_EXTRA_MS: AtomicU64 = AtomicU64::new(0);

struct Opt(BTreeMap<String, String>);
impl Opt {
    fn s(&self, k: &str) -> String {
        self.0.get(k).cloned().unwrap_or_default()
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

thread_local! { static PANIC_AT: std::cell::RefCell<String> = Default::default(); }

fn case_rng(seed: u64, prop: &str, idx: u64) -> Rng {
    Rng::new(hash_u64s(&[seed, hash_bytes(prop.as_bytes()), idx]))
}

fn run_case(c: &mut Ctx, p: &props::Prop, seed: u64, idx: u64) -> Res {
    c.desc.clear();
    CASE_EXTRA_MS.store(0, SeqCst);
    CASE_START.store(cpu_ms(), SeqCst);
    let mut r = case_rng(seed, p.id, idx);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(c, &mut r, idx)));
    c.evals += 1;
    match res {
        Ok(x) => x,
        Err(_) => Err(format!("panicked: {}", PANIC_AT.with(|p| p.borrow().clone()))),
    }
}

fn setup_process() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("{} at {}", m, at);
        // panics that cannot be caught (unsafe preconditions, mainly) end the process
        if m.contains("unsafe precondition") {
            eprintln!("panic: {}", s);
        }
        PANIC_AT.with(|p| *p.borrow_mut() = s.clone());
        if std::env::var("MON_VERBOSE").is_ok() {
            eprintln!("panic: {}", s);
        }
    }));
}

fn limits(mb: u64) {
    #[cfg(not(miri))]
    if mb > 0 {
        unsafe {
            setrlimit(9, &[mb << 20, mb << 20]); // RLIMIT_AS
            setrlimit(4, &[0, 0]); // RLIMIT_CORE
        }
    }
}

fn worker(o: &Opt) -> i32 {
    let p = props::find(&o.s("prop"));
    let (seed, shard, shards) = (o.n("seed", 1), o.n("shard", 0), o.n("shards", 1));
    let (cases, cap) = (o.n("cases", 100), o.n("cap", 100));
    let dir = o.s("dir");
    limits(memory(o));
    setup_process();
    let cur = std::fs::File::create(format!("{}/cur.{}", dir, shard)).unwrap();
    let curc = cur.try_clone().unwrap();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(300));
        let s = CASE_START.load(SeqCst);
        if s != 0 && cpu_ms().saturating_sub(s) > CASE_CPU_LIMIT_MS + CASE_EXTRA_MS.load(SeqCst) {
            let _ = curc.write_at(&u64::MAX.to_le_bytes(), 8);
            std::process::exit(11);
        }
    });
    let mut c = Ctx { thorough: o.s("tier") == "thorough", seed, scratch: dir.clone(), ..Default::default() };
    let t0 = Instant::now();
    let mut idx = shard;
    let mut stopped = false;
    let mut viol = vec![];
    while idx < cases {
        if t0.elapsed().as_secs() >= cap {
            stopped = true;
            break;
        }
        cur.write_at(&idx.to_le_bytes(), 0).unwrap();
        if let Err(m) = run_case(&mut c, p, seed, idx) {
            viol.push((idx, m, c.desc.clone()));
            break;
        }
        if c.samples.len() < 3 && !c.desc.is_empty() && (idx / shards) % 7 == 0 {
            let mut s = format!("case {}: {}", idx, c.desc);
            s.truncate(600);
            c.samples.push(s);
        }
        idx += shards;
    }
    CASE_START.store(0, SeqCst);
    // stats
    let mut f = std::fs::File::create(format!("{}/out.{}", dir, shard)).unwrap();
    writeln!(f, "evals {}", c.evals).unwrap();
    writeln!(f, "stopped {}", stopped as u8).unwrap();
    for (k, v) in &c.counters {
        writeln!(f, "count {} {}", v, k).unwrap();
    }
    for s in &c.samples {
        writeln!(f, "sample {}", s.replace('\n', " ")).unwrap();
    }
    for (i, m, d) in &viol {
        writeln!(f, "viol {} {}\u{1f}{}", i, m.replace('\n', " "), d.replace('\n', " ")).unwrap();
    }
    let mut b = Vec::with_capacity(c.sigs.len() * 8);
    for s in &c.sigs {
        b.extend(s.to_le_bytes());
    }
    std::fs::write(format!("{}/sig.{}", dir, shard), b).unwrap();
    0
}

/// consecutive cases in this process, without supervision (for interpreters)
fn plain(o: &Opt) -> i32 {
    let p = props::find(&o.s("prop"));
    setup_process();
    let seed = o.n("seed", 1);
    let mut c = Ctx { seed, ..Default::default() };
    let t0 = Instant::now();
    let mut idx = o.n("from", 0);
    let step = o.n("step", 1);
    let (to, cap) = (o.n("to", 10), o.n("cap", 100));
    while idx < to && t0.elapsed().as_secs() < cap {
        // the last line of this kind names the case the interpreter stopped in
        println!("CASE {} {:.1}", idx, t0.elapsed().as_secs_f64());
        if let Err(m) = run_case(&mut c, p, seed, idx) {
            println!("VIOLATED case {}: {}", idx, m);
            return 10;
        }
        idx += step;
    }
    for (k, v) in &c.counters {
        println!("COUNT {} {}", v, k);
    }
    for s in &c.sigs {
        println!("SIG {:016x}", s);
    }
    println!("DONE {}", c.evals);
    0
}

fn single(o: &Opt) -> i32 {
    let p = props::find(&o.s("prop"));
    limits(memory(o));
    setup_process();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(300));
        let s = CASE_START.load(SeqCst);
        if s != 0 && cpu_ms().saturating_sub(s) > CASE_CPU_LIMIT_MS + CASE_EXTRA_MS.load(SeqCst) {
            println!("case does not terminate within {} ms of CPU time", CASE_CPU_LIMIT_MS + CASE_EXTRA_MS.load(SeqCst));
            std::process::exit(11);
        }
    });
    let scratch = o.s("dir");
    let mut c = Ctx { thorough: o.s("tier") == "thorough", seed: o.n("seed", 1), scratch: if scratch.is_empty() { std::env::temp_dir().display().to_string() } else { scratch }, ..Default::default() };
    let r = run_case(&mut c, p, o.n("seed", 1), o.n("idx", 0));
    println!("{} seed {} case {}\n{}", p.id, o.n("seed", 1), o.n("idx", 0), c.desc);
    match r {
        Ok(()) => {
            println!("HELD");
            0
        }
        Err(m) => {
            println!("VIOLATED {}", m);
            10
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// C28 leaves room for Node
fn memory(o: &Opt) -> u64 {
    // C28's Node reserves address space, C09 has a recording of 4 GB that grows
    let d = match o.s("prop").as_str() {
        "C28" => 0,
        "C09" => 14_000,
        _ => 6000,
    };
    o.n("mem", d)
}
fn run(o: &Opt) -> i32 {
    let p = props::find(&o.s("prop"));
    let seed = o.n("seed", 1);
    let tier = if o.s("tier") == "thorough" { "thorough" } else { "quick" };
    let t0 = Instant::now();
    let shards = o.n("shards", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)).max(1);
    let (dc, cap) = if tier == "thorough" { (p.thorough, o.n("cap", 700)) } else { (p.quick, o.n("cap", 90)) };
    let cases = o.n("cases", dc);
    // the Node process of C28 reserves far more address space than it uses
    let mem = memory(o);
    let dir = std::env::temp_dir().join(format!("mon-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let ds = dir.display().to_string();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for s in 0..shards {
        let child = Command::new(&exe)
            .args(["worker", "--prop", p.id, "--seed", &seed.to_string(), "--tier", tier])
            .args(["--shard", &s.to_string(), "--shards", &shards.to_string(), "--cases", &cases.to_string()])
            .args(["--cap", &cap.to_string(), "--dir", &ds, "--mem", &mem.to_string()])
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(dir.join(format!("err.{}", s))).unwrap())
            .process_group(0)
            .spawn()
            .unwrap();
        kids.push((s, child, false));
    }
    let mut crashes = vec![];
    // workers stop by themselves at `cap`; one case may run on for at most its CPU limit
    let deadline = Duration::from_secs(cap + 200);
    loop {
        let mut live = 0;
        for (s, k, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            match k.try_wait().unwrap() {
                Some(st) => {
                    *done = true;
                    if !st.success() {
                        crashes.push((*s, st));
                    }
                }
                None => live += 1,
            }
        }
        if live == 0 {
            break;
        }
        if t0.elapsed() > deadline {
            for (_, k, done) in kids.iter_mut() {
                if !*done {
                    let _ = k.kill();
                }
            }
            println!("INCONCLUSIVE property={} wall-clock watchdog", p.id);
            let _ = std::fs::remove_dir_all(&dir);
            return 2;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut viol: Vec<(u64, String, String)> = vec![];
    let mut inconclusive = vec![];
    for (s, st) in &crashes {
        // two confirmed deaths are enough (each may take its whole CPU limit again)
        if viol.len() >= 2 {
            break;
        }
        let b = std::fs::read(dir.join(format!("cur.{}", s))).unwrap_or_default();
        if b.len() < 8 {
            inconclusive.push(format!("shard {} died before its first case: {:?}", s, st));
            continue;
        }
        let idx = u64::from_le_bytes(b[..8].try_into().unwrap());
        // confirm alone
        let out = Command::new(&exe)
            .args(["case", "--prop", p.id, "--seed", &seed.to_string(), "--tier", tier, "--idx", &idx.to_string()])
            .args(["--dir", &ds, "--mem", &mem.to_string()])
            .output()
            .unwrap();
        let text = format!("{}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
        let tail: String = text.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
        if out.status.code() == Some(0) {
            inconclusive.push(format!("case {} died ({:?}) but not when repeated alone", idx, st));
        } else {
            let how = match (out.status.code(), out.status.signal()) {
                (Some(11), _) => "does not terminate".to_string(),
                (Some(c), _) => format!("exit code {}", c),
                (_, Some(sig)) => format!("killed by signal {}", sig),
                _ => "died".into(),
            };
            viol.push((idx, format!("process died: {}", how), tail));
        }
    }
    // merge
    let (mut evals, mut stopped) = (0u64, false);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut sigs = std::collections::HashSet::new();
    for s in 0..shards {
        let txt = std::fs::read_to_string(dir.join(format!("out.{}", s))).unwrap_or_default();
        for l in txt.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "evals" => evals += v.parse::<u64>().unwrap_or(0),
                "stopped" => stopped |= v == "1",
                "count" => {
                    let (n, k) = v.split_once(' ').unwrap();
                    let (x, n) = (counters.entry(k.to_string()).or_default(), n.parse::<u64>().unwrap());
                    *x = if k.ends_with("_max") { (*x).max(n) } else { *x + n };
                }
                "sample" => samples.push(v.to_string()),
                "viol" => {
                    let (i, rest) = v.split_once(' ').unwrap();
                    let (m, d) = rest.split_once('\u{1f}').unwrap_or((rest, ""));
                    viol.push((i.parse().unwrap(), m.to_string(), d.to_string()));
                }
                _ => {}
            }
        }
        let b = std::fs::read(dir.join(format!("sig.{}", s))).unwrap_or_default();
        for w in b.chunks_exact(8) {
            sigs.insert(u64::from_le_bytes(w.try_into().unwrap()));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    samples.truncate(6);
    viol.sort();
    // trouble of the harness itself is no verdict
    viol.retain(|(i, m, _)| {
        let h = m.starts_with("harness:");
        if h {
            inconclusive.push(format!("case {}: {}", i, m));
        }
        !h
    });
    // a run that observed too little proves nothing
    let mut missing = vec![];
    if viol.is_empty() && !stopped && cases >= p.quick {
        for (k, min) in p.require {
            let got = counters.get(*k).copied().unwrap_or(0);
            if got < *min {
                missing.push(format!("{}={} (need {})", k, got, min));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::new();
    j.push_str(&format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"stopped_by_time_cap\": {},\n  \"observed\": {{{}}}\n }},\n",
        json_str(p.id), json_str(tier), seed, if p.id == "C14" { "fault_enumeration" } else { "exploration" }, evals, sigs.len(), json_str(p.rule),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        stopped,
        counters.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")
    ));
    j.push_str(&format!(
        " \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        p.assume.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall,
        viol.len()
    ));
    if o.0.contains_key("evidence") {
        let _ = std::fs::create_dir_all(std::path::Path::new(&o.s("evidence")).parent().unwrap());
        std::fs::write(o.s("evidence"), &j).unwrap();
    } else {
        print!("{}", j);
    }
    if !viol.is_empty() {
        let rd = if o.s("replays").is_empty() { "/tmp".to_string() } else { o.s("replays") };
        let _ = std::fs::create_dir_all(&rd);
        for (k, (idx, m, d)) in viol.iter().enumerate() {
            let path = format!("{}/{}-seed{}-case{}.txt", rd, p.id, seed, idx);
            let _ = std::fs::write(
                &path,
                format!("property {}\nrerun: MON_DICT='{}' monitor case --prop {} --seed {} --tier {} --idx {}\nfailure: {}\ncase: {}\n", p.id, std::env::var("MON_DICT").unwrap_or_default(), p.id, seed, tier, idx, m, d),
            );
            if k < 5 {
                println!("case {}: {}", idx, m.chars().take(500).collect::<String>());
                println!("VIOLATION property={} replay={}", p.id, path);
            }
        }
        return 1;
    }
    if !inconclusive.is_empty() || !missing.is_empty() {
        println!("INCONCLUSIVE property={} {:?} {:?}", p.id, inconclusive, missing);
        return 2;
    }
    println!("HELD property={} on {} cases ({} distinct) in {:.1}s", p.id, evals, sigs.len(), wall);
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut m = BTreeMap::new();
    let mut i = 2;
    while i + 1 < a.len() {
        m.insert(a[i].trim_start_matches("--").to_string(), a[i + 1].clone());
        i += 2;
    }
    let o = Opt(m);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&o),
        Some("worker") => worker(&o),
        Some("case") => single(&o),
        Some("plain") => plain(&o),
        Some("transcript") => props::isolation::transcript_main(o.n("seed", 1)),
        Some("list") => {
            for p in props::all() {
                println!("{} quick {} thorough {}", p.id, p.quick, p.thorough)
            }
            0
        }
        _ => {
            eprintln!("usage: monitor run|case|list --prop ID --seed N --tier quick|thorough");
            2
        }
    };
    std::process::exit(code);
}
