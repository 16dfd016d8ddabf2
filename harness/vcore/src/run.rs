//! Supervisor/worker runner: deterministic case streams split over worker processes, crash and
//! hang attribution, shrinking, replay files, evidence, known findings.
use crate::src::{hash_str, mix, shrink, Src};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub enum Out {
    /// checked; `nontrivial` by the property's rule; `key` identifies the case for distinctness
    Pass { nontrivial: bool, key: u64 },
    Discard,
    Fail { sig: String, msg: String },
}
impl Out {
    pub fn fail(sig: impl Into<String>, msg: impl Into<String>) -> Out {
        Out::Fail { sig: sig.into(), msg: msg.into() }
    }
}

#[derive(Default)]
pub struct Cx {
    pub repr: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    pub quiet: bool,
}
impl Cx {
    pub fn note(&mut self, s: impl Into<String>) {
        self.repr.push(s.into());
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn key(&self) -> u64 {
        let mut h = 0u64;
        for s in &self.repr {
            h = mix(h, hash_str(s));
        }
        h
    }
    pub fn pass(&self, nontrivial: bool) -> Out {
        Out::Pass { nontrivial, key: self.key() }
    }
}

pub type CaseFn = fn(&mut Src, &mut Cx) -> Out;

pub struct Stage {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

/// One fixed input, kept as a regression for a repaired or known defect.
pub struct Pinned {
    pub key: &'static str,
    pub f: fn() -> Result<(), String>,
}

pub struct Spec {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub stages: Vec<Stage>,
    pub pinned: Vec<Pinned>,
    /// CPU seconds after which one case counts as not returning
    pub cpu_limit: u64,
    /// number of threads that the case function itself uses (0/1: single); lowers the workers
    pub threads: usize,
    /// outcomes depend on thread scheduling: a case that failed once is re-run several times, and
    /// a crash or deadlock counts even if no re-run repeats it
    pub concurrent: bool,
    pub level: &'static str,
}
impl Spec {
    pub fn new(id: &'static str, rule: &'static str) -> Spec {
        Spec { id, rule, assumptions: &[], stages: vec![], pinned: vec![], cpu_limit: 20, threads: 1, concurrent: false, level: "exploration" }
    }
    pub fn stage(mut self, name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Self {
        self.stages.push(Stage { name, quick, thorough, f });
        self
    }
    pub fn pin(mut self, key: &'static str, f: fn() -> Result<(), String>) -> Self {
        self.pinned.push(Pinned { key, f });
        self
    }
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| std::env::current_dir().unwrap())
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = PANIC_MSG.lock() {
            *g = format!("{msg} at {loc}");
        }
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.lock().map(|g| g.clone()).unwrap_or_default()
}

/// Run `f`, turning a panic into Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(last_panic()),
    }
}

fn run_case(st: &Stage, s: &mut Src, cx: &mut Cx) -> Out {
    match guard(|| (st.f)(s, cx)) {
        Ok(o) => o,
        Err(m) => {
            let loc = m.rsplit(" at ").next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
            let _ = loc;
            Out::Fail { sig: "panic".into(), msg: format!("panicked: {m}") }
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0xd800..0xe000).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

extern "C" {
    fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
}
fn limits(mem: u64) {
    unsafe {
        setrlimit(9, &[mem, mem]); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // no core files
    }
}

fn on_big_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    // main threads of ordinary programs have 8 MiB
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap()
}

// ---------------------------------------------------------------- worker

struct FailRec {
    stage: String,
    index: u64,
    sig: String,
    msg: String,
    choices: Vec<u64>,
    repr: Vec<String>,
}

fn write_replay(path: &Path, id: &str, f: &FailRec) {
    let mut o = String::new();
    o.push_str(&format!("property {id}\nstage {}\nsig {}\nchoices", f.stage, f.sig));
    for c in &f.choices {
        o.push_str(&format!(" {c}"));
    }
    o.push_str(&format!("\nindex {}\n# what failed: {}\n", f.index, f.msg.replace('\n', "\n#   ")));
    for r in &f.repr {
        o.push_str(&format!("# case: {}\n", r.replace('\n', "\n#   ")));
    }
    let _ = std::fs::write(path, o);
}
fn read_replay(path: &Path) -> Option<(String, String, Vec<u64>)> {
    let t = std::fs::read_to_string(path).ok()?;
    let (mut st, mut sig, mut ch) = (String::new(), String::new(), vec![]);
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("stage ") {
            st = x.into();
        } else if let Some(x) = l.strip_prefix("sig ") {
            sig = x.into();
        } else if let Some(x) = l.strip_prefix("choices") {
            ch = x.split_whitespace().filter_map(|v| v.parse().ok()).collect();
        }
    }
    Some((st, sig, ch))
}

fn case_seed(id: &str, stage: &str, i: u64) -> u64 {
    mix(mix(seed(), hash_str(&format!("{id}/{stage}"))), i)
}

fn worker(spec: Spec, k: u64, n: u64, dir: PathBuf, budget_s: u64, skip: Vec<(usize, u64)>) {
    limits(4 << 30);
    install_hook();
    let t0 = Instant::now();
    let prog = std::fs::File::create(dir.join(format!("w{k}.prog"))).unwrap();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let (mut evals, mut discards) = (0u64, 0u64);
    let mut per_stage: BTreeMap<&'static str, (u64, u64)> = BTreeMap::new();
    let mut complete = true;
    'stages: for (si, st) in spec.stages.iter().enumerate() {
        let total = if thorough() { st.thorough } else { st.quick };
        let mut stage_samples = 0;
        let mut i = k;
        while i < total {
            if t0.elapsed().as_secs() > budget_s {
                complete = false;
                break 'stages;
            }
            if skip.contains(&(si, i)) {
                i += n;
                continue;
            }
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(si as u64).to_le_bytes());
            b[8..].copy_from_slice(&i.to_le_bytes());
            let _ = prog.write_all_at(&b, 0);
            let mut s = Src::random(case_seed(spec.id, st.name, i));
            let mut cx = Cx::default();
            match run_case(st, &mut s, &mut cx) {
                Out::Pass { nontrivial, key } => {
                    evals += 1;
                    let e = per_stage.entry(st.name).or_insert((0, 0));
                    e.0 += 1;
                    if nontrivial {
                        e.1 += 1;
                        if keys.insert(mix(key, si as u64)) && stage_samples < 1 && k < 3 {
                            stage_samples += 1;
                            samples.push(format!("[{}] {}", st.name, cx.repr.join(" | ")));
                        }
                    }
                    for (k, v) in cx.counts {
                        *counts.entry(k).or_insert(0) += v;
                    }
                }
                Out::Discard => {
                    discards += 1;
                    for (k, v) in cx.counts {
                        *counts.entry(k).or_insert(0) += v;
                    }
                }
                Out::Fail { sig, msg } if std::env::var_os("VERIF_EXPLORE").is_some() => {
                    // development aid: list failing cases and carry on
                    let m: String = msg.chars().take(400).collect();
                    let line = format!("EXPLORE [{}] {sig}: {} => {m}", st.name, cx.repr.join(" | ")).replace('\n', " / ") + "\n";
                    let _ = std::io::stderr().write_all(line.as_bytes());
                }
                Out::Fail { sig, msg } => {
                    // confirm deterministically, then shrink
                    let first = s.taken.clone();
                    let t1 = Instant::now();
                    let best = shrink(first, 3000, |c| {
                        if t1.elapsed().as_secs() > 40 {
                            return None;
                        }
                        let mut s = Src::replay(c.to_vec());
                        let mut cx = Cx { quiet: true, ..Default::default() };
                        match run_case(st, &mut s, &mut cx) {
                            Out::Fail { sig: s2, .. } if s2 == sig => Some(s.taken),
                            _ => None,
                        }
                    });
                    let mut s = Src::replay(best.clone());
                    let mut cx2 = Cx::default();
                    let (msg, repr) = match run_case(st, &mut s, &mut cx2) {
                        Out::Fail { msg, .. } => (msg, cx2.repr),
                        _ => (format!("{msg} (did not fail again when re-run in this process)"), cx.repr),
                    };
                    let rec = FailRec { stage: st.name.into(), index: i, sig, msg, choices: best, repr };
                    let p = dir.join(format!("w{k}.fail"));
                    write_replay(&dir.join(format!("w{k}.fail.tmp")), spec.id, &rec);
                    let _ = std::fs::rename(dir.join(format!("w{k}.fail.tmp")), p);
                    std::process::exit(3);
                }
            }
            i += n;
        }
    }
    let mut o = String::new();
    o.push_str(&format!("evals {evals}\ndiscards {discards}\ncomplete {}\n", complete as u8));
    for (k, v) in &counts {
        o.push_str(&format!("count {v} {k}\n"));
    }
    for (k, v) in &per_stage {
        o.push_str(&format!("stage {} {} {k}\n", v.0, v.1));
    }
    for s in &samples {
        o.push_str(&format!("sample {}\n", s.replace('\n', " / ")));
    }
    let mut hb: Vec<u8> = Vec::with_capacity(keys.len() * 8);
    for k in &keys {
        hb.extend_from_slice(&k.to_le_bytes());
    }
    let _ = std::fs::write(dir.join(format!("w{k}.keys")), hb);
    let _ = std::fs::write(dir.join(format!("w{k}.stats")), o);
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

// ---------------------------------------------------------------- supervisor

fn cpu_of(pid: u32) -> Option<f64> {
    let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let r = t.rsplit(')').next()?;
    let f: Vec<&str> = r.split_whitespace().collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let s: f64 = f.get(12)?.parse().ok()?;
    Some((u + s) / 100.0)
}

fn read_prog(dir: &Path, k: usize) -> Option<(usize, u64)> {
    let b = std::fs::read(dir.join(format!("w{k}.prog"))).ok()?;
    if b.len() < 16 {
        return None;
    }
    Some((u64::from_le_bytes(b[..8].try_into().unwrap()) as usize, u64::from_le_bytes(b[8..16].try_into().unwrap())))
}

enum Ended {
    Pass,
    Fail(String, String),
    Crash(String),
    Hang,
}

/// Run one case in a fresh process. A case that outlives `cpu` CPU seconds is a hang.
fn run_child(args: &[String], cpu: u64) -> Ended {
    let exe = std::env::current_exe().unwrap();
    let mut c = match Command::new(exe).args(args).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => return Ended::Fail("spawn".into(), e.to_string()),
    };
    let mut so = c.stdout.take().unwrap();
    let mut se = c.stderr.take().unwrap();
    let h1 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut so, &mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let h2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut se, &mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t0 = Instant::now();
    let st = loop {
        if let Ok(Some(s)) = c.try_wait() {
            break s;
        }
        if cpu_of(c.id()).unwrap_or(0.0) > cpu as f64 || t0.elapsed().as_secs() > cpu * 4 + 60 {
            let _ = c.kill();
            let _ = c.wait();
            return Ended::Hang;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 3 } else { 50 }));
    };
    let out = h1.join().unwrap_or_default();
    let err = h2.join().unwrap_or_default();
    if let Some(sig) = st.signal() {
        return Ended::Crash(format!("signal {sig}: {}", err.lines().rev().take(3).collect::<Vec<_>>().join(" / ")));
    }
    match st.code() {
        Some(0) => Ended::Pass,
        Some(3) => {
            let mut it = out.splitn(2, '\n');
            let sig = it.next().unwrap_or("").to_string();
            Ended::Fail(sig, it.next().unwrap_or("").trim_end().to_string())
        }
        c => Ended::Crash(format!("exit status {c:?}: {}", err.lines().last().unwrap_or(""))),
    }
}

fn known_keys(id: &str) -> Vec<(String, String)> {
    // lines: "known: property=<id> key=<key> <what fails>"
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(3, ' ');
            if it.next() == Some(id) {
                if let Some(k) = it.next().and_then(|k| k.strip_prefix("key=")) {
                    v.push((k.to_string(), it.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    v
}

pub fn main_with(make: fn() -> Spec) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("--worker") {
        let k: u64 = args[1].parse().unwrap();
        let n: u64 = args[2].parse().unwrap();
        let dir = PathBuf::from(&args[3]);
        let budget: u64 = args[4].parse().unwrap();
        let skip = args
            .get(5)
            .map(|s| {
                s.split(',')
                    .filter(|x| !x.is_empty())
                    .map(|x| {
                        let (a, b) = x.split_once(':').unwrap();
                        (a.parse().unwrap(), b.parse().unwrap())
                    })
                    .collect()
            })
            .unwrap_or_default();
        on_big_stack(move || worker(make(), k, n, dir, budget, skip));
        return;
    }
    if matches!(args.first().map(String::as_str), Some("--single" | "--choices" | "--replay")) {
        let a = args.clone();
        on_big_stack(move || single(make(), &a));
        return;
    }
    if args.first().map(String::as_str) == Some("--pinned") {
        let key = args[1].clone();
        on_big_stack(move || {
            limits(6 << 30);
            install_hook();
            let spec = make();
            let p = spec.pinned.iter().find(|p| p.key == key).expect("pinned key");
            match guard(|| (p.f)()) {
                Ok(Ok(())) => std::process::exit(0),
                Ok(Err(m)) => {
                    println!("pinned\n{m}");
                    std::process::exit(3)
                }
                Err(m) => {
                    println!("pinned\npanicked: {m}");
                    std::process::exit(3)
                }
            }
        });
        return;
    }
    supervise(make());
}

fn single(spec: Spec, args: &[String]) {
    limits(4 << 30);
    install_hook();
    let (st, mut s, want): (&Stage, Src, Option<String>) = match args[0].as_str() {
        "--single" => {
            let si: usize = args[1].parse().unwrap();
            let i: u64 = args[2].parse().unwrap();
            let st = &spec.stages[si];
            (st, Src::random(case_seed(spec.id, st.name, i)), None)
        }
        _ => {
            let (stn, sig, ch) = read_replay(Path::new(&args[1])).expect("replay file");
            if let Some(key) = stn.strip_prefix("pinned:") {
                let p = spec.pinned.iter().find(|p| p.key == key).expect("pinned key");
                let r = guard(|| (p.f)()).unwrap_or_else(|m| Err(format!("panicked: {m}")));
                match r {
                    Ok(()) => println!("no longer fails"),
                    Err(m) => {
                        println!("still fails: {m}");
                        std::process::exit(1)
                    }
                }
                return;
            }
            let st = spec.stages.iter().find(|s| s.name == stn).expect("stage");
            (st, Src::replay(ch), Some(sig))
        }
    };
    let human = args[0] == "--replay";
    let mut cx = Cx::default();
    let mut o = run_case(st, &mut s, &mut cx);
    if spec.concurrent {
        // schedules differ between runs
        for _ in 0..200 {
            if !matches!(o, Out::Pass { .. }) {
                break;
            }
            s = Src::replay(s.taken.clone());
            cx = Cx::default();
            o = run_case(st, &mut s, &mut cx);
        }
    }
    if let Some(p) = args.get(3).or(if args[0] == "--choices" { args.get(2) } else { None }) {
        // also report the choices taken and the case text
        let mut t = String::new();
        for c in &s.taken {
            t.push_str(&format!("{c} "));
        }
        t.push('\n');
        t.push_str(&cx.repr.join("\n"));
        let _ = std::fs::write(p, t);
    }
    if human {
        for r in &cx.repr {
            println!("case: {r}");
        }
    }
    match o {
        Out::Fail { sig, msg } => {
            if human {
                println!("still fails [{sig}]{}: {msg}", if want.as_deref() == Some(&sig) { "" } else { " (different signature)" });
                std::process::exit(1);
            }
            println!("{sig}\n{msg}");
            std::process::exit(3);
        }
        _ => {
            if human {
                println!("no longer fails");
            }
            std::process::exit(0);
        }
    }
}

fn supervise(spec: Spec) {
    let t0 = Instant::now();
    let vd = verif_dir();
    let tier = if thorough() { "thorough" } else { "quick" };
    let dir = std::env::temp_dir().join(format!("vchk-{}-{}", spec.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let rep_dir = vd.join("replays");
    let _ = std::fs::create_dir_all(&rep_dir);
    let mut violations: Vec<(String, PathBuf)> = vec![]; // (what, replay)
    let mut known_hit = 0;

    // ---- pinned inputs
    let known = known_keys(spec.id);
    for p in &spec.pinned {
        let (bad, msg) = match run_child(&["--pinned".into(), p.key.into()], 120) {
            Ended::Pass => (false, String::new()),
            Ended::Fail(_, m) => (true, m),
            Ended::Crash(m) => (true, format!("process died: {m}")),
            Ended::Hang => (true, "did not return".into()),
        };
        if bad {
            if let Some((k, what)) = known.iter().find(|(k, _)| k == p.key) {
                println!("KNOWN-FINDING: property={} [{k}] {what}", spec.id);
                known_hit += 1;
            } else {
                let path = rep_dir.join(format!("{}-pinned-{}.txt", spec.id, p.key));
                write_replay(
                    &path,
                    spec.id,
                    &FailRec { stage: format!("pinned:{}", p.key), index: 0, sig: "pinned".into(), msg: msg.clone(), choices: vec![], repr: vec![p.key.into()] },
                );
                violations.push((format!("pinned input {}: {}", p.key, msg), path));
            }
        }
    }

    // ---- generated cases
    let cores = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let n = (cores / spec.threads.max(1)).max(1);
    let budget: u64 = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 3000 } else { 420 });
    let spawn = |k: usize, skip: &[(usize, u64)]| -> Child {
        let sk: Vec<String> = skip.iter().map(|(a, b)| format!("{a}:{b}")).collect();
        Command::new(std::env::current_exe().unwrap())
            .args(["--worker", &k.to_string(), &n.to_string(), dir.to_str().unwrap(), &budget.to_string(), &sk.join(",")])
            .stdout(Stdio::null())
            .stderr(if std::env::var_os("VERIF_EXPLORE").is_some() { Stdio::inherit() } else { std::fs::File::create(dir.join(format!("w{k}.err"))).unwrap().into() })
            .spawn()
            .unwrap()
    };
    let mut ws: Vec<Option<Child>> = (0..n).map(|k| Some(spawn(k, &[]))).collect();
    let mut mark: Vec<((usize, u64), f64, Instant)> = vec![((usize::MAX, 0), 0.0, Instant::now()); n];
    let mut errors: Vec<String> = vec![];
    let mut stop = false;
    while ws.iter().any(Option::is_some) && !stop {
        std::thread::sleep(Duration::from_millis(20));
        for k in 0..n {
            if stop {
                break;
            }
            let Some(c) = ws[k].as_mut() else { continue };
            let mut crashed: Option<String> = None;
            match c.try_wait() {
                Ok(Some(st)) => {
                    ws[k] = None;
                    if st.code() == Some(0) {
                        continue;
                    }
                    if st.code() == Some(3) {
                        let f = dir.join(format!("w{k}.fail"));
                        let dst = rep_dir.join(format!("{}-s{}-w{}.txt", spec.id, seed(), k));
                        let _ = std::fs::copy(&f, &dst);
                        let t = std::fs::read_to_string(&dst).unwrap_or_default();
                        let what = t.lines().filter(|l| l.starts_with('#') || l.starts_with("sig")).take(12).collect::<Vec<_>>().join("\n  ");
                        violations.push((what, dst));
                        stop = true;
                        continue;
                    }
                    let err = std::fs::read_to_string(dir.join(format!("w{k}.err"))).unwrap_or_default();
                    crashed = Some(format!("{} {}", st, err.lines().rev().take(2).collect::<Vec<_>>().join(" / ")));
                }
                _ => {
                    let pos = read_prog(&dir, k).unwrap_or((usize::MAX, 0));
                    let cpu = cpu_of(c.id()).unwrap_or(0.0);
                    if pos != mark[k].0 {
                        mark[k] = (pos, cpu, Instant::now());
                    } else if spec.concurrent && mark[k].2.elapsed().as_secs() > spec.cpu_limit * 4 + 60 {
                        let _ = c.kill();
                        let _ = c.wait();
                        ws[k] = None;
                        crashed = Some("no progress: deadlock".into());
                    } else if cpu - mark[k].1 > spec.cpu_limit as f64 * 1.2 + 45.0 * (dir.join(format!("w{k}.fail.tmp")).exists() as u8 as f64) {
                        // the shrinker is allowed 40 s of its own
                        if cpu - mark[k].1 > spec.cpu_limit as f64 + 50.0 {
                            let _ = c.kill();
                            let _ = c.wait();
                            ws[k] = None;
                            crashed = Some("no progress".into());
                        }
                    }
                }
            }
            if let Some(why) = crashed {
                let Some((si, i)) = read_prog(&dir, k).filter(|p| p.0 < spec.stages.len()) else {
                    errors.push(format!("worker {k} died before its first case: {why}"));
                    stop = true;
                    continue;
                };
                let tk = dir.join("taken");
                let again = || run_child(&["--single".into(), si.to_string(), i.to_string(), tk.to_str().unwrap().into()], spec.cpu_limit);
                let mut r = again();
                for _ in 0..(if spec.concurrent { 10 } else { 0 }) {
                    if !matches!(r, Ended::Pass) {
                        break;
                    }
                    r = again();
                }
                let (sig, msg) = match r {
                    Ended::Pass if spec.concurrent && !why.contains("SIGKILL") => ("crash".to_string(), format!("{why} (re-runs of the case passed: it needs a particular interleaving)")),
                    Ended::Crash(m) => ("crash".to_string(), format!("process died: {m}")),
                    Ended::Hang => ("hang".to_string(), format!("no result after {} CPU seconds", spec.cpu_limit)),
                    Ended::Fail(s, m) => (s, m),
                    Ended::Pass => {
                        errors.push(format!("worker {k} died at stage {si} case {i} ({why}) but the case alone passes"));
                        stop = true;
                        continue;
                    }
                };
                // choices of the failing case: draw them again without running the body is not
                // possible, so replay the random stream as raw choices is not known; shrink by index
                let rec = shrink_by_process(&spec, si, i, &sig, &msg, &dir);
                let dst = rep_dir.join(format!("{}-s{}-{}-{}.txt", spec.id, seed(), si, i));
                write_replay(&dst, spec.id, &rec);
                violations.push((format!("[{}] {} case: {}", rec.sig, rec.msg, rec.repr.join(" | ")), dst));
                stop = true;
            }
        }
    }
    if stop {
        // let a worker that is in the middle of shrinking finish? no: one violation is enough
        for c in ws.iter_mut().flatten() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }

    // ---- gather
    let (mut evals, mut discards) = (0u64, 0u64);
    let mut complete = true;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut stages: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    for k in 0..n {
        let Ok(t) = std::fs::read_to_string(dir.join(format!("w{k}.stats"))) else { continue };
        for l in t.lines() {
            let (h, r) = l.split_once(' ').unwrap_or((l, ""));
            match h {
                "evals" => evals += r.parse::<u64>().unwrap_or(0),
                "discards" => discards += r.parse::<u64>().unwrap_or(0),
                "complete" => complete &= r == "1",
                "count" => {
                    if let Some((v, k)) = r.split_once(' ') {
                        *counts.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                    }
                }
                "stage" => {
                    let f: Vec<&str> = r.splitn(3, ' ').collect();
                    let e = stages.entry(f[2].into()).or_insert((0, 0));
                    e.0 += f[0].parse::<u64>().unwrap_or(0);
                    e.1 += f[1].parse::<u64>().unwrap_or(0);
                }
                "sample" => {
                    if samples.len() < 24 {
                        samples.push(r.chars().take(600).collect())
                    }
                }
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("w{k}.keys"))) {
            for c in b.chunks_exact(8) {
                keys.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    if samples.is_empty() {
        samples = violations.iter().map(|v| v.0.clone()).collect();
    }
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\"evaluations\": {evals}, \"distinct_nontrivial\": {}, \"rule\": {},\n  \"discarded\": {discards}, \"ran_to_completion\": {complete}, \"pinned_inputs\": {}, \"known_findings_hit\": {known_hit},\n  \"stages\": {{{}}},\n  \"classes\": {{{}}},\n  \"samples\": [{}]}},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        esc(spec.id),
        esc(tier),
        seed() & 0x7fff_ffff_ffff_ffff,
        esc(spec.level),
        keys.len(),
        esc(spec.rule),
        spec.pinned.len(),
        stages.iter().map(|(k, v)| format!("{}: {{\"evaluations\": {}, \"nontrivial\": {}}}", esc(k), v.0, v.1)).collect::<Vec<_>>().join(", "),
        counts.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", "),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",\n    "),
        spec.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        wall,
        violations.len()
    );
    let _ = std::fs::create_dir_all(vd.join("evidence"));
    let _ = std::fs::write(vd.join("evidence").join(format!("{}.json", spec.id)), ev);
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{} {tier} seed={} evaluations={evals} distinct_nontrivial={} discarded={discards} wall={wall:.1}s{}",
        spec.id,
        seed(),
        keys.len(),
        if complete { "" } else { " (time budget reached)" }
    );
    for (what, p) in &violations {
        println!("  {what}");
        println!("VIOLATION property={} replay={}", spec.id, p.display());
    }
    if !violations.is_empty() {
        std::process::exit(1);
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("check error: {e}");
        }
        std::process::exit(2);
    }
    if evals == 0 && !spec.stages.is_empty() {
        eprintln!("check error: nothing was evaluated");
        std::process::exit(2);
    }
    std::process::exit(0);
}

/// Shrink a crash or hang with one process per candidate. The choices are written by the case
/// itself only when it returns, so the first sequence is obtained by a dry generation: case
/// functions call `cx`-independent generators first, and the raw stream is recorded up front.
fn shrink_by_process(spec: &Spec, si: usize, i: u64, sig: &str, msg: &str, dir: &Path) -> FailRec {
    let st = &spec.stages[si];
    let f = dir.join("cand.txt");
    let mk = |ch: &[u64]| FailRec { stage: st.name.into(), index: i, sig: sig.into(), msg: msg.into(), choices: ch.to_vec(), repr: vec![] };
    // the raw 64-bit stream reproduces every `below(n)` by `% n`
    let mut r = crate::src::Rng::new(case_seed(spec.id, st.name, i));
    let raw: Vec<u64> = (0..4000).map(|_| r.next()).collect();
    let cpu = if sig == "hang" { 10 } else { spec.cpu_limit };
    let t0 = Instant::now();
    let mut runs = 0;
    let mut same = |ch: &[u64]| -> bool {
        if t0.elapsed().as_secs() > 120 || runs > 250 {
            return false;
        }
        runs += 1;
        write_replay(&f, spec.id, &mk(ch));
        match run_child(&["--choices".into(), f.to_str().unwrap().into()], cpu) {
            Ended::Crash(_) => sig == "crash",
            Ended::Hang => sig == "hang",
            Ended::Fail(s, _) => s == sig,
            Ended::Pass => false,
        }
    };
    let mut best = raw;
    if same(&best) {
        // cut the tail (missing choices read as 0)
        let (mut lo, mut hi) = (0usize, best.len());
        while lo < hi {
            let mid = (lo + hi) / 2;
            if same(&best[..mid]) {
                hi = mid
            } else {
                lo = mid + 1
            }
        }
        best.truncate(hi.min(best.len()));
        best = shrink(best, 200, |c| if same(c) { Some(c.to_vec()) } else { None });
    }
    let mut rec = mk(&best);
    rec.repr = vec![format!("stage {} case {i} of seed {} (replay to print it)", st.name, seed())];
    // ask a child to print what it can before it dies
    std::env::set_var("VERIF_TRACE_CASE", "1");
    write_replay(&f, spec.id, &rec);
    let exe = std::env::current_exe().unwrap();
    if let Ok(mut c) = Command::new(exe).args(["--choices", f.to_str().unwrap()]).stdout(Stdio::null()).stderr(std::fs::File::create(dir.join("trace")).unwrap()).spawn() {
        let t = Instant::now();
        while t.elapsed().as_secs() < 15 && matches!(c.try_wait(), Ok(None)) {
            std::thread::sleep(Duration::from_millis(20));
        }
        let _ = c.kill();
        let _ = c.wait();
        if let Ok(t) = std::fs::read_to_string(dir.join("trace")) {
            let v: Vec<String> = t.lines().filter_map(|l| l.strip_prefix("TRACE ").map(str::to_string)).collect();
            if !v.is_empty() {
                rec.repr = v;
            }
        }
    }
    std::env::remove_var("VERIF_TRACE_CASE");
    rec
}

impl Cx {
    /// Describe the case before running it, so that a crash can be reported with its input.
    pub fn show(&mut self, s: impl Into<String>) {
        let s = s.into();
        if std::env::var_os("VERIF_TRACE_CASE").is_some() {
            eprintln!("TRACE {}", s.replace('\n', "\\n"));
        }
        self.repr.push(s);
    }
}
