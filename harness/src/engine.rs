//! Case generation, execution, shrinking, evidence and process supervision.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken. `sig` identifies the kind of failure.
    Violation { sig: String, msg: String },
    /// The harness could not do its work; never a verdict on the property.
    Harness(String),
}

pub type R<T = ()> = Result<T, Fail>;

pub fn violation<T>(sig: &str, msg: impl Into<String>) -> R<T> {
    Err(Fail::Violation { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! viol {
    ($sig:expr, $($a:tt)+) => {
        return Err($crate::engine::Fail::Violation {
            sig: $sig.to_string(), msg: format!($($a)+) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)+) => {
        if !$c { $crate::viol!($sig, $($a)+) }
    };
}

/// Attach harness context to an I/O result of the harness itself.
pub trait HarnessExt<T> {
    fn h(self, what: &str) -> R<T>;
    /// Result of the code under test that must not be an error.
    fn v(self, sig: &str, what: &str) -> R<T>;
}

impl<T, E: Debug> HarnessExt<T> for Result<T, E> {
    fn h(self, what: &str) -> R<T> {
        self.map_err(|e| Fail::Harness(format!("{}: {:?}", what, e)))
    }
    fn v(self, sig: &str, what: &str) -> R<T> {
        self.map_err(|e| Fail::Violation {
            sig: sig.to_string(),
            msg: format!("{}: unexpected error {:?}", what, e),
        })
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

impl Tier {
    pub fn name(self) -> &'static str {
        match self { Tier::Quick => "quick", Tier::Thorough => "thorough" }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self { Tier::Quick => q, Tier::Thorough => t }
    }
}

/// Per-case context: scratch directory, class counters, non-triviality.
pub struct Ctx {
    pub dir: PathBuf,
    pub tier: Tier,
    classes: BTreeMap<String, u64>,
    nontrivial: bool,
    evals: u64,
    seq: u64,
}

impl Ctx {
    pub fn new(dir: PathBuf, tier: Tier) -> Ctx {
        Ctx { dir, tier, classes: BTreeMap::new(), nontrivial: false, evals: 0, seq: 0 }
    }
    pub fn class(&mut self, name: impl Into<String>) {
        *self.classes.entry(name.into()).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, c: bool, name: &str) {
        if c { self.class(name) }
    }
    pub fn add(&mut self, name: &str, n: u64) {
        *self.classes.entry(name.to_string()).or_insert(0) += n;
    }
    /// Mark this case non-trivial by the property's stated rule.
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    pub fn nontrivial_if(&mut self, c: bool) { if c { self.nontrivial = true } }
    /// Count oracle evaluations beyond the one per case.
    pub fn evals(&mut self, n: u64) { self.evals += n; }
    /// A fresh path within the scratch directory.
    pub fn path(&mut self, stem: &str) -> PathBuf {
        self.seq += 1;
        self.dir.join(format!("{}-{}", stem, self.seq))
    }
    /// A fresh, existing sub-directory.
    pub fn subdir(&mut self, stem: &str) -> R<PathBuf> {
        let p = self.path(stem);
        fs::create_dir_all(&p).h("create scratch sub-directory")?;
        Ok(p)
    }
}

pub trait Prop: Sync {
    type Case: Clone + Debug + Serialize + DeserializeOwned + 'static;
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str { "exploration" }
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> { vec![] }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn cases(&self, tier: Tier) -> u64;
    /// Maximum worker processes.
    fn workers(&self) -> usize { 8 }
    /// Termination is part of the property: a hang confirmed on the single
    /// case, repeatedly and in isolation, is then a violation.
    fn termination(&self) -> bool { false }
    fn hang_secs(&self) -> u64 { 60 }
    fn run(&self, case: &Self::Case, ctx: &mut Ctx) -> R;
}

// ---------------------------------------------------------------- panics

#[derive(Clone, Debug)]
struct PanicInfo { file: String, line: u32, msg: String }

static PANICS: Mutex<Vec<PanicInfo>> = Mutex::new(Vec::new());

thread_local!(static QUIET: RefCell<()> = const { RefCell::new(()) });

fn install_panic_hook() {
    panic::set_hook(Box::new(|pi| {
        let (file, line) = pi.location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = pi.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = pi.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        if let Ok(mut g) = PANICS.lock() {
            if g.len() < 64 { g.push(PanicInfo { file, line, msg }); }
        }
    }));
}

fn is_harness_file(f: &str) -> bool { f.starts_with("src/") }

fn short_file(f: &str) -> String {
    // Stable, line-independent signature of the panic site
    if let Some(i) = f.find("/registry/src/") {
        let rest = &f[i + 14..];
        return rest.splitn(2, '/').nth(1).unwrap_or(rest).to_string();
    }
    if f.starts_with("/rustc/") { return "std".into(); }
    f.trim_start_matches("/repo/").to_string()
}

/// Run code expected to possibly panic; returns Err(message) on panic
/// raised outside of the harness.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = PANICS.lock().map(|g| g.len()).unwrap_or(0);
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let mut g = PANICS.lock().unwrap();
            let p = g.last().cloned();
            g.truncate(before);
            Err(p.map(|p| format!("{}:{}: {}", p.file, p.line, p.msg))
                .unwrap_or_else(|| "panic".into()))
        }
    }
}

fn run_one<P: Prop>(prop: &P, case: &P::Case, ctx: &mut Ctx) -> R {
    PANICS.lock().unwrap().clear();
    crate::interpose::reset();
    let r = panic::catch_unwind(AssertUnwindSafe(|| prop.run(case, ctx)));
    crate::interpose::reset();
    // Remove whatever the case left in its scratch directory
    if let Ok(rd) = fs::read_dir(&ctx.dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() { fs::remove_dir_all(&p).ok(); }
            else { fs::remove_file(&p).ok(); }
        }
    }
    match r {
        Ok(r) => {
            if r.is_ok() {
                if let Some(p) = PANICS.lock().unwrap().first() {
                    // Panic on some thread that nobody joined
                    return panic_fail(p);
                }
            }
            r
        }
        Err(_) => {
            match PANICS.lock().unwrap().first() {
                Some(p) => panic_fail(p),
                None => Err(Fail::Harness("panic without info".into())),
            }
        }
    }
}

fn panic_fail(p: &PanicInfo) -> R {
    if is_harness_file(&p.file) {
        Err(Fail::Harness(format!("harness panic at {}:{}: {}", p.file, p.line, p.msg)))
    } else {
        violation(&format!("panic@{}", short_file(&p.file)),
                  format!("panic at {}:{}: {}", p.file, p.line, p.msg))
    }
}

// ------------------------------------------------------- generation

pub fn hash64(b: &[u8]) -> u64 {
    // FNV-1a with a final mix; stable over runs and builds
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); }
    mix(h)
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn case_tree<P: Prop>(strat: &BoxedStrategy<P::Case>, id: &str, seed: u64, idx: u64)
    -> R<Box<dyn ValueTree<Value = P::Case>>>
{
    let mut s = [0u8; 32];
    let mut x = mix(seed ^ hash64(id.as_bytes())) ^ mix(idx.wrapping_mul(0x9E37_79B9));
    for c in s.chunks_mut(8) {
        x = mix(x);
        c.copy_from_slice(&x.to_le_bytes());
    }
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &s);
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let t = strat.new_tree(&mut runner).map_err(|e| Fail::Harness(format!("generate: {}", e)))?;
    Ok(Box::new(t))
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    evaluations: u64,
    cases: u64,
    regress: u64,
    nontrivial: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<String, u64>,
    violation: Option<ViolOut>,
    harness: Option<String>,
    stopped_early: bool,
}

#[derive(Serialize, Deserialize, Clone)]
struct ViolOut { sig: String, msg: String, replay: String, shrink_steps: u64 }

#[derive(Serialize, Deserialize)]
pub struct Replay<C> {
    pub property: String,
    pub seed: u64,
    pub sig: String,
    pub message: String,
    pub case: C,
}

/// Object-safe face of `Prop`.
pub trait DynProp: Sync {
    fn id(&self) -> &'static str;
    fn check(&self) -> i32;
    fn worker(&self, a: &[String]) -> i32;
    fn replay(&self, path: &Path) -> i32;
    fn gen(&self, n: u64, seed: u64) -> i32;
}

fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn env_seed() -> u64 {
    match std::env::var("VERIF_SEED") {
        Ok(s) => s.trim().parse::<u64>().unwrap_or_else(|_| hash64(s.as_bytes()) >> 1),
        Err(_) => 1,
    }
}

fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

/// Known, unrepaired findings: property -> signatures
fn known_findings(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(verif_root().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let s = it.next().unwrap_or("");
                let what = it.next().unwrap_or("");
                if p == format!("property={}", id) {
                    if let Some(sig) = s.strip_prefix("sig=") {
                        v.push((sig.to_string(), what.to_string()));
                    }
                }
            }
        }
    }
    v
}

struct Progress { map: *mut u64 }

impl Progress {
    fn open(path: &Path) -> Option<Progress> {
        use std::os::unix::io::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).ok()?;
        f.set_len(4096).ok()?;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE,
                       libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if p == libc::MAP_FAILED { None } else { Some(Progress { map: p as *mut u64 }) }
    }
    fn set(&self, idx: u64, beat: u64) {
        unsafe {
            std::ptr::write_volatile(self.map, idx.wrapping_add(1));
            std::ptr::write_volatile(self.map.add(1), beat);
        }
    }
    fn get(&self) -> (u64, u64) {
        unsafe { (std::ptr::read_volatile(self.map), std::ptr::read_volatile(self.map.add(1))) }
    }
}

const SHRINKING: u64 = u64::MAX - 10;
const REGRESS: u64 = u64::MAX / 2;

pub struct Wrap<P>(pub P);

impl<P: Prop> Wrap<P> {
    fn regress_files(&self) -> Vec<PathBuf> {
        let d = verif_root().join("regress").join(self.0.id());
        let mut v: Vec<_> = fs::read_dir(d).map(|rd| rd.flatten().map(|e| e.path())
            .filter(|p| p.extension().map(|e| e == "json").unwrap_or(false)).collect())
            .unwrap_or_default();
        v.sort();
        v
    }

    fn write_replay(&self, case: &P::Case, seed: u64, sig: &str, msg: &str) -> R<String> {
        let rep = Replay {
            property: self.0.id().to_string(), seed,
            sig: sig.to_string(), message: msg.to_string(), case: case.clone(),
        };
        let js = serde_json::to_string_pretty(&rep).h("serialize replay")?;
        let dir = verif_root().join("replays");
        fs::create_dir_all(&dir).h("create replays")?;
        let cj = serde_json::to_vec(case).h("serialize case")?;
        let p = dir.join(format!("{}-{:016x}.json", self.0.id(), hash64(&cj)));
        fs::write(&p, js).h("write replay")?;
        Ok(p.to_string_lossy().into_owned())
    }

    /// Simplify while the same property still fails with a violation.
    fn shrink(&self, tree: &mut dyn ValueTree<Value = P::Case>, first: (String, String),
              ctx: &mut Ctx, prog: Option<&Progress>) -> (P::Case, String, String, u64)
    {
        let known: Vec<_> = known_findings(self.0.id());
        let deadline = Instant::now() + Duration::from_secs(60);
        let mut best = tree.current();
        let (mut sig, mut msg) = first;
        let mut steps = 0u64;
        let mut alive = tree.simplify();
        while alive && Instant::now() < deadline && steps < 4000 {
            steps += 1;
            if let Some(p) = prog { p.set(SHRINKING, steps); }
            let cur = tree.current();
            match run_one(&self.0, &cur, ctx) {
                Err(Fail::Violation { sig: s, msg: m })
                    if !known.iter().any(|k| k.0 == s) =>
                {
                    best = cur; sig = s; msg = m;
                    alive = tree.simplify();
                }
                _ => alive = tree.complicate(),
            }
        }
        (best, sig, msg, steps)
    }
}

impl<P: Prop> DynProp for Wrap<P> {
    fn id(&self) -> &'static str { self.0.id() }

    fn gen(&self, n: u64, seed: u64) -> i32 {
        let strat = self.0.strategy(env_tier());
        for i in 0..n {
            match case_tree::<P>(&strat, self.0.id(), seed, i) {
                Ok(t) => println!("{}", serde_json::to_string(&t.current()).unwrap_or_default()),
                Err(e) => { eprintln!("{:?}", e); return 2 }
            }
        }
        0
    }

    fn replay(&self, path: &Path) -> i32 {
        install_panic_hook();
        let s = match fs::read_to_string(path) {
            Ok(s) => s,
            Err(e) => { eprintln!("read replay: {}", e); return 2 }
        };
        let rep: Replay<P::Case> = match serde_json::from_str(&s) {
            Ok(r) => r,
            Err(e) => { eprintln!("parse replay: {}", e); return 2 }
        };
        let dir = scratch_base().join(format!("vh-replay-{}", std::process::id()));
        fs::create_dir_all(&dir).ok();
        let mut ctx = Ctx::new(dir.clone(), env_tier());
        let n = std::env::var("VERIF_REPEAT").ok().and_then(|s| s.parse().ok()).unwrap_or(1u32);
        let mut code = 0;
        for _ in 0..n {
            match run_one(&self.0, &rep.case, &mut ctx) {
                Ok(()) => {}
                Err(Fail::Violation { sig, msg }) => {
                    println!("replay: [{}] {}", sig, msg);
                    println!("VIOLATION property={} replay={}", self.0.id(), path.display());
                    code = 1;
                    break;
                }
                Err(Fail::Harness(m)) => {
                    eprintln!("replay: harness error {}", m);
                    code = 2;
                    break;
                }
            }
        }
        fs::remove_dir_all(&dir).ok();
        if code == 0 { println!("replay: property held"); }
        code
    }

    // args: k w seed tier outdir
    fn worker(&self, a: &[String]) -> i32 {
        install_panic_hook();
        let k: u64 = a[0].parse().unwrap();
        let w: u64 = a[1].parse().unwrap();
        let seed: u64 = a[2].parse().unwrap();
        let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
        let outdir = PathBuf::from(&a[4]);
        let soft: u64 = a[5].parse().unwrap();
        let dir = outdir.join(format!("s{}", k));
        fs::create_dir_all(&dir).ok();
        let prog = Progress::open(&outdir.join(format!("p{}", k)));
        let strat = self.0.strategy(tier);
        let total = case_count(&self.0, tier);
        let mut out = WorkerOut::default();
        let mut seen: HashSet<u64> = HashSet::new();
        let known = known_findings(self.0.id());
        let mut ctx = Ctx::new(dir, tier);
        let t0 = Instant::now();
        let mut beat = 0u64;

        let finish = |out: &WorkerOut, seen: &HashSet<u64>, code: i32| -> i32 {
            let mut v = Vec::with_capacity(seen.len() * 8);
            for h in seen { v.extend_from_slice(&h.to_le_bytes()); }
            fs::write(outdir.join(format!("h{}", k)), v).ok();
            fs::write(outdir.join(format!("o{}", k)), serde_json::to_vec(out).unwrap_or_default()).ok();
            code
        };

        // Saved regression inputs first, split over workers
        for (i, f) in self.regress_files().into_iter().enumerate() {
            if i as u64 % w != k { continue }
            beat += 1;
            if let Some(p) = &prog { p.set(REGRESS + i as u64, beat); }
            let rep: Replay<P::Case> = match fs::read_to_string(&f).ok()
                .and_then(|s| serde_json::from_str(&s).ok())
            {
                Some(r) => r,
                None => {
                    out.harness = Some(format!("bad regression file {}", f.display()));
                    return finish(&out, &seen, 2);
                }
            };
            ctx.nontrivial = false;
            let r = run_one(&self.0, &rep.case, &mut ctx);
            out.regress += 1;
            out.evaluations += 1;
            match r {
                Ok(()) => {}
                Err(Fail::Harness(m)) => { out.harness = Some(m); return finish(&out, &seen, 2); }
                Err(Fail::Violation { sig, msg }) => {
                    if known.iter().any(|x| x.0 == sig) {
                        *out.known.entry(sig).or_insert(0) += 1;
                    } else {
                        match self.write_replay(&rep.case, seed, &sig, &msg) {
                            Ok(replay) => out.violation = Some(ViolOut { sig, msg, replay, shrink_steps: 0 }),
                            Err(e) => out.harness = Some(format!("{:?}", e)),
                        }
                        return finish(&out, &seen, 1);
                    }
                }
            }
        }

        let mut idx = k;
        while idx < total {
            if t0.elapsed().as_secs() > soft { out.stopped_early = true; break; }
            beat += 1;
            if let Some(p) = &prog { p.set(idx, beat); }
            let mut tree = match case_tree::<P>(&strat, self.0.id(), seed, idx) {
                Ok(t) => t,
                Err(e) => { out.harness = Some(format!("{:?}", e)); return finish(&out, &seen, 2); }
            };
            let case = tree.current();
            ctx.nontrivial = false;
            ctx.evals = 0;
            let r = run_one(&self.0, &case, &mut ctx);
            out.cases += 1;
            out.evaluations += 1 + ctx.evals;
            if ctx.nontrivial {
                out.nontrivial += 1;
                let cj = serde_json::to_vec(&case).unwrap_or_default();
                let fresh = seen.insert(hash64(&cj));
                if fresh && out.samples.len() < 1 {
                    let s = String::from_utf8_lossy(&cj).into_owned();
                    let v = if s.len() <= 1500 {
                        serde_json::from_str(&s).unwrap_or(serde_json::Value::String(s))
                    } else {
                        let cut: String = s.chars().take(1500).collect();
                        serde_json::Value::String(format!("{}... ({} bytes)", cut, s.len()))
                    };
                    out.samples.push(v);
                }
            }
            match r {
                Ok(()) => {}
                Err(Fail::Harness(m)) => {
                    out.harness = Some(format!("case {}: {}", idx, m));
                    return finish(&out, &seen, 2);
                }
                Err(Fail::Violation { sig, msg }) => {
                    if known.iter().any(|x| x.0 == sig) {
                        *out.known.entry(sig).or_insert(0) += 1;
                    } else {
                        let (best, sig, msg, steps) =
                            self.shrink(&mut *tree, (sig, msg), &mut ctx, prog.as_ref());
                        match self.write_replay(&best, seed, &sig, &msg) {
                            Ok(replay) => out.violation =
                                Some(ViolOut { sig, msg, replay, shrink_steps: steps }),
                            Err(e) => out.harness = Some(format!("{:?}", e)),
                        }
                        out.classes = ctx.classes.clone();
                        return finish(&out, &seen, 1);
                    }
                }
            }
            idx += w;
        }
        out.classes = ctx.classes.clone();
        finish(&out, &seen, 0)
    }

    fn check(&self) -> i32 {
        let id = self.0.id();
        let t0 = Instant::now();
        let seed = env_seed();
        let tier = env_tier();
        let base = scratch_base();
        let outdir = base.join(format!("vh-{}-{}", id, std::process::id()));
        if let Err(e) = fs::create_dir_all(&outdir) {
            eprintln!("scratch: {}", e);
            return 2;
        }
        let code = self.supervise(&outdir, seed, tier, t0);
        fs::remove_dir_all(&outdir).ok();
        code
    }
}

fn case_count<P: Prop>(p: &P, tier: Tier) -> u64 {
    if let Ok(s) = std::env::var("VERIF_CASES") {
        if let Ok(n) = s.parse() { return n; }
    }
    p.cases(tier)
}

pub fn scratch_base() -> PathBuf {
    std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir)
}

enum Ended { Code(i32), Signal(i32, String), Hang }

fn spawn_vh(args: &[String], errfile: &Path) -> std::io::Result<Child> {
    spawn_vh_env(args, errfile, "1")
}

fn spawn_vh_env(args: &[String], errfile: &Path, repeat: &str) -> std::io::Result<Child> {
    let exe = std::env::current_exe()?;
    let err = fs::File::create(errfile)?;
    Command::new(exe).args(args).env("VERIF_REPEAT", repeat).stdin(Stdio::null())
        .stdout(Stdio::null()).stderr(Stdio::from(err)).spawn()
}

fn wait_limited(mut c: Child, limit: Duration, errfile: &Path) -> Ended {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                return match st.code() {
                    Some(x) => Ended::Code(x),
                    None => {
                        let mut s = String::new();
                        if let Ok(mut f) = fs::File::open(errfile) { f.read_to_string(&mut s).ok(); }
                        Ended::Signal(st.signal().unwrap_or(0), s)
                    }
                };
            }
            Ok(None) => {}
            Err(_) => return Ended::Code(2),
        }
        if t0.elapsed() > limit {
            c.kill().ok();
            c.wait().ok();
            return Ended::Hang;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn crash_is_verdict(sig: i32, err: &str) -> bool {
    match sig {
        libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE => true,
        // A refused allocation tells about the machine, unless no machine
        // could be meant
        libc::SIGABRT => match err.split("memory allocation of ").nth(1) {
            Some(r) => r.split(' ').next().and_then(|n| n.parse::<u64>().ok()).unwrap_or(0) >= 1 << 38,
            None => true,
        },
        _ => false,
    }
}

impl<P: Prop> Wrap<P> {
    fn supervise(&self, outdir: &Path, seed: u64, tier: Tier, t0: Instant) -> i32 {
        let id = self.0.id();
        let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
        let total = case_count(&self.0, tier);
        let w = self.0.workers().min(cpus.max(2)).min(total.max(1) as usize).max(1);
        let hard = Duration::from_secs(tier.pick(780, 840));
        let soft = tier.pick(600u64, 660);

        let mut kids: Vec<Option<Child>> = vec![];
        let mut progs = vec![];
        for k in 0..w {
            let pp = outdir.join(format!("p{}", k));
            progs.push(Progress::open(&pp));
            let args: Vec<String> = vec![
                "worker".into(), id.into(), k.to_string(), w.to_string(), seed.to_string(),
                tier.name().into(), outdir.to_string_lossy().into_owned(), soft.to_string(),
            ];
            match spawn_vh(&args, &outdir.join(format!("e{}", k))) {
                Ok(c) => kids.push(Some(c)),
                Err(e) => { eprintln!("spawn worker: {}", e); return 2 }
            }
        }

        // Supervise: exit codes, crashes, stalls
        let mut ended: Vec<Option<Ended>> = (0..w).map(|_| None).collect();
        let mut last: Vec<((u64, u64), Instant)> = vec![((0, 0), Instant::now()); w];
        let mut stop = false;
        loop {
            let mut live = 0;
            for k in 0..w {
                if let Some(c) = kids[k].as_mut() {
                    match c.try_wait() {
                        Ok(Some(st)) => {
                            kids[k] = None;
                            let mut s = String::new();
                            if let Ok(mut f) = fs::File::open(outdir.join(format!("e{}", k))) {
                                f.read_to_string(&mut s).ok();
                            }
                            ended[k] = Some(match st.code() {
                                Some(x) => Ended::Code(x),
                                None => Ended::Signal(st.signal().unwrap_or(0), s),
                            });
                            if st.code() != Some(0) { stop = true; }
                        }
                        Ok(None) => {
                            live += 1;
                            if let Some(p) = &progs[k] {
                                let g = p.get();
                                if g != last[k].0 { last[k] = (g, Instant::now()); }
                                else if last[k].1.elapsed().as_secs() > self.0.hang_secs() {
                                    c.kill().ok();
                                    c.wait().ok();
                                    kids[k] = None;
                                    ended[k] = Some(Ended::Hang);
                                    stop = true;
                                }
                            }
                        }
                        Err(_) => { kids[k] = None; ended[k] = Some(Ended::Code(2)); stop = true; }
                    }
                }
            }
            if live == 0 { break; }
            if stop || t0.elapsed() > hard {
                // Let a worker that is shrinking its own violation finish
                let mut any_shrinking = false;
                for k in 0..w {
                    if let Some(c) = kids[k].as_mut() {
                        let shrinking = progs[k].as_ref()
                            .map(|p| p.get().0 == SHRINKING.wrapping_add(1)).unwrap_or(false);
                        if shrinking && t0.elapsed() < hard {
                            any_shrinking = true;
                        } else {
                            c.kill().ok();
                            c.wait().ok();
                            kids[k] = None;
                        }
                    }
                }
                if !any_shrinking { break; }
            }
            std::thread::sleep(Duration::from_millis(10));
        }

        // Merge
        let mut m = WorkerOut::default();
        let mut seen: HashSet<u64> = HashSet::new();
        let mut viols: Vec<ViolOut> = vec![];
        let mut harness: Vec<String> = vec![];
        for k in 0..w {
            if let Ok(b) = fs::read(outdir.join(format!("o{}", k))) {
                if let Ok(o) = serde_json::from_slice::<WorkerOut>(&b) {
                    m.evaluations += o.evaluations;
                    m.cases += o.cases;
                    m.regress += o.regress;
                    m.nontrivial += o.nontrivial;
                    for (c, n) in o.classes { *m.classes.entry(c).or_insert(0) += n; }
                    for (c, n) in o.known { *m.known.entry(c).or_insert(0) += n; }
                    if m.samples.len() < 3 { m.samples.extend(o.samples); }
                    m.stopped_early |= o.stopped_early;
                    if let Some(v) = o.violation { viols.push(v); }
                    if let Some(h) = o.harness { harness.push(h); }
                }
            }
            if let Ok(b) = fs::read(outdir.join(format!("h{}", k))) {
                for c in b.chunks_exact(8) {
                    let mut a = [0u8; 8];
                    a.copy_from_slice(c);
                    seen.insert(u64::from_le_bytes(a));
                }
            }
        }
        // Crashes and hangs
        for k in 0..w {
            match &ended[k] {
                Some(Ended::Signal(s, err)) if viols.is_empty() => {
                    let at = progs[k].as_ref().map(|p| p.get().0.wrapping_sub(1)).unwrap_or(u64::MAX);
                    match self.confirm_crash(outdir, seed, tier, at, *s, err) {
                        Ok(v) => viols.push(v),
                        Err(h) => harness.push(h),
                    }
                }
                Some(Ended::Hang) if viols.is_empty() => {
                    let at = progs[k].as_ref().map(|p| p.get().0.wrapping_sub(1)).unwrap_or(u64::MAX);
                    if self.0.termination() {
                        match self.confirm_hang(outdir, seed, tier, at) {
                            Ok(v) => viols.push(v),
                            Err(h) => harness.push(h),
                        }
                    } else {
                        harness.push(format!("worker stalled on case {}", at));
                    }
                }
                Some(Ended::Code(c)) if *c != 0 && *c != 1 && harness.is_empty() => {
                    let err = fs::read_to_string(outdir.join(format!("e{}", k))).unwrap_or_default();
                    harness.push(format!("worker exit {}: {}", c, err));
                }
                None if viols.is_empty() && harness.is_empty() && !stop => {
                    harness.push("time limit".into());
                }
                _ => {}
            }
        }

        // Report
        for (sig, n) in &m.known {
            let what = known_findings(id).into_iter().find(|x| &x.0 == sig)
                .map(|x| x.1).unwrap_or_default();
            println!("KNOWN-FINDING: property={} {} ({} cases)", id, what, n);
        }
        let wall = t0.elapsed().as_secs_f64();
        let ev = serde_json::json!({
            "property": id,
            "tier": tier.name(),
            "seed": (seed & (i64::MAX as u64)),
            "level": self.0.level(),
            "coverage": {
                "evaluations": m.evaluations,
                "cases_generated": m.cases,
                "regression_inputs_replayed": m.regress,
                "distinct_nontrivial": seen.len(),
                "rule": self.0.rule(),
                "samples": m.samples,
                "classes": m.classes,
                "workers": w,
                "stopped_early": m.stopped_early,
            },
            "assumptions": self.0.assumptions(),
            "wall_s": (wall * 1000.0).round() / 1000.0,
            "violations": viols.len(),
        });
        let evdir = verif_root().join("evidence");
        fs::create_dir_all(&evdir).ok();
        if let Err(e) = fs::write(evdir.join(format!("{}.json", id)),
                                  serde_json::to_string_pretty(&ev).unwrap_or_default() + "\n") {
            eprintln!("evidence: {}", e);
            return 2;
        }
        if let Some(v) = viols.first() {
            println!("{}: [{}] {}", id, v.sig, v.msg);
            println!("{}: shrunk in {} steps", id, v.shrink_steps);
            println!("VIOLATION property={} replay={}", id, v.replay);
            return 1;
        }
        if let Some(h) = harness.first() {
            eprintln!("{}: check error: {}", id, h);
            println!("{}: check error: {}", id, h);
            return 3;
        }
        println!("{}: held; {} cases ({} regression), {} evaluations, {} distinct non-trivial, {:.1}s",
                 id, m.cases, m.regress, m.evaluations, seen.len(), wall);
        0
    }

    fn case_at(&self, seed: u64, tier: Tier, at: u64) -> R<P::Case> {
        if at >= REGRESS && at < SHRINKING {
            let f = self.regress_files().into_iter().nth((at - REGRESS) as usize)
                .ok_or_else(|| Fail::Harness("no such regression".into()))?;
            let rep: Replay<P::Case> = serde_json::from_str(
                &fs::read_to_string(f).h("read regression")?).h("parse regression")?;
            return Ok(rep.case);
        }
        let strat = self.0.strategy(tier);
        Ok(case_tree::<P>(&strat, self.0.id(), seed, at)?.current())
    }

    fn run_isolated(&self, outdir: &Path, case: &P::Case, tier: Tier, limit: u64) -> Result<Ended, String> {
        let f = outdir.join("iso.json");
        let rep = Replay { property: self.0.id().into(), seed: 0, sig: String::new(),
                           message: String::new(), case: case.clone() };
        fs::write(&f, serde_json::to_vec(&rep).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let _ = tier;
        let ef = outdir.join("iso.err");
        let c = spawn_vh(&["replay".into(), f.to_string_lossy().into_owned()], &ef)
            .map_err(|e| e.to_string())?;
        Ok(wait_limited(c, Duration::from_secs(limit), &ef))
    }

    fn confirm_crash(&self, outdir: &Path, seed: u64, tier: Tier, at: u64, sig: i32, err: &str)
        -> Result<ViolOut, String>
    {
        if !crash_is_verdict(sig, err) {
            return Err(format!("worker died by signal {} at case {}: {}", sig, at, err));
        }
        let case = self.case_at(seed, tier, at)
            .map_err(|e| format!("worker died by signal {}: {:?}", sig, e))?;
        match self.run_isolated(outdir, &case, tier, 120)? {
            Ended::Signal(s, e) if crash_is_verdict(s, &e) => {}
            _ => return Err(format!("worker died by signal {} at case {}, not reproducible", sig, at)),
        }
        // Shrink out of process
        let mut best = case;
        let mut steps = 0;
        if at < REGRESS {
            let strat = self.0.strategy(tier);
            if let Ok(mut t) = case_tree::<P>(&strat, self.0.id(), seed, at) {
                let dl = Instant::now() + Duration::from_secs(45);
                let mut alive = t.simplify();
                while alive && Instant::now() < dl {
                    steps += 1;
                    let cur = t.current();
                    match self.run_isolated(outdir, &cur, tier, 20) {
                        Ok(Ended::Signal(s, e)) if crash_is_verdict(s, &e) => {
                            best = cur;
                            alive = t.simplify();
                        }
                        _ => alive = t.complicate(),
                    }
                }
            }
        }
        let sg = format!("crash-signal-{}", sig);
        let msg = format!("process died by signal {}", sig);
        let replay = self.write_replay(&best, seed, &sg, &msg).map_err(|e| format!("{:?}", e))?;
        Ok(ViolOut { sig: sg, msg, replay, shrink_steps: steps })
    }

    /// Whether any of many further runs, several at a time, hangs; one run
    /// takes as long as given.
    fn hangs_at_times(&self, outdir: &Path, case: &P::Case, one: Duration) -> Result<bool, String> {
        let rep = Replay { property: self.0.id().into(), seed: 0, sig: String::new(),
                           message: String::new(), case: case.clone() };
        let f = outdir.join("iso.json");
        fs::write(&f, serde_json::to_vec(&rep).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let limit = Duration::from_secs(self.0.hang_secs());
        // A tenth of the limit when none hangs
        let n = (limit.as_millis() / 10 / one.as_millis().max(1)).clamp(1, 300);
        for _ in 0..3 {
            let mut kids = vec![];
            for k in 0..8 {
                let ef = outdir.join(format!("iso{}.err", k));
                let c = spawn_vh_env(&["replay".into(), f.to_string_lossy().into_owned()], &ef, &n.to_string())
                    .map_err(|e| e.to_string())?;
                kids.push((c, ef));
            }
            let t0 = Instant::now();
            let ends: Vec<Ended> = kids.into_iter()
                .map(|(c, ef)| wait_limited(c, limit.saturating_sub(t0.elapsed()), &ef)).collect();
            if ends.iter().any(|e| matches!(e, Ended::Hang)) { return Ok(true); }
        }
        Ok(false)
    }

    fn confirm_hang(&self, outdir: &Path, seed: u64, tier: Tier, at: u64) -> Result<ViolOut, String> {
        let case = self.case_at(seed, tier, at).map_err(|e| format!("hang: {:?}", e))?;
        for _ in 0..2 {
            let t0 = Instant::now();
            match self.run_isolated(outdir, &case, tier, self.0.hang_secs())? {
                Ended::Hang => {}
                _ if self.hangs_at_times(outdir, &case, t0.elapsed())? => {
                    let msg = format!("does not terminate with some schedules: two of many runs of this case, {} s each, never ended",
                                      self.0.hang_secs());
                    let replay = self.write_replay(&case, seed, "hang", &msg).map_err(|e| format!("{:?}", e))?;
                    return Ok(ViolOut { sig: "hang".into(), msg, replay, shrink_steps: 0 });
                }
                _ => return Err(format!("worker stalled on case {}, not reproducible", at)),
            }
        }
        let mut best = case;
        let mut steps = 0;
        if at < REGRESS {
            // A few simplification steps with a shorter limit
            let strat = self.0.strategy(tier);
            if let Ok(mut t) = case_tree::<P>(&strat, self.0.id(), seed, at) {
                let dl = Instant::now() + Duration::from_secs(60);
                let mut alive = t.simplify();
                while alive && Instant::now() < dl {
                    steps += 1;
                    let cur = t.current();
                    match self.run_isolated(outdir, &cur, tier, 10) {
                        Ok(Ended::Hang) => { best = cur; alive = t.simplify(); }
                        _ => alive = t.complicate(),
                    }
                }
            }
        }
        let msg = format!("does not terminate: three runs of this case, {} s each, never ended",
                          self.0.hang_secs());
        let replay = self.write_replay(&best, seed, "hang", &msg).map_err(|e| format!("{:?}", e))?;
        Ok(ViolOut { sig: "hang".into(), msg, replay, shrink_steps: steps })
    }
}

/// Small deterministic generator for use inside cases.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed)) }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0) }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}
