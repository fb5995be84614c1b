//! C32: the logger, set up in processes of its own.

use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Th { Main, Named(String), Unnamed, Worker }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rec { level: u8, target: u8, msg: String }

/// A setup call or what the test setup makes of TEST_LOG.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Setup { Level(u32), Test(Option<u32>) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C32Case {
    setup: Setup, again: Option<u32>, threads: Vec<(Th, Vec<Rec>)>, together: bool, closed: bool,
}

pub struct C32;

const LEVELS: [log::Level; 5] = [log::Level::Error, log::Level::Warn, log::Level::Info, log::Level::Debug, log::Level::Trace];

/// The project's own, then others.
const TARGETS: [&str; 14] = ["body_image", "body_image_futio", "barc", "barc_cli", "blocking_permit", "body_image_futio::sink", "barc::record",
    "blocking_permit::fs", "hyper", "tokio::net", "my_barc", "xbody_image", "permit", "h::barc"];
const OWN: usize = 8;

fn target(t: u8) -> &'static str { TARGETS[t as usize % TARGETS.len()] }

/// Records logged at the same time are told apart by their messages.
fn told_apart(c: &C32Case) -> Vec<(Th, Vec<Rec>)> {
    let mut ts = c.threads.clone();
    if c.together {
        for (i, t) in ts.iter_mut().enumerate() {
            for (k, r) in t.1.iter_mut().enumerate() { r.msg.push_str(&format!(" {}/{}", i, k)); }
        }
    }
    ts
}

fn log_all(rs: &[Rec]) {
    for r in rs { log::log!(target: target(r.target), LEVELS[r.level as usize % 5], "{}", r.msg); }
}

/// Runs in a process of its own: case on standard input, outcomes of the
/// setup calls on standard output.
pub fn probe() -> i32 {
    let mut s = String::new();
    if std::io::stdin().read_to_string(&mut s).is_err() { return 3; }
    let c: C32Case = match serde_json::from_str(&s) { Ok(c) => c, Err(_) => return 3 };
    let first = match c.setup {
        Setup::Level(l) => piccolog::setup_logger(l).is_ok(),
        Setup::Test(_) => piccolog::test_logger() && piccolog::test_logger(),
    };
    let again = c.again.map(|l| piccolog::setup_logger(l).is_ok());
    println!("{} {:?}", first, again);
    let mut hs = vec![];
    for (t, rs) in told_apart(&c) {
        let b = match &t {
            Th::Main => { log_all(&rs); continue; }
            Th::Named(n) => std::thread::Builder::new().name(n.clone()),
            Th::Unnamed => std::thread::Builder::new(),
            Th::Worker => std::thread::Builder::new().name("tokio-runtime-worker".into()),
        };
        let h = match b.spawn(move || log_all(&rs)) { Ok(h) => h, Err(_) => return 3 };
        if c.together { hs.push(h); } else if h.join().is_err() { return 4; }
    }
    for h in hs { if h.join().is_err() { return 4; } }
    log::logger().flush();
    println!("end");
    0
}

fn shown(level: u32, r: &Rec) -> bool {
    let l = LEVELS[r.level as usize % 5];
    match level {
        0 => l <= log::Level::Info,
        1 => l <= log::Level::Info || l == log::Level::Debug && (r.target as usize % TARGETS.len()) < OWN,
        2 => l <= log::Level::Debug,
        _ => true,
    }
}

impl Prop for C32 {
    type Case = C32Case;
    fn id(&self) -> &'static str { "C32" }
    fn rule(&self) -> &'static str {
        "a process setting up the logger at a level (directly, or by TEST_LOG), perhaps once more, then logging up to 24 records of any level, own and other targets, on up to 4 threads one after another or together; non-trivial: at least one record was due and one was not, or several threads logged together, or standard error was closed"
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["messages hold no line breaks"] }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<C32Case> {
        let level = || prop_oneof![8 => 0u32..4, 1 => 4u32..10, 1 => Just(u32::MAX)];
        let setup = prop_oneof![4 => level().prop_map(Setup::Level), 1 => prop::option::of(prop_oneof![0u32..5, Just(u32::MAX)]).prop_map(Setup::Test)];
        let msg = prop_oneof![8 => "[ -~]{0,40}", 1 => "\\PC{0,20}", 1 => (1usize..9000).prop_map(|n| "m".repeat(n))];
        let rec = (0u8..5, 0u8..14, msg).prop_map(|(level, target, msg)| Rec { level, target, msg });
        let th = prop_oneof![3 => Just(Th::Main), 2 => "[a-z][a-z0-9-]{0,11}".prop_map(Th::Named), 1 => Just(Th::Unnamed), 1 => Just(Th::Worker)];
        (setup, prop::option::weighted(0.3, level()), prop::collection::vec((th, prop_oneof![200 => prop::collection::vec(rec.clone(), 0..12), 1 => prop::collection::vec(rec, 100..300)]), 1..5), any::<bool>(), prop::bool::weighted(0.05))
            .prop_map(|(setup, again, threads, together, closed)| C32Case { setup, again, threads, together, closed }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(24_000, 240_000) }
    fn run(&self, c: &C32Case, ctx: &mut Ctx) -> R {
        let mut cmd = Command::new(std::env::current_exe().h("own path")?);
        cmd.arg("logprobe").env_clear().current_dir(&ctx.dir).stdin(Stdio::piped()).stdout(Stdio::piped());
        if let Setup::Test(Some(l)) = c.setup { cmd.env("TEST_LOG", l.to_string()); }
        let ep = ctx.dir.join("err");
        if c.closed {
            let mut fds = [0i32; 2];
            if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 { return Err(Fail::Harness("pipe".into())); }
            let (r, w) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
            drop(r);
            cmd.stderr(w);
        } else {
            let f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&ep).h("stderr")?;
            cmd.stderr(f);
        }
        let mut ch = cmd.spawn().h("spawn")?;
        drop(cmd);
        let js = serde_json::to_vec(c).h("case")?;
        ch.stdin.take().unwrap().write_all(&js).h("stdin")?;
        let mut out = String::new();
        ch.stdout.take().unwrap().read_to_string(&mut out).h("stdout")?;
        let st = ch.wait().h("wait")?;
        if st.signal() == Some(libc::SIGKILL) || st.code() == Some(3) { return Err(Fail::Harness(format!("probe: {:?}", st))); }
        let err = if c.closed { vec![] } else { std::fs::read(&ep).h("stderr")? };
        let err = String::from_utf8(err).v("not-text", "standard error")?;
        ensure!(st.code() == Some(0), "crash", "logging process ended with {:?}: {}", st, err.lines().take(3).collect::<Vec<_>>().join(" "));
        let level = match c.setup {
            Setup::Level(l) => Some(l),
            Setup::Test(t) => t.and_then(|l| l.checked_sub(1)),
        };
        let mut lines = out.lines();
        // Only the first setup succeeds
        let (first, again) = (true, c.again.map(|_| level.is_none()));
        ensure!(lines.next() == Some(&*format!("{} {:?}", first, again)), "setup", "setup calls gave {:?}, expected {} {:?}", out, first, again);
        let level = level.or(c.again);
        let due = |rs: &[Rec]| -> Vec<Rec> { rs.iter().filter(|r| level.map(|l| shown(l, r)).unwrap_or(false)).cloned().collect() };
        let mut want: Vec<(String, Vec<Rec>)> = vec![];
        for (t, rs) in &told_apart(c) {
            let n = match t { Th::Main => "main", Th::Named(n) => n, Th::Unnamed => "-", Th::Worker => "tokio-w-" };
            want.push((n.to_string(), due(rs)));
        }
        let total: usize = want.iter().map(|w| w.1.len()).sum();
        let logged: usize = c.threads.iter().map(|t| t.1.len()).sum();
        let spawned = c.threads.iter().filter(|t| t.0 != Th::Main).count();
        if c.closed { ctx.class("closed"); ctx.nontrivial_if(total > 0); return Ok(()); }
        let mut lines: Vec<&str> = err.split_terminator('\n').collect();
        ensure!(err.is_empty() || err.ends_with('\n'), "line-end", "output does not end with a line");
        ensure!(lines.len() == total, "count", "{} lines, expected {} of {} records at level {:?}: {:?}", lines.len(), total, logged, level,
                err.chars().take(300).collect::<String>());
        let fits = |line: &str, n: &str, r: &Rec| -> bool {
            let l = match line.strip_prefix(&format!("{:5} {} ", LEVELS[r.level as usize % 5], target(r.target))) { Some(l) => l, None => return false };
            match l.strip_suffix(&format!(": {}", r.msg)) { Some(t) => if n.ends_with("-w-") { t.starts_with(n) } else { t == n }, None => false }
        };
        if !c.together || spawned == 0 {
            let mut i = 0;
            for (n, rs) in &want {
                for r in rs {
                    ensure!(fits(lines[i], n, r), "line", "line {:?} for {:?} of thread {}", lines[i], r, n);
                    i += 1;
                }
            }
        } else {
            // Each thread's lines whole and in order
            for (n, rs) in &want {
                let mut at = 0;
                for r in rs {
                    let p = lines.iter().skip(at).position(|l| fits(l, n, r));
                    match p {
                        Some(p) => { at += p; lines.remove(at); }
                        None => return violation("line-missing", format!("no line for {:?} of thread {} in {:?}", r, n, lines)),
                    }
                }
            }
            ctx.class("together");
        }
        ctx.class(format!("level-{}", level.map(|l| l.min(4).to_string()).unwrap_or_else(|| "none".into())));
        ctx.class_if(c.again.is_some(), "set-up-again");
        ctx.nontrivial_if(total > 0 && (total < logged || c.together && spawned > 1));
        Ok(())
    }
}
