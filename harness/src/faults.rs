//! Injected file operation faults: counted positions over eligible
//! operations of regular files.

use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::interpose::{self, Act, Hook, Kind, Op};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum FAct { Enospc, Eio, Emfile, Edquot, Efbig, Eacces, Enomem, Eintr, Short(u16) }

impl FAct {
    pub fn errno(self) -> i32 {
        match self {
            FAct::Enospc => libc::ENOSPC, FAct::Eio => libc::EIO, FAct::Emfile => libc::EMFILE,
            FAct::Edquot => libc::EDQUOT, FAct::Efbig => libc::EFBIG, FAct::Eacces => libc::EACCES,
            FAct::Enomem => libc::ENOMEM, FAct::Eintr => libc::EINTR, FAct::Short(_) => 0,
        }
    }
}

/// `at` is reduced modulo the number of eligible operations of the
/// fault-free run, so that it always is within the run.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault { pub at: u16, pub act: FAct, pub sticky: bool }

pub fn fact() -> impl Strategy<Value = FAct> {
    prop_oneof![
        2 => Just(FAct::Enospc), 2 => Just(FAct::Eio), 1 => Just(FAct::Emfile), 1 => Just(FAct::Edquot),
        1 => Just(FAct::Efbig), 1 => Just(FAct::Eacces), 1 => Just(FAct::Enomem), 2 => Just(FAct::Eintr),
        4 => prop_oneof![1u16..4, 1u16..60, 1u16..5000].prop_map(FAct::Short),
    ]
}

pub fn soft() -> impl Strategy<Value = FAct> {
    prop_oneof![1 => Just(FAct::Eintr), 3 => prop_oneof![1u16..4, 1u16..60, 1u16..5000].prop_map(FAct::Short)]
}

pub fn hard() -> impl Strategy<Value = FAct> {
    prop::sample::select(vec![FAct::Enospc, FAct::Eio, FAct::Emfile, FAct::Edquot, FAct::Efbig,
                              FAct::Eacces, FAct::Enomem])
}

pub fn fault() -> impl Strategy<Value = Fault> {
    (prop_oneof![3 => 0u16..12, 1 => any::<u16>()], fact(), prop::bool::weighted(0.3))
        .prop_map(|(at, act, sticky)| Fault { at, act, sticky })
}

#[derive(Default)]
pub struct Counts { pub n: AtomicU64, pub hard: AtomicU64, pub soft: AtomicU64 }

impl Counts {
    pub fn n(&self) -> u64 { self.n.load(Ordering::SeqCst) }
    pub fn hard(&self) -> u64 { self.hard.load(Ordering::SeqCst) }
    pub fn soft(&self) -> u64 { self.soft.load(Ordering::SeqCst) }
}

fn eligible(op: &Op, dir: &PathBuf) -> bool {
    match op.kind {
        Kind::Open => op.path.as_ref().map(|p| std::path::Path::new(p).starts_with(dir)).unwrap_or(false),
        Kind::Unlink | Kind::Madvise => false,
        Kind::Mmap => op.fd >= 0 && interpose::is_regular(op.fd),
        _ => interpose::is_regular(op.fd),
    }
}

/// What to do for an action at an operation: None if not applicable.
fn act_for(op: &Op, a: FAct) -> Option<(Act, bool)> {
    let xfer = matches!(op.kind, Kind::Read | Kind::Write | Kind::Pread | Kind::Pwrite);
    match a {
        FAct::Eintr => if xfer || op.kind == Kind::Open { Some((Act::Fail(libc::EINTR), false)) } else { None },
        FAct::Short(n) => if xfer && op.len > 0 { Some((Act::Short(n.max(1) as usize), false)) } else { None },
        a => Some((Act::Fail(a.errno()), true)),
    }
}

/// Hook injecting the faults; `total` is the operation count of a fault-free
/// run, or 0 to inject nothing and only count.
pub fn injector(dir: PathBuf, faults: &[Fault], total: u64) -> (Hook, Arc<Counts>) {
    injector_with(dir, faults, total, true)
}

/// Like `injector`, leaving file truncation alone.
pub fn injector_no_trunc(dir: PathBuf, faults: &[Fault], total: u64) -> (Hook, Arc<Counts>) {
    injector_with(dir, faults, total, false)
}

fn injector_with(dir: PathBuf, faults: &[Fault], total: u64, trunc: bool) -> (Hook, Arc<Counts>) {
    let c = Arc::new(Counts::default());
    let c2 = c.clone();
    let faults: Vec<Fault> = if total == 0 { vec![] } else {
        faults.iter().map(|f| Fault { at: (f.at as u64 % total) as u16, ..f.clone() }).collect()
    };
    let period = 2 + faults.iter().find(|f| f.sticky && f.act == FAct::Eintr).map_or(0, |f| f.at as u64 % 31);
    let hook: Hook = Arc::new(move |op| {
        if !eligible(op, &dir) || (!trunc && op.kind == Kind::Trunc) { return Act::Pass; }
        let k = c2.n.fetch_add(1, Ordering::SeqCst);
        for f in &faults {
            if k == f.at as u64 || (f.sticky && k > f.at as u64) {
                // A sticky interruption would never let an operation finish,
                // have runs of it
                if f.act == FAct::Eintr && k != f.at as u64 && k % period == 0 { continue; }
                if let Some((a, hard)) = act_for(op, f.act) {
                    if hard { &c2.hard } else { &c2.soft }.fetch_add(1, Ordering::SeqCst);
                    return a;
                }
            }
        }
        Act::Pass
    });
    (hook, c)
}
