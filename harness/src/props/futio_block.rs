//! C19 (where file operations happen) and C20 (faults and cancellation) of
//! the asynchronous wrappers.

use std::io;
use std::path::Path;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;

use blocking_permit::{
    deregister_dispatch_pool, register_dispatch_pool, Semaphore, Splittable,
};
use body_image::BodySink;
use body_image_futio::*;
use bytes::{Buf, Bytes};
use olio::mem::MemHandle;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::faults::*;
use crate::gen::*;
use crate::interpose::{self, Act, Hook, Kind, Op};
use super::futio::*;
use super::srv::Framing;

/// One transfer: a body streamed out, or items sent into a sink.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Job {
    Out { body: BodySpec, buf_fs: u16 },
    In { start: Start, tune: TuneSpec, items: Vec<Op18> },
}

fn job() -> BoxedStrategy<Job> {
    prop_oneof![
        1 => (body_spec(4000), 1u16..2000).prop_map(|(body, b)| {
            let buf_fs = b.max((body.blob.len / 40) as u16 + 1);
            Job::Out { body, buf_fs }
        }),
        1 => (start(), tune_unlimited(), prop::collection::vec(
                prop_oneof![6 => item_op(form().boxed()), 1 => Just(Op18::Flush)], 0..8))
            .prop_map(|(start, mut tune, items)| {
                if tune.max_ram > 20_000 { tune.max_ram = 500; }
                Job::In { start, tune, items }
            }),
    ].boxed()
}

impl Job {
    /// Whether the job has to read or write a file at all.
    fn needs_file(&self) -> bool {
        match self {
            Job::Out { body, .. } => !body.state.is_ram() && body.blob.len > 0,
            Job::In { start, tune, items } => {
                let mut have = match start { Start::Prefilled(n) | Start::PrefilledFs(n) => *n as u64, _ => 0 };
                let mut fs = start.is_fs();
                let mut wrote = false;
                for o in items {
                    if let Op18::Item { len, .. } = o {
                        let n = item_len(len, tune, have);
                        have += n;
                        if n > 0 { if have > tune.max_ram { fs = true; } if fs { wrote = true; } }
                    }
                }
                wrote
            }
        }
    }
}

/// The prepared wrapper of a job.
enum Wr { Out(Box<dyn AnyStream>, Vec<u8>), In(Box<dyn AnySink>, Vec<u8>) }

fn futio_tune(image: body_image::Tunables, policy: BlockingPolicy) -> FutioTunables {
    let mut t = FutioTuner::new();
    t.set_image(image).set_blocking_policy(policy).set_stream_item_size(700);
    t.finish()
}

impl Job {
    fn prepare(&self, k: SK, b: BK, policy: BlockingPolicy, dir: &Path) -> R<Wr> {
        match self {
            Job::Out { body, buf_fs } => {
                let mut t = body_image::Tuner::new();
                t.set_buffer_size_fs(*buf_fs as usize).set_temp_dir(dir);
                let img = body.build(dir)?;
                Ok(Wr::Out(any_stream(k, b, img, futio_tune(t.finish(), policy), false), body.blob.bytes()))
            }
            Job::In { start, tune, .. } => {
                let (s, model) = start.sink(dir)?;
                Ok(Wr::In(any_sink(k, b, s, futio_tune(tune.tunables(dir), policy)), model))
            }
        }
    }
}

/// How one wrapper call came out.
enum Out { Item(Vec<u8>), End, Ok, Err(String) }

/// A drivable sequence of calls on a prepared wrapper. `step` is called with
/// a closure that polls to completion.
struct Runner<'a> { job: &'a Job, wr: Wr, at: usize, got: Vec<u8>, model: Vec<u8>, sent: usize, mdir: std::path::PathBuf, done: bool }

impl<'a> Runner<'a> {
    fn new(job: &'a Job, wr: Wr, mdir: std::path::PathBuf) -> Runner<'a> {
        let model = match &wr { Wr::Out(_, d) => d.clone(), Wr::In(_, d) => d.clone() };
        Runner { job, wr, at: 0, got: vec![], model, sent: 0, mdir, done: false }
    }
    fn is_out(&self) -> bool { matches!(self.wr, Wr::Out(..)) }

    /// One call that may block. None when finished.
    fn step(&mut self, drive: &mut dyn FnMut(&mut dyn FnMut(&mut std::task::Context<'_>) -> Poll<Out>) -> R<Out>) -> R<Option<Out>> {
        if self.done { return Ok(None); }
        let out = match (&mut self.wr, self.job) {
            (Wr::Out(s, _), _) => {
                let o = drive(&mut |cx| s.poll(cx).map(|o| match o {
                    Some(Ok(v)) => Out::Item(v),
                    Some(Err(e)) => Out::Err(format!("{:?}", e)),
                    None => Out::End,
                }))?;
                match &o {
                    Out::Item(v) => self.got.extend_from_slice(v),
                    _ => self.done = true,
                }
                o
            }
            (Wr::In(s, _), Job::In { tune, items, .. }) => {
                let map = |p: Poll<Result<(), FutioError>>| p.map(|r| match r {
                    Ok(()) => Out::Ok, Err(e) => Out::Err(format!("{:?}", e)) });
                let o = match items.get(self.at) {
                    None => {
                        self.done = true;
                        drive(&mut |cx| map(s.close(cx)))?
                    }
                    Some(Op18::Flush) => drive(&mut |cx| map(s.flush(cx)))?,
                    Some(Op18::Item { len, fill, seed, form }) => {
                        let r = drive(&mut |cx| map(s.ready(cx)))?;
                        if let Out::Ok = r {
                            let n = item_len(len, tune, self.model.len() as u64);
                            let d = fill_bytes(n as usize, fill, *seed as u64);
                            match s.send(&d, *form, &self.mdir)? {
                                Ok(()) => { self.model.extend_from_slice(&d); self.sent += 1; Out::Ok }
                                Err(e) => Out::Err(format!("{:?}", e)),
                            }
                        } else { r }
                    }
                };
                self.at += 1;
                if let Out::Err(_) = o { self.done = true; }
                o
            }
            _ => unreachable!(),
        };
        Ok(Some(out))
    }

    /// Content after a run without error.
    fn check_complete(self) -> R {
        match self.wr {
            Wr::Out(..) => ensure!(self.got == self.model, "content", "{}", diff(&self.model, &self.got)),
            Wr::In(s, _) => {
                let img = s.inner().prepare().v("prepare", "prepare")?;
                let got = read_body(&img)?;
                ensure!(got == self.model, "content", "{}", diff(&self.model, &got));
            }
        }
        Ok(())
    }

    fn check_prefix(&self) -> R {
        if self.is_out() {
            ensure!(self.model.starts_with(&self.got), "not-prefix", "{}", diff(&self.model, &self.got));
        }
        Ok(())
    }
}

fn poll_wait(p: &mut Poller, f: &mut dyn FnMut(&mut std::task::Context<'_>) -> Poll<Out>) -> R<Out> {
    loop {
        match p.poll(&mut *f) {
            Poll::Ready(o) => return Ok(o),
            Poll::Pending => ensure!(p.wait(), "no-wake", "pending was not followed by a wake-up"),
        }
    }
}

// ------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mode19 {
    /// One wrapper; with all permits taken, or the pool kept busy, at the
    /// calls given; stopped (dropped) after some calls if `stop`.
    Single { block: Vec<bool>, stop: Option<u8>, permits: u8 },
    /// Permit or pool not available at all.
    Nothing,
    /// Several at once over fewer permits or pool threads, on threads.
    Many { more: Vec<Job>, permits: u8 },
    /// Failing file operation.
    Failing { faults: Vec<Fault>, permits: u8 },
    /// A response fetched from a server.
    Fetch { framing: Framing, writes: Vec<u16>, len: u16, max_ram: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C19Case { dispatch: bool, buf: BK, job: Job, mode: Mode19, fresh: bool }

pub struct C19;

fn file_op(op: &Op, dir: &Path) -> bool {
    match op.kind {
        Kind::Unlink | Kind::Madvise => false,
        Kind::Open => op.path.as_ref().map(|p| Path::new(p).starts_with(dir)).unwrap_or(false),
        _ => op.fd > 2 && interpose::is_regular(op.fd),
    }
}

type Seen = Arc<Mutex<(u64, Option<String>)>>;

fn note(seen: &Seen, bad: Option<String>) {
    if let Ok(mut g) = seen.lock() {
        g.0 += 1;
        if g.1.is_none() { g.1 = bad; }
    }
}

/// Records whether operations happen where they should.
fn watch(dispatch: bool, dir: &Path, sem: &'static Semaphore, total: usize, held: Arc<AtomicUsize>) -> (Hook, Seen) {
    let seen: Seen = Default::default();
    let s2 = seen.clone();
    let dir = dir.to_path_buf();
    let hook: Hook = Arc::new(move |op| {
        if file_op(op, &dir) {
            let bad = if dispatch {
                if IS_POOL.with(|p| p.get()) { None } else { Some(format!("{:?} not on a pool thread", op.kind)) }
            } else {
                let (a, h) = (sem.available_permits(), held.load(Ordering::SeqCst));
                if a + h < total { None } else { Some(format!("{:?} with {} of {} permits free, {} of them kept by others", op.kind, a, total, h)) }
            };
            note(&s2, bad);
        }
        Act::Pass
    });
    (hook, seen)
}

impl C19 {
    fn single(&self, c: &C19Case, block: &[bool], stop: Option<u8>, permits: u8, ctx: &mut Ctx) -> R {
        let total = permits.max(1) as usize;
        let sem = semaphore(total);
        let kind = if c.dispatch { SK::Dispatch } else { SK::Permit };
        let policy = if c.dispatch { BlockingPolicy::Dispatch } else { BlockingPolicy::Permit(sem) };
        let pool = PoolSpec { size: 1, queue: None }.create();
        let _reg = Registered::new(pool.clone());
        let wr = c.job.prepare(kind, c.buf, policy, &ctx.dir)?;
        let mut run = Runner::new(&c.job, wr, ctx.subdir("m")?);
        let held = Arc::new(AtomicUsize::new(0));
        let (hook, seen) = watch(c.dispatch, &ctx.dir, sem, total, held.clone());
        let mut p = Poller::new(c.fresh);
        let mut waited = 0u64;
        let mut dropped = false;
        // Whether content now on its way through the wrapper needs blocking
        let out_fs = matches!(&c.job, Job::Out { body, .. } if !body.state.is_ram());
        interpose::with(hook, || -> R {
            let mut i = 0usize;
            loop {
                if let Some(s) = stop { if i as u64 >= s as u64 % 6 + 1 { dropped = true; break; } }
                let blocked = !block.is_empty() && block[i % block.len()];
                i += 1;
                let mut gate = None;
                let mut taken = vec![];
                if blocked {
                    if c.dispatch {
                        // Keep the only pool thread busy
                        let (tx, rx) = std::sync::mpsc::channel::<()>();
                        pool.spawn(Box::new(move || { rx.recv().ok(); }));
                        gate = Some(tx);
                    } else {
                        while let Ok(t) = sem.try_acquire() { taken.push(t); }
                        held.store(taken.len(), Ordering::SeqCst);
                    }
                }
                let last_stop = stop.map(|s| i as u64 >= s as u64 % 6 + 1).unwrap_or(false);
                let mut abandoned = false;
                let r = run.step(&mut |f| {
                    let r = p.poll(&mut *f);
                    if blocked {
                        match &r {
                            Poll::Ready(Out::Item(v)) if out_fs => viol!("item-while-blocked",
                                "item of {} bytes of a file body with no {} available", v.len(),
                                if c.dispatch { "pool thread" } else { "permit" }),
                            Poll::Pending => {
                                waited += 1;
                                if last_stop { abandoned = true; return Ok(Out::End); }
                                held.store(0, Ordering::SeqCst);
                                taken.clear();
                                gate.take();
                            }
                            _ => {}
                        }
                    }
                    match r {
                        Poll::Ready(o) => Ok(o),
                        Poll::Pending => {
                            ensure!(p.wait(), "no-wake", "pending was not followed by a wake-up");
                            poll_wait(&mut p, f)
                        }
                    }
                })?;
                held.store(0, Ordering::SeqCst);
                if abandoned { dropped = true; break; }
                match r {
                    None => break,
                    Some(Out::Err(e)) => viol!("error", "unexpected error {}", e),
                    _ => {}
                }
            }
            Ok(())
        })?;
        if dropped {
            run.check_prefix()?;
            drop(run);
            ctx.class("dropped");
        } else {
            run.check_complete()?;
        }
        let g = seen.lock().unwrap().clone();
        if let Some(b) = g.1 { viol!("misplaced", "{}", b); }
        ensure!(sem.available_permits() == total, "permit-leak", "{} of {} permits at the end", sem.available_permits(), total);
        if c.job.needs_file() && !dropped && block.iter().any(|b| *b) && block.len() == 1 {
            ensure!(waited > 0, "never-blocked", "file operations done although nothing allowed them");
        }
        ctx.class_if(waited > 0, "blocked");
        ctx.nontrivial_if(g.0 > 0 || waited > 0);
        Ok(())
    }

    fn nothing(&self, c: &C19Case, ctx: &mut Ctx) -> R {
        if c.job.needs_file() { ctx.class("not-ram"); return Ok(()); }
        let kind = if c.dispatch { SK::Dispatch } else { SK::Permit };
        let sem = semaphore(1);
        let _all = sem.try_acquire().h("acquire")?;
        let policy = if c.dispatch { BlockingPolicy::Dispatch } else if c.fresh { BlockingPolicy::Permit(sem) } else { BlockingPolicy::Direct };
        let wr = c.job.prepare(kind, c.buf, policy, &ctx.dir)?;
        let mut run = Runner::new(&c.job, wr, ctx.subdir("m")?);
        let mut p = Poller::new(false);
        loop {
            match run.step(&mut |f| match p.poll(&mut *f) {
                Poll::Ready(o) => Ok(o),
                Poll::Pending => violation("ram-pending", "pending with everything in RAM"),
            })? {
                None => break,
                Some(Out::Err(e)) => viol!("error", "unexpected error {}", e),
                _ => {}
            }
        }
        let some = run.model.len() > 0;
        run.check_complete()?;
        ctx.class("ram-only");
        ctx.nontrivial_if(some);
        Ok(())
    }

    fn many(&self, c: &C19Case, more: &[Job], permits: u8, ctx: &mut Ctx) -> R {
        let total = permits.max(1) as usize;
        let sem = semaphore(total);
        let kind = if c.dispatch { SK::Dispatch } else { SK::Permit };
        let policy = if c.dispatch { BlockingPolicy::Dispatch } else { BlockingPolicy::Permit(sem) };
        let pool = PoolSpec { size: total as u8, queue: None }.create();
        let mut jobs = vec![c.job.clone()];
        jobs.extend_from_slice(more);
        let mut wrs = vec![];
        for j in &jobs { wrs.push(j.prepare(kind, c.buf, policy, &ctx.dir)?); }
        let mdir = ctx.subdir("m")?;
        let active = Arc::new(AtomicUsize::new(0));
        let most = Arc::new(AtomicUsize::new(0));
        let seen: Seen = Default::default();
        let hook: Hook = {
            let (active, most, seen, dir, dispatch) = (active.clone(), most.clone(), seen.clone(), ctx.dir.clone(), c.dispatch);
            Arc::new(move |op| {
                if file_op(op, &dir) {
                    let n = active.fetch_add(1, Ordering::SeqCst) + 1;
                    most.fetch_max(n, Ordering::SeqCst);
                    std::thread::sleep(Duration::from_micros(30));
                    let bad = if dispatch && !IS_POOL.with(|p| p.get()) { Some(format!("{:?} not on a pool thread", op.kind)) }
                        else if !dispatch && sem.available_permits() >= total { Some(format!("{:?} with all permits free", op.kind)) }
                        else { None };
                    note(&seen, bad);
                    active.fetch_sub(1, Ordering::SeqCst);
                }
                Act::Pass
            })
        };
        let res: Vec<R> = interpose::with(hook, || std::thread::scope(|sc| {
            let hs: Vec<_> = jobs.iter().zip(wrs).map(|(j, wr)| {
                let (pool, mdir, fresh) = (pool.clone(), mdir.clone(), c.fresh);
                let out = sc.spawn(move || -> R<Runner<'_>> {
                    let _reg = Registered::new(pool);
                    let mut run = Runner::new(j, wr, mdir);
                    let mut p = Poller::new(fresh);
                    loop {
                        match run.step(&mut |f| poll_wait(&mut p, f))? {
                            None => break,
                            Some(Out::Err(e)) => viol!("error", "unexpected error {}", e),
                            _ => {}
                        }
                    }
                    Ok(run)
                });
                out
            }).collect();
            hs.into_iter().map(|h| match h.join() {
                Ok(Ok(run)) => interpose::muted(|| run.check_complete()),
                Ok(Err(e)) => Err(e),
                Err(_) => Err(Fail::Violation { sig: "thread-panic".into(), msg: "panic while driving".into() }),
            }).collect()
        }));
        for r in res { r?; }
        let g = seen.lock().unwrap().clone();
        if let Some(b) = g.1 { viol!("misplaced", "{}", b); }
        let m = most.load(Ordering::SeqCst);
        ensure!(m <= total, "too-many", "{} operations at once with {} {}", m, total, if c.dispatch { "pool threads" } else { "permits" });
        ensure!(sem.available_permits() == total, "permit-leak", "{} of {} permits at the end", sem.available_permits(), total);
        ctx.class("many");
        ctx.class_if(m == total && jobs.len() > total, "saturated");
        ctx.nontrivial_if(g.0 > 1);
        Ok(())
    }

    fn failing(&self, c: &C19Case, faults: &[Fault], permits: u8, ctx: &mut Ctx) -> R {
        // First without faults, for the number of operations
        let n = self.failing_run(c, &[], 0, permits, ctx)?.0;
        if n == 0 { ctx.class("no-operations"); return Ok(()); }
        let hard = self.failing_run(c, faults, n, permits, ctx)?.1;
        ctx.class_if(hard > 0, "failed");
        ctx.nontrivial_if(hard > 0);
        Ok(())
    }

    fn failing_run(&self, c: &C19Case, faults: &[Fault], ops: u64, permits: u8, ctx: &mut Ctx) -> R<(u64, u64)> {
        let total = permits.max(1) as usize;
        let sem = semaphore(total);
        let kind = if c.dispatch { SK::Dispatch } else { SK::Permit };
        let policy = if c.dispatch { BlockingPolicy::Dispatch } else { BlockingPolicy::Permit(sem) };
        let _reg = Registered::new(PoolSpec { size: 1, queue: None }.create());
        let wr = c.job.prepare(kind, c.buf, policy, &ctx.dir)?;
        let mut run = Runner::new(&c.job, wr, ctx.subdir("m")?);
        let held = Arc::new(AtomicUsize::new(0));
        let (w, seen) = watch(c.dispatch, &ctx.dir, sem, total, held);
        let (inj, cnt) = injector(ctx.dir.clone(), faults, ops);
        let hook: Hook = Arc::new(move |op| { w(op); inj(op) });
        let mut p = Poller::new(c.fresh);
        interpose::with(hook, || -> R {
            while let Some(o) = run.step(&mut |f| poll_wait(&mut p, f))? {
                if let Out::Err(_) = o { break; }
                ensure!(sem.available_permits() == total, "permit-kept", "permit kept between calls");
            }
            Ok(())
        })?;
        ensure!(sem.available_permits() == total, "permit-leak", "{} of {} permits after failure", sem.available_permits(), total);
        drop(run);
        ensure!(sem.available_permits() == total, "permit-leak", "{} of {} permits at the end", sem.available_permits(), total);
        let g = seen.lock().unwrap().clone();
        if let Some(b) = g.1 { viol!("misplaced", "{}", b); }
        Ok((cnt.n(), cnt.hard()))
    }

    #[cfg(feature = "net")]
    fn fetch(&self, c: &C19Case, framing: Framing, writes: &[u16], len: u16, max_ram: u16, ctx: &mut Ctx) -> R {
        let sem = semaphore(1);
        let policy = if c.dispatch { BlockingPolicy::Dispatch } else { BlockingPolicy::Permit(sem) };
        let _reg = Registered::new(PoolSpec { size: 1, queue: None }.create());
        let mut t = body_image::Tuner::new();
        t.set_max_body_ram(max_ram as u64).set_temp_dir(&ctx.dir);
        let data = fill_bytes(len as usize, &Fill::Random, len as u64);
        let (w, seen) = watch(c.dispatch, &ctx.dir, sem, 1, Default::default());
        // The client itself creates the file for a response known to need one
        let hook: Hook = Arc::new(move |op| if matches!(op.kind, Kind::Write | Kind::Pwrite) { w(op) } else { Act::Pass });
        let img = interpose::with(hook, || super::net::policy_fetch(&data, framing, writes, futio_tune(t.finish(), policy)))?;
        let got = read_body(&img)?;
        ensure!(got == data, "content", "{}", diff(&data, &got));
        let g = seen.lock().unwrap().clone();
        if let Some(b) = g.1 { viol!("misplaced", "fetching: {}", b); }
        ensure!(sem.available_permits() == 1, "permit-leak", "{} of 1 permits at the end", sem.available_permits());
        ctx.class_if(g.0 > 0, "fetched");
        ctx.nontrivial_if(g.0 > 0);
        Ok(())
    }
    #[cfg(not(feature = "net"))]
    fn fetch(&self, _: &C19Case, _: Framing, _: &[u16], _: u16, _: u16, _: &mut Ctx) -> R {
        Err(Fail::Harness("built without the client".into()))
    }
}

impl Prop for C19 {
    type Case = C19Case;
    fn id(&self) -> &'static str { "C19" }
    fn rule(&self) -> &'static str {
        "a file operation was observed, or a call had to wait for a permit or pool thread, or a non-empty RAM body went through with neither available"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the dispatch pool's queue is unbounded (a bounded pool runs operations on the caller by its own rules)",
             "content of a memory mapped body counts as file content"]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<C19Case> {
        let mode = prop_oneof![
            4 => (prop_oneof![2 => Just(vec![true]), 3 => prop::collection::vec(any::<bool>(), 0..5)],
                  prop::option::weighted(0.35, 0u8..20), 1u8..4)
                .prop_map(|(block, stop, permits)| Mode19::Single { block, stop, permits }),
            2 => Just(Mode19::Nothing),
            1 => (prop::collection::vec(job(), 1..5), 1u8..3).prop_map(|(more, permits)| Mode19::Many { more, permits }),
            2 => (prop::collection::vec(fault(), 1..3), 1u8..3).prop_map(|(faults, permits)| Mode19::Failing { faults, permits }),
        ];
        let framing = prop_oneof![Just(Framing::Length), Just(Framing::Chunked), Just(Framing::Close)];
        let fetch = (framing, prop::collection::vec(1u16..3000, 0..4), 0u16..20_000, prop_oneof![Just(0u16), 0u16..12_000])
            .prop_map(|(framing, writes, len, max_ram)| Mode19::Fetch { framing, writes, len, max_ram });
        let mode = prop_oneof![99 => mode, (if cfg!(feature = "net") { 1 } else { 0 }) => fetch];
        (any::<bool>(), bk(), job(), mode, any::<bool>()).prop_map(|(dispatch, buf, mut job, mode, fresh)| {
            if let Mode19::Nothing = mode {
                // Construct what stays in RAM
                match &mut job {
                    Job::Out { body, .. } => if !body.state.is_ram() { body.state = State::RamN; },
                    Job::In { start, tune, .. } => {
                        if start.is_fs() { *start = Start::Ram; }
                        if tune.max_ram < 15_000 { tune.max_ram = 1 << 20; }
                    }
                }
            }
            C19Case { dispatch, buf, job, mode, fresh }
        }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(100_000, 1_000_000) }
    fn run(&self, c: &C19Case, ctx: &mut Ctx) -> R {
        quiesce()?;
        ctx.class(if c.dispatch { "dispatch" } else { "permit" });
        ctx.class(if matches!(c.job, Job::Out { .. }) { "stream" } else { "sink" });
        match &c.mode {
            Mode19::Single { block, stop, permits } => self.single(c, block, *stop, *permits, ctx),
            Mode19::Nothing => self.nothing(c, ctx),
            Mode19::Many { more, permits } => self.many(c, more, *permits, ctx),
            Mode19::Failing { faults, permits } => self.failing(c, faults, *permits, ctx),
            Mode19::Fetch { framing, writes, len, max_ram } => self.fetch(c, *framing, writes, *len, *max_ram, ctx),
        }
    }
}

// ------------------------------------------------------------- C20

/// A buffer whose construction or access unwinds at a chosen time, which
/// cancels the dispatched operation it happens in.
pub struct Frail(Bytes);

static FUSE: AtomicI64 = AtomicI64::new(-1);

fn burn() {
    if IS_POOL.with(|p| p.get()) && FUSE.fetch_sub(1, Ordering::SeqCst) == 0 {
        std::panic::resume_unwind(Box::new("canceled"));
    }
}

impl Buf for Frail {
    fn remaining(&self) -> usize { self.0.remaining() }
    fn chunk(&self) -> &[u8] { self.0.chunk() }
    fn advance(&mut self, n: usize) { self.0.advance(n) }
}
impl From<Bytes> for Frail { fn from(b: Bytes) -> Frail { burn(); Frail(b) } }
impl From<Frail> for Bytes { fn from(b: Frail) -> Bytes { b.0 } }
impl AsRef<[u8]> for Frail { fn as_ref(&self) -> &[u8] { burn(); &self.0 } }
impl Splittable for Frail {
    fn split_if(&mut self, max: usize) -> Option<Frail> { self.0.split_if(max).map(Frail) }
}
impl OutputBuf for Frail {
    fn from_mmap(m: MemHandle<memmap::Mmap>) -> Result<Frail, io::Error> { burn(); Ok(Frail(Bytes::copy_from_slice(&m[..]))) }
}
impl InputBuf for Frail {}
impl FromForm for Frail {
    fn from_form(data: &[u8], form: Form, dir: &Path) -> R<Frail> { Ok(Frail(Bytes::from_form(data, form, dir)?)) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Event {
    Faults(Vec<Fault>),
    /// Semaphore closed before the given call, or while that call waits.
    Close { at: u8, waiting: bool },
    /// The pool handle dropped while the given call's operation is queued.
    PoolGone { at: u8 },
    /// The dispatched operation ends without result.
    Cancel { at: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C20Case { kind: SK, buf: BK, job: Job, event: Event, fresh: bool }

pub struct C20;

impl C20 {
    fn faults(&self, c: &C20Case, faults: &[Fault], ctx: &mut Ctx) -> R {
        let sem = semaphore(1);
        let policy = match c.kind { SK::Permit => BlockingPolicy::Permit(sem), SK::Dispatch => BlockingPolicy::Dispatch, _ => BlockingPolicy::Direct };
        let _reg = Registered::new(PoolSpec { size: 1, queue: None }.create());
        let mut total = 0;
        for pass in 0..2 {
            let wr = c.job.prepare(c.kind, c.buf, policy, &ctx.dir)?;
            let mut run = Runner::new(&c.job, wr, ctx.subdir("m")?);
            let (hook, cnt) = injector(ctx.dir.clone(), faults, total);
            let mut p = Poller::new(c.fresh);
            let mut err = None;
            interpose::with(hook, || -> R {
                while let Some(o) = run.step(&mut |f| poll_wait(&mut p, f))? {
                    if let Out::Err(e) = o { err = Some(e); break; }
                    run.check_prefix()?;
                }
                Ok(())
            })?;
            match err {
                Some(e) => {
                    ensure!(cnt.hard() > 0, "spurious-error", "error without a failing operation (interrupted or short: {}): {}", cnt.soft(), e);
                    run.check_prefix()?;
                    ctx.class("error-surfaced");
                    ctx.nontrivial();
                }
                None => {
                    run.check_complete()?;
                    if pass == 1 {
                        ctx.class_if(cnt.soft() > 0, "soft-only");
                        ctx.nontrivial_if(cnt.soft() > 0);
                    }
                }
            }
            total = cnt.n();
            if total == 0 { ctx.class("no-operation"); break; }
        }
        Ok(())
    }

    fn close(&self, c: &C20Case, at: u8, waiting: bool, ctx: &mut Ctx) -> R {
        let sem = semaphore(1);
        let wr = c.job.prepare(SK::Permit, c.buf, BlockingPolicy::Permit(sem), &ctx.dir)?;
        let mut run = Runner::new(&c.job, wr, ctx.subdir("m")?);
        let mut p = Poller::new(c.fresh);
        let at = at as usize % 5;
        let mut i = 0;
        let mut err = false;
        let mut closed_waiting = false;
        loop {
            let hold = if i == at && waiting { sem.try_acquire().ok() } else { None };
            if i == at && !waiting { sem.close(); }
            let r = run.step(&mut |f| {
                if hold.is_some() {
                    match p.poll(&mut *f) {
                        Poll::Ready(o) => { sem.close(); return Ok(o) }
                        Poll::Pending => { sem.close(); closed_waiting = true; }
                    }
                    ensure!(p.wait(), "no-wake", "waiting for a permit was not woken when the semaphore was closed");
                }
                poll_wait(&mut p, f)
            })?;
            i += 1;
            match r {
                None => break,
                Some(Out::Err(_)) => {
                    ensure!(i > at, "spurious-error", "error before the semaphore was closed");
                    err = true;
                    break;
                }
                Some(Out::Item(_)) if i > at => {
                    ensure!(!c.job.needs_file(), "item-after-close", "file content delivered with the semaphore closed");
                }
                _ => {}
            }
        }
        ensure!(!err || c.job.needs_file(), "needless-error", "error although no file operation is needed");
        if err { run.check_prefix()?; } else { run.check_complete()?; }
        ensure!(!closed_waiting || err, "close-unnoticed", "no error after the semaphore was closed while waiting");
        ctx.class_if(err, "semaphore-closed");
        ctx.class_if(closed_waiting, "closed-while-waiting");
        ctx.nontrivial_if(err);
        Ok(())
    }

    fn pool_gone(&self, c: &C20Case, at: u8, ctx: &mut Ctx) -> R {
        register_dispatch_pool(PoolSpec { size: 1, queue: None }.create());
        struct G;
        impl Drop for G { fn drop(&mut self) { deregister_dispatch_pool(); } }
        let _g = G;
        let wr = c.job.prepare(SK::Dispatch, c.buf, BlockingPolicy::Dispatch, &ctx.dir)?;
        let mut run = Runner::new(&c.job, wr, ctx.subdir("m")?);
        let mut p = Poller::new(c.fresh);
        let at = at as usize % 5;
        let mut i = 0;
        let mut gone = false;
        let mut err = false;
        loop {
            let r = run.step(&mut |f| {
                if i == at {
                    let (tx, rx) = std::sync::mpsc::channel::<()>();
                    blocking_permit::dispatch(move || { rx.recv().ok(); });
                    match p.poll(&mut *f) {
                        Poll::Ready(o) => { tx.send(()).ok(); return Ok(o) }
                        Poll::Pending => {
                            drop(deregister_dispatch_pool());
                            tx.send(()).ok();
                            gone = true;
                        }
                    }
                    ensure!(p.wait(), "no-wake", "dispatched operation never resolved after the pool was dropped");
                    // Available for what follows
                    register_dispatch_pool(PoolSpec { size: 1, queue: None }.create());
                }
                poll_wait(&mut p, f)
            })?;
            i += 1;
            match r {
                None => break,
                Some(Out::Err(_)) => { ensure!(gone, "spurious-error", "error with the pool in place"); err = true; break; }
                _ => {}
            }
        }
        if err { run.check_prefix()?; } else { run.check_complete()?; }
        ctx.class_if(gone, "pool-gone");
        ctx.nontrivial_if(gone);
        Ok(())
    }

    fn cancel(&self, c: &C20Case, at: u8, ctx: &mut Ctx) -> R {
        let mut b = pool_builder(1);
        b.ignore_panics(true);
        let _reg = Registered::new(b.create());
        struct G;
        impl Drop for G { fn drop(&mut self) { FUSE.store(-1, Ordering::SeqCst); } }
        let _g = G;
        let wr = match &c.job {
            Job::Out { body, buf_fs } => {
                let mut t = body_image::Tuner::new();
                t.set_buffer_size_fs(*buf_fs as usize).set_temp_dir(&ctx.dir);
                let img = body.build(&ctx.dir)?;
                Wr::Out(stream_of::<Frail>(SK::Dispatch, img, futio_tune(t.finish(), BlockingPolicy::Dispatch), false), body.blob.bytes())
            }
            Job::In { start, tune, .. } => {
                let (s, m): (BodySink, Vec<u8>) = start.sink(&ctx.dir)?;
                Wr::In(sink_of::<Frail>(SK::Dispatch, s, futio_tune(tune.tunables(&ctx.dir), BlockingPolicy::Dispatch)), m)
            }
        };
        FUSE.store(at as i64 % 6, Ordering::SeqCst);
        let mut run = Runner::new(&c.job, wr, ctx.subdir("m")?);
        let mut p = Poller::new(c.fresh);
        let mut err = None;
        while let Some(o) = run.step(&mut |f| poll_wait(&mut p, f))? {
            if let Out::Err(e) = o { err = Some(e); break; }
        }
        let burnt = FUSE.load(Ordering::SeqCst) < 0;
        match err {
            Some(e) => {
                ensure!(burnt, "spurious-error", "error without cancellation: {}", e);
                run.check_prefix()?;
            }
            None => {
                ensure!(!burnt, "cancel-lost", "operation canceled without any error");
                run.check_complete()?;
            }
        }
        ctx.class_if(burnt, "canceled");
        ctx.nontrivial_if(burnt);
        Ok(())
    }
}

impl Prop for C20 {
    type Case = C20Case;
    fn id(&self) -> &'static str { "C20" }
    fn rule(&self) -> &'static str {
        "a fault, interruption, short transfer, closed semaphore or cancellation actually hit an operation of the wrapper"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a wrapper is not used any more after it gave an error",
             "a failing operation whose effect is made up for (complete, exact content) need not be reported"]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<C20Case> {
        let event = prop_oneof![
            6 => prop_oneof![
                2 => prop::collection::vec(fault(), 1..4),
                1 => prop::collection::vec((0u16..12, soft(), any::<bool>()).prop_map(|(at, act, sticky)| Fault { at, act, sticky }), 1..4),
                1 => (0u16..12, hard()).prop_map(|(at, act)| vec![Fault { at, act, sticky: false }]),
            ].prop_map(Event::Faults),
            2 => (0u8..5, any::<bool>()).prop_map(|(at, waiting)| Event::Close { at, waiting }),
            1 => (0u8..5).prop_map(|at| Event::PoolGone { at }),
            1 => (0u8..6).prop_map(|at| Event::Cancel { at }),
        ];
        (sk(), bk(), job(), event, any::<bool>()).prop_map(|(kind, buf, mut job, event, fresh)| {
            // Favour jobs which use a file
            match &mut job {
                Job::Out { body, .. } => {
                    if body.state.is_ram() && body.pad % 3 != 1 { body.state = State::Fs; }
                    if body.state.is_map() && matches!(event, Event::Faults(_)) {
                        body.state = if body.state == State::FsMap { State::Fs } else { State::Slice };
                    }
                }
                Job::In { start, tune, .. } => if !start.is_fs() && tune.max_ram > 700 { tune.max_ram %= 500; },
            }
            let kind = if let Job::In { .. } = job {
                match kind { SK::Split | SK::Yield => SK::Async, k => k }
            } else { kind };
            C20Case { kind, buf, job, event, fresh }
        }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(150_000, 1_500_000) }
    fn run(&self, c: &C20Case, ctx: &mut Ctx) -> R {
        quiesce()?;
        ctx.class(if matches!(c.job, Job::Out { .. }) { "stream" } else { "sink" });
        match &c.event {
            Event::Faults(f) => { ctx.class(format!("kind-{}", c.kind.name())); self.faults(c, f, ctx) }
            Event::Close { at, waiting } => self.close(c, *at, *waiting, ctx),
            Event::PoolGone { at } => self.pool_gone(c, *at, ctx),
            Event::Cancel { at } => self.cancel(c, *at, ctx),
        }
    }
}
