//! C10, C11: readers at every writer step, and concurrent writers.

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use barc::{BarcFile, BarcReader};
use body_image::Tunables;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;
use crate::interpose::{self, Act, Kind};
use crate::rec::*;

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C10Case { recs: Vec<RecSpec>, tune: TuneSpec, short: Option<u16>, copy: bool }

pub struct C10;

struct Watch {
    models: Vec<RecModel>,
    done: usize,
    /// The record in progress has been seen
    seen: bool,
    long: BarcReader,
    next: usize,
    fail: Option<Fail>,
    points: u64,
    checks_left: u64,
}

impl Watch {
    fn look(&mut self, bf: &BarcFile, tune: &Tunables) -> R {
        // fresh reader
        let mut r = bf.reader().v("open", "opening reader")?;
        let mut i = 0;
        loop {
            let at = r.offset();
            let x = r.read(tune).v("reader-error", &format!("reader during write of record {}", self.done))?;
            match x {
                Some(x) => {
                    ensure!(i <= self.done && i < self.models.len(), "phantom", "reader found a record {} while {} are complete", i, self.done);
                    compare(&x, &self.models[i], &format!("record {} during write of {}", i, self.done))?;
                    i += 1;
                }
                None => {
                    ensure!(r.offset() == at, "end-offset", "offset moved from {} to {} at end", at, r.offset());
                    break;
                }
            }
        }
        ensure!(i >= self.done, "hidden", "reader found {} of {} complete records", i, self.done);
        let now = i > self.done;
        ensure!(now || !self.seen, "vanished", "record {} was visible and no longer is", self.done);
        self.seen |= now;
        // long-lived reader, one step
        let at = self.long.offset();
        match self.long.read(tune).v("reader-error", &format!("long-lived reader during write of {}", self.done))? {
            Some(x) => {
                ensure!(self.next < i, "phantom", "long-lived reader found record {} of {}", self.next, i);
                compare(&x, &self.models[self.next], &format!("record {} by long-lived reader", self.next))?;
                self.next += 1;
            }
            None => {
                ensure!(self.next >= i, "hidden", "long-lived reader at {} found end, {} visible", self.next, i);
                ensure!(self.long.offset() == at, "end-offset", "long-lived offset moved at end");
            }
        }
        Ok(())
    }
}

impl Prop for C10 {
    type Case = C10Case;
    fn id(&self) -> &'static str { "C10" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self) -> &'static str {
        "1-3 records written with any strategy; before every file operation of the writer on the archive (all boundaries, optionally with payload writes split) a fresh and a long-lived reader run on the file as it then is, as after a kill at that point; non-trivial: at least 4 boundaries inspected"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a single write of the 54 byte record head is not split by the operating system",
             "a kill leaves what completed file operations wrote (no power loss)"]
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(12_000, 80_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C10Case> {
        (prop::collection::vec(rec_spec(5000, 5), 1..4), tune_unlimited(),
         prop::option::weighted(0.4, prop_oneof![1u16..60, 60u16..4000]), any::<bool>())
            .prop_map(|(recs, tune, short, copy)| C10Case { recs, tune, short, copy }).boxed()
    }
    fn run(&self, c: &C10Case, ctx: &mut Ctx) -> R {
        let path = ctx.dir.join("a.barc");
        let src = ctx.subdir("src")?;
        let td = ctx.subdir("tmp")?;
        let tune = c.tune.tunables(&td);
        let bf = BarcFile::new(&path);
        drop(bf.writer().v("writer", "writer")?);
        let wf = BarcFile::new(&path);
        let ino = {
            use std::os::unix::fs::MetadataExt;
            let m = std::fs::metadata(&path).h("metadata")?;
            (m.dev(), m.ino())
        };
        let recs: Vec<_> = c.recs.iter().map(|r| r.build(&src)).collect::<R<Vec<_>>>()?;
        let watch = Arc::new(Mutex::new(Watch {
            models: c.recs.iter().map(|r| r.model()).collect(),
            done: 0, seen: false, long: bf.reader().v("reader", "reader")?, next: 0, fail: None, points: 0,
            checks_left: 400,
        }));
        let bf = Arc::new(bf);
        let (w2, b2, t2, short) = (watch.clone(), bf.clone(), tune.clone(), c.short);
        let hook: interpose::Hook = Arc::new(move |op| {
            let mutating = matches!(op.kind, Kind::Write | Kind::Pwrite | Kind::Seek | Kind::Trunc);
            if !mutating || interpose::ino_of(op.fd) != Some(ino) { return Act::Pass; }
            let mut w = match w2.lock() { Ok(w) => w, Err(_) => return Act::Pass };
            w.points += 1;
            if w.fail.is_none() && w.checks_left > 0 {
                w.checks_left -= 1;
                match catch(|| w.look(&b2, &t2)) {
                    Ok(Ok(())) => {}
                    Ok(Err(f)) => w.fail = Some(f),
                    Err(e) => w.fail = Some(Fail::Violation { sig: "reader-panic".into(), msg: e }),
                }
            }
            match short {
                Some(n) if matches!(op.kind, Kind::Write | Kind::Pwrite) && op.len > 2 * HEAD => Act::Short((n as usize).max(op.len / 16)),
                _ => Act::Pass,
            }
        });
        let mut writer = wf.writer().v("writer", "writer")?;
        for (i, rec) in recs.iter().enumerate() {
            let st = c.recs[i].strat.strategy();
            let r = interpose::with(hook.clone(), || catch(|| writer.write(rec, &*st)));
            let mut w = watch.lock().unwrap();
            if let Some(f) = w.fail.take() { return Err(f); }
            match r {
                Ok(r) => { r.v("write", "write")?; }
                Err(p) => return violation("write-panic", p),
            }
            w.done += 1;
            w.seen = false;
            w.look(&bf, &tune)?;
        }
        let w = watch.lock().unwrap();
        ctx.evals(w.points);
        ctx.add("boundaries", w.points);
        ctx.class_if(c.short.is_some(), "split-writes");
        ctx.nontrivial_if(w.points >= 4);
        Ok(())
    }
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C11Case { threads: Vec<Vec<Vec<RecSpec>>>, readers: u8, seed: u32, pace: u8, tune: TuneSpec }

pub struct C11;

impl Prop for C11 {
    type Case = C11Case;
    fn id(&self) -> &'static str { "C11" }
    fn rule(&self) -> &'static str {
        "2-4 writer threads with 1-3 sessions of 1-2 records each and 0-2 reader threads on one archive handle, with seeded yields and pauses before file operations; non-trivial: records of different threads are interleaved in the archive or at least two threads wrote"
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["thread schedules are those the operating system gives, perturbed by generated pauses"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(6_000, 40_000) }
    fn workers(&self) -> usize { 5 }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C11Case> {
        let rec = rec_spec(3000, 4);
        let long = prop::collection::vec(prop::collection::vec(prop::collection::vec(rec_spec(20, 1), 1..4), 40..90), 2..5);
        (prop_oneof![150 => prop::collection::vec(prop::collection::vec(prop::collection::vec(rec, 1..3), 1..4), 2..5), 1 => long],
         0u8..3, any::<u32>(), 0u8..4, tune_unlimited())
            .prop_map(|(threads, readers, seed, pace, tune)| C11Case { threads, readers, seed, pace, tune }).boxed()
    }
    fn run(&self, c: &C11Case, ctx: &mut Ctx) -> R {
        let path = ctx.dir.join("a.barc");
        let src = ctx.subdir("src")?;
        let td = ctx.subdir("tmp")?;
        let tune = c.tune.tunables(&td);
        let bf = Arc::new(BarcFile::new(&path));
        drop(bf.writer().v("writer", "writer")?);
        // Records carry an identity
        let mut all: Vec<Vec<Vec<(barc::Record, RecModel, Strat)>>> = vec![];
        for (t, ss) in c.threads.iter().enumerate() {
            let mut a = vec![];
            for (s, rs) in ss.iter().enumerate() {
                let mut b = vec![];
                for (k, r) in rs.iter().enumerate() {
                    let mut r = r.clone();
                    r.meta.push(("x-vid".into(), format!("{}.{}.{}", t, s, k).into_bytes()));
                    b.push((r.build(&src)?, r.model(), r.strat.clone()));
                }
                a.push(b);
            }
            all.push(a);
        }
        let models: Arc<std::collections::HashMap<String, RecModel>> = Arc::new(all.iter().flatten().flatten()
            .map(|(_, m, _)| (vid(&m.meta), m.clone())).collect());
        let n = Arc::new(AtomicU64::new(0));
        let (seed, pace) = (c.seed as u64, c.pace);
        let n2 = n.clone();
        let hook: interpose::Hook = Arc::new(move |op| {
            if matches!(op.kind, Kind::Write | Kind::Seek | Kind::Pread | Kind::Read | Kind::Pwrite) {
                let k = n2.fetch_add(1, Ordering::Relaxed);
                let x = mix(seed ^ mix(k));
                match pace {
                    0 => {}
                    1 => if x % 3 == 0 { std::thread::yield_now() },
                    2 => if x % 16 == 0 { std::thread::sleep(std::time::Duration::from_micros(20)) },
                    _ => if x % 5 == 0 { std::thread::yield_now() } else if x % 97 == 0 {
                        std::thread::sleep(std::time::Duration::from_micros(120)) },
                }
            }
            Act::Pass
        });
        let stop = Arc::new(AtomicBool::new(false));
        let torn = Arc::new(AtomicU64::new(0));
        let errs: Arc<Mutex<Vec<Fail>>> = Default::default();
        let results: Arc<Mutex<Vec<(usize, String, u64)>>> = Default::default();
        interpose::with(hook, || {
            let mut hs = vec![];
            for (t, ss) in all.into_iter().enumerate() {
                let (bf, errs, results) = (bf.clone(), errs.clone(), results.clone());
                hs.push(std::thread::spawn(move || {
                    let r = catch(|| -> R {
                        for s in ss {
                            let mut w = bf.writer().v("writer", "writer")?;
                            for (rec, m, st) in s {
                                let off = w.write(&rec, &*st.strategy()).v("write", "concurrent write")?;
                                results.lock().unwrap().push((t, vid(&m.meta), off));
                            }
                        }
                        Ok(())
                    });
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(f)) => errs.lock().unwrap().push(f),
                        Err(p) => errs.lock().unwrap().push(Fail::Violation { sig: "writer-panic".into(), msg: p }),
                    }
                }));
            }
            let mut rs = vec![];
            for _ in 0..c.readers {
                let (bf, errs, stop, models, tune, torn) =
                    (bf.clone(), errs.clone(), stop.clone(), models.clone(), tune.clone(), torn.clone());
                rs.push(std::thread::spawn(move || {
                    let r = catch(|| -> R {
                        let mut r = bf.reader().v("reader", "reader")?;
                        let mut seen = std::collections::HashSet::new();
                        loop {
                            let fin = stop.load(Ordering::SeqCst);
                            let at = r.offset();
                            let x = match r.read(&tune) {
                                // The file system may show part of a reserved head just being appended
                                Err(barc::BarcError::ReadIncompleteRecHead(n)) if !fin && n < HEAD => {
                                    torn.fetch_add(1, Ordering::Relaxed);
                                    r.seek(at).v("seek", "seek")?;
                                    std::thread::yield_now();
                                    continue;
                                }
                                x => x.v("reader-error", "concurrent read")?,
                            };
                            match x {
                                Some(x) => {
                                    let id = vid(&canon(&x.meta));
                                    match models.get(&id) {
                                        Some(m) => compare(&x, m, &format!("record {} by concurrent reader", id))?,
                                        None => return violation("unknown-record", format!("concurrent reader found {:?}", id)),
                                    }
                                    ensure!(seen.insert(id.clone()), "duplicate", "record {} twice", id);
                                }
                                None => {
                                    if fin { return Ok(()); }
                                    std::thread::yield_now();
                                }
                            }
                        }
                    });
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(f)) => errs.lock().unwrap().push(f),
                        Err(p) => errs.lock().unwrap().push(Fail::Violation { sig: "reader-panic".into(), msg: p }),
                    }
                }));
            }
            for h in hs { let _ = h.join(); }
            stop.store(true, Ordering::SeqCst);
            for h in rs { let _ = h.join(); }
        });
        if let Some(f) = errs.lock().unwrap().drain(..).next() { return Err(f); }
        let results = results.lock().unwrap();
        ensure!(results.len() == models.len(), "count", "{} writes of {}", results.len(), models.len());
        // Sequential view
        let mut r = bf.reader().v("reader", "reader")?;
        let mut seq: Vec<(u64, String)> = vec![];
        loop {
            let at = r.offset();
            match r.read(&tune).v("read", "reading result")? {
                Some(x) => {
                    let id = vid(&canon(&x.meta));
                    match models.get(&id) {
                        Some(m) => compare(&x, m, &format!("record {}", id))?,
                        None => return violation("unknown-record", format!("found record {:?}", id)),
                    }
                    seq.push((at, id));
                }
                None => break,
            }
        }
        ensure!(seq.len() == models.len(), "lost", "{} records readable of {} written", seq.len(), models.len());
        for (_, id, off) in results.iter() {
            ensure!(seq.contains(&(*off, id.clone())), "misplaced", "record {} not at its reported offset {}", id, off);
        }
        for t in 0..c.threads.len() {
            let pos: Vec<usize> = results.iter().filter(|x| x.0 == t)
                .map(|x| seq.iter().position(|s| s.1 == x.1).unwrap_or(usize::MAX)).collect();
            ensure!(pos.windows(2).all(|w| w[0] < w[1]), "order", "records of thread {} out of order", t);
        }
        // A session's records are adjacent
        for (t, ss) in c.threads.iter().enumerate() {
            for (s, rs) in ss.iter().enumerate() {
                let at: Vec<usize> = (0..rs.len()).filter_map(|k| {
                    let id = format!("{}.{}.{}", t, s, k);
                    seq.iter().position(|x| x.1 == id)
                }).collect();
                ensure!(at.windows(2).all(|w| w[1] == w[0] + 1), "session-mixed", "session {} of thread {} was interleaved", s, t);
            }
        }
        let runs = seq.windows(2).filter(|w| w[0].1.split('.').next() != w[1].1.split('.').next()).count();
        ctx.class_if(runs >= c.threads.len(), "interleaved");
        ctx.class_if(c.readers > 0, "with-readers");
        ctx.class_if(torn.load(Ordering::Relaxed) > 0, "append-seen-in-part");
        ctx.nontrivial_if(runs >= 1);
        Ok(())
    }
}

fn vid(meta: &[(String, Vec<Vec<u8>>)]) -> String {
    meta.iter().find(|(n, _)| n == "x-vid").and_then(|(_, v)| v.last())
        .map(|v| String::from_utf8_lossy(v).into_owned()).unwrap_or_default()
}
