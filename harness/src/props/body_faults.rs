//! C06: faults while building, reading and writing out bodies.

use std::io::{self, Read, Write};

use body_image::{BodyError, BodyImage, BodySink};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::faults::*;
use crate::gen::*;
use crate::interpose;
use super::body::{est, Est, Source};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op6 { Push(Blob), WriteAll(Blob), WriteBack }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Img6 { Read(u16), WriteTo(Option<u16>), MemMap, Clone, Explode }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Prog {
    Sink { fs: bool, ops: Vec<Op6> },
    ReadFrom { tune: TuneSpec, len: Len, seed: u16, pat: Vec<u16>, est: Est, fail_at: Option<(u16, u8)> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C06Case { prog: Prog, img: Vec<Img6>, faults: Vec<Fault> }

pub struct C06;

/// Accepts up to a number of bytes in total, then fails.
struct Limited { out: Vec<u8>, limit: Option<usize> }

impl Write for Limited {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = match self.limit {
            Some(l) => {
                if self.out.len() >= l { return Err(io::Error::new(io::ErrorKind::Other, "output full")); }
                b.len().min(l - self.out.len())
            }
            None => b.len(),
        };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

const KINDS: [io::ErrorKind; 5] = [
    io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset, io::ErrorKind::WouldBlock,
];

struct Run<'a> { c: &'a Counts }

impl<'a> Run<'a> {
    /// Run one operation: an error is only acceptable with a hard fault
    /// injected while it ran.
    fn op<T, E: std::fmt::Debug>(&self, what: &str, f: impl FnOnce() -> Result<T, E>) -> R<Result<T, E>> {
        let h = self.c.hard();
        let r = f();
        if let Err(e) = &r {
            ensure!(self.c.hard() > h, &format!("spurious-{}", what), "{} failed without a failing operation: {:?}", what, e);
        }
        Ok(r)
    }
}

/// Execute; returns whether an error ended it.
fn exec(c: &C06Case, dir: &std::path::Path, cnt: &Counts, ctx: &mut Ctx) -> R<bool> {
    let run = Run { c: cnt };
    let mut model: Vec<u8> = vec![];
    let mut img = match &c.prog {
        Prog::Sink { fs, ops } => {
            let mut sink = if *fs {
                match run.op("with_fs", || BodySink::with_fs(dir))? { Ok(s) => s, Err(_) => return Ok(true) }
            } else { BodySink::with_ram_buffers(2) };
            let mut failed = false;
            for o in ops {
                match o {
                    Op6::Push(b) | Op6::WriteAll(b) => {
                        let d = b.bytes();
                        let r = if matches!(o, Op6::Push(_)) {
                            run.op("push", || sink.push(d.clone()))?
                        } else {
                            run.op("write_all", || sink.write_all(&d))?
                        };
                        match r {
                            Ok(()) => model.extend_from_slice(&d),
                            Err(_) => failed = true,
                        }
                    }
                    Op6::WriteBack => {
                        let was_ram = sink.is_ram();
                        match run.op("write_back", || sink.write_back(dir).map(|_| ()))? {
                            Ok(()) => ensure!(!sink.is_ram(), "write_back-ram", "RAM after write_back"),
                            Err(_) => {
                                ensure!(was_ram, "write_back-fs-err", "write_back of file body failed");
                                ensure!(sink.is_ram() && sink.is_empty() && sink.len() == 0, "write_back-not-empty",
                                        "after failed write_back: ram {} len {}", sink.is_ram(), sink.len());
                                ctx.class("write-back-failed");
                                model.clear();
                                // The body goes on as an empty one
                            }
                        }
                    }
                }
                ensure!(sink.len() == model.len() as u64, "sink-len",
                        "sink len {} but {} bytes accepted", sink.len(), model.len());
                if failed { break; }
            }
            if failed { ctx.class("append-failed"); }
            match run.op("prepare", || sink.prepare())? { Ok(i) => i, Err(_) => return Ok(true) }
        }
        Prog::ReadFrom { tune, len, seed, pat, est, fail_at } => {
            let n = match len { Len::Max(d) => (*d as i64).unsigned_abs(), l => l.of(tune) };
            let data = fill_bytes(n as usize, &Fill::Random, *seed as u64);
            let mut src = Source::new(&data, pat);
            if let Some((at, k)) = fail_at {
                src.fail = Some((*at as usize % (n as usize + 1), KINDS[*k as usize % KINDS.len()]));
            }
            let h = cnt.hard();
            let r = BodyImage::read_from(&mut src, est.of(n, tune), &tune.tunables(dir));
            ensure!(!src.overrun, "read-after-end", "source read over 1000 times after its end");
            match r {
                Ok(i) => {
                    ensure!(src.fail.is_none(), "source-error-lost", "source failed at {:?} of {}, body of {} returned",
                            src.fail, n, i.len());
                    model = data;
                    i
                }
                Err(e) => {
                    let hard = cnt.hard() > h;
                    match (&e, src.fail) {
                        (BodyError::Io(e), Some((_, k))) if e.kind() == k && !hard => ctx.class("source-failed"),
                        (BodyError::Io(_), _) if hard => {}
                        _ => { ensure!(false, "spurious-read_from", "read_from failed with {:?}", e); }
                    }
                    return Ok(true);
                }
            }
        }
    };
    ensure!(img.len() == model.len() as u64, "len", "image len {} of {}", img.len(), model.len());
    let mut errs = false;
    for o in &c.img {
        match o {
            Img6::Read(n) => {
                let h = cnt.hard();
                let mut v = vec![];
                let mut r = img.reader();
                let mut b = vec![0u8; (*n).max(1) as usize];
                loop {
                    match r.read(&mut b) {
                        Ok(0) => {
                            ensure!(v == model, "content", "read after faults: {}", diff(&model, &v));
                            break;
                        }
                        Ok(l) => {
                            v.extend_from_slice(&b[..l]);
                            ensure!(model.starts_with(&v), "content", "read: {}", diff(&model, &v));
                        }
                        Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                        Err(e) => {
                            ensure!(cnt.hard() > h, "spurious-read", "read failed: {:?}", e);
                            errs = true;
                            break;
                        }
                    }
                }
            }
            Img6::WriteTo(limit) => {
                let lim = limit.map(|l| l as usize);
                let mut w = Limited { out: vec![], limit: lim };
                let h = cnt.hard();
                let r = img.write_to(&mut w);
                let over = lim.map(|l| l < model.len()).unwrap_or(false);
                ensure!(model.starts_with(&w.out), "content", "write_to: {}", diff(&model, &w.out));
                match r {
                    Ok(l) => {
                        ensure!(!over, "output-error-lost", "write_to succeeded with output limit {:?} of {}", lim, model.len());
                        ensure!(w.out == model && l == model.len() as u64, "content",
                                "write_to returned {}: {}", l, diff(&model, &w.out));
                    }
                    Err(e) => {
                        ensure!(over || cnt.hard() > h, "spurious-write_to", "write_to failed: {:?}", e);
                        errs = true;
                        ctx.class_if(over, "output-failed");
                    }
                }
            }
            Img6::MemMap => {
                let was = img.is_ram();
                match run.op("mem_map", || img.mem_map().map(|_| ()))? {
                    Ok(()) => ensure!(was || img.is_mem_map(), "mem_map-noop", "not mapped after mem_map"),
                    Err(_) => { errs = true; ctx.class("map-failed"); }
                }
                ensure!(img.len() == model.len() as u64, "len", "len {} after mem_map, expected {}", img.len(), model.len());
            }
            Img6::Clone => img = img.clone(),
            Img6::Explode => { let _ = img.clone().explode(); }
        }
    }
    // Faults gone: the body still is what was stored.
    let got = interpose::muted(|| read_body(&img))?;
    ensure!(got == model, "content", "final: {}", diff(&model, &got));
    Ok(errs)
}

impl Prop for C06 {
    type Case = C06Case;
    fn id(&self) -> &'static str { "C06" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self) -> &'static str {
        "random body program (sink operations or reading from a source, then image operations) run once fault-free to count its file operations, then with 1-2 faults (error, interruption, short transfer; once or persistent) at generated positions and optional source or output failures; non-trivial: at least one fault was actually injected"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["no further appends are made to a body after one of its appends failed"]
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(60_000, 400_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C06Case> {
        let op = prop_oneof![4 => blob(9000).prop_map(Op6::Push), 4 => blob(9000).prop_map(Op6::WriteAll), 2 => Just(Op6::WriteBack)];
        let pat = || prop::collection::vec(prop_oneof![1 => Just(0u16), 3 => 1u16..300, 2 => 1u16..9000], 0..4);
        let prog = prop_oneof![
            1 => (any::<bool>(), prop::collection::vec(op, 1..8)).prop_map(|(fs, ops)| Prog::Sink { fs, ops }),
            1 => (tune_unlimited(), len(20000), any::<u16>(), pat(), est(),
                  prop::option::weighted(0.3, (any::<u16>(), 0u8..5)))
                .prop_map(|(tune, len, seed, pat, est, fail_at)| Prog::ReadFrom { tune, len, seed, pat, est, fail_at }),
        ];
        let img = prop_oneof![
            3 => (1u16..5000).prop_map(Img6::Read),
            2 => prop::option::weighted(0.4, 0u16..9000).prop_map(Img6::WriteTo),
            2 => Just(Img6::MemMap), 1 => Just(Img6::Clone), 1 => Just(Img6::Explode),
        ];
        (prog, prop::collection::vec(img, 0..5), prop::collection::vec(fault(), 1..3))
            .prop_map(|(prog, img, faults)| C06Case { prog, img, faults }).boxed()
    }
    fn run(&self, c: &C06Case, ctx: &mut Ctx) -> R {
        let dir = ctx.subdir("t")?;
        let (hook, cnt) = injector(dir.clone(), &[], 0);
        interpose::with(hook, || exec(c, &dir, &cnt, ctx))?;
        let total = cnt.n();
        ctx.add("file-operations", total);
        let (hook, cnt) = injector(dir.clone(), &c.faults, total);
        interpose::with(hook, || exec(c, &dir, &cnt, ctx))?;
        ctx.evals(1);
        ctx.class_if(cnt.hard() > 0, "hard-fault");
        ctx.class_if(cnt.soft() > 0, "soft-fault");
        ctx.nontrivial_if(cnt.hard() + cnt.soft() > 0);
        Ok(())
    }
}
