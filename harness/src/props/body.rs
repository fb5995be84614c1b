//! C01..C05: body content, clones, reading from sources, limits, placement.

use std::io::{self, Read, Write};
use std::mem::ManuallyDrop;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

use body_image::{BodyError, BodyImage, BodyReader, BodySink, Dialog, Epilog, ExplodedImage, Prolog, Recorded};
use bytes::Bytes;
use olio::fs::rc::ReadSlice;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;
use crate::interpose::{self, Act, Kind};
use crate::alloc;
use super::futio::{any_sink, bk, sink_kind, Form, PoolSpec, Rig, Sched, BK, SK};
use super::futio_conv::{encode, Dec};
use super::srv::Framing;

// ------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Start {
    Empty,
    Default,
    RamBuffers(u8),
    RamEstimate(u32),
    Fs,
    /// Image directly from a slice; sink operations are skipped.
    Slice(Blob),
    /// Image over a file; the image covers all but the last `less` bytes.
    File(Blob, u16),
    /// Image over a slice of a file
    /// Image over a slice of a file, if true read in part beforehand
    ReadSlice(Blob, u16, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SinkOp {
    Push(Blob), WriteAll(Blob), PushStatic(u8), Save(Blob), WriteBack,
    /// Content in so many pieces, alternating push and write_all by bit
    Many(Blob, u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ImgOp { Gather, MemMap, Read(Vec<u16>), WriteTo(Vec<u16>), CloneSwap, Explode(bool) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C01Case { start: Start, sink: Vec<SinkOp>, img: Vec<ImgOp> }

pub struct C01;

const STATIC: &[u8] = b"a static slice of some forty-odd bytes in it";

/// A writer that accepts only limited amounts per call.
pub struct ShortWriter { pub out: Vec<u8>, pub pat: Vec<u16>, pub i: usize }

impl Write for ShortWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let n = if self.pat.is_empty() { b.len() } else {
            let p = self.pat[self.i % self.pat.len()];
            self.i += 1;
            if p == 0 { return Err(io::ErrorKind::Interrupted.into()); }
            (p as usize).min(b.len())
        };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn pat() -> impl Strategy<Value = Vec<u16>> {
    prop::collection::vec(prop_oneof![1 => 1u16..4, 3 => 1u16..300, 2 => 1u16..9000], 0..4)
}

/// Like `pat`, where 0 stands for an interruption.
fn wpat() -> impl Strategy<Value = Vec<u16>> {
    // Interruptions, single or many in a row
    (pat(), prop_oneof![8 => Just(0usize), 6 => Just(1), 1 => 2usize..20, 1 => 20usize..300], any::<u8>()).prop_map(|(mut p, z, at)| {
        if !p.is_empty() {
            // Anywhere, also before the first read
            let at = at as usize % (p.len() + 1);
            p.splice(at..at, std::iter::repeat(0).take(z));
        }
        p
    })
}

fn read_with(mut r: impl Read, pat: &[u16], expect: usize) -> io::Result<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    loop {
        let n = if pat.is_empty() { 8192 } else { pat[i % pat.len()].max(1) as usize };
        i += 1;
        let mut b = vec![0u8; n];
        let l = r.read(&mut b)?;
        if l == 0 { return Ok(v); }
        v.extend_from_slice(&b[..l]);
        if v.len() > expect + 100_000 {
            return Ok(v); // endless
        }
    }
}

pub fn check_image(img: &BodyImage, model: &[u8], ram: bool, mapped: bool, what: &str) -> R {
    ensure!(img.len() == model.len() as u64, "len", "{}: len {} but {} bytes written", what, img.len(), model.len());
    ensure!(img.is_empty() == model.is_empty(), "is_empty", "{}: is_empty {}", what, img.is_empty());
    ensure!(img.is_ram() == ram, "is_ram", "{}: is_ram {} expected {}", what, img.is_ram(), ram);
    ensure!(img.is_mem_map() == mapped, "is_mem_map", "{}: is_mem_map {} expected {}", what, img.is_mem_map(), mapped);
    Ok(())
}

fn check_exploded(img: BodyImage, model: &[u8], what: &str) -> R {
    let mut got = vec![];
    match img.explode() {
        ExplodedImage::Ram(v) => for b in v { got.extend_from_slice(&b) },
        ExplodedImage::FsRead(mut rs) => {
            ensure!(rs.len() == model.len() as u64, "explode-len", "{}: exploded slice len {}", what, rs.len());
            rs.read_to_end(&mut got).v("explode-read", what)?;
        }
        #[cfg(feature = "full")]
        ExplodedImage::MemMap(m) => got.extend_from_slice(&m),
    }
    ensure!(got == model, "explode-content", "{}: exploded: {}", what, diff(model, &got));
    Ok(())
}

impl Prop for C01 {
    type Case = C01Case;
    fn id(&self) -> &'static str { "C01" }
    fn rule(&self) -> &'static str {
        "random start (RAM/file sink, slice, file, file slice), up to 12 sink operations with chunks of 0..20000 bytes and up to 8 image operations; non-trivial: non-empty content and at least one state transition (write back, gather, map, clone) or more than one chunk"
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["files behind an image are not modified by others"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(250_000, 2_500_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C01Case> {
        let start = prop_oneof![
            2 => Just(Start::Empty),
            1 => Just(Start::Default),
            2 => (0u8..5).prop_map(Start::RamBuffers),
            2 => len_abs(40000).prop_map(Start::RamEstimate),
            4 => Just(Start::Fs),
            1 => blob_or_big(9000, 300).prop_map(Start::Slice),
            2 => (blob_or_big(9000, 300), prop_oneof![2 => Just(0u16), 1 => 1u16..10, 1 => 0u16..5000]).prop_map(|(b, l)| Start::File(b, l)),
            2 => (blob_or_big(9000, 300), prop_oneof![Just(0u16), 1u16..50, 4000u16..5000], any::<bool>())
                .prop_map(|(b, p, m)| Start::ReadSlice(b, p, m)),
        ];
        let sop = prop_oneof![
            4 => blob_or_big(20000, 1000).prop_map(SinkOp::Push),
            4 => blob_or_big(20000, 1000).prop_map(SinkOp::WriteAll),
            1 => (0u8..45).prop_map(SinkOp::PushStatic),
            1 => blob(200).prop_map(SinkOp::Save),
            2 => Just(SinkOp::WriteBack),
            2 => (blob_or_big(20000, 1000), prop_oneof![30 => 2u16..90, 1 => 250u16..1500], any::<u8>()).prop_map(|(b, n, m)| SinkOp::Many(b, n, m)),
            1 => (0u32..300_000, fill(), any::<u16>()).prop_map(|(len, fill, seed)| SinkOp::Push(Blob { len, fill, seed })),
        ];
        let iop = prop_oneof![
            2 => Just(ImgOp::Gather),
            2 => Just(ImgOp::MemMap),
            3 => pat().prop_map(ImgOp::Read),
            2 => wpat().prop_map(ImgOp::WriteTo),
            1 => Just(ImgOp::CloneSwap),
            1 => any::<bool>().prop_map(ImgOp::Explode),
        ];
        (start, prop::collection::vec(sop, 0..12), prop::collection::vec(iop, 0..8))
            .prop_map(|(start, sink, img)| C01Case { start, sink, img }).boxed()
    }

    fn run(&self, c: &C01Case, ctx: &mut Ctx) -> R {
        let dir = ctx.dir.clone();
        let mut model: Vec<u8> = vec![];
        let mut transitions = 0;
        let mut chunks = 0;
        let direct = match &c.start {
            Start::Slice(b) => {
                model = b.bytes();
                Some((BodyImage::from_slice(model.clone()), true))
            }
            Start::File(b, less) => {
                let all = b.bytes();
                let n = all.len().saturating_sub(*less as usize);
                let f = tmp_file(&dir, &all, 0)?;
                model = all[..n].to_vec();
                ctx.class_if(*less > 0 && n > 0, "file-longer-than-body");
                Some((unsafe { BodyImage::from_file(f, n as u64) }, n == 0))
            }
            Start::ReadSlice(b, pad, positioned) => {
                model = b.bytes();
                let f = tmp_file(&dir, &model, *pad as usize)?;
                let mut rs = ReadSlice::new(Arc::new(f), *pad as u64, *pad as u64 + model.len() as u64);
                if *positioned {
                    let mut b = vec![0; model.len() / 2 + 1];
                    rs.read(&mut b).h("read slice")?;
                    ctx.class_if(!model.is_empty(), "slice-read-before");
                }
                Some((unsafe { BodyImage::from_read_slice(rs) }, model.is_empty()))
            }
            _ => None,
        };
        let (mut img, ram) = if let Some(x) = direct { x } else {
            let mut sink = match &c.start {
                Start::Empty => BodySink::empty(),
                Start::Default => BodySink::default(),
                Start::RamBuffers(n) => BodySink::with_ram_buffers(*n as usize),
                Start::RamEstimate(n) => BodySink::with_ram(*n as u64),
                _ => BodySink::with_fs(&dir).v("with_fs", "with_fs")?,
            };
            let mut ram = !matches!(c.start, Start::Fs);
            for op in &c.sink {
                match op {
                    SinkOp::Push(b) => {
                        let d = b.bytes();
                        sink.push(d.clone()).v("push", "push")?;
                        model.extend_from_slice(&d);
                        chunks += 1;
                    }
                    SinkOp::WriteAll(b) => {
                        let d = b.bytes();
                        sink.write_all(&d).v("write_all", "write_all")?;
                        model.extend_from_slice(&d);
                        chunks += 1;
                    }
                    SinkOp::PushStatic(n) => {
                        let d = &STATIC[..(*n as usize).min(STATIC.len())];
                        sink.push(d).v("push", "push static")?;
                        model.extend_from_slice(d);
                        chunks += 1;
                    }
                    SinkOp::Save(b) => {
                        let d = b.bytes();
                        #[allow(deprecated)]
                        sink.save(Bytes::from(d.clone())).v("save", "save")?;
                        model.extend_from_slice(&d);
                        chunks += 1;
                    }
                    SinkOp::Many(b, n, mix) => {
                        let d = b.bytes();
                        let step = (d.len() / *n as usize).max(1);
                        for (i, p) in d.chunks(step).enumerate() {
                            if mix >> (i % 8) & 1 == 1 {
                                sink.push(p.to_vec()).v("push", "push")?;
                            } else {
                                sink.write_all(p).v("write_all", "write_all")?;
                            }
                            chunks += 1;
                        }
                        model.extend_from_slice(&d);
                        ctx.class_if(ram && chunks > 8, "many-ram-buffers");
                    }
                    SinkOp::WriteBack => {
                        let s = sink.write_back(&dir).v("write_back", "write_back")?;
                        ensure!(!s.is_ram(), "write_back-ram", "still RAM after write_back");
                        if ram { transitions += 1; ctx.class_if(!model.is_empty(), "write-back-nonempty"); }
                        ram = false;
                    }
                }
                ensure!(sink.len() == model.len() as u64, "sink-len",
                        "sink len {} after {} bytes written", sink.len(), model.len());
                ensure!(sink.is_empty() == model.is_empty(), "sink-empty", "sink is_empty {}", sink.is_empty());
                ensure!(sink.is_ram() == ram, "sink-ram", "sink is_ram {} expected {}", sink.is_ram(), ram);
            }
            (sink.prepare().v("prepare", "prepare")?, ram || model.is_empty())
        };
        let mut mapped = false;
        check_image(&img, &model, ram, mapped, "prepared")?;
        let got = read_body(&img)?;
        ensure!(got == model, "content", "prepared: {}", diff(&model, &got));
        let mut gathered = false;
        for (k, op) in c.img.iter().enumerate() {
            match op {
                ImgOp::Gather => {
                    img.gather();
                    if ram { gathered = true; transitions += 1; }
                }
                ImgOp::MemMap => {
                    img.mem_map().v("mem_map", "mem_map")?;
                    if !ram && !mapped && cfg!(feature = "full") { mapped = true; transitions += 1; ctx.class("mapped"); }
                }
                ImgOp::Read(p) => {
                    let got = read_with(img.reader(), p, model.len()).v("read", "read")?;
                    ensure!(got == model, "content", "op {} read: {}", k, diff(&model, &got));
                }
                ImgOp::WriteTo(p) => {
                    let mut w = ShortWriter { out: vec![], pat: p.clone(), i: 0 };
                    let n = img.write_to(&mut w).v("write_to", "write_to")?;
                    ensure!(w.out == model, "write_to-content", "op {} write_to: {}", k, diff(&model, &w.out));
                    ensure!(n == model.len() as u64, "write_to-len", "write_to returned {} for {}", n, model.len());
                }
                ImgOp::CloneSwap => {
                    let cl = img.clone();
                    img = cl;
                    transitions += 1;
                }
                ImgOp::Explode(_) => check_exploded(img.clone(), &model, "explode")?,
            }
            check_image(&img, &model, ram, mapped, "after op")?;
            if gathered && ram {
                match img.reader() {
                    BodyReader::Contiguous(cur) => {
                        ensure!(cur.get_ref() == &&model[..], "gather-content", "gathered slice differs");
                    }
                    _ => { ensure!(false, "gather-scattered", "not contiguous after gather"); }
                }
            }
        }
        let got = read_body(&img)?;
        ensure!(got == model, "content", "final: {}", diff(&model, &got));
        check_exploded(img, &model, "final")?;
        ctx.nontrivial_if(!model.is_empty() && (transitions > 0 || chunks > 1));
        Ok(())
    }
}

// ------------------------------------------------------------------ C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Clone(u8), Reader(u8), Read(u8, u16), Gather(u8), MemMap(u8), Drop(u8), DropReader(u8),
    Stream(u8, u8), Explode(u8), WriteTo(u8),
    /// Write out with other handles read and written out in the middle of it
    WriteNested(u8, u8, Vec<u16>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C02Case { body: BodySpec, steps: Vec<Step>, threads: Vec<(u8, Vec<u16>)> }

pub struct C02;

/// A reader with the image it borrows from.
struct OwnReader { r: ManuallyDrop<BodyReader<'static>>, img: Box<BodyImage>, pos: usize }

impl OwnReader {
    fn new(img: BodyImage) -> OwnReader {
        let img = Box::new(img);
        // The box is neither moved out of nor mutated while `r` lives.
        let r: BodyReader<'static> = unsafe { std::mem::transmute::<BodyReader<'_>, BodyReader<'static>>(img.reader()) };
        OwnReader { r: ManuallyDrop::new(r), img, pos: 0 }
    }
}

impl Drop for OwnReader {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.r) }
        let _ = &self.img;
    }
}

/// Reads another handle of the same body in full with each of the first writes.
struct NestedWriter<'a> { w: ShortWriter, img: &'a BodyImage, model: &'a [u8], bad: Option<String>, left: u8 }

impl<'a> Write for NestedWriter<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left > 0 {
            self.left -= 1;
            let mut v = vec![];
            let r = match self.left {
                0 => self.img.write_to(&mut v).map(|_| ()).map_err(|e| e.to_string()),
                1 => self.img.clone().write_to(&mut v).map(|_| ()).map_err(|e| e.to_string()),
                _ => self.img.reader().read_to_end(&mut v).map(|_| ()).map_err(|e| e.to_string()),
            };
            if let Err(e) = r { self.bad.get_or_insert(e); }
            else if v != self.model { self.bad.get_or_insert(diff(self.model, &v)); }
        }
        self.w.write(b)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

impl Prop for C02 {
    type Case = C02Case;
    fn id(&self) -> &'static str { "C02" }
    fn rule(&self) -> &'static str {
        "one body in a random storage state, up to 40 steps over a growing tree of clones, open readers, streams and exploded forms (partial reads, transformations, drops interleaved), then up to 4 threads reading clones in parallel; non-trivial: non-empty body, at least two handles alive together and at least two partial reads"
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(150_000, 1_500_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C02Case> {
        let step = prop_oneof![
            3 => any::<u8>().prop_map(Step::Clone),
            4 => any::<u8>().prop_map(Step::Reader),
            10 => (any::<u8>(), prop_oneof![1u16..20, 1u16..3000]).prop_map(|(a, b)| Step::Read(a, b)),
            2 => any::<u8>().prop_map(Step::Gather),
            2 => any::<u8>().prop_map(Step::MemMap),
            1 => any::<u8>().prop_map(Step::Drop),
            1 => any::<u8>().prop_map(Step::DropReader),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Step::Stream(a, b)),
            1 => any::<u8>().prop_map(Step::Explode),
            1 => any::<u8>().prop_map(Step::WriteTo),
            2 => (any::<u8>(), any::<u8>(), pat()).prop_map(|(a, b, p)| Step::WriteNested(a, b, p)),
        ];
        let many = prop_oneof![
            6 => any::<u8>().prop_map(Step::Clone), 3 => any::<u8>().prop_map(Step::Reader),
            1 => (any::<u8>(), 1u16..3000).prop_map(|(a, b)| Step::Read(a, b)), 1 => any::<u8>().prop_map(Step::Drop),
        ];
        (body_or_big(12000, 600), prop_oneof![300 => prop::collection::vec(step, 6..40), 1 => prop::collection::vec(many, 300..500)],
         prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((0u8..4, pat()), 2..5)])
            .prop_map(|(body, steps, threads)| C02Case { body, steps, threads }).boxed()
    }

    fn run(&self, c: &C02Case, ctx: &mut Ctx) -> R {
        let model = c.body.blob.bytes();
        let root = c.body.build(&ctx.dir)?;
        let mut imgs: Vec<BodyImage> = vec![root.clone()];
        let mut readers: Vec<OwnReader> = vec![];
        let mut partial = 0;
        let mut maxh = 1;
        for st in &c.steps {
            maxh = maxh.max(imgs.len() + readers.len());
            let pick = |i: u8, n: usize| if n == 0 { None } else { Some(i as usize % n) };
            match st {
                Step::Clone(i) => if let Some(i) = pick(*i, imgs.len()) {
                    if imgs.len() < 12 { let x = imgs[i].clone(); imgs.push(x); }
                },
                Step::Reader(i) => if let Some(i) = pick(*i, imgs.len()) {
                    if readers.len() < 12 { readers.push(OwnReader::new(imgs[i].clone())); }
                },
                Step::Read(i, n) => if let Some(i) = pick(*i, readers.len()) {
                    let rd = &mut readers[i];
                    let mut b = vec![0u8; *n as usize];
                    let l = rd.r.read(&mut b).v("read", "partial read")?;
                    let rest = &model[rd.pos.min(model.len())..];
                    ensure!(l <= rest.len() && b[..l] == rest[..l], "content",
                            "reader at {} got {} bytes differing from original", rd.pos, l);
                    ensure!(l > 0 || rest.is_empty(), "early-end", "reader ended at {} of {}", rd.pos, model.len());
                    rd.pos += l;
                    partial += 1;
                },
                Step::Gather(i) => if let Some(i) = pick(*i, imgs.len()) { imgs[i].gather(); },
                Step::MemMap(i) => if let Some(i) = pick(*i, imgs.len()) {
                    imgs[i].mem_map().v("mem_map", "mem_map")?;
                },
                Step::Drop(i) => if let Some(i) = pick(*i, imgs.len()) { imgs.swap_remove(i); },
                Step::DropReader(i) => if let Some(i) = pick(*i, readers.len()) { readers.swap_remove(i); },
                Step::Stream(i, stop) => if let Some(i) = pick(*i, imgs.len()) {
                    stream_some(imgs[i].clone(), &model, *stop)?;
                },
                Step::Explode(i) => if let Some(i) = pick(*i, imgs.len()) {
                    check_exploded(imgs[i].clone(), &model, "explode clone")?;
                },
                Step::WriteTo(i) => if let Some(i) = pick(*i, imgs.len()) {
                    let mut v = vec![];
                    imgs[i].write_to(&mut v).v("write_to", "write_to clone")?;
                    ensure!(v == model, "content", "write_to: {}", diff(&model, &v));
                },
                Step::WriteNested(i, j, p) => if let (Some(i), Some(j)) = (pick(*i, imgs.len()), pick(*j, imgs.len())) {
                    let w = ShortWriter { out: vec![], pat: p.clone(), i: 0 };
                    let mut w = NestedWriter { w, img: &imgs[j], model: &model, bad: None, left: 3 };
                    imgs[i].write_to(&mut w).v("write_to", "write_to clone")?;
                    ensure!(w.bad.is_none(), "nested-content", "inside of write_to: {}", w.bad.unwrap());
                    ensure!(w.w.out == model, "content", "write_to around another: {}", diff(&model, &w.w.out));
                    ctx.class_if(w.left < 3, "nested-write");
                },
            }
        }
        for rd in readers.iter_mut() {
            let mut v = vec![];
            rd.r.read_to_end(&mut v).v("read", "drain reader")?;
            let rest = &model[rd.pos.min(model.len())..];
            ensure!(v == rest, "content", "draining reader from {}: {}", rd.pos, diff(rest, &v));
        }
        if !c.threads.is_empty() {
            let errs: Arc<Mutex<Vec<String>>> = Default::default();
            let model = Arc::new(model.clone());
            let mut hs = vec![];
            for (mode, p) in &c.threads {
                let mut img = root.clone();
                let (errs, model, p, mode) = (errs.clone(), model.clone(), p.clone(), *mode);
                hs.push(std::thread::spawn(move || {
                    for _ in 0..3 {
                        if mode == 1 { img.gather(); }
                        if mode == 2 {
                            if let Err(e) = img.mem_map() { errs.lock().unwrap().push(format!("map {}", e)); }
                        }
                        let got = if mode == 3 {
                            let mut w = ShortWriter { out: vec![], pat: p.clone(), i: 0 };
                            img.write_to(&mut w).map(|_| w.out).map_err(|e| e.to_string())
                        } else {
                            read_with(img.reader(), &p, model.len()).map_err(|e| e.to_string())
                        };
                        match got {
                            Ok(v) if v == *model => {}
                            Ok(v) => errs.lock().unwrap().push(diff(&model, &v)),
                            Err(e) => errs.lock().unwrap().push(e),
                        }
                        img = img.clone();
                    }
                }));
            }
            for h in hs { if h.join().is_err() { ensure!(false, "thread-panic", "reading thread panicked"); } }
            let e = errs.lock().unwrap();
            ensure!(e.is_empty(), "thread-content", "parallel reading: {}", e[0]);
            ctx.class("threads");
        }
        for img in imgs.iter().chain(Some(&root)) {
            let got = read_body(img)?;
            ensure!(got == model, "content", "final clone: {}", diff(&model, &got));
        }
        ctx.class(format!("state-{}", c.body.state.name()));
        ctx.nontrivial_if(!model.is_empty() && maxh >= 2 && partial >= 2);
        Ok(())
    }
}

/// Poll a direct stream over the body, stopping after `stop` items.
fn stream_some(img: BodyImage, model: &[u8], stop: u8) -> R {
    use body_image_futio::{AsyncBodyImage, FutioTunables};
    use futures_core::Stream;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    let mut s = AsyncBodyImage::<Bytes>::new(img, FutioTunables::new());
    let w = futures_util::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut pos = 0;
    for _ in 0..stop {
        match Pin::new(&mut s).poll_next(&mut cx) {
            Poll::Ready(Some(Ok(b))) => {
                ensure!(pos + b.len() <= model.len() && model[pos..pos + b.len()] == b[..],
                        "stream-content", "stream item at {} differs", pos);
                pos += b.len();
            }
            Poll::Ready(None) => {
                ensure!(pos == model.len(), "stream-end", "stream ended at {} of {}", pos, model.len());
                break;
            }
            x => { ensure!(false, "stream-poll", "unexpected {:?}", x); }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

/// A byte source with scripted read sizes; 0 stands for an interruption.
pub struct Source<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub pat: Vec<u16>,
    pub i: usize,
    pub reads: u64,
    pub after_eof: u64,
    /// After this many bytes, fail with this kind
    pub fail: Option<(usize, io::ErrorKind)>,
    /// Never end: repeat the data, up to this many bytes in total
    pub endless: Option<usize>,
    pub overrun: bool,
}

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], pat: &[u16]) -> Source<'a> {
        Source { data, pos: 0, pat: pat.to_vec(), i: 0, reads: 0, after_eof: 0, fail: None, endless: None, overrun: false }
    }
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if let Some((at, kind)) = self.fail {
            if self.pos >= at { return Err(io::Error::new(kind, "injected")); }
        }
        let mut n = b.len();
        if !self.pat.is_empty() {
            let p = self.pat[self.i % self.pat.len()];
            self.i += 1;
            if p == 0 && self.pat.iter().any(|x| *x > 0) {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            n = n.min(p.max(1) as usize);
        }
        if let Some((at, _)) = self.fail { n = n.min(at - self.pos); }
        if let Some(total) = self.endless {
            if self.pos >= total {
                self.overrun = true;
                return Err(io::Error::new(io::ErrorKind::Other, "source budget exceeded"));
            }
            for x in b[..n].iter_mut() {
                *x = self.data[self.pos % self.data.len().max(1)];
                self.pos += 1;
            }
            return Ok(n);
        }
        let n = n.min(self.data.len() - self.pos);
        if n == 0 && !b.is_empty() {
            self.after_eof += 1;
            if self.after_eof > 1000 {
                self.overrun = true;
                return Err(io::Error::new(io::ErrorKind::Other, "read too often after end"));
            }
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Est { Zero, Exact, Len(Len), Half, Huge }

impl Est {
    pub fn of(&self, n: u64, t: &TuneSpec) -> u64 {
        match self {
            Est::Zero => 0, Est::Exact => n, Est::Len(l) => l.of(t), Est::Half => n / 2, Est::Huge => u64::MAX,
        }
    }
}

pub fn est() -> impl Strategy<Value = Est> {
    prop_oneof![3 => Just(Est::Zero), 2 => Just(Est::Exact), 3 => len(30000).prop_map(Est::Len),
                1 => Just(Est::Half), 1 => Just(Est::Huge)]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C03Case { tune: TuneSpec, len: Len, fill: Fill, seed: u16, pat: Vec<u16>, est: Est }

pub struct C03;

impl Prop for C03 {
    type Case = C03Case;
    fn id(&self) -> &'static str { "C03" }
    fn rule(&self) -> &'static str {
        "random content with length near the configured thresholds and buffer sizes or arbitrary, random read-size script with interruptions, estimate and tunables (no length limit); non-trivial: at least 2 source reads delivering data"
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(120_000, 1_200_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C03Case> {
        (tune_unlimited(), len(60000), fill(), any::<u16>(), wpat(), est(), prop::option::weighted(0.05, 0u32..30))
            .prop_map(|(mut tune, mut len, fill, seed, pat, est, all)| {
                // As good as no thresholds
                if let Some(k) = all {
                    tune.max_ram = u64::MAX >> k;
                    tune.max_body = tune.max_ram;
                    if let Len::Ram(d) | Len::Max(d) = len { len = Len::Abs(d.unsigned_abs() as u32); }
                }
                C03Case { tune, len, fill, seed, pat, est }
            }).boxed()
    }
    fn run(&self, c: &C03Case, ctx: &mut Ctx) -> R {
        let n = match c.len { Len::Max(d) => (d as i64).unsigned_abs() , ref l => l.of(&c.tune) };
        let data = fill_bytes(n as usize, &c.fill, c.seed as u64);
        let tune = c.tune.tunables(&ctx.dir);
        let mut src = Source::new(&data, &c.pat);
        let img = BodyImage::read_from(&mut src, c.est.of(n, &c.tune), &tune);
        ensure!(!src.overrun, "read-after-end", "source read over 1000 times after its end");
        let img = img.v("read_from", "read_from")?;
        ensure!(img.len() == n, "len", "len {} of {} byte source", img.len(), n);
        let got = read_body(&img)?;
        ensure!(got == data, "content", "{}", diff(&data, &got));
        let mut out = vec![];
        img.write_to(&mut out).v("write_to", "write_to")?;
        ensure!(out == data, "content", "write_to: {}", diff(&data, &out));
        ctx.class_if(c.pat.contains(&0), "interruptions");
        ctx.class_if(img.is_ram(), "ended-ram");
        ctx.class_if(!img.is_ram() && c.est.of(n, &c.tune) <= c.tune.max_ram, "switched-to-file");
        ctx.nontrivial_if(src.reads >= 3 && n > 1);
        Ok(())
    }
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C04Case { tune: TuneSpec, len: Len, endless: bool, seed: u16, pat: Vec<u16>, est: Est }

pub struct C04;

impl Prop for C04 {
    type Case = C04Case;
    fn id(&self) -> &'static str { "C04" }
    fn rule(&self) -> &'static str {
        "source length concentrated around the maximum, the RAM threshold and buffer multiples, or endless; random read sizes, estimate and tunables; non-trivial: the source exceeds the maximum or is within 2 bytes of it, or the body crosses the RAM threshold"
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(40_000, 600_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C04Case> {
        let l = prop_oneof![
            5 => delta().prop_map(Len::Max),
            2 => len(50000),
            1 => (0u8..4, delta()).prop_map(|(k, d)| Len::BufFs(k, d)),
        ];
        (tune().prop_map(|mut t| { if t.max_body > 200_000 { t.max_body = t.max_ram + 500 } t }),
         l, prop::bool::weighted(0.2), any::<u16>(), wpat(), est())
            .prop_map(|(tune, len, endless, seed, pat, est)| C04Case { tune, len, endless, seed, pat, est }).boxed()
    }
    fn run(&self, c: &C04Case, ctx: &mut Ctx) -> R {
        let n = c.len.of(&c.tune);
        let t = &c.tune;
        let data = fill_bytes((n as usize).max(1), &Fill::Random, c.seed as u64);
        let tune = t.tunables(&ctx.dir);
        let slack = 4 * t.buf_ram.max(t.buf_fs).max(8192);
        let budget = t.max_body as usize + slack;
        let mut src = Source::new(&data[..if c.endless { data.len() } else { n as usize }], &c.pat);
        if c.endless { src.endless = Some(budget + 1); }
        let base = alloc::mark();
        let r = BodyImage::read_from(&mut src, c.est.of(n, t), &tune);
        let peak = alloc::peak_above(base);
        ensure!(!src.overrun, "unbounded-read",
                "consumed {} bytes of a source with maximum body {}", src.pos, t.max_body);
        ensure!(src.pos <= budget, "unbounded-read",
                "consumed {} bytes with maximum body {}", src.pos, t.max_body);
        if t.buf_ram >= 2048 {
            let lim = 2 * t.max_ram as usize + slack + 65536;
            ensure!(peak <= lim, "memory", "peak heap {} with RAM threshold {}", peak, t.max_ram);
            ctx.class("heap-checked");
        }
        let over = c.endless || n > t.max_body;
        match r {
            Ok(img) => {
                ensure!(!over, "limit-not-enforced", "{} byte body accepted, maximum {}", img.len(), t.max_body);
                ensure!(img.len() == n, "len", "len {} of {}", img.len(), n);
                ctx.class("accepted");
            }
            Err(BodyError::BodyTooLong(l)) => {
                ensure!(over, "limit-too-early", "too long ({}) reported for {} bytes, maximum {}", l, n, t.max_body);
                ensure!(l > t.max_body && l <= src.pos as u64, "limit-length",
                        "too long error says {}, maximum {}, {} read", l, t.max_body, src.pos);
                ctx.class("rejected");
            }
            Err(e) => { ensure!(false, "other-error", "unexpected error {:?}", e); }
        }
        ctx.class_if(c.endless, "endless");
        ctx.nontrivial_if(over || t.max_body - n <= 2 || n > t.max_ram);
        Ok(())
    }
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Route {
    ReadFrom { est: Est, pat: Vec<u16> },
    WriteBack { cuts: Vec<u16> },
    WithFs { cuts: Vec<u16> },
    /// Through an archive: (request body length, compression)
    Barc { req: Len, gzip: bool },
    BarcBrotli { req: Len },
    BarcPlain { req: Len },
    /// Items sent to a sink wrapper
    Sink { kind: SK, buf: BK, cuts: Vec<u16> },
    /// Decompressed: gzip, deflate or Brotli
    Decode { enc: u8, text: bool },
    /// Received from a server (with the client only)
    Fetch { framing: Framing, writes: Vec<u16> },
    /// With a temporary directory that is missing
    Gone { est: Est, pat: Vec<u16>, how: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C05Case { tune: TuneSpec, len: Len, seed: u16, route: Route, clones: u8, map: bool }

pub struct C05;

pub fn open_fds() -> Vec<i32> {
    (0..512).filter(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } >= 0).collect()
}

fn list(dir: &Path) -> Vec<String> {
    let mut v: Vec<_> = std::fs::read_dir(dir).map(|rd| rd.flatten()
        .map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}

impl Prop for C05 {
    type Case = C05Case;
    fn id(&self) -> &'static str { "C05" }
    fn rule(&self) -> &'static str {
        "bodies with lengths concentrated around the RAM threshold, made by reading a source, write-back, file start, reading plain/gzip/Brotli archive records, sending to any sink wrapper, decompressing, or from a server; all opened paths, directory entries and descriptors observed; non-trivial: a temporary file was created or the length is within 3 bytes of the threshold"
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(60_000, 250_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C05Case> {
        let l = || prop_oneof![5 => (-4i16..5).prop_map(Len::Ram), 1 => delta().prop_map(Len::Ram), 3 => len(40000)];
        let route = prop_oneof![
            5 => (est(), wpat()).prop_map(|(est, pat)| Route::ReadFrom { est, pat }),
            1 => cuts().prop_map(|cuts| Route::WriteBack { cuts }),
            1 => cuts().prop_map(|cuts| Route::WithFs { cuts }),
            1 => (l(), any::<bool>()).prop_map(|(req, gzip)| Route::Barc { req, gzip }),
            1 => l().prop_map(|req| Route::BarcPlain { req }),
            1 => l().prop_map(|req| Route::BarcBrotli { req }),
            2 => (sink_kind(), bk(), cuts()).prop_map(|(kind, buf, cuts)| Route::Sink { kind, buf, cuts }),
            1 => (0u8..3, any::<bool>()).prop_map(|(enc, text)| Route::Decode { enc, text }),
            1 => (est(), wpat(), 0u8..5).prop_map(|(est, pat, how)| Route::Gone { est, pat, how }),
        ];
        let framing = prop_oneof![Just(Framing::Length), Just(Framing::Chunked), Just(Framing::Close)];
        let fetch = (framing, cuts()).prop_map(|(framing, writes)| Route::Fetch { framing, writes });
        let route = prop_oneof![29 => route, (if cfg!(feature = "net") { 1 } else { 0 }) => fetch];
        (tune_unlimited(), l(), any::<u16>(), route, 0u8..3, any::<bool>())
            .prop_map(|(tune, len, seed, route, clones, map)| C05Case { tune, len, seed, route, clones, map }).boxed()
    }
    fn run(&self, c: &C05Case, ctx: &mut Ctx) -> R {
        let t = &c.tune;
        let tmp = ctx.subdir("tmp")?;
        let work = ctx.subdir("work")?;
        let tune = t.tunables(&tmp);
        let n = match c.len { Len::Max(d) => (d as i64).unsigned_abs(), ref l => l.of(t) };
        let data = fill_bytes(n as usize, &Fill::Random, c.seed as u64);
        if let Route::Fetch { .. } = c.route { drop(super::srv::listener()?); }
        super::futio::quiesce()?;
        let fds0 = open_fds();
        let opens: Arc<Mutex<Vec<String>>> = Default::default();
        let o2 = opens.clone();
        let hook: interpose::Hook = Arc::new(move |op| {
            if op.kind == Kind::Open {
                if let (Some(p), Ok(mut g)) = (&op.path, o2.lock()) { g.push(p.clone()); }
            }
            Act::Pass
        });
        let ramlim = t.max_ram;
        let mut bodies: Vec<(BodyImage, Vec<u8>)> = vec![];
        let slack = 4 * t.buf_ram.max(t.buf_fs).max(8192) + (1 << 17);
        match &c.route {
            Route::ReadFrom { est, pat } => {
                let e = est.of(n, t);
                let mut src = Source::new(&data, pat);
                let base = alloc::mark();
                let img = interpose::with(hook, || BodyImage::read_from(&mut src, e, &tune)).v("read_from", "read_from")?;
                let peak = alloc::peak_above(base);
                if t.buf_ram >= 2048 {
                    ensure!(peak <= 2 * ramlim as usize + slack, "memory",
                            "peak heap {} for RAM threshold {} and body {}", peak, ramlim, n);
                }
                let want = n == 0 || (n <= ramlim && e <= ramlim);
                ensure!(img.is_ram() == want, "placement",
                        "is_ram {} for {} bytes, estimate {}, threshold {}", img.is_ram(), n, e, ramlim);
                bodies.push((img, data.clone()));
            }
            Route::WriteBack { cuts } => {
                let img = interpose::with(hook, || -> R<BodyImage> {
                    let mut s = BodySink::with_ram_buffers(1);
                    for p in pieces(&data, cuts) { s.push(Bytes::copy_from_slice(p)).v("push", "push")?; }
                    s.write_back(tune.temp_dir()).v("write_back", "write_back")?;
                    s.prepare().v("prepare", "prepare")
                })?;
                bodies.push((img, data.clone()));
            }
            Route::WithFs { cuts } => {
                let img = interpose::with(hook, || -> R<BodyImage> {
                    let mut s = BodySink::with_fs(tune.temp_dir()).v("with_fs", "with_fs")?;
                    for p in pieces(&data, cuts) { s.push(Bytes::copy_from_slice(p)).v("push", "push")?; }
                    s.prepare().v("prepare", "prepare")
                })?;
                bodies.push((img, data.clone()));
            }
            Route::Barc { req, .. } | Route::BarcPlain { req } | Route::BarcBrotli { req } => {
                let rn = match req { Len::Max(d) => (*d as i64).unsigned_abs(), l => l.of(t) };
                let rdata = fill_bytes(rn as usize, &Fill::Text, c.seed as u64 + 1);
                let path = work.join("a.barc");
                let mut rec = barc::Record {
                    req_body: BodyImage::from_slice(rdata.clone()),
                    res_body: BodyImage::from_slice(data.clone()),
                    ..barc::Record::default()
                };
                // Compressible, or else compressed only if without bodies
                for h in [&mut rec.req_headers, &mut rec.res_headers] {
                    h.insert(http::header::CONTENT_TYPE, http::HeaderValue::from_static("text/plain"));
                }
                let bf = barc::BarcFile::new(&path);
                {
                    let mut w = bf.writer().v("writer", "writer")?;
                    let gz = barc::GzipCompressStrategy::default().set_min_len(0).set_check_identity(false);
                    let br = crate::rec::BrotliCompressStrategy::default().set_min_len(0).set_compression_level(2)
                        .set_check_identity(false);
                    let no = barc::NoCompressStrategy::default();
                    let s: &dyn barc::CompressStrategy = match &c.route {
                        Route::Barc { .. } => &gz,
                        Route::BarcPlain { .. } => &no,
                        _ => &br,
                    };
                    w.write(&rec, s).v("write", "write")?;
                }
                drop(bf);
                let rec = interpose::with(hook, || -> R<_> {
                    let mut r = barc::BarcFile::new(&path).reader().v("reader", "reader")?;
                    r.read(&tune).v("read", "read")
                })?;
                let rec = match rec { Some(r) => r, None => { return violation("no-record", "record not found") } };
                for (b, d) in [(rec.req_body, rdata), (rec.res_body, data.clone())] {
                    if b.is_ram() {
                        ensure!(d.len() as u64 <= ramlim || d.is_empty(), "placement",
                                "{} byte archive body in RAM, threshold {}", d.len(), ramlim);
                    }
                    bodies.push((b, d));
                }
                opens.lock().unwrap().retain(|p| Path::new(p) != path);
            }
            Route::Sink { kind, buf, cuts } => {
                let sched = Sched { permits: 1, hold: vec![], spurious: vec![], fresh: true };
                let mut rig = Rig::new(*kind, &sched, &PoolSpec { size: 1, queue: None });
                let ftune = rig.tune(tune.clone(), 1000);
                let mut s = any_sink(*kind, *buf, BodySink::empty(), ftune);
                let img = interpose::with(hook, || -> R<BodyImage> {
                    for p in pieces(&data, cuts) {
                        rig.drive("poll_ready", |cx| s.ready(cx))?.v("poll_ready", "poll_ready")?;
                        s.send(p, Form::Whole, &work)?.v("start_send", "start_send")?;
                    }
                    rig.drive("poll_close", |cx| s.close(cx))?.v("poll_close", "poll_close")?;
                    s.inner().prepare().v("prepare", "prepare")
                })?;
                ensure!(img.is_ram() == (n == 0 || n <= ramlim), "placement",
                        "is_ram {} for {} bytes sent to a sink, threshold {}", img.is_ram(), n, ramlim);
                ctx.class(format!("sink-{}", kind.name()));
                bodies.push((img, data.clone()));
            }
            Route::Decode { enc, text } => {
                let d = if *text { fill_bytes(n as usize, &Fill::Text, c.seed as u64) } else { data.clone() };
                let (name, dec, times) = match enc {
                    0 => ("gzip", Dec::Gzip, tune.size_estimate_gzip()),
                    2 if cfg!(feature = "full") => ("br", Dec::Br, tune.size_estimate_brotli()),
                    _ => ("deflate", Dec::Deflate, tune.size_estimate_deflate()),
                };
                let comp = encode(&d, dec, 2)?;
                let est = comp.len() as u64 * times as u64;
                let mut dialog = Dialog::new(
                    Prolog { method: http::Method::GET, url: http::Uri::from_static("/"), req_headers: Default::default(), req_body: BodyImage::empty() },
                    Epilog {
                        version: http::Version::HTTP_11, status: http::StatusCode::OK, res_decoded: vec![],
                        res_headers: to_map(&vec![("content-encoding".into(), name.into())])?, res_body: BodyImage::from_slice(comp),
                    });
                interpose::with(hook, || body_image_futio::decode_res_body(&mut dialog, &tune)).v("decode", "decode")?;
                let img = dialog.res_body().clone();
                drop(dialog);
                ensure!(if img.is_ram() { n <= ramlim } else { n > ramlim || est > ramlim }, "placement",
                        "is_ram {} for {} bytes decompressed, estimate {}, threshold {}", img.is_ram(), n, est, ramlim);
                ctx.class("decode");
                bodies.push((img, d));
            }
            Route::Gone { est, pat, how } => {
                let gone = tmp.join("gone");
                let tune = t.tunables(&gone);
                let e = est.of(n, t);
                let (res, file) = interpose::with(hook, || match how {
                    0 => (BodySink::with_fs(&gone).and_then(|s| s.prepare()), true),
                    1 => {
                        let mut s = BodySink::with_ram(n);
                        if let Err(e) = s.push(Bytes::copy_from_slice(&data)) { return (Err(e.into()), false); }
                        let r = s.write_back(&gone).map(|_| ());
                        (r.and_then(|_| s.prepare()), true)
                    }
                    _ => (BodyImage::read_from(&mut Source::new(&data, pat), e, &tune), e > ramlim || n > ramlim),
                });
                ensure!(res.is_err() == file, "gone", "{:?} with the temporary directory missing, for {} bytes, estimate {}, threshold {}", res, n, e, ramlim);
                ctx.class("gone");
                if let Ok(img) = res { bodies.push((img, data.clone())); }
            }
            #[cfg(feature = "net")]
            Route::Fetch { framing, writes } => {
                let img = interpose::with(hook, || super::net::simple_fetch(&data, *framing, writes, tune.clone()))?;
                ensure!(img.is_ram() == (n == 0 || n <= ramlim), "placement",
                        "is_ram {} for {} bytes received, threshold {}", img.is_ram(), n, ramlim);
                ctx.class("fetch");
                bodies.push((img, data.clone()));
            }
            #[cfg(not(feature = "net"))]
            Route::Fetch { .. } => return Err(Fail::Harness("built without the client".into())),
        }
        let opened: Vec<String> = opens.lock().unwrap().clone();
        for p in &opened {
            let pb = PathBuf::from(p);
            ensure!(pb == tmp || pb.starts_with(&tmp), "temp-dir", "opened {} outside of the temp directory", p);
        }
        let needs_file = bodies.iter().any(|(b, _)| !b.is_ram());
        ctx.class_if(!opened.is_empty(), "temp-file-used");
        // use the bodies in several ways
        for (b, d) in &mut bodies {
            if c.map { b.mem_map().v("mem_map", "mem_map")?; }
            let got = read_body(b)?;
            ensure!(&got == d, "content", "{}", diff(d, &got));
            let mut keep = vec![];
            for _ in 0..c.clones { keep.push(b.clone()); }
        }
        let t_entries = list(&tmp);
        ensure!(t_entries.is_empty(), "residue", "temp directory holds {:?} while body alive", t_entries);
        drop(bodies);
        let t_entries = list(&tmp);
        ensure!(t_entries.is_empty(), "residue", "temp directory holds {:?} after drop", t_entries);
        let fds1 = open_fds();
        ensure!(fds0 == fds1, "fd-leak", "descriptors before {:?} after {:?}", fds0, fds1);
        ctx.nontrivial_if(needs_file || (n as i64 - ramlim as i64).abs() <= 3);
        Ok(())
    }
}
