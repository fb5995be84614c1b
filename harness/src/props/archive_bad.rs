//! C12, C15, C30: malformed archives, and write and read faults.

use std::io::Read;

use barc::BarcFile;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::alloc;
use crate::engine::*;
use crate::faults::*;
use crate::gen::*;
use crate::interpose;
use crate::rec::*;

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Flip(u32, u8),
    Set(u32, u8),
    Truncate(u32),
    Insert(u32, Vec<u8>),
    Delete(u32, u16),
    /// Record, field (0 len, 1 meta, 2 req_h, 3 req_b, 4 res_h), change
    Field(u8, u8, FieldTo),
    Type(u8, u8),
    Comp(u8, u8),
    Dup(u32, u16),
    /// Empty line, and possibly more, after a line of a header block of a plain
    /// record, with lengths adjusted
    Blank(u8, u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FieldTo { Delta(i16), Value(u64), Max }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Base { Recs(Vec<(RecSpec, Enc)>), Raw(Vec<u8>), HeadRaw(u64, bool, u8, u32, u32, u64, u32, Vec<u8>) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C12Case { base: Base, muts: Vec<Mut>, tune: TuneSpec, map: bool }

pub struct C12;

fn set_field(b: &mut [u8], at: usize, f: u8, to: &FieldTo) {
    let (s, e) = match f % 5 { 0 => (6, 18), 1 => (22, 27), 2 => (28, 33), 3 => (34, 44), _ => (45, 50) };
    if at + HEAD > b.len() { return; }
    let digits = e - s;
    let max = (1u64 << (4 * digits)) - 1;
    let cur = std::str::from_utf8(&b[at + s..at + e]).ok().and_then(|x| u64::from_str_radix(x, 16).ok()).unwrap_or(0);
    let v = match to {
        FieldTo::Delta(d) => (cur as i64).saturating_add(*d as i64).max(0) as u64,
        FieldTo::Value(v) => *v,
        FieldTo::Max => max,
    }.min(max);
    let t = format!("{:0w$x}", v, w = digits);
    b[at + s..at + e].copy_from_slice(t.as_bytes());
}

fn blank(b: &mut Vec<u8>, at: usize, which: u8, line: u8, k: u8) {
    let h = match b.get(at..).map(parse_head) { Some(Ok(h)) if h.comp == b'P' => h, _ => return };
    let (s, n, f) = match which {
        0 => (0, h.meta, 1),
        1 => (h.meta, h.req_h, 2),
        _ => (h.meta + h.req_h + h.req_b as usize, h.res_h, 4),
    };
    let s = at + HEAD + s;
    let ends: Vec<_> = match b.get(s..s + n) { Some(x) => (0..n).filter(|i| x[*i] == b'\n').collect(), None => return };
    if ends.is_empty() { return; }
    let to = s + ends[line as usize % ends.len()] + 1;
    let add: &[u8] = [&b"\r\n"[..], b"\n", b"\r\nx: y\r\n", b"\r\n\r\n", b"x: y\r\n", b" \r\n"][k as usize % 6];
    b.splice(to..to, add.iter().cloned());
    let d = FieldTo::Delta(add.len() as i16);
    set_field(b, at, f, &d);
    set_field(b, at, 0, &d);
}

#[cfg(feature = "full")]
fn brotli_decode(x: &mut &[u8], v: &mut Vec<u8>) -> bool { brotli::BrotliDecompress(x, v).is_ok() }
#[cfg(not(feature = "full"))]
fn brotli_decode(_x: &mut &[u8], _v: &mut Vec<u8>) -> bool { false }

/// Where a record is returned there has to be a head with known flags. Where the
/// bytes are all by the documented layout, it has to be that record.
fn by_layout(b: &[u8], at: usize, end: usize, x: &barc::Record, ctx: &mut Ctx) -> R {
    let h = b.get(at..at + HEAD);
    ensure!(h.is_some(), "phantom", "record from {} of {} bytes", at, b.len());
    let h = h.unwrap();
    ensure!(h.starts_with(b"BARC2 ") && h[19] == b'D' && b"PZB".contains(&h[20])
            && [6..18, 22..27, 28..33, 34..44, 45..50].iter().all(|r| h[r.clone()].iter().all(u8::is_ascii_hexdigit)),
            "phantom", "record from head {:?}", String::from_utf8_lossy(h));
    let num = |s: usize, e: usize| u64::from_str_radix(std::str::from_utf8(&h[s..e]).unwrap(), 16).unwrap();
    let (len, blocks) = (num(6, 18), [num(22, 27), num(28, 33), num(34, 44), num(45, 50)]);
    ensure!(end as u64 == (at + HEAD) as u64 + len, "extent", "record at {} of stated length {} ends at {}", at, len, end);
    let data = match h[20] {
        b'P' => b.get(at + HEAD..end).map(|x| x.to_vec()),
        b'Z' => b.get(at + HEAD..end).and_then(|x| { let mut v = vec![]; flate2::read::GzDecoder::new(x).read_to_end(&mut v).ok().map(|_| v) }),
        _ => b.get(at + HEAD..end).and_then(|mut x| { let mut v = vec![]; brotli_decode(&mut x, &mut v).then(|| v) }),
    };
    if let Some(data) = data {
        ensure!(blocks.iter().sum::<u64>() <= data.len() as u64, "lengths", "blocks {:?} of record at {} exceed its {} bytes", blocks, at, data.len());
        let (mut s, mut rest) = (0, false);
        for (i, n) in blocks.iter().enumerate() {
            let block = &data[s..s + *n as usize];
            s += *n as usize;
            if i == 2 { continue; }
            // Nothing is left out, that is, no empty line except for the end
            let lines: Vec<_> = block.split(|c| *c == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l)).collect();
            let first = lines.iter().position(|l| l.is_empty()).unwrap_or(lines.len());
            rest |= lines[first..].iter().any(|l| !l.is_empty());
        }
        ensure!(!rest, "ignored", "part of a header block of the record at {} ignored", at);
    }
    let p = match b.get(at..end).map(parse_archive) { Some(Ok(p)) if p.len() == 1 => p, _ => return Ok(()) };
    let want = &p[0].rec;
    ctx.class("record-by-layout");
    ctx.class_if(h[20] != b'P', "record-by-layout-compressed");
    let got = model_of(x)?;
    ensure!(got.req_b == want.req_b, "content", "request body at {}: {}", at, diff(&want.req_b, &got.req_b));
    ensure!(got.res_b == want.res_b, "content", "response body at {}: {}", at, diff(&want.res_b, &got.res_b));
    for (g, w) in [(&got.meta, &want.meta), (&got.req_h, &want.req_h), (&got.res_h, &want.res_h)] {
        // Other line ends and names are for the header parser to decide on
        let plain = |v: &Vec<u8>| !v.iter().any(|c| b"\r\n".contains(c));
        if !w.iter().all(|(k, v)| k.bytes().all(|c| c.is_ascii_alphanumeric() || b"-_".contains(&c)) && v.iter().all(plain)) { continue; }
        let trim = |h: &Vec<(String, Vec<Vec<u8>>)>| h.iter().map(|(k, v)| (k.clone(), v.iter().map(|v| {
            let s = v.iter().position(|c| !b" \t".contains(c)).unwrap_or(v.len());
            let e = v.iter().rposition(|c| !b" \t".contains(c)).map_or(s, |e| e + 1);
            v[s..e].to_vec()
        }).collect::<Vec<_>>())).collect::<Vec<_>>();
        ensure!(trim(g) == trim(w), "headers", "headers at {}: {:?}, expected {:?}", at, g, w);
    }
    Ok(())
}

/// Read everything readable; check that each body is what it says.
fn read_all(path: &std::path::Path, tune: &body_image::Tunables, bytes: &[u8], map: bool,
            orig: Option<&[RecModel]>, ctx: &mut Ctx) -> R<(usize, Result<(), String>)>
{
    let size = bytes.len();
    let mut r = BarcFile::new(path).reader().v("reader", "reader")?;
    let mut n = 0;
    loop {
        let at = r.offset();
        let base = alloc::mark();
        let x = r.read(tune);
        let peak = alloc::peak_above(base);
        let lim = (64 << 20) + 4 * tune.max_body_ram() as usize + 4 * size;
        ensure!(peak <= lim, "memory", "peak heap {} reading a {} byte archive", peak, size);
        match x {
            Ok(Some(mut x)) => {
                ensure!(r.offset() > at, "no-progress", "offset {} after record at {}", r.offset(), at);
                if let Some(o) = orig {
                    ensure!(n < o.len(), "phantom", "record {} of {} in truncated archive", n, o.len());
                    compare(&x, &o[n], &format!("record {} of truncated archive", n))?;
                }
                if map {
                    x.req_body.mem_map().v("mem_map", "mem_map of returned body")?;
                    x.res_body.mem_map().v("mem_map", "mem_map of returned body")?;
                }
                for b in [&x.req_body, &x.res_body] {
                    let v = read_body(b)?;
                    ensure!(v.len() as u64 == b.len(), "short-body", "body of stated length {} has {} bytes", b.len(), v.len());
                }
                by_layout(bytes, at as usize, r.offset() as usize, &x, ctx)?;
                n += 1;
                ensure!(n <= size / HEAD + 1, "endless", "{} records from {} bytes", n, size);
            }
            Ok(None) => {
                ctx.class("ended-eof");
                ensure!(r.offset() == at, "end-offset", "offset moved at end");
                ensure!(at as usize >= size || bytes.get(at as usize + 19) == Some(&b'R'), "false-end",
                        "end of archive at {} of {} bytes", at, size);
                return Ok((n, Ok(())));
            }
            Err(e) => {
                ctx.class("ended-error");
                let _ = format!("{} {:?}", e, e);
                return Ok((n, Err(format!("{:?}", e))));
            }
        }
    }
}

impl Prop for C12 {
    type Case = C12Case;
    fn id(&self) -> &'static str { "C12" }
    fn rule(&self) -> &'static str {
        "valid archives of 1-3 records changed by 1-4 mutations (bit and byte changes, head field changes, type and compression flags, insertion, deletion, duplication, truncation), generated heads over raw bytes, and raw bytes; single truncations are compared with the original records; non-trivial: the archive differs from the valid one and its first head parses"
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the file is not changed while bodies are mapped"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(100_000, 900_000) }
    fn termination(&self) -> bool { true }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C12Case> {
        let to = prop_oneof![5 => (-70i16..71).prop_map(FieldTo::Delta), 1 => any::<i16>().prop_map(FieldTo::Delta),
            3 => (0u64..8).prop_map(FieldTo::Value), 1 => any::<u64>().prop_map(FieldTo::Value), 1 => Just(FieldTo::Max)];
        let m = || prop_oneof![
            3 => (any::<u32>(), 0u8..8).prop_map(|(a, b)| Mut::Flip(a, b)),
            2 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Mut::Set(a, b)),
            2 => any::<u32>().prop_map(Mut::Truncate),
            1 => (any::<u32>(), prop::collection::vec(any::<u8>(), 1..20)).prop_map(|(a, b)| Mut::Insert(a, b)),
            1 => (any::<u32>(), 1u16..100).prop_map(|(a, b)| Mut::Delete(a, b)),
            6 => (any::<u8>(), any::<u8>(), to.clone()).prop_map(|(a, b, c)| Mut::Field(a, b, c)),
            1 => (any::<u8>(), prop::sample::select(b"RDPXdrZ ".to_vec())).prop_map(|(a, b)| Mut::Type(a, b)),
            2 => (any::<u8>(), prop::sample::select(b"PZBXpzbDRA ".to_vec())).prop_map(|(a, b)| Mut::Comp(a, b)),
            1 => (any::<u32>(), 1u16..200).prop_map(|(a, b)| Mut::Dup(a, b)),
            1 => (any::<u8>(), 0u8..3, any::<u8>(), any::<u8>()).prop_map(|(a, b, c, d)| Mut::Blank(a, b, c, d)),
        ];
        let small = || prop_oneof![0u32..6, 0u32..200, any::<u32>()];
        let raw = || prop_oneof![
            prop::collection::vec(any::<u8>(), 0..200),
            prop::collection::vec(prop::sample::select(b"a: b\r\n\r\n\r\nxX:\t".to_vec()), 0..200),
        ];
        let base = prop_oneof![
            12 => prop::collection::vec((rec_spec(3000, 12), enc()), 1..4).prop_map(Base::Recs),
            1 => raw().prop_map(Base::Raw),
            4 => (prop_oneof![0u64..300, any::<u64>()], any::<bool>(), prop::sample::select(b"PZB".to_vec()),
                  small(), small(), prop_oneof![0u64..6, 0u64..200, any::<u64>()], small(), raw())
                .prop_map(|(l, d, c, m, q, b, s, r)| Base::HeadRaw(l, d, c, m, q, b, s, r)),
        ];
        (base, prop_oneof![3 => any::<u32>().prop_map(|t| vec![Mut::Truncate(t)]), 6 => prop::collection::vec(m(), 1..5)],
         tune(), prop::bool::weighted(0.3), prop::option::weighted(0.2, 0u64..4))
            .prop_map(|(base, muts, mut tune, map, ram)| {
                if let Some(r) = ram { tune.max_ram = r; tune.max_body = tune.max_body.max(r); }
                C12Case { base, muts, tune, map }
            }).boxed()
    }
    fn run(&self, c: &C12Case, ctx: &mut Ctx) -> R {
        let path = ctx.dir.join("a.barc");
        let td = ctx.subdir("tmp")?;
        let mut offs = vec![];
        let mut models = vec![];
        let mut b = vec![];
        match &c.base {
            Base::Recs(rs) => for (r, e) in rs {
                offs.push(b.len());
                b.extend_from_slice(&encode(r, *e, false)?);
                models.push(r.model());
            },
            Base::Raw(r) => { b = r.clone(); offs.push(0); }
            Base::HeadRaw(l, d, comp, m, q, rb, s, raw) => {
                b = head_bytes(&Head {
                    len: l & 0xffff_ffff_ffff, typ: if *d { b'D' } else { b'R' }, comp: *comp, meta: (m & 0xfffff) as usize,
                    req_h: (q & 0xfffff) as usize, req_b: rb & 0xff_ffff_ffff, res_h: (s & 0xfffff) as usize,
                });
                b.extend_from_slice(raw);
                offs.push(0);
            }
        }
        let valid = b.clone();
        for m in &c.muts {
            let n = b.len();
            if n == 0 { break; }
            let p = |x: u32| x as usize % n;
            let rec = |x: u8| offs[x as usize % offs.len()];
            match m {
                Mut::Flip(a, bit) => b[p(*a)] ^= 1 << bit,
                Mut::Set(a, v) => b[p(*a)] = *v,
                Mut::Truncate(a) => b.truncate(p(*a)),
                Mut::Insert(a, v) => { let at = p(*a); b.splice(at..at, v.iter().cloned()); }
                Mut::Delete(a, k) => { let at = p(*a); let e = (at + *k as usize).min(n); b.drain(at..e); }
                Mut::Field(r, f, to) => set_field(&mut b, rec(*r), *f, to),
                Mut::Type(r, v) => { let at = rec(*r) + 19; if at < n { b[at] = *v } }
                Mut::Comp(r, v) => { let at = rec(*r) + 20; if at < n { b[at] = *v } }
                Mut::Blank(r, which, line, k) => blank(&mut b, rec(*r), *which, *line, *k),
                Mut::Dup(a, k) => { let at = p(*a); let e = (at + *k as usize).min(n); let s = b[at..e].to_vec(); b.splice(at..at, s); }
            }
        }
        std::fs::write(&path, &b).h("write archive")?;
        let only_trunc = matches!(&c.base, Base::Recs(_)) && c.muts.len() == 1 && matches!(c.muts[0], Mut::Truncate(_));
        let tune = {
            // the limit is not the matter when comparing content
            let mut t = c.tune.clone();
            if only_trunc { t.max_body = 1 << 30; }
            t.tunables(&td)
        };
        let (n, end) = read_all(&path, &tune, &b, c.map, if only_trunc { Some(&models) } else { None }, ctx)?;
        if only_trunc {
            ctx.class("truncation");
            let whole = offs.iter().skip(1).cloned().chain(Some(valid.len())).filter(|e| *e <= b.len()).count();
            ensure!(n == whole, "lost", "{} records read, {} complete in truncated archive", n, whole);
            let boundary = b.is_empty() || offs.contains(&b.len());
            ensure!(end.is_ok() == boundary, "truncation-silent",
                    "archive cut at {} ({}a boundary) ended with {:?}", b.len(), if boundary { "" } else { "not " }, end);
        }
        ctx.class_if(n > 0, "some-records");
        ctx.nontrivial_if(b != valid && parse_head(&b).is_ok() || matches!(c.base, Base::HeadRaw(..)));
        Ok(())
    }
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C15Case { before: Vec<RecSpec>, victims: Vec<(RecSpec, Vec<Fault>)>, after: Vec<RecSpec>, reopen: bool, tune: TuneSpec,
    /// A further record with a header block (of three) of a length near to
    /// what can be expressed
    #[serde(default)] big: Option<(u8, i16)> }

pub struct C15;

const BLOCK_MAX: usize = 0xfffff;

fn read_models(path: &std::path::Path, tune: &body_image::Tunables, what: &str) -> R<Vec<RecModel>> {
    let mut r = BarcFile::new(path).reader().v("reader", "reader")?;
    let mut v = vec![];
    loop {
        match r.read(tune).v("unreadable", what)? {
            Some(x) => v.push(model_of(&x)?),
            None => return Ok(v),
        }
    }
}

impl Prop for C15 {
    type Case = C15Case;
    fn id(&self) -> &'static str { "C15" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self) -> &'static str {
        "0-2 records written, then 1-2 writes with 1-2 faults each at generated positions over all file operations of the same write (counted fault-free), then 0-2 further writes on the same or a new handle; archive compared with the list of successful writes after each step; non-trivial: a fault was injected"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["shortening the archive file back after a failure does not fail itself"]
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(30_000, 200_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C15Case> {
        let rec = || rec_spec(5000, 4);
        (prop::collection::vec(rec(), 0..3),
         prop::collection::vec((rec(), prop::collection::vec(fault(), 1..3)), 1..3),
         prop::collection::vec(rec(), 0..3), any::<bool>(), tune_unlimited(),
         prop::option::weighted(0.03, (0u8..3, prop_oneof![2 => -4i16..4, 1 => 1i16..5000])))
            .prop_map(|(before, victims, after, reopen, tune, big)| C15Case { before, victims, after, reopen, tune, big }).boxed()
    }
    fn run(&self, c: &C15Case, ctx: &mut Ctx) -> R {
        let path = ctx.dir.join("a.barc");
        let src = ctx.subdir("src")?;
        let td = ctx.subdir("tmp")?;
        let tune = c.tune.tunables(&td);
        let mut bf = BarcFile::new(&path);
        let mut models: Vec<RecModel> = vec![];
        for r in &c.before {
            r.write(&mut bf.writer().v("writer", "writer")?, &src)?.v("write", "write")?;
            models.push(r.model());
        }
        let mut hits = 0;
        for (i, (r, faults)) in c.victims.iter().enumerate() {
            // Fault-free run on another archive, to count operations
            let rec = r.build(&src)?;
            let st = r.strat.strategy();
            let total = {
                let p2 = ctx.path("dry");
                let b2 = BarcFile::new(&p2);
                let mut w = b2.writer().v("writer", "writer")?;
                let (hook, cnt) = injector_no_trunc(ctx.dir.clone(), &[], 0);
                interpose::with(hook, || w.write(&rec, &*st)).v("write", "dry run")?;
                cnt.n()
            };
            let prev = std::fs::read(&path).unwrap_or_default();
            let (hook, cnt) = injector_no_trunc(ctx.dir.clone(), faults, total);
            let mut w = bf.writer().v("writer", "writer")?;
            let res = interpose::with(hook, || w.write(&rec, &*st));
            drop(w);
            hits += cnt.hard() + cnt.soft();
            ctx.class_if(cnt.hard() > 0, "hard-fault");
            ctx.class_if(cnt.soft() > 0, "soft-fault");
            let now = std::fs::read(&path).h("read back")?;
            ensure!(now.starts_with(&prev), "altered", "write {} altered existing bytes", i);
            let got = read_models(&path, &tune, "archive after faulty write")?;
            ensure!(got.len() >= models.len() && got[..models.len()] == models[..], "earlier-lost",
                    "{} of {} earlier records intact after faulty write", got.iter().zip(&models).take_while(|(a, b)| a == b).count(), models.len());
            let m = r.model();
            match res {
                Ok(off) => {
                    ensure!(off == prev.len() as u64, "offset", "offset {} of {}", off, prev.len());
                    ensure!(got.len() == models.len() + 1 && got[models.len()] == m, "ok-not-stored",
                            "write reported success with {} hard faults, but the record is not stored intact", cnt.hard());
                    models.push(m);
                    ctx.class("succeeded");
                }
                Err(e) => {
                    // the gzip encoder gives up when interrupted on finish
                    let intr = matches!(r.strat, Strat::Gzip { .. }) && cnt.soft() > 0
                        && matches!(&e, barc::BarcError::Io(e) if e.kind() == std::io::ErrorKind::Interrupted);
                    ensure!(cnt.hard() > 0 || intr, "spurious", "write failed without failing operation: {:?}", e);
                    let intact = got.len() == models.len() + 1 && got[models.len()] == m;
                    ensure!(got.len() == models.len() || intact, "partial-visible", "part of a failed record is visible");
                    if intact { models.push(m); ctx.class("failed-but-stored"); }
                    ctx.class("failed");
                }
            }
        }
        if let Some((which, delta)) = c.big {
            let mut r = c.victims[0].0.clone();
            let h = match which { 0 => &mut r.meta, 1 => &mut r.req_h, _ => &mut r.res_h };
            h.clear();
            let n = (BLOCK_MAX as i64 + delta as i64) as usize;
            h.push(("x-big".into(), vec![b'v'; n - 9]));
            let prev = std::fs::read(&path).h("read back")?;
            let res = r.write(&mut bf.writer().v("writer", "writer")?, &src)?;
            match res {
                Ok(_) => {
                    ensure!(n <= BLOCK_MAX, "block-limit", "header block of {} bytes accepted", n);
                    models.push(r.model());
                    ctx.class("largest-block");
                }
                Err(e) => {
                    ensure!(n + 2 > BLOCK_MAX, "block-refused", "header block of {} bytes refused: {:?}", n, e);
                    let now = std::fs::read(&path).h("read back")?;
                    ensure!(now.starts_with(&prev), "altered", "refused write altered existing bytes");
                    ctx.class("oversize-block");
                }
            }
            let got = read_models(&path, &tune, "archive after large header block")?;
            ensure!(got == models, "oversize-visible", "{} of {} records intact after large header block", got.len(), models.len());
        }
        if c.reopen { bf = BarcFile::new(&path); }
        for r in &c.after {
            r.write(&mut bf.writer().v("writer", "writer")?, &src)?.v("write-after", "write after fault")?;
            models.push(r.model());
        }
        let got = read_models(&path, &tune, "final archive")?;
        ensure!(got == models, "later-lost", "{} of {} records readable at the end", got.len(), models.len());
        ctx.nontrivial_if(hits > 0);
        Ok(())
    }
}

// ------------------------------------------------------------------ C30

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C30Case { recs: Vec<(RecSpec, Enc)>, tune: TuneSpec, faults: Vec<Fault> }

pub struct C30;

fn read_bodies(x: &barc::Record, m: &RecModel, cnt: &Counts) -> R {
    use std::io::Read;
    for (b, want) in [(&x.req_body, &m.req_b), (&x.res_body, &m.res_b)] {
        ensure!(b.len() == want.len() as u64, "body-len", "body length {} expected {}", b.len(), want.len());
        let h = cnt.hard();
        let mut v = vec![];
        let mut buf = [0u8; 1500];
        let mut r = b.reader();
        loop {
            match r.read(&mut buf) {
                Ok(0) => { ensure!(&v == want, "body", "{}", diff(want, &v)); break; }
                Ok(n) => v.extend_from_slice(&buf[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => { ensure!(cnt.hard() > h, "spurious-body", "body read failed: {:?}", e); break; }
            }
            ensure!(want.starts_with(&v), "body", "{}", diff(want, &v));
        }
    }
    Ok(())
}

impl Prop for C30 {
    type Case = C30Case;
    fn id(&self) -> &'static str { "C30" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self) -> &'static str {
        "archive of 1-3 records (plain, gzip, Brotli) read with 1-3 faults at generated positions over all file operations of the fault-free read; each error must coincide with a failing operation and each returned record be exact, and after an error the record is read again from its offset; non-trivial: a fault was injected"
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(25_000, 300_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C30Case> {
        (prop::collection::vec((rec_spec(8000, 8), enc()), 1..4), tune_unlimited(), prop::collection::vec(fault(), 1..4))
            .prop_map(|(recs, tune, faults)| C30Case { recs, tune, faults }).boxed()
    }
    fn run(&self, c: &C30Case, ctx: &mut Ctx) -> R {
        let path = ctx.dir.join("a.barc");
        let td = ctx.subdir("tmp")?;
        let tune = c.tune.tunables(&td);
        let mut b = vec![];
        let mut offs = vec![];
        for (r, e) in &c.recs { offs.push(b.len() as u64); b.extend_from_slice(&encode(r, *e, false)?); }
        std::fs::write(&path, &b).h("write archive")?;
        let models: Vec<_> = c.recs.iter().map(|r| r.0.model()).collect();
        let bf = BarcFile::new(&path);
        let mut total = 0;
        for round in 0..2 {
            let (hook, cnt) = injector(ctx.dir.clone(), if round == 0 { &[] } else { &c.faults }, total);
            let mut r = bf.reader().v("reader", "reader")?;
            interpose::with(hook, || -> R {
                let mut i = 0;
                loop {
                    let h = cnt.hard();
                    match r.read(&tune) {
                        Ok(Some(x)) => {
                            ensure!(i < models.len(), "phantom", "extra record");
                            interpose::muted(|| compare(&x, &models[i], &format!("record {}", i)))?;
                            read_bodies(&x, &models[i], &cnt)?;
                            i += 1;
                        }
                        Ok(None) => {
                            ensure!(i == models.len(), "false-end", "end of archive at record {} of {}", i, models.len());
                            return Ok(());
                        }
                        Err(e) => {
                            ensure!(cnt.hard() > h, "spurious", "read of record {} failed without failing operation: {:?}", i, e);
                            ctx.class("error");
                            if i >= models.len() { return Ok(()); }
                            // fault gone: seek back and read
                            interpose::muted(|| -> R {
                                r.seek(offs[i]).v("seek", "seek back")?;
                                match r.read(&tune).v("reread", "read again")? {
                                    Some(x) => compare(&x, &models[i], &format!("record {} read again", i)),
                                    None => violation("reread-lost", format!("no record {} on reading again", i)),
                                }
                            })?;
                            i += 1;
                        }
                    }
                }
            })?;
            if round == 0 { total = cnt.n(); ctx.add("file-operations", total); }
            else {
                ctx.class_if(cnt.hard() > 0, "hard-fault");
                ctx.class_if(cnt.soft() > 0, "soft-fault");
                ctx.nontrivial_if(cnt.hard() + cnt.soft() > 0);
            }
        }
        ctx.evals(1);
        Ok(())
    }
}
