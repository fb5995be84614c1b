//! C08, C09, C16: archive round trip, layout, and reader histories.

use std::io::Read;

use barc::{BarcFile, BarcReader, Record};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;
use crate::rec::*;

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C08Case {
    sessions: Vec<(bool, Vec<RecSpec>)>,
    many: Option<(u16, u8)>,
    tunes: Vec<TuneSpec>,
    seeks: Vec<u16>,
    copy: Option<Strat>,
}

pub struct C08;

pub fn read_next(r: &mut BarcReader, t: &body_image::Tunables, what: &str) -> R<Option<Record>> {
    r.read(t).v("read", what)
}

fn many_headers(n: u16, kind: u8) -> Headers {
    (0..n).map(|i| match kind % 3 {
        0 => (format!("x-{}", i), format!("{}", i).into_bytes()),
        1 => ("x-same".to_string(), format!("{}", i).into_bytes()),
        _ => (format!("x-{}", i % 50), vec![]),
    }).collect()
}

impl Prop for C08 {
    type Case = C08Case;
    fn id(&self) -> &'static str { "C08" }
    fn rule(&self) -> &'static str {
        "1-3 write sessions of 0-4 generated records (headers, bodies in any storage state, mixed strategies), rarely hundreds of header lines, read back sequentially and by seeking under 1-3 configurations, and optionally copied record by record to a second archive; non-trivial: at least one record with a body or at least two header lines"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["blanks around header values are not significant", "at most 24576 header lines per block"]
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(30_000, 250_000) }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C08Case> {
        let mb = t.pick(12_000, 60_000);
        let usual = prop::collection::vec((any::<bool>(), prop::collection::vec(prop_oneof![180 => rec_spec(mb, 40), 20 => rec_spec(100_000, 4), 1 => rec_spec(2_300_000, 4)], 0..4)), 1..4);
        let long = prop::collection::vec((any::<bool>(), prop::collection::vec(rec_spec(20, 1), 120..400)), 1..4);
        (prop_oneof![150 => usual, 1 => long],
         prop::option::weighted(0.06, (prop_oneof![4 => 100u16..140, 3 => 1u16..600, 1 => Just(5000u16)], 0u8..9)),
         prop::collection::vec(tune_unlimited(), 1..4),
         prop::collection::vec(any::<u16>(), 0..6),
         prop::option::weighted(0.3, strat()))
            .prop_map(|(sessions, many, tunes, seeks, copy)| C08Case { sessions, many, tunes, seeks, copy }).boxed()
    }
    fn run(&self, c: &C08Case, ctx: &mut Ctx) -> R {
        let path = ctx.dir.join("a.barc");
        let src = ctx.subdir("src")?;
        let mut models: Vec<RecModel> = vec![];
        let mut offs: Vec<u64> = vec![];
        let mut bf = BarcFile::new(&path);
        let mut rich = false;
        let mut first = true;
        for (reopen, recs) in &c.sessions {
            if *reopen { bf = BarcFile::new(&path); }
            let mut w = bf.writer().v("writer", "writer")?;
            for rs in recs {
                let mut rs = rs.clone();
                if let (true, Some((n, k))) = (first, c.many) {
                    match k / 3 { 0 => rs.meta = many_headers(n, k), 1 => rs.req_h = many_headers(n, k), _ => rs.res_h = many_headers(n, k) };
                    ctx.class_if(n > 128, "over-128-headers");
                    first = false;
                }
                let off = rs.write(&mut w, &src)?.v("write", "write")?;
                let m = rs.model();
                rich |= !m.req_b.is_empty() || !m.res_b.is_empty() || rs.meta.len() + rs.req_h.len() + rs.res_h.len() > 1;
                if offs.is_empty() { ensure!(off == 0, "offset", "first record at {}", off); }
                else { ensure!(off > *offs.last().unwrap(), "offset", "offsets not increasing"); }
                offs.push(off);
                models.push(m);
            }
        }
        let mut last: Vec<Record> = vec![];
        for t in &c.tunes {
            let td = ctx.subdir("tmp")?;
            let tune = t.tunables(&td);
            let mut r = bf.reader().v("reader", "reader")?;
            last.clear();
            for (i, m) in models.iter().enumerate() {
                ensure!(r.offset() == offs[i], "reader-offset", "reader at {} for record {} written at {}", r.offset(), i, offs[i]);
                let rec = match read_next(&mut r, &tune, &format!("record {}", i))? {
                    Some(x) => x, None => return violation("lost", format!("end of archive at record {} of {}", i, models.len())) };
                compare(&rec, m, &format!("record {}", i))?;
                last.push(rec);
            }
            for _ in 0..2 {
                let at = r.offset();
                ensure!(read_next(&mut r, &tune, "end")?.is_none(), "extra", "record beyond the last");
                ensure!(r.offset() == at, "end-offset", "offset moved at end");
            }
            for s in &c.seeks {
                if models.is_empty() { break; }
                let i = *s as usize % models.len();
                r.seek(offs[i]).v("seek", "seek")?;
                match read_next(&mut r, &tune, "after seek")? {
                    Some(x) => compare(&x, &models[i], &format!("record {} after seek", i))?,
                    None => return violation("lost", format!("no record at offset {}", offs[i])),
                }
            }
            ctx.evals(1);
        }
        if let Some(st) = &c.copy {
            // Records as read are written again and still are the same
            let p2 = ctx.dir.join("b.barc");
            let b2 = BarcFile::new(&p2);
            {
                let mut w = b2.writer().v("writer", "writer 2")?;
                for (i, rec) in last.iter().enumerate() {
                    w.write(rec, &*st.strategy()).v("rewrite", &format!("copying record {}", i))?;
                }
            }
            let td = ctx.subdir("tmp")?;
            let tune = c.tunes[0].tunables(&td);
            let mut r = b2.reader().v("reader", "reader 2")?;
            for (i, m) in models.iter().enumerate() {
                match read_next(&mut r, &tune, "copy")? {
                    Some(x) => compare(&x, m, &format!("copied record {}", i))?,
                    None => return violation("lost", "copy lost"),
                }
            }
            ctx.class("copied");
        }
        ctx.add("records", models.len() as u64);
        ctx.nontrivial_if(rich);
        Ok(())
    }
}

// ------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C09Case {
    before: Vec<(RecSpec, Enc, bool)>, write: Vec<RecSpec>, tune: TuneSpec,
    /// Which records are written through a second handle of the file
    #[serde(default)]
    others: u8,
}

pub struct C09;

impl Prop for C09 {
    type Case = C09Case;
    fn id(&self) -> &'static str { "C09" }
    fn rule(&self) -> &'static str {
        "0-4 records encoded by an independent encoder (plain, gzip, Brotli; lower or upper case names) as pre-existing archive, then 0-4 records written by the crate; file bytes checked by an independent strict parser and read back by the crate; non-trivial: at least one record with content on either side"
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(30_000, 250_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C09Case> {
        (prop_oneof![200 => prop::collection::vec((rec_spec(8000, 30), enc(), any::<bool>()), 0..4),
                     1 => prop::collection::vec((rec_spec(20, 1), enc(), any::<bool>()), 250..600)],
         prop::collection::vec(prop_oneof![200 => rec_spec(12_000, 30), 1 => rec_spec(2_300_000, 4)], 0..4), tune_unlimited(),
         prop_oneof![2 => Just(0u8), 1 => any::<u8>()])
            .prop_map(|(before, write, tune, others)| C09Case { before, write, tune, others }).boxed()
    }
    fn run(&self, c: &C09Case, ctx: &mut Ctx) -> R {
        let path = ctx.dir.join("a.barc");
        let src = ctx.subdir("src")?;
        let mut bytes = vec![];
        let mut offs = vec![];
        let mut models = vec![];
        for (r, e, caps) in &c.before {
            offs.push(bytes.len() as u64);
            bytes.extend_from_slice(&encode(r, *e, *caps)?);
            models.push(r.model());
        }
        if !c.before.is_empty() { std::fs::write(&path, &bytes).h("write archive")?; }
        let bf = BarcFile::new(&path);
        {
            let bf2 = BarcFile::new(&path);
            drop(bf.writer().v("writer", "writer")?);
            for (i, r) in c.write.iter().enumerate() {
                let other = c.others >> (i % 8) & 1 == 1;
                ctx.class_if(other, "second-handle");
                let mut w = if other { bf2.writer() } else { bf.writer() }.v("writer", "writer")?;
                let prev = std::fs::read(&path).h("read back")?;
                let off = r.write(&mut w, &src)?.v("write", "write")?;
                ensure!(off == prev.len() as u64, "append", "record written at {} of a {} byte archive", off, prev.len());
                let now = std::fs::read(&path).h("read back")?;
                ensure!(now.len() >= prev.len() && now[..prev.len()] == prev[..], "append", "existing bytes altered");
                offs.push(off);
                models.push(r.model());
            }
        }
        let now = std::fs::read(&path).h("read back")?;
        ensure!(now.starts_with(&bytes), "append", "pre-existing bytes altered");
        let parsed = match parse_archive(&now) { Ok(p) => p, Err(e) => return violation("format", e) };
        ensure!(parsed.len() == models.len(), "format-count", "{} records on disk, expected {}", parsed.len(), models.len());
        for (i, p) in parsed.iter().enumerate() {
            ensure!(p.at as u64 == offs[i], "format-offset", "record {} at {} not {}", i, p.at, offs[i]);
            ensure!(p.rec == models[i], "format-content", "record {} on disk differs from written", i);
            if i >= c.before.len() {
                let want = &c.write[i - c.before.len()].strat;
                let f = p.head.comp;
                let ok = match want { Strat::Plain => f == b'P', Strat::Gzip { .. } => f == b'P' || f == b'Z',
                                      Strat::Brotli { .. } => f == b'P' || f == if cfg!(feature = "full") { b'B' } else { b'Z' } };
                ensure!(ok, "format-flag", "strategy {:?} stored as {}", want, f as char);
                ctx.class(format!("stored-{}", f as char));
            }
        }
        let td = ctx.subdir("tmp")?;
        let tune = c.tune.tunables(&td);
        let mut r = bf.reader().v("reader", "reader")?;
        for (i, m) in models.iter().enumerate() {
            match read_next(&mut r, &tune, &format!("record {}", i))? {
                Some(x) => compare(&x, m, &format!("record {}", i))?,
                None => return violation("lost", format!("end of archive at record {}", i)),
            }
        }
        ensure!(read_next(&mut r, &tune, "end")?.is_none(), "extra", "record beyond the last");
        ctx.nontrivial_if(models.iter().any(|m| m.meta.len() + m.req_b.len() + m.res_b.len() + m.res_h.len() > 0));
        Ok(())
    }
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum H {
    Write(RecSpec), NewReader, Read(u8, u8), Seek(u8, u8), SeekEnd(u8), Check(u8), Map(u8), DropRec(u8), DropReader(u8),
    Session,
    /// A record of another writer, with a reserved head for some time
    Slow(RecSpec, Enc, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C16Case {
    ops: Vec<H>, tunes: Vec<TuneSpec>,
    /// A first record whose sparse body takes the others beyond 2^n bytes
    #[serde(default)]
    far: Option<(u8, i16)>,
}

fn far_record(path: &std::path::Path, len: u64) -> R {
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::create(path).h("far record")?;
    let head = format!("BARC2 {:012x} DP {:05x} {:05x} {:010x} {:05x}\r\n\r\n", len + 2, 0, 0, 0, 0);
    f.write_all_at(head.as_bytes(), 0).h("head")?;
    f.write_all_at(b"first", head.len() as u64).h("body")?;
    f.write_all_at(b"last\r\n", head.len() as u64 + len - 4).h("body end")
}

pub struct C16;

impl Prop for C16 {
    type Case = C16Case;
    fn id(&self) -> &'static str { "C16" }
    fn rule(&self) -> &'static str {
        "up to 40 steps of write, open reader, read, seek, check/map/drop held record, over several readers and configurations on one growing archive, sometimes beginning beyond a sparse first record of 16 MiB to 64 GiB, compared with a list model; non-trivial: at least 2 records written and 3 records read, with a read after a later write or seek"
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(40_000, 200_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C16Case> {
        let small = prop_oneof![
            8 => rec_spec(30, 1).prop_map(H::Write), 1 => Just(H::NewReader),
            8 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| H::Read(a, b)),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| H::Seek(a, b)), 1 => any::<u8>().prop_map(H::Check),
        ];
        let op = prop_oneof![
            4 => rec_spec(6000, 10).prop_map(H::Write),
            2 => Just(H::NewReader),
            10 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| H::Read(a, b)),
            3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| H::Seek(a, b)),
            1 => any::<u8>().prop_map(H::SeekEnd),
            2 => any::<u8>().prop_map(H::Check),
            2 => any::<u8>().prop_map(H::Map),
            1 => any::<u8>().prop_map(H::DropRec),
            1 => any::<u8>().prop_map(H::DropReader),
            1 => (rec_spec(3000, 4), enc(), any::<u8>()).prop_map(|(r, e, k)| H::Slow(r, e, k)),
            1 => Just(H::Session),
        ];
        (rec_spec(6000, 10), prop_oneof![150 => prop::collection::vec(op, 6..40), 1 => prop::collection::vec(small, 300..900)], prop::collection::vec(tune_unlimited(), 1..3),
         prop::option::weighted(0.2, (prop_oneof![24u8..37, 31u8..34], -3000i16..300)))
            .prop_map(|(f, mut ops, tunes, far)| { ops.insert(0, H::Write(f)); ops.insert(1, H::NewReader); C16Case { ops, tunes, far } }).boxed()
    }
    fn run(&self, c: &C16Case, ctx: &mut Ctx) -> R {
        let path = ctx.dir.join("a.barc");
        let src = ctx.subdir("src")?;
        let td = ctx.subdir("tmp")?;
        let tunes: Vec<_> = c.tunes.iter().map(|t| t.tunables(&td)).collect();
        let mut bf = BarcFile::new(&path);
        let mut offs: Vec<u64> = vec![];
        let mut end: u64 = 0;
        let mut models: Vec<RecModel> = vec![];
        // reader and index of its next record
        let mut readers: Vec<(BarcReader, usize)> = vec![];
        let mut held: Vec<(Record, usize)> = vec![];
        let (mut reads, mut interesting) = (0, false);
        let mut far = c.far.map(|(n, d)| ((1i64 << n) + d as i64) as u64);
        // Not every file system takes such files
        if far.map(|len| far_record(&path, len).is_err()).unwrap_or(false) {
            far = None;
            std::fs::remove_file(&path).h("remove")?;
            ctx.class("far-unavailable");
        }
        if far.is_some() {
            offs.push(0);
            models.push(RecModel { meta: vec![], req_h: vec![], req_b: vec![], res_h: vec![], res_b: vec![] });
            end = std::fs::metadata(&path).h("metadata")?.len();
            ctx.class(if end >> 32 > 0 { "beyond-4G" } else { "beyond-16M" });
        }
        for op in &c.ops {
            match op {
                H::Write(rs) => {
                    let mut w = bf.writer().v("writer", "writer")?;
                    let off = rs.write(&mut w, &src)?.v("write", "write")?;
                    ensure!(off == end, "offset", "written at {} of {}", off, end);
                    drop(w);
                    offs.push(off);
                    models.push(rs.model());
                    end = std::fs::metadata(&path).h("metadata")?.len();
                    interesting |= reads > 0;
                }
                H::Slow(rs, e, k) => {
                    use std::os::unix::fs::FileExt;
                    let b = encode(rs, *e, false)?;
                    let f = std::fs::OpenOptions::new().write(true).create(true).open(&path).h("open")?;
                    let mut head = b[..HEAD].to_vec();
                    head[19] = b'R';
                    // Reserved first, then with lengths
                    for step in 0..2 {
                        if step == 0 {
                            let h = head_bytes(&Head { len: 0, typ: b'R', comp: b'P', meta: 0, req_h: 0, req_b: 0, res_h: 0 });
                            f.write_all_at(&h, end).h("reserve")?;
                            let part = (b.len() - HEAD) * (*k as usize & 15) / 15;
                            f.write_all_at(&b[HEAD..HEAD + part], end + HEAD as u64).h("part")?;
                        } else {
                            f.write_all_at(&b[HEAD..], end + HEAD as u64).h("rest")?;
                            f.write_all_at(&head, end).h("reserved lengths")?;
                        }
                        for (r, next) in readers.iter_mut().filter(|x| x.1 == models.len()) {
                            for tune in &tunes {
                                ensure!(read_next(r, tune, "reserved")?.is_none(), "extra", "reserved record returned");
                                ensure!(r.offset() == end, "reader-offset", "offset {} after end at reserved record, expected {}", r.offset(), end);
                            }
                            debug_assert_eq!(*next, models.len());
                            ctx.class("at-reserved");
                        }
                    }
                    f.write_all_at(&b[..HEAD], end).h("head")?;
                    offs.push(end);
                    models.push(rs.model());
                    end += b.len() as u64;
                }
                H::NewReader => if readers.len() < 5 {
                    readers.push((bf.reader().v("reader", "reader")?, 0));
                    ensure!(readers.last().unwrap().0.offset() == 0, "new-offset", "new reader not at 0");
                },
                H::Read(i, t) => if !readers.is_empty() {
                    let n = readers.len();
                    let (r, next) = &mut readers[*i as usize % n];
                    let tune = &tunes[*t as usize % tunes.len()];
                    let want = if *next < offs.len() { offs[*next] } else { end };
                    ensure!(r.offset() == want, "reader-offset", "offset {} expected {}", r.offset(), want);
                    match read_next(r, tune, "read")? {
                        Some(x) => {
                            ensure!(*next < models.len(), "extra", "record beyond the end");
                            match far {
                                Some(len) if *next == 0 => {
                                    ensure!(x.res_body.len() == len, "body-len", "large body: length {} expected {}", x.res_body.len(), len);
                                    let mut b = [0u8; 5];
                                    x.res_body.reader().read_exact(&mut b).v("body", "large body")?;
                                    ensure!(&b == b"first", "body", "large body begins with {:?}", b);
                                }
                                _ => {
                                    compare(&x, &models[*next], &format!("record {}", *next))?;
                                    if held.len() < 12 { held.push((x, *next)); }
                                }
                            }
                            *next += 1;
                            reads += 1;
                        }
                        None => {
                            ensure!(*next == models.len(), "lost", "end at record {} of {}", *next, models.len());
                        }
                    }
                    let want = if *next < offs.len() { offs[*next] } else { end };
                    ensure!(r.offset() == want, "reader-offset", "offset {} after read, expected {}", r.offset(), want);
                },
                H::Seek(i, k) => if !readers.is_empty() && !offs.is_empty() {
                    let n = readers.len();
                    let (r, next) = &mut readers[*i as usize % n];
                    *next = *k as usize % offs.len();
                    r.seek(offs[*next]).v("seek", "seek")?;
                    ensure!(r.offset() == offs[*next], "seek-offset", "offset {} after seek to {}", r.offset(), offs[*next]);
                    interesting |= reads > 0;
                },
                H::SeekEnd(i) => if !readers.is_empty() {
                    let n = readers.len();
                    let (r, next) = &mut readers[*i as usize % n];
                    *next = offs.len();
                    r.seek(end).v("seek", "seek end")?;
                },
                H::Check(i) => if !held.is_empty() {
                    let (x, k) = &held[*i as usize % held.len()];
                    compare(x, &models[*k], &format!("held record {}", k))?;
                },
                H::Map(i) => if !held.is_empty() {
                    let n = held.len();
                    let (x, k) = &mut held[*i as usize % n];
                    x.req_body.mem_map().v("mem_map", "mem_map request body")?;
                    x.res_body.mem_map().v("mem_map", "mem_map response body")?;
                    ctx.class_if(x.res_body.is_mem_map() || x.req_body.is_mem_map(), "mapped");
                    compare(x, &models[*k], &format!("mapped record {}", k))?;
                    for (b, m) in [(&x.req_body, &models[*k].req_b), (&x.res_body, &models[*k].res_b)] {
                        let mut v = vec![];
                        b.write_to(&mut v).v("write_to", "write_to")?;
                        ensure!(&v == m, "body", "write_to of held body: {}", diff(m, &v));
                    }
                },
                H::DropRec(i) => if !held.is_empty() { let n = held.len(); held.swap_remove(*i as usize % n); },
                H::DropReader(i) => if !readers.is_empty() { let n = readers.len(); readers.swap_remove(*i as usize % n); },
                H::Session => { bf = BarcFile::new(&path); }
            }
        }
        drop(readers);
        for (x, k) in &held { compare(x, &models[*k], &format!("held record {} at end", k))?; }
        ctx.nontrivial_if(models.len() >= 2 && reads >= 3 && interesting);
        Ok(())
    }
}
