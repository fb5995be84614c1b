//! C27, C28, C29: the command line tool, run as a process in a scratch
//! directory.

use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs::{self, File};
use std::io::Read;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::io::FromRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use barc::{BarcFile, CompressStrategy, GzipCompressStrategy};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;
use crate::rec::*;

// ------------------------------------------------------------- running

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sink { File, Closed }

pub struct Ran { pub code: Option<i32>, pub out: Vec<u8>, pub err: String }

pub struct Tool { bin: PathBuf, pub work: PathBuf, pub io: PathBuf }

/// No file of the tool gets larger, whatever goes wrong.
pub const FSIZE: u64 = 16 << 20;

impl Tool {
    pub fn new(ctx: &mut Ctx) -> R<Tool> { Tool::of(ctx, if cfg!(feature = "full") { "target-cli" } else { "target-cli-min" }) }

    pub fn of(ctx: &mut Ctx, target: &str) -> R<Tool> {
        let exe = std::env::current_exe().h("own path")?;
        let root = exe.ancestors().nth(3).ok_or_else(|| Fail::Harness("own path".into()))?.to_path_buf();
        let bin = root.join(target).join("debug/barc");
        if !bin.is_file() { return Err(Fail::Harness(format!("no {}", bin.display()))); }
        let t = Tool { bin, work: ctx.dir.join("w"), io: ctx.dir.join("io") };
        fs::create_dir_all(t.work.join("d")).h("work directory")?;
        fs::create_dir_all(&t.io).h("io directory")?;
        Ok(t)
    }

    pub fn run(&self, args: &[OsString], sink: Sink, fsize: u64) -> R<Ran> {
        let mut c = Command::new(&self.bin);
        c.args(args).current_dir(&self.work).env_clear().env("TMPDIR", &self.io).stdin(Stdio::null()).stderr(Stdio::piped());
        let op = self.io.join("out");
        match sink {
            Sink::File => { c.stdout(File::create(&op).h("stdout")?); }
            Sink::Closed => {
                let mut fds = [0i32; 2];
                if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 { return Err(Fail::Harness("pipe".into())); }
                let (r, w) = unsafe { (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1])) };
                drop(r);
                c.stdout(w);
            }
        }
        unsafe {
            c.pre_exec(move || {
                let l = libc::rlimit { rlim_cur: fsize, rlim_max: fsize };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                // Have the limit reported as an error
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                Ok(())
            });
        }
        let mut ch = c.spawn().h("spawn")?;
        drop(c);
        let mut err = vec![];
        ch.stderr.take().unwrap().read_to_end(&mut err).h("stderr")?;
        let st = ch.wait().h("wait")?;
        let err = String::from_utf8_lossy(&err).to_string();
        if let Some(s) = st.signal() {
            if s == libc::SIGKILL || s == libc::SIGTERM { return Err(Fail::Harness(format!("tool killed by {}", s))); }
            return violation("crash", format!("{:?} ended by signal {}: {}", args, s, err));
        }
        ensure!(st.code() != Some(101), "crash", "{:?} panicked: {}", args, err.lines().take(4).collect::<Vec<_>>().join(" "));
        let out = if sink == Sink::File { fs::read(&op).h("stdout")? } else { vec![] };
        Ok(Ran { code: st.code(), out, err })
    }

    fn ok(&self, args: &[OsString]) -> R<Ran> {
        let r = self.run(args, Sink::File, FSIZE)?;
        ensure!(r.code == Some(0), "exit-status", "{:?} exited with {:?}: {}", args, r.code, r.err);
        Ok(r)
    }

    pub fn put(&self, name: &str, b: &[u8]) -> R {
        let p = self.work.join(name);
        if let Some(d) = p.parent() { fs::create_dir_all(d).h("directory")?; }
        fs::write(p, b).h("archive")
    }

    pub fn snapshot(&self) -> R<BTreeMap<PathBuf, Option<Vec<u8>>>> {
        fn walk(d: &Path, m: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) -> std::io::Result<()> {
            for e in fs::read_dir(d)? {
                let e = e?;
                let t = e.file_type()?;
                if t.is_dir() { m.insert(e.path(), None); walk(&e.path(), m)?; }
                else if t.is_file() { m.insert(e.path(), Some(fs::read(e.path())?)); }
                else { m.insert(e.path(), None); }
            }
            Ok(())
        }
        let mut m = BTreeMap::new();
        walk(&self.work, &mut m).h("snapshot")?;
        Ok(m)
    }
}

pub fn failed(r: &Ran, args: &[OsString]) -> R {
    ensure!(r.code != Some(0), "no-error", "{:?} exited with success", args);
    ensure!(!r.err.trim().is_empty(), "no-message", "{:?} exited with {:?} and no message", args, r.code);
    Ok(())
}

pub fn os(s: &str) -> OsString { OsString::from(s) }

// ------------------------------------------------------------- selection

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum From { All, Index(u64), Offset(u16, u8) }

/// First record, count, and spelling of the options.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sel { from: From, count: Option<u64>, spell: u8 }

fn number() -> impl Strategy<Value = u64> { prop_oneof![12 => 0u64..7, 1 => 0u64..400, 1 => Just(u64::MAX), 1 => Just(u32::MAX as u64 + 1)] }

fn sel() -> impl Strategy<Value = Sel> {
    (prop_oneof![1 => Just(From::All), 3 => number().prop_map(From::Index), 3 => (prop_oneof![12 => 0u16..8, 1 => 0u16..400], any::<u8>()).prop_map(|(a, b)| From::Offset(a, b))],
     prop::option::weighted(0.7, number()), any::<u8>())
        .prop_map(|(from, count, spell)| Sel { from, count, spell })
}

fn option(long: &str, v: &str, spell: u8) -> Vec<OsString> {
    let short = &long[..1];
    match spell % 4 {
        0 => vec![os(&format!("--{}", long)), os(v)],
        1 => vec![os(&format!("--{}={}", long, v))],
        2 => vec![os(&format!("-{}", short)), os(v)],
        _ => vec![os(&format!("-{}{}", short, v))],
    }
}

impl Sel {
    /// Options for an archive with records at `offs`, the last one its end.
    fn args(&self, offs: &[u64]) -> Vec<OsString> {
        let mut v = vec![];
        match self.from {
            From::All => {}
            From::Index(i) => v.extend(option("index", &i.to_string(), self.spell)),
            From::Offset(k, style) => {
                let o = offs[k as usize % offs.len()];
                let t = match style % 5 {
                    0 | 1 => o.to_string(), 2 => format!("{:#x}", o), 3 => format!("{:#012x}", o), _ => format!("0x{:X}", o),
                };
                v.extend(option("offset", &t, self.spell));
            }
        }
        if let Some(c) = self.count {
            let c = option("count", &c.to_string(), self.spell / 4);
            if self.spell & 64 == 0 { v.extend(c) } else { v.splice(0..0, c); }
        }
        v
    }
    fn range(&self, n: usize) -> std::ops::Range<usize> {
        let a = match self.from {
            From::All => 0,
            From::Index(i) => i.min(n as u64) as usize,
            From::Offset(k, _) => k as usize % (n + 1),
        };
        let c = self.count.unwrap_or(u64::MAX);
        a..(a as u64).saturating_add(c).min(n as u64) as usize
    }
}

// ------------------------------------------------------------- archives

pub type Recs = Vec<(RecSpec, Enc)>;

pub fn recs(lo: usize, hi: usize) -> BoxedStrategy<Recs> {
    prop_oneof![
        8 => prop::collection::vec((rec_spec(3000, 5), enc()), lo..hi),
        1 => prop::collection::vec((rec_spec(12_000, 5), enc()), lo..hi),
    ].boxed()
}

/// Many small ones, and selections to go with them.
fn long() -> BoxedStrategy<(Recs, Sel)> {
    let at = || prop_oneof![3 => 0u64..400, 1 => 254u64..259];
    (prop::collection::vec((rec_spec(10, 1), enc()), 200..400),
     prop_oneof![1 => Just(From::All), 2 => at().prop_map(From::Index), 2 => (at(), any::<u8>()).prop_map(|(a, b)| From::Offset(a as u16, b))],
     prop::option::weighted(0.7, at()), any::<u8>())
        .prop_map(|(r, from, count, spell)| (r, Sel { from, count, spell })).boxed()
}

fn large() -> BoxedStrategy<Recs> {
    prop::collection::vec((rec_spec(400_000, 2), enc()), 1..3).boxed()
}

pub struct Built { pub bytes: Vec<u8>, pub offs: Vec<u64>, pub models: Vec<RecModel> }

pub fn build(rs: &Recs) -> R<Built> {
    let mut b = Built { bytes: vec![], offs: vec![], models: vec![] };
    for (r, e) in rs {
        b.offs.push(b.bytes.len() as u64);
        b.bytes.extend_from_slice(&encode(r, *e, false)?);
        b.models.push(r.model());
    }
    b.offs.push(b.bytes.len() as u64);
    Ok(b)
}

const NAMES: [&str; 9] = ["a.barc", "x,y.barc", "sp ace.barc", "d/in.barc", "caf\u{e9}.barc", "-dash.barc",
    "a-quite-long-name-of-an-archive-file-beyond-the-padding.barc", "n", "offset 0x1 ======"];

fn file_name(i: usize, k: u8) -> String {
    let n = NAMES[k as usize % NAMES.len()];
    match n.strip_prefix("d/") {
        Some(n) => format!("d/{}{}", i, n),
        None if n.starts_with('-') => format!("{}{}", n, i),
        None => format!("{}{}", i, n),
    }
}

/// A file argument that can't be taken for an option.
fn file_arg(n: &str) -> String { if n.starts_with('-') { format!("./{}", n) } else { n.to_string() } }

fn block_len(h: &[(String, Vec<Vec<u8>>)]) -> usize {
    let n: usize = h.iter().map(|(n, vs)| vs.iter().map(|v| n.len() + v.len() + 4).sum::<usize>()).sum();
    if n > 0 { n + 2 } else { 0 }
}

/// Walk through printed output.
struct Walk<'a> { out: &'a [u8], at: usize }

impl<'a> Walk<'a> {
    fn take(&mut self, n: usize, what: &str) -> R<&'a [u8]> {
        ensure!(self.out.len() - self.at >= n, "output-short", "output ends within {}", what);
        let s = &self.out[self.at..self.at + n];
        self.at += n;
        Ok(s)
    }

    fn separator(&mut self, file: &str, off: u64) -> R {
        let rest = &self.out[self.at..];
        let e = match rest.iter().position(|c| *c == b'\n') {
            Some(e) => e,
            None => return violation("separator", format!("no separator line for record at {} of {}", off, file)),
        };
        let line = String::from_utf8_lossy(&rest[..e]).to_string();
        self.at += e + 1;
        ensure!(line.contains(file), "separator-file", "no file name {:?} in {:?}", file, line);
        let tail = line.replacen(file, "", 1);
        let o: Vec<u64> = tail.split_whitespace().filter_map(|w| w.strip_prefix("0x"))
            .filter_map(|w| u64::from_str_radix(w, 16).ok()).collect();
        ensure!(o == [off], "separator-offset", "record at {:#x}: {:?}", off, line);
        Ok(())
    }

    fn headers(&mut self, h: &Vec<(String, Vec<Vec<u8>>)>, what: &str) -> R {
        let b = self.take(block_len(h), what)?;
        if b.is_empty() { return Ok(()); }
        let got = crlf_cut(b).and_then(parse_block);
        ensure!(got.as_ref() == Ok(h), "headers", "{}: printed {:?}, expected {:?}", what, String::from_utf8_lossy(b), h);
        Ok(())
    }

    fn body(&mut self, d: &[u8], what: &str) -> R {
        if d.is_empty() { return Ok(()); }
        let b = self.take(d.len() + 2, what)?;
        ensure!(&b[..d.len()] == d && &b[d.len()..] == b"\r\n", "body", "{}: {}", what, diff(d, &b[..d.len()]));
        Ok(())
    }

    fn record(&mut self, file: &str, off: u64, m: &RecModel, parts: u8) -> R {
        self.separator(file, off)?;
        let w = |p: &str| format!("{} of record at {:#x}", p, off);
        if parts & 1 != 0 { self.headers(&m.meta, &w("meta"))?; }
        if parts & 2 != 0 { self.headers(&m.req_h, &w("request headers"))?; }
        if parts & 4 != 0 { self.body(&m.req_b, &w("request body"))?; }
        if parts & 8 != 0 { self.headers(&m.res_h, &w("response headers"))?; }
        if parts & 16 != 0 { self.body(&m.res_b, &w("response body"))?; }
        Ok(())
    }

    fn end(&self) -> R {
        ensure!(self.at == self.out.len(), "output-extra", "{} bytes printed beyond what was selected: {:?}", self.out.len() - self.at,
                String::from_utf8_lossy(&self.out[self.at..self.out.len().min(self.at + 100)]));
        Ok(())
    }
}

const FLAGS: [&str; 5] = ["--meta", "--req-head", "--req-body", "--res-head", "--res-body"];

fn part_args(parts: u8, alias: bool) -> Vec<OsString> {
    (0..5).filter(|i| parts >> i & 1 == 1).map(|i| os(if i == 0 && alias { "--meta-head" } else { FLAGS[i] })).collect()
}

fn all_if_none(parts: u8) -> u8 { if parts & 31 == 0 { 31 } else { parts & 31 } }

// ------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C27Case { files: Vec<(u8, Recs)>, parts: u8, sel: Sel, order: u8 }

pub struct C27;

impl Prop for C27 {
    type Case = C27Case;
    fn id(&self) -> &'static str { "C27" }
    fn rule(&self) -> &'static str {
        "archives of 0-5 records printed with any part flags, and by index, offset (decimal, hexadecimal) and count for single files; non-trivial: at least one record is printed and a selection of records or parts is made or several files given"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["bodies are within the tool's fixed default limits", "order of header lines and the form of the separator line are free"]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<C27Case> {
        let files = prop_oneof![
            8 => (any::<u8>(), recs(0, 6)).prop_map(|f| vec![f]),
            1 => (any::<u8>(), large()).prop_map(|f| vec![f]),
            3 => prop::collection::vec((any::<u8>(), recs(0, 3)), 2..4),
        ];
        let usual = (files, prop_oneof![1 => Just(0u8), 2 => 0u8..64], sel(), any::<u8>())
            .prop_map(|(files, parts, sel, order)| C27Case { files, parts, sel, order });
        let many = (any::<u8>(), long(), prop_oneof![1 => Just(0u8), 2 => 0u8..64], any::<u8>())
            .prop_map(|(k, (r, sel), parts, order)| C27Case { files: vec![(k, r)], parts, sel, order });
        prop_oneof![150 => usual, 1 => many].boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(20_000, 200_000) }
    fn run(&self, c: &C27Case, ctx: &mut Ctx) -> R {
        let t = Tool::new(ctx)?;
        let mut names = vec![];
        let mut built = vec![];
        for (i, (k, rs)) in c.files.iter().enumerate() {
            let b = build(rs)?;
            let n = file_name(i, *k);
            t.put(&n, &b.bytes)?;
            names.push(file_arg(&n));
            built.push(b);
        }
        let single = built.len() == 1;
        let mut opts = part_args(c.parts, c.parts & 32 != 0);
        if single { opts.extend(c.sel.args(&built[0].offs)); }
        let mut args = vec![];
        if c.order & 24 == 8 { args.push(os("-d")); }
        args.push(os("cat"));
        let files: Vec<OsString> = names.iter().map(|n| os(n)).collect();
        match c.order % 4 {
            0 => { args.extend(files); args.extend(opts); }
            1 => { args.extend(opts); args.push(os("--")); args.extend(files); }
            _ => { args.extend(opts); args.extend(files); }
        }
        let before = t.snapshot()?;
        let r = t.ok(&args)?;
        let parts = all_if_none(c.parts);
        let mut w = Walk { out: &r.out, at: 0 };
        let mut n = 0;
        for (name, b) in names.iter().zip(&built) {
            let range = if single { c.sel.range(b.models.len()) } else { 0..b.models.len() };
            for i in range {
                w.record(name, b.offs[i], &b.models[i], parts)?;
                n += 1;
            }
        }
        w.end()?;
        ensure!(t.snapshot()? == before, "files-changed", "files changed by printing");
        let selecting = single && (c.sel.from != From::All || c.sel.count.is_some());
        ctx.class_if(selecting && n > 0, "selected");
        ctx.class_if(single && matches!(c.sel.from, From::Index(i) if i > 0) && c.sel.count.is_some() && n > 0, "index-and-count");
        ctx.class_if(single && matches!(c.sel.from, From::Offset(..)) && c.sel.count.is_some() && n > 0, "offset-and-count");
        ctx.class_if(!single, "several-files");
        ctx.class_if(parts != 31, "parts");
        ctx.add("records", n);
        ctx.nontrivial_if(n > 0 && (selecting || parts != 31 || !single));
        Ok(())
    }
}

// ------------------------------------------------------------- C28

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C28Case {
    inputs: Vec<(u8, Recs)>, out: Option<Recs>, comp: u8, sel: Sel, out_alias: u8,
    /// Alias of the output among the inputs, and where
    own: Option<(u8, u8)>,
    order: u8,
}

pub struct C28;

/// Another name for out.barc.
fn alias(t: &Tool, k: u8, exists: bool) -> R<String> {
    let o = t.work.join("out.barc");
    Ok(match k % 9 {
        1 => "./out.barc".into(),
        2 => "d/../out.barc".into(),
        3 => o.to_str().unwrap().into(),
        4 => {
            let l = t.work.join("ld");
            if !l.exists() { std::os::unix::fs::symlink(".", &l).h("symlink")?; }
            "ld/out.barc".into()
        }
        5 => ".//out.barc".into(),
        6 if exists => {
            let l = t.work.join("l.barc");
            if fs::symlink_metadata(&l).is_err() { std::os::unix::fs::symlink("out.barc", &l).h("symlink")?; }
            "l.barc".into()
        }
        7 if exists => {
            let l = t.work.join("d/hard.barc");
            if !l.exists() { fs::hard_link(&o, &l).h("link")?; }
            "d/hard.barc".into()
        }
        _ => "out.barc".into(),
    })
}

/// Without the Brotli option in builds which do not have it.
fn comp_of(comp: u8) -> u8 { if cfg!(feature = "full") { comp % 3 } else { comp % 3 % 2 } }

pub fn comp_flag(rec: &RecSpec, comp: u8, dir: &Path) -> R<u8> {
    let r = rec.build(dir)?;
    Ok(match comp_of(comp) {
        1 if GzipCompressStrategy::default().set_check_identity(true).is_compressible(&r) => b'Z',
        2 if BrotliCompressStrategy::default().set_check_identity(true).is_compressible(&r) => b'B',
        _ => b'P',
    })
}

pub fn comp_args(comp: u8, spell: u8) -> Vec<OsString> {
    match (comp_of(comp), spell & 1) { (1, 0) => vec![os("-z")], (1, _) => vec![os("--gzip")], (2, 0) => vec![os("-b")], (2, _) => vec![os("--brotli")], _ => vec![] }
}

/// Records appended to a previous archive are as given.
fn check_appended(before: &[u8], after: &[u8], want: &[(&RecModel, Option<u8>)]) -> R {
    ensure!(after.starts_with(before), "earlier-bytes", "earlier bytes of the output changed");
    let got = match parse_archive(&after[before.len()..]) { Ok(g) => g, Err(e) => return violation("output-format", e) };
    ensure!(got.len() == want.len(), "record-count", "{} records appended, expected {}", got.len(), want.len());
    for (i, (g, (m, f))) in got.iter().zip(want).enumerate() {
        ensure!(&g.rec == *m, "record-content", "record {} differs", i);
        if let Some(f) = f { ensure!(g.head.comp == *f, "compression", "record {} has compression {}, expected {}", i, g.head.comp as char, *f as char); }
    }
    Ok(())
}

impl Prop for C28 {
    type Case = C28Case;
    fn id(&self) -> &'static str { "C28" }
    fn rule(&self) -> &'static str {
        "1-3 archives of 0-5 records copied with any compression and selection to new or existing archives under various names, or with the output among the inputs under various names; non-trivial: a record was copied, or a copy onto itself tried with records present"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["bodies are within the tool's fixed default limits", "which records the strategies find worth compressing is taken from the library, see C13"]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<C28Case> {
        let inputs = prop_oneof![
            8 => (any::<u8>(), recs(0, 6)).prop_map(|f| vec![f]),
            1 => (any::<u8>(), large()).prop_map(|f| vec![f]),
            3 => prop::collection::vec((any::<u8>(), recs(0, 3)), 2..4),
        ];
        let usual = (inputs, prop::option::weighted(0.6, recs(0, 3)), 0u8..3, sel(), any::<u8>(), prop::option::weighted(0.2, (any::<u8>(), any::<u8>())), any::<u8>())
            .prop_map(|(inputs, out, comp, sel, out_alias, own, order)| C28Case { inputs, out, comp, sel, out_alias, own, order });
        let many = (any::<u8>(), long(), 0u8..3, any::<u8>())
            .prop_map(|(k, (r, sel), comp, order)| C28Case { inputs: vec![(k, r)], out: None, comp, sel, out_alias: 0, own: None, order });
        prop_oneof![150 => usual, 1 => many].boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(20_000, 200_000) }
    fn run(&self, c: &C28Case, ctx: &mut Ctx) -> R {
        let t = Tool::new(ctx)?;
        let own = c.own;
        let out = match (&c.out, own) { (None, Some(_)) => Some(vec![]), (o, _) => o.clone() };
        let prior = match &out { Some(o) => build(o)?.bytes, None => vec![] };
        if out.is_some() { t.put("out.barc", &prior)?; }
        let mut names = vec![];
        let mut built = vec![];
        for (i, (k, rs)) in c.inputs.iter().enumerate() {
            let b = build(rs)?;
            let n = file_name(i, *k);
            t.put(&n, &b.bytes)?;
            names.push(file_arg(&n));
            built.push(b);
        }
        let oname = alias(&t, c.out_alias, out.is_some())?;
        if let Some((k, at)) = own {
            let n = alias(&t, k, true)?;
            // Alone, or among others
            if at & 1 == 0 { names = vec![n]; } else { let i = (at / 2) as usize % (names.len() + 1); names.insert(i, n); }
        }
        let single = names.len() == 1;
        let mut opts = comp_args(c.comp, c.order);
        if single && own.is_none() { opts.extend(c.sel.args(&built[0].offs)); }
        let mut args = vec![os("cp")];
        let mut files: Vec<OsString> = names.iter().map(|n| os(n)).collect();
        files.push(os(&oname));
        match c.order / 2 % 4 {
            0 => { args.extend(files); args.extend(opts); }
            1 => { args.extend(opts); args.push(os("--")); args.extend(files); }
            _ => { args.extend(opts); args.extend(files); }
        }
        let mut before = t.snapshot()?;
        if own.is_some() {
            let r = t.run(&args, Sink::File, FSIZE)?;
            let after = t.snapshot()?;
            ensure!(after == before, "self-copy-modified", "{:?} changed files", args);
            failed(&r, &args)?;
            ctx.class("onto-itself");
            ctx.nontrivial_if(!prior.is_empty());
            return Ok(());
        }
        t.ok(&args)?;
        let mut after = t.snapshot()?;
        let mut want = vec![];
        for (b, (_, rs)) in built.iter().zip(&c.inputs) {
            let range = if single { c.sel.range(b.models.len()) } else { 0..b.models.len() };
            for i in range { want.push((&b.models[i], Some(comp_flag(&rs[i].0, c.comp, &t.io)?))); }
        }
        // The output and, with a link to it, its other name
        let now = after.get(&t.work.join("out.barc")).cloned().flatten().unwrap_or_default();
        ensure!(out.is_some() || want.is_empty() || after.contains_key(&t.work.join("out.barc")), "no-output", "no output file");
        check_appended(&prior, &now, &want)?;
        for n in ["out.barc", "d/hard.barc"] { let p = t.work.join(n); before.remove(&p); after.remove(&p); }
        ensure!(before == after, "files-changed", "files other than the output changed");
        let n = want.len();
        ctx.class_if(n > 0 && !prior.is_empty(), "appended");
        ctx.class_if(n > 0 && single && matches!(c.sel.from, From::Index(i) if i > 0) && c.sel.count.is_some(), "index-and-count");
        for (_, f) in &want { ctx.class(format!("stored-{}", f.unwrap() as char)); }
        ctx.nontrivial_if(n > 0);
        Ok(())
    }
}

// ------------------------------------------------------------- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hurt { Truncate(u32), Set(u32, u8), Field(u8, u8, u16), Append(Vec<u8>) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Trouble {
    /// Damaged archive
    Archive(Hurt, bool),
    /// Bad input path, and its position among good ones
    Input(u8, u8),
    /// Bad output path of a copy
    Output(u8),
    /// Bad option
    Option(u8, u8),
    /// Output failing after a number of bytes, per mille of what is needed
    Limit(u16, i8),
    Closed,
    /// Start at any byte
    At(u32, bool),
    /// Header block as large as can be
    Block(u8, bool),
    None(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C29Case { recs: Recs, more: Recs, out: Option<Recs>, cp: bool, parts: u8, comp: u8, sel: Sel, trouble: Trouble }

pub struct C29;

/// Records the library reads up to a problem, with their offsets.
fn readable(p: &Path, from: u64) -> R<(Vec<(u64, RecModel)>, bool)> {
    let tune = body_image::Tunables::new();
    let mut v = vec![];
    let mut r = BarcFile::new(p).reader().h("reader")?;
    r.seek(from).h("seek")?;
    loop {
        let at = r.offset();
        match r.read(&tune) {
            Ok(Some(x)) => v.push((at, model_of(&x)?)),
            Ok(None) => return Ok((v, true)),
            Err(_) => return Ok((v, false)),
        }
    }
}

const BAD_NUM: [&str; 9] = ["x", "", "1.5", "0x", "0xg", "99999999999999999999", "1e3", "-1", "\u{661}"];

fn bad_option(k: u8, v: u8, cp: bool) -> (Vec<OsString>, bool) {
    let num = BAD_NUM[v as usize % BAD_NUM.len()];
    let sp = |l: &str| vec![os(&format!("--{}={}", l, num))];
    let s = |a: &[&str]| a.iter().map(|x| os(x)).collect::<Vec<_>>();
    // Second: whether to leave out all file arguments
    match k % 12 {
        0 => (sp("index"), false),
        1 => (sp("offset"), false),
        2 => (sp("count"), false),
        3 => (s(&["--index", "0", "--offset", "0"]), false),
        4 => (if cp { s(&["-z", "-b"]) } else { s(&["--nope"]) }, false),
        5 => (s(&["--nope=1"]), false),
        6 => (vec![], true),
        7 => (vec![os("--count"), OsString::from_vec(vec![b'1', 0xff])], false),
        8 => (s(&["--count"]), true),
        9 => (s(&["--index", "0", "--index"]), true),
        // An output without input
        10 => (if cp { s(&["out.barc"]) } else { s(&["-H"]) }, true),
        _ => (s(&["--count", "0x1"]), false),
    }
}

fn bad_path(t: &Tool, k: u8) -> R<OsString> {
    Ok(match k % 9 {
        0 => os("missing.barc"),
        1 => os(""),
        2 => os("d"),
        3 => os("0a.barc/x"),
        4 => { std::os::unix::fs::symlink("nowhere/at/all", t.work.join("dangling")).h("symlink")?; os("dangling") }
        5 => { std::os::unix::fs::symlink("loop", t.work.join("loop")).h("symlink")?; os("loop") }
        6 => OsString::from("n".repeat(300)),
        7 => OsString::from_vec(b"nowhere/\xff\xfe.barc".to_vec()),
        _ => os("nodir/x.barc"),
    })
}

impl Prop for C29 {
    type Case = C29Case;
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn id(&self) -> &'static str { "C29" }
    fn rule(&self) -> &'static str {
        "print and copy commands with damaged archives, bad input and output paths, bad options, output limited at a generated number of bytes or closed, largest header blocks, or nothing wrong; non-trivial: something is wrong and met"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["which records of a damaged archive can be read is taken from the library, see C12",
             "with a count satisfied before the problem, either exit status is accepted",
             "an output cut off by the system ends anywhere"]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<C29Case> {
        let hurt = prop_oneof![
            3 => any::<u32>().prop_map(Hurt::Truncate),
            3 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Hurt::Set(a, b)),
            3 => (any::<u8>(), any::<u8>(), any::<u16>()).prop_map(|(a, b, c)| Hurt::Field(a, b, c)),
            1 => prop::collection::vec(any::<u8>(), 1..60).prop_map(Hurt::Append),
        ];
        let trouble = prop_oneof![
            6 => (hurt, prop::bool::weighted(0.3)).prop_map(|(h, s)| Trouble::Archive(h, s)),
            3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Trouble::Input(a, b)),
            2 => any::<u8>().prop_map(Trouble::Output),
            3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Trouble::Option(a, b)),
            5 => (0u16..1001, prop_oneof![Just(0i8), -3i8..4]).prop_map(|(a, b)| Trouble::Limit(a, b)),
            1 => (any::<u32>(), any::<bool>()).prop_map(|(a, h)| Trouble::At(a, h)),
            1 => Just(Trouble::Closed),
            1 => (0u8..8, any::<bool>()).prop_map(|(a, b)| Trouble::Block(a, b)),
            1 => any::<u8>().prop_map(Trouble::None),
        ];
        (recs(1, 4), recs(0, 3), prop::option::weighted(0.5, recs(0, 3)), any::<bool>(), prop_oneof![1 => Just(0u8), 1 => 0u8..32],
         0u8..3, sel(), trouble)
            .prop_map(|(recs, more, out, cp, parts, comp, sel, trouble)| C29Case { recs, more, out, cp, parts, comp, sel, trouble }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(20_000, 200_000) }
    fn run(&self, c: &C29Case, ctx: &mut Ctx) -> R {
        let t = Tool::new(ctx)?;
        let parts = all_if_none(c.parts);
        let mut cp = c.cp;
        if matches!(c.trouble, Trouble::Output(_)) { cp = true; }
        if matches!(c.trouble, Trouble::Closed) { cp = false; }
        let b = build(&c.recs)?;
        let more = build(&c.more)?;
        let prior = match &c.out { Some(o) => build(o)?.bytes, None => vec![] };
        let mut bytes = b.bytes.clone();
        if let Trouble::Archive(h, _) = &c.trouble {
            let n = bytes.len();
            match h {
                Hurt::Truncate(a) => bytes.truncate(*a as usize % n),
                Hurt::Set(a, v) => bytes[*a as usize % n] = *v,
                Hurt::Field(r, f, v) => {
                    let at = b.offs[*r as usize % c.recs.len()] as usize;
                    let (s, e) = [(6, 18), (22, 27), (28, 33), (34, 44), (45, 50)][*f as usize % 5];
                    bytes[at + s..at + e].copy_from_slice(format!("{:0w$x}", v, w = e - s).as_bytes());
                }
                Hurt::Append(v) => bytes.extend_from_slice(v),
            }
        }
        if let Trouble::Block(k, plain) = &c.trouble {
            // The largest block the head can state, or a little smaller
            let mut r = c.recs[0].0.clone();
            let room = 0xfffff - (*k as usize) - if *plain { 2 } else { 0 };
            r.meta = vec![("m".into(), vec![b'v'; room - 5])];
            bytes = encode(&r, if *plain { Enc::Plain } else { Enc::Gzip(1) }, false)?;
        }
        t.put("0a.barc", &bytes)?;
        t.put("1b.barc", &more.bytes)?;
        if c.out.is_some() { t.put("out.barc", &prior)?; }
        let mut cmd = vec![os(if cp { "cp" } else { "cat" })];
        cmd.extend(if cp { comp_args(c.comp, 0) } else { part_args(c.parts, false) });
        let with = |files: &[&str], extra: &[OsString]| -> Vec<OsString> {
            let mut v = cmd.clone();
            v.extend_from_slice(extra);
            v.extend(files.iter().map(|f| os(f)));
            if cp { v.push(os("out.barc")); }
            v
        };
        let outp = t.work.join("out.barc");
        let now = || fs::read(&outp).unwrap_or_default();
        match &c.trouble {
            Trouble::Archive(_, select) => {
                let (have, clean) = readable(&t.work.join("0a.barc"), 0)?;
                // By index and count, which need no offsets
                let sel = Sel { from: match c.sel.from { From::Offset(a, _) => From::Index(a as u64), f => f }, ..c.sel.clone() };
                let (extra, range, full) = if *select {
                    let r = sel.range(have.len());
                    let full = sel.count.map(|n| r.end as u64 - r.start as u64 == n && (r.start < have.len() || n == 0)).unwrap_or(false);
                    (sel.args(&[0]), r, full)
                } else { (vec![], 0..have.len(), false) };
                let args = with(&["0a.barc"], &extra);
                let r = t.run(&args, Sink::File, FSIZE)?;
                if clean { ensure!(r.code == Some(0), "exit-status", "{:?} exited with {:?}: {}", args, r.code, r.err); }
                else if !(full && r.code == Some(0)) { failed(&r, &args)?; }
                if cp {
                    let want: Vec<_> = have[range].iter().map(|x| (&x.1, None)).collect();
                    check_appended(&prior, &now(), &want)?;
                } else {
                    let mut w = Walk { out: &r.out, at: 0 };
                    for (o, m) in &have[range] { w.record("0a.barc", *o, m, parts)?; }
                    w.end()?;
                }
                ctx.class_if(!clean, "damage-met");
                ctx.class_if(!clean && !have.is_empty(), "damage-after-records");
                ctx.nontrivial_if(!clean);
            }
            Trouble::At(a, hex) => {
                let n = *a as u64 % (bytes.len() as u64 + 30);
                let (have, clean) = readable(&t.work.join("0a.barc"), n)?;
                let args = with(&["0a.barc"], &[os("--offset"), if *hex { os(&format!("0x{:x}", n)) } else { os(&n.to_string()) }]);
                let r = t.run(&args, Sink::File, FSIZE)?;
                if clean { ensure!(r.code == Some(0), "exit-status", "{:?} exited with {:?}: {}", args, r.code, r.err); }
                else { failed(&r, &args)?; }
                if cp {
                    check_appended(&prior, &now(), &have.iter().map(|x| (&x.1, None)).collect::<Vec<_>>())?;
                } else {
                    let mut w = Walk { out: &r.out, at: 0 };
                    for (o, m) in &have { w.record("0a.barc", *o, m, parts)?; }
                    w.end()?;
                }
                ctx.class_if(!clean, "bad-offset");
                ctx.nontrivial_if(!clean);
            }
            Trouble::Input(k, at) => {
                let bad = bad_path(&t, *k)?;
                let mut args = cmd.clone();
                let mut files = vec![os("0a.barc"), os("1b.barc")];
                let at = *at as usize % 3;
                files.insert(at, bad);
                args.extend(files);
                if cp { args.push(os("out.barc")); }
                let r = t.run(&args, Sink::File, FSIZE)?;
                failed(&r, &args)?;
                // Earlier files may have been processed, or all refused
                let mut ms: Vec<(&str, u64, &RecModel)> = vec![];
                if at > 0 { ms.extend(b.models.iter().zip(&b.offs).map(|(m, o)| ("0a.barc", *o, m))); }
                if at > 1 { ms.extend(more.models.iter().zip(&more.offs).map(|(m, o)| ("1b.barc", *o, m))); }
                if cp {
                    if now() != prior { check_appended(&prior, &now(), &ms.iter().map(|x| (x.2, None)).collect::<Vec<_>>())?; }
                } else if !r.out.is_empty() {
                    let mut w = Walk { out: &r.out, at: 0 };
                    for (f, o, m) in ms { w.record(f, o, m, parts)?; }
                    w.end()?;
                }
                ctx.class("bad-input");
                ctx.nontrivial();
            }
            Trouble::Output(k) => {
                let k = [2, 3, 5, 6, 8][*k as usize % 5];
                let bad = bad_path(&t, k)?;
                let before = t.snapshot()?;
                let mut args = cmd.clone();
                args.push(os("1b.barc"));
                args.push(os("0a.barc"));
                args.push(bad);
                let r = t.run(&args, Sink::File, FSIZE)?;
                failed(&r, &args)?;
                ensure!(t.snapshot()? == before, "files-changed", "{:?} changed files", args);
                ctx.class("bad-output");
                ctx.nontrivial();
            }
            Trouble::Option(k, v) => {
                let before = t.snapshot()?;
                let (extra, bare) = bad_option(*k, *v, cp);
                // Selections need single inputs
                let multi = *v >= 200 && !bare && *k % 12 < 3;
                let args = if bare { let mut a = cmd.clone(); a.extend(extra); a }
                    else if multi { with(&["0a.barc", "1b.barc"], &[os(["--index=0", "--offset=0", "--count=1"][*k as usize % 3])]) }
                    else { with(&["0a.barc"], &extra) };
                let args = if *k == 255 { vec![os(if cp { "copy" } else { "" })] } else if *k == 254 { vec![] } else { args };
                let r = t.run(&args, Sink::File, FSIZE)?;
                failed(&r, &args)?;
                ensure!(r.out.is_empty(), "output-extra", "{:?} printed", args);
                ensure!(t.snapshot()? == before, "files-changed", "{:?} changed files", args);
                ctx.class("bad-option");
                ctx.nontrivial();
            }
            Trouble::Limit(pm, d) => {
                let args = with(&["0a.barc", "1b.barc"], &[]);
                let full = t.ok(&args)?;
                let all: Vec<_> = b.models.iter().chain(&more.models).map(|m| (m, None)).collect();
                if cp {
                    let whole = now();
                    check_appended(&prior, &whole, &all)?;
                    if c.out.is_some() { t.put("out.barc", &prior)?; } else { fs::remove_file(&outp).h("remove")?; }
                    let added = (whole.len() - prior.len()) as i64;
                    let lim = (prior.len() as i64 + added * *pm as i64 / 1000 + *d as i64).max(0) as u64;
                    let r = t.run(&args, Sink::File, lim)?;
                    if lim >= whole.len() as u64 {
                        ensure!(r.code == Some(0), "exit-status", "{:?} exited with {:?}: {}", args, r.code, r.err);
                        ensure!(now() == whole, "output-differs", "output differs");
                    } else {
                        failed(&r, &args)?;
                        let got = now();
                        let n = match got.get(prior.len()..).map(parse_archive) {
                            Some(Ok(v)) => v.len(),
                            Some(Err(e)) => return violation("partial-record", format!("output of {} bytes at limit {}: {}", got.len(), lim, e)),
                            None => return violation("earlier-bytes", "output got shorter"),
                        };
                        ensure!(n < all.len(), "limit", "all records copied beyond the limit");
                        check_appended(&prior, &got, &all[..n])?;
                        ensure!(whole.starts_with(&got), "output-differs", "records copied before the failure differ");
                        ctx.class("copy-limited");
                        ctx.nontrivial();
                    }
                } else {
                    let lim = (full.out.len() as i64 * *pm as i64 / 1000 + *d as i64).max(0) as u64;
                    let r = t.run(&args, Sink::File, lim)?;
                    ensure!(full.out.starts_with(&r.out), "output-differs", "output before the failure differs");
                    if lim >= full.out.len() as u64 {
                        ensure!(r.code == Some(0) && r.out == full.out, "exit-status", "{:?} exited with {:?}: {}", args, r.code, r.err);
                    } else {
                        failed(&r, &args)?;
                        ctx.class("print-limited");
                        ctx.nontrivial();
                    }
                }
            }
            Trouble::Closed => {
                let args = with(&["0a.barc", "1b.barc"], &[]);
                let r = t.run(&args, Sink::Closed, FSIZE)?;
                failed(&r, &args)?;
                ctx.class("closed");
                ctx.nontrivial();
            }
            Trouble::Block(..) => {
                let (have, clean) = readable(&t.work.join("0a.barc"), 0)?;
                let args = with(&["0a.barc"], &[]);
                let r = t.run(&args, Sink::File, FSIZE)?;
                if clean && !cp {
                    ensure!(r.code == Some(0), "exit-status", "{:?} exited with {:?}: {}", args, r.code, r.err);
                    let mut w = Walk { out: &r.out, at: 0 };
                    for (o, m) in &have { w.record("0a.barc", *o, m, parts)?; }
                    w.end()?;
                } else if r.code == Some(0) {
                    check_appended(&prior, &now(), &have.iter().map(|x| (&x.1, None)).collect::<Vec<_>>())?;
                } else {
                    // Not all blocks can be stored without compression
                    failed(&r, &args)?;
                    check_appended(&prior, &now(), &[])?;
                    ctx.class("block-too-large");
                }
                ctx.class("large-block");
                ctx.nontrivial();
            }
            Trouble::None(k) => {
                let args: Vec<OsString> = match k % 6 {
                    0 => vec![os("--help")], 1 => vec![os("--version")], 2 => vec![os("cat"), os("--help")], 3 => vec![os("cp"), os("-h")],
                    _ => with(&["0a.barc", "1b.barc"], &[]),
                };
                let r = t.ok(&args)?;
                ensure!(k % 6 > 3 || !r.out.is_empty(), "no-output", "{:?} printed nothing", args);
                ctx.class("nothing-wrong");
            }
        }
        let _ = outp.as_os_str().as_bytes();
        Ok(())
    }
}
