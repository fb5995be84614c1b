//! Shared case vocabulary: blobs, lengths, bodies, tunables, headers, records.

use std::fs::{File, OpenOptions};
use std::io::Write;
use std::path::Path;
use std::sync::Arc;

use body_image::{BodyImage, BodySink, Tunables, Tuner};
use bytes::Bytes;
use olio::fs::rc::ReadSlice;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{self, *};
use engine::Rng;

/// Without memory maps, images stay as they are.
#[cfg(not(feature = "full"))]
pub trait NoMap {
    fn mem_map(&mut self) -> Result<&mut Self, body_image::BodyError>;
    fn is_mem_map(&self) -> bool { false }
}

#[cfg(not(feature = "full"))]
impl NoMap for BodyImage {
    fn mem_map(&mut self) -> Result<&mut Self, body_image::BodyError> { Ok(self) }
}

/// Deterministic content: position dependent unless `Same`.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fill { Random, Text, Same(u8), CrLf, Counter, FakeHead, Mixed }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Blob { pub len: u32, pub fill: Fill, pub seed: u16 }

impl Blob {
    pub fn bytes(&self) -> Vec<u8> { fill_bytes(self.len as usize, &self.fill, self.seed as u64) }
}

pub fn fill_bytes(n: usize, fill: &Fill, seed: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 64);
    match fill {
        Fill::Random => {
            let mut r = Rng::new(seed);
            while v.len() < n { v.extend_from_slice(&r.next().to_le_bytes()); }
        }
        Fill::Text => {
            const W: [&str; 12] = ["body ", "image ", "archive ", "header: ", "lorem ", "ipsum\r\n",
                "<p>", "</p>\n", "HTTP/1.1 ", "gzip ", "0123456789 ", "~"];
            let mut r = Rng::new(seed);
            while v.len() < n { v.extend_from_slice(W[r.below(12) as usize].as_bytes()); }
        }
        Fill::Same(b) => v.resize(n, *b),
        Fill::CrLf => {
            let mut r = Rng::new(seed);
            while v.len() < n {
                v.extend_from_slice(match r.below(5) { 0 => b"\r", 1 => b"\n", 2 => b"\r\n", 3 => b"\r\n\r\n", _ => b"x" });
            }
        }
        Fill::Counter => {
            let mut i = seed as u32;
            while v.len() < n { v.extend_from_slice(&i.to_be_bytes()); i = i.wrapping_add(1); }
        }
        // Text around and between runs of noise
        Fill::Mixed => {
            let mut r = Rng::new(seed);
            while v.len() < n {
                let k = r.below(200) as usize + 10;
                v.extend(fill_bytes(k, &Fill::Text, r.next()));
                let k = r.below((n as u64).max(2)) as usize;
                v.extend(fill_bytes(k, &Fill::Random, r.next()));
            }
            let e = b"content-type: text/plain; charset=utf-8\r\n";
            if n > 2 * e.len() { v.truncate(n - e.len()); v.extend_from_slice(e); }
        }
        Fill::FakeHead => {
            let mut i = seed;
            while v.len() < n {
                v.extend_from_slice(format!(
                    "BARC2 {:012x} DP {:05x} {:05x} {:010x} {:05x}\r\n\r\n", i & 0xff, 0, 0, 0, 0).as_bytes());
                i += 1;
            }
        }
    }
    v.truncate(n);
    v
}

pub fn fill() -> impl Strategy<Value = Fill> {
    prop_oneof![
        3 => Just(Fill::Random),
        3 => Just(Fill::Text),
        1 => any::<u8>().prop_map(Fill::Same),
        2 => Just(Fill::Counter),
        1 => Just(Fill::CrLf),
        1 => Just(Fill::FakeHead),
        2 => Just(Fill::Mixed),
    ]
}

/// A length, possibly relative to a configured quantity.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Len {
    Abs(u32),
    Ram(i16),
    Max(i16),
    BufRam(u8, i16),
    BufFs(u8, i16),
}

impl Len {
    pub fn of(&self, t: &TuneSpec) -> u64 {
        let v = match *self {
            Len::Abs(n) => n as i64,
            Len::Ram(d) => t.max_ram.min(1 << 40) as i64 + d as i64,
            Len::Max(d) => t.max_body.min(1 << 40) as i64 + d as i64,
            Len::BufRam(k, d) => t.buf_ram as i64 * k as i64 + d as i64,
            Len::BufFs(k, d) => t.buf_fs as i64 * k as i64 + d as i64,
        };
        v.clamp(0, 4 << 20) as u64
    }
}

pub fn len_abs(max: u32) -> BoxedStrategy<u32> {
    prop_oneof![
        2 => 0u32..4,
        3 => 0u32..64.min(max + 1),
        3 => 0u32..2000.min(max + 1),
        2 => 0u32..(max + 1),
    ].boxed()
}

pub fn delta() -> impl Strategy<Value = i16> {
    prop_oneof![4 => -2i16..3, 1 => -70i16..71, 1 => -1100i16..1101]
}

pub fn len(max_abs: u32) -> BoxedStrategy<Len> {
    prop_oneof![
        4 => len_abs(max_abs).prop_map(Len::Abs),
        2 => delta().prop_map(Len::Ram),
        1 => delta().prop_map(Len::Max),
        2 => (0u8..5, delta()).prop_map(|(k, d)| Len::BufRam(k, d)),
        2 => (0u8..5, delta()).prop_map(|(k, d)| Len::BufFs(k, d)),
    ].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TuneSpec { pub max_ram: u64, pub max_body: u64, pub buf_ram: usize, pub buf_fs: usize }

impl TuneSpec {
    pub fn tuner(&self, dir: &Path) -> Tuner {
        let mut t = Tuner::new();
        t.set_max_body(self.max_body)
            .set_max_body_ram(self.max_ram)
            .set_buffer_size_ram(self.buf_ram)
            .set_buffer_size_fs(self.buf_fs)
            .set_temp_dir(dir);
        t
    }
    pub fn tunables(&self, dir: &Path) -> Tunables { self.tuner(dir).finish() }
    pub fn roomy() -> TuneSpec {
        TuneSpec { max_ram: 192 * 1024, max_body: 1 << 30, buf_ram: 8192, buf_fs: 65536 }
    }
}

fn buf_size() -> impl Strategy<Value = usize> {
    prop_oneof![
        2 => 1usize..70,
        3 => prop::sample::select(vec![1usize, 7, 64, 128, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 4096]),
        2 => 1usize..9000,
        1 => Just(8192usize),
        1 => Just(65536usize),
    ]
}

/// Tunables with limits anywhere (max_body may be small).
pub fn tune() -> impl Strategy<Value = TuneSpec> {
    (prop_oneof![12 => Just(0u64), 12 => 1u64..5, 36 => 0u64..3000, 36 => 0u64..20000, 12 => Just(192 * 1024), 1 => 900_000u64..1_200_000],
     prop_oneof![2 => 0u64..6, 3 => 0u64..9000, 1 => Just(1u64 << 30), 1 => 0u64..60000],
     buf_size(), buf_size())
        .prop_map(|(max_ram, extra, buf_ram, buf_fs)| TuneSpec {
            max_ram, max_body: max_ram + extra, buf_ram, buf_fs })
}

/// Tunables whose max_body does not matter.
pub fn tune_unlimited() -> impl Strategy<Value = TuneSpec> {
    tune().prop_map(|mut t| { t.max_body = 1 << 30; t })
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum State { Ram1, RamN, Fs, Back, FsMap, File, Slice, SliceMap }

impl State {
    pub fn name(self) -> &'static str {
        match self {
            State::Ram1 => "ram1", State::RamN => "ramN", State::Fs => "fs", State::Back => "back",
            State::FsMap => "fsmap", State::File => "file", State::Slice => "slice", State::SliceMap => "slicemap",
        }
    }
    pub fn is_ram(self) -> bool { matches!(self, State::Ram1 | State::RamN) }
    pub fn is_map(self) -> bool { cfg!(feature = "full") && matches!(self, State::FsMap | State::SliceMap) }
}

pub fn state() -> impl Strategy<Value = State> {
    prop::sample::select(vec![State::Ram1, State::RamN, State::Fs, State::Back, State::FsMap,
                              State::File, State::Slice, State::SliceMap])
}

/// Split `data` in pieces by repeating pattern of sizes; 0 sizes give empty pieces.
pub fn pieces<'a>(data: &'a [u8], cuts: &[u16]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut pos = 0;
    let mut i = 0;
    let usable = cuts.iter().any(|c| *c > 0);
    if !usable { return vec![data]; }
    while pos < data.len() {
        let n = (cuts[i % cuts.len()] as usize).min(data.len() - pos);
        v.push(&data[pos..pos + n]);
        pos += n;
        i += 1;
        if i >= 64 { v.push(&data[pos..]); break; }
    }
    v
}

pub fn cuts() -> impl Strategy<Value = Vec<u16>> {
    prop::collection::vec(prop_oneof![1 => Just(0u16), 3 => 1u16..40, 3 => 1u16..3000, 1 => 1u16..20000], 0..5)
}

/// Build a body image holding `data` in the requested state.
pub fn build_body(data: &[u8], st: State, cuts: &[u16], dir: &Path, pad: u16) -> R<BodyImage> {
    let sg = "build-body";
    let img = match st {
        State::Ram1 => BodyImage::from_slice(Bytes::copy_from_slice(data)),
        State::RamN => {
            let mut s = BodySink::with_ram(data.len() as u64);
            for p in pieces(data, cuts) { s.push(Bytes::copy_from_slice(p)).v(sg, "push")?; }
            s.prepare().v(sg, "prepare")?
        }
        State::Fs | State::FsMap => {
            let mut s = BodySink::with_fs(dir).v(sg, "with_fs")?;
            for p in pieces(data, cuts) { s.write_all(p).v(sg, "write_all")?; }
            let mut b = s.prepare().v(sg, "prepare")?;
            if st == State::FsMap { b.mem_map().v(sg, "mem_map")?; }
            b
        }
        State::Back => {
            let mut s = BodySink::with_ram_buffers(2);
            let ps = pieces(data, cuts);
            let half = ps.len() / 2;
            for p in &ps[..half] { s.push(Bytes::copy_from_slice(p)).v(sg, "push")?; }
            s.write_back(dir).v(sg, "write_back")?;
            for p in &ps[half..] { s.push(Bytes::copy_from_slice(p)).v(sg, "push")?; }
            s.prepare().v(sg, "prepare")?
        }
        State::File => {
            let f = tmp_file(dir, data, 0)?;
            unsafe { BodyImage::from_file(f, data.len() as u64) }
        }
        State::Slice | State::SliceMap => {
            let f = tmp_file(dir, data, pad as usize)?;
            let rs = ReadSlice::new(Arc::new(f), pad as u64, pad as u64 + data.len() as u64);
            let mut b = unsafe { BodyImage::from_read_slice(rs) };
            if st == State::SliceMap { b.mem_map().v(sg, "mem_map")?; }
            b
        }
    };
    Ok(img)
}

/// Anonymous file with `pad` bytes of junk before and after `data`.
pub fn tmp_file(dir: &Path, data: &[u8], pad: usize) -> R<File> {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    crate::interpose::muted(|| {
        let p = dir.join(format!("h-{}", N.fetch_add(1, Ordering::Relaxed)));
        let mut f = OpenOptions::new().read(true).write(true).create_new(true).open(&p).h("tmp_file")?;
        std::fs::remove_file(&p).h("tmp_file unlink")?;
        let junk = vec![b'#'; pad];
        f.write_all(&junk).h("tmp_file write")?;
        f.write_all(data).h("tmp_file write")?;
        f.write_all(&junk).h("tmp_file write")?;
        Ok(f)
    })
}

/// Read a body completely through its reader.
pub fn read_body(b: &BodyImage) -> R<Vec<u8>> {
    use std::io::Read;
    let mut v = Vec::new();
    b.reader().take(b.len() + (1 << 16)).read_to_end(&mut v).v("body-read", "reading body")?;
    Ok(v)
}

pub fn diff(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("expected {} bytes, got {} bytes, first difference at {}", a.len(), b.len(), at)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BodySpec { pub blob: Blob, pub state: State, pub cuts: Vec<u16>, pub pad: u16 }

impl BodySpec {
    pub fn build(&self, dir: &Path) -> R<BodyImage> {
        build_body(&self.blob.bytes(), self.state, &self.cuts, dir, self.pad)
    }
}

pub fn blob(max: u32) -> BoxedStrategy<Blob> {
    (len_abs(max), fill(), any::<u16>()).prop_map(|(len, fill, seed)| Blob { len, fill, seed }).boxed()
}

/// Now and then of a size beyond any buffer.
pub fn big(one_in: u32) -> BoxedStrategy<Option<u32>> {
    prop_oneof![
        2 * one_in => Just(None),
        1 => (prop::sample::select(vec![1u32 << 16, 1 << 17, 192 << 10, 1 << 18, 1 << 20, 1 << 21]), -2i32..3)
            .prop_map(|(n, d)| Some((n as i32 + d) as u32)),
        1 => (50_000u32..2_300_000).prop_map(Some),
    ].boxed()
}

pub fn blob_or_big(max: u32, one_in: u32) -> BoxedStrategy<Blob> {
    (blob(max), big(one_in)).prop_map(|(mut b, n)| { if let Some(n) = n { b.len = n; } b }).boxed()
}

pub fn body_or_big(max: u32, one_in: u32) -> BoxedStrategy<BodySpec> {
    (body_spec(max), big(one_in)).prop_map(|(mut b, n)| { if let Some(n) = n { b.blob.len = n; } b }).boxed()
}

pub fn body_spec(max: u32) -> BoxedStrategy<BodySpec> {
    (blob(max), state(), cuts(), prop_oneof![Just(0u16), 1u16..50, 4000u16..5000])
        .prop_map(|(blob, state, cuts, pad)| BodySpec { blob, state, cuts, pad }).boxed()
}

// ------------------------------------------------------------- headers

pub type Headers = Vec<(String, Vec<u8>)>;

pub fn header_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(vec![
            "content-type", "content-length", "host", "set-cookie", "accept", "x", "x-a", "x-b",
            "transfer-encoding", "content-encoding", "date", "server", "via", "x-long-header-name-for-test"])
            .prop_map(|s| s.to_string()),
        2 => "[a-z][a-z0-9-]{0,12}",
        1 => "[!#$%&'*+.^_`|~a-z0-9-]{1,8}",
    ].boxed()
}

/// Header values without leading or trailing blanks (these are not
/// significant in the format).
pub fn header_value() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        4 => "[ -~]{0,30}".prop_map(|s| s.into_bytes()),
        2 => prop::sample::select(vec!["text/html", "text/html; charset=utf-8", "application/json",
            "image/png", "close", "a, b, c", "x: y", "\"quoted\""]).prop_map(|s| s.as_bytes().to_vec()),
        1 => prop::collection::vec(prop_oneof![Just(b'\t'), 32u8..127, 128u8..=255], 0..20),
        1 => (1usize..400).prop_map(|n| vec![b'v'; n]),
    ].prop_map(|v| trim(&v).to_vec()).boxed()
}

pub fn trim(v: &[u8]) -> &[u8] {
    let blank = |b: &u8| *b == b' ' || *b == b'\t';
    let s = v.iter().position(|b| !blank(b)).unwrap_or(v.len());
    let e = v.iter().rposition(|b| !blank(b)).map(|e| e + 1).unwrap_or(s);
    &v[s..e.max(s)]
}

pub fn headers(max: usize) -> BoxedStrategy<Headers> {
    prop_oneof![
        1 => Just(vec![]),
        6 => prop::collection::vec((header_name(), header_value()), 0..max.min(8).max(1)),
        1 => prop::collection::vec((header_name(), header_value()), 0..max.max(1)),
    ].boxed()
}

pub fn to_map(h: &Headers) -> R<http::HeaderMap> {
    let mut m = http::HeaderMap::new();
    for (n, v) in h {
        m.append(
            http::header::HeaderName::from_bytes(n.as_bytes()).h("header name")?,
            http::header::HeaderValue::from_bytes(v).h("header value")?);
    }
    Ok(m)
}

/// Canonical content of a header map: per name, values in order.
pub fn canon(m: &http::HeaderMap) -> Vec<(String, Vec<Vec<u8>>)> {
    let mut v: Vec<_> = m.keys().map(|k| (
        k.as_str().to_string(),
        m.get_all(k).iter().map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>(),
    )).collect();
    v.sort();
    v
}

pub fn canon_list(h: &Headers) -> Vec<(String, Vec<Vec<u8>>)> {
    let mut m: std::collections::BTreeMap<String, Vec<Vec<u8>>> = Default::default();
    for (n, v) in h { m.entry(n.to_ascii_lowercase()).or_default().push(v.clone()); }
    m.into_iter().collect()
}
