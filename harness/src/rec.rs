//! Archive records: specifications, models, and an independent codec for the
//! documented archive layout.

use std::io::{Read, Write};
use std::path::Path;

#[cfg(feature = "full")]
pub use barc::BrotliCompressStrategy;
#[cfg(not(feature = "full"))]
pub use barc::GzipCompressStrategy as BrotliCompressStrategy;
use barc::{BarcError, BarcWriter, CompressStrategy, Compression,
           GzipCompressStrategy, NoCompressStrategy, Record, RecordType};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Strat {
    Plain,
    Gzip { min: u32, level: u8, check: bool },
    Brotli { min: u32, level: u8, check: bool },
}

impl Strat {
    pub fn strategy(&self) -> Box<dyn CompressStrategy> {
        match *self {
            Strat::Plain => Box::new(NoCompressStrategy::default()),
            Strat::Gzip { min, level, check } => Box::new(GzipCompressStrategy::default()
                .set_min_len(min as u64).set_compression_level(level as u32).set_check_identity(check)),
            Strat::Brotli { min, level, check } => Box::new(BrotliCompressStrategy::default()
                .set_min_len(min as u64).set_compression_level(level as u32).set_check_identity(check)),
        }
    }
    pub fn mode(&self) -> Compression {
        match self {
            Strat::Plain => Compression::Plain,
            Strat::Gzip { .. } => Compression::Gzip,
            Strat::Brotli { .. } if cfg!(feature = "full") => Compression::Brotli,
            Strat::Brotli { .. } => Compression::Gzip,
        }
    }
}

pub fn strat() -> BoxedStrategy<Strat> {
    let min = || prop_oneof![3 => Just(0u32), 1 => 0u32..3000, 1 => 0u32..20000];
    prop_oneof![
        3 => Just(Strat::Plain),
        3 => (min(), 0u8..10, any::<bool>()).prop_map(|(min, level, check)| Strat::Gzip { min, level, check }),
        3 => (min(), 0u8..10, any::<bool>()).prop_map(|(min, level, check)| Strat::Brotli { min, level, check }),
    ].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RecSpec {
    pub meta: Headers,
    pub req_h: Headers,
    pub req_b: BodySpec,
    pub res_h: Headers,
    pub res_b: BodySpec,
    pub strat: Strat,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RecModel {
    pub meta: Vec<(String, Vec<Vec<u8>>)>,
    pub req_h: Vec<(String, Vec<Vec<u8>>)>,
    pub req_b: Vec<u8>,
    pub res_h: Vec<(String, Vec<Vec<u8>>)>,
    pub res_b: Vec<u8>,
}

impl RecSpec {
    pub fn build(&self, dir: &Path) -> R<Record> {
        Ok(Record {
            rec_type: RecordType::Dialog,
            meta: to_map(&self.meta)?,
            req_headers: to_map(&self.req_h)?,
            req_body: self.req_b.build(dir)?,
            res_headers: to_map(&self.res_h)?,
            res_body: self.res_b.build(dir)?,
        })
    }
    pub fn model(&self) -> RecModel {
        RecModel {
            meta: canon_list(&self.meta), req_h: canon_list(&self.req_h), req_b: self.req_b.blob.bytes(),
            res_h: canon_list(&self.res_h), res_b: self.res_b.blob.bytes(),
        }
    }
    pub fn write(&self, w: &mut BarcWriter<'_>, dir: &Path) -> R<Result<u64, BarcError>> {
        let rec = self.build(dir)?;
        Ok(w.write(&rec, &*self.strat.strategy()))
    }
}

pub fn model_of(r: &Record) -> R<RecModel> {
    Ok(RecModel {
        meta: canon(&r.meta), req_h: canon(&r.req_headers), req_b: read_body(&r.req_body)?,
        res_h: canon(&r.res_headers), res_b: read_body(&r.res_body)?,
    })
}

/// Compare a record as read with what was written.
pub fn compare(r: &Record, m: &RecModel, what: &str) -> R {
    ensure!(r.rec_type == RecordType::Dialog, "rec-type", "{}: type {:?}", what, r.rec_type);
    for (n, got, want) in [("meta", &r.meta, &m.meta), ("request headers", &r.req_headers, &m.req_h),
                           ("response headers", &r.res_headers, &m.res_h)] {
        let g = canon(got);
        ensure!(&g == want, "headers", "{}: {} differ: got {} names, expected {}{}", what, n, g.len(), want.len(),
                g.iter().zip(want.iter()).find(|(a, b)| a != b).map(|(a, b)|
                    format!("; {:?} != {:?}", a, b)).unwrap_or_default());
    }
    for (n, got, want) in [("request body", &r.req_body, &m.req_b), ("response body", &r.res_body, &m.res_b)] {
        ensure!(got.len() == want.len() as u64, "body-len", "{}: {} length {} expected {}", what, n, got.len(), want.len());
        let v = read_body(got)?;
        ensure!(&v == want, "body", "{}: {}: {}", what, n, diff(want, &v));
    }
    Ok(())
}

pub fn rec_spec(max_body: u32, max_headers: usize) -> BoxedStrategy<RecSpec> {
    (headers(max_headers), headers(max_headers), body_spec(max_body / 2 + 1), headers(max_headers),
     body_spec(max_body), strat(), 0u8..8, prop::bool::weighted(0.4))
        .prop_map(|(mut meta, mut req_h, mut req_b, mut res_h, mut res_b, strat, empty, typed)| {
            // Compressible content, so that compression occurs with thresholds
            if typed {
                req_h.push(("content-type".into(), b"text/html".to_vec()));
                res_h.push(("content-type".into(), b"text/plain; charset=utf-8".to_vec()));
                meta.push(("response-decoded".into(), b"chunked, identity".to_vec()));
            }
            match empty {
                0 => { req_b.blob.len = 0; }
                1 => { res_b.blob.len = 0; }
                2 => { meta.clear(); }
                3 => { req_h.clear(); req_b.blob.len = 0; }
                _ => {}
            }
            RecSpec { meta, req_h, req_b, res_h, res_b, strat }
        }).boxed()
}

// ---------------------------------------------------- independent codec

pub const HEAD: usize = 54;

#[derive(Clone, Debug, PartialEq)]
pub struct Head { pub len: u64, pub typ: u8, pub comp: u8, pub meta: usize, pub req_h: usize, pub req_b: u64, pub res_h: usize }

pub fn head_bytes(h: &Head) -> Vec<u8> {
    format!("BARC2 {:012x} {}{} {:05x} {:05x} {:010x} {:05x}\r\n\r\n", h.len, h.typ as char, h.comp as char,
            h.meta, h.req_h, h.req_b, h.res_h).into_bytes()
}

fn hex(b: &[u8]) -> Result<u64, String> {
    if !b.iter().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(c)) {
        return Err(format!("bad hex {:?}", String::from_utf8_lossy(b)));
    }
    u64::from_str_radix(std::str::from_utf8(b).map_err(|e| e.to_string())?, 16).map_err(|e| e.to_string())
}

pub fn parse_head(b: &[u8]) -> Result<Head, String> {
    if b.len() < HEAD { return Err(format!("short head of {}", b.len())); }
    let b = &b[..HEAD];
    if &b[..6] != b"BARC2 " { return Err("bad magic".into()); }
    for i in [18, 21, 27, 33, 44] { if b[i] != b' ' { return Err(format!("no blank at {}", i)); } }
    if &b[50..54] != b"\r\n\r\n" { return Err("bad head end".into()); }
    Ok(Head {
        len: hex(&b[6..18])?, typ: b[19], comp: b[20], meta: hex(&b[22..27])? as usize,
        req_h: hex(&b[28..33])? as usize, req_b: hex(&b[34..44])?, res_h: hex(&b[45..50])? as usize,
    })
}

pub fn parse_block(b: &[u8]) -> Result<Vec<(String, Vec<Vec<u8>>)>, String> {
    let mut h: Headers = vec![];
    let mut rest = b;
    while !rest.is_empty() {
        let e = rest.windows(2).position(|w| w == b"\r\n").ok_or("unterminated header line")?;
        let line = &rest[..e];
        rest = &rest[e + 2..];
        let c = line.iter().position(|x| *x == b':').ok_or("no colon in header line")?;
        if line.get(c + 1) != Some(&b' ') { return Err("no blank after colon".into()); }
        h.push((String::from_utf8(line[..c].to_vec()).map_err(|e| e.to_string())?, line[c + 2..].to_vec()));
    }
    Ok(canon_list(&h))
}

pub fn crlf_cut(b: &[u8]) -> Result<&[u8], String> {
    if b.is_empty() { return Ok(b); }
    if b.len() <= 2 { return Err("block of CRLF only".into()); }
    let (x, e) = b.split_at(b.len() - 2);
    if e != b"\r\n" { return Err("block without CRLF".into()); }
    Ok(x)
}

pub struct Parsed { pub at: usize, pub head: Head, pub rec: RecModel }

/// Parse strictly by the documented layout.
pub fn parse_archive(b: &[u8]) -> Result<Vec<Parsed>, String> {
    let mut v = vec![];
    let mut at = 0;
    while at < b.len() {
        let h = parse_head(&b[at..]).map_err(|e| format!("record at {}: {}", at, e))?;
        let start = at + HEAD;
        let end = start.checked_add(h.len as usize).filter(|e| *e <= b.len())
            .ok_or_else(|| format!("record at {} exceeds file", at))?;
        let payload = &b[start..end];
        let (data, plain) = match h.comp {
            b'P' => (payload.to_vec(), true),
            b'Z' => {
                let mut out = vec![];
                let mut d = flate2::bufread::GzDecoder::new(payload);
                d.read_to_end(&mut out).map_err(|e| format!("gzip at {}: {}", at, e))?;
                if !d.into_inner().is_empty() { return Err(format!("trailing bytes after gzip at {}", at)); }
                (out, false)
            }
            b'B' => {
                let mut out = vec![];
                brotli::BrotliDecompress(&mut &payload[..], &mut out).map_err(|e| format!("brotli at {}: {}", at, e))?;
                (out, false)
            }
            c => return Err(format!("compression flag {} at {}", c, at)),
        };
        if h.typ != b'D' { return Err(format!("type flag {} at {}", h.typ, at)); }
        let mut p = 0;
        let mut next = |n: usize| -> Result<&[u8], String> {
            if p + n > data.len() { return Err(format!("record at {}: blocks exceed record", at)); }
            let s = &data[p..p + n];
            p += n;
            Ok(s)
        };
        let meta = next(h.meta)?;
        let req_h = next(h.req_h)?;
        let req_b = next(h.req_b as usize)?;
        let res_h = next(h.res_h)?;
        let res_b = &data[p..];
        let cut = |b| if plain { crlf_cut(b) } else { Ok(b) };
        v.push(Parsed {
            at,
            rec: RecModel {
                meta: parse_block(cut(meta)?)?, req_h: parse_block(cut(req_h)?)?, req_b: cut(req_b)?.to_vec(),
                res_h: parse_block(cut(res_h)?)?, res_b: cut(res_b)?.to_vec(),
            },
            head: h,
        });
        at = end;
    }
    Ok(v)
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Enc { Plain, Gzip(u8), Brotli(u8) }

pub fn enc() -> impl Strategy<Value = Enc> {
    let brotli = if cfg!(feature = "full") { 1 } else { 0 };
    prop_oneof![2 => Just(Enc::Plain), 1 => (0u8..10).prop_map(Enc::Gzip), brotli => (1u8..10).prop_map(Enc::Brotli)]
}

fn block(h: &Headers, caps: bool) -> Vec<u8> {
    let mut v = vec![];
    for (n, x) in h {
        if caps { v.extend_from_slice(n.to_ascii_uppercase().as_bytes()) } else { v.extend_from_slice(n.as_bytes()) }
        v.extend_from_slice(b": ");
        v.extend_from_slice(x);
        v.extend_from_slice(b"\r\n");
    }
    v
}

/// Encode by the documented layout, independently of the crate.
pub fn encode(r: &RecSpec, e: Enc, caps: bool) -> R<Vec<u8>> {
    let mut parts = vec![block(&r.meta, caps), block(&r.req_h, caps), r.req_b.blob.bytes(), block(&r.res_h, caps), r.res_b.blob.bytes()];
    if e == Enc::Plain {
        for p in parts.iter_mut() { if !p.is_empty() { p.extend_from_slice(b"\r\n"); } }
    }
    let data = parts.concat();
    let (payload, comp) = match e {
        Enc::Plain => (data, b'P'),
        Enc::Gzip(l) => {
            let mut w = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(l as u32));
            w.write_all(&data).h("gzip")?;
            (w.finish().h("gzip")?, b'Z')
        }
        Enc::Brotli(l) => {
            let mut out = vec![];
            {
                let mut w = brotli::CompressorWriter::new(&mut out, 4096, l as u32, 20);
                w.write_all(&data).h("brotli")?;
            }
            (out, b'B')
        }
    };
    let mut v = head_bytes(&Head {
        len: payload.len() as u64, typ: b'D', comp, meta: parts[0].len(), req_h: parts[1].len(),
        req_b: parts[2].len() as u64, res_h: parts[3].len(),
    });
    v.extend_from_slice(&payload);
    Ok(v)
}
