//! C21 (decoding response bodies), C22 (encodings from headers), C24
//! (recorded requests).

use std::io::{Read, Write};
use std::mem::ManuallyDrop;
use std::pin::Pin;
use std::task::Poll;

use body_image::{BodyError, BodyImage, Dialog, Encoding, Epilog, Prolog, Recorded, RequestRecorded};
use body_image_futio::*;
use bytes::Bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;
use super::futio::*;

// ------------------------------------------------------------- codings

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tok { Chunked, Gzip, XGzip, Deflate, Br, Compress, XCompress, Identity, Trailers, Unknown(u8), Odd(u8) }

const UNKNOWN: [&str; 8] = ["zstd", "foo", "gzi", "gzipp", "x-br", "brotli", "gzip;q=1", "chunked-gzip"];
const ODD: [&str; 5] = ["", " ", "\t", "g zip", "\"gzip\""];

impl Tok {
    fn text(self) -> &'static str {
        match self {
            Tok::Chunked => "chunked", Tok::Gzip => "gzip", Tok::XGzip => "x-gzip", Tok::Deflate => "deflate",
            Tok::Br => "br", Tok::Compress => "compress", Tok::XCompress => "x-compress", Tok::Identity => "identity",
            Tok::Trailers => "trailers",
            Tok::Unknown(i) => UNKNOWN[i as usize % UNKNOWN.len()],
            Tok::Odd(i) => ODD[i as usize % ODD.len()],
        }
    }
    fn coding(self) -> Option<Encoding> {
        match self {
            Tok::Gzip | Tok::XGzip => Some(Encoding::Gzip),
            Tok::Deflate => Some(Encoding::Deflate),
            Tok::Br => Some(Encoding::Brotli),
            Tok::Compress | Tok::XCompress => Some(Encoding::Compress),
            _ => None,
        }
    }
}

/// A list element: token, upper-case mask, blanks around.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct El { tok: Tok, caps: u16, pre: u8, post: u8 }

impl El {
    fn text(&self) -> String {
        const B: [&str; 4] = ["", " ", "\t", "  "];
        let t: String = self.tok.text().chars().enumerate().map(|(i, c)|
            if self.caps >> (i % 16) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
        format!("{}{}{}", B[self.pre as usize % 4], t, B[self.post as usize % 4])
    }
}

fn tok() -> impl Strategy<Value = Tok> {
    prop_oneof![
        3 => Just(Tok::Chunked), 3 => Just(Tok::Gzip), 1 => Just(Tok::XGzip), 2 => Just(Tok::Deflate), 2 => Just(Tok::Br),
        1 => Just(Tok::Compress), 1 => Just(Tok::XCompress), 1 => Just(Tok::Identity), 1 => Just(Tok::Trailers),
        1 => any::<u8>().prop_map(Tok::Unknown), 1 => any::<u8>().prop_map(Tok::Odd),
    ]
}

fn el() -> impl Strategy<Value = El> {
    (tok(), prop_oneof![3 => Just(0u16), 1 => Just(1u16), 1 => Just(0xffffu16), 1 => any::<u16>()],
     prop_oneof![2 => Just(0u8), 2 => Just(1), 1 => 0u8..4], prop_oneof![3 => Just(0u8), 1 => 0u8..4])
        .prop_map(|(tok, caps, pre, post)| El { tok, caps, pre, post })
}

/// Lines of one header.
type Lines = Vec<Vec<El>>;

fn lines() -> impl Strategy<Value = Lines> {
    prop_oneof![
        400 => Just(vec![]),
        1000 => prop::collection::vec(prop::collection::vec(el(), 0..4), 1..3),
        200 => prop::collection::vec(prop::collection::vec(el(), 0..6), 0..5),
        1 => prop::collection::vec(prop::collection::vec(el(), 0..40), 10..70),
    ]
}

fn line_text(l: &[El]) -> String { l.iter().map(|e| e.text()).collect::<Vec<_>>().join(",") }

fn expected(te: &Lines, ce: &Lines) -> Vec<Encoding> {
    let mut v = vec![];
    if te.iter().flatten().any(|e| e.tok == Tok::Chunked) { v.push(Encoding::Chunked); }
    let last = |l: &Lines| l.iter().flatten().rev().find_map(|e| e.tok.coding());
    if let Some(e) = last(te).or_else(|| last(ce)) { v.push(e); }
    v
}

// ------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C22Case { te: Lines, ce: Lines, other: Headers, junk: Vec<(bool, Vec<u8>)>, name_caps: bool }

pub struct C22;

fn enc_map(te: &Lines, ce: &Lines, other: &Headers) -> R<http::HeaderMap> {
    let mut m = to_map(&other.iter().filter(|(n, _)| !n.eq_ignore_ascii_case("transfer-encoding")
        && !n.eq_ignore_ascii_case("content-encoding")).cloned().collect())?;
    for (n, ls) in [(http::header::TRANSFER_ENCODING, te), (http::header::CONTENT_ENCODING, ce)] {
        for l in ls {
            m.append(n.clone(), http::header::HeaderValue::from_bytes(line_text(l).as_bytes()).h("value")?);
        }
    }
    Ok(m)
}

impl Prop for C22 {
    type Case = C22Case;
    fn id(&self) -> &'static str { "C22" }
    fn rule(&self) -> &'static str { "two or more known codings over both headers, or malformed values present" }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["values that are not text are malformed; nothing but absence of failure and the shape of the result is required with them",
             "elements with parameters are unknown codings"]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<C22Case> {
        let junk = prop_oneof![
            4 => Just(vec![]),
            1 => prop::collection::vec((any::<bool>(), prop::collection::vec(
                prop_oneof![Just(b','), Just(b'\t'), 32u8..127, 128u8..=255], 0..12)), 1..3),
        ];
        (lines(), lines(), headers(4), junk, any::<bool>())
            .prop_map(|(te, ce, other, junk, name_caps)| C22Case { te, ce, other, junk, name_caps }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(1_000_000, 10_000_000) }
    fn run(&self, c: &C22Case, ctx: &mut Ctx) -> R {
        let mut m = enc_map(&c.te, &c.ce, &c.other)?;
        for (t, v) in &c.junk {
            let n = if *t { http::header::TRANSFER_ENCODING } else { http::header::CONTENT_ENCODING };
            m.append(n, http::header::HeaderValue::from_bytes(v).h("value")?);
        }
        let before = m.clone();
        let got = find_encodings(&m);
        let chunked = find_chunked(&m);
        ensure!(m == before, "headers-changed", "headers changed");
        let known = c.te.iter().chain(c.ce.iter()).flatten().filter(|e| e.tok == Tok::Chunked || e.tok.coding().is_some()).count();
        if c.junk.is_empty() {
            let want = expected(&c.te, &c.ce);
            ensure!(got == want, "encodings", "transfer-encoding {:?}, content-encoding {:?}: got {:?}, expected {:?}",
                    c.te.iter().map(|l| line_text(l)).collect::<Vec<_>>(), c.ce.iter().map(|l| line_text(l)).collect::<Vec<_>>(), got, want);
            let wc = want.first() == Some(&Encoding::Chunked);
            ensure!(chunked == wc, "chunked", "find_chunked {}, expected {}", chunked, wc);
            ctx.class_if(want.len() == 2, "chunked-and-compressed");
            ctx.class_if(want.is_empty(), "none");
            ctx.class_if(c.te.iter().flatten().any(|e| e.tok.coding().is_some())
                && c.ce.iter().flatten().any(|e| e.tok.coding().is_some()), "both-compressed");
        } else {
            let comp = if got.first() == Some(&Encoding::Chunked) { &got[1..] } else { &got[..] };
            ensure!(comp.len() <= 1 && !comp.contains(&Encoding::Chunked) && !comp.contains(&Encoding::Identity),
                    "shape", "result {:?}", got);
            ctx.class("malformed");
        }
        ctx.nontrivial_if(known >= 2 || !c.junk.is_empty());
        Ok(())
    }
}

// ------------------------------------------------------------- C21

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Damage { None, Truncate(u16), TruncateTail(u8), Flip(u16, u8), Empty, Replace,
    /// Bytes after the encoded content
    Trail(u8, u8) }

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dec { Gzip, Deflate, Br, Compress, None }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C21Case {
    content: Blob, dec: Dec, level: u8, te: Lines, ce: Lines, in_te: bool, other: Headers,
    state: State, cuts: Vec<u16>, tune: TuneSpec, max_body: Option<i16>, damage: Damage, chunked_before: bool,
    est: u16,
    /// Where the content is divided over several gzip members
    #[serde(default)] members: Vec<u16>,
}

pub struct C21;

/// Gzip of several members, one after the other.
fn encode_members(d: &[u8], at: &[u16], level: u8) -> R<Vec<u8>> {
    let mut at: Vec<_> = at.iter().map(|a| *a as usize % (d.len() + 1)).collect();
    at.sort();
    at.push(d.len());
    let (mut v, mut from) = (vec![], 0);
    for (i, to) in at.into_iter().enumerate() {
        v.extend(encode(&d[from..to], Dec::Gzip, level.wrapping_add(i as u8))?);
        from = to;
    }
    Ok(v)
}

pub fn encode(d: &[u8], e: Dec, level: u8) -> R<Vec<u8>> {
    Ok(match e {
        Dec::Gzip => {
            let mut w = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level as u32 % 10));
            w.write_all(d).h("gzip")?;
            w.finish().h("gzip")?
        }
        Dec::Deflate => {
            let mut w = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(level as u32 % 10));
            w.write_all(d).h("deflate")?;
            w.finish().h("deflate")?
        }
        Dec::Br => {
            let mut w = brotli::CompressorWriter::new(vec![], 4096, 1 + level as u32 % 8, 18);
            w.write_all(d).h("brotli")?;
            w.into_inner()
        }
        Dec::Compress | Dec::None => d.to_vec(),
    })
}

/// What the decoder makes of the encoded bytes, all at hand, if complete.
fn reference(d: &[u8], e: Dec) -> Option<Vec<u8>> {
    let mut out = vec![];
    match e {
        Dec::Gzip => flate2::bufread::MultiGzDecoder::new(d).read_to_end(&mut out).ok()?,
        Dec::Deflate => flate2::bufread::DeflateDecoder::new(d).read_to_end(&mut out).ok()?,
        Dec::Br => brotli::Decompressor::new(d, 4096).read_to_end(&mut out).ok()?,
        Dec::Compress | Dec::None => return None,
    };
    Some(out)
}

fn unsupported(d: Dec) -> bool { d == Dec::Compress || d == Dec::Br && !cfg!(feature = "full") }

struct Snap { body: Vec<u8>, decoded: Vec<Encoding>, dbg: String }

fn snap(d: &Dialog) -> R<Snap> {
    Ok(Snap {
        body: read_body(d.res_body())?,
        decoded: d.res_decoded().to_vec(),
        dbg: format!("{:?} {:?} {:?} {:?} {:?} {:?} {}", d.method(), d.url(), d.req_headers(), d.res_headers(),
                     d.res_status(), d.res_version(), read_body(d.req_body())?.len()),
    })
}

impl Prop for C21 {
    type Case = C21Case;
    fn id(&self) -> &'static str { "C21" }
    fn rule(&self) -> &'static str { "the body was compressed, and either decoded to non-empty content or damaged, unsupported or over the limit" }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["deflate is the raw format, as the library reads it",
             "bytes following the encoded content may be ignored or be an error",
             "raw deflate and brotli carry no checksum: altered (not truncated) content need not be noticed"]
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<C21Case> {
        let dec = prop_oneof![4 => Just(Dec::Gzip), 3 => Just(Dec::Deflate), 3 => Just(Dec::Br), 1 => Just(Dec::Compress), 1 => Just(Dec::None)];
        let damage = prop_oneof![
            6 => Just(Damage::None), 2 => any::<u16>().prop_map(Damage::Truncate), 1 => (1u8..12).prop_map(Damage::TruncateTail),
            2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Damage::Flip(a, b)), 1 => Just(Damage::Empty), 1 => Just(Damage::Replace),
            1 => (1u8..40, any::<u8>()).prop_map(|(n, x)| Damage::Trail(n, x)),
        ];
        ((blob_or_big(tier.pick(30_000, 300_000), 500), dec, 0u8..10, lines(), lines(), any::<bool>(), headers(4)),
         (state(), cuts(), tune_unlimited(), prop::option::weighted(0.3, prop_oneof![-2i16..3, -300i16..300]), damage, any::<bool>(), 1u16..300,
          prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(any::<u16>(), 1..5)]))
            .prop_map(|((content, dec, level, te, ce, in_te, other), (state, cuts, tune, max_body, damage, chunked_before, est, members))|
                C21Case { content, dec, level, te, ce, in_te, other, state, cuts, tune, max_body, damage, chunked_before, est, members }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(160_000, 400_000) }
    fn run(&self, c: &C21Case, ctx: &mut Ctx) -> R {
        // Headers which come out as the intended coding: strip others
        let tok = match c.dec { Dec::Gzip => Some(if c.level % 3 == 0 { Tok::XGzip } else { Tok::Gzip }), Dec::Deflate => Some(Tok::Deflate),
            Dec::Br => Some(Tok::Br), Dec::Compress => Some(Tok::Compress), Dec::None => None };
        let strip = |l: &Lines| -> Lines { l.iter().map(|x| x.iter().filter(|e| e.tok.coding().is_none()).cloned().collect()).collect() };
        let (mut te, mut ce) = (strip(&c.te), strip(&c.ce));
        if let Some(t) = tok {
            let e = El { tok: t, caps: if c.level == 5 { 1 } else { 0 }, pre: c.level, post: 0 };
            if c.in_te { te.insert(0, vec![e]); } else { ce.push(vec![e]); }
        }
        let want_enc = expected(&te, &ce);
        let content = c.content.bytes();
        let multi = c.dec == Dec::Gzip && !c.members.is_empty();
        let full = if multi { encode_members(&content, &c.members, c.level)? } else { encode(&content, c.dec, c.level)? };
        let mut enc = full.clone();
        match c.damage {
            Damage::None => {}
            Damage::Truncate(n) => enc.truncate(n as usize % enc.len().max(1)),
            Damage::TruncateTail(n) => { let l = enc.len().saturating_sub(n as usize); enc.truncate(l) }
            Damage::Flip(at, x) => if !enc.is_empty() { let i = at as usize % enc.len(); enc[i] ^= x.max(1) },
            Damage::Empty => enc.clear(),
            Damage::Replace => enc = fill_bytes(enc.len(), &Fill::Text, 5),
            Damage::Trail(n, x) => enc.extend((0..n).map(|i| if x < 64 { 0 } else { x.wrapping_mul(i | 1) })),
        }
        let max_body = c.max_body.map(|d| (content.len() as i64 + d as i64).max(0) as u64).unwrap_or(1 << 30);
        let mut t = body_image::Tuner::new();
        t.set_buffer_size_ram(c.tune.buf_ram).set_buffer_size_fs(c.tune.buf_fs).set_temp_dir(&ctx.dir)
            .set_max_body(max_body.max(c.tune.max_ram.min(max_body))).set_max_body_ram(c.tune.max_ram.min(max_body))
            .set_size_estimate_gzip(c.est).set_size_estimate_deflate(c.est).set_size_estimate_brotli(c.est);
        let tune = t.finish();
        let body = build_body(&enc, c.state, &c.cuts, &ctx.dir, 3)?;
        let pro = Prolog { method: http::Method::GET, url: "http://h/p".parse().h("uri")?, req_headers: to_map(&c.other)?,
                           req_body: BodyImage::from_slice(&b"req"[..]) };
        let epi = Epilog { version: http::Version::HTTP_11, status: http::StatusCode::OK, res_headers: enc_map(&te, &ce, &c.other)?,
                           res_body: body, res_decoded: if c.chunked_before { vec![Encoding::Chunked] } else { vec![] } };
        let mut d = Dialog::new(pro, epi);
        let before = snap(&d)?;
        let r = decode_res_body(&mut d, &tune);
        let after = snap(&d)?;
        ensure!(after.dbg == before.dbg, "other-parts", "other parts changed: {} / {}", before.dbg, after.dbg);
        let mut with_id = want_enc.clone();
        with_id.push(Encoding::Identity);
        let damaged = enc != full;
        let unmodified = |sig: &str, e: &FutioError| -> R {
            ensure!(after.body == before.body, &format!("{}-body", sig), "body changed though {:?}", e);
            ensure!(after.decoded == before.decoded, &format!("{}-decoded", sig), "decoded list changed though {:?}", e);
            Ok(())
        };
        match r {
            Ok(changed) => {
                match c.dec {
                    Dec::None => {
                        ensure!(!changed, "changed-flag", "reported as changed with nothing to decode");
                        ensure!(after.body == before.body, "body-changed", "body changed with nothing to decode");
                    }
                    d if unsupported(d) => viol!("unsupported-accepted", "unsupported coding accepted"),
                    _ => {
                        ensure!(changed, "changed-flag", "not reported as changed");
                        let cut = matches!(c.damage, Damage::Truncate(_) | Damage::TruncateTail(_) | Damage::Empty) && damaged;
                        // Whole members are complete
                        let cut = cut && !(multi && reference(&enc, c.dec).is_some());
                        ensure!(!cut, "truncated-accepted", "{:?}: {} of {} encoded bytes decoded to {} of {}, without error",
                                c.dec, enc.len(), full.len(), after.body.len(), content.len());
                        // Altered bytes can by chance be another complete encoding
                        let other = if damaged { reference(&enc, c.dec) } else { None };
                        if let Some(o) = other.filter(|o| *o != content) {
                            ensure!(after.body == o, "altered-content", "{:?}: {}", c.dec, diff(&o, &after.body));
                            ctx.class("altered-complete");
                        } else if !damaged || c.dec == Dec::Gzip || matches!(c.damage, Damage::Trail(..)) {
                            ensure!(after.body == content, "content", "{:?}: {}", c.dec, diff(&content, &after.body));
                        }
                        ensure!(after.body.len() as u64 <= max_body, "limit-missed", "{} bytes with maximum {}", after.body.len(), max_body);
                        if after.body.len() as u64 > c.tune.max_ram.min(max_body) {
                            ensure!(!d.res_body().is_ram(), "threshold", "{} bytes in RAM with limit {}", after.body.len(), c.tune.max_ram);
                        }
                        ensure!(d.res_body().len() == after.body.len() as u64, "len", "length {}", d.res_body().len());
                    }
                }
                ensure!(after.decoded == with_id, "decoded", "decoded {:?}, expected {:?}", after.decoded, with_id);
            }
            Err(e) => {
                unmodified("error", &e)?;
                match &e {
                    FutioError::UnsupportedEncoding(x) => {
                        ensure!(unsupported(c.dec) && Some(*x) == tok.and_then(|t| t.coding()), "unsupported", "{:?} with {:?}", e, c.dec);
                        ctx.class("unsupported");
                    }
                    FutioError::Body(BodyError::BodyTooLong(_)) => {
                        ensure!(content.len() as u64 > max_body || damaged, "too-long", "{:?} with content of {} and maximum {}", e, content.len(), max_body);
                        ctx.class("too-long");
                    }
                    FutioError::Body(BodyError::Io(_)) => {
                        ensure!(damaged && c.dec != Dec::None && c.dec != Dec::Compress, "spurious", "{:?} decoding intact {:?}", e, c.dec);
                        ctx.class(format!("corrupt-{:?}", c.dec));
                    }
                    _ => viol!("error-kind", "unexpected error {:?}", e),
                }
            }
        }
        ctx.class_if(multi, "gzip-members");
        ctx.class(format!("dec-{:?}", c.dec));
        ctx.nontrivial_if(c.dec != Dec::None && (damaged || c.dec == Dec::Compress || !content.is_empty()));
        Ok(())
    }
}

// ------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RBody { None, Bytes(Blob), Image(BodySpec) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C24Case {
    kind: SK, buf: BK, method: Option<String>, uri: Option<String>, version: u8,
    headers: Vec<(String, Vec<u8>)>, body: RBody, buf_fs: u16, sched: Sched, #[serde(default)] hyper: bool,
}

pub struct C24;

fn builder(c: &C24Case) -> http::request::Builder {
    let mut b = http::Request::builder();
    if let Some(m) = &c.method { b = b.method(m.as_str()); }
    if let Some(u) = &c.uri { b = b.uri(u.as_str()); }
    match c.version { 1 => b = b.version(http::Version::HTTP_10), 2 => b = b.version(http::Version::HTTP_2), _ => {} }
    for (n, v) in &c.headers { b = b.header(n.as_str(), &v[..]); }
    b
}

fn recorded<B>(c: &C24Case, rig: &mut Rig, tune: FutioTunables, ctx: &mut Ctx) -> R
    where B: http_body::Body + Unpin + Send, B::Error: std::fmt::Debug, http::request::Builder: RequestRecorder<B>,
{
    let want = builder(c).body(());
    let (res, data) = match &c.body {
        RBody::None => (RequestRecorder::<B>::record(builder(c)), vec![]),
        RBody::Bytes(b) => {
            let d = b.bytes();
            (RequestRecorder::<B>::record_body(builder(c), d.clone()), d)
        }
        RBody::Image(s) => (RequestRecorder::<B>::record_body_image(builder(c), s.build(&ctx.dir)?, tune), s.blob.bytes()),
    };
    let (rr, want) = match (res, want) {
        (Err(_), Err(_)) => { ctx.class("invalid"); ctx.nontrivial(); return Ok(()) }
        (Ok(_), Err(e)) => return violation("invalid-accepted", format!("recorded although the request is invalid: {:?}", e)),
        (Err(e), Ok(_)) => return violation("record-error", format!("error {:?} for a valid request", e)),
        (Ok(r), Ok(w)) => (r, w),
    };
    ensure!(rr.method() == want.method() && rr.request().method() == want.method(), "method",
            "recorded {:?}, request {:?}, expected {:?}", rr.method(), rr.request().method(), want.method());
    ensure!(rr.url() == want.uri() && rr.request().uri() == want.uri(), "url",
            "recorded {:?}, request {:?}, expected {:?}", rr.url(), rr.request().uri(), want.uri());
    ensure!(rr.url().to_string() == want.uri().to_string(), "url-text", "recorded {}, expected {}", rr.url(), want.uri());
    ensure!(canon(rr.req_headers()) == canon(want.headers()), "headers", "recorded {:?}, expected {:?}", rr.req_headers(), want.headers());
    ensure!(canon(rr.request().headers()) == canon(want.headers()), "request-headers", "request {:?}, expected {:?}",
            rr.request().headers(), want.headers());
    ensure!(rr.request().version() == want.version(), "version", "request {:?}, expected {:?}", rr.request().version(), want.version());
    ensure!(rr.req_body().len() == data.len() as u64, "body-len", "recorded length {}, expected {}", rr.req_body().len(), data.len());
    let rec = read_body(rr.req_body())?;
    ensure!(rec == data, "recorded-body", "{}", diff(&data, &rec));
    // The record gives out the request by reference only: take the body over
    // and let go of the rest
    let rr = ManuallyDrop::new(rr);
    let mut body: B = unsafe { std::ptr::read(rr.request().body()) };
    let h = http_body::Body::size_hint(&body);
    let n = data.len() as u64;
    let end = http_body::Body::is_end_stream(&body);
    if c.hyper {
        // Any image is of unknown size to the HTTP library
        ensure!(h.lower() <= n && h.upper().map_or(true, |u| u >= n), "size-hint", "size hint {:?} for {}", h, n);
        ensure!(!end || n == 0, "end-flag", "end flag set before polling {} bytes", n);
    } else {
        ensure!(h.exact() == Some(n), "size-hint", "size hint {:?} for {}", h, n);
        ensure!(end == (n == 0), "end-flag", "end flag wrong before polling {} bytes", n);
    }
    let mut got = vec![];
    loop {
        let r = rig.drive("poll_data", |cx| match Pin::new(&mut body).poll_data(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Ready(Some(r)) => Poll::Ready(Some(r.map(|mut b| {
                use bytes::Buf;
                let n = b.remaining();
                b.copy_to_bytes(n)
            }))),
        })?;
        match r {
            None => break,
            Some(Ok(b)) => got.extend_from_slice(&b),
            Some(Err(e)) => viol!("stream-error", "request body stream: {:?}", e),
        }
    }
    ensure!(got == data, "sent-body", "{}", diff(&data, &got));
    let rec = read_body(rr.req_body())?;
    ensure!(rec == data, "recorded-after", "recorded body changed by sending: {}", diff(&data, &rec));
    ctx.class_if(c.hyper, "hyper-body");
    ctx.class(match c.body { RBody::None => "no-body", RBody::Bytes(_) => "bytes", RBody::Image(_) => "image" });
    ctx.nontrivial_if(!data.is_empty() || !c.headers.is_empty());
    Ok(())
}

impl Prop for C24 {
    type Case = C24Case;
    fn id(&self) -> &'static str { "C24" }
    fn rule(&self) -> &'static str { "the request has headers or a non-empty body, or is invalid" }
    fn assumptions(&self) -> Vec<&'static str> { vec!["what the http crate's builder makes of the same calls is the request meant"] }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<C24Case> {
        let method = prop_oneof![
            1 => Just(None),
            5 => prop::sample::select(vec!["GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "FOO", "x-y"])
                .prop_map(|s| Some(s.to_string())),
            1 => prop::sample::select(vec!["", "A B", "GE\u{e9}", "A(B)"]).prop_map(|s| Some(s.to_string())),
        ];
        let uri = prop_oneof![
            1 => Just(None),
            6 => prop::sample::select(vec!["http://a/", "http://host:8080/p/q?x=1&y=%20", "/rel?q", "https://u@h/z", "*",
                "http://[::1]:1/a", "h:80", "http://h", "/p#frag"]).prop_map(|s| Some(s.to_string())),
            1 => prop::sample::select(vec!["", "http://", "http:// a/", "http://h:port/", "\u{e9}", "ht tp://x/"]).prop_map(|s| Some(s.to_string())),
            1 => "http://[a-z]{1,6}(:[0-9]{1,4})?/[a-z0-9/?=&%._~-]{0,20}".prop_map(Some),
        ];
        let hdr = prop_oneof![
            15 => (header_name(), header_value()),
            1 => (prop::sample::select(vec!["", "a b", "x:", "\u{e9}"]).prop_map(|s| s.to_string()), header_value()),
            1 => (header_name(), prop::sample::select(vec![b"a\r\nb".to_vec(), vec![0], vec![127], b"\n".to_vec()])),
        ];
        let body = prop_oneof![
            1 => Just(RBody::None), 2 => blob_or_big(5000, 1000).prop_map(RBody::Bytes), 3 => body_or_big(5000, 1000).prop_map(RBody::Image),
        ];
        (prop::sample::select(vec![SK::Async, SK::Permit, SK::Dispatch]), bk(), method, uri, 0u8..4,
         prop::collection::vec(hdr, 0..6), body, (50u16..3000, prop::bool::weighted(0.3)), sched())
            .prop_map(|(kind, buf, method, uri, version, headers, body, (buf_fs, hyper), sched)|
                C24Case { kind, buf, method, uri, version, headers, body, buf_fs, sched, hyper: hyper && cfg!(feature = "net") }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(300_000, 3_000_000) }
    fn run(&self, c: &C24Case, ctx: &mut Ctx) -> R {
        let mut rig = Rig::new(c.kind, &c.sched, &PoolSpec { size: 1, queue: None });
        let mut t = body_image::Tuner::new();
        let least = if let RBody::Image(b) = &c.body { b.blob.len as usize / 1000 } else { 0 };
        t.set_buffer_size_fs((c.buf_fs as usize).max(least)).set_temp_dir(&ctx.dir);
        let tune = rig.tune(t.finish(), 1000);
        #[cfg(feature = "net")]
        if c.hyper { return recorded::<hyper::Body>(c, &mut rig, tune, ctx); }
        match (c.kind, c.buf) {
            (SK::Permit, BK::Bytes) => recorded::<PermitBodyImage<Bytes>>(c, &mut rig, tune, ctx),
            (SK::Permit, BK::Uni) => recorded::<PermitBodyImage<UniBodyBuf>>(c, &mut rig, tune, ctx),
            (SK::Dispatch, BK::Bytes) => recorded::<DispatchBodyImage<Bytes>>(c, &mut rig, tune, ctx),
            (SK::Dispatch, BK::Uni) => recorded::<DispatchBodyImage<UniBodyBuf>>(c, &mut rig, tune, ctx),
            (_, BK::Bytes) => recorded::<AsyncBodyImage<Bytes>>(c, &mut rig, tune, ctx),
            (_, BK::Uni) => recorded::<AsyncBodyImage<UniBodyBuf>>(c, &mut rig, tune, ctx),
        }
    }
}
