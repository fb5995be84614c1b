//! C13, C14: compression decisions and dialog conversion.

use std::convert::TryFrom;

use barc::{BarcFile, BrotliCompressStrategy, CompressStrategy, DialogConvertError, EncodeWrapper,
           GzipCompressStrategy, MetaRecorded, Record};
use body_image::{Dialog, Encoding, Epilog, Prolog, Recorded, RequestRecorded};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{self, *};
use crate::gen::*;
use crate::rec::*;
use engine::Rng;

// ------------------------------------------------------------------ C13

/// Content types with known answers.
const TYPES: &[(&str, bool)] = &[
    ("text/html", true), ("text/plain", true), ("text/css", true), ("text/javascript", true), ("text/x-unknown", true),
    ("text/xml", true), ("text/csv", true), ("text/event-stream", true), ("text/x-component", true),
    ("application/html", true), ("application/javascript", true), ("application/json", true), ("application/xml", true),
    ("application/atom", true), ("application/atom+xml", true), ("application/rss", true), ("application/rss+xml", true),
    ("application/x-font-opentype", true), ("application/x-font-truetype", true), ("application/x-font-ttf", true),
    ("application/xhtml", true), ("application/xhtml+xml", true), ("image/svg", true), ("image/svg+xml", true),
    ("font/opentype", true), ("font/otf", true), ("font/ttf", true),
    ("image/png", false), ("image/jpeg", false), ("image/gif", false), ("image/webp", false), ("image/x-icon", false),
    ("video/mp4", false), ("audio/mpeg", false), ("application/octet-stream", false), ("application/zip", false),
    ("application/pdf", false), ("application/gzip", false), ("application/wasm", false), ("font/woff", false),
    ("font/woff2", false), ("multipart/form-data", false), ("application/x-www-form-urlencoded", false),
    ("image/xml", false), ("video/json", false), ("font/json", false), ("application/otf", false), ("application/svg", false),
    ("", false), (";", false), ("/", false), ("html", false), ("text", false), ("/html", false),
    ("text/ html", false), ("texthtml", false), ("json", false),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ct { i: u8, case: u32, param: u8, pad: u8 }

impl Ct {
    fn value(&self) -> Option<(String, bool)> {
        // A quarter lacks the header
        if self.i >= 192 { return None; }
        let (t, ok) = TYPES[self.i as usize % TYPES.len()];
        let well = t.contains('/') && !t.starts_with('/') && !t.ends_with('/') && !t.contains(' ');
        let mut r = Rng::new(self.case as u64);
        let mut s: String = if self.case % 3 == 0 { t.into() } else {
            t.chars().map(|c| if r.below(2) == 0 { c.to_ascii_uppercase() } else { c }).collect()
        };
        if well {
            s.push_str(match self.param % 6 { 1 => "; charset=utf-8", 2 => ";charset=utf-8", 3 => "; charset=ISO-8859-1; a=b", 4 => "; q=\"x y\"", _ => "" });
        }
        match self.pad % 8 { 1 => s = format!(" {}", s), 2 => s = format!("{}  ", s), 3 => s = format!("  {} ", s), _ => {} }
        Some((s, ok))
    }
}

fn ct() -> impl Strategy<Value = Ct> {
    (any::<u8>(), any::<u32>(), any::<u8>(), any::<u8>()).prop_map(|(i, case, param, pad)| Ct { i, case, param, pad })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Min {
    Default,
    /// The default, with headers extended for the edge to be this near
    DefaultEdge(i32),
    Abs(u32), Edge(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C13Case {
    req_ct: Ct, res_ct: Ct, req_len: u32, res_len: u32, decoded: u8, meta: Headers, req_h: Headers, res_h: Headers,
    brotli: bool, min: Min, check: Option<bool>, level: u8, coef: u8,
}

const DECODED: &[(Option<&str>, bool)] = &[
    (None, false), (Some("identity"), true), (Some("chunked, identity"), true), (Some("gzip, identity"), true),
    (Some("chunked, br, identity"), true), (Some("chunked"), false), (Some("gzip"), false), (Some("chunked, gzip"), false),
    (Some("identity, gzip"), false), (Some(""), false), (Some("IDENTITY"), false), (Some("dentity"), false),
];

/// A strategy using the default rule with given numbers.
struct Custom { min: u64, coef: f64, check: bool }

impl CompressStrategy for Custom {
    fn wrap_encoder<'a>(&self, rec: &dyn MetaRecorded, file: &'a std::fs::File) -> Result<EncodeWrapper<'a>, barc::BarcError> {
        Ok(if self.is_compressible(rec) { EncodeWrapper::gzip(file, 1) } else { EncodeWrapper::plain(file) })
    }
    fn min_len(&self) -> u64 { self.min }
    fn non_compressible_coef(&self) -> f64 { self.coef }
    fn check_identity(&self) -> bool { self.check }
}

pub struct C13;

impl Prop for C13 {
    type Case = C13Case;
    fn id(&self) -> &'static str { "C13" }
    fn rule(&self) -> &'static str {
        "records with content types of known answer (random case, parameters, blanks, invalid, absent), decoded markers, header sets and body lengths, under gzip, Brotli and a custom strategy, with default thresholds, arbitrary ones, or ones placed -2..2 from the computed edge; non-trivial: threshold within 2 of the edge, or a body of non-compressible type present"
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["content types outside the known-answer table are not judged"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(180_000, 900_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C13Case> {
        ((ct(), ct(), len_abs(9000), len_abs(9000), any::<u8>(), headers(6), headers(6), headers(6)),
         (any::<bool>(), prop_oneof![1 => Just(Min::Default), 1 => (-2i32..3).prop_map(Min::DefaultEdge), 1 => prop_oneof![0u32..20, 0u32..20000, Just(u32::MAX)].prop_map(Min::Abs),
                                     6 => (-2i32..3).prop_map(Min::Edge), 1 => (-300i32..300).prop_map(Min::Edge)],
          prop::option::weighted(0.8, any::<bool>()), 0u8..10, any::<u8>()))
            .prop_map(|((req_ct, res_ct, req_len, res_len, decoded, meta, req_h, res_h), (brotli, min, check, level, coef))|
                C13Case { req_ct, res_ct, req_len, res_len, decoded, meta, req_h, res_h, brotli, min, check, level, coef }).boxed()
    }
    fn run(&self, c: &C13Case, ctx: &mut Ctx) -> R {
        let drop_names = |h: &Headers| -> Headers {
            h.iter().filter(|(n, _)| n != "content-type" && n != "response-decoded").cloned().collect()
        };
        let (mut meta, mut req_h, mut res_h) = (drop_names(&c.meta), drop_names(&c.req_h), drop_names(&c.res_h));
        let put = |h: &mut Headers, ct: &Ct| -> bool {
            match ct.value() { Some((v, ok)) => { h.push(("content-type".into(), v.into_bytes())); ok } None => false }
        };
        let req_ok = put(&mut req_h, &c.req_ct);
        let res_ok = put(&mut res_h, &c.res_ct);
        let (dec, idy) = DECODED[c.decoded as usize % DECODED.len()];
        if let Some(d) = dec { meta.push(("response-decoded".into(), d.as_bytes().to_vec())); }
        let (req_len, res_len) = (c.req_len as u64, c.res_len as u64);
        let hlen = |h: &Headers| -> u64 { h.iter().map(|(n, v)| (n.len() + v.len() + 4) as u64).sum() };
        let default_min = if c.brotli { 1024 } else { 4096 };
        let mut padded = false;
        if let Min::DefaultEdge(d) = c.min {
            let mut e = (hlen(&meta) + hlen(&req_h) + hlen(&res_h)) as i64;
            if res_ok && (!c.check.unwrap_or(true) || idy) { e += res_len as i64 } else { e -= (res_len / 2) as i64 }
            if req_ok { e += req_len as i64 } else { e -= (req_len / 2) as i64 }
            let pad = default_min as i64 + d as i64 - e - 9;
            if (0..20_000).contains(&pad) {
                let h = match c.coef % 3 { 0 => &mut meta, 1 => &mut req_h, _ => &mut res_h };
                h.retain(|(n, _)| n != "x-pad");
                h.push(("x-pad".into(), vec![b'p'; pad as usize]));
                padded = true;
            }
        }
        let rec = Record {
            meta: to_map(&meta)?, req_headers: to_map(&req_h)?, res_headers: to_map(&res_h)?,
            req_body: body_image::BodyImage::from_slice(vec![b'q'; c.req_len as usize]),
            res_body: body_image::BodyImage::from_slice(vec![b's'; c.res_len as usize]),
            ..Record::default()
        };
        let heads = hlen(&meta) + hlen(&req_h) + hlen(&res_h);
        // The rule, by its documentation
        let decide = |min: u64, coef: (u64, u64), check: bool| -> bool {
            let mut good = heads as u128;
            let mut need = min as u128;
            if res_ok && (!check || idy) { good += res_len as u128 } else { need += (res_len * coef.0 / coef.1) as u128 }
            if req_ok { good += req_len as u128 } else { need += (req_len * coef.0 / coef.1) as u128 }
            good >= need
        };
        let edge = |coef: (u64, u64), check: bool| -> i64 {
            // largest min for which the rule holds
            let mut e = heads as i64;
            if res_ok && (!check || idy) { e += res_len as i64 } else { e -= (res_len * coef.0 / coef.1) as i64 }
            if req_ok { e += req_len as i64 } else { e -= (req_len * coef.0 / coef.1) as i64 }
            e
        };
        let half = (1, 2);
        let check = c.check.unwrap_or(true);
        let min = match c.min {
            Min::Default | Min::DefaultEdge(_) => default_min,
            Min::Abs(n) => n as u64,
            Min::Edge(d) => (edge(half, check) + d as i64).max(0) as u64,
        };
        let want = decide(min, half, check);
        let strategy: Box<dyn CompressStrategy> = if c.brotli {
            let mut s = BrotliCompressStrategy::default().set_compression_level(c.level as u32);
            if !matches!(c.min, Min::Default | Min::DefaultEdge(_)) { s = s.set_min_len(min); }
            if let Some(k) = c.check { s = s.set_check_identity(k); }
            Box::new(s)
        } else {
            let mut s = GzipCompressStrategy::default().set_compression_level(c.level as u32);
            if !matches!(c.min, Min::Default | Min::DefaultEdge(_)) { s = s.set_min_len(min); }
            if let Some(k) = c.check { s = s.set_check_identity(k); }
            Box::new(s)
        };
        let what = format!("req type {:?} len {}, res type {:?} len {}, decoded {:?}, headers {}, min {}, check {}",
                           c.req_ct.value(), req_len, c.res_ct.value(), res_len, dec, heads, min, check);
        ensure!(strategy.is_compressible(&rec) == want, "decision", "is_compressible is {}, rule says {}: {}", !want, want, what);
        let flag = |s: &dyn CompressStrategy, name: &str| -> R<u8> {
            let p = ctx.dir.join(name);
            let _ = std::fs::remove_file(&p);
            let b = BarcFile::new(&p);
            b.writer().v("writer", "writer")?.write(&rec, s).v("write", "write")?;
            let bytes = std::fs::read(&p).h("read back")?;
            Ok(parse_head(&bytes).v("head", "head")?.comp)
        };
        let comp = flag(&*strategy, "a.barc")?;
        let wc = if !want { b'P' } else if c.brotli { b'B' } else { b'Z' };
        ensure!(comp == wc, "stored-mode", "stored with {}, rule says {}: {}", comp as char, wc as char, what);
        // Same rule with other weight, by a custom strategy
        let coefs = [(0u64, 1u64), (1, 4), (1, 1), (2, 1), (3, 2)];
        let k = coefs[c.coef as usize % coefs.len()];
        let ck = c.check.unwrap_or(false);
        let m2 = match c.min { Min::Edge(d) => (edge(k, ck) + d as i64).max(0) as u64, _ => min };
        let cu = Custom { min: m2, coef: k.0 as f64 / k.1 as f64, check: ck };
        let w2 = decide(m2, k, ck);
        ensure!(cu.is_compressible(&rec) == w2, "decision-custom", "custom weight {:?} min {}: rule says {}: {}", k, m2, w2, what);
        // The no-compression strategy never compresses
        if c.level == 0 {
            ensure!(flag(&barc::NoCompressStrategy::default(), "n.barc")? == b'P', "plain-mode", "plain strategy compressed");
        }
        ctx.evals(2);
        ctx.class(if want { "compressed" } else { "plain" });
        ctx.class_if(matches!(c.min, Min::Default), "default-threshold");
        ctx.class_if(padded, "default-threshold-edge");
        let near = padded || matches!(c.min, Min::Edge(d) if d.abs() <= 2);
        ctx.class_if(near, "at-edge");
        ctx.nontrivial_if(near || (!res_ok && res_len > 0) || (!req_ok && req_len > 0));
        Ok(())
    }
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    Remove(u8),
    Url(u8), Method(u8), Version(u8), Status(u8), Decoded(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C14Case {
    method: String, url: String, version: u8, status: u16, decoded: Vec<u8>, extra: Headers,
    rec: RecSpec, tune: TuneSpec, bad: Bad,
}

const ENC: [(Encoding, &str); 6] = [(Encoding::Chunked, "chunked"), (Encoding::Deflate, "deflate"), (Encoding::Gzip, "gzip"),
    (Encoding::Brotli, "br"), (Encoding::Compress, "compress"), (Encoding::Identity, "identity")];

fn url() -> BoxedStrategy<String> {
    let host = prop_oneof!["[a-z][a-z0-9-]{0,10}\\.(com|org|EXAMPLE)", Just("127.0.0.1".to_string()), Just("[::1]".to_string()),
                           Just("user:pw@host.net".to_string()), Just("a.b.c.d.e".to_string())];
    let port = prop_oneof![3 => Just("".to_string()), 1 => (1u16..=65535).prop_map(|p| format!(":{}", p))];
    let path = prop_oneof![1 => Just("/".to_string()), 4 => "(/[A-Za-z0-9._~!$&'()*+,;=:@%-]{0,8}){1,4}", 1 => Just("//a//b/".to_string())];
    let query = prop_oneof![3 => Just("".to_string()), 3 => "\\?[A-Za-z0-9._~!$&'()*+,;=:@%/?-]{0,20}"];
    prop_oneof![
        6 => (prop::sample::select(vec!["http", "https", "ftp", "HTTP", "x-scheme+1"]), host.clone(), port.clone(), path.clone(), query.clone())
            .prop_map(|(s, h, p, a, q)| format!("{}://{}{}{}{}", s, h, p, a, q)),
        1 => (prop::sample::select(vec!["http", "https"]), host.clone(), port.clone()).prop_map(|(s, h, p)| format!("{}://{}{}", s, h, p)),
        1 => (prop::sample::select(vec!["http", "https"]), host.clone(), port.clone(), query.clone()).prop_map(|(s, h, p, q)| format!("{}://{}{}{}", s, h, p, q)),
        2 => (path, query).prop_map(|(a, q)| format!("{}{}", a, q)),
        1 => (host, 1u16..=65535).prop_map(|(h, p)| format!("{}:{}", h, p)),
        1 => Just("*".to_string()),
    ].boxed()
}

pub struct C14;

fn body_eq(b: &body_image::BodyImage, want: &[u8], what: &str) -> R {
    ensure!(b.len() == want.len() as u64, "body-len", "{} length {} expected {}", what, b.len(), want.len());
    let v = read_body(b)?;
    ensure!(v == want, "body", "{}: {}", what, diff(want, &v));
    Ok(())
}

impl C14 {
    fn check(&self, d: &Dialog, c: &C14Case, m: &RecModel, what: &str) -> R {
        let url: http::Uri = c.url.parse().h("url")?;
        ensure!(d.method().as_str() == c.method, "method", "{}: method {} expected {}", what, d.method(), c.method);
        ensure!(d.url() == &url && d.url().to_string() == url.to_string(), "url", "{}: url {} expected {}", what, d.url(), url);
        ensure!(d.res_version() == VERSIONS[c.version as usize % 5].0, "version", "{}: version {:?}", what, d.res_version());
        ensure!(d.res_status().as_u16() == c.status, "status", "{}: status {} expected {}", what, d.res_status(), c.status);
        let want: Vec<Encoding> = c.decoded.iter().map(|i| ENC[*i as usize % 6].0).collect();
        ensure!(d.res_decoded() == &want, "decoded", "{}: decoded {:?} expected {:?}", what, d.res_decoded(), want);
        ensure!(canon(d.req_headers()) == m.req_h, "req-headers", "{}: request headers differ", what);
        ensure!(canon(d.res_headers()) == m.res_h, "res-headers", "{}: response headers differ", what);
        body_eq(d.req_body(), &m.req_b, "request body")?;
        body_eq(d.res_body(), &m.res_b, "response body")
    }
}

const VERSIONS: [(http::Version, &str); 5] = [(http::Version::HTTP_11, "HTTP/1.1"), (http::Version::HTTP_10, "HTTP/1.0"),
    (http::Version::HTTP_2, "HTTP/2.0"), (http::Version::HTTP_09, "HTTP/0.9"), (http::Version::HTTP_3, "HTTP/3.0")];

impl Prop for C14 {
    type Case = C14Case;
    fn id(&self) -> &'static str { "C14" }
    fn rule(&self) -> &'static str {
        "dialogs over all methods (standard and extension), URL forms, five versions, status 100-999, lists of 0-5 of all six encodings, any headers and bodies, converted directly and through an archive with any strategy; then one metadata omission or corruption each; non-trivial: list of encodings not empty or method, version or status not the usual"
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["URLs are those the http crate accepts"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(50_000, 400_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C14Case> {
        let method = prop_oneof![3 => prop::sample::select(vec!["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE"]).prop_map(|s| s.to_string()),
            1 => "[A-Za-z][A-Za-z0-9_.-]{0,24}"];
        let i = || any::<u8>();
        let bad = prop_oneof![5 => (0u8..5).prop_map(Bad::Remove), 1 => i().prop_map(Bad::Url), 1 => i().prop_map(Bad::Method),
            1 => i().prop_map(Bad::Version), 1 => i().prop_map(Bad::Status), 1 => i().prop_map(Bad::Decoded)];
        (method, url(), any::<u8>(), prop_oneof![1 => Just(200u16), 4 => 100u16..1000], prop::collection::vec(any::<u8>(), 0..6), headers(4),
         rec_spec(4000, 8), tune_unlimited(), bad)
            .prop_filter("url accepted by http crate", |t| t.1.parse::<http::Uri>().is_ok())
            .prop_map(|(method, url, version, status, decoded, extra, rec, tune, bad)|
                C14Case { method, url, version, status, decoded, extra, rec, tune, bad }).boxed()
    }
    fn run(&self, c: &C14Case, ctx: &mut Ctx) -> R {
        let src = ctx.subdir("src")?;
        let td = ctx.subdir("tmp")?;
        let tune = c.tune.tunables(&td);
        let m = c.rec.model();
        let (ver, ver_s) = VERSIONS[c.version as usize % 5];
        let rec = c.rec.build(&src)?;
        let uri: http::Uri = c.url.parse().h("url")?;
        let d = Dialog::new(
            Prolog { method: c.method.parse().h("method")?, url: uri.clone(), req_headers: rec.req_headers, req_body: rec.req_body },
            Epilog { version: ver, status: http::StatusCode::from_u16(c.status).h("status")?, res_headers: rec.res_headers,
                     res_body: rec.res_body, res_decoded: c.decoded.iter().map(|i| ENC[*i as usize % 6].0).collect() });
        self.check(&d, c, &m, "dialog itself")?;
        let r = Record::try_from(d.clone()).v("to-record", "dialog to record")?;
        // Meta as documented
        let get = |n: &str| r.meta.get(n).map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned());
        ensure!(get("url") == Some(uri.to_string()), "meta", "meta url {:?} of {}", get("url"), uri);
        ensure!(get("method").as_deref() == Some(&c.method), "meta", "meta method {:?}", get("method"));
        ensure!(get("response-version").as_deref() == Some(ver_s), "meta", "meta version {:?}", get("response-version"));
        ensure!(get("response-status").map_or(false, |s| s.starts_with(&format!("{} ", c.status))), "meta", "meta status {:?}", get("response-status"));
        let list: Vec<&str> = c.decoded.iter().map(|i| ENC[*i as usize % 6].1).collect();
        ensure!(get("response-decoded") == if list.is_empty() { None } else { Some(list.join(", ")) },
                "meta", "meta decoded {:?} of {:?}", get("response-decoded"), list);
        self.check(&Dialog::try_from(r.clone()).v("to-dialog", "record to dialog")?, c, &m, "direct")?;
        // Through an archive
        let b = BarcFile::new(ctx.dir.join("a.barc"));
        b.writer().v("writer", "writer")?.write(&r, &*c.rec.strat.strategy()).v("write", "write")?;
        let back = match b.reader().v("reader", "reader")?.read(&tune).v("read", "read")? {
            Some(x) => x,
            None => return violation("lost", "record not found"),
        };
        self.check(&Dialog::try_from(back.clone()).v("to-dialog", "archived record to dialog")?, c, &m, "through archive")?;
        // Additional meta headers do not matter; each required one does
        let mut bad = back;
        for (n, v) in &c.extra {
            if ["url", "method", "response-version", "response-status", "response-decoded"].contains(&n.as_str()) { continue; }
            bad.meta.append(http::header::HeaderName::from_bytes(n.as_bytes()).h("name")?, http::header::HeaderValue::from_bytes(v).h("value")?);
        }
        self.check(&Dialog::try_from(bad.clone()).v("to-dialog", "with more meta")?, c, &m, "with additional meta")?;
        let hv = |s: &[u8]| http::header::HeaderValue::from_bytes(s).h("value");
        let pick = |i: u8, l: &[&'static [u8]]| -> &'static [u8] { l[i as usize % l.len()] };
        use DialogConvertError as E;
        let mut set = |n: &'static str, v: &[u8]| -> R { bad.meta.insert(n, hv(v)?); Ok(()) };
        let expect: (&str, Box<dyn Fn(&E) -> bool>) = match c.bad {
            Bad::Remove(i) => {
                let n = ["url", "method", "response-version", "response-status", "response-decoded"][i as usize % 5];
                bad.meta.remove(n);
                (n, match i % 5 {
                    0 => Box::new(|e| matches!(e, E::NoMetaUrl)),
                    1 => Box::new(|e| matches!(e, E::NoMetaMethod)),
                    2 => Box::new(|e| matches!(e, E::NoMetaResVersion)),
                    3 => Box::new(|e| matches!(e, E::NoMetaResStatus)),
                    _ => {
                        let d = Dialog::try_from(bad).v("to-dialog", "without decoded")?;
                        ensure!(d.res_decoded().is_empty(), "decoded", "decoded {:?} from nothing", d.res_decoded());
                        ctx.class("no-decoded");
                        return Ok(());
                    }
                })
            }
            Bad::Url(i) => { set("url", pick(i, &[b"", b"http://a b", b"\xff", b"http:///x", b"ht tp://x/"]))?;
                ("url", Box::new(|e| matches!(e, E::InvalidUrl(_)))) }
            Bad::Method(i) => { set("method", pick(i, &[b"", b"GE T", b"GET/", b"\xe9", b"(GET)"]))?;
                ("method", Box::new(|e| matches!(e, E::InvalidMethod(_)))) }
            Bad::Version(i) => {
                let v = pick(i, &[b"", b"HTTP/1.2", b"http/1.1", b"HTTP/1.1 ", b"HTTP/4.0", b"HTTP", b"1.1", b"HTTP/11"]);
                set("response-version", v)?;
                ("version", Box::new(move |e| matches!(e, E::InvalidVersion(x) if x == v))) }
            Bad::Status(i) => {
                let l: &[&'static [u8]] = &[b"", b"2", b"20", b"abc", b"099", b" 200", b"0200", b"2x0 OK", b"OK 200", b"-20"];
                let v = pick(i, l);
                set("response-status", v)?;
                ("status", Box::new(move |e| if v.len() < 3 { matches!(e, E::MalformedMetaResStatus) } else { matches!(e, E::InvalidStatusCode(_)) })) }
            Bad::Decoded(i) => { set("response-decoded", pick(i, &[b"", b"foo", b"gzip,,br", b"gzip; br", b"gzip br", b"br, x-gzip", b"\xe9", b"GZIP ,", b","]))?;
                ("decoded", Box::new(|e| matches!(e, E::InvalidResDecoded(_)))) }
        };
        match Dialog::try_from(bad) {
            Ok(_) => return violation("accepted", format!("record with bad {} converted: {:?}", expect.0, c.bad)),
            Err(e) => {
                ensure!(expect.1(&e), "wrong-error", "bad {} ({:?}) gave {:?}", expect.0, c.bad, e);
                let w: barc::BarcError = e.into();
                ensure!(matches!(w, barc::BarcError::IntoDialog(_)), "wrap", "not wrapped as IntoDialog");
                let _ = w.to_string();
            }
        }
        ctx.evals(3);
        ctx.class(match c.bad { Bad::Remove(_) => "removed", _ => "corrupted" });
        ctx.nontrivial_if(!c.decoded.is_empty() || c.status != 200 || ver != http::Version::HTTP_11 || !matches!(c.method.as_str(), "GET" | "POST"));
        Ok(())
    }
}
