//! C31: the record sub-command of the command line tool, against a scripted
//! server on the loopback interface.

use std::convert::TryFrom;
use std::ffi::OsString;
use std::fs;
use std::net::{TcpListener, TcpStream};
use std::sync::mpsc;
use std::time::Duration;

use barc::{BarcFile, BrotliCompressStrategy, CompressStrategy, GzipCompressStrategy};
use body_image::{Dialog, Encoding, Tunables};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;
use crate::rec::*;
use super::cli::*;
use super::futio_conv::{encode, Dec};
use super::srv::*;

/// What else is wrong.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Trouble {
    None, Refused, BadUrl(u8), BadAccept, OutDir, NoDir,
    /// Arguments missing, surplus, unknown or contradicting
    Usage(u8),
    /// The output may grow by so many bytes only
    Full(u16),
    /// Encoded content cut off
    Cut(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C31Case {
    path: String, accept: Option<String>, comp: u8, no_decode: bool, spell: u8, prior: Option<Recs>,
    status: u16, v10: bool, res_h: Headers, content: Blob, dec: Dec, in_te: bool, framing: Framing, chunks: Vec<u16>, writes: Vec<u16>,
    event: Event, trouble: Trouble,
}

pub struct C31;

fn name(d: Dec, spell: u8) -> Option<&'static str> {
    Some(match d {
        Dec::Gzip => if spell & 16 == 0 { "gzip" } else { "x-gzip" },
        Dec::Deflate => "deflate",
        Dec::Br => "br",
        Dec::Compress => "compress",
        Dec::None => return None,
    })
}

impl Prop for C31 {
    type Case = C31Case;
    fn id(&self) -> &'static str { "C31" }
    fn rule(&self) -> &'static str {
        "a URL of a scripted loopback server recorded to a new or existing archive, with any compression, decoding or not, over each framing and encoding; or with a connection, response, encoding, argument or output that is bad; non-trivial: a non-empty body was recorded, or something was bad"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["plain HTTP only: TLS is replaced by a stand-in", "which records the strategies find worth compressing is taken from the library, see C13",
             "headers governing the connection are the HTTP library's"]
    }
    fn hang_secs(&self) -> u64 { 120 }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<C31Case> {
        let event = prop_oneof![
            16 => Just(Event::None), 1 => Just(Event::CloseBefore), 1 => any::<u16>().prop_map(Event::CloseHead),
            2 => any::<u16>().prop_map(Event::CloseBody), 1 => Just(Event::Garbage),
        ];
        let trouble = prop_oneof![
            20 => Just(Trouble::None), 1 => Just(Trouble::Refused), 1 => any::<u8>().prop_map(Trouble::BadUrl), 1 => Just(Trouble::BadAccept),
            1 => any::<u8>().prop_map(Trouble::Usage), 1 => Just(Trouble::OutDir), 1 => Just(Trouble::NoDir), 2 => (0u16..600).prop_map(Trouble::Full), 2 => any::<u16>().prop_map(Trouble::Cut),
        ];
        let dec = prop_oneof![3 => Just(Dec::None), 3 => Just(Dec::Gzip), 2 => Just(Dec::Deflate), 2 => Just(Dec::Br), 1 => Just(Dec::Compress)];
        let framing = prop_oneof![3 => Just(Framing::Length), 3 => Just(Framing::Chunked), 2 => Just(Framing::Close)];
        let content = prop_oneof![6 => blob(12_000), 5 => (4000u32..20_000, fill(), any::<u16>()).prop_map(|(len, fill, seed)| Blob { len, fill, seed }), 1 => blob(300_000)];
        (("/[a-z0-9/._~-]{0,12}(\\?[a-z=&0-9%]{0,10})?", prop::option::weighted(0.3, "[a-z*/]([a-z*/;=., +]{0,20}[a-z*/])?"), 0u8..3, prop::bool::weighted(0.3), any::<u8>(),
          prop::option::weighted(0.5, recs(0, 3))),
         (prop_oneof![4 => Just(200u16), 1 => Just(204u16), 1 => Just(304u16), 4 => 200u16..600, 1 => 600u16..1000], prop::bool::weighted(0.2), headers(6),
          content, dec, prop::bool::weighted(0.2), framing, prop::collection::vec(1u16..6000, 0..5), cuts()),
         (event, trouble, any::<u8>()))
            .prop_map(|((path, accept, comp, no_decode, spell, prior), (status, v10, mut res_h, content, dec, in_te, framing, chunks, writes), (event, trouble, conn))| {
                if spell & 32 != 0 { res_h.push(("content-type".into(), b"text/html; charset=utf-8".to_vec())); }
                C31Case { path, accept, comp, no_decode, spell, prior, status, v10,
                          res_h: usable(&res_h).into_iter().filter(|(n, _)| n != "content-encoding").chain(connection(conn)).collect(),
                          content, dec, in_te, framing, chunks, writes, event, trouble }
            }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(16_000, 160_000) }
    fn run(&self, c: &C31Case, ctx: &mut Ctx) -> R {
        let t = Tool::of(ctx, "target-cli-net")?;
        let no_body = c.status == 204 || c.status == 304;
        let dec = if no_body { Dec::None } else { c.dec };
        let content = if no_body { vec![] } else { c.content.bytes() };
        let framing = if c.v10 && c.framing == Framing::Chunked { Framing::Close } else { c.framing };
        let mut body = encode(&content, dec, c.spell)?;
        let mut cut = false;
        if let Trouble::Cut(n) = c.trouble {
            if matches!(dec, Dec::Gzip | Dec::Deflate | Dec::Br) && !body.is_empty() {
                body.truncate(n as usize % body.len());
                cut = true;
            }
        }
        // The response
        let mut served = c.res_h.clone();
        let in_te = c.in_te && framing == Framing::Chunked && !no_body;
        let mut te = vec![];
        if let Some(n) = name(dec, c.spell) {
            if in_te { te.push(n); } else { served.push(("content-encoding".into(), n.as_bytes().to_vec())); }
        }
        let wire = match framing {
            Framing::Length => {
                if c.status != 204 { served.push(("content-length".into(), body.len().to_string().into_bytes())); }
                body.clone()
            }
            Framing::Chunked => if no_body { vec![] } else {
                te.push("chunked");
                served.push(("transfer-encoding".into(), te.join(", ").into_bytes()));
                chunked(&body, &c.chunks)
            },
            Framing::Close => body.clone(),
        };
        let mut event = c.event;
        if let Event::CloseBody(_) = event { if wire.is_empty() || framing == Framing::Close { event = Event::None; } }

        // The archive
        let prior = match &c.prior { Some(p) => build(p)?.bytes, None => vec![] };
        let (file, arg) = match c.trouble {
            Trouble::OutDir => ("d".to_string(), "d"),
            Trouble::NoDir => ("no/out.barc".to_string(), "no/out.barc"),
            _ => ("out.barc".to_string(), if c.spell & 4 == 0 { "out.barc" } else { "./out.barc" }),
        };
        if c.prior.is_some() { t.put("out.barc", &prior)?; }
        t.put("other.barc", b"other")?;
        let before = t.snapshot()?;

        // Server and arguments
        let bad_early = matches!(c.trouble, Trouble::Refused | Trouble::BadUrl(_) | Trouble::BadAccept | Trouble::Usage(_));
        let mut addr = ([127, 0, 0, 1], 0).into();
        let (url, srv) = if bad_early {
            let l = TcpListener::bind(("127.0.0.1", 0)).h("listen")?;
            (format!("http://{}{}", l.local_addr().h("address")?, c.path), None)
        } else {
            let l = listener()?;
            addr = l.local_addr().h("address")?;
            let url = format!("http://{}{}", addr, c.path);
            let (tx, rx) = mpsc::channel();
            let (dtx, drx) = mpsc::channel();
            let plan = Plan { head: head(c.v10, c.status, &served), body: wire, writes: c.writes.clone(), event, close: framing == Framing::Close };
            (url, Some((std::thread::spawn(move || serve(l, plan, tx, drx)), rx, dtx)))
        };
        let mut args = vec![os("record")];
        let mut opts: Vec<Vec<OsString>> = vec![comp_args(c.comp, c.spell)];
        if c.no_decode { opts.push(vec![os("--no-decode")]); }
        let accept = if c.trouble == Trouble::BadAccept { Some("a\nb".to_string()) } else { c.accept.clone() };
        if let Some(a) = &accept {
            opts.push(if c.spell & 2 == 0 { vec![os("--accept"), os(a)] } else { vec![os(&format!("--accept={}", a))] });
        }
        if c.spell & 8 != 0 { opts.reverse(); }
        let shown = match c.trouble {
            Trouble::BadUrl(k) => ["", "no url", "http://", "/path/only", "http://h:99999999/", "ht tp://x/"][k as usize % 6].to_string(),
            _ => url.clone(),
        };
        let files = vec![os(&shown), os(arg)];
        if c.spell & 64 == 0 { args.extend(opts.concat()); args.extend(files); } else { args.extend(files); args.extend(opts.concat()); }
        if let Trouble::Usage(k) = c.trouble {
            let (u, f) = (os(&url), os(arg));
            match k % 6 {
                0 => args = vec![os("record")],
                1 => args.retain(|a| *a != f),
                2 => args = vec![os("record"), os("-z"), os("--brotli"), u, f],
                3 => args = vec![os("record"), u, f, os("surplus")],
                4 => args.insert(1, os("--unknown")),
                _ => args = vec![os("record"), u, f, os("--accept")],
            }
        }
        let fsize = match c.trouble { Trouble::Full(n) => prior.len() as u64 + n as u64, _ => FSIZE };
        let r = t.run(&args, Sink::File, fsize)?;
        let seen = match srv {
            None => None,
            Some((h, rx, dtx)) => {
                let _ = dtx.send(());
                let _ = dtx.send(());
                let got = rx.recv_timeout(Duration::from_secs(2));
                // Not even connected: let the server go
                if got.is_err() { let _ = TcpStream::connect(addr); }
                h.join().map_err(|_| Fail::Harness("server panic".into()))?;
                let bad_out = matches!(c.trouble, Trouble::OutDir | Trouble::NoDir | Trouble::Full(_));
                match got {
                    Ok(Ok(s)) => Some(s),
                    _ if bad_out => None,
                    Ok(Err(e)) => return violation("request", format!("server got no proper request: {:?}; {:?} {}", e, r.code, r.err)),
                    Err(_) => return violation("request", format!("{:?} made no request: {:?} {}", args, r.code, r.err)),
                }
            }
        };
        let after = t.snapshot()?;
        for (p, b) in before.iter().filter(|(p, _)| !p.ends_with(&file)) {
            ensure!(after.get(p) == Some(b), "other-files", "{} changed", p.display());
        }
        for p in after.keys().filter(|p| !p.ends_with(&file)) {
            ensure!(before.contains_key(p), "other-files", "{} created", p.display());
        }
        let left: Vec<_> = fs::read_dir(&t.io).h("io directory")?.flatten().map(|e| e.file_name()).filter(|n| n != "out").collect();
        ensure!(left.is_empty(), "residue", "temporary files left: {:?}", left);
        let now = fs::read(t.work.join("out.barc")).unwrap_or_default();

        let unsupported = dec == Dec::Compress && !c.no_decode;
        let must_fail = event != Event::None || bad_early || matches!(c.trouble, Trouble::OutDir | Trouble::NoDir)
            || unsupported || cut && !c.no_decode;
        let out_failed = matches!(c.trouble, Trouble::Full(_)) && r.code != Some(0);
        if must_fail || out_failed {
            failed(&r, &args)?;
            ensure!(now == prior, "failed-changed", "{:?} failed, but the archive changed from {} to {} bytes", args, prior.len(), now.len());
            if event != Event::None || bad_early || unsupported || cut && !c.no_decode {
                let made = after.keys().find(|p| !before.contains_key(*p));
                ensure!(made.is_none(), "failed-created", "{:?} failed, but created {:?}", args, made);
            }
            if unsupported && event == Event::None && c.trouble == Trouble::None {
                ensure!(r.err.contains("no-decode"), "message", "message gives no hint on --no-decode: {}", r.err);
            }
            ctx.class(if out_failed { "full".to_string() } else if event != Event::None { "broken-response".into() }
                      else if bad_early { format!("{:?}", c.trouble).split('(').next().unwrap_or("").to_string() }
                      else if unsupported { "unsupported".into() } else if cut { "cut".into() } else { "bad-output".into() });
            ctx.nontrivial();
            return Ok(());
        }
        ensure!(r.code == Some(0), "exit-status", "{:?} exited with {:?}: {}", args, r.code, r.err);
        ensure!(now.starts_with(&prior), "earlier-bytes", "earlier bytes of the archive changed");
        let got = match parse_archive(&now[prior.len()..]) { Ok(g) => g, Err(e) => return violation("output-format", e) };
        ensure!(got.len() == 1, "record-count", "{} records appended", got.len());
        let g = &got[0];
        // The request as sent
        let seen = seen.ok_or_else(|| Fail::Harness("no request".into()))?;
        let uri: http::Uri = url.parse().h("uri")?;
        let pq = uri.path_and_query().map(|p| p.to_string()).unwrap_or_default();
        ensure!(seen.line == format!("GET {} HTTP/1.1", pq), "request-line", "request line {:?}, expected {}", seen.line, pq);
        ensure!(seen.body.is_empty() && g.rec.req_b.is_empty(), "request-body", "a request body");
        let sent = canon_list(&usable(&seen.headers));
        ensure!(g.rec.req_h == sent, "request-headers", "recorded {:?}, sent {:?}", g.rec.req_h, sent);
        if let Some(a) = &c.accept {
            let h = sent.iter().find(|(n, _)| n == "accept").map(|(_, v)| v.clone());
            ensure!(h == Some(vec![a.as_bytes().to_vec()]), "accept", "accept header {:?}, expected {:?}", h, a);
        }
        // The response
        ensure!(g.rec.res_h == canon_list(&served), "response-headers", "recorded {:?}, served {:?}", g.rec.res_h, served);
        let want = if c.no_decode { &body } else { &content };
        ensure!(&g.rec.res_b == want, "response-body", "{}", diff(want, &g.rec.res_b));
        let mut rd = BarcFile::new(t.work.join("out.barc")).reader().v("reader", "reader")?;
        rd.seek((prior.len() + g.at) as u64).v("seek", "seek")?;
        let rec = rd.read(&Tunables::new()).v("read", "read")?.ok_or_else(|| Fail::Violation { sig: "read".into(), msg: "no record".into() })?;
        let flag = match c.comp % 3 {
            1 if GzipCompressStrategy::default().set_check_identity(true).is_compressible(&rec) => b'Z',
            2 if BrotliCompressStrategy::default().set_check_identity(true).is_compressible(&rec) => b'B',
            _ => b'P',
        };
        ensure!(g.head.comp == flag, "compression", "compression {}, expected {}", g.head.comp as char, flag as char);
        let d = Dialog::try_from(rec).v("dialog", "record as dialog")?;
        ensure!(d.method() == http::Method::GET, "method", "method {}", d.method());
        ensure!(d.url() == &uri, "url", "url {} expected {}", d.url(), uri);
        ensure!(d.res_status().as_u16() == c.status, "status", "status {} expected {}", d.res_status(), c.status);
        ensure!(d.res_version() == if c.v10 { http::Version::HTTP_10 } else { http::Version::HTTP_11 }, "version", "version {:?}", d.res_version());
        let mut list = vec![];
        if framing == Framing::Chunked && !no_body { list.push(Encoding::Chunked); }
        if !c.no_decode {
            match dec { Dec::Gzip => list.push(Encoding::Gzip), Dec::Deflate => list.push(Encoding::Deflate), Dec::Br => list.push(Encoding::Brotli), _ => {} }
            list.push(Encoding::Identity);
        }
        ensure!(d.res_decoded() == &list, "decoded", "decoded {:?}, expected {:?}", d.res_decoded(), list);
        ctx.class(format!("ok-{:?}{}", dec, if c.no_decode { "-kept" } else { "" }));
        ctx.class(format!("stored-{}", flag as char));
        ctx.nontrivial_if(!want.is_empty());
        Ok(())
    }
}
