//! C25: the client, against a scripted server on the loopback interface.

use std::sync::mpsc;
use std::time::Duration;

use blocking_permit::{deregister_dispatch_pool, register_dispatch_pool};
use body_image::{BodyError, Dialog, Encoding, Recorded, RequestRecorded};
use body_image_futio::*;
use bytes::Bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;
use super::futio::{semaphore, PoolSpec};
use super::srv::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Policy { Direct, Permit, Dispatch }

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind { Hyper, Async, AsyncUni, Permit, Dispatch }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Send { None, Bytes(Blob), Image(BodySpec) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C25Case {
    method: u8, path: String, req_h: Headers, send: Send, kind: Kind, policy: Policy, fetch: bool,
    status: u16, v10: bool, res_h: Headers, body: Blob, len: Len, framing: Framing, chunks: Vec<u16>, writes: Vec<u16>,
    tune: TuneSpec, event: Event, timeouts: bool,
    /// A header about the connection, as served
    #[serde(default)] conn: u8,
}

pub struct C25;

const METHODS: [&str; 7] = ["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD"];

/// The HTTP library does not send bodies of unknown length with all methods.
fn method_of(c: &C25Case) -> &'static str {
    let m = METHODS[c.method as usize % 7];
    if c.kind == Kind::Hyper && matches!(c.send, Send::Image(_)) && (m == "GET" || m == "HEAD") { "POST" } else { m }
}

async fn go<B>(req: Result<RequestRecord<B>, http::Error>, tune: FutioTunables) -> Result<Dialog, FutioError>
    where B: http_body::Body + std::marker::Send + 'static, B::Data: std::marker::Send, B::Error: Into<Flaw>
{
    let client = hyper::Client::builder().build::<_, B>(hyper::client::HttpConnector::new());
    request_dialog(&client, req?, tune).await
}

fn record<B>(c: &C25Case, url: &str, dir: &std::path::Path, tune: &FutioTunables) -> R<Result<RequestRecord<B>, http::Error>>
    where B: http_body::Body + std::marker::Send, http::request::Builder: RequestRecorder<B>
{
    let mut b = http::Request::builder().method(method_of(c)).uri(url);
    for (n, v) in &c.req_h { b = b.header(n.as_str(), &v[..]); }
    Ok(match &c.send {
        Send::None => b.record(),
        Send::Bytes(d) => b.record_body(d.bytes()),
        Send::Image(s) => b.record_body_image(s.build(dir)?, tune.clone()),
    })
}

impl Prop for C25 {
    type Case = C25Case;
    fn id(&self) -> &'static str { "C25" }
    fn rule(&self) -> &'static str {
        "requests with and without bodies of every type, sent to a loopback server that answers with generated status, headers and body under each framing, in generated pieces, or closes, stalls or answers garbage at a generated point; non-trivial: a body was transferred either way, or an event occurred"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["plain HTTP only: TLS is replaced by a stand-in", "headers governing the connection are the HTTP library's, as is that it sends no body of unknown length with GET and HEAD",
             "nothing but HTTP/1.0 and 1.1"]
    }
    fn hang_secs(&self) -> u64 { 120 }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<C25Case> {
        let event = prop_oneof![
            12 => Just(Event::None), 1 => Just(Event::CloseBefore), 1 => any::<u16>().prop_map(Event::CloseHead),
            3 => any::<u16>().prop_map(Event::CloseBody), 1 => Just(Event::StallBefore), 1 => any::<u16>().prop_map(Event::StallHead),
            2 => any::<u16>().prop_map(Event::StallBody), 1 => any::<u16>().prop_map(Event::Drip), 1 => Just(Event::Garbage),
        ];
        let send = prop_oneof![1 => Just(Send::None), 2 => blob(20_000).prop_map(Send::Bytes), 3 => body_spec(20_000).prop_map(Send::Image)];
        let framing = prop_oneof![3 => Just(Framing::Length), 3 => Just(Framing::Chunked), 2 => Just(Framing::Close)];
        ((any::<u8>(), "/[a-z0-9/._~-]{0,12}(\\?[a-z=&0-9%]{0,10})?", headers(5), send,
          prop::sample::select(vec![Kind::Hyper, Kind::Async, Kind::AsyncUni, Kind::Permit, Kind::Dispatch]),
          prop::sample::select(vec![Policy::Direct, Policy::Permit, Policy::Dispatch]), prop::bool::weighted(0.1)),
         (prop_oneof![4 => Just(200u16), 1 => Just(204u16), 1 => Just(304u16), 4 => 200u16..600, 1 => 600u16..1000], prop::bool::weighted(0.2), headers(8), blob(10), len(30_000), framing,
          prop::collection::vec(1u16..6000, 0..5), cuts()),
         (tune(), event, any::<bool>(), any::<u8>()))
            .prop_map(|((method, path, req_h, send, kind, policy, fetch), (status, v10, res_h, body, len, framing, chunks, writes), (tune, event, timeouts, conn))|
                C25Case { method, path, req_h: usable(&req_h), send, kind, policy, fetch, status, v10, res_h: usable(&res_h), body, len,
                          framing, chunks, writes, tune, event, timeouts, conn }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(12_000, 120_000) }
    fn run(&self, c: &C25Case, ctx: &mut Ctx) -> R {
        // fetch has no dispatch pool
        let policy = if c.fetch && c.policy == Policy::Dispatch { Policy::Direct } else { c.policy };
        let kind = match c.kind {
            Kind::Permit if policy != Policy::Permit => Kind::Async,
            Kind::Dispatch if policy != Policy::Dispatch => Kind::AsyncUni,
            k => k,
        };
        let method = method_of(c);
        let no_body = method == "HEAD" || c.status == 204 || c.status == 304;
        let mut n = c.len.of(&c.tune).min(200_000) as u32;
        if let Event::Drip(_) = c.event { n = n.max(DRIPS as u32 + 10); }
        let data = if no_body { vec![] } else { Blob { len: n, ..c.body.clone() }.bytes() };
        // Chunked needs 1.1
        let v10 = c.v10;
        let framing = if v10 && c.framing == Framing::Chunked { Framing::Close } else { c.framing };
        let mut event = c.event;
        let mut served = c.res_h.clone();
        served.extend(connection(c.conn));
        let mut wire = vec![];
        match framing {
            Framing::Length => {
                if c.status != 204 { served.push(("content-length".into(), data.len().to_string().into_bytes())); }
                wire = data.clone();
            }
            Framing::Chunked => if !no_body {
                served.push(("transfer-encoding".into(), b"chunked".to_vec()));
                wire = chunked(&data, &c.chunks);
            },
            Framing::Close => wire = data.clone(),
        }
        let head = head(v10, c.status, &served);
        // Events that would not be any
        if wire.is_empty() && matches!(event, Event::CloseBody(_) | Event::StallBody(_) | Event::Drip(_)) { event = Event::None; }
        if framing == Framing::Close {
            if let Event::CloseBody(_) = event { event = Event::None; }
            if let Event::StallBody(_) | Event::Drip(_) = event { if no_body { event = Event::None; } }
        }
        let l = listener()?;
        let url = format!("http://{}{}", l.local_addr().h("address")?, c.path);
        let (tx, rx) = mpsc::channel();
        let (dtx, drx) = mpsc::channel();
        let plan = Plan { head, body: wire.clone(), writes: c.writes.clone(), event, close: framing == Framing::Close };
        let srv = std::thread::spawn(move || serve(l, plan, tx, drx));

        let sem = semaphore(1);
        let short = Duration::from_millis(60);
        let long = Duration::from_secs(30);
        let mut t = FutioTuner::new();
        t.set_image(c.tune.tunables(&ctx.dir));
        // The tuner takes no response timeout greater than the body timeout
        let in_body = matches!(event, Event::StallBody(_) | Event::Drip(_));
        let in_head = matches!(event, Event::StallBefore | Event::StallHead(_));
        let body_t = if in_body { Some(short * 3 / 2) } else if c.timeouts { Some(long * 2) } else { None };
        let res_t = if in_head || in_body && c.timeouts { Some(short) } else if c.timeouts { Some(long) } else { None };
        if in_body && c.timeouts { ctx.class("both-timeouts"); }
        match res_t { Some(d) => { t.set_res_timeout(d); } None => { t.unset_res_timeout(); } }
        match body_t { Some(d) => { t.set_body_timeout(d); } None => { t.unset_body_timeout(); } }
        match policy {
            Policy::Direct => {}
            Policy::Permit => { t.set_blocking_policy(BlockingPolicy::Permit(sem)); }
            Policy::Dispatch => { t.set_blocking_policy(BlockingPolicy::Dispatch); }
        }
        let tune = t.finish();
        macro_rules! by_kind {
            ($f:ident) => {
                match kind {
                    Kind::Hyper => $f!(hyper::Body), Kind::Async => $f!(AsyncBodyImage<Bytes>), Kind::AsyncUni => $f!(AsyncBodyImage<UniBodyBuf>),
                    Kind::Permit => $f!(PermitBodyImage<Bytes>), Kind::Dispatch => $f!(DispatchBodyImage<UniBodyBuf>),
                }
            };
        }
        let res: Result<Dialog, FutioError> = if c.fetch {
            macro_rules! f { ($t:ty) => { match record::<$t>(c, &url, &ctx.dir, &tune)? { Ok(r) => fetch(r, tune.clone()), Err(e) => Err(e.into()) } } }
            by_kind!(f)
        } else {
            let pool = PoolSpec { size: 1, queue: None }.create();
            let p2 = pool.clone();
            let rt = if policy == Policy::Permit {
                tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build()
            } else {
                tokio::runtime::Builder::new_current_thread().enable_all().build()
            }.h("runtime")?;
            register_dispatch_pool(p2);
            struct G;
            impl Drop for G { fn drop(&mut self) { deregister_dispatch_pool(); } }
            let _g = G;
            macro_rules! f { ($t:ty) => {{
                let rr = record::<$t>(c, &url, &ctx.dir, &tune)?;
                let tune = tune.clone();
                if policy == Policy::Permit { rt.block_on(async { tokio::spawn(go(rr, tune)).await }).v("panic", "client task")? }
                else { rt.block_on(go(rr, tune)) }
            }} }
            by_kind!(f)
        };
        let _ = dtx.send(());
        let _ = dtx.send(());
        let seen = match rx.recv_timeout(Duration::from_secs(60)) {
            Ok(Ok(s)) => s,
            // A short timeout may also end the request
            Ok(Err(_)) if matches!(res, Err(FutioError::ResponseTimeout(t)) if t == short) => {
                ctx.class("request-cut");
                let _ = srv.join();
                return Ok(());
            }
            Ok(Err(e)) => { let _ = srv.join(); return violation("request", format!("server got no proper request: {:?}; client {:?}", e, res.err())); }
            Err(e) => return Err(Fail::Harness(format!("server: {:?}; client {:?}", e, res.err()))),
        };
        srv.join().map_err(|_| Fail::Harness("server panic".into()))?;

        // The request as sent
        let sent = match &c.send { Send::None => vec![], Send::Bytes(b) => b.bytes(), Send::Image(s) => s.blob.bytes() };
        let uri: http::Uri = url.parse().h("uri")?;
        let pq = uri.path_and_query().map(|p| p.to_string()).unwrap_or_default();
        ensure!(seen.line == format!("{} {} HTTP/1.1", method, pq), "request-line", "request line {:?}, expected {} {}", seen.line, method, pq);
        let own = canon_list(&usable(&seen.headers));
        ensure!(own == canon_list(&c.req_h), "request-headers", "request headers {:?}, expected {:?}", own, c.req_h);
        ensure!(seen.body == sent, "request-body", "{}", diff(&sent, &seen.body));

        let len = data.len() as u64;
        let too_long = len > c.tune.max_body;
        let over = |e: &FutioError| match e {
            FutioError::ContentLengthTooLong(n) => framing == Framing::Length && *n == len && too_long,
            FutioError::Body(BodyError::BodyTooLong(_)) => framing != Framing::Length && too_long,
            _ => false,
        };
        match (event, res) {
            (Event::None, Ok(d)) => {
                ensure!(!too_long, "limit-missed", "{} bytes accepted with maximum {}", len, c.tune.max_body);
                ensure!(d.method().as_str() == method, "method", "method {}", d.method());
                ensure!(d.url() == &uri, "url", "url {} expected {}", d.url(), uri);
                ensure!(canon(d.req_headers()) == canon_list(&c.req_h), "recorded-headers", "recorded {:?}", d.req_headers());
                let rb = read_body(d.req_body())?;
                ensure!(rb == sent, "recorded-body", "{}", diff(&sent, &rb));
                ensure!(d.res_status().as_u16() == c.status, "status", "status {} expected {}", d.res_status(), c.status);
                ensure!(d.res_version() == if v10 { http::Version::HTTP_10 } else { http::Version::HTTP_11 }, "version", "version {:?}", d.res_version());
                ensure!(canon(d.res_headers()) == canon_list(&served), "response-headers", "response headers {:?}, expected {:?}", d.res_headers(), served);
                let b = read_body(d.res_body())?;
                ensure!(b == data && d.res_body().len() == len, "response-body", "{}", diff(&data, &b));
                let dec: &[Encoding] = if framing == Framing::Chunked && !no_body { &[Encoding::Chunked] } else { &[] };
                ensure!(d.res_decoded().as_slice() == dec, "decoded", "decoded {:?}, expected {:?}", d.res_decoded(), dec);
                if !no_body && len > 0 {
                    ensure!(d.res_body().is_ram() == (len <= c.tune.max_ram), "threshold", "{} bytes with limit {} in RAM: {}", len, c.tune.max_ram, d.res_body().is_ram());
                }
                ctx.class(format!("ok-{:?}", framing));
                ctx.class_if(!d.res_body().is_ram(), "ok-file");
            }
            (Event::None, Err(e)) => {
                ensure!(over(&e), "spurious-error", "{:?} with {} bytes, maximum {}", e, len, c.tune.max_body);
                ctx.class("too-long");
            }
            (ev, Ok(d)) => {
                let b = read_body(d.res_body())?;
                viol!("no-error", "{:?}: success, with {} of {} bytes", ev, b.len(), len);
            }
            (ev, Err(e)) => {
                let fits = match ev {
                    Event::StallBefore | Event::StallHead(_) => matches!(e, FutioError::ResponseTimeout(t) if t == short),
                    Event::StallBody(_) | Event::Drip(_) => matches!(e, FutioError::BodyTimeout(t) if Some(t) == body_t) || over(&e)
                        || matches!(e, FutioError::ResponseTimeout(t) if Some(t) == res_t),
                    Event::CloseBody(_) => matches!(e, FutioError::Hyper(_)) || over(&e),
                    _ => matches!(e, FutioError::Hyper(_)),
                };
                ensure!(fits, "error-kind", "{:?}: {:?}", ev, e);
                ctx.class(format!("{:?}", ev).split('(').next().unwrap_or("").to_string());
            }
        }
        ensure!(sem.available_permits() == 1, "permit-leak", "permit not returned");
        ctx.class_if(c.fetch, "fetch");
        ctx.class(format!("{:?}-{:?}", kind, policy));
        ctx.nontrivial_if(event != Event::None || !data.is_empty() || !sent.is_empty());
        Ok(())
    }
}

/// The body of a simple exchange.
pub fn simple_fetch(data: &[u8], framing: Framing, writes: &[u16], image: body_image::Tunables) -> R<body_image::BodyImage> {
    policy_fetch(data, framing, writes, FutioTuner::new().set_image(image).finish())
}

/// Likewise, with the blocking policy of the tunables.
pub fn policy_fetch(data: &[u8], framing: Framing, writes: &[u16], tune: FutioTunables) -> R<body_image::BodyImage> {
    let mut served: Headers = vec![];
    let wire = match framing {
        Framing::Length => { served.push(("content-length".into(), data.len().to_string().into_bytes())); data.to_vec() }
        Framing::Chunked => { served.push(("transfer-encoding".into(), b"chunked".to_vec())); chunked(data, writes) }
        Framing::Close => data.to_vec(),
    };
    let l = listener()?;
    let url = format!("http://{}/", l.local_addr().h("address")?);
    let (tx, _rx) = mpsc::channel();
    let (dtx, drx) = mpsc::channel();
    let plan = Plan { head: head(false, 200, &served), body: wire, writes: writes.to_vec(), event: Event::None, close: framing == Framing::Close };
    let srv = std::thread::spawn(move || serve(l, plan, tx, drx));
    let res = {
        let rr = http::Request::builder().uri(&url).record();
        if let BlockingPolicy::Permit(_) = tune.blocking_policy() {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().h("runtime")?;
            rt.block_on(async { tokio::spawn(go::<hyper::Body>(rr, tune)).await }).v("panic", "client task")?
        } else {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().h("runtime")?;
            rt.block_on(go::<hyper::Body>(rr, tune))
        }
    };
    let _ = dtx.send(());
    srv.join().map_err(|_| Fail::Harness("server panic".into()))?;
    let (_, e) = res.v("exchange", "exchange")?.explode();
    Ok(e.res_body)
}
