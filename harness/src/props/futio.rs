//! Shared drivers for the asynchronous wrappers, and C17, C18, C23.

use std::io;
use std::path::Path;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use blocking_permit::{
    deregister_dispatch_pool, register_dispatch_pool, DispatchPool, DispatchPoolBuilder, Semaphore, Splittable,
};
use body_image::{BodyError, BodyImage, BodySink};
use body_image_futio::*;
use bytes::{Buf, Bytes};
use futures_core::stream::Stream;
use futures_sink::Sink;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;

// ------------------------------------------------------------- vocabulary

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum SK { Async, Split, Yield, Permit, Dispatch }

impl SK {
    pub fn name(self) -> &'static str {
        match self {
            SK::Async => "async", SK::Split => "split", SK::Yield => "yield",
            SK::Permit => "permit", SK::Dispatch => "dispatch",
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum BK { Bytes, Uni }

pub fn sk() -> impl Strategy<Value = SK> {
    prop::sample::select(vec![SK::Async, SK::Split, SK::Yield, SK::Permit, SK::Dispatch])
}

pub fn sink_kind() -> impl Strategy<Value = SK> {
    prop::sample::select(vec![SK::Async, SK::Permit, SK::Dispatch])
}

pub fn bk() -> impl Strategy<Value = BK> { prop::sample::select(vec![BK::Bytes, BK::Uni]) }

/// Threads and queue bound of a dispatch pool.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PoolSpec { pub size: u8, pub queue: Option<u8> }

impl PoolSpec {
    pub fn create(&self) -> DispatchPool {
        let mut b = pool_builder(self.size.max(1) as usize);
        if let Some(q) = self.queue { b.queue_length(q as usize); }
        b.create()
    }
}

/// Builder of a pool of threads which are known as such.
pub fn pool_builder(size: usize) -> DispatchPoolBuilder {
    let mut b = DispatchPool::builder();
    b.pool_size(size)
        .after_start(|_| {
            POOL_THREADS.fetch_add(1, Ordering::SeqCst);
            IS_POOL.with(|p| p.set(true));
        })
        .before_stop(|_| { POOL_THREADS.fetch_sub(1, Ordering::SeqCst); });
    b
}

static POOL_THREADS: AtomicUsize = AtomicUsize::new(0);

/// Waits until no thread of a pool of an earlier case is left: dropping a
/// pool does not wait for what it was still given to do.
pub fn quiesce() -> R {
    for i in 0..200_000u32 {
        if POOL_THREADS.load(Ordering::SeqCst) == 0 { return Ok(()); }
        if i < 100 { std::thread::yield_now(); } else { std::thread::sleep(std::time::Duration::from_micros(100)); }
    }
    Err(Fail::Harness("threads of an earlier pool are still there".into()))
}

thread_local!(pub static IS_POOL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

pub fn pool_spec() -> impl Strategy<Value = PoolSpec> {
    (1u8..3, prop_oneof![3 => Just(None), 1 => Just(Some(0u8)), 1 => Just(Some(1u8))])
        .prop_map(|(size, queue)| PoolSpec { size, queue })
}

/// Registers a pool on this thread for as long as it lives.
pub struct Registered(());

impl Registered {
    pub fn new(p: DispatchPool) -> Registered { register_dispatch_pool(p); Registered(()) }
}

impl Drop for Registered { fn drop(&mut self) { deregister_dispatch_pool(); } }

pub fn semaphore(n: usize) -> &'static Semaphore { Box::leak(Box::new(Semaphore::new(n))) }

// ------------------------------------------------------------- waking

/// A waker which counts, and can be waited for.
#[derive(Default)]
pub struct Flag { n: AtomicU64, m: Mutex<bool>, cv: Condvar }

impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.wake_by_ref() }
    fn wake_by_ref(self: &Arc<Self>) {
        self.n.fetch_add(1, Ordering::SeqCst);
        *self.m.lock().unwrap() = true;
        self.cv.notify_all();
    }
}

impl Flag {
    pub fn woken(&self) -> bool { *self.m.lock().unwrap() }
    /// Wait for, and consume, a wake-up.
    pub fn wait(&self, d: Duration) -> bool {
        let end = Instant::now() + d;
        let mut g = self.m.lock().unwrap();
        while !*g {
            let now = Instant::now();
            if now >= end { return false; }
            g = self.cv.wait_timeout(g, end - now).unwrap().0;
        }
        *g = false;
        true
    }
}

pub const WAKE_WAIT: Duration = Duration::from_secs(20);

/// Polls with wakers, either always the same or a new one each time. Only the
/// waker of the last poll is relied on.
pub struct Poller { fresh: bool, cur: Arc<Flag> }

impl Poller {
    pub fn new(fresh: bool) -> Poller { Poller { fresh, cur: Arc::new(Flag::default()) } }
    pub fn poll<T>(&mut self, mut f: impl FnMut(&mut Context<'_>) -> T) -> T {
        if self.fresh { self.cur = Arc::new(Flag::default()); }
        *self.cur.m.lock().unwrap() = false;
        let w: Waker = self.cur.clone().into();
        f(&mut Context::from_waker(&w))
    }
    pub fn woken(&self) -> bool { self.cur.woken() }
    pub fn wait(&self) -> bool { self.cur.wait(WAKE_WAIT) }
}

// ------------------------------------------------------------- streams

pub trait AnyStream: Send {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<io::Result<Vec<u8>>>>;
    fn hint(&self) -> Option<(u64, Option<u64>)>;
    fn ended(&self) -> Option<bool>;
    fn trailers(&mut self, cx: &mut Context<'_>) -> Option<bool>;
}

fn drain<B: Buf>(mut b: B) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.remaining());
    while b.has_remaining() {
        let n = b.chunk().len();
        v.extend_from_slice(b.chunk());
        b.advance(n);
    }
    v
}

struct Plain<S>(S);

impl<S, B> AnyStream for Plain<S>
    where S: Stream<Item = io::Result<B>> + Unpin + Send, B: Buf
{
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<io::Result<Vec<u8>>>> {
        Pin::new(&mut self.0).poll_next(cx).map(|o| o.map(|r| r.map(drain)))
    }
    fn hint(&self) -> Option<(u64, Option<u64>)> { None }
    fn ended(&self) -> Option<bool> { None }
    fn trailers(&mut self, _cx: &mut Context<'_>) -> Option<bool> { None }
}

struct Bodied<S> { s: S, as_body: bool }

impl<S, B> AnyStream for Bodied<S>
    where S: Stream<Item = io::Result<B>> + http_body::Body<Data = B, Error = io::Error> + Unpin + Send, B: Buf
{
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<io::Result<Vec<u8>>>> {
        if self.as_body {
            Pin::new(&mut self.s).poll_data(cx).map(|o| o.map(|r| r.map(drain)))
        } else {
            Pin::new(&mut self.s).poll_next(cx).map(|o| o.map(|r| r.map(drain)))
        }
    }
    fn hint(&self) -> Option<(u64, Option<u64>)> {
        let h = http_body::Body::size_hint(&self.s);
        Some((h.lower(), h.upper()))
    }
    fn ended(&self) -> Option<bool> { Some(http_body::Body::is_end_stream(&self.s)) }
    fn trailers(&mut self, cx: &mut Context<'_>) -> Option<bool> {
        Some(matches!(Pin::new(&mut self.s).poll_trailers(cx), Poll::Ready(Ok(None))))
    }
}

pub fn stream_of<B>(k: SK, body: BodyImage, tune: FutioTunables, as_body: bool) -> Box<dyn AnyStream>
    where B: OutputBuf + Splittable
{
    match k {
        SK::Async => Box::new(Bodied { s: <AsyncBodyImage<B> as StreamWrapper>::new(body, tune), as_body }),
        SK::Split => Box::new(Plain(<SplitBodyImage<B> as StreamWrapper>::new(body, tune))),
        SK::Yield => Box::new(Plain(<YieldBodyImage<B> as StreamWrapper>::new(body, tune))),
        SK::Permit => Box::new(Bodied { s: <PermitBodyImage<B> as StreamWrapper>::new(body, tune), as_body }),
        SK::Dispatch => Box::new(Bodied { s: <DispatchBodyImage<B> as StreamWrapper>::new(body, tune), as_body }),
    }
}

pub fn any_stream(k: SK, b: BK, body: BodyImage, tune: FutioTunables, as_body: bool) -> Box<dyn AnyStream> {
    match b {
        BK::Bytes => stream_of::<Bytes>(k, body, tune, as_body),
        BK::Uni => stream_of::<UniBodyBuf>(k, body, tune, as_body),
    }
}

// ------------------------------------------------------------- sinks

pub trait AnySink: Send {
    fn ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>>;
    fn send(&mut self, data: &[u8], form: Form, dir: &Path) -> R<Result<(), FutioError>>;
    fn flush(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>>;
    fn close(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>>;
    fn inner(self: Box<Self>) -> BodySink;
}

/// How an item's bytes are presented.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Form { Whole, Advanced(u8), Mapped(u8) }

pub fn form() -> impl Strategy<Value = Form> {
    prop_oneof![2 => Just(Form::Whole), 1 => (1u8..20).prop_map(Form::Advanced), 1 => (0u8..20).prop_map(Form::Mapped)]
}

/// A buffer over `data`, memory mapped if asked for.
pub fn uni(data: &[u8], form: Form, dir: &Path) -> R<UniBodyBuf> {
    let lead = match form { Form::Whole => 0, Form::Advanced(n) | Form::Mapped(n) => n as usize };
    let mut v = vec![b'!'; lead];
    v.extend_from_slice(data);
    let mut b: UniBodyBuf = match form {
        Form::Mapped(_) if !v.is_empty() && cfg!(feature = "full") => crate::interpose::muted(|| mapped(&v, dir))?,
        _ => Bytes::from(v).into(),
    };
    b.advance(lead);
    Ok(b)
}

/// The buffer of a stream over a memory mapped body.
pub fn mapped(v: &[u8], dir: &Path) -> R<UniBodyBuf> {
    let body = build_body(v, State::FsMap, &[], dir, 0)?;
    let mut s = AsyncBodyImage::<UniBodyBuf>::new(body, FutioTunables::default());
    let mut p = Poller::new(false);
    match p.poll(|cx| Pin::new(&mut s).poll_next(cx)) {
        Poll::Ready(Some(Ok(b))) => Ok(b),
        o => violation("mapped-stream", format!("stream over mapped body gave {:?}", o)),
    }
}

pub trait FromForm: Sized { fn from_form(data: &[u8], form: Form, dir: &Path) -> R<Self>; }

impl FromForm for Bytes {
    fn from_form(data: &[u8], form: Form, _dir: &Path) -> R<Bytes> {
        let lead = match form { Form::Whole => 0, Form::Advanced(n) | Form::Mapped(n) => n as usize };
        let mut v = vec![b'!'; lead];
        v.extend_from_slice(data);
        let mut b = Bytes::from(v);
        b.advance(lead);
        Ok(b)
    }
}

impl FromForm for UniBodyBuf {
    fn from_form(data: &[u8], form: Form, dir: &Path) -> R<UniBodyBuf> { uni(data, form, dir) }
}

struct Snk<S, B> { s: S, _b: std::marker::PhantomData<fn() -> B> }

impl<S, B> AnySink for Snk<S, B>
    where S: SinkWrapper<B> + Sink<B, Error = FutioError> + Unpin + Send, B: FromForm
{
    fn ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>> { Pin::new(&mut self.s).poll_ready(cx) }
    fn send(&mut self, data: &[u8], form: Form, dir: &Path) -> R<Result<(), FutioError>> {
        let b = B::from_form(data, form, dir)?;
        Ok(Pin::new(&mut self.s).start_send(b))
    }
    fn flush(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>> { Pin::new(&mut self.s).poll_flush(cx) }
    fn close(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>> { Pin::new(&mut self.s).poll_close(cx) }
    fn inner(self: Box<Self>) -> BodySink { self.s.into_inner() }
}

pub fn sink_of<B: InputBuf + FromForm>(k: SK, body: BodySink, tune: FutioTunables) -> Box<dyn AnySink> {
    let _b = std::marker::PhantomData;
    match k {
        SK::Permit => Box::new(Snk::<_, B> { s: <PermitBodySink<B> as SinkWrapper<B>>::new(body, tune), _b }),
        SK::Dispatch => Box::new(Snk::<_, B> { s: <DispatchBodySink<B> as SinkWrapper<B>>::new(body, tune), _b }),
        _ => Box::new(Snk::<_, B> { s: <AsyncBodySink<B> as SinkWrapper<B>>::new(body, tune), _b }),
    }
}

pub fn any_sink(k: SK, b: BK, body: BodySink, tune: FutioTunables) -> Box<dyn AnySink> {
    match b {
        BK::Bytes => sink_of::<Bytes>(k, body, tune),
        BK::Uni => sink_of::<UniBodyBuf>(k, body, tune),
    }
}

// ------------------------------------------------------------- driving

/// Schedule details of a driver: which polls happen while all permits are
/// taken, how many polls are made without a wake-up, and waker identity.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched { pub permits: u8, pub hold: Vec<bool>, pub spurious: Vec<u8>, pub fresh: bool }

pub fn sched() -> impl Strategy<Value = Sched> {
    (1u8..4, prop::collection::vec(any::<bool>(), 0..6), prop::collection::vec(0u8..3, 0..5), any::<bool>())
        .prop_map(|(permits, hold, spurious, fresh)| Sched { permits, hold, spurious, fresh })
}

/// Everything a wrapper of any kind needs to run.
pub struct Rig { pub sem: &'static Semaphore, _reg: Option<Registered>, n: usize, pub sched: Sched, pub poller: Poller,
                 pub pendings: u64, pub held: u64, kind: SK }

impl Rig {
    pub fn new(kind: SK, sched: &Sched, pool: &PoolSpec) -> Rig {
        Rig {
            sem: semaphore(sched.permits.max(1) as usize),
            _reg: if kind == SK::Dispatch { Some(Registered::new(pool.create())) } else { None },
            n: 0, sched: sched.clone(), poller: Poller::new(sched.fresh), pendings: 0, held: 0, kind,
        }
    }
    pub fn tune(&self, image: body_image::Tunables, item: usize) -> FutioTunables {
        let mut t = FutioTuner::new();
        t.set_image(image).set_stream_item_size(item.max(1));
        match self.kind {
            SK::Permit => { t.set_blocking_policy(BlockingPolicy::Permit(self.sem)); }
            SK::Dispatch => { t.set_blocking_policy(BlockingPolicy::Dispatch); }
            _ => {}
        }
        t.finish()
    }

    /// Poll until ready. Checks that each pending result is followed by a
    /// wake-up of the last waker.
    pub fn drive<T>(&mut self, what: &str, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> R<T> {
        let i = self.n;
        self.n += 1;
        let hold = self.kind == SK::Permit && !self.sched.hold.is_empty()
            && self.sched.hold[i % self.sched.hold.len()];
        let mut taken = vec![];
        if hold {
            while let Ok(p) = self.sem.try_acquire() { taken.push(p); }
        }
        let mut spur = if self.sched.spurious.is_empty() { 0 } else { self.sched.spurious[i % self.sched.spurious.len()] };
        let mut rounds = 0u32;
        loop {
            rounds += 1;
            ensure!(rounds < 10_000, "pending-forever", "{}: pending {} times", what, rounds);
            match self.poller.poll(&mut f) {
                Poll::Ready(v) => return Ok(v),
                Poll::Pending => {
                    self.pendings += 1;
                    if spur > 0 { spur -= 1; continue; }
                    if !taken.is_empty() {
                        self.held += 1;
                        taken.clear();
                    }
                    if !self.poller.wait() {
                        let again = self.poller.poll(&mut f).is_ready();
                        viol!("no-wake", "{}: pending was not followed by a wake-up within {:?}; polled again: {}",
                              what, WAKE_WAIT, if again { "ready" } else { "pending" });
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C17Case {
    kind: SK, buf: BK, body: BodySpec, buf_fs: u32, item: u32, pool: PoolSpec, sched: Sched, as_body: bool,
    gather: bool, shared: bool,
}

pub struct C17;

/// A size at or around an integral part of a length, or any size.
fn size_for(len: u32) -> BoxedStrategy<u32> {
    let lo = (len / 150).max(1);
    prop_oneof![
        50 => (1u32..8, -2i64..3).prop_map(move |(k, d)| ((len as i64 / k as i64 + d).max(lo as i64)) as u32),
        50 => lo..lo + 40,
        1 => (len / 1500).max(1)..(len / 500).max(1) + 1,
        25 => lo..(2 * len + 100).max(lo + 1),
        25 => prop::sample::select(vec![64u32, 1024, 4096, 8192, 65536]).prop_map(move |x| x.max(lo)),
    ].boxed()
}

impl Prop for C17 {
    type Case = C17Case;
    fn id(&self) -> &'static str { "C17" }
    fn rule(&self) -> &'static str {
        "the body is not empty and is delivered in two or more items, or from a mapping, or after at least one pending result"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the body's file is not changed by others while it is streamed",
             "no poll after the end of the stream",
             "a wake-up arriving within 20 s counts as arriving"]
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<C17Case> {
        let max = tier.pick(40_000, 300_000);
        body_or_big(max, 500).prop_flat_map(|body| {
            let n = body.blob.len;
            (Just(body), sk(), bk(), size_for(n), size_for(n), pool_spec(), sched(), any::<bool>(),
             prop::bool::weighted(0.2), prop::bool::weighted(0.2))
        }).prop_map(|(body, kind, buf, buf_fs, item, pool, sched, as_body, gather, shared)|
            C17Case { kind, buf, body, buf_fs, item, pool, sched, as_body, gather, shared }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(400_000, 1_500_000) }
    fn run(&self, c: &C17Case, ctx: &mut Ctx) -> R {
        quiesce()?;
        let data = c.body.blob.bytes();
        let mut body = c.body.build(&ctx.dir)?;
        if c.gather { body.gather(); }
        let mut rig = Rig::new(c.kind, &c.sched, &c.pool);
        let mut t = body_image::Tuner::new();
        t.set_buffer_size_fs(c.buf_fs.max(1) as usize).set_temp_dir(&ctx.dir);
        let tune = rig.tune(t.finish(), c.item as usize);
        let keep = if c.shared { Some(body.clone()) } else { None };
        let st = c.body.state;
        let mut s = any_stream(c.kind, c.buf, body, tune, c.as_body);
        if let Some((lo, hi)) = s.hint() {
            ensure!(lo == data.len() as u64 && hi == Some(lo), "size-hint",
                    "size hint ({}, {:?}) for body of {}", lo, hi, data.len());
        }
        let mut got = Vec::new();
        let mut items = 0u64;
        loop {
            if let Some(e) = s.ended() {
                ensure!(e == (got.len() == data.len()), "end-flag",
                        "is_end_stream {} with {} of {} delivered", e, got.len(), data.len());
            }
            let mut early = false;
            let next = rig.drive("poll_next", |cx| {
                let p = s.poll(cx);
                early |= p.is_pending() && got.len() < data.len() && s.ended() == Some(true);
                p
            })?;
            ensure!(!early, "end-flag-pending", "is_end_stream while pending with {} of {} delivered", got.len(), data.len());
            match next {
                Some(Ok(v)) => {
                    items += 1;
                    ensure!(!v.is_empty(), "empty-item", "empty item after {} of {}", got.len(), data.len());
                    if c.kind == SK::Split {
                        ensure!(v.len() <= c.item as usize, "long-item", "item of {} with maximum {}", v.len(), c.item);
                    }
                    if !st.is_ram() && !st.is_map() {
                        ensure!(v.len() <= c.buf_fs as usize, "long-read", "item of {} with buffer {}", v.len(), c.buf_fs);
                    }
                    got.extend_from_slice(&v);
                    ensure!(got.len() <= data.len(), "overrun", "{} of {} delivered", got.len(), data.len());
                }
                Some(Err(e)) => viol!("stream-error", "stream error {:?}", e),
                None => break,
            }
        }
        ensure!(got == data, "content", "{}", diff(&data, &got));
        if let Some(e) = s.ended() { ensure!(e, "end-flag-end", "is_end_stream false at the end"); }
        if let Some(t) = rig.poller.poll(|cx| s.trailers(cx)) { ensure!(t, "trailers", "unexpected trailers"); }
        if let Some(k) = keep {
            ensure!(read_body(&k)? == data, "clone-changed", "clone kept beside the stream changed");
        }
        drop(s);
        ensure!(rig.sem.available_permits() == c.sched.permits.max(1) as usize, "permit-leak", "permits not returned");
        ctx.class(format!("kind-{}", c.kind.name()));
        ctx.class(format!("state-{}", st.name()));
        ctx.class_if(rig.held > 0, "waited-for-permit");
        ctx.class_if(c.kind == SK::Split && items > 1, "split");
        ctx.class_if(items > 10, "items>10");
        ctx.nontrivial_if(!data.is_empty() && (items > 1 || st.is_map() || rig.pendings > 0));
        Ok(())
    }
}

// ------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op18 { Item { len: Len, fill: Fill, seed: u16, form: Form }, Flush }

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Start { Ram, RamBuffers, Fs, Empty, Prefilled(u16), PrefilledFs(u16) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C18Case {
    kind: SK, buf: BK, tune: TuneSpec, start: Start, ops: Vec<Op18>, close: bool, pool: PoolSpec, sched: Sched,
}

pub fn start() -> impl Strategy<Value = Start> {
    prop_oneof![
        4 => Just(Start::Ram), 2 => Just(Start::RamBuffers), 2 => Just(Start::Fs), 1 => Just(Start::Empty),
        1 => (0u16..3000).prop_map(Start::Prefilled), 1 => (0u16..3000).prop_map(Start::PrefilledFs),
    ]
}

impl Start {
    /// The sink and the content it already has.
    pub fn sink(self, dir: &Path) -> R<(BodySink, Vec<u8>)> {
        let sg = "start-sink";
        Ok(match self {
            Start::Ram => (BodySink::with_ram(1000), vec![]),
            Start::RamBuffers => (BodySink::with_ram_buffers(1), vec![]),
            Start::Empty => (BodySink::empty(), vec![]),
            Start::Fs => (BodySink::with_fs(dir).v(sg, "with_fs")?, vec![]),
            Start::Prefilled(n) | Start::PrefilledFs(n) => {
                let d = fill_bytes(n as usize, &Fill::Counter, 77);
                let mut s = if matches!(self, Start::PrefilledFs(_)) {
                    BodySink::with_fs(dir).v(sg, "with_fs")?
                } else { BodySink::with_ram(10) };
                s.push(d.clone()).v(sg, "push")?;
                (s, d)
            }
        })
    }
    pub fn is_fs(self) -> bool { matches!(self, Start::Fs | Start::PrefilledFs(_)) }
}

/// Item length such that a sum comes out near a limit: `Ram`/`Max` are
/// relative to what is still missing.
pub fn item_len(l: &Len, t: &TuneSpec, have: u64) -> u64 {
    match l {
        Len::Ram(d) => (t.max_ram as i64 - have as i64 + *d as i64).clamp(0, 300_000) as u64,
        Len::Max(d) => {
            let room = t.max_body as i64 - have as i64;
            if room > 200_000 { (*d as i64).unsigned_abs() } else { (room + *d as i64).clamp(0, 300_000) as u64 }
        }
        l => l.of(t).min(300_000),
    }
}

fn near() -> impl Strategy<Value = i16> { prop_oneof![4 => -1i16..2, 1 => -40i16..41] }

pub fn item_op(form_s: BoxedStrategy<Form>) -> impl Strategy<Value = Op18> {
    let len = prop_oneof![
        1 => Just(Len::Abs(0)),
        5 => len_abs(3000).prop_map(Len::Abs),
        2 => near().prop_map(Len::Ram),
        1 => near().prop_map(Len::Max),
    ];
    (len, fill(), any::<u16>(), form_s).prop_map(|(len, fill, seed, form)| Op18::Item { len, fill, seed, form })
}

pub struct C18;

impl Prop for C18 {
    type Case = C18Case;
    fn id(&self) -> &'static str { "C18" }
    fn rule(&self) -> &'static str {
        "at least two non-empty items were sent and a threshold or limit was reached, or an operation was pending"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the sink is not used any more after it gave an error",
             "a wake-up arriving within 20 s counts as arriving"]
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<C18Case> {
        let ops = prop::collection::vec(
            prop_oneof![5 => item_op(form().boxed()), 1 => Just(Op18::Flush)], 0..tier.pick(12, 40));
        let small = (prop_oneof![1 => Just(0u32), 4 => 1u32..40], any::<u16>(), form())
            .prop_map(|(n, seed, form)| Op18::Item { len: Len::Abs(n), fill: Fill::Counter, seed, form });
        let many = prop::collection::vec(prop_oneof![50 => small, 1 => Just(Op18::Flush)], 250..700);
        (sink_kind(), bk(), tune(), start(), prop_oneof![200 => ops, 1 => many], any::<bool>(), pool_spec(), sched())
            .prop_map(|(kind, buf, tune, start, ops, close, pool, sched)|
                C18Case { kind, buf, tune, start, ops, close, pool, sched }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(150_000, 1_500_000) }
    fn run(&self, c: &C18Case, ctx: &mut Ctx) -> R {
        quiesce()?;
        let mut rig = Rig::new(c.kind, &c.sched, &c.pool);
        let tune = rig.tune(c.tune.tunables(&ctx.dir), 1000);
        let (sink, mut model) = c.start.sink(&ctx.dir)?;
        let mut fs = c.start.is_fs();
        let mut s = any_sink(c.kind, c.buf, sink, tune);
        let dir = ctx.subdir("m")?;
        let mut items = 0;
        // Expected too-long error of the item last sent
        let mut over: Option<u64> = None;
        let check = |r: Result<(), FutioError>, over: Option<u64>, what: &str| -> R<bool> {
            match (r, over) {
                (Ok(()), None) => Ok(false),
                (Ok(()), Some(n)) => violation("limit-missed", format!("{} succeeded with {} over the limit", what, n)),
                (Err(FutioError::Body(BodyError::BodyTooLong(m))), Some(n)) => {
                    ensure!(m == n, "too-long-value", "{}: too long reported as {}, is {}", what, m, n);
                    Ok(true)
                }
                (Err(e), o) => violation("sink-error", format!("{} gave {:?}, expected too long {:?}", what, e, o)),
            }
        };
        let mut stopped = false;
        for o in &c.ops {
            match o {
                Op18::Item { len, fill, seed, form } => {
                    let r = rig.drive("poll_ready", |cx| s.ready(cx))?;
                    if check(r, over, "poll_ready")? { stopped = true; break; }
                    let n = item_len(len, &c.tune, model.len() as u64);
                    let d = fill_bytes(n as usize, fill, *seed as u64);
                    let r = s.send(&d, *form, &dir)?;
                    // An error may be given with the item itself or later
                    let total = model.len() as u64 + n;
                    if n > 0 {
                        items += 1;
                        if total > c.tune.max_body { over = Some(total); }
                        else { model.extend_from_slice(&d); if total > c.tune.max_ram { fs = true; } }
                    }
                    if r.is_err() {
                        if check(r, over, "start_send")? { stopped = true; break; }
                    }
                }
                Op18::Flush => {
                    let r = rig.drive("poll_flush", |cx| s.flush(cx))?;
                    if check(r, over, "poll_flush")? { stopped = true; break; }
                }
            }
        }
        if !stopped {
            let r = if c.close { rig.drive("poll_close", |cx| s.close(cx))? } else { rig.drive("poll_flush", |cx| s.flush(cx))? };
            stopped = check(r, over, "last flush")?;
        }
        ctx.class(format!("kind-{}", c.kind.name()));
        if stopped {
            ctx.class("too-long");
        } else {
            let b = s.inner();
            ensure!(b.len() == model.len() as u64, "sink-len", "sink len {}, {} sent", b.len(), model.len());
            ensure!(b.is_ram() != fs, "threshold", "sink in RAM: {}, expected file: {} (len {}, limit {})",
                    b.is_ram(), fs, model.len(), c.tune.max_ram);
            let img = b.prepare().v("prepare", "prepare")?;
            let got = read_body(&img)?;
            ensure!(got == model, "content", "{}", diff(&model, &got));
            ctx.class(if fs { "in-file" } else { "in-ram" });
            ctx.class_if(fs && !c.start.is_fs(), "written-back");
            ctx.class_if(model.len() as u64 == c.tune.max_ram && !fs, "exactly-max-ram");
            ctx.class_if(model.len() as u64 == c.tune.max_body, "exactly-max-body");
        }
        ensure!(rig.sem.available_permits() == c.sched.permits.max(1) as usize, "permit-leak", "permits not returned");
        ctx.class_if(rig.held > 0, "waited-for-permit");
        ctx.nontrivial_if(items > 1 && (fs || stopped || rig.pendings > 0));
        Ok(())
    }
}

// ------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op23 { Advance(u16), Split(u16), CopyBytes(u16), CopySlice(u16), Get, Over(u16), IntoBytes, Swap, Roundtrip }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C23Case { body: BodySpec, item: Option<u16>, ops: Vec<Op23> }

pub struct C23;

struct Part { b: UniBodyBuf, start: usize, end: usize }

impl C23 {
    fn look(p: &Part, data: &[u8]) -> R {
        let want = &data[p.start..p.end];
        ensure!(p.b.remaining() == want.len(), "remaining", "remaining {} of {}..{}", p.b.remaining(), p.start, p.end);
        ensure!(p.b.has_remaining() == !want.is_empty(), "has-remaining", "has_remaining {}", p.b.has_remaining());
        let chunk = p.b.chunk();
        ensure!(want.starts_with(chunk) && (want.is_empty() || !chunk.is_empty()), "chunk",
                "chunk of {} bytes is not the start of {}..{}", chunk.len(), p.start, p.end);
        ensure!(p.b.as_ref() == want, "as-ref", "as_ref: {}", diff(want, p.b.as_ref()));
        ensure!(&p.b[..] == want, "deref", "deref: {}", diff(want, &p.b));
        let mut iov = [io::IoSlice::new(&[]), io::IoSlice::new(&[])];
        let n = p.b.chunks_vectored(&mut iov);
        let tot: usize = iov[..n].iter().map(|s| s.len()).sum();
        ensure!(tot <= want.len() && (want.is_empty() || tot > 0), "vectored", "vectored {} of {}", tot, want.len());
        let cat: Vec<u8> = iov[..n].iter().flat_map(|s| s.to_vec()).collect();
        ensure!(want.starts_with(&cat), "vectored-content", "vectored content differs");
        Ok(())
    }
}

impl Prop for C23 {
    type Case = C23Case;
    fn id(&self) -> &'static str { "C23" }
    fn rule(&self) -> &'static str { "at least one advance and one split applied to the same non-empty buffer" }
    fn assumptions(&self) -> Vec<&'static str> { vec!["splits are asked for with a maximum of at least one byte"] }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<C23Case> {
        let n = || prop_oneof![3 => 0u16..8, 2 => 0u16..300, 1 => any::<u16>()];
        let op = prop_oneof![
            5 => n().prop_map(Op23::Advance), 5 => n().prop_map(Op23::Split), 1 => n().prop_map(Op23::CopyBytes),
            1 => n().prop_map(Op23::CopySlice), 1 => Just(Op23::Get), 1 => n().prop_map(Op23::Over),
            1 => Just(Op23::IntoBytes), 2 => Just(Op23::Swap), 1 => Just(Op23::Roundtrip),
        ];
        (body_or_big(tier.pick(6000, 60_000), 500), prop::option::of(1u16..500),
         prop::collection::vec(op, 1..tier.pick(14, 50)))
            .prop_map(|(body, item, ops)| C23Case { body, item, ops }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(400_000, 4_000_000) }
    fn run(&self, c: &C23Case, ctx: &mut Ctx) -> R {
        let whole = c.body.blob.bytes();
        let body = c.body.build(&ctx.dir)?;
        let mut ft = FutioTuner::new();
        if let Some(i) = c.item { ft.set_stream_item_size((i as usize).max(whole.len() / 60 + 1)); }
        let mut bufs: Vec<UniBodyBuf> = vec![];
        {
            let mut p = Poller::new(false);
            let mut s: Pin<Box<dyn Stream<Item = io::Result<UniBodyBuf>>>> = if c.item.is_some() {
                Box::pin(<SplitBodyImage<UniBodyBuf> as StreamWrapper>::new(body, ft.finish()))
            } else {
                Box::pin(AsyncBodyImage::<UniBodyBuf>::new(body, ft.finish()))
            };
            loop {
                match p.poll(|cx| s.as_mut().poll_next(cx)) {
                    Poll::Pending => ensure!(p.wait(), "no-wake", "pending without wake-up"),
                    Poll::Ready(Some(r)) => bufs.push(r.v("stream-error", "stream")?),
                    Poll::Ready(None) => break,
                }
            }
        }
        let mut pos = 0;
        let mut parts: Vec<Part> = vec![];
        for b in bufs {
            let end = pos + b.remaining();
            ensure!(end <= whole.len(), "overrun", "stream gave more than the body");
            parts.push(Part { b, start: pos, end });
            pos = end;
        }
        ensure!(pos == whole.len(), "short", "stream gave {} of {}", pos, whole.len());
        if parts.is_empty() {
            parts.push(Part { b: Bytes::new().into(), start: 0, end: 0 });
        }
        let (mut adv, mut split) = (vec![false; 1], vec![false; 1]);
        let mut both = false;
        let mut cur = 0usize;
        let mut out: Vec<(usize, Vec<u8>)> = vec![];
        adv.resize(parts.len(), false);
        split.resize(parts.len(), false);
        for o in &c.ops {
            if parts.is_empty() { break; }
            cur %= parts.len();
            let rem = parts[cur].end - parts[cur].start;
            match o {
                Op23::Advance(n) => {
                    let n = *n as usize % (rem + 1);
                    parts[cur].b.advance(n);
                    parts[cur].start += n;
                    if n > 0 { adv[cur] = true; }
                }
                Op23::Split(n) => {
                    let n = (*n as usize % (rem + 2)).max(1);
                    match parts[cur].b.split_if(n) {
                        Some(h) => {
                            ensure!(rem > n, "split-needless", "split at {} of {}", n, rem);
                            let st = parts[cur].start;
                            parts[cur].start += n;
                            split[cur] = true;
                            parts.push(Part { b: h, start: st, end: st + n });
                            adv.push(adv[cur]);
                            split.push(true);
                            Self::look(parts.last().unwrap(), &whole)?;
                        }
                        None => ensure!(rem <= n, "split-refused", "no split at {} of {}", n, rem),
                    }
                }
                Op23::CopyBytes(n) => {
                    let n = *n as usize % (rem + 1);
                    let b = parts[cur].b.copy_to_bytes(n);
                    let st = parts[cur].start;
                    ensure!(b == whole[st..st + n], "copy-to-bytes", "copied bytes differ");
                    parts[cur].start += n;
                }
                Op23::CopySlice(n) => {
                    let n = *n as usize % (rem + 1);
                    let mut v = vec![0; n];
                    parts[cur].b.copy_to_slice(&mut v);
                    let st = parts[cur].start;
                    ensure!(v == whole[st..st + n], "copy-to-slice", "copied slice differs");
                    parts[cur].start += n;
                }
                Op23::Get => if rem > 0 {
                    let x = parts[cur].b.get_u8();
                    ensure!(x == whole[parts[cur].start], "get", "get_u8 differs");
                    parts[cur].start += 1;
                },
                Op23::Over(n) => {
                    let n = rem + 1 + *n as usize;
                    let r = catch(|| parts[cur].b.advance(n));
                    ensure!(r.is_err(), "advance-past-end", "advance by {} of {} accepted", n, rem);
                    ctx.class("over-advance");
                }
                Op23::IntoBytes => {
                    let p = parts.remove(cur);
                    adv.remove(cur);
                    split.remove(cur);
                    let b: Bytes = p.b.into();
                    ensure!(b == whole[p.start..p.end], "into-bytes", "{}", diff(&whole[p.start..p.end], &b));
                    out.push((p.start, b.to_vec()));
                    ctx.class_if(p.start > 0, "into-bytes-inner");
                }
                Op23::Swap => cur += 1,
                Op23::Roundtrip => {
                    // Through Bytes and back
                    let p = &mut parts[cur];
                    let b: Bytes = std::mem::replace(&mut p.b, Bytes::new().into()).into();
                    p.b = b.into();
                }
            }
            for p in &parts { Self::look(p, &whole)?; }
            if let (Some(true), Some(true)) = (adv.get(cur), split.get(cur)) { both = true; }
        }
        // What is left converts exactly
        for p in parts {
            let b: Bytes = p.b.into();
            ensure!(b == whole[p.start..p.end], "into-bytes", "{}", diff(&whole[p.start..p.end], &b));
        }
        ctx.class(format!("state-{}", c.body.state.name()));
        ctx.nontrivial_if(both);
        Ok(())
    }
}
