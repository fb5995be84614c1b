//! C26: forwarding streams into sinks on runtimes.

use std::future::Future;
use std::pin::Pin;

use blocking_permit::{deregister_dispatch_pool, register_dispatch_pool, DispatchPool};
use body_image::{BodyImage, BodySink};
use body_image_futio::*;
use bytes::Bytes;
use futures_util::stream::{FuturesUnordered, StreamExt, TryStreamExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;
use super::futio::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Transfer { st: SK, sk: SK, sb: BK, kb: BK, body: BodySpec, buf_fs: u16, item: u16, start: Start, max_ram: u32, chain: bool }

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rt { Current, Multi(u8) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C26Case { rt: Rt, spawn: bool, permits: u8, pool: PoolSpec, transfers: Vec<Transfer> }

pub struct C26;

type Fut = Pin<Box<dyn Future<Output = Result<BodySink, FutioError>> + Send>>;

fn fwd<St, Sk, A, B>(body: BodyImage, sink: BodySink, stt: FutioTunables, skt: FutioTunables) -> Fut
    where St: StreamWrapper + futures_core::stream::Stream<Item = Result<A, std::io::Error>> + Send + 'static,
          Sk: SinkWrapper<B> + futures_sink::Sink<B, Error = FutioError> + Unpin + Send + 'static,
          A: Send + 'static, B: Conv<A> + Send + 'static,
{
    let st = St::new(body, stt);
    Box::pin(async move {
        let mut sk = Sk::new(sink, skt);
        st.err_into::<FutioError>().map_ok(B::conv).forward(&mut sk).await?;
        Ok(sk.into_inner())
    })
}

trait Conv<A> { fn conv(a: A) -> Self; }
impl Conv<Bytes> for Bytes { fn conv(a: Bytes) -> Bytes { a } }
impl Conv<UniBodyBuf> for Bytes { fn conv(a: UniBodyBuf) -> Bytes { a.into() } }
impl Conv<Bytes> for UniBodyBuf { fn conv(a: Bytes) -> UniBodyBuf { a.into() } }
impl Conv<UniBodyBuf> for UniBodyBuf { fn conv(a: UniBodyBuf) -> UniBodyBuf { a } }

fn with_sink<St, A>(t: &Transfer, sk: SK, body: BodyImage, sink: BodySink, a: FutioTunables, b: FutioTunables) -> Fut
    where St: StreamWrapper + futures_core::stream::Stream<Item = Result<A, std::io::Error>> + Send + 'static,
          A: Send + 'static, Bytes: Conv<A>, UniBodyBuf: Conv<A>,
{
    match (sk, t.kb) {
        (SK::Permit, BK::Bytes) => fwd::<St, PermitBodySink<Bytes>, A, Bytes>(body, sink, a, b),
        (SK::Permit, BK::Uni) => fwd::<St, PermitBodySink<UniBodyBuf>, A, UniBodyBuf>(body, sink, a, b),
        (SK::Dispatch, BK::Bytes) => fwd::<St, DispatchBodySink<Bytes>, A, Bytes>(body, sink, a, b),
        (SK::Dispatch, BK::Uni) => fwd::<St, DispatchBodySink<UniBodyBuf>, A, UniBodyBuf>(body, sink, a, b),
        (_, BK::Bytes) => fwd::<St, AsyncBodySink<Bytes>, A, Bytes>(body, sink, a, b),
        (_, BK::Uni) => fwd::<St, AsyncBodySink<UniBodyBuf>, A, UniBodyBuf>(body, sink, a, b),
    }
}

fn transfer(t: &Transfer, st: SK, sk: SK, body: BodyImage, sink: BodySink, a: FutioTunables, b: FutioTunables) -> Fut {
    match (st, t.sb) {
        (SK::Async, BK::Bytes) => with_sink::<AsyncBodyImage<Bytes>, _>(t, sk, body, sink, a, b),
        (SK::Async, BK::Uni) => with_sink::<AsyncBodyImage<UniBodyBuf>, _>(t, sk, body, sink, a, b),
        (SK::Split, BK::Bytes) => with_sink::<SplitBodyImage<Bytes>, _>(t, sk, body, sink, a, b),
        (SK::Split, BK::Uni) => with_sink::<SplitBodyImage<UniBodyBuf>, _>(t, sk, body, sink, a, b),
        (SK::Yield, BK::Bytes) => with_sink::<YieldBodyImage<Bytes>, _>(t, sk, body, sink, a, b),
        (SK::Yield, BK::Uni) => with_sink::<YieldBodyImage<UniBodyBuf>, _>(t, sk, body, sink, a, b),
        (SK::Permit, BK::Bytes) => with_sink::<PermitBodyImage<Bytes>, _>(t, sk, body, sink, a, b),
        (SK::Permit, BK::Uni) => with_sink::<PermitBodyImage<UniBodyBuf>, _>(t, sk, body, sink, a, b),
        (SK::Dispatch, BK::Bytes) => with_sink::<DispatchBodyImage<Bytes>, _>(t, sk, body, sink, a, b),
        (SK::Dispatch, BK::Uni) => with_sink::<DispatchBodyImage<UniBodyBuf>, _>(t, sk, body, sink, a, b),
    }
}

fn one() -> impl Strategy<Value = Transfer> {
    (sk(), sink_kind(), bk(), bk(), body_or_big(20_000, 300), 1u16..5000, 1u16..5000, start(),
     prop_oneof![1 => Just(0u32), 3 => 0u32..5000, 1 => Just(100_000u32)], prop::bool::weighted(0.2))
        .prop_map(|(st, sk, sb, kb, body, b, i, start, max_ram, chain)| {
            let lo = (body.blob.len / 60 + 1) as u16;
            Transfer { st, sk, sb, kb, body, buf_fs: b.max(lo), item: i.max(lo), start, max_ram, chain }
        })
}

impl Prop for C26 {
    type Case = C26Case;
    fn id(&self) -> &'static str { "C26" }
    fn rule(&self) -> &'static str { "two or more concurrent transfers, at least one of them using a permit or the pool" }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["permit wrappers are run on multi-thread runtimes only: blocking in place is refused by the current-thread runtime",
             "a case running over 60 s, repeatedly and alone, does not complete"]
    }
    fn termination(&self) -> bool { true }
    fn hang_secs(&self) -> u64 { 60 }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<C26Case> {
        (prop_oneof![1 => Just(Rt::Current), 2 => (1u8..4).prop_map(Rt::Multi)], any::<bool>(), 1u8..4, pool_spec(),
         prop_oneof![50 => prop::collection::vec(one(), 1..3), 1 => prop::collection::vec(one(), 20..50), 150 => prop::collection::vec(one(), 2..tier.pick(9, 30))])
            .prop_map(|(rt, spawn, permits, pool, transfers)| C26Case { rt, spawn, permits, pool, transfers }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(24_000, 240_000) }
    fn run(&self, c: &C26Case, ctx: &mut Ctx) -> R {
        let sem = semaphore(c.permits.max(1) as usize);
        let pool: DispatchPool = c.pool.create();
        let mut futs = vec![];
        let mut want = vec![];
        let mut shared = false;
        for t in &c.transfers {
            // Blocking in place is for multi-thread runtimes
            let fix = |k: SK| if k == SK::Permit && c.rt == Rt::Current { SK::Dispatch } else { k };
            let (st, sk) = (fix(t.st), fix(t.sk));
            let tune = |k: SK, max_ram: u64| {
                let mut i = body_image::Tuner::new();
                i.set_buffer_size_fs(t.buf_fs as usize).set_temp_dir(&ctx.dir).set_max_body_ram(max_ram).set_max_body(1 << 30);
                let mut f = FutioTuner::new();
                f.set_image(i.finish()).set_stream_item_size(t.item as usize);
                match k {
                    SK::Permit => { f.set_blocking_policy(BlockingPolicy::Permit(sem)); }
                    SK::Dispatch => { f.set_blocking_policy(BlockingPolicy::Dispatch); }
                    _ => {}
                }
                f.finish()
            };
            let body = t.body.build(&ctx.dir)?;
            let (sink, pre) = t.start.sink(&ctx.dir)?;
            let mut w = pre;
            w.extend_from_slice(&t.body.blob.bytes());
            let first = transfer(t, st, sk, body, sink, tune(st, 1 << 20), tune(sk, t.max_ram as u64));
            let fut: Fut = if t.chain {
                // On from the first destination to another one
                let t2 = t.clone();
                let (a, b) = (tune(st, 1 << 20), tune(sk, 1 << 20));
                Box::pin(async move {
                    let img = first.await?.prepare()?;
                    transfer(&t2, st, sk, img, BodySink::with_ram(0), a, b).await
                })
            } else { first };
            futs.push(fut);
            want.push((w, t.chain));
            shared |= matches!(st, SK::Permit | SK::Dispatch) || matches!(sk, SK::Permit | SK::Dispatch);
            ctx.class(format!("{}-to-{}", st.name(), sk.name()));
        }
        let n = futs.len();
        let run = |rt: tokio::runtime::Runtime, futs: Vec<Fut>| -> R<Vec<Result<BodySink, FutioError>>> {
            if c.spawn {
                let hs: Vec<_> = futs.into_iter().map(|f| rt.spawn(f)).collect();
                let mut out = vec![];
                for h in hs {
                    match rt.block_on(h) {
                        Ok(r) => out.push(r),
                        Err(_) => return violation("task-panic", "panic in a transfer"),
                    }
                }
                Ok(out)
            } else {
                let mut fu: FuturesUnordered<_> = futs.into_iter().enumerate().map(|(i, f)| async move { (i, f.await) }).collect();
                let mut v: Vec<(usize, _)> = rt.block_on(async move {
                    let mut v = vec![];
                    while let Some(x) = fu.next().await { v.push(x); }
                    v
                });
                v.sort_by_key(|x| x.0);
                Ok(v.into_iter().map(|x| x.1).collect())
            }
        };
        register_dispatch_pool(pool.clone());
        struct G;
        impl Drop for G { fn drop(&mut self) { deregister_dispatch_pool(); } }
        let _g = G;
        let out = match c.rt {
            Rt::Current => run(tokio::runtime::Builder::new_current_thread().build().h("runtime")?, futs)?,
            Rt::Multi(w) => run(tokio::runtime::Builder::new_multi_thread().worker_threads(w.max(1) as usize)
                .on_thread_start(move || { register_dispatch_pool(pool.clone()); })
                .on_thread_stop(|| { deregister_dispatch_pool(); })
                .build().h("runtime")?, futs)?,
        };
        ensure!(out.len() == n, "count", "{} of {} transfers finished", out.len(), n);
        for (i, (r, (w, chain))) in out.into_iter().zip(want).enumerate() {
            let s = r.v("forward-error", &format!("transfer {}", i))?;
            let t = &c.transfers[i];
            if !chain && t.body.blob.len > 0 {
                let fs = t.start.is_fs() || w.len() as u64 > t.max_ram as u64;
                ensure!(s.is_ram() != fs, "threshold", "transfer {}: {} bytes in RAM: {}", i, w.len(), s.is_ram());
            }
            let img = s.prepare().v("prepare", "prepare")?;
            let got = read_body(&img)?;
            ensure!(got == w, "content", "transfer {}: {}", i, diff(&w, &got));
        }
        ensure!(sem.available_permits() == c.permits.max(1) as usize, "permit-leak", "permits not returned");
        ctx.class(match c.rt { Rt::Current => "current-thread", Rt::Multi(_) => "multi-thread" });
        ctx.class_if(c.spawn, "spawned");
        ctx.nontrivial_if(n > 1 && shared);
        Ok(())
    }
}
