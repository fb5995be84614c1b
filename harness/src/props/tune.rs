//! C07: configuration builders.

use std::path::{Path, PathBuf};
use std::time::Duration;

use blocking_permit::{Semaphore, Semaphorish};
use body_image::{Tunables, Tuner};
use body_image_futio::{BlockingPolicy, FutioTunables, FutioTuner};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    MaxRam(u64), Max(u64), BufRam(u64), BufFs(u64), Deflate(u16), Gzip(u16), Brotli(u16), Temp(String),
    Finish,
    // futio
    ItemSize(u64), ResTimeout(u64), NoRes, BodyTimeout(u64), NoBody, Policy(u8), SetImage, FFinish,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C07Case { ops: Vec<TOp> }

pub struct C07;

#[derive(Clone, Debug, PartialEq)]
struct Model { max_ram: u64, max: u64, br: usize, bf: usize, d: u16, g: u16, b: u16, tmp: PathBuf }

#[derive(Clone, Debug, PartialEq)]
struct FModel { image: Model, item: usize, res: Option<Duration>, body: Option<Duration>, pol: u8 }

fn check(t: &Tunables, m: &Model) -> R {
    let g = Model {
        max_ram: t.max_body_ram(), max: t.max_body(), br: t.buffer_size_ram(), bf: t.buffer_size_fs(),
        d: t.size_estimate_deflate(), g: t.size_estimate_gzip(), b: t.size_estimate_brotli(),
        tmp: t.temp_dir().to_path_buf(),
    };
    ensure!(&g == m, "tunables", "expected {:?}, got {:?}", m, g);
    ensure!(&*t.temp_dir_rc() == m.tmp.as_path(), "temp_dir_rc", "temp_dir_rc differs");
    Ok(())
}

fn sema(i: u8) -> &'static Semaphore {
    use std::sync::OnceLock;
    static A: OnceLock<Semaphore> = OnceLock::new();
    static B: OnceLock<Semaphore> = OnceLock::new();
    match i { 0 => A.get_or_init(|| Semaphore::default_new(1)), _ => B.get_or_init(|| Semaphore::default_new(2)) }
}

fn check_f(t: &FutioTunables, m: &FModel) -> R {
    check(t.image(), &m.image)?;
    check(t.as_ref(), &m.image)?;
    ensure!(t.stream_item_size() == m.item, "item_size", "{} != {}", t.stream_item_size(), m.item);
    ensure!(t.res_timeout() == m.res, "res_timeout", "{:?} != {:?}", t.res_timeout(), m.res);
    ensure!(t.body_timeout() == m.body, "body_timeout", "{:?} != {:?}", t.body_timeout(), m.body);
    let got = match t.blocking_policy() {
        BlockingPolicy::Direct => 0,
        BlockingPolicy::Dispatch => 1,
        BlockingPolicy::Permit(s) => if std::ptr::eq(s, sema(0)) { 2 } else { 3 },
    };
    ensure!(got == m.pol, "policy", "policy {} != {}", got, m.pol);
    let s = t.blocking_semaphore();
    match m.pol {
        2 | 3 => ensure!(s.map(|s| std::ptr::eq(s, sema(m.pol - 2))).unwrap_or(false), "semaphore", "wrong semaphore"),
        _ => ensure!(s.is_none(), "semaphore", "semaphore without permit policy"),
    }
    Ok(())
}

fn num() -> impl Strategy<Value = u64> {
    prop_oneof![1 => Just(0u64), 2 => 1u64..5, 3 => 0u64..100_000, 1 => any::<u64>(), 1 => Just(u64::MAX),
                1 => Just(192 * 1024u64), 1 => Just(1u64 << 30)]
}

impl Prop for C07 {
    type Case = C07Case;
    fn id(&self) -> &'static str { "C07" }
    fn rule(&self) -> &'static str {
        "up to 14 builder calls with values including 0, boundaries and extremes, finishing several times; non-trivial: at least one setter took effect before a finish"
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(600_000, 1_000_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C07Case> {
        let m = prop_oneof![Just(0u16), 1u16..10, any::<u16>()];
        let op = prop_oneof![
            num().prop_map(TOp::MaxRam), num().prop_map(TOp::Max),
            num().prop_map(TOp::BufRam), num().prop_map(TOp::BufFs),
            m.clone().prop_map(TOp::Deflate), m.clone().prop_map(TOp::Gzip), m.prop_map(TOp::Brotli),
            "[a-z/.]{0,12}".prop_map(TOp::Temp),
            Just(TOp::Finish), num().prop_map(TOp::ItemSize),
            num().prop_map(TOp::ResTimeout), Just(TOp::NoRes), num().prop_map(TOp::BodyTimeout), Just(TOp::NoBody),
            (0u8..4).prop_map(TOp::Policy), Just(TOp::SetImage), Just(TOp::FFinish),
        ];
        prop::collection::vec(op, 0..14).prop_map(|ops| C07Case { ops }).boxed()
    }
    fn run(&self, c: &C07Case, ctx: &mut Ctx) -> R {
        let def = Model {
            max_ram: 192 * 1024, max: 1 << 30, br: 8192, bf: 65536, d: 4, g: 5, b: 6, tmp: std::env::temp_dir(),
        };
        check(&Tunables::new(), &def)?;
        check(&Tunables::default(), &def)?;
        let mut m = def.clone();
        let mut fm = FModel { image: def.clone(), item: 512 * 1024, res: None, body: Some(Duration::from_secs(60)), pol: 0 };
        check_f(&FutioTunables::new(), &fm)?;
        check_f(&FutioTunables::default(), &fm)?;
        let mut t = Tuner::new();
        let mut ft = FutioTuner::new();
        let mut done: Vec<(Tunables, Model)> = vec![];
        let mut fdone: Vec<(FutioTunables, FModel)> = vec![];
        let mut changed = false;
        let all: Vec<TOp> = c.ops.iter().cloned().chain([TOp::Finish, TOp::FFinish]).collect();
        for op in &all {
            let before = t.clone();
            // expectation: Some(accepted?)
            let ok = match op {
                TOp::BufRam(0) | TOp::BufFs(0) | TOp::Deflate(0) | TOp::Gzip(0) | TOp::Brotli(0) | TOp::ItemSize(0) => false,
                TOp::Finish | TOp::SetImage => m.max_ram <= m.max,
                TOp::FFinish => match (fm.res, fm.body) { (Some(r), Some(b)) => r <= b, _ => true },
                _ => true,
            };
            let r = catch(|| {
                match op {
                    TOp::MaxRam(v) => { t.set_max_body_ram(*v); }
                    TOp::Max(v) => { t.set_max_body(*v); }
                    TOp::BufRam(v) => { t.set_buffer_size_ram(*v as usize); }
                    TOp::BufFs(v) => { t.set_buffer_size_fs(*v as usize); }
                    TOp::Deflate(v) => { t.set_size_estimate_deflate(*v); }
                    TOp::Gzip(v) => { t.set_size_estimate_gzip(*v); }
                    TOp::Brotli(v) => { t.set_size_estimate_brotli(*v); }
                    TOp::Temp(p) => { t.set_temp_dir(Path::new(p)); }
                    TOp::Finish => { let x = t.finish(); done.push((x, m.clone())); }
                    TOp::ItemSize(v) => { ft.set_stream_item_size(*v as usize); }
                    TOp::ResTimeout(v) => { ft.set_res_timeout(Duration::from_millis(*v)); }
                    TOp::NoRes => { ft.unset_res_timeout(); }
                    TOp::BodyTimeout(v) => { ft.set_body_timeout(Duration::from_millis(*v)); }
                    TOp::NoBody => { ft.unset_body_timeout(); }
                    TOp::Policy(p) => {
                        ft.set_blocking_policy(match p {
                            0 => BlockingPolicy::Direct, 1 => BlockingPolicy::Dispatch,
                            p => BlockingPolicy::Permit(sema(p - 2)),
                        });
                    }
                    TOp::SetImage => { let x = t.finish(); ft.set_image(x); }
                    TOp::FFinish => { let x = ft.finish(); fdone.push((x, fm.clone())); }
                }
            });
            match (&r, ok) {
                (Ok(()), true) => {}
                (Err(_), false) => {
                    ctx.class("rejected");
                    t = before;
                    continue;
                }
                (Ok(()), false) => { ensure!(false, "accepted", "{:?} accepted with {:?} {:?}", op, m, fm); }
                (Err(e), true) => { ensure!(false, "refused", "{:?} refused: {}", op, e); }
            }
            changed |= !matches!(op, TOp::Finish | TOp::FFinish);
            match op {
                TOp::MaxRam(v) => m.max_ram = *v,
                TOp::Max(v) => m.max = *v,
                TOp::BufRam(v) => m.br = *v as usize,
                TOp::BufFs(v) => m.bf = *v as usize,
                TOp::Deflate(v) => m.d = *v,
                TOp::Gzip(v) => m.g = *v,
                TOp::Brotli(v) => m.b = *v,
                TOp::Temp(p) => m.tmp = PathBuf::from(p),
                TOp::ItemSize(v) => fm.item = *v as usize,
                TOp::ResTimeout(v) => fm.res = Some(Duration::from_millis(*v)),
                TOp::NoRes => fm.res = None,
                TOp::BodyTimeout(v) => fm.body = Some(Duration::from_millis(*v)),
                TOp::NoBody => fm.body = None,
                TOp::Policy(p) => fm.pol = *p,
                TOp::SetImage => fm.image = m.clone(),
                TOp::Finish | TOp::FFinish => {}
            }
            for (x, m) in &done { check(x, m)?; check(&x.clone(), m)?; }
            for (x, m) in &fdone { check_f(x, m)?; }
        }
        ctx.nontrivial_if(changed && (!done.is_empty() || !fdone.is_empty()));
        Ok(())
    }
}
