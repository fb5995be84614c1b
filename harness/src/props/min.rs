//! C33: builds without the optional features behave as those with them,
//! but for what is missing being refused.

use std::fs;

use barc::{BarcError, BarcFile};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;
use crate::rec::*;
use super::archive::{read_next, C08Case, C09Case, C16Case, C08, C09, C16};
use super::archive_bad::{C12Case, C12};
use super::body::{C01Case, C02Case, C03Case, C01, C02, C03};
use super::cli::{failed, os, C27Case, C28Case, Tool, C27, C28, FSIZE};
use super::futio::{C17Case, C18Case, C23Case, C17, C18, C23};
use super::futio_conv::{C21Case, C22Case, C21, C22};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How { Library, Cat, Copy, CopyBrotli(bool), Record }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C33Case {
    Image(C01Case), Readers(C02Case), Source(C03Case),
    Archive(C08Case), Format(C09Case), History(C16Case), Damaged(C12Case),
    Stream(C17Case), Sink(C18Case), Buffer(C23Case), Decode(C21Case), Codings(C22Case),
    Cat(C27Case), Copy(C28Case),
    /// Archives with Brotli records
    Brotli { recs: Vec<(RecSpec, Option<u8>, bool)>, tune: TuneSpec, how: How, out: Vec<RecSpec> },
}

pub struct C33;

fn brotli(recs: &[(RecSpec, Option<u8>, bool)], tune: &TuneSpec, how: How, out: &[RecSpec], ctx: &mut Ctx) -> R {
    let (mut bytes, mut offs) = (vec![], vec![]);
    for (r, br, caps) in recs {
        offs.push(bytes.len() as u64);
        bytes.extend(encode(r, match br { Some(l) => Enc::Brotli(*l), None => Enc::Plain }, *caps)?);
    }
    offs.push(bytes.len() as u64);
    let first = recs.iter().position(|r| r.1.is_some());
    match how {
        How::Library => {
            let path = ctx.dir.join("a.barc");
            fs::write(&path, &bytes).h("write")?;
            let td = ctx.subdir("tmp")?;
            let t = tune.tunables(&td);
            let file = BarcFile::new(&path);
            let mut r = file.reader().v("reader", "reader")?;
            let mut refused = 0;
            for (i, (rec, br, _)) in recs.iter().enumerate() {
                // After a refusal the place of the next one is known
                if r.offset() != offs[i] { r.seek(offs[i]).v("seek", "seek")?; }
                if br.is_none() {
                    match read_next(&mut r, &t, "plain record")? {
                        Some(x) => compare(&x, &rec.model(), &format!("record {}", i))?,
                        None => viol!("missing", "no record {} of {}", i, recs.len()),
                    }
                    continue;
                }
                match r.read(&t) {
                    Err(BarcError::DecoderUnsupported(barc::Compression::Brotli)) => refused += 1,
                    Err(e) => viol!("refusal-kind", "record {}: {:?}", i, e),
                    Ok(x) => viol!("accepted", "record {}: {}", i, if x.is_some() { "record returned" } else { "end of file" }),
                }
            }
            ensure!(fs::read(&path).h("read")? == bytes, "changed", "archive changed by reading");
            ctx.class_if(refused > 0, "refused-record");
            ctx.class_if(refused > 0 && refused < recs.len(), "between-readable");
            ctx.nontrivial_if(refused > 0);
        }
        How::Cat => {
            let t = Tool::new(ctx)?;
            t.put("a.barc", &bytes)?;
            let before = t.snapshot()?;
            let args = [os("cat"), os("a.barc")];
            let ran = t.run(&args, super::cli::Sink::File, FSIZE)?;
            if first.is_some() { failed(&ran, &args)?; } else { ensure!(ran.code == Some(0), "status", "status {:?}", ran.code); }
            ensure!(t.snapshot()? == before, "changed", "files changed by printing");
            ctx.class_if(first.is_some(), "cat-refused");
            ctx.nontrivial_if(first.is_some());
        }
        How::Copy => {
            let t = Tool::new(ctx)?;
            t.put("a.barc", &bytes)?;
            let args = [os("cp"), os("a.barc"), os("b.barc")];
            let ran = t.run(&args, super::cli::Sink::File, FSIZE)?;
            if first.is_some() { failed(&ran, &args)?; } else { ensure!(ran.code == Some(0), "status", "status {:?}", ran.code); }
            ensure!(fs::read(t.work.join("a.barc")).h("read")? == bytes, "changed", "input changed");
            let got = fs::read(t.work.join("b.barc")).unwrap_or_default();
            let got = match parse_archive(&got) { Ok(g) => g, Err(e) => return violation("output-format", e) };
            let n = first.unwrap_or(recs.len());
            ensure!(got.len() == n, "copied", "{} records copied, {} precede the first refused", got.len(), n);
            for (g, (r, ..)) in got.iter().zip(recs) { ensure!(g.rec == r.model(), "copied-content", "copy differs"); }
            ctx.class_if(first.is_some(), "copy-refused");
            ctx.nontrivial_if(first.is_some());
        }
        How::CopyBrotli(long) => {
            let t = Tool::new(ctx)?;
            t.put("a.barc", &bytes)?;
            let mut o = vec![];
            for r in out { o.extend(encode(r, Enc::Gzip(6), false)?); }
            if !o.is_empty() { t.put("b.barc", &o)?; }
            let before = t.snapshot()?;
            let args = [os("cp"), os(if long { "--brotli" } else { "-b" }), os("a.barc"), os("b.barc")];
            let ran = t.run(&args, super::cli::Sink::File, FSIZE)?;
            failed(&ran, &args)?;
            ensure!(t.snapshot()? == before, "changed", "files changed though compression is not available");
            ctx.class("option-refused");
            ctx.nontrivial();
        }
        How::Record => {
            let t = Tool::new(ctx)?;
            let mut o = vec![];
            for r in out { o.extend(encode(r, Enc::Gzip(6), false)?); }
            if !o.is_empty() { t.put("b.barc", &o)?; }
            let before = t.snapshot()?;
            // Nothing listens there, should it be tried
            let args = [os("record"), os("http://127.0.0.1:9/"), os("b.barc")];
            let ran = t.run(&args, super::cli::Sink::File, FSIZE)?;
            failed(&ran, &args)?;
            ensure!(t.snapshot()? == before, "changed", "files changed though recording is not available");
            ctx.class("record-refused");
            ctx.nontrivial();
        }
    }
    Ok(())
}

impl Prop for C33 {
    type Case = C33Case;
    fn id(&self) -> &'static str { "C33" }
    fn rule(&self) -> &'static str {
        "the generators of C01-C03, C08, C09, C12, C16-C18, C21-C23, C27 and C28 without Brotli compression and memory maps, and archives mixing plain records with Brotli records of an independent encoder; non-trivial: as stated there, or at least one refusal of what is missing"
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["built with none of the optional features of the crates"] }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<C33Case> {
        let how = prop_oneof![8 => Just(How::Library), 1 => Just(How::Cat), 1 => Just(How::Copy),
                              1 => any::<bool>().prop_map(How::CopyBrotli), 1 => Just(How::Record)];
        let recs = prop::collection::vec((rec_spec(3000, 3), prop::option::of(1u8..10), any::<bool>()), 0..6);
        prop_oneof![
            4 => C01.strategy(tier).prop_map(C33Case::Image),
            2 => C02.strategy(tier).prop_map(C33Case::Readers),
            3 => C03.strategy(tier).prop_map(C33Case::Source),
            4 => C08.strategy(tier).prop_map(C33Case::Archive),
            2 => C09.strategy(tier).prop_map(C33Case::Format),
            2 => C16.strategy(tier).prop_map(C33Case::History),
            3 => C12.strategy(tier).prop_map(C33Case::Damaged),
            3 => C17.strategy(tier).prop_map(C33Case::Stream),
            3 => C18.strategy(tier).prop_map(C33Case::Sink),
            2 => C23.strategy(tier).prop_map(C33Case::Buffer),
            3 => C21.strategy(tier).prop_map(C33Case::Decode),
            1 => C22.strategy(tier).prop_map(C33Case::Codings),
            1 => C27.strategy(tier).prop_map(C33Case::Cat),
            1 => C28.strategy(tier).prop_map(C33Case::Copy),
            4 => (recs, tune_unlimited(), how, prop::collection::vec(rec_spec(200, 2), 0..2))
                .prop_map(|(recs, tune, how, out)| C33Case::Brotli { recs, tune, how, out }),
        ].boxed()
    }
    fn cases(&self, tier: Tier) -> u64 { tier.pick(150_000, 1_500_000) }
    fn run(&self, c: &C33Case, ctx: &mut Ctx) -> R {
        // What is asked of servers can be decoded
        for e in body_image_futio::ACCEPT_ENCODINGS.split(',').map(str::trim) {
            ensure!(e == "gzip" || e == "deflate", "accepted-codings", "{:?} is among the accepted codings", e);
        }
        match c {
            C33Case::Image(c) => C01.run(c, ctx),
            C33Case::Readers(c) => C02.run(c, ctx),
            C33Case::Source(c) => C03.run(c, ctx),
            C33Case::Archive(c) => C08.run(c, ctx),
            C33Case::Format(c) => C09.run(c, ctx),
            C33Case::History(c) => C16.run(c, ctx),
            C33Case::Damaged(c) => C12.run(c, ctx),
            C33Case::Stream(c) => C17.run(c, ctx),
            C33Case::Sink(c) => C18.run(c, ctx),
            C33Case::Buffer(c) => C23.run(c, ctx),
            C33Case::Decode(c) => C21.run(c, ctx),
            C33Case::Codings(c) => C22.run(c, ctx),
            C33Case::Cat(c) => C27.run(c, ctx),
            C33Case::Copy(c) => C28.run(c, ctx),
            C33Case::Brotli { recs, tune, how, out } => brotli(recs, tune, *how, out, ctx),
        }
    }
}
