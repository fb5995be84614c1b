#![cfg_attr(not(feature = "full"), allow(dead_code, unused_unsafe, unused_imports))]
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod alloc;
#[macro_use]
mod engine;
mod faults;
mod gen;
mod interpose;
mod props;
mod rec;

use engine::DynProp;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn find<'a>(all: &'a [Box<dyn DynProp>], id: &str) -> Option<&'a dyn DynProp> {
    all.iter().find(|p| p.id() == id).map(|b| b.as_ref())
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let all = props::all();
    let code = match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in &all { println!("{}", p.id()); }
            0
        }
        Some("check") => match args.get(1).and_then(|id| find(&all, id)) {
            Some(p) => p.check(),
            None => { eprintln!("no such property"); 2 }
        },
        Some("worker") => match args.get(1).and_then(|id| find(&all, id)) {
            Some(p) => p.worker(&args[2..]),
            None => 2,
        },
        Some("gen") => match args.get(1).and_then(|id| find(&all, id)) {
            Some(p) => p.gen(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(3),
                             args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1)),
            None => 2,
        },
        #[cfg(feature = "full")]
        Some("logprobe") => props::logprobe(),
        Some("replay") => {
            let path = std::path::PathBuf::from(args.get(1).cloned().unwrap_or_default());
            let id = std::fs::read_to_string(&path).ok()
                .and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok())
                .and_then(|v| v["property"].as_str().map(|s| s.to_string()));
            match id.and_then(|id| find(&all, &id)) {
                Some(p) => p.replay(&path),
                None => { eprintln!("cannot read replay file"); 2 }
            }
        }
        _ => { eprintln!("usage: vh check ID | replay FILE | gen ID [n] [seed] | list"); 2 }
    };
    std::process::exit(code);
}
