use crate::engine::{DynProp, Wrap};

mod archive;
mod archive_bad;
#[cfg(feature = "full")]
mod archive_conv;
#[cfg(feature = "full")]
mod archive_sched;
mod body;
#[cfg(feature = "full")]
mod body_faults;
mod cli;
mod futio;
#[cfg(feature = "full")]
mod futio_block;
mod futio_conv;
#[cfg(feature = "full")]
mod futio_fwd;
#[cfg(not(feature = "full"))]
mod min;
#[cfg(feature = "net")]
mod net;
#[cfg(feature = "full")]
mod logging;
#[cfg(feature = "full")]
mod record;
#[cfg_attr(not(feature = "full"), allow(dead_code))]
mod srv;
#[cfg(feature = "full")]
mod tune;

#[cfg(feature = "full")]
pub use logging::probe as logprobe;

/// Built without the optional features of /repo's crates.
#[cfg(not(feature = "full"))]
pub fn all() -> Vec<Box<dyn DynProp>> { vec![Box::new(Wrap(min::C33))] }

#[cfg(feature = "full")]
pub fn all() -> Vec<Box<dyn DynProp>> {
    vec![
        Box::new(Wrap(body::C01)),
        Box::new(Wrap(body::C02)),
        Box::new(Wrap(body::C03)),
        Box::new(Wrap(body::C04)),
        Box::new(Wrap(body::C05)),
        Box::new(Wrap(body_faults::C06)),
        Box::new(Wrap(tune::C07)),
        Box::new(Wrap(archive::C08)),
        Box::new(Wrap(archive::C09)),
        Box::new(Wrap(archive_sched::C10)),
        Box::new(Wrap(archive_sched::C11)),
        Box::new(Wrap(archive_bad::C12)),
        Box::new(Wrap(archive_conv::C13)),
        Box::new(Wrap(archive_conv::C14)),
        Box::new(Wrap(archive_bad::C15)),
        Box::new(Wrap(archive::C16)),
        Box::new(Wrap(futio::C17)),
        Box::new(Wrap(futio::C18)),
        Box::new(Wrap(futio_block::C19)),
        Box::new(Wrap(futio_block::C20)),
        Box::new(Wrap(futio_conv::C21)),
        Box::new(Wrap(futio_conv::C22)),
        Box::new(Wrap(futio::C23)),
        Box::new(Wrap(futio_conv::C24)),
        #[cfg(feature = "net")]
        Box::new(Wrap(net::C25)),
        Box::new(Wrap(futio_fwd::C26)),
        Box::new(Wrap(cli::C27)),
        Box::new(Wrap(cli::C28)),
        Box::new(Wrap(cli::C29)),
        Box::new(Wrap(archive_bad::C30)),
        Box::new(Wrap(record::C31)),
        Box::new(Wrap(logging::C32)),
    ]
}
