//! Conformance harness for the parts of musli below the formats: byte
//! sources, output sinks, the slice allocator and its collections.
#[path = "../../common.rs"]
mod common;
pub use common::*;

mod alloc;
mod coll;
mod cursor;
mod cx;
#[cfg(feature = "enc")]
mod enc;
#[cfg(feature = "paths")]
mod paths;
#[cfg(feature = "paths")]
mod tracing;
mod sink;

fn main() {
    serve(|mode, v| match mode {
        "cursor" => cursor::run(v),
        "sink" => sink::run(v),
        "alloc" => alloc::run(v),
        "coll" => coll::run(v),
        #[cfg(feature = "enc")]
        "enc" => enc::run(v),
        #[cfg(feature = "paths")]
        "paths" => paths::run(v),
        #[cfg(feature = "paths")]
        "tracing" => tracing::run(v),
        _ => panic!("mode"),
    })
}
