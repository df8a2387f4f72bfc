//! Stand-in for the `mqtt-proto` crate.
//!
//! akasa pins `mqtt-proto` to a git revision that cannot be fetched offline.  This crate offers the
//! part of its API that akasa (and its tests) use, written from the OASIS MQTT 3.1/3.1.1/5.0
//! specifications.  It is part of the *environment* of the model-checked system, not of the system.

#[macro_use]
mod macros;
mod common;
mod poll;
pub mod v3;
pub mod v5;

pub use common::*;
pub use poll::*;

pub const LEVEL_SEP: char = '/';
pub const MATCH_ALL_CHAR: char = '#';
pub const MATCH_ONE_CHAR: char = '+';
pub const MATCH_ALL_STR: &str = "#";
pub const MATCH_ONE_STR: &str = "+";
pub const SHARED_PREFIX: &str = "$share/";
pub const SYS_PREFIX: &str = "$SYS/";

/// Drive a future that never suspends (its reader is an in-memory slice).
pub(crate) fn now_or_panic<F: std::future::Future>(fut: F) -> F::Output {
    let mut fut = std::pin::pin!(fut);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match fut.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(v) => v,
        std::task::Poll::Pending => panic!("in-memory decode suspended"),
    }
}
