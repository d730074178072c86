//! Stand-in for `tracing` used only while verifying: the logging macros evaluate nothing (as the
//! real ones do when the level is disabled) and `#[instrument]` leaves the function as written.
pub use noop_tracing_attr::instrument;
#[macro_export] macro_rules! trace { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! debug { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! info  { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! warn  { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! error { ($($t:tt)*) => {{}}; }
