//! Shared machinery of the checks: an exhaustive, sharded, crash-isolated enumerator
//! (`driver`), an independent reader of printed CSS (`css`), a boring stylesheet model with a
//! reference meaning (`model`), a reference parser for the supported grammar (`refparse`) and
//! bounded enumeration of model sheets (`enumr`).
pub mod css;
pub mod csstok;
pub mod driver;
pub mod enumr;
pub mod model;
pub mod refparse;
pub mod hist;
