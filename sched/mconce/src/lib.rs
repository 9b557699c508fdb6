//! A stand-in for `once_cell` whose `sync` types are scheduling points.
pub use once_cell::unsync;

pub mod sync {
    pub use mcstd::sync::LazyLock as Lazy;
    pub use mcstd::sync::OnceLock as OnceCell;
}
