//! Harnesses: each `h_*` function states one property over symbolic inputs. Compiled to LLVM IR together with the
//! real crate and executed by /verif/engine; compiled natively (feature `native`) to replay counterexamples.
#![allow(clippy::all)]
pub mod sx;
#[macro_use]
mod mac;
pub mod common;
pub mod oracle;
pub mod meta;
pub mod tags;
pub mod vals;
pub mod tiff;
pub mod jpg;
pub mod png;
pub mod webp;
pub mod jxl;
pub mod heif;
pub mod files;
pub mod api;

#[cfg(feature = "native")]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut v = Vec::new();
    v.extend(meta::TABLE.iter().copied());
    v.extend(vals::TABLE.iter().copied());
    v.extend(tiff::TABLE.iter().copied());
    v.extend(jpg::TABLE.iter().copied());
    v.extend(png::TABLE.iter().copied());
    v.extend(webp::TABLE.iter().copied());
    v.extend(heif::TABLE.iter().copied());
    v.extend(jxl::TABLE.iter().copied());
    v.extend(files::TABLE.iter().copied());
    v.extend(api::TABLE.iter().copied());
    v
}
