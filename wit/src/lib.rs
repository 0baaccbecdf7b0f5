#![allow(unused, improper_ctypes, improper_ctypes_definitions)]
#![deny(unconditional_panic)]
#[macro_use]
mod common;
#[cfg(any(feature = "own", feature = "zst", feature = "big", feature = "idx", feature = "elem", feature = "ops", feature = "tensor", feature = "conv", feature = "eq", feature = "de", feature = "ovf"))]
mod life;
#[cfg(feature = "index")]
pub mod index;
#[cfg(feature = "view")]
pub mod view;
#[cfg(feature = "sub")]
pub mod sub;
#[cfg(feature = "layout")]
pub mod layout;
#[cfg(feature = "iter")]
pub mod iter;
#[cfg(feature = "lanes")]
pub mod lanes;
#[cfg(feature = "zip")]
pub mod zip;
#[cfg(feature = "own")]
pub mod own;
#[cfg(feature = "tensor")]
pub mod tensor;
#[cfg(feature = "ops")]
pub mod ops;
#[cfg(feature = "eq")]
pub mod eq;
#[cfg(feature = "conv")]
pub mod conv;
#[cfg(feature = "de")]
pub mod de;
#[cfg(feature = "elem")]
pub mod elem;
#[cfg(feature = "idx")]
pub mod idx;
#[cfg(feature = "ovf")]
pub mod ovf;
#[cfg(feature = "copy")]
pub mod copy;
#[cfg(feature = "big")]
pub mod big;
#[cfg(feature = "zst")]
pub mod zst;
