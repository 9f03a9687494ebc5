#![allow(unused)]
pub use ::safer_ffi;
