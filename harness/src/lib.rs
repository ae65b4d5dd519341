//! Flat entry points over the public API of halo2curves.  Every function is
//! `extern "C"` over raw pointers, so that the symbolic executor can start from
//! symbolic memory and the native replay can call the same entry points.
#![allow(clippy::all)]
#![allow(unused_imports, improper_ctypes_definitions)]
mod field;
mod flat;
mod curve;
mod tower;
mod alg;
mod endo;
mod pair;
