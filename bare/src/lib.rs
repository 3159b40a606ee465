#![no_std]
//! The library as a program without an operating system sees it.
pub use stroke;
