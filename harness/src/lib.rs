#![allow(clippy::all)]
pub mod ctx;
pub mod gen;
pub mod rng;
pub mod vstore;
pub mod world;
pub mod run;
pub mod suites;
pub mod format;
pub mod stored;
pub mod faults;
pub mod stores;
pub mod threads;
pub mod big;
pub mod blobs;
pub mod corrupt;
pub mod callbacks;
pub mod cost;
pub mod portable;
