//! Bounded exhaustive exploration of the kul parser against reference models.
#![allow(clippy::all)]
pub mod conv;
pub mod counting;
pub mod engine;
pub mod fault;
pub mod graph;
pub mod gappy;
pub mod imp;
pub mod model;
pub mod spaces;
pub mod tables;
pub mod words;
