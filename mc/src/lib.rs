//! Bounded exhaustive exploration of sgmlish against reference models.
#![allow(clippy::all)]
pub mod conf;
pub mod engine;
pub mod fills;
pub mod refde;
pub mod refparse;
pub mod schema;
pub mod tree;
pub mod walks;
