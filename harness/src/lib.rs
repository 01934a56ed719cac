//! Shared parts of the monitors: the case driver, random generation, independent references.
pub mod files;
pub mod galloc;
pub mod graph;
pub mod hostile;
pub mod io;
pub mod refbig;
pub mod run;
pub mod sys;
pub mod text;
pub mod toks;
pub mod track;
pub mod tree;
pub mod val;
