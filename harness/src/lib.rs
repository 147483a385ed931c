//! A property-based testing library for Typical: generators, a reference model of the schema language and of the
//! binary format, and the machinery to run the tool and the code it generates.

pub mod cli;
pub mod draw;
pub mod exec;
pub mod gen;
pub mod glue;
pub mod json;
pub mod model;
pub mod raw;
pub mod value;
pub mod wire;
