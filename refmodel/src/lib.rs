pub mod bls;
pub mod cfg;
pub mod gen;
pub mod schema;
pub mod spec;
pub mod ssz;
pub mod types;
