//! The instrumented half of the simulator: everything that calls into geokit. Definitions and
//! queries are plain data (serialisable, so that a run is a file), execution turns a query into
//! an outcome of exact bits.
#[macro_use]
pub mod probe;
pub mod curve;
pub mod line;
pub mod ops;
pub mod pipe;
