//! Independent reference model of JSON-LD 1.1, written from the W3C
//! "JSON-LD 1.1 Processing Algorithms and API" recommendation.
pub mod compact;
pub mod context;
pub mod expand;
pub mod flatten;
pub mod iri;
pub mod iso;
pub mod rdf;

/// Error code of the specification.
pub type E = &'static str;
pub type R<T> = Result<T, E>;
