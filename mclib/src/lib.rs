//! Stateless model checking engine and the independent Wii image codec.
pub mod engine;
pub mod oracle;
pub use engine::*;
