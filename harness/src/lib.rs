//! Driver shared by all checks: generated-input search with proptest, exhaustive enumeration,
//! shrinking, replay files, evidence files and crash supervision.
pub mod driver;
pub mod image_model;
pub mod matching;
pub mod refcolor;
