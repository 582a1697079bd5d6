//! The standard library's tables are the same ones.
pub use std::collections::{hash_map, hash_set, HashMap, HashSet};
