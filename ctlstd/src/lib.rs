//! The standard library with hash containers whose iteration order is an input.
//!
//! `HashMap` and `HashSet` keep their elements in insertion order. When such a container with at
//! least two elements is iterated for the first time since an element was added, the order in
//! which it will be seen from then on is drawn from `control`; taking elements out keeps the order
//! of the others, and a clone is seen in the order of its original. So two iterations over an
//! unchanged container agree, as they do in std, and nothing else about the order is promised.
#![allow(clippy::all)]
pub use std::*;

pub mod control;

pub mod collections {
    pub use std::collections::*;
    pub mod hash_map {
        pub use crate::map::*;
        pub use std::collections::hash_map::{DefaultHasher, RandomState};
    }
    pub mod hash_set {
        pub use crate::set::*;
    }
    pub use crate::map::HashMap;
    pub use crate::set::HashSet;
}
mod map;
mod set;
