#![allow(clippy::type_complexity, clippy::too_many_arguments, clippy::new_without_default)]
pub mod about;
pub mod conc;
pub mod engine;
pub mod live;
pub mod outcome;
pub mod plan;
pub mod query;
pub mod reads;
pub mod repl;
pub mod rng;
pub mod sched;
pub mod store;
pub mod types;
pub mod walk;
pub mod world;
