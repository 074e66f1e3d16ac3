//! Exhaustive bounded exploration ("stateless model checking") of the real
//! rusty-source-map code against reference models.
pub mod explore;
pub mod run;
pub mod sm;
pub mod url;
pub mod cons;
pub mod gen;

pub use explore::*;
pub use run::*;
pub use serde_json;
