//! Entry points for the static analysis.  Nothing in this crate is ever executed: the driver
//! (/verif/driver) type-checks it together with /repo's current source and dumps the resolved,
//! monomorphic MIR reachable from every function of module `h`; /verif/analysis interprets that
//! MIR abstractly.  `o` holds the *opaque* operations (user code: hashing, equality, predicates,
//! iterators, serializers); their bodies are never looked at, they are given abstract semantics.
#![allow(clippy::all, dead_code, unused)]

pub mod o;
pub mod h;
