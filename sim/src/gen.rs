//! Document generator: a grammar of the Compose file format, written from the
//! documentation, that yields pairs (written form, canonical form). The canonical
//! form is what a correct library must write back after loading the written form.
//! It is computed here, never by the code under test.

pub mod prim;
pub mod top;
pub mod svc;

pub use prim::*;
pub use top::*;
