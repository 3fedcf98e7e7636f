pub use shimcore::engine::*; pub use shimcore::arith::{ExtensionField, Field};
