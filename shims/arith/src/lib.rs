pub use shimcore::arith::{ExtensionField, Field, Fr, SimdField};
