pub use shimcore::arith::{GF2x8, GF2};
