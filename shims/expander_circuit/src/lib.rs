pub use shimcore::circuit::*;
