pub use shimcore::pcs::*;
