pub use shimcore::engine::{EqPolynomial, MultilinearExtension, RefMultiLinearPoly};
