pub mod bn256 { pub use shimcore::arith::Fr; #[derive(Clone, Debug, Default, PartialEq)] pub struct Bn256; } pub mod ff { pub use shimcore::arith::Field; pub use shimcore::arith::PrimeField; }
