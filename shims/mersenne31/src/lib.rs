pub use shimcore::arith::{M31Ext3, M31x16, M31};
