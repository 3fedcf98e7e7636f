pub use shimcore::arith::{BabyBear, BabyBearExt4, BabyBearx16};
