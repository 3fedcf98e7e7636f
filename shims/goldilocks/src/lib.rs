pub use shimcore::arith::{Goldilocks, GoldilocksExt2, Goldilocksx8};
