//! Stand-in for `ark-ff`: the field interface the repository's hints use.
pub use num_traits::{One, Zero};
pub mod fields {
    pub use super::Field;
}
pub trait Field: Copy + Zero + One + PartialEq {
    fn inverse(&self) -> Option<Self>;
    fn sqrt(&self) -> Option<Self>;
    fn square(&self) -> Self {
        *self * *self
    }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut r = Self::one();
        for w in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                r = r * r;
                if w >> i & 1 == 1 {
                    r = r * *self;
                }
            }
        }
        r
    }
}
