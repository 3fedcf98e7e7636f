pub mod asan;
pub mod equiv;
pub mod forge;
pub mod front;
pub mod lang;
pub mod laygen;
pub mod layeval;
pub mod proving;
pub mod zkmodel;
pub mod cfgs {
    pub use expander_compiler::circuit::config::*;
}
#[macro_export]
macro_rules! by_field {
    ($k:expr, $f:ident $(::<$($t:ty),*>)? ( $($a:expr),* )) => {
        match $k % 5 {
            0 => $f::<$crate::cfgs::M31Config $($(, $t)*)?>($($a),*),
            1 => $f::<$crate::cfgs::GF2Config $($(, $t)*)?>($($a),*),
            2 => $f::<$crate::cfgs::BN254Config $($(, $t)*)?>($($a),*),
            3 => $f::<$crate::cfgs::GoldilocksConfig $($(, $t)*)?>($($a),*),
            _ => $f::<$crate::cfgs::BabyBearConfig $($(, $t)*)?>($($a),*),
        }
    };
}

