pub use shimcore::engine::{FiatShamirHasher, MiMC5FiatShamirHasher, SHA256hasher};
pub mod poseidon {
    pub mod r#impls {
        pub const POSEIDON_SEED_PREFIX: &str = "poseidon_seed";
        pub const MATRIX_CIRC_MDS_8_SML_ROW: [u32; 8] = [7, 1, 3, 8, 8, 3, 4, 9];
        pub const MATRIX_CIRC_MDS_12_SML_ROW: [u32; 12] = [1, 1, 2, 1, 8, 9, 10, 7, 5, 9, 4, 10];
        pub const MATRIX_CIRC_MDS_16_SML_ROW: [u32; 16] = [1, 1, 51, 1, 11, 17, 2, 1, 101, 63, 15, 2, 67, 22, 13, 3];
    }
}
