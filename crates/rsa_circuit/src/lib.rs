include!(concat!(env!("OUT_DIR"), "/main.rs"));

/// What the checks use of the program's private items.
pub mod vp {
    use super::*;
    pub type Circuit<T> = RSACircuit<T>;
    pub type Num = RSAFieldElement;
    pub fn traces(x: &Num, n: &Num, res: &Num) -> ([Num; 17], [Num; 17]) {
        build_rsa_traces(x, n, res)
    }
    pub fn assign(x: &Num, n: &Num, powers: [Num; 17], carries: [Num; 17], result: &Num, hash_inputs: &[u8]) -> Circuit<Fr> {
        RSACircuit::create_circuit(x, n, powers, carries, result, hash_inputs)
    }
    pub fn hash_outputs(hash_inputs: &[u8]) -> Vec<u8> {
        build_hash_outputs(hash_inputs).to_vec()
    }
    /// The whole demonstration program; it writes its files into the current directory.
    pub fn demo() {
        main()
    }
    /// The inputs of an assignment as (x, n, powers, quotients, result), for reading and changing.
    pub fn parts(c: &mut Circuit<Fr>) -> (&mut [Fr; N_LIMBS], &mut [Fr; N_LIMBS], &mut [[Fr; N_LIMBS]; 17], &mut [[Fr; N_LIMBS]; 17], &mut [Fr; N_LIMBS]) {
        (&mut c.x, &mut c.n, &mut c.x_powers, &mut c.mul_carries, &mut c.result)
    }
}
