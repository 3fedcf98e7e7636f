mod arithm;
mod curve;
mod emu;
mod gad;
mod isogeny;
mod lookup;
mod rsa;
mod sha;
use vpc::Check;
fn main() {
    vpc::main(&[
        Check { id: "L01", rule: "one message hashed; distinct = different message", run: sha::l01 },
        Check { id: "L03", rule: "one table or range-proof session; distinct = different (field, shape, values)", run: lookup::l03 },
        Check { id: "L02", rule: "one hash computation; distinct = different (parameters, inputs)", run: arithm::l02 },
        Check { id: "L05", rule: "one pair of matrices with true and false results; distinct = different values", run: arithm::l05 },
        Check { id: "L04", rule: "one operation on 2048-bit integers; distinct = different operands", run: arithm::l04 },
        Check { id: "L06", rule: "one word operation; distinct = different (operation, inputs)", run: arithm::l06 },
        Check { id: "L07", rule: "one program of field or tower operations; distinct = different (operations, inputs)", run: emu::l07 },
        Check { id: "L08", rule: "one operation on points, or one pairing product; distinct = different (operation, points)", run: curve::l08 },
        Check { id: "L09", rule: "one modulus and base with its trace, true and altered; distinct = different (modulus, base) or different falsehood", run: rsa::l09 },
        Check { id: "L10", rule: "one native operation; distinct = different operands", run: rsa::l10 },
    ]);
}
