//! A third-party prime field (2^127-1) that is not one of the library's own.
use ff::{Field, PrimeField, PrimeFieldRepr};
#[derive(PrimeField)]
#[PrimeFieldModulus = "170141183460469231731687303715884105727"]
#[PrimeFieldGenerator = "43"]
pub struct M127(M127Repr);
