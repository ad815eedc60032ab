//! Tiny prime fields (p < 256) implementing the library's `Field` trait, and tiny complete twisted
//! Edwards curves over them.  The library is generic, so the real code runs over these.
use fawkes_crypto::native::{
    ecc::{EdwardsPoint, JubJubParams},
    num::Num,
};
use ff::{
    Field, LegendreSymbol, PrimeField, PrimeFieldDecodingError, PrimeFieldRepr, SqrtField,
};
use std::{
    fmt,
    io::{self, Read, Write},
};

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Default, Debug)]
pub struct TinyRepr(pub [u64; 1]);

impl fmt::Display for TinyRepr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0[0])
    }
}
impl rand::Rand for TinyRepr {
    fn rand<R: rand::Rng>(rng: &mut R) -> Self {
        TinyRepr([rng.gen()])
    }
}
impl AsRef<[u64]> for TinyRepr {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl AsMut<[u64]> for TinyRepr {
    fn as_mut(&mut self) -> &mut [u64] {
        &mut self.0
    }
}
impl From<u64> for TinyRepr {
    fn from(x: u64) -> Self {
        TinyRepr([x])
    }
}
impl PrimeFieldRepr for TinyRepr {
    fn sub_noborrow(&mut self, o: &Self) {
        self.0[0] = self.0[0].wrapping_sub(o.0[0]);
    }
    fn add_nocarry(&mut self, o: &Self) {
        self.0[0] = self.0[0].wrapping_add(o.0[0]);
    }
    fn num_bits(&self) -> u32 {
        64 - self.0[0].leading_zeros()
    }
    fn is_zero(&self) -> bool {
        self.0[0] == 0
    }
    fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    fn is_even(&self) -> bool {
        self.0[0] & 1 == 0
    }
    fn div2(&mut self) {
        self.0[0] >>= 1;
    }
    fn shr(&mut self, amt: u32) {
        self.0[0] = self.0[0].checked_shr(amt).unwrap_or(0);
    }
    fn mul2(&mut self) {
        self.0[0] <<= 1;
    }
    fn shl(&mut self, amt: u32) {
        self.0[0] = self.0[0].checked_shl(amt).unwrap_or(0);
    }
    // one byte wide
    fn write_be<W: Write>(&self, mut w: W) -> io::Result<()> {
        assert!(self.0[0] < 256);
        w.write_all(&[self.0[0] as u8])
    }
    fn read_be<R: Read>(&mut self, mut r: R) -> io::Result<()> {
        let mut b = [0u8; 1];
        r.read_exact(&mut b)?;
        self.0[0] = b[0] as u64;
        Ok(())
    }
    fn write_le<W: Write>(&self, w: W) -> io::Result<()> {
        self.write_be(w)
    }
    fn read_le<R: Read>(&mut self, r: R) -> io::Result<()> {
        self.read_be(r)
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Tiny<const P: u64>(pub u64);

impl<const P: u64> fmt::Display for Tiny<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
/// one 32-bit word reduced modulo p
impl<const P: u64> rand::Rand for Tiny<P> {
    fn rand<R: rand::Rng>(rng: &mut R) -> Self {
        Tiny(rng.next_u32() as u64 % P)
    }
}
impl<const P: u64> From<Tiny<P>> for TinyRepr {
    fn from(x: Tiny<P>) -> Self {
        TinyRepr([x.0])
    }
}
impl<const P: u64> Field for Tiny<P> {
    fn zero() -> Self {
        Tiny(0)
    }
    fn one() -> Self {
        Tiny(1)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn square(&mut self) {
        self.0 = self.0 * self.0 % P
    }
    fn double(&mut self) {
        self.0 = self.0 * 2 % P
    }
    fn negate(&mut self) {
        self.0 = (P - self.0) % P
    }
    fn add_assign(&mut self, o: &Self) {
        self.0 = (self.0 + o.0) % P
    }
    fn sub_assign(&mut self, o: &Self) {
        self.0 = (self.0 + P - o.0) % P
    }
    fn mul_assign(&mut self, o: &Self) {
        self.0 = self.0 * o.0 % P
    }
    fn inverse(&self) -> Option<Self> {
        (1..P).find(|b| self.0 * b % P == 1).map(Tiny)
    }
    fn frobenius_map(&mut self, _: usize) {}
}
const fn bits(p: u64) -> u32 {
    64 - p.leading_zeros()
}
impl<const P: u64> PrimeField for Tiny<P> {
    type Repr = TinyRepr;
    fn from_repr(r: TinyRepr) -> Result<Self, PrimeFieldDecodingError> {
        if r.0[0] < P {
            Ok(Tiny(r.0[0]))
        } else {
            Err(PrimeFieldDecodingError::NotInField(format!("{}", r)))
        }
    }
    fn from_raw_repr(r: TinyRepr) -> Result<Self, PrimeFieldDecodingError> {
        Self::from_repr(r)
    }
    fn into_repr(&self) -> TinyRepr {
        TinyRepr([self.0])
    }
    fn into_raw_repr(&self) -> TinyRepr {
        TinyRepr([self.0])
    }
    fn char() -> TinyRepr {
        TinyRepr([P])
    }
    const NUM_BITS: u32 = bits(P);
    const CAPACITY: u32 = bits(P) - 1;
    fn multiplicative_generator() -> Self {
        (2..P)
            .map(Tiny)
            .find(|g| (1..P - 1).all(|e| g.pow([e]) != Self::one()))
            .unwrap()
    }
    const S: u32 = (P - 1).trailing_zeros();
    fn root_of_unity() -> Self {
        Self::multiplicative_generator().pow([(P - 1) >> Self::S])
    }
}
impl<const P: u64> SqrtField for Tiny<P> {
    fn legendre(&self) -> LegendreSymbol {
        if self.0 == 0 {
            LegendreSymbol::Zero
        } else if self.pow([(P - 1) / 2]).0 == 1 {
            LegendreSymbol::QuadraticResidue
        } else {
            LegendreSymbol::QuadraticNonResidue
        }
    }
    /// Either root, chosen irregularly (callers may not rely on which one).
    fn sqrt(&self) -> Option<Self> {
        let lo = (0..P).find(|b| b * b % P == self.0)?;
        if (self.0 * 7 + 3) % 5 < 3 || lo == 0 {
            Some(Tiny(lo))
        } else {
            Some(Tiny(P - lo))
        }
    }
}

/// Tiny complete twisted Edwards curve -x^2+y^2 = 1+d x^2 y^2 over GF(P) of order 8Q.
#[derive(Clone)]
pub struct TinyCurve<const P: u64, const Q: u64> {
    pub g: EdwardsPoint<Tiny<P>>,
    pub d: Num<Tiny<P>>,
    pub a: Num<Tiny<P>>,
    pub b: Num<Tiny<P>>,
    pub u: Num<Tiny<P>>,
}

impl<const P: u64, const Q: u64> TinyCurve<P, Q> {
    /// d: curve coefficient, u: a non-residue, (gx, gy): subgroup generator (all plain data, the
    /// specification re-checks them)
    pub fn new(d: u64, u: u64, gx: u64, gy: u64) -> Self {
        let inv = |x: u64| (1..P).find(|b| x % P * b % P == 1).unwrap();
        let a = 2 * (P + 1 - d) % P * inv(1 + d) % P;
        let b = (P - 4) % P * inv(1 + d) % P;
        TinyCurve {
            g: EdwardsPoint {
                x: Num(Tiny(gx)),
                y: Num(Tiny(gy)),
            },
            d: Num(Tiny(d)),
            a: Num(Tiny(a)),
            b: Num(Tiny(b)),
            u: Num(Tiny(u)),
        }
    }
}

impl<const P: u64, const Q: u64> JubJubParams for TinyCurve<P, Q> {
    type Fr = Tiny<P>;
    type Fs = Tiny<Q>;
    fn edwards_g(&self) -> &EdwardsPoint<Self::Fr> {
        &self.g
    }
    fn edwards_d(&self) -> Num<Self::Fr> {
        self.d
    }
    fn montgomery_a(&self) -> Num<Self::Fr> {
        self.a
    }
    fn montgomery_b(&self) -> Num<Self::Fr> {
        self.b
    }
    fn montgomery_u(&self) -> Num<Self::Fr> {
        self.u
    }
}
