//! Encoding of observations as JSON events for TLC.  Field elements of tiny fields are integers,
//! others are little-endian arrays of base-2^15 digits without leading zeros (BigNat.tla).
use crate::tiny::{Tiny, TinyCurve};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use ff::{PrimeField, PrimeFieldRepr};
use num::bigint::BigUint;
use rand::{Rng, SeedableRng, XorShiftRng};
pub use serde_json::{json, Value};
use std::{
    fs::File,
    io::{BufWriter, Write},
    panic::{catch_unwind, AssertUnwindSafe},
};

/// Fields the harness knows: a name and whether it is tiny.
pub trait HF: Field {
    const SMALL: bool;
    fn name() -> String;
}
impl<const P: u64> HF for Tiny<P> {
    const SMALL: bool = true;
    fn name() -> String {
        format!("tiny{}", P)
    }
}
macro_rules! big_field {
    ($t:ty, $n:expr) => {
        impl HF for $t {
            const SMALL: bool = false;
            fn name() -> String {
                $n.to_string()
            }
        }
    };
}
pub use crate::m127::M127;

big_field!(fawkes_crypto::native::bn256::Fr, "bn_fr");
big_field!(fawkes_crypto::native::bn256::Fs, "bn_fs");
big_field!(fawkes_crypto::native::bls12_381::Fr, "bls_fr");
big_field!(fawkes_crypto::native::bls12_381::Fs, "bls_fs");
big_field!(pairing::bn256::Fq, "bn_fq");
big_field!(pairing::bls12_381::Fq, "bls_fq");
big_field!(M127, "m127");

/// digits base 2^15, little endian, no leading zero
pub fn limbs(words: &[u64]) -> Value {
    let mut v: Vec<u32> = vec![];
    let (mut acc, mut n) = (0u128, 0);
    for w in words {
        acc |= (*w as u128) << n;
        n += 64;
        while n >= 15 {
            v.push((acc & 0x7fff) as u32);
            acc >>= 15;
            n -= 15;
        }
    }
    while acc > 0 {
        v.push((acc & 0x7fff) as u32);
        acc >>= 15;
    }
    while v.last() == Some(&0) {
        v.pop();
    }
    json!(v)
}

pub fn big(b: &BigUint) -> Value {
    let mut words = vec![];
    let bytes = b.to_bytes_le();
    for c in bytes.chunks(8) {
        let mut w = 0u64;
        for (i, x) in c.iter().enumerate() {
            w |= (*x as u64) << (8 * i);
        }
        words.push(w);
    }
    limbs(&words)
}

pub fn words_to_biguint(w: &[u64]) -> BigUint {
    let mut bytes = vec![];
    for x in w {
        bytes.extend_from_slice(&x.to_le_bytes());
    }
    BigUint::from_bytes_le(&bytes)
}

pub fn modulus<F: HF>() -> BigUint {
    words_to_biguint(F::char().as_ref())
}

pub fn enc_mod<F: HF>() -> Value {
    if F::SMALL {
        json!(F::char().as_ref()[0])
    } else {
        json!(F::name())
    }
}

/// canonical residue of a field element
pub fn enc<F: HF>(n: &Num<F>) -> Value {
    let r = n.0.into_repr();
    if F::SMALL {
        json!(r.as_ref()[0])
    } else {
        limbs(r.as_ref())
    }
}
pub fn enc_vec<F: HF>(v: &[Num<F>]) -> Value {
    Value::Array(v.iter().map(|x| enc(x)).collect())
}

/// field element from an integer below the modulus (independent of the library's conversions)
pub fn of_big<F: HF>(b: &BigUint) -> Num<F> {
    let b = b % modulus::<F>();
    let mut repr = <F as PrimeField>::Repr::default();
    let bytes = b.to_bytes_le();
    for (i, x) in bytes.iter().enumerate() {
        if *x != 0 || i / 8 < repr.as_ref().len() {
            repr.as_mut()[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
    }
    Num(F::from_repr(repr).unwrap())
}
pub fn of_u64<F: HF>(x: u64) -> Num<F> {
    of_big(&BigUint::from(x))
}
pub fn to_big<F: HF>(n: &Num<F>) -> BigUint {
    words_to_biguint(n.0.into_repr().as_ref())
}
pub fn all<F: HF>() -> Vec<Num<F>> {
    assert!(F::SMALL);
    (0..F::char().as_ref()[0]).map(of_u64).collect()
}

/// boundary elements of a big field
pub fn boundary<F: HF>() -> Vec<Num<F>> {
    let p = modulus::<F>();
    let one = BigUint::from(1u32);
    let mut v = vec![
        BigUint::from(0u32),
        one.clone(),
        BigUint::from(2u32),
        BigUint::from(3u32),
        &p - &one,
        &p - BigUint::from(2u32),
        (&p - &one) >> 1,
        (&p + &one) >> 1,
    ];
    for k in [8usize, 31, 32, 63, 64, 127, 128, 191, 192, 252, 253] {
        let t = &one << k;
        if t < p {
            v.push(&t - &one);
            v.push(t);
        }
    }
    v.iter().map(of_big).collect()
}

pub struct R(pub XorShiftRng);
impl R {
    pub fn new(seed: u64, stream: u32) -> R {
        let mut r = XorShiftRng::from_seed([
            seed as u32 ^ 0x9e3779b9,
            (seed >> 32) as u32 ^ 0x85ebca6b,
            stream ^ 0xc2b2ae35,
            0x27d4eb2f,
        ]);
        for _ in 0..32 {
            r.next_u32();
        }
        R(r)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.0.next_u64() % n
    }
    pub fn bool(&mut self) -> bool {
        self.0.next_u32() & 16 != 0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| (self.0.next_u32() >> 7) as u8).collect()
    }
    pub fn big(&mut self, nbytes: usize) -> BigUint {
        BigUint::from_bytes_le(&self.bytes(nbytes))
    }
    pub fn num<F: HF>(&mut self) -> Num<F> {
        let b = self.big(F::char().as_ref().len() * 8 + 8);
        of_big(&b)
    }
    /// boundary-biased element
    pub fn bnum<F: HF>(&mut self) -> Num<F> {
        if F::SMALL {
            return self.num();
        }
        if self.below(3) == 0 {
            let b = boundary::<F>();
            let i = self.below(b.len() as u64) as usize;
            b[i]
        } else {
            self.num()
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
}

/// run f, None if it panicked
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// outcome record: {"k":"ok","v":..} / {"k":"panic","v":0}
pub fn outcome(f: impl FnOnce() -> Value) -> Value {
    match guard(f) {
        Some(v) => json!({"k":"ok","v":v}),
        None => json!({"k":"panic","v":0}),
    }
}

pub fn bytes(b: &[u8]) -> Value {
    json!(b)
}

pub struct Out {
    w: BufWriter<File>,
    pub n: usize,
}
impl Out {
    pub fn create(dir: &str, name: &str) -> Out {
        let f = File::create(format!("{}/{}", dir, name)).unwrap();
        Out {
            w: BufWriter::new(f),
            n: 0,
        }
    }
    pub fn ev(&mut self, v: Value) {
        serde_json::to_writer(&mut self.w, &v).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.n += 1;
    }
}
impl Drop for Out {
    fn drop(&mut self) {
        self.w.flush().unwrap();
    }
}

pub struct Ctx {
    pub dir: String,
    pub seed: u64,
    pub thorough: bool,
}
impl Ctx {
    pub fn out(&self, name: &str) -> Out {
        Out::create(&self.dir, name)
    }
    pub fn rng(&self, stream: u32) -> R {
        R::new(self.seed, stream)
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

// tiny curves used everywhere
pub type C73 = TinyCurve<73, 11>;
pub type C97 = TinyCurve<97, 13>;
pub type C89 = TinyCurve<89, 11>;
pub type C101 = TinyCurve<101, 11>;
pub fn c73() -> C73 {
    TinyCurve::new(5, 5, 1, 6)
}
pub fn c97() -> C97 {
    TinyCurve::new(7, 5, 11, 81)
}
pub fn c89() -> C89 {
    TinyCurve::new(33, 3, 1, 53)
}
pub fn c101() -> C101 {
    TinyCurve::new(12, 2, 2, 54)
}
