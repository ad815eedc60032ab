//! Points: encodings, enumeration, projective representations.
use crate::enc::*;
use crate::tiny::TinyCurve;
use fawkes_crypto::native::ecc::*;
use fawkes_crypto::native::num::Num;
use ff::{Field, PrimeField, PrimeFieldRepr};

pub type Pt<F> = EdwardsPoint<F>;
pub type Ex<F> = EdwardsPointEx<F>;
pub type Mp<F> = MontgomeryPoint<F>;

pub fn ept<F: HF>(p: &Pt<F>) -> Value {
    json!([enc(&p.x), enc(&p.y)])
}
pub fn eex<F: HF>(p: &Ex<F>) -> Value {
    json!([enc(&p.x), enc(&p.y), enc(&p.t), enc(&p.z)])
}
pub fn empt<F: HF>(p: &Mp<F>) -> Value {
    json!([enc(&p.x), enc(&p.y)])
}
pub fn eompt<F: HF>(p: &Option<Mp<F>>) -> Value {
    match p {
        Some(p) => empt(p),
        None => json!(["none"]),
    }
}
pub fn eopt<F: HF>(p: &Option<Pt<F>>) -> Value {
    match p {
        Some(p) => ept(p),
        None => json!(["none"]),
    }
}

// raw field arithmetic (independent of the library)
pub fn fmul<F: HF>(a: Num<F>, b: Num<F>) -> Num<F> {
    let mut t = a.0;
    t.mul_assign(&b.0);
    Num(t)
}
pub fn fadd<F: HF>(a: Num<F>, b: Num<F>) -> Num<F> {
    let mut t = a.0;
    t.add_assign(&b.0);
    Num(t)
}
pub fn fsub<F: HF>(a: Num<F>, b: Num<F>) -> Num<F> {
    let mut t = a.0;
    t.sub_assign(&b.0);
    Num(t)
}
pub fn finv<F: HF>(a: Num<F>) -> Num<F> {
    Num(a.0.inverse().unwrap())
}
pub fn on_curve<F: HF>(x: Num<F>, y: Num<F>, d: Num<F>) -> bool {
    let (x2, y2) = (fmul(x, x), fmul(y, y));
    fsub(y2, x2) == fadd(of_u64(1), fmul(d, fmul(x2, y2)))
}
/// every affine point of a tiny curve
pub fn points<const P: u64, const Q: u64>(c: &TinyCurve<P, Q>) -> Vec<Pt<crate::tiny::Tiny<P>>> {
    let els = all::<crate::tiny::Tiny<P>>();
    let mut v = vec![];
    for x in els.iter() {
        for y in els.iter() {
            if on_curve(*x, *y, c.d) {
                v.push(EdwardsPoint { x: *x, y: *y });
            }
        }
    }
    assert!(v.len() as u64 == 8 * Q || P < 20);
    v
}
/// the projective representation of p with denominator z
pub fn rep<F: HF>(p: &Pt<F>, z: Num<F>) -> Ex<F> {
    EdwardsPointEx {
        x: fmul(p.x, z),
        y: fmul(p.y, z),
        t: fmul(fmul(p.x, p.y), z),
        z,
    }
}
pub fn nz<F: HF>(r: &mut R) -> Num<F> {
    loop {
        let z = r.bnum::<F>();
        if !z.0.is_zero() {
            return z;
        }
    }
}
/// affine addition, independent of the library
pub fn aadd<F: HF>(p: &Pt<F>, q: &Pt<F>, d: Num<F>) -> Pt<F> {
    let a = fmul(p.x, q.y);
    let b = fmul(q.x, p.y);
    let c = fmul(p.x, q.x);
    let e = fmul(p.y, q.y);
    let t = fmul(d, fmul(c, e));
    EdwardsPoint {
        x: fmul(fadd(a, b), finv(fadd(of_u64(1), t))),
        y: fmul(fadd(c, e), finv(fsub(of_u64(1), t))),
    }
}
pub fn amul<F: HF>(p: &Pt<F>, n: &num::bigint::BigUint, d: Num<F>) -> Pt<F> {
    let mut acc = EdwardsPoint { x: of_u64(0), y: of_u64(1) };
    for b in n.to_str_radix(2).bytes() {
        acc = aadd(&acc, &acc, d);
        if b == b'1' {
            acc = aadd(&acc, p, d);
        }
    }
    acc
}
/// a random curve point (any order), independent of the library
pub fn rand_point<F: HF>(r: &mut R, d: Num<F>) -> Pt<F> {
    loop {
        let y: Num<F> = r.num();
        let y2 = fmul(y, y);
        let den = fadd(fmul(d, y2), of_u64(1));
        if den.0.is_zero() {
            continue;
        }
        let x2 = fmul(fsub(y2, of_u64(1)), finv(den));
        if let Some(x) = x2.0.sqrt() {
            let x = if r.bool() { Num(x) } else { fsub(of_u64(0), Num(x)) };
            return EdwardsPoint { x, y };
        }
    }
}
pub fn is_odd<F: HF>(x: &Num<F>) -> bool {
    x.0.into_repr().is_odd()
}
/// all points of order dividing 8, as multiples of q*random
pub fn low_order<F: HF>(r: &mut R, d: Num<F>, q: &num::bigint::BigUint) -> Vec<Pt<F>> {
    loop {
        let p = amul(&rand_point(r, d), q, d);
        let mut v = vec![EdwardsPoint { x: of_u64(0), y: of_u64(1) }];
        let mut t = p;
        while !(t.x.0.is_zero() && t.y == of_u64(1)) {
            v.push(t);
            t = aadd(&t, &p, d);
        }
        if v.len() == 8 {
            return v;
        }
    }
}
