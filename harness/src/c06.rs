//! C06: decompression, selection by y, map-to-curve, random points.
use crate::enc::*;
use crate::pts::*;
use crate::tiny::TinyCurve;
use fawkes_crypto::native::ecc::*;
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;
use rand::Rng;

struct Rr<'a>(&'a mut R);
impl<'a> Rng for Rr<'a> {
    fn next_u32(&mut self) -> u32 {
        (self.0).0.next_u32()
    }
}

/// some y with (x, y) on the curve: a witness for the specification
fn root_y<F: HF>(x: Num<F>, d: Num<F>) -> Num<F> {
    let x2 = fmul(x, x);
    let v = fmul(fadd(of_u64(1), x2), finv(fsub(of_u64(1), fmul(d, x2))));
    v.0.sqrt().map(Num).unwrap_or(of_u64(0))
}
/// the even root of the Montgomery right-hand side at the mapped abscissa: a witness
pub fn map_root<F: HF, J: JubJubParams<Fr = F>>(t: Num<F>, j: &J) -> Num<F> {
    let (a, b, u) = (j.montgomery_a(), j.montgomery_b(), j.montgomery_u());
    let s = fadd(t, of_u64(1));
    let w = fmul(u, fmul(s, s));
    let rhs = |x: Num<F>| fmul(fadd(fmul(fmul(x, x), fadd(x, a)), x), finv(b));
    let x2 = fmul(fsub(of_u64(0), finv(a)), fadd(of_u64(1), finv(w)));
    let m = rhs(x2).0.sqrt().or_else(|| rhs(fmul(w, x2)).0.sqrt()).map(Num).unwrap_or(of_u64(0));
    if is_odd(&m) { fsub(of_u64(0), m) } else { m }
}

fn one<F: HF, J: JubJubParams<Fr = F>>(o: &mut Out, name: &str, j: &J, x: Num<F>) {
    let d = j.edwards_d();
    match guard(|| eopt(&EdwardsPoint::subgroup_decompress(x, j))) {
        Some(v) => o.ev(json!({"t":"dec","c":name,"x":enc(&x),"w":enc(&root_y(x, d)),"r":v})),
        None => o.ev(json!({"t":"panic","c":name,"op":"dec","x":enc(&x)})),
    }
    for s in [false, true].iter() {
        match guard(|| eopt(&EdwardsPoint::get_for_y(x, *s, j))) {
            Some(v) => o.ev(json!({"t":"fory","c":name,"y":enc(&x),"s":s,"r":v})),
            None => o.ev(json!({"t":"panic","c":name,"op":"fory","x":enc(&x)})),
        }
    }
    if x != fsub(of_u64(0), of_u64(1)) {
        let raw = || EdwardsPoint::from_scalar_raw(x, j.montgomery_a(), j.montgomery_b(), j.montgomery_u());
        match guard(|| (ept(&EdwardsPoint::from_scalar(x, j)), ept(&raw()))) {
            Some((v, w)) => o.ev(json!({"t":"map","c":name,"x":enc(&x),"w":enc(&map_root(x, j)),"r":v,"raw":w})),
            None => o.ev(json!({"t":"panic","c":name,"op":"map","x":enc(&x)})),
        }
    }
}
fn rands<F: HF, J: JubJubParams<Fr = F>>(o: &mut Out, r: &mut R, name: &str, j: &J, n: usize) {
    for _ in 0..n {
        let v = guard(|| ept(&EdwardsPoint::<F>::rand(&mut Rr(r), j)));
        o.ev(match v {
            Some(v) => json!({"t":"rand","c":name,"r":v}),
            None => json!({"t":"panic","c":name,"op":"rand"}),
        });
    }
}
fn tiny<const P: u64, const Q: u64>(o: &mut Out, r: &mut R, name: &str, j: &TinyCurve<P, Q>) {
    for x in all() {
        one(o, name, j, x);
    }
    rands(o, r, name, j, 200);
}
fn real<F: HF, J: JubJubParams<Fr = F>>(c: &Ctx, o: &mut Out, r: &mut R, name: &str, j: &J)
where
    J::Fs: HF,
{
    let d = j.edwards_d();
    let q = modulus::<J::Fs>();
    let mut xs = boundary::<F>();
    let low = low_order(r, d, &q);
    for l in low.iter() {
        let g8 = amul(&rand_point(r, d), &BigUint::from(8u32), d);
        let p = aadd(&g8, l, d);
        xs.extend_from_slice(&[l.x, l.y, p.x, p.y]);
        xs.push(fsub(of_u64(0), p.x));
    }
    for _ in 0..c.n(10, 200) {
        xs.push(r.num());
        xs.push(rand_point(r, d).x);
        xs.push(rand_point(r, d).y);
        let g8 = amul(&rand_point(r, d), &BigUint::from(8u32), d);
        xs.push(g8.x);
    }
    for x in xs {
        one(o, name, j, x);
    }
    rands(o, r, name, j, c.n(10, 100));
}
pub fn run(c: &Ctx) {
    let mut o = c.out("small.ndjson");
    let mut r = c.rng(6);
    tiny(&mut o, &mut r, "c73", &c73());
    tiny(&mut o, &mut r, "c97", &c97());
    tiny(&mut o, &mut r, "c89", &c89());
    tiny(&mut o, &mut r, "c101", &c101());
    let mut o = c.out("big.ndjson");
    real(c, &mut o, &mut r, "bn", &fawkes_crypto::native::bn256::JubJubBN256::new());
    real(c, &mut o, &mut r, "bls", &fawkes_crypto::native::bls12_381::JubJubBLS12_381::new());
}
