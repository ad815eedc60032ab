//! C11: native signatures.
use crate::enc::*;
use crate::pos::*;
use crate::pts::*;
use crate::tiny::{Tiny, TinyCurve};
use fawkes_crypto::native::ecc::*;
use fawkes_crypto::native::eddsaposeidon::*;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use num::bigint::BigUint;

fn yw<F: HF>(x: Num<F>, d: Num<F>) -> Value {
    let x2 = fmul(x, x);
    let v = fmul(fadd(of_u64(1), x2), finv(fsub(of_u64(1), fmul(d, x2))));
    enc(&v.0.sqrt().map(Num).unwrap_or(of_u64(0)))
}
struct S<'a, F: HF, J: JubJubParams<Fr = F>> {
    name: &'a str,
    k: usize,
    prm: &'a PoseidonParams<F>,
    j: &'a J,
}
impl<'a, F: HF, J: JubJubParams<Fr = F>> S<'a, F, J>
where
    J::Fs: HF,
{
    fn sign(&self, o: &mut Out, sk: Num<J::Fs>, m: Num<F>) -> Option<(Num<J::Fs>, Num<F>, Num<F>)> {
        let v = guard(|| {
            let (s, r) = eddsaposeidon_sign(sk, m, self.prm, self.j);
            let again = eddsaposeidon_sign(sk, m, self.prm, self.j);
            let a = self.j.edwards_g().mul(sk, self.j).x;
            let ok = eddsaposeidon_verify(s, r, a, m, self.prm, self.j);
            (s, r, a, ok, again == (s, r))
        });
        match v {
            Some((s, r, a, ok, again)) => {
                o.ev(json!({"t":"sign","c":self.name,"k":self.k,"g":ept(self.j.edwards_g()),"sk":enc(&sk),"m":enc(&m),
                    "s":enc(&s),"r":enc(&r),"a":enc(&a),"ok":ok,"again":again}));
                Some((s, r, a))
            }
            None => {
                o.ev(json!({"t":"verify","c":self.name,"k":self.k,"k2":"panic","sk":enc(&sk),"m":enc(&m)}));
                None
            }
        }
    }
    fn verify(&self, o: &mut Out, s: Num<J::Fs>, r: Num<F>, a: Num<F>, m: Num<F>) {
        let d = self.j.edwards_d();
        let v = guard(|| eddsaposeidon_verify(s, r, a, m, self.prm, self.j));
        o.ev(json!({"t":"verify","c":self.name,"k":self.k,"g":ept(self.j.edwards_g()),"s":enc(&s),"r":enc(&r),"a":enc(&a),
            "m":enc(&m),"yr":yw(r, d),"ya":yw(a, d),"k2":if v.is_some() {"ok"} else {"panic"},"v":v.unwrap_or(false)}));
    }
}
fn tiny<const P: u64, const Q: u64>(c: &Ctx, o: &mut Out, pf: &mut PrmFile, r: &mut R, name: &str, j: &TinyCurve<P, Q>) {
    let prm = PoseidonParams::<Tiny<P>>::new(4, 2, 2);
    let k = pf.add(&prm);
    let s = S { name, k, prm: &prm, j };
    for sk in all::<Tiny<Q>>() {
        for m in all::<Tiny<P>>() {
            s.sign(o, sk, m);
        }
    }
    let d = j.d;
    for _ in 0..c.n(1, 5) {
        let m = r.num::<Tiny<P>>();
        for a in all::<Tiny<P>>() {
            for rr in all::<Tiny<P>>() {
                let row: Option<Vec<bool>> =
                    guard(|| all::<Tiny<Q>>().iter().map(|s| eddsaposeidon_verify(*s, rr, a, m, &prm, j)).collect());
                o.ev(json!({"t":"vrow","c":name,"k":k,"g":ept(&j.g),"m":enc(&m),"a":enc(&a),"r":enc(&rr),
                    "ya":yw(a, d),"yr":yw(rr, d),"v":row.unwrap_or(vec![])}));
            }
        }
    }
    // other widths
    let prm = PoseidonParams::<Tiny<P>>::new(6, 2, 2);
    let k = pf.add(&prm);
    let s = S { name, k, prm: &prm, j };
    for _ in 0..40 {
        let (sk, m) = (r.num(), r.num());
        if let Some((x, rr, a)) = s.sign(o, sk, m) {
            s.verify(o, x, rr, a, r.num());
        }
    }
}
fn real<F: HF, J: JubJubParams<Fr = F>>(c: &Ctx, o: &mut Out, pf: &mut PrmFile, r: &mut R, name: &str, j: &J)
where
    J::Fs: HF,
{
    let d = j.edwards_d();
    let q = modulus::<J::Fs>();
    let prm = PoseidonParams::<F>::new(4, 8, 54);
    let k = pf.add(&prm);
    let s = S { name, k, prm: &prm, j };
    let low = low_order(r, d, &q);
    let one = of_u64::<F>(1);
    let bs = boundary::<J::Fs>();
    let bm = boundary::<F>();
    let n = c.n(6, 60);
    for i in 0..n {
        let sk: Num<J::Fs> = if i % 2 == 0 { bs[i % bs.len()] } else { r.num() };
        let m: Num<F> = if i % 3 == 0 { bm[(i / 3) % bm.len()] } else { r.num() };
        let (x, rr, a) = match s.sign(o, sk, m) {
            Some(t) => t,
            None => continue,
        };
        s.verify(o, x, rr, a, m);
        // every field altered
        let alt = match i % 4 { 0 => one, 1 => r.num(), 2 => fsub(of_u64(0), of_u64(2)), _ => of_u64(8) };
        s.verify(o, x, rr, a, fadd(m, alt));
        s.verify(o, Num::<J::Fs>::from(1u64) + x, rr, a, m);
        s.verify(o, x, fsub(of_u64(0), rr), a, m);
        s.verify(o, x, rr, fsub(of_u64(0), a), m);
        s.verify(o, r.num(), rr, a, m);
        // malformed and off-subgroup coordinates
        let l = low[1 + i % 7];
        let g8 = amul(&rand_point(r, d), &BigUint::from(8u32), d);
        let off = aadd(&g8, &l, d).x;
        s.verify(o, x, off, a, m);
        s.verify(o, x, rr, off, m);
        s.verify(o, x, r.num(), a, m);
        s.verify(o, x, rr, r.num(), m);
        s.verify(o, x, l.x, l.x, m);
        s.verify(o, x, g8.x, a, m);
        // neutral key and nonce: s G = O + h O holds exactly for s = 0
        s.verify(o, of_u64(0), of_u64(0), of_u64(0), m);
        s.verify(o, x, of_u64(0), of_u64(0), m);
    }
}
pub fn run(c: &Ctx) {
    let mut r = c.rng(11);
    {
        let mut o = c.out("small.ndjson");
        let mut pf = PrmFile(c.out("params_small.ndjson"));
        tiny(c, &mut o, &mut pf, &mut r, "c73", &c73());
        tiny(c, &mut o, &mut pf, &mut r, "c97", &c97());
    }
    let mut o = c.out("big.ndjson");
    let mut pf = PrmFile(c.out("params_big.ndjson"));
    real(c, &mut o, &mut pf, &mut r, "bn", &fawkes_crypto::native::bn256::JubJubBN256::new());
    real(c, &mut o, &mut pf, &mut r, "bls", &fawkes_crypto::native::bls12_381::JubJubBLS12_381::new());
}
