//! C07: built-in curve parameters.
use crate::enc::*;
use crate::pts::*;
use fawkes_crypto::native::ecc::*;
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;

fn params<F: HF, J: JubJubParams<Fr = F>>(o: &mut Out, r: &mut R, c: &Ctx, name: &str, mk: &dyn Fn() -> J)
where
    J::Fs: HF,
{
    for _ in 0..c.n(3, 10) {
        let j = match guard(|| mk()) {
            Some(j) => j,
            None => {
                o.ev(json!({"t":"panic","c":name}));
                continue;
            }
        };
        let jj = j.clone();
        for j in [j, jj].iter() {
            let seed = guard(|| Num::<F>::from_seed(fawkes_crypto::constants::SEED_EDWARDS_G)).unwrap_or(of_u64(0));
            o.ev(json!({"t":"params","c":name,"p":big(&modulus::<F>()),"q":big(&modulus::<J::Fs>()),
                "d":enc(&j.edwards_d()),"a":enc(&j.montgomery_a()),"b":enc(&j.montgomery_b()),"u":enc(&j.montgomery_u()),
                "g":ept(j.edwards_g()),"seed":enc(&seed),"m":enc(&crate::c06::map_root(seed, j))}));
        }
    }
    // multiples of the base point
    let j = mk();
    let q = modulus::<J::Fs>();
    let one = BigUint::from(1u32);
    let mut ss = vec![one.clone(), BigUint::from(2u32), BigUint::from(8u32), &q - &one, (&q + &one) >> 1];
    for _ in 0..c.n(6, 100) {
        ss.push(r.big(40) % &q);
    }
    ss.push(BigUint::from(0u32));
    for s in ss {
        let sn: Num<J::Fs> = of_big(&s);
        match guard(|| ept(&j.edwards_g().mul(sn, &j))) {
            Some(v) => o.ev(json!({"t":"mul","c":name,"g":ept(j.edwards_g()),"s":big(&s),"r":v})),
            None => o.ev(json!({"t":"panic","c":name})),
        }
    }
}
pub fn run(c: &Ctx) {
    let mut o = c.out("big.ndjson");
    let mut r = c.rng(7);
    params(&mut o, &mut r, c, "bn", &fawkes_crypto::native::bn256::JubJubBN256::new);
    params(&mut o, &mut r, c, "bls", &fawkes_crypto::native::bls12_381::JubJubBLS12_381::new);
}
