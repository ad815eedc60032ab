//! C19: the proof lifecycle on both engines.
use crate::c17::{CTup, CSolo};
use crate::enc::*;
use crate::rec::Rec;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::circuit::{bitify::c_into_bits_le_strict, bool::CBool, num::CNum};
use fawkes_crypto::core::{
    cs::{Circuit, ConstraintSystem},
    signal::Signal,
    sizedvec::SizedVec,
};
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove, Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, verify, TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use fawkes_crypto::native::num::Num;
use ff::PrimeField;
use pairing::{CurveAffine, CurveProjective, Engine};
use std::io::BufRead;
use typenum::U2;

/// circuit C on witness x, y; t and u satisfy t u = 21 and t = 7
pub struct Lc<F: HF, const C: usize> {
    pub w: Option<[Num<F>; 4]>,
}
impl<F: HF, const C: usize> Default for Lc<F, C> {
    fn default() -> Self {
        Lc { w: None }
    }
}
impl<F: HF, const C: usize> Circuit for Lc<F, C> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let mut v: Vec<CNum<CS>> = (0..4).map(|i| CNum::alloc(cs, self.w.as_ref().map(|w| &w[i]))).collect();
        let (u, t) = (v.pop().unwrap(), v.pop().unwrap());
        let (y, x) = (v.pop().unwrap(), v.pop().unwrap());
        let k = |n: u64| CNum::from_const(cs, &of_u64(n));
        match C {
            1 => {
                (&x * &y).inputize();
                (&t * &u).assert_const(&of_u64(21));
                (&t - k(7)).assert_zero();
            }
            2 => {
                x.inputize();
                (&t * &u).assert_const(&of_u64(21));
                k(5).inputize();
                let v: SizedVec<CNum<CS>, U2> = vec![&x * &y, y.clone()].into_iter().collect();
                (&t - k(7)).assert_zero();
                v.inputize();
            }
            3 => {
                let _ = (&x * &y).square();
                (&t * &u).assert_const(&of_u64(21));
                (&t - k(7)).assert_zero();
            }
            4 => {
                x.is_eq(&y).inputize();
                (&t * &u).assert_const(&of_u64(21));
                (&t - k(7)).assert_zero();
                (&x + &y * of_u64::<F>(3)).inputize();
                let bits = c_into_bits_le_strict(&x);
                bits[0].inputize();
            }
            _ => {
                (&t * &u).assert_const(&of_u64(21));
                let z: CBool<CS> = x.is_zero();
                CTup(z, y.clone(), x.clone()).inputize();
                CSolo(x.square()).inputize();
                (&t - k(7)).assert_zero();
            }
        }
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> {
        None
    }
}
fn published<F: HF, const C: usize>(c: &Lc<F, C>) -> Vec<Num<F>> {
    let cs = Rec::<F>::new();
    c.synthesize(&cs);
    let r: Vec<Num<F>> = cs.publics().iter().map(|x| x.value.unwrap()).collect();
    r
}
fn verdict(r: Option<Result<bool, bellman::SynthesisError>>) -> &'static str {
    match r {
        None => "panic",
        Some(Err(_)) => "err",
        Some(Ok(true)) => "true",
        Some(Ok(false)) => "false",
    }
}

macro_rules! engine {
    ($m:ident, $e:path, $eng:ident) => {
        pub mod $m {
            use super::*;
            use $e::{Fq, Fr, G1Affine, G2Affine, $eng};

            fn rekey(k: &TruncatedVerifyingKey<$eng>, f: &str) -> Option<TruncatedVerifyingKey<$eng>> {
                guard(|| match f {
                    "data" => TruncatedVerifyingKey::<$eng>::from_data(&k.into_data()),
                    "json" => {
                        let s = serde_json::to_string(&k.into_data()).unwrap();
                        TruncatedVerifyingKey::<$eng>::from_data(&serde_json::from_str::<TruncatedVerifyingKeyData<Fq>>(&s).unwrap())
                    }
                    "borsh" => {
                        let b = k.into_data().try_to_vec().unwrap();
                        TruncatedVerifyingKey::<$eng>::from_data(&TruncatedVerifyingKeyData::<Fq>::try_from_slice(&b).unwrap())
                    }
                    "compressed" => {
                        let mut b = vec![];
                        k.write(&mut b).unwrap();
                        TruncatedVerifyingKey::<$eng>::read(&b[..]).unwrap()
                    }
                    _ => k.clone(),
                })
            }
            fn clone_proof(p: &Proof<$eng>) -> Proof<$eng> {
                Proof(p.0.clone())
            }
            fn reproof(p: &Proof<$eng>, f: &str) -> Option<Proof<$eng>> {
                guard(|| match f {
                    "data" => Proof::<$eng>::from_data(&p.into_data()),
                    "json" => {
                        let s = serde_json::to_string(&p.into_data()).unwrap();
                        Proof::<$eng>::from_data(&serde_json::from_str::<ProofData<Fq>>(&s).unwrap())
                    }
                    "borsh" => {
                        let b = p.into_data().try_to_vec().unwrap();
                        Proof::<$eng>::from_data(&ProofData::<Fq>::try_from_slice(&b).unwrap())
                    }
                    "compressed" => {
                        let mut b = vec![];
                        p.write(&mut b).unwrap();
                        Proof::<$eng>::read(&b[..]).unwrap()
                    }
                    _ => clone_proof(p),
                })
            }
            fn add1(p: &G1Affine) -> G1Affine {
                let mut q = p.into_projective();
                q.add_assign_mixed(&G1Affine::one());
                q.into_affine()
            }
            fn add2(p: &G2Affine) -> G2Affine {
                let mut q = p.into_projective();
                q.add_assign_mixed(&G2Affine::one());
                q.into_affine()
            }
            fn altkey(k: &TruncatedVerifyingKey<$eng>, h: &str, n: usize) -> TruncatedVerifyingKey<$eng> {
                let mut k = k.clone();
                match h {
                    "ic" => k.ic[n - 1] = add1(&k.ic[n - 1]),
                    "swapic" => k.ic.swap(n - 1, n),
                    "alpha" => k.alpha_g1 = add1(&k.alpha_g1),
                    "beta" => k.beta_g2 = add2(&k.beta_g2),
                    "gamma" => k.gamma_g2 = add2(&k.gamma_g2),
                    _ => k.delta_g2 = add2(&k.delta_g2),
                }
                k
            }
            fn altproof(p: &Proof<$eng>, h: &str) -> Proof<$eng> {
                let mut p = p.0.clone();
                match h {
                    "nega" => p.a.negate(),
                    "negb" => p.b.negate(),
                    "negc" => p.c.negate(),
                    "negab" => {
                        p.a.negate();
                        p.b.negate();
                    }
                    "swapac" => std::mem::swap(&mut p.a, &mut p.c),
                    "addc" => p.c = add1(&p.c),
                    "zeroa" => p.a = G1Affine::zero(),
                    "zerob" => p.b = G2Affine::zero(),
                    _ => p.c = G1Affine::zero(),
                }
                Proof(p)
            }
            type Prm = fawkes_crypto::helpers::groth16::prover::Parameters<$eng>;
            fn setup(c: usize) -> Option<Prm> {
                guard(|| match c {
                    1 => generate_keys::<$eng, Lc<Fr, 1>>(),
                    2 => generate_keys::<$eng, Lc<Fr, 2>>(),
                    3 => generate_keys::<$eng, Lc<Fr, 3>>(),
                    4 => generate_keys::<$eng, Lc<Fr, 4>>(),
                    _ => generate_keys::<$eng, Lc<Fr, 5>>(),
                })
            }
            fn make<const C: usize>(w: [Num<Fr>; 4], prm: &Prm) -> (Option<Proof<$eng>>, Vec<Num<Fr>>) {
                let c = Lc::<Fr, C> { w: Some(w) };
                let p = published(&c);
                (guard(|| prove(&c, prm)), p)
            }
            pub fn history(o: &mut Out, ops: &[Value], r: &mut R) {
                let mut keys: Vec<TruncatedVerifyingKey<$eng>> = vec![];
                let mut prms: Vec<Option<(usize, Prm)>> = vec![];
                let mut proofs: Vec<Proof<$eng>> = vec![];
                let mut pubs: Vec<Vec<Num<Fr>>> = vec![];
                let mut ev = vec![];
                let u = |x: &Value| x.as_u64().unwrap() as usize;
                let s = |x: &Value| x.as_str().unwrap().to_string();
                for op in ops {
                    let mut e = op.clone();
                    let mut stop = false;
                    match op["o"].as_str().unwrap() {
                        "setup" => {
                            let c = u(&op["c"]);
                            match setup(c) {
                                Some(p) => {
                                    keys.push(truncate_verifying_key(&p.vk));
                                    prms.push(Some((c, p)));
                                    e["out"] = json!("ok");
                                }
                                None => {
                                    // nothing accepts a setup that panics
                                    e["o"] = json!("rekey");
                                    e["i"] = json!(1);
                                    e["out"] = json!("panic");
                                    stop = true;
                                }
                            }
                        }
                        "prove" => {
                            let (c, prm) = prms[u(&op["k"]) - 1].as_ref().unwrap();
                            let b: Num<Fr> = r.bnum();
                            let (x, y): (Num<Fr>, Num<Fr>) = match u(&op["w"]) {
                                1 => (of_u64(0), of_u64(1)),
                                2 => (of_u64(1), of_u64(1)),
                                3 => (b, b),
                                4 => (b, of_u64(0)),
                                5 => (of_u64(3), of_u64(5)),
                                _ => (b, r.bnum()),
                            };
                            let (t, q): (Num<Fr>, Num<Fr>) = match u(&op["bad"]) {
                                0 => (of_u64(7), of_u64(3)),
                                1 => (of_u64(3), of_u64(7)),
                                _ => (of_u64(7), of_u64(4)),
                            };
                            let w = [x, y, t, q];
                            let (p, pb) = match c {
                                1 => make::<1>(w, prm),
                                2 => make::<2>(w, prm),
                                3 => make::<3>(w, prm),
                                4 => make::<4>(w, prm),
                                _ => make::<5>(w, prm),
                            };
                            e["x"] = enc(&x);
                            e["y"] = enc(&y);
                            e["pub"] = enc_vec(&pb);
                            e["out"] = json!(if p.is_some() { "ok" } else { "panic" });
                            match p {
                                Some(p) => proofs.push(p),
                                None => stop = true,
                            }
                            pubs.push(pb);
                        }
                        "rekey" => match rekey(&keys[u(&op["i"]) - 1], &s(&op["f"])) {
                            Some(k) => {
                                keys.push(k);
                                prms.push(None);
                                e["out"] = json!("ok");
                            }
                            None => {
                                e["out"] = json!("panic");
                                stop = true;
                            }
                        },
                        "reproof" => {
                            let i = u(&op["i"]) - 1;
                            let mut f = s(&op["f"]);
                            // the compressed form has no point at infinity
                            let z = &proofs[i].0;
                            if f == "compressed" && (z.a.is_zero() || z.b.is_zero() || z.c.is_zero()) {
                                f = "data".to_string();
                            }
                            match reproof(&proofs[i], &f) {
                                Some(k) => {
                                    proofs.push(k);
                                    let p = pubs[i].clone();
                                    pubs.push(p);
                                    e["out"] = json!("ok");
                                }
                                None => {
                                    e["out"] = json!("panic");
                                    stop = true;
                                }
                            }
                        }
                        "altkey" => {
                            let k = altkey(&keys[u(&op["i"]) - 1], &s(&op["h"]), u(&op["n"]));
                            keys.push(k);
                            prms.push(None);
                        }
                        "altproof" => {
                            let i = u(&op["i"]) - 1;
                            let p = altproof(&proofs[i], &s(&op["h"]));
                            proofs.push(p);
                            let p = pubs[i].clone();
                            pubs.push(p);
                        }
                        _ => {
                            let (k, p) = (u(&op["k"]) - 1, u(&op["p"]) - 1);
                            let n = u(&op["n"]);
                            let mut x = pubs[p].clone();
                            match op["m"].as_str().unwrap() {
                                "inc" if !x.is_empty() => {
                                    let i = n % x.len();
                                    x[i] = crate::pts::fadd(x[i], of_u64(1));
                                }
                                "neg" if !x.is_empty() => {
                                    let i = n % x.len();
                                    x[i] = crate::pts::fsub(of_u64(0), x[i]);
                                }
                                "short" => {
                                    x.pop();
                                }
                                "long" => x.push(of_u64(n as u64 % 2)),
                                "swap" if x.len() > 1 => {
                                    let i = n % (x.len() - 1);
                                    x.swap(i, i + 1);
                                }
                                "other" => x = pubs[n % pubs.len()].clone(),
                                "zero" => x = vec![of_u64(0); x.len()],
                                _ => {}
                            }
                            e["x"] = enc_vec(&x);
                            let x: Vec<Fr> = x.iter().map(|v| v.0).collect();
                            e["out"] = json!(verdict(guard(|| verify(&keys[k], &proofs[p], &x))));
                        }
                    }
                    ev.push(e);
                    if stop {
                        break;
                    }
                }
                o.ev(json!({"t":"hist","f":enc_mod::<Fr>(),"ops":ev}));
            }
            fn g1(x: &Num<Fr>) -> G1Affine {
                G1Affine::one().mul(x.0.into_repr()).into_affine()
            }
            fn g2(x: &Num<Fr>) -> G2Affine {
                G2Affine::one().mul(x.0.into_repr()).into_affine()
            }
            /// keys and proofs of known exponents
            pub fn algebra(o: &mut Out, n: usize, r: &mut R) {
                use crate::pts::*;
                for i in 0..n {
                    let pick = |r: &mut R| -> Num<Fr> {
                        match r.below(8) {
                            0 => of_u64(0),
                            1 => of_u64(1),
                            2 => fsub(of_u64(0), of_u64(1)),
                            3 => of_u64(r.below(4)),
                            _ => r.bnum(),
                        }
                    };
                    let nic = match i {
                        7 => 20,
                        11 => 70,
                        16 => 260,
                        _ => [1usize, 2, 3, 6, 2, 0][i % 6],
                    };
                    let ic: Vec<Num<Fr>> = (0..nic).map(|_| pick(r)).collect();
                    let nx = match r.below(8) {
                        0 => nic,
                        1 => nic + 1,
                        2 => nic.saturating_sub(2),
                        _ => nic.saturating_sub(1),
                    };
                    let x: Vec<Num<Fr>> = (0..nx).map(|_| pick(r)).collect();
                    let (al, be, ga, mut de) = (pick(r), pick(r), pick(r), pick(r));
                    let (a, b) = (pick(r), pick(r));
                    let mut c = pick(r);
                    let mut acc = ic.get(0).cloned().unwrap_or(of_u64(0));
                    for (u, v) in x.iter().zip(ic.iter().skip(1)) {
                        acc = fadd(acc, fmul(*u, *v));
                    }
                    let rest = fsub(fsub(fmul(a, b), fmul(al, be)), fmul(acc, ga));
                    if i % 5 < 3 {
                        // a proof that satisfies the equation
                        if de == of_u64(0) {
                            de = of_u64(2);
                        }
                        c = fmul(rest, finv(de));
                        if i % 5 == 2 && r.bool() {
                            c = fadd(c, of_u64(1));
                        }
                    }
                    let key = TruncatedVerifyingKey::<$eng> {
                        alpha_g1: g1(&al),
                        beta_g2: g2(&be),
                        gamma_g2: g2(&ga),
                        delta_g2: g2(&de),
                        ic: ic.iter().map(g1).collect(),
                    };
                    let proof = Proof(bellman::groth16::Proof { a: g1(&a), b: g2(&b), c: g1(&c) });
                    let xs: Vec<Fr> = x.iter().map(|v| v.0).collect();
                    let out = verdict(guard(|| verify::<$eng>(&key, &proof, &xs)));
                    o.ev(json!({"t":"alg","f":enc_mod::<Fr>(),"key":{"alpha":enc(&al),"beta":enc(&be),"gamma":enc(&ga),"delta":enc(&de),"ic":enc_vec(&ic)},
                        "a":enc(&a),"b":enc(&b),"c":enc(&c),"x":enc_vec(&x),"out":out}));
                }
            }
            #[allow(dead_code)]
            fn is_engine<E: Engine>() {}
        }
    };
}
engine!(bn, pairing::bn256, Bn256);
engine!(bls, pairing::bls12_381, Bls12);

pub fn read_ops(path: &str) -> Vec<Vec<Value>> {
    let f = match std::fs::File::open(path) {
        Ok(f) => f,
        Err(_) => {
            eprintln!("no programs {}", path);
            std::process::exit(2)
        }
    };
    std::io::BufReader::new(f)
        .lines()
        .map(|l| serde_json::from_str::<Value>(&l.unwrap()).unwrap()["ops"].as_array().unwrap().clone())
        .collect()
}
pub fn run(c: &Ctx) {
    let progs = read_ops(&format!("{}/programs.ndjson", c.dir));
    let (seed, dir) = (c.seed, c.dir.clone());
    let n = progs.len();
    let (nb, nl, na) = (c.n(n * 2 / 3, n), c.n(n / 3, n), c.n(400, 4000));
    let p = &progs;
    let (c1, c2) = (c, c);
    let _ = (seed, dir);
    std::thread::scope(|s| {
        s.spawn(move || {
            let mut o = c1.out("bn.ndjson");
            let mut r = R::new(c1.seed, 19);
            bn::algebra(&mut o, na, &mut r);
            for q in p[..nb].iter() {
                bn::history(&mut o, q, &mut r);
            }
        });
        s.spawn(move || {
            let mut o = c2.out("bls.ndjson");
            let mut r = R::new(c2.seed, 20);
            bls::algebra(&mut o, na / 2, &mut r);
            for q in p[n - nl..].iter() {
                bls::history(&mut o, q, &mut r);
            }
        });
    });
}
