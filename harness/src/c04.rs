//! C04: encodings of proofs and verifying keys of both pairing engines.
use crate::c03::{mutants, result, tree};
use crate::enc::*;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::helpers::groth16::prover::{Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use ff::{Field, PrimeField, SqrtField};
use num::bigint::BigUint;
use pairing::{CurveAffine, CurveProjective, EncodedPoint, Engine};

/// coordinates as big-endian chunks of a point's uncompressed form: x, y of G1; x.im, x.re, y.im, y.re of G2
pub fn coords<G: CurveAffine>(p: &G, n: usize) -> Vec<BigUint> {
    let u = p.into_uncompressed();
    let b = u.as_ref();
    b.chunks(b.len() / n).map(BigUint::from_bytes_be).collect()
}
/// coordinates [x, y] or [[re, im], [re, im]], [] at infinity
pub fn pt<G: CurveAffine>(p: &G, g: usize) -> Value {
    if p.is_zero() {
        return json!([]);
    }
    let c = coords(p, 2 * g);
    if g == 1 {
        json!([big(&c[0]), big(&c[1])])
    } else {
        json!([[big(&c[1]), big(&c[0])], [big(&c[3]), big(&c[2])]])
    }
}
/// the JSON data form, written independently of the library
pub fn doc1(c: &[BigUint]) -> Value {
    json!([c[0].to_string(), c[1].to_string()])
}
pub fn doc2(c: &[BigUint]) -> Value {
    json!([[c[0].to_string(), c[1].to_string()], [c[2].to_string(), c[3].to_string()]])
}

macro_rules! engine {
    ($m:ident, $name:expr, $e:path, $eng:ident, $w:expr) => {
        pub mod $m {
            use super::*;
            use $e::{Fq, Fq2, G1Affine, G2Affine, $eng};
            pub const NAME: &str = $name;
            pub const W: usize = $w;

            pub fn proof(a: G1Affine, b: G2Affine, c: G1Affine) -> Proof<$eng> {
                Proof(bellman::groth16::Proof { a, b, c })
            }
            pub fn proof_obj(p: &Proof<$eng>) -> Value {
                json!([pt(&p.0.a, 1), pt(&p.0.b, 2), pt(&p.0.c, 1)])
            }
            pub fn key_obj(k: &TruncatedVerifyingKey<$eng>) -> Value {
                json!([
                    pt(&k.alpha_g1, 1),
                    pt(&k.beta_g2, 2),
                    pt(&k.gamma_g2, 2),
                    pt(&k.delta_g2, 2),
                    k.ic.iter().map(|x| pt(x, 1)).collect::<Vec<_>>()
                ])
            }
            pub fn r1(r: &mut R) -> G1Affine {
                G1Affine::one().mul(r.num::<<$eng as ff::ScalarEngine>::Fr>().0.into_repr()).into_affine()
            }
            pub fn r2(r: &mut R) -> G2Affine {
                G2Affine::one().mul(r.num::<<$eng as ff::ScalarEngine>::Fr>().0.into_repr()).into_affine()
            }
            fn fq(b: &BigUint) -> Fq {
                of_big::<Fq>(b).0
            }
            fn fb(x: &Fq) -> BigUint {
                to_big(&fawkes_crypto::native::num::Num(*x))
            }
            fn q() -> BigUint {
                modulus::<Fq>()
            }
            /// data coordinates of points that are not group elements (on the curve outside the subgroup, and off the curve)
            fn bad1(r: &mut R) -> Vec<Vec<BigUint>> {
                let g = coords(&r1(r), 2);
                let (x, y) = (g[0].clone(), g[1].clone());
                let z = BigUint::from(0u32);
                let mut v = vec![
                    vec![y.clone(), x.clone()],
                    vec![x.clone(), z.clone()],
                    vec![z.clone(), y.clone()],
                    vec![z.clone(), BigUint::from(1u32)],
                    vec![BigUint::from(1u32), z.clone()],
                    vec![z.clone(), BigUint::from(2u32)], // of order three on the BLS curve
                    vec![x.clone(), (&y + 1u32) % q()],
                ];
                // a curve point (of the subgroup or not)
                let b = {
                    let (x, mut y) = (fq(&x), fq(&y));
                    y.square();
                    let mut t = x;
                    t.square();
                    t.mul_assign(&x);
                    y.sub_assign(&t);
                    y
                };
                let mut n = 0;
                while n < 2 {
                    let x = r.num::<Fq>().0;
                    let mut t = x;
                    t.square();
                    t.mul_assign(&x);
                    t.add_assign(&b);
                    if let Some(y) = t.sqrt() {
                        v.push(vec![fb(&x), fb(&y)]);
                        n += 1;
                    }
                }
                v
            }
            /// x, y of curve points of G2 outside the subgroup
            fn twist(r: &mut R) -> (Fq2, Fq2) {
                let g = coords(&G2Affine::one(), 4);
                let gx = Fq2 { c0: fq(&g[1]), c1: fq(&g[0]) };
                let gy = Fq2 { c0: fq(&g[3]), c1: fq(&g[2]) };
                let mut b = gy;
                b.square();
                let mut t = gx;
                t.square();
                t.mul_assign(&gx);
                b.sub_assign(&t);
                loop {
                    let x = Fq2 { c0: r.num::<Fq>().0, c1: if r.bool() { Fq::zero() } else { r.num::<Fq>().0 } };
                    let mut t = x;
                    t.square();
                    t.mul_assign(&x);
                    t.add_assign(&b);
                    if let Some(y) = t.sqrt() {
                        return (x, y);
                    }
                }
            }
            fn d2(x: &Fq2, y: &Fq2) -> Vec<BigUint> {
                vec![fb(&x.c1), fb(&x.c0), fb(&y.c1), fb(&y.c0)]
            }
            fn bad2(r: &mut R) -> Vec<Vec<BigUint>> {
                let g = coords(&r2(r), 4);
                let z = BigUint::from(0u32);
                let sw = |i: &[usize]| i.iter().map(|k| g[*k].clone()).collect::<Vec<_>>();
                let mut v = vec![
                    sw(&[1, 0, 3, 2]),
                    sw(&[2, 3, 0, 1]),
                    sw(&[0, 1, 3, 2]),
                    vec![z.clone(), z.clone(), z.clone(), BigUint::from(1u32)],
                    vec![z.clone(), z.clone(), g[2].clone(), g[3].clone()],
                    vec![g[0].clone(), g[1].clone(), z.clone(), z.clone()],
                    vec![z.clone(), BigUint::from(1u32), z.clone(), z.clone()],
                    vec![g[0].clone(), g[1].clone(), g[2].clone(), (&g[3] + 1u32) % q()],
                ];
                for _ in 0..2 {
                    let (x, y) = twist(r);
                    v.push(d2(&x, &y));
                }
                v
            }

            fn from_doc(o: &mut Out, kind: &str, doc: &Value) {
                let text = doc.to_string();
                let r = guard(|| {
                    if kind == "proof" {
                        serde_json::from_str::<ProofData<Fq>>(&text).ok().map(|d| proof_obj(&Proof::<$eng>::from_data(&d)))
                    } else {
                        serde_json::from_str::<TruncatedVerifyingKeyData<Fq>>(&text)
                            .ok()
                            .map(|d| key_obj(&TruncatedVerifyingKey::<$eng>::from_data(&d)))
                    }
                });
                o.ev(json!({"t":"doc","eng":NAME,"kind":kind,"doc":tree(doc),"r":result(r)}));
            }
            fn from_bin(o: &mut Out, kind: &str, bs: &[u8]) {
                let r = guard(|| {
                    if kind == "proof" {
                        ProofData::<Fq>::try_from_slice(bs).ok().map(|d| proof_obj(&Proof::<$eng>::from_data(&d)))
                    } else {
                        TruncatedVerifyingKeyData::<Fq>::try_from_slice(bs)
                            .ok()
                            .map(|d| key_obj(&TruncatedVerifyingKey::<$eng>::from_data(&d)))
                    }
                });
                o.ev(json!({"t":"bin","eng":NAME,"kind":kind,"bs":bytes(bs),"r":result(r)}));
            }
            fn from_comp(o: &mut Out, kind: &str, bs: &[u8]) {
                let r = guard(|| {
                    if kind == "proof" {
                        Proof::<$eng>::read(bs).ok().map(|d| proof_obj(&d))
                    } else {
                        TruncatedVerifyingKey::<$eng>::read(bs).ok().map(|d| key_obj(&d))
                    }
                });
                o.ev(json!({"t":"comp","eng":NAME,"kind":kind,"bs":bytes(bs),"r":result(r)}));
            }
            /// encodes an object in all forms and decodes it again; returns the forms
            fn proof_forms(o: &mut Out, p: &Proof<$eng>) -> (Value, Vec<u8>, Vec<u8>) {
                let d = p.into_data();
                let doc = serde_json::to_value(&d).unwrap();
                let bin = d.try_to_vec().unwrap();
                let mut comp = vec![];
                p.write(&mut comp).unwrap();
                o.ev(json!({"t":"enc","eng":NAME,"kind":"proof","o":proof_obj(p),"doc":tree(&doc),"bin":bytes(&bin),"comp":bytes(&comp)}));
                from_doc(o, "proof", &doc);
                from_bin(o, "proof", &bin);
                from_comp(o, "proof", &comp);
                (doc, bin, comp)
            }
            fn key_forms(o: &mut Out, k: &TruncatedVerifyingKey<$eng>) -> (Value, Vec<u8>, Vec<u8>) {
                let d = k.into_data();
                let doc = serde_json::to_value(&d).unwrap();
                let bin = d.try_to_vec().unwrap();
                let mut comp = vec![];
                k.write(&mut comp).unwrap();
                o.ev(json!({"t":"enc","eng":NAME,"kind":"vk","o":key_obj(k),"doc":tree(&doc),"bin":bytes(&bin),"comp":bytes(&comp)}));
                from_doc(o, "vk", &doc);
                from_bin(o, "vk", &bin);
                from_comp(o, "vk", &comp);
                (doc, bin, comp)
            }
            fn key(r: &mut R, nic: usize, inf: usize) -> TruncatedVerifyingKey<$eng> {
                let mut k = TruncatedVerifyingKey::<$eng> {
                    alpha_g1: r1(r),
                    beta_g2: r2(r),
                    gamma_g2: r2(r),
                    delta_g2: r2(r),
                    ic: (0..nic).map(|_| r1(r)).collect(),
                };
                match inf {
                    1 => k.alpha_g1 = G1Affine::zero(),
                    2 => k.beta_g2 = G2Affine::zero(),
                    3 => k.gamma_g2 = G2Affine::zero(),
                    4 => k.delta_g2 = G2Affine::zero(),
                    i if i > 4 => k.ic[i - 5] = G1Affine::zero(),
                    _ => {}
                }
                k
            }
            fn le(c: &[BigUint]) -> Vec<u8> {
                let mut v = vec![];
                for x in c {
                    let mut b = x.to_bytes_le();
                    b.resize(W, 0);
                    v.extend(b);
                }
                v
            }
            /// binary form of data coordinates
            fn bin1(c: &[BigUint]) -> Vec<u8> {
                le(c)
            }
            fn bin2(c: &[BigUint]) -> Vec<u8> {
                le(&[c[1].clone(), c[0].clone(), c[3].clone(), c[2].clone()])
            }
            fn comp_of(x: &[BigUint], gr: bool) -> Vec<u8> {
                let mut v = vec![];
                for c in x {
                    let b = c.to_bytes_be();
                    v.extend(vec![0; W - b.len()]);
                    v.extend(b);
                }
                if W == 32 {
                    v[0] |= if gr { 128 } else { 0 };
                } else {
                    v[0] |= 128 | if gr { 32 } else { 0 };
                }
                v
            }

            pub fn run(c: &Ctx, o: &mut Out, r: &mut R) {
                let z1 = G1Affine::zero();
                let z2 = G2Affine::zero();
                let zero1 = vec![BigUint::from(0u32); 2];
                let zero2 = vec![BigUint::from(0u32); 4];
                // proofs, with infinity at every position
                let gens = proof(G1Affine::one(), G2Affine::one(), G1Affine::one());
                let (pdoc, pbin, pcomp) = proof_forms(o, &gens);
                for _ in 0..c.n(2, 20) {
                    proof_forms(o, &proof(r1(r), r2(r), r1(r)));
                }
                for m in 0..7u32 {
                    let a = if m & 1 != 0 { r1(r) } else { z1 };
                    let b = if m & 2 != 0 { r2(r) } else { z2 };
                    let d = if m & 4 != 0 { r1(r) } else { z1 };
                    proof_forms(o, &proof(a, b, d));
                }
                // keys with 0, 1, 2, .. input points
                let mut kforms = None;
                for n in [0usize, 1, 2, 3, 7].iter() {
                    kforms = Some(key_forms(o, &key(r, *n, 0)));
                }
                key_forms(o, &key(r, 70, 0));
                key_forms(o, &key(r, 260, 0));
                if c.thorough {
                    key_forms(o, &key(r, 40, 0));
                    key_forms(o, &key(r, 1100, 0));
                }
                for i in 1..7 {
                    key_forms(o, &key(r, 2, i));
                }
                // truncation of a full key
                let full = bellman::groth16::VerifyingKey::<$eng> {
                    alpha_g1: r1(r),
                    beta_g1: r1(r),
                    beta_g2: r2(r),
                    gamma_g2: r2(r),
                    delta_g1: r1(r),
                    delta_g2: r2(r),
                    ic: (0..3).map(|_| r1(r)).collect(),
                };
                let ob = json!([pt(&full.alpha_g1, 1), pt(&full.beta_g2, 2), pt(&full.gamma_g2, 2), pt(&full.delta_g2, 2),
                    full.ic.iter().map(|x| pt(x, 1)).collect::<Vec<_>>()]);
                o.ev(json!({"t":"trunc","eng":NAME,"o":ob,"r":key_obj(&truncate_verifying_key(&full))}));

                // invalid points at every position, the others at infinity
                for pos in 0..3 {
                    let bads = if pos == 1 { bad2(r) } else { bad1(r) };
                    for bad in bads {
                        let (mut d, mut b): (Vec<Value>, Vec<Vec<u8>>) = (vec![], vec![]);
                        for k in 0..3 {
                            let cc = if k == pos { bad.clone() } else if k == 1 { zero2.clone() } else { zero1.clone() };
                            d.push(if k == 1 { doc2(&cc) } else { doc1(&cc) });
                            b.push(if k == 1 { bin2(&cc) } else { bin1(&cc) });
                        }
                        from_doc(o, "proof", &json!({"a":d[0],"b":d[1],"c":d[2]}));
                        from_bin(o, "proof", &b.concat());
                    }
                }
                for pos in 0..7 {
                    let bads = if pos >= 1 && pos <= 3 { bad2(r) } else { bad1(r) };
                    for bad in bads {
                        let (mut d, mut b): (Vec<Value>, Vec<Vec<u8>>) = (vec![], vec![]);
                        for k in 0..7 {
                            let g2 = k >= 1 && k <= 3;
                            let cc = if k == pos { bad.clone() } else if g2 { zero2.clone() } else { zero1.clone() };
                            d.push(if g2 { doc2(&cc) } else { doc1(&cc) });
                            b.push(if g2 { bin2(&cc) } else { bin1(&cc) });
                        }
                        from_doc(
                            o,
                            "vk",
                            &json!({"alpha_g1":d[0],"beta_g2":d[1],"gamma_g2":d[2],"delta_g2":d[3],"ic":[d[4],d[5],d[6]]}),
                        );
                        b.insert(4, vec![3, 0, 0, 0]);
                        from_bin(o, "vk", &b.concat());
                    }
                }
                // documents with one thing changed
                let qs = q().to_string();
                let bad = vec![qs.clone(), (q() + 1u32).to_string(), "".to_string(), "x".to_string(), "-1".to_string()];
                let (kdoc, _, _) = key_forms(o, &{
                    let mut k = key(r, 2, 0);
                    k.beta_g2 = z2;
                    k.gamma_g2 = z2;
                    k.delta_g2 = z2;
                    k
                });
                let ms = mutants(&pdoc, &bad);
                let st = c.n(3, 1);
                for m in ms.iter().step_by(st) {
                    from_doc(o, "proof", m);
                }
                for m in mutants(&kdoc, &bad).iter().step_by(st) {
                    from_doc(o, "vk", m);
                }
                // binary forms of the wrong length
                let (_, kbin, kcomp) = kforms.unwrap();
                for (kind, bs) in [("proof", &pbin), ("vk", &kbin)].iter() {
                    let mut cut: Vec<usize> = (0..bs.len()).step_by(W).collect();
                    cut.push(bs.len() - 1);
                    for n in cut {
                        from_bin(o, kind, &bs[..n]);
                    }
                    let mut b = bs.to_vec();
                    b.push(0);
                    from_bin(o, kind, &b);
                    // coordinates that are not below the prime
                    let mut b = bs.to_vec();
                    for x in b[..W].iter_mut() {
                        *x = 255
                    }
                    from_bin(o, kind, &b);
                    let mut b = bs.to_vec();
                    let k = b.len();
                    b[k - W..].copy_from_slice(&le(&[q()]));
                    from_bin(o, kind, &b);
                }
                // compressed forms: flags, abscissas and lengths
                let mut offs = vec![0, W, 3 * W];
                let mut run = |bs: &Vec<u8>, offs: &Vec<usize>, kind: &str, o: &mut Out, r: &mut R| {
                    for off in offs {
                        for bit in [128u8, 64, 32, 1].iter() {
                            let mut b = bs.clone();
                            b[*off] ^= bit;
                            from_comp(o, kind, &b);
                        }
                        let mut b = bs.clone();
                        b[*off + W - 1] ^= 1;
                        from_comp(o, kind, &b);
                        from_comp(o, kind, &bs[..*off]);
                        from_comp(o, kind, &bs[..*off + W - 1]);
                        // abscissa equal to the prime
                        let mut b = bs.clone();
                        b[*off..*off + W].copy_from_slice(&comp_of(&[q()], r.bool()));
                        from_comp(o, kind, &b);
                    }
                };
                run(&pcomp, &offs, "proof", o, r);
                offs = vec![0, W, 3 * W, 5 * W];
                // a partial last point is left unspecified, so the input points are only altered, not cut
                let head = kcomp[..7 * W].to_vec();
                run(&head, &offs, "vk", o, r);
                let n = kcomp.len() / W;
                for off in [7 * W, (n - 1) * W].iter() {
                    for bit in [128u8, 64, 32, 1].iter() {
                        let mut b = kcomp.clone();
                        b[*off] ^= bit;
                        from_comp(o, "vk", &b);
                    }
                }
                from_comp(o, "vk", &kcomp[..(n - 1) * W]);
                // on the curve but outside the subgroup
                for off in [W, 3 * W, 5 * W].iter() {
                    for gr in [false, true].iter() {
                        let (x, _) = twist(r);
                        let t = comp_of(&[fb(&x.c1), fb(&x.c0)], *gr);
                        let mut b = head.clone();
                        b[*off..*off + 2 * W].copy_from_slice(&t);
                        from_comp(o, "vk", &b);
                        if *off == W {
                            let mut b = pcomp.clone();
                            b[*off..*off + 2 * W].copy_from_slice(&t);
                            from_comp(o, "proof", &b);
                        }
                    }
                }
                for off in [0, 3 * W].iter() {
                    for bad in bad1(r) {
                        let mut b = pcomp.clone();
                        b[*off..*off + W].copy_from_slice(&comp_of(&bad[..1], r.bool()));
                        from_comp(o, "proof", &b);
                    }
                }
            }
        }
    };
}
engine!(bn, "bn", pairing::bn256, Bn256, 32);
engine!(bls, "bls", pairing::bls12_381, Bls12, 48);

pub fn run(c: &Ctx) {
    let mut o = c.out("bn.ndjson");
    bn::run(c, &mut o, &mut c.rng(41));
    let mut o = c.out("bls.ndjson");
    bls::run(c, &mut o, &mut c.rng(42));
}
