//! C16: hash, Merkle and signature gadgets.
use crate::c13::{arg, doms, K};
use crate::enc::*;
use crate::pos::*;
use crate::pts::*;
use crate::rec::*;
use crate::tiny::{Tiny, TinyCurve};
use fawkes_crypto::circuit::{bool::CBool, eddsaposeidon::c_eddsaposeidon_verify, num::CNum, poseidon::*};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::*;
use fawkes_crypto::constants::SEED_EDDSA_POSEIDON;
use fawkes_crypto::native::eddsaposeidon::eddsaposeidon_sign;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{poseidon_with_salt, MerkleProof, PoseidonParams};
use num::bigint::BigUint;
use typenum::*; use typenum::{U33, U65, U130};

/// an argument: kind over a tiny field or a constant element
#[derive(Clone, Copy)]
enum X<F: HF> {
    K(K),
    C(Num<F>),
}
fn xarg<'a, F: HF>(f: &mut Feed<'a, F>, x: X<F>) -> N<'a, F> {
    match x {
        X::K(k) => arg(f, k),
        X::C(v) => CNum::from_const(f.cs, &v),
    }
}
fn xdoms<F: HF>(xs: &[X<F>]) -> Vec<Vec<Vec<Num<F>>>> {
    let ks: Vec<K> = xs.iter().filter_map(|x| if let X::K(k) = x { Some(*k) } else { None }).collect();
    doms(&ks)
}
fn nvars<F: HF>(xs: &[X<F>]) -> usize {
    xs.iter().map(|x| match x { X::K(K::L) => 2, X::K(K::C(_)) | X::C(_) => 0, _ => 1 }).sum()
}

/// poseidon, salted, mtree
fn hash<F: HF>(s: &mut Sink, g: &'static str, prm: &PoseidonParams<F>, seed: &'static [u8], xs: &[X<F>], inputs: &[Vec<Num<F>>]) {
    let xs = xs.to_vec();
    let p = prm.clone();
    s.add::<F>(g, json!({"prm":eprm(prm),"seed":bytes(seed)}), true, inputs, &move |f| {
        let ins: Vec<N<F>> = xs.iter().map(|x| xarg(f, *x)).collect();
        f.note(&ins.iter().collect::<Vec<_>>());
        let o = match g {
            "poseidon" => c_poseidon(&ins, &p),
            "salted" => c_poseidon_with_salt(&ins, seed, &p),
            _ => c_poseidon_merkle_tree_root(&ins, &p),
        };
        Built { ins, outs: vec![o] }
    });
}
/// a Merkle proof: allocated as one signal
fn mproof_alloc<F: HF, L: Unsigned>(s: &mut Sink, prm: &PoseidonParams<F>, leaf: X<F>, inputs: &[Vec<Num<F>>]) {
    let p = prm.clone();
    s.add::<F>("mproof", json!({"prm":eprm(prm)}), true, inputs, &move |f| {
        let leaf = xarg(f, leaf);
        let n = L::USIZE;
        let proof = f.signal::<CMerkleProof<Rec<F>, L>>(
            2 * n,
            |v| MerkleProof {
                sibling: v[..n].iter().cloned().collect(),
                path: v[n..].iter().map(|x| *x == of_u64(1)).collect(),
            },
            "F",
        );
        let mut ins = vec![leaf.clone()];
        ins.extend(proof.sibling.iter().cloned());
        ins.extend(proof.path.iter().map(|b| b.into_num()));
        f.note(&ins.iter().collect::<Vec<_>>());
        let o = c_poseidon_merkle_proof_root(&leaf, &proof, &p);
        Built { ins, outs: vec![o] }
    });
}
/// a Merkle proof assembled from parts; path 0/1 constant, 2 variable bit
fn mproof_parts<F: HF, L: Unsigned>(s: &mut Sink, prm: &PoseidonParams<F>, leaf: X<F>, sib: &[X<F>], path: &[u8], inputs: &[Vec<Num<F>>]) {
    let p = prm.clone();
    let sib = sib.to_vec();
    let path = path.to_vec();
    s.add::<F>("mproof", json!({"prm":eprm(prm)}), true, inputs, &move |f| {
        let leaf = xarg(f, leaf);
        let sibling: SizedVec<N<F>, L> = sib.iter().map(|x| xarg(f, *x)).collect();
        let path: SizedVec<B<F>, L> = path
            .iter()
            .map(|k| if *k < 2 { CBool::from_const(f.cs, &(*k == 1)) } else { f.bit() })
            .collect();
        let mut ins = vec![leaf.clone()];
        ins.extend(sibling.iter().cloned());
        ins.extend(path.iter().map(|b| b.into_num()));
        f.note(&ins.iter().collect::<Vec<_>>());
        let proof = CMerkleProof { sibling, path };
        let o = c_poseidon_merkle_proof_root(&leaf, &proof, &p);
        Built { ins, outs: vec![o] }
    });
}
fn eddsa<F: HF, J: JubJubParams<Fr = F> + 'static>(s: &mut Sink, name: &str, j: &J, prm: &PoseidonParams<F>, xs: [X<F>; 4], inputs: &[Vec<Num<F>>]) {
    let j = j.clone();
    let p = prm.clone();
    let gen = ept(j.edwards_g());
    s.add::<F>("eddsa", json!({"c":name,"g":gen,"prm":eprm(prm)}), false, inputs, &move |f| {
        let ins: Vec<N<F>> = xs.iter().map(|x| xarg(f, *x)).collect();
        f.note(&ins.iter().collect::<Vec<_>>());
        let o = c_eddsaposeidon_verify(&ins[0], &ins[1], &ins[2], &ins[3], &p, &j);
        Built { ins, outs: vec![o.into_num()] }
    });
}

fn tiny_hash<const PP: u64>(c: &Ctx, s: &mut Sink, r: &mut R) {
    type T<const Y: u64> = Tiny<Y>;
    let v = X::K(K::V);
    let mut prms = vec![
        PoseidonParams::<T<PP>>::new(2, 2, 1),
        PoseidonParams::<T<PP>>::new(3, 2, 2),
        PoseidonParams::<T<PP>>::new(3, 3, 1),
        PoseidonParams::<T<PP>>::new(1, 2, 1),
    ];
    for (t, f, p) in [(2usize, 4usize, 3usize), (3, 2, 1), (2, 0, 2), (2, 2, 0), (3, 1, 2)].iter() {
        prms.push(rand_params(r, *t, *f, *p));
    }
    for prm in prms.iter() {
        for n in 0..=prm.t + 1 {
            if n == 0 {
                continue; // no constraint system to take it from
            }
            let xs = vec![v; n];
            let inp = product(&xdoms(&xs), c.n(150, 1000), r);
            hash(s, "poseidon", prm, b"", &xs, &inp);
            for seed in [&b""[..], &b"salt"[..]].iter() {
                let inp = product(&xdoms(&xs), c.n(40, 300), r);
                hash(s, "salted", prm, seed, &xs, &inp);
            }
            // constants, combinations and repeated structure
            for _ in 0..c.n(3, 10) {
                let xs: Vec<X<T<PP>>> = (0..n)
                    .map(|_| match r.below(6) {
                        0 | 1 => X::C(r.num()),
                        2 => X::K(K::M),
                        3 => X::K(K::E),
                        4 if n < 3 => X::K(K::L),
                        _ => v,
                    })
                    .collect();
                let inp = product(&xdoms(&xs), c.n(40, 300), r);
                hash(s, "poseidon", prm, b"", &xs, &inp);
            }
        }
    }
    let p2 = PoseidonParams::<T<PP>>::new(2, 2, 1);
    let p3 = PoseidonParams::<T<PP>>::new(3, 2, 1);
    let small = PP <= 5;
    for prm in [&p2, &p3].iter() {
        // trees
        for n in 1..=if small { 5usize } else { 3 } {
            let xs = vec![v; n];
            let inp = product(&xdoms(&xs), c.n(80, 500), r);
            hash(s, "mtree", prm, b"", &xs, &inp);
            let xs: Vec<X<T<PP>>> = (0..n).map(|_| if r.bool() { v } else { X::C(r.num()) }).collect();
            let inp = product(&xdoms(&xs), c.n(40, 300), r);
            hash(s, "mtree", prm, b"", &xs, &inp);
        }
        // nine leaves, two of them variable
        let xs: Vec<X<T<PP>>> = (0..9).map(|i| if i == 3 || i == 8 { v } else { X::C(r.num()) }).collect();
        let inp = product(&xdoms(&xs), 40, r);
        hash(s, "mtree", prm, b"", &xs, &inp);
        // proofs
        let pd = |l: usize, leaf: bool| {
            let mut d: Vec<Vec<Vec<Num<T<PP>>>>> = vec![dom_all(); l + leaf as usize];
            d.extend(vec![dom_bit(); l]);
            d
        };
        mproof_alloc::<_, U0>(s, prm, v, &product(&pd(0, true), 100, r));
        mproof_alloc::<_, U1>(s, prm, v, &product(&pd(1, true), 100, r));
        if small {
            mproof_alloc::<_, U2>(s, prm, v, &product(&pd(2, true), c.n(150, 1000), r));
            mproof_alloc::<_, U3>(s, prm, X::C(of_u64(2)), &product(&pd(3, false), c.n(100, 1000), r));
        } else {
            mproof_alloc::<_, U2>(s, prm, X::C(of_u64(2)), &product(&pd(2, false), c.n(100, 1000), r));
        }
        for k in 0..4u8 {
            let path = [k & 1, 2, k >> 1];
            let sib = [v, X::C(r.num()), if small { v } else { X::C(r.num()) }];
            let mut d = xdoms(&[v]);
            d.extend(xdoms(&sib));
            d.push(dom_bit());
            mproof_parts::<_, U3>(s, prm, v, &sib, &path, &product(&d, 60, r));
            mproof_parts::<_, U2>(s, prm, X::C(r.num()), &[X::C(r.num()), X::C(r.num())], &path[..2], &product(&[dom_bit()], 10, r));
            mproof_parts::<_, U2>(s, prm, X::C(r.num()), &[X::C(r.num()), X::C(r.num())], &[k & 1, k >> 1], &[]);
        }
    }
}

fn tiny_eddsa<const PP: u64, const Q: u64>(c: &Ctx, s: &mut Sink, r: &mut R, name: &'static str, j: &TinyCurve<PP, Q>) {
    type T<const Y: u64> = Tiny<Y>;
    let prm = PoseidonParams::<T<PP>>::new(4, 2, 1);
    let v = X::K(K::V);
    let up = |x: Num<T<Q>>| -> Num<T<PP>> { of_big(&to_big(&x)) };
    let sig = |r: &mut R| {
        let sk: Num<T<Q>> = r.num();
        let m: Num<T<PP>> = r.num();
        let (sg, rr) = eddsaposeidon_sign(sk, m, &prm, j);
        (up(sg), rr, j.edwards_g().mul(sk, j).x, m)
    };
    for i in 0..c.n(2, 12) {
        let (sg, rr, a, m) = sig(r);
        let k = [X::C(sg), X::C(rr), X::C(a), X::C(m)];
        let full: Vec<Vec<Vec<Num<T<PP>>>>> = vec![dom_all()];
        let bad: Num<T<PP>> = r.num();
        // one variable at a time, others constant; then pairs
        for p in 0..4 {
            let mut xs = k;
            xs[p] = v;
            eddsa(s, name, j, &prm, xs, &product(&full, 100, r));
        }
        for (p, q) in [(0usize, 1usize), (0, 2), (0, 3), (1, 2)].iter() {
            let mut xs = k;
            xs[*p] = v;
            xs[*q] = v;
            let mut inp = product(&vec![dom_all(); 2], c.n(60, 500), r);
            inp.push([sg, rr, a, m].iter().enumerate().filter(|x| x.0 == *p || x.0 == *q).map(|x| *x.1).collect());
            if i == 0 || c.thorough {
                eddsa(s, name, j, &prm, xs, &inp);
            }
        }
        eddsa(s, name, j, &prm, k, &[]);
        eddsa(s, name, j, &prm, [X::C(bad), X::C(rr), X::C(a), X::C(m)], &[]);
        eddsa(s, name, j, &prm, [X::C(sg), X::C(bad), X::C(a), X::C(m)], &[]);
        eddsa(s, name, j, &prm, [X::C(sg), X::C(rr), X::C(a), X::C(bad)], &[]);
    }
}
/// honest runs only (all variables): many signatures of the tiny curve
fn tiny_eddsa_honest<const PP: u64, const Q: u64>(c: &Ctx, s: &mut Sink, r: &mut R, name: &'static str, j: &TinyCurve<PP, Q>) {
    let prm = PoseidonParams::<Tiny<PP>>::new(4, 2, 2);
    let v = X::K(K::V);
    let mut inp = vec![];
    for _ in 0..c.n(150, 1500) {
        let sk: Num<Tiny<Q>> = r.num();
        let m: Num<Tiny<PP>> = r.num();
        let (sg, rr) = eddsaposeidon_sign(sk, m, &prm, j);
        let a = j.edwards_g().mul(sk, j).x;
        let mut x: Vec<Num<Tiny<PP>>> = vec![of_big(&to_big(&sg)), rr, a, m];
        inp.push(x.clone());
        let k = r.below(4) as usize;
        x[k] = r.num();
        inp.push(x.clone());
        // the response plus the scalar prime
        x = vec![of_big(&(to_big(&sg) + BigUint::from(Q))), rr, a, m];
        inp.push(x);
        inp.push((0..4).map(|_| r.num()).collect());
    }
    eddsa(s, name, j, &prm, [v, v, v, v], &inp);
}

fn real_hash<F: HF>(c: &Ctx, s: &mut Sink, r: &mut R, big: bool) {
    let v = X::K(K::V);
    let set: Vec<(usize, usize, usize)> = if big { vec![(2, 8, 52), (3, 8, 53), (4, 8, 54), (5, 8, 55), (3, 4, 5)] } else { vec![(2, 4, 3), (3, 8, 10), (6, 3, 4)] };
    let rows = |r: &mut R, k: usize, n: usize| -> Vec<Vec<Num<F>>> {
        let mut o = vec![vec![of_u64(0); n], vec![of_u64(1); n]];
        for _ in 0..k {
            o.push((0..n).map(|_| r.bnum()).collect());
        }
        o
    };
    for (t, f, p) in set.iter() {
        let prm = PoseidonParams::<F>::new(*t, *f, *p);
        for n in 1..=*t {
            let xs = vec![v; n];
            let inp = rows(r, c.n(2, 20), n);
            hash(s, "poseidon", &prm, b"", &xs, &inp);
            hash(s, "salted", &prm, b"some salt", &xs, &inp);
            let xs: Vec<X<F>> = (0..n).map(|_| match r.below(5) { 0 | 1 => X::C(r.bnum()), 2 => X::K(K::L), 3 => X::K(K::M), _ => v }).collect();
            let inp = rows(r, 2, nvars(&xs));
            hash(s, "poseidon", &prm, b"", &xs, &inp);
        }
    }
    let prm = if big { PoseidonParams::<F>::new(3, 8, 53) } else { PoseidonParams::<F>::new(3, 2, 3) };
    for n in [1usize, 2, 3, 5, 7].iter().chain(if big { [].iter() } else { [8, 9, 16, 17, 33].iter() }) {
        let xs: Vec<X<F>> = (0..*n).map(|_| if r.below(4) == 0 { X::C(r.bnum()) } else { v }).collect();
        let inp = rows(r, 1, nvars(&xs));
        hash(s, "mtree", &prm, b"", &xs, &inp);
    }
    let prow = |r: &mut R, l: usize, k: usize| -> Vec<Vec<Num<F>>> {
        (0..k)
            .map(|i| {
                let mut o: Vec<Num<F>> = (0..l + 1).map(|_| r.bnum()).collect();
                o.extend((0..l).map(|_| of_u64(match i { 0 => 0, 1 => 1, _ => r.below(2) })));
                o
            })
            .collect()
    };
    let inp = prow(r, 1, 4);
    mproof_alloc::<F, U1>(s, &prm, v, &inp);
    let inp = prow(r, 4, 4);
    mproof_alloc::<F, U4>(s, &prm, v, &inp);
    let inp = prow(r, 40, if big { 1 } else { 3 });
    mproof_alloc::<F, U40>(s, &prm, v, &inp);
}
fn real_eddsa<F: HF, J: JubJubParams<Fr = F> + 'static>(c: &Ctx, s: &mut Sink, r: &mut R, name: &'static str, j: &J)
where
    J::Fs: HF,
{
    let prm = PoseidonParams::<F>::new(4, 8, 54);
    let v = X::K(K::V);
    let q = modulus::<J::Fs>();
    let mut inp = vec![];
    let mut last = None;
    for i in 0..c.n(1, 6) {
        let sk: Num<J::Fs> = r.num();
        let a = j.edwards_g().mul(sk, j).x;
        // a message whose hash has another decomposition of the same width, if there is one soon
        let room = (num::bigint::BigUint::from(1u32) << F::NUM_BITS as usize) - modulus::<F>();
        let (mut m, mut sg, mut rr): (Num<F>, Num<J::Fs>, Num<F>);
        let mut tries = 0;
        loop {
            m = r.num();
            let x = eddsaposeidon_sign(sk, m, &prm, j);
            sg = x.0;
            rr = x.1;
            tries += 1;
            let h = poseidon_with_salt(&[rr, a, m], SEED_EDDSA_POSEIDON, &prm);
            if tries == 30 || to_big(&h) < room {
                break;
            }
        }
        let up: Num<F> = of_big(&to_big(&sg));
        inp.push(vec![up, rr, a, m]);
        inp.push(vec![up, rr, a, fadd(m, of_u64(1))]);
        inp.push(vec![of_big(&(to_big(&sg) + &q)), rr, a, m]);
        if i == 0 {
            inp.push(vec![up, a, rr, m]);
            inp.push(vec![up, r.num(), a, m]);
            inp.push(vec![of_u64(0), of_u64(0), of_u64(0), m]);
            inp.push(vec![up, rr, -a, m]);
        }
        last = Some([X::C(up), X::C(rr), X::C(a), X::C(m)]);
    }
    eddsa(s, name, j, &prm, [v, v, v, v], &inp);
    let k = last.unwrap();
    let one = inp.len() - if c.thorough { 3 } else { 7 };
    eddsa(s, name, j, &prm, [v, v, k[2], v], &[vec![inp[one][0], inp[one][1], inp[one][3]]]);
    eddsa(s, name, j, &prm, k, &[]);
    eddsa(s, name, j, &prm, [k[0], k[1], k[2], X::C(r.num())], &[]);
}

/// deep proofs and large trees
fn deep<const PP: u64>(s: &mut Sink, r: &mut R, sizes: &[usize]) {
    type T<const Y: u64> = Tiny<Y>;
    let v = X::K(K::V);
    let prm = PoseidonParams::<T<PP>>::new(2, 2, 1);
    for n in sizes {
        let xs: Vec<X<T<PP>>> = (0..*n).map(|_| if r.below(3) == 0 { X::C(r.num()) } else { v }).collect();
        let inp: Vec<Vec<Num<T<PP>>>> = (0..3).map(|_| (0..nvars(&xs)).map(|_| r.num()).collect()).collect();
        hash(s, "mtree", &prm, b"", &xs, &inp);
    }
    let mut proof = |l: usize, r: &mut R| -> Vec<Vec<Num<T<PP>>>> {
        (0..3)
            .map(|_| (0..=2 * l).map(|i| if i <= l { r.num() } else { of_u64(r.below(2)) }).collect())
            .collect()
    };
    let i = proof(33, r);
    mproof_alloc::<_, U33>(s, &prm, v, &i);
    let i = proof(65, r);
    mproof_alloc::<_, U65>(s, &prm, v, &i);
    let i = proof(130, r);
    mproof_alloc::<_, U130>(s, &prm, v, &i);
}

pub fn run(c: &Ctx) {
    let mut r = c.rng(16);
    let r = &mut r;
    let mut s = Sink::new(c, "small1", true);
    tiny_hash::<5>(c, &mut s, r);
    tiny_hash::<7>(c, &mut s, r);
    if c.thorough {
        tiny_hash::<13>(c, &mut s, r);
        tiny_hash::<11>(c, &mut s, r);
    }
    let mut s = Sink::new(c, "small2", true);
    tiny_eddsa(c, &mut s, r, "c73", &c73());
    if c.thorough {
        tiny_eddsa(c, &mut s, r, "c89", &c89());
    }
    let mut s = Sink::new(c, "small3", true);
    tiny_eddsa_honest(c, &mut s, r, "c73", &c73());
    tiny_eddsa_honest(c, &mut s, r, "c97", &c97());
    let mut s = Sink::new(c, "small4", false);
    deep::<251>(&mut s, r, &[17, 33, 65, 129, 200, 257]);
    let mut s = Sink::new(c, "big", false);
    real_hash::<fawkes_crypto::native::bn256::Fr>(c, &mut s, r, true);
    real_hash::<fawkes_crypto::native::bls12_381::Fr>(c, &mut s, r, false);
    real_hash::<crate::m127::M127>(c, &mut s, r, false);
    real_eddsa(c, &mut s, r, "bn", &fawkes_crypto::native::bn256::JubJubBN256::new());
    let mut s = Sink::new(c, "big2", false);
    real_eddsa(c, &mut s, r, "bls", &fawkes_crypto::native::bls12_381::JubJubBLS12_381::new());
}
