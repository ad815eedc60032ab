//! C10: native Merkle trees.
use crate::enc::*;
use crate::pos::*;
use crate::tiny::Tiny;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::*;
use typenum::{self, Unsigned};

fn proof_l<F: HF, L: Unsigned>(leaf: Num<F>, sib: &[Num<F>], path: &[bool], prm: &PoseidonParams<F>) -> Value {
    outcome(|| {
        let p = MerkleProof::<F, L> {
            sibling: sib.iter().cloned().collect::<SizedVec<_, L>>(),
            path: path.iter().cloned().collect::<SizedVec<_, L>>(),
        };
        enc(&poseidon_merkle_proof_root(leaf, &p, prm))
    })
}
pub fn proof_root<F: HF>(leaf: Num<F>, sib: &[Num<F>], path: &[bool], prm: &PoseidonParams<F>) -> Value {
    macro_rules! go { ($($n:expr => $t:ident),*) => { match sib.len() { $($n => proof_l::<F, typenum::$t>(leaf, sib, path, prm),)* _ => unreachable!() } } }
    go!(0 => U0, 1 => U1, 2 => U2, 3 => U3, 4 => U4, 5 => U5, 6 => U6, 7 => U7, 8 => U8, 10 => U10, 16 => U16, 32 => U32, 40 => U40, 65 => U65, 130 => U130)
}

fn tree<F: HF>(o: &mut Out, k: usize, leaves: &[Num<F>], prm: &PoseidonParams<F>) {
    let v = outcome(|| enc(&poseidon_merkle_tree_root(leaves, prm)));
    o.ev(json!({"t":"tree","k":k,"leaves":enc_vec(leaves),"r":v}));
}
/// the proof of a position, siblings computed by the library's own tree root of sibling subtrees
fn position<F: HF>(o: &mut Out, k: usize, leaves: &[Num<F>], pos: usize, prm: &PoseidonParams<F>) {
    let mut n = 1;
    let mut h = 0;
    while n < leaves.len() {
        n *= 2;
        h += 1;
    }
    let mut padded = leaves.to_vec();
    padded.resize(n, of_u64(0));
    let mut sib = vec![];
    let mut path = vec![];
    for l in 0..h {
        let w = 1 << l;
        let idx = (pos >> l) ^ 1;
        match guard(|| poseidon_merkle_tree_root(&padded[idx * w..(idx + 1) * w], prm)) {
            Some(s) => sib.push(s),
            None => return o.ev(json!({"t":"pos","k":k,"leaves":enc_vec(leaves),"pos":pos,"sib":[],"path":[],"r":{"k":"panic","v":0}})),
        }
        path.push(pos >> l & 1 == 1);
    }
    let v = proof_root(leaves[pos], &sib, &path, prm);
    o.ev(json!({"t":"pos","k":k,"leaves":enc_vec(leaves),"pos":pos,"sib":enc_vec(&sib),"path":path,"r":v}));
}
fn proofs<F: HF>(o: &mut Out, r: &mut R, k: usize, prm: &PoseidonParams<F>, lens: &[usize], n: usize) {
    for len in lens {
        for _ in 0..n {
            let leaf = r.bnum::<F>();
            let sib: Vec<Num<F>> = (0..*len).map(|_| r.bnum()).collect();
            let path: Vec<bool> = (0..*len).map(|_| r.bool()).collect();
            let v = proof_root(leaf, &sib, &path, prm);
            o.ev(json!({"t":"proof","k":k,"leaf":enc(&leaf),"sib":enc_vec(&sib),"path":path,"r":v}));
        }
    }
}
fn field<F: HF>(o: &mut Out, pf: &mut PrmFile, r: &mut R, prms: &[PoseidonParams<F>], sizes: &[usize], lens: &[usize], n: usize, maxpos: usize) {
    for prm in prms {
        let k = pf.add(prm);
        tree(o, k, &[], prm);
        for sz in sizes {
            for rep in 0..n {
                let leaves: Vec<Num<F>> = (0..*sz)
                    .map(|_| if rep == 0 && r.below(4) == 0 { of_u64(0) } else { r.bnum() })
                    .collect();
                tree(o, k, &leaves, prm);
                if *sz <= maxpos {
                    for pos in 0..*sz {
                        position(o, k, &leaves, pos, prm);
                    }
                } else {
                    for pos in [0, *sz / 2, *sz - 1].iter() {
                        position(o, k, &leaves, *pos, prm);
                    }
                }
            }
        }
        proofs(o, r, k, prm, lens, n);
    }
}
/// trees too large to be recomputed: one nonzero leaf; a tree and its halves; a position far inside
fn large<F: HF>(o: &mut Out, r: &mut R, k: usize, prm: &PoseidonParams<F>, sizes: &[usize]) {
    for &n in sizes {
        let h = (0..).find(|h| 1usize << h >= n).unwrap();
        for &i in [0, n - 1, n / 2, r.below(n as u64) as usize].iter() {
            let mut v: Vec<Num<F>> = vec![of_u64(0); n];
            v[i] = of_u64(1 + r.below(4));
            let leaf = v[i];
            let a = outcome(|| enc(&poseidon_merkle_tree_root(&v, prm)));
            o.ev(json!({"t":"sparse","k":k,"n":n,"i":i,"leaf":enc(&leaf),"r":a}));
        }
        let v: Vec<Num<F>> = (0..n).map(|_| r.bnum()).collect();
        let mut rest = v[1 << (h - 1)..].to_vec();
        rest.resize(1 << (h - 1), of_u64(0));
        let root = |l: &[Num<F>]| outcome(|| enc(&poseidon_merkle_tree_root(l, prm)));
        o.ev(json!({"t":"join","k":k,"n":n,"r":root(&v),"a":root(&v[..1 << (h - 1)]),"b":root(&rest)}));
    }
}
pub fn run(c: &Ctx) {
    let mut r = c.rng(10);
    {
        let mut o = c.out("small.ndjson");
        let mut pf = PrmFile(c.out("params_small.ndjson"));
        let sizes: Vec<usize> = (1..=20).chain([31, 32, 33, 40, 63, 64, 65, 100].iter().cloned()).collect();
        let lens = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 32, 40, 65, 130];
        let p5 = [rand_params::<Tiny<5>>(&mut r, 3, 2, 2), PoseidonParams::new(2, 2, 1)];
        field(&mut o, &mut pf, &mut r, &p5, &sizes, &lens, 2, 8);
        let p251 = [rand_params::<Tiny<251>>(&mut r, 3, 2, 2), PoseidonParams::new(4, 4, 3), PoseidonParams::new(2, 2, 1)];
        field(&mut o, &mut pf, &mut r, &p251, &sizes, &lens, c.n(1, 4), 20);
        let k = pf.add(&p251[0]);
        large(&mut o, &mut r, k, &p251[0], &[129, 255, 256, 257, 300, 511, 513, 1024, 1025, 4097, 65535, 65536, 65537, 70000, 131073]);
        // every list of one to three leaves over the smallest field
        let prm = &p5[0];
        let k = pf.add(prm);
        let els = all::<Tiny<5>>();
        for a in els.iter() {
            tree(&mut o, k, &[*a], prm);
            for b in els.iter() {
                tree(&mut o, k, &[*a, *b], prm);
                for x in els.iter() {
                    let l = [*a, *b, *x];
                    tree(&mut o, k, &l, prm);
                    for pos in 0..3 {
                        position(&mut o, k, &l, pos, prm);
                    }
                }
            }
        }
    }
    let mut o = c.out("big.ndjson");
    let mut pf = PrmFile(c.out("params_big.ndjson"));
    let prm = PoseidonParams::<fawkes_crypto::native::bn256::Fr>::new(3, 8, 53);
    field(&mut o, &mut pf, &mut r, &[prm], &[1, 2, 3, 4, 5, 6, 9], &[0, 1, 2, 3, 10], c.n(1, 4), 6);
    let prm = PoseidonParams::<fawkes_crypto::native::bls12_381::Fr>::new(3, 8, 53);
    field(&mut o, &mut pf, &mut r, &[prm], &[1, 2, 3], &[1, 2, 32], c.n(1, 4), 4);
}
