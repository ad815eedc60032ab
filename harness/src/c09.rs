//! C09: native Poseidon.
use crate::enc::*;
use crate::pos::*;
use crate::tiny::Tiny;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::*;

fn hashes<F: HF>(o: &mut Out, k: usize, prm: &PoseidonParams<F>, ins: &[Vec<Num<F>>]) {
    for i in ins {
        let v = outcome(|| enc(&poseidon(i, prm)));
        o.ev(json!({"t":"hash","k":k,"in":enc_vec(i),"r":v}));
    }
}
fn salted<F: HF>(o: &mut Out, k: usize, prm: &PoseidonParams<F>, i: &[Num<F>], seed: &[u8]) {
    let v = outcome(|| enc(&poseidon_with_salt(i, seed, prm)));
    o.ev(json!({"t":"salted","k":k,"in":enc_vec(i),"seed":seed,"r":v}));
}
fn derived<F: HF>(o: &mut Out, pf: &mut PrmFile, t: usize, f: usize, p: usize) -> (usize, PoseidonParams<F>) {
    let prm = PoseidonParams::<F>::new(t, f, p);
    let k = pf.add(&prm);
    o.ev(json!({"t":"params","k":k,"nt":t,"nf":f,"np":p}));
    (k, prm)
}
fn field<F: HF>(c: &Ctx, o: &mut Out, pf: &mut PrmFile, r: &mut R, shapes: &[(usize, usize, usize)], n: usize) {
    for (t, f, p) in shapes.iter().cloned() {
        let (k, prm) = derived::<F>(o, pf, t, f, p);
        let mut ins: Vec<Vec<Num<F>>> = vec![vec![]];
        for len in 1..=t + 1 {
            if len > 6 && len < t - 1 {
                continue;
            }
            for _ in 0..n {
                ins.push((0..len).map(|_| r.bnum()).collect());
            }
            ins.push(vec![of_u64(0); len]);
        }
        hashes(o, k, &prm, &ins);
        let seeds: [&[u8]; 4] = [b"", b"eddsaposeidon", b"s", &[7u8; 100]];
        for s in seeds.iter() {
            for len in 0..=(t + 1).min(6) {
                let i: Vec<Num<F>> = (0..len).map(|_| r.bnum()).collect();
                salted(o, k, &prm, &i, s);
            }
        }
        if c.thorough {
            let again = pf.add(&PoseidonParams::<F>::new(t, f, p));
            o.ev(json!({"t":"same","k":k,"k2":again}));
        }
    }
}
/// arbitrary parameter contents, including odd numbers of full rounds and no partial rounds
fn arbitrary<F: HF>(o: &mut Out, pf: &mut PrmFile, r: &mut R, shapes: &[(usize, usize, usize)], n: usize) {
    for (t, f, p) in shapes.iter().cloned() {
        let prm = rand_params::<F>(r, t, f, p);
        let k = pf.add(&prm);
        let ins: Vec<Vec<Num<F>>> = (0..n)
            .map(|_| {
                let len = 1 + r.below(t as u64) as usize;
                (0..len).map(|_| r.bnum()).collect()
            })
            .collect();
        hashes(o, k, &prm, &ins);
    }
}
pub fn run(c: &Ctx) {
    let mut r = c.rng(9);
    {
        let mut o = c.out("small.ndjson");
        let mut pf = PrmFile(c.out("params_small.ndjson"));
        let shapes = [(1, 2, 1), (2, 2, 2), (3, 4, 3), (4, 8, 5), (3, 8, 53)];
        field::<Tiny<5>>(c, &mut o, &mut pf, &mut r, &shapes, 6);
        field::<Tiny<13>>(c, &mut o, &mut pf, &mut r, &shapes, 6);
        field::<Tiny<251>>(c, &mut o, &mut pf, &mut r, &shapes, 6);
        // wide states and many rounds
        field::<Tiny<251>>(c, &mut o, &mut pf, &mut r, &[(10, 2, 2), (1, 2, 130)], 1);
        arbitrary::<Tiny<251>>(&mut o, &mut pf, &mut r, &[(13, 4, 130), (17, 2, 1), (2, 2, 300), (2, 258, 2), (33, 1, 0)], 3);
        // all inputs of a small hash
        let (k, prm) = derived::<Tiny<13>>(&mut o, &mut pf, 3, 2, 2);
        let els = all::<Tiny<13>>();
        let mut ins = vec![];
        for a in els.iter() {
            for b in els.iter() {
                ins.push(vec![*a, *b]);
            }
        }
        hashes(&mut o, k, &prm, &ins);
        let odd = [(1, 0, 0), (2, 0, 3), (2, 3, 0), (3, 5, 2), (3, 1, 1), (5, 7, 4), (8, 2, 2), (12, 6, 9)];
        arbitrary::<Tiny<13>>(&mut o, &mut pf, &mut r, &odd, 10);
        arbitrary::<Tiny<97>>(&mut o, &mut pf, &mut r, &odd, 10);
    }
    let mut o = c.out("big.ndjson");
    let mut pf = PrmFile(c.out("params_big.ndjson"));
    let shapes: &[(usize, usize, usize)] = if c.thorough {
        &[(2, 8, 56), (3, 8, 53), (4, 8, 54), (5, 8, 60), (9, 8, 57), (17, 8, 60)]
    } else {
        &[(2, 8, 56), (3, 8, 53), (4, 8, 54), (6, 8, 57)]
    };
    let n = c.n(1, 6);
    field::<fawkes_crypto::native::bn256::Fr>(c, &mut o, &mut pf, &mut r, shapes, n);
    field::<fawkes_crypto::native::bls12_381::Fr>(c, &mut o, &mut pf, &mut r, &shapes[..c.n(2, 6)], n);
    field::<fawkes_crypto::native::bn256::Fs>(c, &mut o, &mut pf, &mut r, &[(3, 4, 3)], n);
    arbitrary::<fawkes_crypto::native::bn256::Fr>(&mut o, &mut pf, &mut r, &[(3, 3, 4), (11, 2, 3)], 4);
}
