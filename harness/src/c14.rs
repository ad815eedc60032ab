//! C14: bit decomposition, recomposition and comparison with constants.
use crate::c13::{arg, doms, K};
use crate::enc::*;
use crate::rec::*;
use crate::tiny::Tiny;
use fawkes_crypto::circuit::{
    bitify::{c_comp_constant, c_from_bits_le, c_into_bits_le, c_into_bits_le_strict},
    bool::CBool,
};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;

/// 0/1: constant bit, 2: variable, 3: one minus a variable bit
fn bit<'a, F: HF>(f: &mut Feed<'a, F>, k: u8) -> B<'a, F> {
    match k {
        0 | 1 => CBool::from_const(f.cs, &(k == 1)),
        2 => f.bit(),
        _ => (Num::one() - f.bit().into_num()).into_bool(),
    }
}
fn bit_doms<F: HF>(ks: &[u8]) -> Vec<Vec<Vec<Num<F>>>> {
    ks.iter().filter(|k| **k >= 2).map(|_| dom_bit::<F>()).collect()
}
fn bits<F: HF>(s: &mut Sink, inputs: &[Vec<Num<F>>], k: K, n: usize) {
    s.add::<F>("bits", json!({ "n": n }), true, inputs, &move |f| {
        let a = arg(f, k);
        f.note(&[&a]);
        let outs = c_into_bits_le(&a, n).iter().map(|x| x.into_num()).collect();
        Built { ins: vec![a], outs }
    });
}
fn strict<F: HF>(s: &mut Sink, inputs: &[Vec<Num<F>>], k: K) {
    s.add::<F>("bits_strict", json!({}), true, inputs, &move |f| {
        let a = arg(f, k);
        f.note(&[&a]);
        let outs = c_into_bits_le_strict(&a).iter().map(|x| x.into_num()).collect();
        Built { ins: vec![a], outs }
    });
}
fn strict_big<F: HF>(s: &mut Sink, x: Num<F>, constant: bool) {
    let inputs = if constant { vec![] } else { vec![vec![x]] };
    s.add::<F>("bits_strict", json!({}), true, &inputs, &move |f| {
        let a = if constant { fawkes_crypto::circuit::num::CNum::from_const(f.cs, &x) } else { f.var() };
        f.note(&[&a]);
        let outs = c_into_bits_le_strict(&a).iter().map(|x| x.into_num()).collect();
        Built { ins: vec![a], outs }
    });
}
fn comp<F: HF>(s: &mut Sink, inputs: &[Vec<Num<F>>], ks: Vec<u8>, ct: Num<F>) {
    s.add::<F>("comp", json!({ "ct": enc(&ct) }), true, inputs, &move |f| {
        let b: Vec<B<F>> = ks.iter().map(|k| bit(f, *k)).collect();
        let ins: Vec<N<F>> = b.iter().map(|x| x.into_num()).collect();
        f.note(&ins.iter().collect::<Vec<_>>());
        let outs = vec![c_comp_constant(&b, ct).into_num()];
        Built { ins, outs }
    });
}
fn from_bits<F: HF>(s: &mut Sink, inputs: &[Vec<Num<F>>], ks: Vec<u8>) {
    s.add::<F>("from_bits", json!({}), true, inputs, &move |f| {
        let b: Vec<B<F>> = ks.iter().map(|k| bit(f, *k)).collect();
        let ins: Vec<N<F>> = b.iter().map(|x| x.into_num()).collect();
        f.note(&ins.iter().collect::<Vec<_>>());
        let outs = vec![c_from_bits_le(&b)];
        Built { ins, outs }
    });
}

fn tiny<F: HF>(s: &mut Sink, r: &mut R, all_ct: bool, full: bool) {
    let p = F::char().as_ref()[0];
    let nb = F::NUM_BITS as usize;
    for n in 1..=nb {
        for k in [K::V, K::L, K::M, K::E].iter() {
            if (*k == K::L) && !full {
                continue;
            }
            let inp = product(&doms::<F>(&[*k]), 260, r);
            bits::<F>(s, &inp, *k, n);
        }
        for x in 0..p {
            if x < 20 || full {
                bits::<F>(s, &[], K::C(x), n);
            }
        }
    }
    for k in [K::V, K::M, K::E].iter() {
        let inp = product(&doms::<F>(&[*k]), 260, r);
        strict::<F>(s, &inp, *k);
    }
    for x in 0..p.min(120) {
        strict::<F>(s, &[], K::C(x));
    }
    for n in 1..=nb {
        let cts: Vec<u64> = if all_ct { (0..p).collect() } else {
            let mut v = vec![0, 1, 2, p - 1, p - 2, 1 << (n - 1), (1 << n) - 1, (1 << n) % p];
            for _ in 0..3 { v.push(r.below(p)); }
            v.sort();
            v.dedup();
            v.into_iter().filter(|x| *x < p).collect()
        };
        for ct in cts {
            let ks = vec![2u8; n];
            let inp = product(&bit_doms::<F>(&ks), 64, r);
            comp::<F>(s, &inp, ks, of_u64(ct));
            // mixes of constant and variable bits
            for _ in 0..2 {
                let ks: Vec<u8> = (0..n).map(|_| r.below(4) as u8).collect();
                let inp = product(&bit_doms::<F>(&ks), 16, r);
                comp::<F>(s, &inp, ks, of_u64(ct));
            }
            let ks: Vec<u8> = (0..n).map(|_| r.below(2) as u8).collect();
            comp::<F>(s, &[], ks, of_u64(ct));
        }
    }
    for n in 1..=nb + 3 {
        for v in 0..3 {
            let ks: Vec<u8> = (0..n).map(|_| if v == 0 { 2 } else { r.below(4) as u8 }).collect();
            let inp = product(&bit_doms::<F>(&ks), 64, r);
            from_bits::<F>(s, &inp, ks);
        }
    }
}

fn big<F: HF>(c: &Ctx, s: &mut Sink, r: &mut R) {
    let p = modulus::<F>();
    let nb = F::NUM_BITS as usize;
    let one = BigUint::from(1u32);
    let mut lens = vec![1usize, 2, 3, 63, 64, 65, 127, 128, 200, nb - 1, nb];
    lens.retain(|n| *n <= nb);
    for n in lens.iter() {
        let mut inp: Vec<Vec<Num<F>>> = vec![];
        for x in [BigUint::from(0u32), one.clone(), (&one << *n) - &one, &one << *n, &one << (*n - 1), &p - &one, r.big(40) % (&one << *n)].iter() {
            if x < &p {
                inp.push(vec![of_big(x)]);
            }
        }
        for _ in 0..c.n(1, 6) {
            inp.push(vec![of_big(&(r.big(40) % (&one << *n)))]);
            inp.push(vec![r.num()]);
        }
        bits::<F>(s, &inp, K::V, *n);
        bits::<F>(s, &[], K::C(1 + r.below(1 << 20)), *n);
    }
    for x in boundary::<F>() {
        strict_big::<F>(s, x, false);
    }
    let x = r.num();
    strict_big::<F>(s, x, true);
    strict_big::<F>(s, -of_u64::<F>(1), true);
    for n in [1usize, 2, 5, 64, 127, 128, nb - 2, nb - 1, nb].iter() {
        let m = &one << *n;
        let mut cts = vec![BigUint::from(0u32), &m - &one, &m >> 1, &p - &one, (&p - &one) >> 1, r.big(40) % &m, m.clone(), r.big(40)];
        cts.dedup();
        for ct in cts.iter().map(|x| x % &p) {
            let mut inp: Vec<Vec<Num<F>>> = vec![];
            let tob = |x: &BigUint| -> Vec<Num<F>> {
                (0..*n).map(|i| of_u64(if (x >> i) % 2u32 == one { 1 } else { 0 })).collect()
            };
            inp.push(tob(&ct));
            inp.push(tob(&(&ct + &one)));
            if ct > one {
                inp.push(tob(&(&ct - &one)));
            }
            inp.push(tob(&(r.big(40) % &m)));
            inp.push(tob(&BigUint::from(0u32)));
            inp.push(tob(&(&m - &one)));
            if *n > 20 && !c.thorough {
                inp.truncate(4);
            }
            comp::<F>(s, &inp, vec![2; *n], of_big(&ct));
        }
    }
    for n in [1usize, 3, 64, 200, nb, nb + 1, nb + 10].iter() {
        let ks = vec![2u8; *n];
        let inp: Vec<Vec<Num<F>>> = vec![vec![of_u64(1); *n], (0..*n).map(|_| of_u64(r.below(2))).collect()];
        from_bits::<F>(s, &inp, ks);
    }
}

pub fn run(c: &Ctx) {
    let mut r = c.rng(14);
    let mut s = Sink::new(c, "small", true);
    tiny::<Tiny<11>>(&mut s, &mut r, true, true);
    tiny::<Tiny<13>>(&mut s, &mut r, true, true);
    tiny::<Tiny<17>>(&mut s, &mut r, true, true);
    tiny::<Tiny<73>>(&mut s, &mut r, c.thorough, false);
    if c.thorough {
        tiny::<Tiny<251>>(&mut s, &mut r, false, false);
    }
    let mut s = Sink::new(c, "big", false);
    big::<fawkes_crypto::native::bn256::Fr>(c, &mut s, &mut r);
    big::<fawkes_crypto::native::bls12_381::Fr>(c, &mut s, &mut r);
    big::<M127>(c, &mut s, &mut r);
}
