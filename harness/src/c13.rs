//! C13: number and boolean gadgets.
use crate::enc::*;
use crate::rec::*;
use crate::tiny::Tiny;
use fawkes_crypto::circuit::{bool::CBool, mux::c_mux3, num::CNum};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;

/// argument kinds
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    C(u64), // constant
    V,      // fresh variable
    L,      // 2v+3w+1
    M,      // 3v-2 (an offset multiple)
    E,      // v-v: empty combination
}
pub fn arg<'a, F: HF>(f: &mut Feed<'a, F>, k: K) -> N<'a, F> {
    match k {
        K::C(x) => f.c(x),
        K::V => f.var(),
        K::L => {
            let v = f.var();
            let w = f.var();
            v * of_u64::<F>(2) + w * of_u64::<F>(3) + Num::one()
        }
        K::M => f.var() * of_u64::<F>(3) - of_u64::<F>(2),
        K::E => {
            let v = f.var();
            &v - &v
        }
    }
}
pub fn doms<F: HF>(ks: &[K]) -> Vec<Vec<Vec<Num<F>>>> {
    let mut d = vec![];
    for k in ks {
        match k {
            K::C(_) => {}
            K::V | K::M | K::E => d.push(dom_all::<F>()),
            K::L => {
                d.push(dom_all::<F>());
                d.push(dom_all::<F>())
            }
        }
    }
    d
}

fn kinds<F: HF>(consts: &[u64]) -> Vec<K> {
    let mut v: Vec<K> = consts.iter().map(|x| K::C(*x)).collect();
    v.extend_from_slice(&[K::V, K::L, K::M, K::E]);
    v
}

fn add2<F: HF>(s: &mut Sink, r: &mut R, g: &'static str, ks: [K; 2]) {
    let inputs = product(&doms::<F>(&ks), 400, r);
    s.add::<F>(g, json!({}), true, &inputs, &move |f| {
        let a = arg(f, ks[0]);
        let b = arg(f, ks[1]);
        f.note(&[&a, &b]);
        two(g, a, b)
    });
}
/// both arguments derived from one variable
fn add2_overlap<F: HF>(s: &mut Sink, r: &mut R, g: &'static str, same: bool) {
    let inputs = product(&doms::<F>(&[K::V]), 400, r);
    s.add::<F>(g, json!({}), true, &inputs, &move |f| {
        let a = arg(f, K::V);
        let b = if same { a.clone() } else { &a * of_u64::<F>(3) + of_u64::<F>(2) };
        f.note(&[&a, &b]);
        two(g, a, b)
    });
}
fn two<'a, F: HF>(g: &str, a: N<'a, F>, b: N<'a, F>) -> Built<'a, F> {
    let outs = match g {
        "mul" => vec![&a * &b],
        "div" => vec![&a / &b],
        "is_eq" => vec![a.is_eq(&b).into_num()],
        "assert_eq" => {
            a.assert_eq(&b);
            vec![]
        }
        _ => unreachable!(),
    };
    Built { ins: vec![a, b], outs }
}

fn add1<F: HF>(s: &mut Sink, r: &mut R, g: &'static str, k: K, par: u64) {
    let inputs = product(&doms::<F>(&[k]), 400, r);
    s.add::<F>(g, json!({ "k": par }), true, &inputs, &move |f| {
        let a = arg(f, k);
        f.note(&[&a]);
        let outs = match g {
            "is_zero" => vec![a.is_zero().into_num()],
            "square" => vec![a.square()],
            "assert_zero" => {
                a.assert_zero();
                vec![]
            }
            "assert_nonzero" => {
                a.assert_nonzero();
                vec![]
            }
            "assert_bit" => {
                a.assert_bit();
                vec![]
            }
            "assert_const" => {
                a.assert_const(&of_u64(par));
                vec![]
            }
            "bool_assert" => {
                a.into_bool().assert();
                vec![]
            }
            "bool_true" => {
                a.into_bool().assert_true();
                vec![]
            }
            "bool_false" => {
                a.into_bool().assert_false();
                vec![]
            }
            "inputize" => {
                a.inputize();
                vec![]
            }
            _ => unreachable!(),
        };
        Built { ins: vec![a], outs }
    });
}

/// a bit argument: 0/1 constant, 2 variable restricted to {0,1}, 3 negated variable 1-b
fn bit<'a, F: HF>(f: &mut Feed<'a, F>, k: u8) -> B<'a, F> {
    match k {
        0 => CBool::c_false(f.cs),
        1 => CBool::c_true(f.cs),
        2 => f.bit(),
        _ => (Num::one() - f.bit().into_num()).into_bool(),
    }
}
fn bdom<F: HF>(k: u8) -> Vec<Vec<Vec<Num<F>>>> {
    if k < 2 {
        vec![]
    } else {
        vec![dom_bit::<F>()]
    }
}

fn field<F: HF>(c: &Ctx, s: &mut Sink, r: &mut R, small: bool) {
    let p = F::char().as_ref()[0];
    let consts: Vec<u64> = if !F::SMALL { vec![0, 1, 2] } else if small { (0..p).collect() } else { vec![0, 1, 2, p - 1, p / 2] };
    let ks = kinds::<F>(&consts);
    for g in ["mul", "div", "is_eq", "assert_eq"].iter() {
        for a in ks.iter() {
            for b in ks.iter() {
                // two general combinations only over the smallest field
                if *a == K::L && *b == K::L && !small && !c.thorough {
                    continue;
                }
                add2::<F>(s, r, g, [*a, *b]);
            }
        }
        add2_overlap::<F>(s, r, g, true);
        add2_overlap::<F>(s, r, g, false);
    }
    for k in ks.iter() {
        for g in [
            "is_zero", "square", "assert_zero", "assert_nonzero", "assert_bit", "bool_assert",
            "bool_true", "bool_false", "inputize",
        ]
        .iter()
        {
            add1::<F>(s, r, g, *k, 0);
        }
        for v in consts.iter() {
            add1::<F>(s, r, "assert_const", *k, *v);
        }
    }
    // conditional selection: bit kinds x argument kinds
    let sks: Vec<K> = vec![K::C(0), K::C(1), K::C(p - 1), K::V, K::L, K::M];
    for bk in 0..4u8 {
        for a in sks.iter().cloned() {
            for b in sks.iter().cloned() {
                if a == K::L && b == K::L && !small {
                    continue;
                }
                let mut d = bdom::<F>(bk);
                d.extend(doms::<F>(&[a, b]));
                let inputs = product(&d, 300, r);
                s.add::<F>("switch", json!({}), true, &inputs, &move |f| {
                    let t = bit(f, bk);
                    let x = arg(f, a);
                    let y = arg(f, b);
                    f.note(&[&t.0, &x, &y]);
                    let o = x.switch(&t, &y);
                    Built { ins: vec![t.into_num(), x, y], outs: vec![o] }
                });
                if a == K::V && b == K::V {
                    let inputs = product(&d, 300, r);
                    s.add::<F>("switch", json!({}), true, &inputs, &move |f| {
                        let t = bit(f, bk);
                        let x = arg(f, a);
                        let y = arg(f, b);
                        f.note(&[&t.0, &x, &y]);
                        let o = t.if_else(&x, &y);
                        Built { ins: vec![t.into_num(), x, y], outs: vec![o] }
                    });
                }
            }
        }
        // overlapping branches
        let mut d = bdom::<F>(bk);
        d.extend(doms::<F>(&[K::V]));
        let inputs = product(&d, 300, r);
        s.add::<F>("switch", json!({}), true, &inputs, &move |f| {
            let t = bit(f, bk);
            let x = arg(f, K::V);
            let y = &x * of_u64::<F>(3) + of_u64::<F>(2);
            f.note(&[&t.0, &x, &y]);
            let o = x.switch(&t, &y);
            Built { ins: vec![t.into_num(), x, y], outs: vec![o] }
        });
        // booleans selected by a boolean, compared with each other
        for ak in 0..4u8 {
            for ck in 0..4u8 {
                let mut d = bdom::<F>(bk);
                d.extend(bdom::<F>(ak));
                d.extend(bdom::<F>(ck));
                let inputs = product(&d, 100, r);
                s.add::<F>("switch", json!({}), true, &inputs, &move |f| {
                    let t = bit(f, bk);
                    let x = bit(f, ak);
                    let y = bit(f, ck);
                    f.note(&[&t.0, &x.0, &y.0]);
                    let o = x.switch(&t, &y);
                    Built { ins: vec![t.into_num(), x.into_num(), y.into_num()], outs: vec![o.into_num()] }
                });
            }
            let mut d = bdom::<F>(bk);
            d.extend(bdom::<F>(ak));
            let inputs = product(&d, 100, r);
            s.add::<F>("is_eq", json!({}), true, &inputs, &move |f| {
                let x = bit(f, bk);
                let y = bit(f, ak);
                f.note(&[&x.0, &y.0]);
                let o = x.is_eq(&y);
                Built { ins: vec![x.into_num(), y.into_num()], outs: vec![o.into_num()] }
            });
            s.add::<F>("assert_eq", json!({}), true, &inputs, &move |f| {
                let x = bit(f, bk);
                let y = bit(f, ak);
                f.note(&[&x.0, &y.0]);
                x.assert_eq(&y);
                Built { ins: vec![x.into_num(), y.into_num()], outs: vec![] }
            });
        }
        for v in 0..2u64 {
            let inputs = product(&bdom::<F>(bk), 100, r);
            s.add::<F>("assert_const", json!({ "k": v }), true, &inputs, &move |f| {
                let x = bit(f, bk);
                f.note(&[&x.0]);
                x.assert_const(&(v == 1));
                Built { ins: vec![x.into_num()], outs: vec![] }
            });
        }
    }
    // an allocated boolean
    let inputs = product(&[dom_bit::<F>()], 10, r);
    s.add::<F>("alloc_bool", json!({}), true, &inputs, &|f| {
        let b: CBool<_> = f.signal(1, |v| v[0] == Num::one(), "F");
        Built { ins: vec![b.into_num()], outs: vec![] }
    });
    // and used by another gadget
    s.add::<F>("alloc_bool_switch", json!({}), true, &product(&[dom_bit::<F>(), dom_all::<F>(), dom_all::<F>()], 200, r), &|f| {
        let b: CBool<_> = f.signal(1, |v| v[0] == Num::one(), "F");
        let x = f.var();
        let y = f.var();
        let o = x.switch(&b, &y);
        Built { ins: vec![b.into_num(), x, y], outs: vec![o] }
    });
    // table lookup
    for rep in 0..c.n(3, 12) {
        let ncol = 1 + rep % 3;
        let tab: Vec<Vec<Num<F>>> = (0..ncol).map(|_| (0..8).map(|_| r.num()).collect()).collect();
        let jt: Vec<Value> = tab.iter().map(|t| enc_vec(t)).collect();
        for kinds in 0..64u8 {
            let kk = [kinds & 3, kinds >> 2 & 3, kinds >> 4 & 3];
            let mut d = bdom::<F>(kk[0]);
            d.extend(bdom::<F>(kk[1]));
            d.extend(bdom::<F>(kk[2]));
            let inputs = product(&d, 100, r);
            let tab = tab.clone();
            s.add::<F>("mux3", json!({ "tab": jt }), true, &inputs, &move |f| {
                let b: Vec<_> = kk.iter().map(|k| bit(f, *k)).collect();
                let outs = c_mux3(&b, &tab);
                Built { ins: b.iter().map(|x| x.into_num()).collect(), outs }
            });
        }
    }
}

/// the honest prover over the real fields
fn real<F: HF>(c: &Ctx, s: &mut Sink, r: &mut R) {
    let b = boundary::<F>();
    let n = c.n(6, 40);
    let mut pairs: Vec<Vec<Num<F>>> = (0..n).map(|_| vec![r.bnum(), r.bnum()]).collect();
    pairs.push(vec![b[4], b[4]]);
    pairs.push(vec![b[0], b[4]]);
    pairs.push(vec![b[1], b[0]]);
    for g in ["mul", "div", "is_eq", "assert_eq"].iter() {
        for k in [K::V, K::M].iter() {
            let k = *k;
            let inp: Vec<_> = pairs.clone();
            s.add::<F>(g, json!({}), true, &inp, &move |f| {
                let a = arg(f, k);
                let b = arg(f, k);
                f.note(&[&a, &b]);
                two(g, a, b)
            });
        }
    }
    let one: Vec<Vec<Num<F>>> = b.iter().map(|x| vec![*x]).collect();
    for g in ["is_zero", "square", "assert_zero", "assert_nonzero", "assert_bit"].iter() {
        let g: &'static str = g;
        s.add::<F>(g, json!({"k":0}), true, &one, &move |f| {
            let a = f.var();
            let outs = match g {
                "is_zero" => vec![a.is_zero().into_num()],
                "square" => vec![a.square()],
                "assert_zero" => { a.assert_zero(); vec![] }
                "assert_nonzero" => { a.assert_nonzero(); vec![] }
                _ => { a.assert_bit(); vec![] }
            };
            Built { ins: vec![a], outs }
        });
    }
    let tr: Vec<Vec<Num<F>>> = (0..n).map(|i| vec![of_u64((i % 2) as u64), r.bnum(), r.bnum()]).collect();
    s.add::<F>("switch", json!({}), true, &tr, &|f| {
        let t = f.bit();
        let x = f.var();
        let y = f.var();
        f.note(&[&t.0, &x, &y]);
        let o = x.switch(&t, &y);
        Built { ins: vec![t.into_num(), x, y], outs: vec![o] }
    });
}

pub fn run(c: &Ctx) {
    let mut s = Sink::new(c, "small", true);
    let mut r = c.rng(13);
    field::<Tiny<5>>(c, &mut s, &mut r, true);
    field::<Tiny<7>>(c, &mut s, &mut r, false);
    if c.thorough {
        field::<Tiny<13>>(c, &mut s, &mut r, false);
        field::<Tiny<17>>(c, &mut s, &mut r, false);
    }
    let mut s = Sink::new(c, "big", false);
    real::<fawkes_crypto::native::bn256::Fr>(c, &mut s, &mut r);
    real::<fawkes_crypto::native::bls12_381::Fr>(c, &mut s, &mut r);
    field::<fawkes_crypto::native::bn256::Fr>(c, &mut s, &mut r, false);
    field::<fawkes_crypto::native::bls12_381::Fr>(c, &mut s, &mut r, false);
    let _ = CNum::<Rec<Tiny<5>>>::zero;
}
