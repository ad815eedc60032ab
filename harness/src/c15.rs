//! C15: curve gadgets.
use crate::enc::*;
use crate::pts::*;
use crate::rec::*;
use crate::tiny::{Tiny, TinyCurve};
use fawkes_crypto::circuit::{
    bool::CBool,
    ecc::{CEdwardsPoint, CMontgomeryPoint},
    num::CNum,
};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::ecc::*;
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;

/// a point argument: constant or variable over a domain
#[derive(Clone, Copy)]
enum A<F: HF> {
    C(Num<F>, Num<F>),
    V(&'static str),
    /// coordinates offset from the variables: x = v + 3, y = 2 w - 1 (domain: pairs of F)
    O,
    /// constant x, variable y
    X(Num<F>),
    Y(Num<F>),
}
type Mt<'a, F> = CMontgomeryPoint<'a, Rec<F>>;

fn pair<'a, F: HF>(f: &mut Feed<'a, F>, a: A<F>) -> (N<'a, F>, N<'a, F>) {
    match a {
        A::C(x, y) => (CNum::from_const(f.cs, &x), CNum::from_const(f.cs, &y)),
        A::V("F2") => (f.var(), f.var()),
        A::V(d) => {
            let v = f.vars(d, 2);
            (v[0].clone(), v[1].clone())
        }
        A::O => {
            let v = f.var();
            let w = f.var();
            (v + of_u64::<F>(3), w * of_u64::<F>(2) - of_u64::<F>(1))
        }
        A::X(x) => (CNum::from_const(f.cs, &x), f.var()),
        A::Y(y) => {
            let v = f.var();
            (v, CNum::from_const(f.cs, &y))
        }
    }
}
fn ed<'a, F: HF>(p: &(N<'a, F>, N<'a, F>)) -> P<'a, F> {
    CEdwardsPoint { x: p.0.clone(), y: p.1.clone() }
}
fn mt<'a, F: HF>(p: &(N<'a, F>, N<'a, F>)) -> Mt<'a, F> {
    CMontgomeryPoint { x: p.0.clone(), y: p.1.clone() }
}

struct G<'c, F: HF, J: JubJubParams<Fr = F>> {
    s: &'c mut Sink,
    name: &'static str,
    j: J,
    ph: std::marker::PhantomData<F>,
}
impl<'c, F: HF, J: JubJubParams<Fr = F> + 'static> G<'c, F, J> {
    fn one(&mut self, g: &'static str, a: A<F>, first: bool, inputs: &[Vec<Num<F>>]) {
        let j = self.j.clone();
        self.s.add::<F>(g, json!({"c": self.name}), first, inputs, &move |f| {
            let p = pair(f, a);
            f.note(&[&p.0, &p.1]);
            let o = match g {
                "ed_double" => Some(ed(&p).double(&j)),
                "ed_cof" => Some(ed(&p).mul_by_cofactor(&j)),
                "into_ed" => Some(mt(&p).into_edwards()),
                "in_curve" => {
                    ed(&p).assert_in_curve(&j);
                    None
                }
                "in_subgroup" => {
                    ed(&p).assert_in_subgroup(&j);
                    None
                }
                _ => None,
            };
            let m = match g {
                "into_mont" => Some(ed(&p).into_montgomery()),
                "mont_double" => Some(mt(&p).double(&j)),
                _ => None,
            };
            let mut outs = vec![];
            if let Some(o) = o {
                outs = vec![o.x, o.y];
            }
            if let Some(o) = m {
                outs = vec![o.x, o.y];
            }
            Built { ins: vec![p.0, p.1], outs }
        });
    }
    fn two(&mut self, g: &'static str, a: A<F>, b: A<F>, inputs: &[Vec<Num<F>>]) {
        let j = self.j.clone();
        self.s.add::<F>(g, json!({"c": self.name}), true, inputs, &move |f| {
            let p = pair(f, a);
            let q = pair(f, b);
            f.note(&[&p.0, &p.1, &q.0, &q.1]);
            let outs = match g {
                "ed_add" => {
                    let o = ed(&p).add(&ed(&q), &j);
                    vec![o.x, o.y]
                }
                _ => {
                    let o = mt(&p).add(&mt(&q), &j);
                    vec![o.x, o.y]
                }
            };
            Built { ins: vec![p.0, p.1, q.0, q.1], outs }
        });
    }
    /// bits: 0/1 constant, 2 variable
    fn mul(&mut self, a: A<F>, bits: Vec<u8>, inputs: &[Vec<Num<F>>]) {
        let j = self.j.clone();
        self.s.add::<F>("ed_mul", json!({"c": self.name}), true, inputs, &move |f| {
            let p = pair(f, a);
            let bs: Vec<B<F>> = bits
                .iter()
                .map(|k| if *k < 2 { CBool::from_const(f.cs, &(*k == 1)) } else { f.bit() })
                .collect();
            let mut ins = vec![p.0.clone(), p.1.clone()];
            ins.extend(bs.iter().map(|x| x.into_num()));
            f.note(&ins.iter().collect::<Vec<_>>());
            let o = ed(&p).mul(&bs, &j);
            Built { ins, outs: vec![o.x, o.y] }
        });
    }
    /// decompress / from_scalar; None: a variable
    fn num(&mut self, g: &'static str, c: Option<Num<F>>, first: bool, inputs: &[Vec<Num<F>>]) {
        let j = self.j.clone();
        self.s.add::<F>(g, json!({"c": self.name}), first, inputs, &move |f| {
            let x = match c {
                Some(c) => CNum::from_const(f.cs, &c),
                None => f.var(),
            };
            f.note(&[&x]);
            let o = match g {
                "decompress" => CEdwardsPoint::subgroup_decompress(&x, &j),
                _ => CEdwardsPoint::from_scalar(&x, &j),
            };
            Built { ins: vec![x], outs: vec![o.x, o.y] }
        });
    }
}

fn xy<F: HF>(p: &Pt<F>) -> Vec<Num<F>> {
    vec![p.x, p.y]
}
fn mont<F: HF>(p: &Pt<F>) -> Option<Vec<Num<F>>> {
    // independent of the library
    if p.x == of_u64(0) {
        return if p.y == of_u64(1) { None } else { Some(vec![of_u64(0), of_u64(0)]) };
    }
    let x = fmul(fadd(of_u64(1), p.y), finv(fsub(of_u64(1), p.y)));
    Some(vec![x, fmul(x, finv(p.x))])
}
fn bitdoms<F: HF>(ks: &[u8]) -> Vec<Vec<Vec<Num<F>>>> {
    ks.iter().filter(|k| **k == 2).map(|_| dom_bit::<F>()).collect()
}

fn tiny<const PP: u64, const Q: u64>(c: &Ctx, s: &mut Sink, r: &mut R, name: &'static str, j: &TinyCurve<PP, Q>, part: usize) {
    type T<const X: u64> = Tiny<X>;
    let pts = points(j);
    let q = BigUint::from(Q);
    let sub: Vec<Pt<T<PP>>> = pts.iter().cloned().filter(|p| { let t = amul(p, &q, j.d); t.x == of_u64(0) && t.y == of_u64(1) }).collect();
    assert!(sub.len() as u64 == Q);
    let dp: Vec<Vec<Num<T<PP>>>> = pts.iter().map(xy).collect();
    let ds: Vec<Vec<Num<T<PP>>>> = sub.iter().map(xy).collect();
    let dm: Vec<Vec<Num<T<PP>>>> = pts.iter().filter_map(mont).collect();
    let mut g = G { s, name, j: j.clone(), ph: std::marker::PhantomData };
    let f2: Vec<Vec<Vec<Num<T<PP>>>>> = vec![dom_all(), dom_all()];
    if part == 1 {
        for (gd, dom, d) in [("ed_double", "curve", &dp), ("ed_cof", "curve", &dp), ("into_mont", "curve", &dp), ("into_ed", "mont", &dm), ("mont_double", "mont", &dm)].iter() {
            let inp = product(&[d.to_vec()], 200, r);
            g.one(gd, A::V(dom), true, &inp);
            for v in d.iter() {
                g.one(gd, A::C(v[0], v[1]), true, &[]);
            }
            // coordinates that are combinations
            let inp = product(&f2, 100, r);
            if *gd != "ed_cof" {
                g.one(gd, A::O, true, &inp);
            }
        }
        // point assertions over all pairs of coordinates
        for a in [A::V("F2"), A::O].iter() {
            let mut inp = product(&f2, 300, r);
            if let A::V(_) = a {
                inp.extend(dp.iter().cloned());
            }
            g.one("in_curve", *a, true, &inp);
            g.one("in_subgroup", *a, false, &inp);
        }
        for v in dp.iter() {
            g.one("in_curve", A::C(v[0], v[1]), true, &[]);
            g.one("in_curve", A::C(v[0], fadd(v[1], of_u64(1))), true, &[]);
            g.one("in_subgroup", A::C(v[0], v[1]), false, &[]);
            if r.below(8) == 0 {
                g.one("in_subgroup", A::C(v[0], fadd(v[1], of_u64(1))), false, &[]);
                g.one("in_subgroup", A::X(v[0]), false, &product(&[dom_all()], 200, r));
                g.one("in_curve", A::Y(v[1]), true, &product(&[dom_all()], 200, r));
            }
        }
        g.num("decompress", None, false, &product(&[dom_all()], 200, r));
        for x in all::<T<PP>>() {
            g.num("decompress", Some(x), false, &[]);
        }
    }
    if part == 2 {
        for (gd, dom, d) in [("ed_add", "curve", &dp), ("mont_add", "mont", &dm)].iter() {
            let inp = product(&[d.to_vec(), d.to_vec()], c.n(500, 5000), r);
            g.two(gd, A::V(dom), A::V(dom), &inp);
            for (i, v) in d.iter().enumerate() {
                if i % c.n(9, 3) == 0 {
                    let k = A::C(v[0], v[1]);
                    let inp = product(&[d.to_vec()], 100, r);
                    g.two(gd, k, A::V(dom), &inp);
                    g.two(gd, A::V(dom), k, &inp);
                    let w = r.pick(d).clone();
                    g.two(gd, k, A::C(w[0], w[1]), &[]);
                    let ng = if *dom == "curve" { A::C(fsub(of_u64(0), v[0]), v[1]) } else { A::C(v[0], fsub(of_u64(0), v[1])) };
                    g.two(gd, k, k, &[]);
                    g.two(gd, k, ng, &[]);
                }
            }
        }
    }
    if part == 3 {
        for n in 0..=c.n(6, 8) {
            let bits = vec![2u8; n];
            let mut d = vec![ds.clone()];
            d.extend(bitdoms(&bits));
            let inp = product(&d, c.n(120, 1500), r);
            g.mul(A::V("subgroup"), bits.clone(), &inp);
            for (i, v) in ds.iter().enumerate() {
                if (n + i) % c.n(3, 1) == 0 || v[0] == of_u64(0) {
                    let inp = product(&bitdoms(&bits), 40, r);
                    g.mul(A::C(v[0], v[1]), bits.clone(), &inp);
                }
            }
            for _ in 0..2 {
                let bits: Vec<u8> = (0..n).map(|_| r.below(3) as u8).collect();
                let mut d = vec![ds.clone()];
                d.extend(bitdoms(&bits));
                let inp = product(&d, 60, r);
                g.mul(A::V("subgroup"), bits.clone(), &inp);
                let v = r.pick(&ds).clone();
                let inp = product(&bitdoms(&bits), 60, r);
                g.mul(A::C(v[0], v[1]), bits.clone(), &inp);
                let bits: Vec<u8> = (0..n).map(|_| r.below(2) as u8).collect();
                g.mul(A::C(v[0], v[1]), bits, &[]);
            }
        }
    }
    if part == 4 {
        let inp = product(&[dom_all()], 200, r);
        g.num("from_scalar", None, true, &inp);
        let n = all::<T<PP>>().len();
        for (i, x) in all::<T<PP>>().into_iter().enumerate() {
            // constants: a few in the quick tier, always the exceptional one
            if !c.thorough && i > 2 && i + 1 < n && i % 10 != 0 {
                continue;
            }
            g.num("from_scalar", Some(x), true, &[]);
        }
    }
}

fn real<F: HF, J: JubJubParams<Fr = F> + 'static>(c: &Ctx, s: &mut Sink, r: &mut R, name: &'static str, j: &J)
where
    J::Fs: HF,
{
    let d = j.edwards_d();
    let q = modulus::<J::Fs>();
    let low = low_order(r, d, &q);
    let mut pts = low.clone();
    for l in low.iter() {
        pts.push(aadd(&rand_point(r, d), l, d));
    }
    let sub: Vec<Pt<F>> = (0..6).map(|_| amul(&rand_point(r, d), &BigUint::from(8u32), d)).collect();
    pts.extend(sub.iter().cloned());
    let mut g = G { s, name, j: j.clone(), ph: std::marker::PhantomData };
    let dp: Vec<Vec<Num<F>>> = pts.iter().map(xy).collect();
    let dm: Vec<Vec<Num<F>>> = pts.iter().filter_map(mont).collect();
    for (gd, dom, dd) in [("ed_double", "curve", &dp), ("ed_cof", "curve", &dp), ("into_mont", "curve", &dp), ("into_ed", "mont", &dm), ("mont_double", "mont", &dm)].iter() {
        g.one(gd, A::V(dom), true, dd);
        let v = r.pick(dd).clone();
        g.one(gd, A::C(v[0], v[1]), true, &[]);
    }
    for (gd, dom, dd) in [("ed_add", "curve", &dp), ("mont_add", "mont", &dm)].iter() {
        let mut inp = vec![];
        for v in dd.iter() {
            let w = r.pick(dd).clone();
            inp.push([v.clone(), w].concat());
            inp.push([v.clone(), v.clone()].concat());
            let ng = if *dom == "curve" { vec![fsub(of_u64(0), v[0]), v[1]] } else { vec![v[0], fsub(of_u64(0), v[1])] };
            inp.push([v.clone(), ng].concat());
        }
        g.two(gd, A::V(dom), A::V(dom), &inp);
        let v = r.pick(dd).clone();
        g.two(gd, A::C(v[0], v[1]), A::V(dom), dd);
        g.two(gd, A::V(dom), A::C(v[0], v[1]), dd);
    }
    let mut bad = dp.clone();
    bad.push(vec![r.num(), r.num()]);
    bad.push(vec![dp[9][0], fadd(dp[9][1], of_u64(1))]);
    bad.push(vec![of_u64(0), of_u64(0)]);
    bad.push(vec![of_u64(1), of_u64(1)]);
    g.one("in_curve", A::V("F2"), true, &bad);
    g.one("in_subgroup", A::V("F2"), true, &bad);
    for v in [&dp[9], &dp[16], &dp[4], &bad[bad.len() - 1]].iter() {
        g.one("in_curve", A::C(v[0], v[1]), true, &[]);
        g.one("in_subgroup", A::C(v[0], v[1]), true, &[]);
    }
    let mut xs: Vec<Vec<Num<F>>> = dp.iter().map(|v| vec![v[0]]).collect();
    xs.extend((0..4).map(|_| vec![r.num()]));
    xs.push(vec![of_u64(0)]);
    g.num("decompress", None, true, &xs);
    g.num("decompress", Some(sub[0].x), true, &[]);
    g.num("decompress", Some(dp[9][0]), true, &[]);
    let mut ts: Vec<Vec<Num<F>>> = vec![vec![of_u64(0)], vec![of_u64(1)], vec![-of_u64::<F>(2)], vec![-of_u64::<F>(1)]];
    ts.extend((0..c.n(3, 20)).map(|_| vec![r.num()]));
    g.num("from_scalar", None, true, &ts);
    let t = r.num();
    g.num("from_scalar", Some(t), true, &[]);
    // scalar multiplication
    let zero = vec![of_u64(0), of_u64(1)];
    let gen = xy(j.edwards_g());
    let ns = <J::Fs as ff::PrimeField>::NUM_BITS as usize;
    let mut lens = vec![0usize, 1, 2, 3, 4, 7, 30, ns];
    if c.thorough {
        lens.extend_from_slice(&[5, 6, 100, 127, 128, ns - 1, ns + 1, ns + 2]);
    }
    // longer than any scalar
    for n in [256usize, 263].iter() {
        let bits = |r: &mut R| -> Vec<Num<F>> { (0..*n).map(|i| of_u64(if i + 2 > *n { 1 } else { r.below(2) })).collect() };
        let v = bits(r);
        g.mul(A::C(gen[0], gen[1]), vec![2; *n], &[v]);
        let v = bits(r);
        g.mul(A::V("subgroup"), vec![2; *n], &[[xy(&sub[3]), v].concat()]);
    }
    for n in lens {
        let mut inp = vec![];
        let rb = |r: &mut R, v: u64| -> Vec<Num<F>> {
            (0..n).map(|i| of_u64(match v { 0 => 0, 1 => 1, 2 => (i == n - 1) as u64, _ => r.below(2) })).collect()
        };
        for (i, b) in [xy(&sub[0]), zero.clone(), gen.clone(), xy(&sub[1])].iter().enumerate() {
            let v = rb(r, if i == 3 { 3 } else { i as u64 });
            inp.push([b.clone(), v].concat());
            if n < 10 || c.thorough {
                for k in 0..4 {
                    let v = rb(r, k);
                    inp.push([b.clone(), v].concat());
                }
            }
        }
        // the bits of the group order and of the order plus or minus one
        if n >= ns {
            for k in [BigUint::from(0u32), BigUint::from(1u32), BigUint::from(2u32)].iter() {
                let m = &q + k - BigUint::from(1u32);
                let bits: Vec<Num<F>> = (0..n).map(|i| of_u64(if (&m >> i) % 2u32 == BigUint::from(1u32) { 1 } else { 0 })).collect();
                inp.push([xy(&sub[2]), bits].concat());
            }
        }
        g.mul(A::V("subgroup"), vec![2; n], &inp);
        for b in [xy(&sub[0]), zero.clone(), gen.clone()].iter() {
            let mut inp = vec![];
            for k in 0..4 {
                if n < 10 || k == 3 || k == 1 {
                    inp.push(rb(r, k));
                }
            }
            g.mul(A::C(b[0], b[1]), vec![2; n], &inp);
        }
    }
}

pub fn run(c: &Ctx) {
    let mut r = c.rng(15);
    // the search is split so that TLC runs work on it side by side
    for part in 1..=4 {
        let mut s = Sink::new(c, &format!("small{}", part), true);
        tiny(c, &mut s, &mut r, "c73", &c73(), part);
        if c.thorough || part == 3 {
            tiny(c, &mut s, &mut r, "c89", &c89(), part);
        }
        if c.thorough {
            tiny(c, &mut s, &mut r, "c97", &c97(), part);
            tiny(c, &mut s, &mut r, "c101", &c101(), part);
        }
    }
    let mut s = Sink::new(c, "big", false);
    real(c, &mut s, &mut r, "bn", &fawkes_crypto::native::bn256::JubJubBN256::new());
    real(c, &mut s, &mut r, "bls", &fawkes_crypto::native::bls12_381::JubJubBLS12_381::new());
}
