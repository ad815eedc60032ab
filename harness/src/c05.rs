//! C05: native group law.
use crate::enc::*;
use crate::pts::*;
use crate::tiny::{Tiny, TinyCurve};
use fawkes_crypto::native::ecc::*;
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;

/// everything that is a function of one point
fn unary<F: HF, J: JubJubParams<Fr = F>>(o: &mut Out, name: &str, j: &J, e: &Ex<F>, a: &Pt<F>) {
    let v = guard(|| {
        let mont = a.into_montgomery();
        let (back, backex) = match &mont {
            Some(m) => (ept(&m.into_affine()), eex(&m.into_extended())),
            None => (json!(0), json!(0)),
        };
        json!({"t":"un","c":name,"a":eex(e),
        "dbl":eex(&e.double()),"neg":eex(&e.negate()),"cof":eex(&e.mul_by_cofactor()),
        "aff":ept(&e.into_affine()),"affdbl":ept(&a.double()),"affcof":ept(&a.mul_by_cofactor()),
        "ext":eex(&a.into_extended()),
        "iszero":e.is_zero(),"affzero":a.is_zero(),
        "oncurve":e.is_in_curve(j),"affoncurve":a.is_in_curve(j),"sub":e.is_in_subgroup(j),
        "mont":eompt(&mont),"exmont":eompt(&e.into_montgomery()),"back":back,"backex":backex})
    });
    o.ev(v.unwrap_or(json!({"t":"panic","c":name,"a":eex(e)})));
}

fn tiny<const P: u64, const Q: u64>(c: &Ctx, o: &mut Out, r: &mut R, name: &str, j: &TinyCurve<P, Q>) {
    let pts = points(j);
    let reps = c.n(1, 4);
    for a in pts.iter() {
        for _ in 0..reps {
            let za = nz(r);
            let ea = rep(a, za);
            // all second operands, each in some representation
            let bs: Vec<Ex<Tiny<P>>> = pts
                .iter()
                .map(|b| {
                    let z = match r.below(3) { 0 => of_u64(1), 1 => za, _ => nz(r) };
                    rep(b, z)
                })
                .collect();
            let v = guard(|| {
                let rs: Vec<Value> = bs.iter().map(|b| eex(&ea.add(b, j))).collect();
                let es: Vec<bool> = bs.iter().map(|b| ea == *b).collect();
                (rs, es)
            });
            let jb: Vec<Value> = bs.iter().map(eex).collect();
            match v {
                Some((rs, es)) => {
                    o.ev(json!({"t":"addrow","c":name,"a":eex(&ea),"b":jb,"r":rs}));
                    o.ev(json!({"t":"eqrow","c":name,"a":eex(&ea),"b":jb,"r":es}));
                }
                None => o.ev(json!({"t":"panic","c":name,"a":eex(&ea)})),
            }
            unary(o, name, j, &ea, a);
            let v = guard(|| {
                let m: Vec<Value> = all::<Tiny<Q>>().iter().map(|s| eex(&ea.mul(*s, j))).collect();
                let ma: Vec<Value> = all::<Tiny<Q>>().iter().map(|s| ept(&a.mul(*s, j))).collect();
                json!({"t":"mulrow","c":name,"a":eex(&ea),"r":m,"raff":ma})
            });
            o.ev(v.unwrap_or(json!({"t":"panic","c":name,"a":eex(&ea)})));
        }
        unary(o, name, j, &rep(a, of_u64(1)), a);
        // affine addition on a sample of pairs
        for _ in 0..8 {
            let b = r.pick(&pts).clone();
            let v = guard(|| ept(&a.add(&b, j)));
            o.ev(json!({"t":"affadd","c":name,"a":ept(a),"b":ept(&b),"r":v.unwrap_or(json!(["panic"]))}));
        }
        let v = guard(|| ept(&a.add(a, j)));
        o.ev(json!({"t":"affadd","c":name,"a":ept(a),"b":ept(a),"r":v.unwrap_or(json!(["panic"]))}));
        let n = EdwardsPoint { x: fsub(of_u64(0), a.x), y: a.y };
        let v = guard(|| ept(&a.add(&n, j)));
        o.ev(json!({"t":"affadd","c":name,"a":ept(a),"b":ept(&n),"r":v.unwrap_or(json!(["panic"]))}));
    }
    o.ev(json!({"t":"zero","c":name,"ex":eex(&Ex::<Tiny<P>>::zero()),"aff":ept(&Pt::<Tiny<P>>::zero())}));
    membership(o, name, j, false);
}

/// membership tests on arbitrary data
fn membership<const P: u64, const Q: u64>(o: &mut Out, name: &str, j: &TinyCurve<P, Q>, quad: bool) {
    let els = all::<Tiny<P>>();
    for x in els.iter() {
        let row: Vec<bool> = els.iter().map(|y| EdwardsPoint { x: *x, y: *y }.is_in_curve(j)).collect();
        o.ev(json!({"t":"curve","c":name,"x":enc(x),"r":row}));
        if quad {
            for y in els.iter() {
                for t in els.iter() {
                    let row: Vec<bool> = els
                        .iter()
                        .map(|z| EdwardsPointEx { x: *x, y: *y, t: *t, z: *z }.is_in_curve(j))
                        .collect();
                    o.ev(json!({"t":"curvex","c":name,"x":enc(x),"y":enc(y),"tt":enc(t),"r":row}));
                }
            }
        }
    }
}

fn real<F: HF, J: JubJubParams<Fr = F>>(c: &Ctx, o: &mut Out, r: &mut R, name: &str, j: &J)
where
    J::Fs: HF,
{
    let d = j.edwards_d();
    let q = modulus::<J::Fs>();
    let low = low_order(r, d, &q);
    let g8 = amul(&rand_point(r, d), &BigUint::from(8u32), d); // a subgroup point
    let mut pts = low.clone();
    pts.push(g8);
    pts.push(*j.edwards_g());
    for l in low.iter() {
        pts.push(aadd(&g8, l, d)); // every coset of the subgroup
    }
    for _ in 0..c.n(3, 40) {
        pts.push(rand_point(r, d));
    }
    let n = pts.len();
    for (i, a) in pts.iter().enumerate() {
        let ea = rep(a, nz(r));
        unary(o, name, j, &ea, a);
        for k in 0..c.n(6, 20) {
            let b = match k {
                0 => *a,
                1 => EdwardsPoint { x: fsub(of_u64(0), a.x), y: a.y },
                2 => EdwardsPoint { x: of_u64(0), y: of_u64(1) },
                _ => pts[(i * 7 + k * 5) % n],
            };
            let eb = rep(&b, nz(r));
            match guard(|| eex(&ea.add(&eb, j))) {
                Some(v) => o.ev(json!({"t":"add","c":name,"a":eex(&ea),"b":eex(&eb),"r":v})),
                None => o.ev(json!({"t":"panic","c":name,"a":eex(&ea)})),
            }
            o.ev(json!({"t":"affadd","c":name,"a":ept(a),"b":ept(&b),"r":guard(|| ept(&a.add(&b, j))).unwrap_or(json!(["panic"]))}));
            o.ev(json!({"t":"eq1","c":name,"a":eex(&ea),"b":eex(&eb),"r":ea == eb}));
        }
        // points off the curve
        let bad = EdwardsPoint { x: a.x, y: fadd(a.y, of_u64(1)) };
        o.ev(json!({"t":"curve1","c":name,"a":ept(&bad),"r":bad.is_in_curve(j)}));
        for k in 0..4 {
            let mut b = ea;
            match k {
                0 => b.x = fadd(b.x, of_u64(1)),
                1 => b.y = fadd(b.y, of_u64(1)),
                2 => b.t = fadd(b.t, of_u64(1)),
                _ => b.z = of_u64(0),
            }
            o.ev(json!({"t":"curvex1","c":name,"a":eex(&b),"r":b.is_in_curve(j)}));
        }
    }
    // scalar multiplication
    let bs = boundary::<J::Fs>();
    let m = c.n(14, 120);
    for k in 0..m {
        let a = pts[k * 5 % n];
        let s: Num<J::Fs> = if k < bs.len() && (k % 2 == 0 || c.thorough) { bs[k] } else { r.bnum() };
        let ea = rep(&a, nz(r));
        match guard(|| json!({"t":"mul","c":name,"a":eex(&ea),"s":big(&to_big(&s)),"r":eex(&ea.mul(s, j)),"raff":ept(&a.mul(s, j))})) {
            Some(v) => o.ev(v),
            None => o.ev(json!({"t":"panic","c":name,"a":eex(&ea)})),
        }
    }
}

pub fn run(c: &Ctx) {
    let mut o = c.out("small.ndjson");
    let mut r = c.rng(5);
    tiny(c, &mut o, &mut r, "c73", &c73());
    tiny(c, &mut o, &mut r, "c97", &c97());
    if c.thorough {
        tiny(c, &mut o, &mut r, "c89", &c89());
        tiny(c, &mut o, &mut r, "c101", &c101());
    }
    membership::<5, 5>(&mut o, "c5", &TinyCurve::new(2, 2, 0, 1), true);
    membership::<13, 5>(&mut o, "c13", &TinyCurve::new(2, 2, 0, 1), true);
    let mut o = c.out("big.ndjson");
    real(c, &mut o, &mut r, "bn", &fawkes_crypto::native::bn256::JubJubBN256::new());
    real(c, &mut o, &mut r, "bls", &fawkes_crypto::native::bls12_381::JubJubBLS12_381::new());
}
