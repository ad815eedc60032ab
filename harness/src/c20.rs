//! C20: the generated Ethereum verifier, executed on the interpreter of sol.rs.
use crate::c04::{coords, pt};
use crate::c19::Lc;
use crate::enc::*;
use crate::pts::{fadd, finv, fmul, fsub};
use crate::sol::{self, Program, Stop};
use fawkes_crypto::helpers::groth16::ethereum::generate_sol_data;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove, Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, verify, TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use fawkes_crypto::native::num::Num;
use ff::PrimeField;
use num::bigint::BigUint;
use pairing::bn256::{Bn256, Fq, Fr, G1Affine, G2Affine};
use pairing::{CurveAffine, CurveProjective};

type N = Num<Fr>;
type Key = TruncatedVerifyingKey<Bn256>;
fn g1(x: &N) -> G1Affine {
    G1Affine::one().mul(x.0.into_repr()).into_affine()
}
fn g2(x: &N) -> G2Affine {
    G2Affine::one().mul(x.0.into_repr()).into_affine()
}
fn zero() -> BigUint {
    BigUint::from(0u32)
}
fn c1(p: &G1Affine) -> Vec<BigUint> {
    if p.is_zero() {
        vec![zero(); 2]
    } else {
        coords(p, 2)
    }
}
fn c2(p: &G2Affine) -> Vec<BigUint> {
    if p.is_zero() {
        vec![zero(); 4]
    } else {
        coords(p, 4)
    }
}
/// the eight coordinates, taken from the data form of the proof
fn eight(p: &Proof<Bn256>) -> Vec<BigUint> {
    fn flat(v: &Value, r: &mut Vec<BigUint>) {
        match v {
            Value::Array(a) => a.iter().for_each(|x| flat(x, r)),
            Value::String(s) => r.push(BigUint::parse_bytes(s.as_bytes(), 10).unwrap()),
            _ => panic!("data form"),
        }
    }
    let d: ProofData<Fq> = p.into_data();
    let v = serde_json::to_value(&d).unwrap();
    let mut r = vec![];
    for k in ["a", "b", "c"].iter() {
        flat(&v[*k], &mut r);
    }
    r
}
struct Kx {
    al: N,
    be: N,
    ga: N,
    de: N,
    ic: Vec<N>,
}
impl Kx {
    fn key(&self) -> Key {
        Key {
            alpha_g1: g1(&self.al),
            beta_g2: g2(&self.be),
            gamma_g2: g2(&self.ga),
            delta_g2: g2(&self.de),
            ic: self.ic.iter().map(g1).collect(),
        }
    }
    fn json(&self) -> Value {
        json!({"alpha":enc(&self.al),"beta":enc(&self.be),"gamma":enc(&self.ga),"delta":enc(&self.de),"ic":enc_vec(&self.ic)})
    }
    /// c of a proof (a, b, c) that verifies for x
    fn solve(&self, a: &N, b: &N, x: &[N]) -> N {
        let mut acc = self.ic[0];
        for (u, v) in x.iter().zip(self.ic.iter().skip(1)) {
            acc = fadd(acc, fmul(*u, *v));
        }
        let rest = fsub(fsub(fmul(*a, *b), fmul(self.al, self.be)), fmul(acc, self.ga));
        fmul(rest, finv(self.de))
    }
}
fn pick(r: &mut R) -> N {
    match r.below(8) {
        0 => of_u64(0),
        1 => of_u64(1),
        2 => fsub(of_u64(0), of_u64(1)),
        3 => of_u64(r.below(4)),
        _ => r.bnum(),
    }
}
/// the generated contract of a key given as data or read back from its JSON form
fn contract(k: &Key, json: bool) -> Option<String> {
    guard(|| {
        let d = k.into_data();
        let d = if json { serde_json::from_str::<TruncatedVerifyingKeyData<Fq>>(&serde_json::to_string(&d).unwrap()).unwrap() } else { d };
        generate_sol_data(&d)
    })
}
fn exec(p: &Result<Program, Stop>, pr: &[BigUint], x: &[BigUint]) -> &'static str {
    match p {
        Err(e) => {
            eprintln!("contract: {:?}", e);
            "invalid"
        }
        Ok(p) => match sol::call(p, "verifyProof", &[pr.to_vec(), x.to_vec()]) {
            Ok(v) if v == zero() => "false",
            Ok(v) if v == BigUint::from(1u32) => "true",
            Ok(_) => "other",
            Err(Stop::Revert(_)) => "revert",
            Err(e) => {
                eprintln!("contract: {:?}", e);
                "invalid"
            }
        },
    }
}
fn native(k: &Key, p: &Proof<Bn256>, x: &[N]) -> &'static str {
    let x: Vec<Fr> = x.iter().map(|v| v.0).collect();
    match guard(|| verify(k, p, &x)) {
        None => "panic",
        Some(Err(_)) => "err",
        Some(Ok(true)) => "true",
        Some(Ok(false)) => "false",
    }
}
fn bigs(v: &[BigUint]) -> Vec<Value> {
    v.iter().map(big).collect()
}
/// a key's contract and the runs made on it
struct Case {
    kx: Kx,
    key: Key,
    prog: Result<Program, Stop>,
}
impl Case {
    fn new(o: &mut Out, kx: Kx, json: bool) -> Case {
        let key = kx.key();
        let text = contract(&key, json);
        let t = text.unwrap_or_default();
        o.ev(json!({"t":"text","made":!t.is_empty(),"left":t.matches("<%").count() + t.matches("%>").count()}));
        let prog = sol::parse(&t);
        Case { kx, key, prog }
    }
    /// exponents a, b, c of the proof when its coordinates denote group elements
    fn run(&self, o: &mut Out, pr: &[BigUint], x: &[BigUint], ex: &[N]) {
        let out = exec(&self.prog, pr, x);
        // native verification of the same object, where there is one
        let q = modulus::<Fq>();
        let p = if pr.iter().all(|v| *v < q) {
            match (sol::g1(&pr[0..2]), sol::g2(&pr[2..6]), sol::g1(&pr[6..8])) {
                (Some(a), Some(b), Some(c)) => Some(Proof::<Bn256>(bellman::groth16::Proof { a, b, c })),
                _ => None,
            }
        } else {
            None
        };
        let r = modulus::<Fr>();
        let nat = match &p {
            Some(p) if x.iter().all(|v| *v < r) => native(&self.key, p, &x.iter().map(of_big).collect::<Vec<_>>()),
            _ => "none",
        };
        // points as the specification reads them
        let mut d = vec![];
        let ok = pr.iter().all(|v| *v < q);
        if ok {
            d = vec![json!([big(&pr[0]), big(&pr[1])]), json!([[big(&pr[2]), big(&pr[3])], [big(&pr[4]), big(&pr[5])]]), json!([big(&pr[6]), big(&pr[7])])];
        }
        o.ev(json!({"t":"run","f":"bn_fr","key":self.kx.json(),"p":bigs(pr),"d":d,"x":bigs(x),"e":enc_vec(ex),"out":out,"native":nat}));
    }
    fn exps(&self, o: &mut Out, a: N, b: N, c: N, x: &[N]) {
        let pr: Vec<BigUint> = [c1(&g1(&a)), c2(&g2(&b)), c1(&g1(&c))].concat();
        self.run(o, &pr, &x.iter().map(to_big).collect::<Vec<_>>(), &[a, b, c]);
    }
}
fn some_key(r: &mut R, nic: usize) -> Kx {
    let de = loop {
        let d = pick(r);
        if d != of_u64(0) {
            break d;
        }
    };
    Kx { al: pick(r), be: pick(r), ga: pick(r), de, ic: (0..nic).map(|_| pick(r)).collect() }
}
fn rnd_key(r: &mut R, nic: usize) -> Kx {
    Kx { al: r.num(), be: r.num(), ga: r.num(), de: r.num(), ic: (0..nic).map(|_| r.num()).collect() }
}
/// a scalar whose second-group multiple has an abscissa or ordinate with short coordinates
fn short_coord(r: &mut R) -> N {
    let lim = BigUint::from(1u32) << 248;
    let mut p = g2(&r.num()).into_projective();
    let n: N = r.num();
    let mut k = n;
    p = {
        let _ = p;
        g2(&n).into_projective()
    };
    loop {
        let c = coords(&p.into_affine(), 4);
        if (c[0] < lim && c[1] < lim) || (c[2] < lim && c[3] < lim) {
            return k;
        }
        p.add_assign_mixed(&G2Affine::one());
        k = fadd(k, of_u64(1));
    }
}
fn keys(o: &mut Out, r: &mut R, n: usize) {
    for i in 0..n {
        let nic = match i {
            0 => 2,
            1 => 40,
            2 => 300,
            _ => [2usize, 2, 3, 4, 6, 9, 12, 17][i % 8],
        };
        let mut kx = if i % 3 == 0 { some_key(r, nic) } else { rnd_key(r, nic) };
        match i % 12 {
            1 => kx.be = short_coord(r),
            5 => kx.ga = short_coord(r),
            7 => kx.de = short_coord(r),
            _ => {}
        }
        let case = Case::new(o, kx, i % 4 == 1);
        let kx = &case.kx;
        let x: Vec<N> = (1..nic).map(|_| pick(r)).collect();
        let (a, b) = (pick(r), pick(r));
        let c = kx.solve(&a, &b, &x);
        case.exps(o, a, b, c, &x);
        if nic > 30 {
            continue;
        }
        let one: N = of_u64(1);
        let neg = |v: N| fsub(of_u64(0), v);
        // other proofs
        case.exps(o, neg(a), b, c, &x);
        case.exps(o, neg(a), neg(b), c, &x);
        case.exps(o, a, b, fadd(c, one), &x);
        case.exps(o, c, b, a, &x);
        let (a2, b2): (N, N) = (r.num(), r.num());
        case.exps(o, a2, b2, c, &x);
        case.exps(o, a2, b2, kx.solve(&a2, &b2, &x), &x);
        case.exps(o, of_u64(0), b2, kx.solve(&of_u64(0), &b2, &x), &x);
        // a proof of another key, and one of this key for other inputs
        let k2 = rnd_key(r, nic);
        case.exps(o, a2, b2, k2.solve(&a2, &b2, &x), &x);
        for j in 0..x.len().min(3) {
            let mut y = x.clone();
            y[j] = fadd(y[j], one);
            case.exps(o, a, b, c, &y);
        }
        if x.len() > 1 {
            let mut y = x.clone();
            let j = r.below(x.len() as u64 - 1) as usize;
            y.swap(j, j + 1);
            case.exps(o, a, b, c, &y);
        }
        // alterations of the integers handed over
        let pr: Vec<BigUint> = [c1(&g1(&a2)), c2(&g2(&b2)), c1(&g1(&kx.solve(&a2, &b2, &x)))].concat();
        let xs: Vec<BigUint> = x.iter().map(to_big).collect();
        let (q, m) = (modulus::<Fq>(), modulus::<Fr>());
        let top = (BigUint::from(1u32) << 256) - 1u32;
        let ex = [a2, b2, kx.solve(&a2, &b2, &x)];
        let j = i % 8;
        for v in [&pr[j] + &q, q.clone(), top.clone(), &q - 1u32, zero(), &pr[j] + &m].iter() {
            let mut p = pr.clone();
            p[j] = v.clone();
            case.run(o, &p, &xs, &[]);
        }
        for j in 0..8 {
            let mut p = pr.clone();
            p[j] = &p[j] + &q;
            case.run(o, &p, &xs, &[]);
        }
        for j in 0..x.len().min(4) {
            // the last inputs too
            let j = if j % 2 == 0 { j } else { x.len() - 1 - j / 2 };
            for v in [&xs[j] + &m, m.clone(), top.clone(), q.clone()].iter() {
                let mut y = xs.clone();
                y[j] = v.clone();
                case.run(o, &pr, &y, &ex);
            }
            let mut y = xs.clone();
            y[j] = &m - 1u32;
            case.run(o, &pr, &y, &ex);
        }
        // exchanged coordinates
        for (s, t) in [(0usize, 1usize), (2, 3), (4, 5), (6, 7), (2, 4)].iter() {
            let mut p = pr.clone();
            p.swap(*s, *t);
            case.run(o, &p, &xs, &[]);
        }
        // a negated point
        let mut p = pr.clone();
        p[1] = &q - &p[1];
        case.run(o, &p, &xs, &[neg(a2), b2, ex[2]]);
        // wrong number of inputs
        let mut y = xs.clone();
        y.pop();
        case.run(o, &pr, &y, &ex);
        let mut y = xs.clone();
        y.push(zero());
        case.run(o, &pr, &y, &ex);
    }
}
macro_rules! real {
    ($o:expr, $r:expr, $c:literal) => {{
        let prm = generate_keys::<Bn256, Lc<Fr, $c>>();
        let prm2 = generate_keys::<Bn256, Lc<Fr, $c>>();
        let key = truncate_verifying_key(&prm.vk);
        let text = contract(&key, false).unwrap_or_default();
        let prog = sol::parse(&text);
        for i in 0..3 {
            let b: N = $r.bnum();
            let (x, y) = if i == 0 { (b, b) } else { (b, $r.bnum()) };
            let c = Lc::<Fr, $c> { w: Some([x, y, of_u64(7), of_u64(3)]) };
            let inputs = {
                use fawkes_crypto::core::cs::Circuit;
                let cs = crate::rec::Rec::<Fr>::new();
                c.synthesize(&cs);
                let v: Vec<N> = cs.publics().iter().map(|x| x.value.unwrap()).collect();
                v
            };
            let xs: Vec<BigUint> = inputs.iter().map(to_big).collect();
            let p = prove(&c, &prm);
            $o.ev(json!({"t":"real","own":true,"out":exec(&prog, &eight(&p), &xs),"native":native(&key, &p, &inputs)}));
            let p2 = prove(&c, &prm2);
            $o.ev(json!({"t":"real","own":false,"out":exec(&prog, &eight(&p2), &xs),"native":native(&key, &p2, &inputs)}));
            let mut ys = inputs.clone();
            ys[0] = fadd(ys[0], of_u64(1));
            let yb: Vec<BigUint> = ys.iter().map(to_big).collect();
            $o.ev(json!({"t":"real","own":false,"out":exec(&prog, &eight(&p), &yb),"native":native(&key, &p, &ys)}));
        }
    }};
}
pub fn run(c: &Ctx) {
    std::thread::scope(|s| {
        for k in 0..4u32 {
            s.spawn(move || {
                let mut o = c.out(&format!("keys{}.ndjson", k + 1));
                let mut r = R::new(c.seed, 200 + k);
                keys(&mut o, &mut r, c.n(14, 140));
            });
        }
        s.spawn(move || {
            let mut o = c.out("real.ndjson");
            let mut r = R::new(c.seed, 210);
            for _ in 0..c.n(2, 12) {
                real!(o, r, 1);
                real!(o, r, 2);
                real!(o, r, 4);
                real!(o, r, 5);
            }
        });
    });
    let _ = pt::<G1Affine>;
}
