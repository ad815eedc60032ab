//! C18: the shape of circuits in the test system, behind the proving adapter and in the recorder.
use crate::c17::{CNamed, CNest, CSolo, CTup, Named, Nest, Solo, Tup};
use crate::enc::*;
use crate::rec::*;
use crate::tiny::{Tiny, TinyCurve};
use bellman::{pairing::Engine, LinearCombination, SynthesisError, Variable};
use fawkes_crypto::circuit::{
    bitify::*, bool::CBool, ecc::*, eddsaposeidon::c_eddsaposeidon_verify, mux::c_mux3,
    num::{CNum, Index}, poseidon::*,
};
use fawkes_crypto::core::{
    cs::{ConstraintSystem, TestCS},
    signal::Signal,
    sizedvec::SizedVec,
};
use fawkes_crypto::helpers::groth16::Groth16CS;
use fawkes_crypto::native::{
    ecc::*,
    eddsaposeidon::eddsaposeidon_sign,
    num::Num,
    poseidon::{MerkleProof, PoseidonParams},
};
use std::io::BufRead;
use typenum::*;

/// what a back end was told; variables are named k (k-th input), -j (j-th private one), 0 (one)
pub struct Back<F: HF> {
    proving: bool,
    kinds: Vec<bool>,
    vals: Vec<Num<F>>,
    cons: Vec<[Vec<(i64, Num<F>)>; 3]>,
    nin: usize,
    naux: usize,
}
impl<F: HF> Back<F> {
    fn new(proving: bool) -> Self {
        Back { proving, kinds: vec![], vals: vec![], cons: vec![], nin: 0, naux: 0 }
    }
}
fn canon<F: HF>(t: Vec<(i64, Num<F>)>) -> Vec<(i64, Num<F>)> {
    let mut m: std::collections::BTreeMap<i64, Num<F>> = Default::default();
    for (k, v) in t {
        let e = m.entry(k).or_insert(of_u64(0));
        *e = crate::pts::fadd(*e, v);
    }
    m.into_iter().filter(|x| x.1 != of_u64(0)).collect()
}
fn cons_json<F: HF>(cons: &[[Vec<(i64, Num<F>)>; 3]]) -> (Value, Value) {
    let mut tab: Vec<Value> = vec![];
    let mut idx: std::collections::HashMap<String, usize> = Default::default();
    let mut lcj = |l: &Vec<(i64, Num<F>)>| -> Value {
        Value::Array(
            canon(l.clone())
                .iter()
                .map(|(v, k)| {
                    let e = enc(k);
                    let i = *idx.entry(e.to_string()).or_insert_with(|| {
                        tab.push(e);
                        tab.len()
                    });
                    json!([v, i])
                })
                .collect(),
        )
    };
    let c: Vec<Value> = cons.iter().map(|x| json!([lcj(&x[0]), lcj(&x[1]), lcj(&x[2])])).collect();
    (Value::Array(c), Value::Array(tab))
}
/// a bellman constraint system that records
pub struct BRec<E: Engine>(Back<E::Fr>)
where
    E::Fr: HF;
impl<E: Engine> BRec<E>
where
    E::Fr: HF,
{
    fn lc(l: &LinearCombination<E>) -> Vec<(i64, Num<E::Fr>)> {
        l.as_ref()
            .iter()
            .map(|(v, c)| {
                (
                    match v.get_unchecked() {
                        bellman::Index::Input(i) => i as i64,
                        bellman::Index::Aux(i) => -(i as i64) - 1,
                    },
                    Num(*c),
                )
            })
            .collect()
    }
}
impl<E: Engine> bellman::ConstraintSystem<E> for BRec<E>
where
    E::Fr: HF,
{
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<E::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if self.0.proving {
            self.0.vals.push(Num(f()?));
        }
        self.0.kinds.push(false);
        self.0.naux += 1;
        Ok(Variable::new_unchecked(bellman::Index::Aux(self.0.naux - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<E::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if self.0.proving {
            self.0.vals.push(Num(f()?));
        }
        self.0.kinds.push(true);
        self.0.nin += 1;
        Ok(Variable::new_unchecked(bellman::Index::Input(self.0.nin)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
    {
        let z = || LinearCombination::<E>::zero();
        let r = [Self::lc(&a(z())), Self::lc(&b(z())), Self::lc(&c(z()))];
        self.0.cons.push(r);
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

// ---------------------------------------------------------------------------------------------
// programs of CSModel.tla
#[derive(Clone)]
enum Op {
    Var { input: bool, v: Option<u64> },
    Con([Vec<(usize, i64)>; 3]),
}
fn coef<F: HF>(k: i64) -> Num<F> {
    if k < 0 {
        crate::pts::fsub(of_u64(0), of_u64((-k) as u64))
    } else {
        of_u64(k as u64)
    }
}
fn play<CS: ConstraintSystem>(cs: &CS, ops: &[Op], variant: u64)
where
    CS::F: HF,
{
    let mut vars: Vec<CNum<CS>> = vec![];
    for op in ops {
        match op {
            Op::Var { input, v } => {
                let v: Option<Num<CS::F>> = v.map(of_u64);
                let i: Index = if *input { cs.alloc_input(v) } else { cs.alloc(v) };
                vars.push(CNum::from_var(cs, v, i));
            }
            Op::Con(l) => {
                let side = |l: &Vec<(usize, i64)>| {
                    let mut acc: CNum<CS> = CNum::zero(cs);
                    if variant >= 4 {
                        // a sum that cancelled to nothing, instead of the constant zero
                        if let Some(x) = vars.iter().find(|x| x.value.is_some()) {
                            acc = x - x;
                        }
                    }
                    let mut t: Vec<&(usize, i64)> = l.iter().collect();
                    if variant % 2 == 1 {
                        t.reverse();
                    }
                    for (n, (v, k)) in t.into_iter().enumerate() {
                        let x = if *v == 0 { CNum::from_const(cs, &coef(*k)) } else { &vars[*v - 1] * coef::<CS::F>(*k) };
                        // some sides start from the variable itself, others from zero
                        acc = if n == 0 && (variant == 2 || variant == 3) { x } else { acc + x };
                    }
                    acc
                };
                cs.enforce(&side(&l[0]), &side(&l[1]), &side(&l[2]));
            }
        }
    }
}
fn test_run<F: HF>(f: &dyn Fn(&TestCS<F>)) -> Value {
    let cs = TestCS::<F>::new();
    let ok = guard(|| f(&cs)).is_some();
    json!({"panic": !ok, "count": cs.num_constraints()})
}
fn back_json<F: HF>(b: Option<&Back<F>>, proving: bool) -> Value {
    match b {
        Some(b) => {
            let (cons, tab) = cons_json(&b.cons);
            json!({"panic":false,"proving":proving,"kinds":b.kinds,"vals":enc_vec(&b.vals),"cons":cons,"tab":tab})
        }
        None => json!({"panic":true,"proving":proving,"kinds":[],"vals":[],"cons":[],"tab":[]}),
    }
}
fn ops_json<F: HF>(ops: &[Op]) -> Value {
    Value::Array(
        ops.iter()
            .map(|o| match o {
                Op::Var { input, v } => json!({"o": if *input {"in"} else {"aux"}, "k": v.is_some(), "v": enc::<F>(&of_u64(v.unwrap_or(0)))}),
                Op::Con(l) => {
                    let s = |l: &Vec<(usize, i64)>| l.iter().map(|(v, k)| json!([v, enc::<F>(&coef(*k))])).collect::<Vec<_>>();
                    json!({"o":"con","l":[s(&l[0]), s(&l[1]), s(&l[2])]})
                }
            })
            .collect(),
    )
}
fn read_programs(path: &str) -> Vec<Vec<Op>> {
    let f = match std::fs::File::open(path) {
        Ok(f) => f,
        Err(_) => {
            eprintln!("no programs {}", path);
            std::process::exit(2)
        }
    };
    let u = |x: &Value| x.as_i64().unwrap();
    std::io::BufReader::new(f)
        .lines()
        .map(|l| {
            let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
            v["ops"]
                .as_array()
                .unwrap()
                .iter()
                .map(|o| {
                    if o["o"] == "con" {
                        let s = |k: usize| {
                            o["l"][k].as_array().unwrap().iter().map(|t| (u(&t[0]) as usize, u(&t[1]))).collect::<Vec<_>>()
                        };
                        Op::Con([s(0), s(1), s(2)])
                    } else {
                        Op::Var { input: o["o"] == "in", v: if o["k"] == true { Some(u(&o["v"]) as u64) } else { None } }
                    }
                })
                .collect()
        })
        .collect()
}
fn adapter<E: Engine>(proving: bool, f: &dyn Fn(&Groth16CS<E, BRec<E>>)) -> Value
where
    E::Fr: HF,
{
    let cs = Groth16CS::<E, BRec<E>>::new(BRec(Back::new(proving)));
    let ok = guard(|| f(&cs)).is_some();
    let b = cs.bcs.borrow();
    back_json(if ok { Some(&b.0) } else { None }, proving)
}
fn programs<E: Engine>(o: &mut Out, os: &mut Out, progs: &[Vec<Op>], r: &mut R, stride: usize)
where
    E::Fr: HF,
{
    for (i, ops) in progs.iter().enumerate() {
        let var = r.below(6);
        os.ev(json!({"t":"prog","p":enc_mod::<Tiny<5>>(),"ops":ops_json::<Tiny<5>>(ops),
            "test":test_run::<Tiny<5>>(&|cs| play(cs, ops, var)),"bell":[]}));
        if i % stride != 0 {
            continue;
        }
        let known = ops.iter().all(|o| !matches!(o, Op::Var { v: None, .. }));
        let mut bell = vec![adapter::<E>(false, &|cs| play(cs, ops, var))];
        if known {
            bell.push(adapter::<E>(true, &|cs| play(cs, ops, var)));
        }
        o.ev(json!({"t":"prog","p":enc_mod::<E::Fr>(),"ops":ops_json::<E::Fr>(ops),
            "test":test_run::<E::Fr>(&|cs| play(cs, ops, var)),"bell":bell}));
    }
}

/// n constraints, the bad-th of them (if not 0) unsatisfied, in the test system
fn many<F: HF>(o: &mut Out, n: usize, bad: usize) {
    let v = test_run::<F>(&|cs| {
        let x: CNum<_> = CNum::alloc(cs, Some(&of_u64(3)));
        let y: CNum<_> = CNum::alloc(cs, Some(&of_u64(2)));
        let z: CNum<_> = CNum::alloc(cs, Some(&of_u64(6)));
        for i in 1..=n {
            cs.enforce(&x, &y, if i == bad { &x } else { &z });
        }
    });
    o.ev(json!({"t":"many","n":n,"bad":bad,"r":v}));
}
/// a program with many variables and long sides
fn wide_program(r: &mut R, n: usize) -> Vec<Op> {
    let mut ops: Vec<Op> = (0..n).map(|i| Op::Var { input: i % 3 == 1, v: Some(r.below(5)) }).collect();
    for _ in 0..3 {
        let s = |r: &mut R| (1..=n).map(|v| (v, r.below(4) as i64)).filter(|t| t.1 != 0).collect::<Vec<_>>();
        ops.push(Op::Con([s(r), s(r), s(r)]));
    }
    ops
}

// ---------------------------------------------------------------------------------------------
// circuits made of the library's gadgets
#[derive(Clone, Copy, Debug, PartialEq)]
enum Z {
    Arith,
    Div,
    Zero,
    Asserts,
    Switch,
    Mux,
    Bits(usize),
    Strict,
    Comp(usize, u64),
    FromBits(usize),
    EdAdd,
    EdDouble,
    InCurve,
    InSub,
    Decompress,
    IntoMont,
    MontAdd,
    MontDouble,
    IntoEd,
    MulVar(usize),
    MulConst(usize),
    FromScalar,
    Hash(usize),
    Salted(usize),
    Tree(usize),
    Proof,
    Eddsa,
    Composite,
    Publish,
}
struct Env<J: JubJubParams> {
    j: J,
    p3: PoseidonParams<J::Fr>,
    p4: PoseidonParams<J::Fr>,
}
struct W<'a, CS: ConstraintSystem> {
    cs: &'a CS,
    vals: Option<&'a [Num<CS::F>]>,
    next: usize,
}
impl<'a, CS: ConstraintSystem> W<'a, CS>
where
    CS::F: HF,
{
    fn val(&mut self) -> Option<Num<CS::F>> {
        self.next += 1;
        self.vals.map(|v| v[(self.next - 1) % v.len()])
    }
    fn num(&mut self) -> CNum<'a, CS> {
        let v = self.val();
        CNum::alloc(self.cs, v.as_ref())
    }
    fn boolv(&mut self) -> Option<bool> {
        self.val().map(|v| to_big(&v).bits() % 2 == 1)
    }
    fn bit(&mut self) -> CBool<'a, CS> {
        let v = self.boolv();
        CBool::alloc(self.cs, v.as_ref())
    }
    fn point(&mut self) -> CEdwardsPoint<'a, CS> {
        let x = self.val();
        let y = self.val();
        let p = match (x, y) {
            (Some(x), Some(y)) => Some(EdwardsPoint { x, y }),
            _ => None,
        };
        CEdwardsPoint::alloc(self.cs, p.as_ref())
    }
}
fn synth<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(z: Z, cs: &'a CS, vals: Option<&'a [Num<CS::F>]>, e: &Env<J>)
where
    CS::F: HF,
{
    let mut w = W { cs, vals, next: 0 };
    let c = |x: u64| CNum::from_const(cs, &of_u64(x));
    match z {
        Z::Arith => {
            let (a, b) = (w.num(), w.num());
            let d = &a * &b;
            let e = (&d + &a - c(3)) * (&b - &d * of_u64::<CS::F>(2));
            e.inputize();
            let f = -(&e * &a).square() + c(7) * &b;
            f.inputize();
            (&f - &f).inputize();
            d.assert_nonzero();
            a.inputize();
        }
        Z::Div => {
            let (a, b) = (w.num(), w.num());
            let q = &a / &b;
            q.inputize();
            (c(5) / &b).inputize();
            (&q / of_u64::<CS::F>(3)).inputize();
        }
        Z::Zero => {
            let (a, b) = (w.num(), w.num());
            let s = a.is_zero();
            let t = (&a - &b).is_zero();
            s.inputize();
            let u = a.is_eq(&b);
            u.assert_eq(&t);
            c(0).is_zero().inputize();
            t.0.assert_bit();
        }
        Z::Asserts => {
            let (a, b) = (w.num(), w.num());
            a.assert_nonzero();
            (&a - &b).assert_zero();
            b.assert_bit();
            a.assert_const(&of_u64(1));
            a.assert_eq(&b);
        }
        Z::Switch => {
            let (a, b, s, t) = (w.num(), w.num(), w.bit(), w.bit());
            let x = a.switch(&s, &(&b + c(1)));
            let y = x.switch(&t, &c(4));
            let v = c(2).switch(&s, &y);
            v.inputize();
            let k = CBool::c_true(cs).if_else(&a, &b);
            k.inputize();
            s.switch(&t, &CBool::c_false(cs)).inputize();
        }
        Z::Mux => {
            let s = vec![w.bit(), w.bit(), w.bit()];
            let t: Vec<Vec<Num<CS::F>>> = (0..2).map(|k| (0..8u64).map(|i| of_u64((i * i + 3 * k) % 5)).collect()).collect();
            for r in c_mux3(&s, &t) {
                r.inputize();
            }
        }
        Z::Bits(n) => {
            let a = w.num();
            let bits = c_into_bits_le(&a, n);
            c_from_bits_le(&bits).inputize();
            bits[0].inputize();
        }
        Z::Strict => {
            let a = w.num();
            let b = c_into_bits_le_strict(&a);
            b[b.len() - 1].inputize();
        }
        Z::Comp(n, k) => {
            let b: Vec<CBool<CS>> = (0..n).map(|_| w.bit()).collect();
            c_comp_constant(&b, of_u64(k)).inputize();
        }
        Z::FromBits(n) => {
            let b: Vec<CBool<CS>> = (0..n).map(|_| w.bit()).collect();
            c_from_bits_le(&b).inputize();
        }
        Z::EdAdd => {
            let (p, q) = (w.point(), w.point());
            let r = p.add(&q, &e.j);
            r.inputize();
            r.add(&CEdwardsPoint::from_const(cs, e.j.edwards_g()), &e.j).inputize();
        }
        Z::EdDouble => {
            let p = w.point();
            p.double(&e.j).inputize();
            p.mul_by_cofactor(&e.j).inputize();
        }
        Z::InCurve => w.point().assert_in_curve(&e.j),
        Z::InSub => w.point().assert_in_subgroup(&e.j),
        Z::Decompress => {
            let x = w.num();
            CEdwardsPoint::subgroup_decompress(&x, &e.j).inputize();
        }
        Z::IntoMont => w.point().into_montgomery().inputize(),
        Z::MontAdd => {
            let (p, q) = (w.point(), w.point());
            p.into_montgomery().add(&q.into_montgomery(), &e.j).inputize();
        }
        Z::MontDouble => {
            let p = w.point();
            p.into_montgomery().double(&e.j).inputize();
        }
        Z::IntoEd => {
            let p = w.point();
            p.into_montgomery().into_edwards().inputize();
        }
        Z::MulVar(n) => {
            let p = w.point();
            let b: Vec<CBool<CS>> = (0..n).map(|_| w.bit()).collect();
            p.mul(&b, &e.j).inputize();
        }
        Z::MulConst(n) => {
            let p = CEdwardsPoint::from_const(cs, e.j.edwards_g());
            let b: Vec<CBool<CS>> = (0..n).map(|_| w.bit()).collect();
            p.mul(&b, &e.j).inputize();
        }
        Z::FromScalar => {
            let t = w.num();
            CEdwardsPoint::from_scalar(&t, &e.j).inputize();
        }
        Z::Hash(n) => {
            let v: Vec<CNum<CS>> = (0..n).map(|_| w.num()).collect();
            c_poseidon(&v, &e.p3).inputize();
            c_poseidon(&[c(1), v[0].clone()], &e.p3).inputize();
        }
        Z::Salted(n) => {
            let v: Vec<CNum<CS>> = (0..n).map(|_| w.num()).collect();
            c_poseidon_with_salt(&v, b"x", &e.p3).inputize();
        }
        Z::Tree(n) => {
            let v: Vec<CNum<CS>> = (0..n).map(|_| w.num()).collect();
            c_poseidon_merkle_tree_root(&v, &e.p3).inputize();
        }
        Z::Proof => {
            let leaf = w.num();
            let s: Option<Vec<Num<CS::F>>> = (0..3).map(|_| w.val()).collect();
            let p: Option<Vec<bool>> = (0..3).map(|_| w.boolv()).collect();
            let v: Option<MerkleProof<CS::F, U3>> = match (s, p) {
                (Some(s), Some(p)) => Some(MerkleProof { sibling: s.into_iter().collect(), path: p.into_iter().collect() }),
                _ => None,
            };
            let pr = CMerkleProof::<CS, U3>::alloc(cs, v.as_ref());
            c_poseidon_merkle_proof_root(&leaf, &pr, &e.p3).inputize();
        }
        Z::Eddsa => {
            let (s, r, a, m) = (w.num(), w.num(), w.num(), w.num());
            m.inputize();
            a.inputize();
            let ok = c_eddsaposeidon_verify(&s, &r, &a, &m, &e.p4, &e.j);
            ok.assert_true();
        }
        Z::Composite => {
            let nest = |w: &mut W<'a, CS>| -> CNest<'a, CS> {
                let v: Option<Nest<CS::F>> = {
                    let a = (w.val(), w.val(), w.boolv(), w.val(), w.val(), w.boolv());
                    match a {
                        (Some(a), Some(b), Some(c), Some(d), Some(e), Some(f)) => {
                            Some(Nest { v: vec![a, b].into_iter().collect(), t: Tup(c, d, e), b: f })
                        }
                        _ => None,
                    }
                };
                CNest::alloc(cs, v.as_ref())
            };
            let a = nest(&mut w);
            let b = nest(&mut w);
            a.is_eq(&b).inputize();
            let s = a.switch(&b.b, &b);
            s.inputize();
            let x = CSolo::alloc(cs, w.val().map(|x| Solo(x)).as_ref());
            let y = CSolo::from_const(cs, &Solo(of_u64(3)));
            (x.clone(), y.clone()).inputize();
            (x, s.t.clone()).assert_eq(&(y, a.t.clone()));
            let t = CTup::from_const(cs, &Tup(true, of_u64(0), of_u64(9)));
            t.inputize();
            t.is_eq(&a.t).0.assert_bit();
        }
        Z::Publish => {
            c(5).inputize();
            let a = w.num();
            let n = CNamed::from_const(cs, &Named { a: of_u64(1), flag: false, z: of_u64(2) });
            n.inputize();
            a.inputize();
            let b = w.num();
            let v: SizedVec<CNum<CS>, U3> = vec![b.clone(), c(1), &a - &b].into_iter().collect();
            v.inputize();
            b.inputize();
            CNum::zero(cs).inputize();
        }
    }
}
fn npar(z: Z) -> usize {
    match z {
        Z::Mux => 3,
        Z::Bits(_) | Z::Strict | Z::Decompress | Z::FromScalar => 1,
        Z::Comp(n, _) | Z::FromBits(n) | Z::MulConst(n) | Z::Hash(n) | Z::Salted(n) | Z::Tree(n) => n,
        Z::EdAdd | Z::MontAdd | Z::Switch | Z::Eddsa => 4,
        Z::MulVar(n) => 2 + n,
        Z::Proof => 7,
        Z::Composite => 13,
        _ => 2,
    }
}
/// may a value make the building itself panic (division by zero in the value computation)
fn partial(z: Z) -> bool {
    matches!(
        z,
        Z::Div | Z::EdAdd | Z::EdDouble | Z::InSub | Z::IntoMont | Z::MontAdd | Z::MontDouble | Z::IntoEd | Z::MulVar(_) | Z::FromScalar
    )
}
fn witnesses<J: JubJubParams>(z: Z, e: &Env<J>, n: usize, r: &mut R) -> Vec<Vec<Num<J::Fr>>>
where
    J::Fr: HF,
    J::Fs: HF,
{
    let k = npar(z);
    let sub = |r: &mut R| e.j.edwards_g().mul(r.num::<J::Fs>(), &e.j);
    let mut out = vec![];
    for i in 0..n {
        let mut v: Vec<Num<J::Fr>> = (0..k).map(|_| if r.below(4) == 0 { of_u64(r.below(3)) } else { r.bnum() }).collect();
        match z {
            Z::Bits(b) if i % 2 == 0 => {
                v[0] = of_big(&(to_big(&v[0]) % (num::bigint::BigUint::from(1u32) << b)));
            }
            Z::Asserts if i == 0 => v = vec![of_u64(1), of_u64(1)],
            Z::Decompress if i % 2 == 0 => v[0] = sub(r).x,
            Z::EdAdd | Z::EdDouble | Z::InCurve | Z::InSub | Z::IntoMont | Z::MontAdd | Z::MontDouble | Z::IntoEd | Z::MulVar(_) => {
                if i % 4 != 3 {
                    let np = if z == Z::EdAdd || z == Z::MontAdd { 2 } else { 1 };
                    for t in 0..np {
                        let mut p = sub(r);
                        if i % 4 == 2 && !matches!(z, Z::MulVar(_)) {
                            p = p.add(&EdwardsPoint { x: of_u64(0), y: -Num::one() }, &e.j);
                        }
                        v[2 * t] = p.x;
                        v[2 * t + 1] = p.y;
                    }
                }
            }
            Z::Eddsa => {
                let (sk, m) = (r.num::<J::Fs>(), r.num());
                let (s, rr) = eddsaposeidon_sign(sk, m, &e.p4, &e.j);
                v = vec![of_big(&to_big(&s)), rr, e.j.edwards_g().mul(sk, &e.j).x, m];
                if i % 2 == 1 {
                    let q = r.below(4) as usize;
                    v[q] = r.num();
                }
            }
            Z::Composite if i % 2 == 0 => {
                for t in 0..6 {
                    v[6 + t] = v[t];
                }
                if i % 4 == 0 {
                    v[12] = of_u64(3);
                }
            }
            _ => {}
        }
        out.push(v);
    }
    out
}
fn rec_json<F: HF>(cs: &Rec<F>) -> (Value, Value, Value) {
    let s = cs.0.borrow();
    let cons: Vec<[Vec<(i64, Num<F>)>; 3]> = s
        .cons
        .iter()
        .map(|c| {
            let f = |l: &Lc<F>| l.iter().map(|(k, v)| (*k as i64, *v)).collect::<Vec<_>>();
            [f(&c[0]), f(&c[1]), f(&c[2])]
        })
        .collect();
    let (c, t) = cons_json(&cons);
    (json!(s.kinds), c, t)
}
type Adapt<'b, J> = Option<&'b dyn Fn(Z, bool, Option<&[Num<<J as JubJubParams>::Fr>]>) -> Value>;
fn zoo<J: JubJubParams>(circ: &mut Out, o: &mut Out, e: &Env<J>, zs: &[Z], n: &dyn Fn(Z) -> usize, r: &mut R, ad: Adapt<J>)
where
    J::Fr: HF,
    J::Fs: HF,
{
    for z in zs {
        let z = *z;
        let cs = Rec::<J::Fr>::new();
        if guard(|| synth(z, &cs, None, e)).is_none() {
            // building without a witness must not panic: an event nothing accepts
            circ.ev(json!({"p":enc_mod::<J::Fr>(),"z":format!("{:?}", z),"n":0,"kinds":[],"cons":[],"tab":[],"partial":false}));
            o.ev(json!({"t":"rec","c":circ.n,"panic":true,"kinds":[],"cons":[],"tab":[],"w":[]}));
            continue;
        }
        let (kinds, cons, tab) = rec_json(&cs);
        circ.ev(json!({"p":enc_mod::<J::Fr>(),"z":format!("{:?}", z),"n":cs.nvars(),"kinds":kinds,"cons":cons,"tab":tab,"partial":partial(z)}));
        let idx = circ.n;
        let tag = |mut v: Value, t: &str, w: &Value| {
            v["t"] = json!(t);
            v["c"] = json!(idx);
            v["w"] = w.clone();
            v
        };
        o.ev(tag(test_run::<J::Fr>(&|cs| synth(z, cs, None, e)), "test", &json!([])));
        if let Some(ad) = ad {
            o.ev(tag(ad(z, false, None), "bell", &json!([])));
        }
        for v in witnesses(z, e, n(z), r) {
            let cs = Rec::<J::Fr>::new();
            let ok = guard(|| synth(z, &cs, Some(&v), e)).is_some();
            let (kinds, cons, tab) = rec_json(&cs);
            let w = enc_vec(&cs.witness().unwrap_or_default());
            o.ev(json!({"t":"rec","c":idx,"panic":!ok,"kinds":kinds,"cons":cons,"tab":tab,"w":w}));
            if !ok {
                continue;
            }
            o.ev(tag(test_run::<J::Fr>(&|cs| synth(z, cs, Some(&v), e)), "test", &w));
            if let Some(ad) = ad {
                o.ev(tag(ad(z, true, Some(&v)), "bell", &w));
                if z != Z::Eddsa {
                    o.ev(tag(ad(z, false, Some(&v)), "bell", &json!([])));
                }
            }
        }
    }
}
fn all_z(strict: bool, full: usize) -> Vec<Z> {
    let mut v = vec![
        Z::Arith, Z::Div, Z::Zero, Z::Asserts, Z::Switch, Z::Mux, Z::Bits(1), Z::Bits(2), Z::Bits(5), Z::Comp(1, 0), Z::Comp(4, 9), Z::Comp(5, 21),
        Z::FromBits(4), Z::EdAdd, Z::EdDouble, Z::InCurve, Z::InSub, Z::Decompress, Z::IntoMont, Z::MontAdd, Z::MontDouble, Z::IntoEd,
        Z::MulVar(1), Z::MulVar(4), Z::MulConst(1), Z::MulConst(5), Z::Hash(1), Z::Hash(2), Z::Salted(1), Z::Salted(2), Z::Tree(1),
        Z::Tree(3), Z::Tree(4), Z::Proof, Z::Composite, Z::Publish,
    ];
    if strict {
        v.extend(vec![Z::Strict, Z::FromScalar, Z::Eddsa, Z::Bits(full), Z::Bits(full - 1)]);
    }
    v
}
fn tiny_zoo<const PP: u64, const QQ: u64>(c: &Ctx, circ: &mut Out, o: &mut Out, j: TinyCurve<PP, QQ>, r: &mut R) {
    let e = Env { j, p3: PoseidonParams::new(3, 2, 1), p4: PoseidonParams::new(4, 2, 1) };
    let n = c.n(14, 100);
    let mut zs = all_z(true, 7);
    zs.extend((1..=7).map(|k| Z::Comp(k, 5 * k as u64 % 64)));
    zoo(circ, o, &e, &zs, &move |_| n, r, None);
}
fn real_zoo<E: Engine, J: JubJubParams<Fr = E::Fr>>(c: &Ctx, circ: &mut Out, o: &mut Out, j: J, r: &mut R, heavy: bool)
where
    E::Fr: HF,
    J::Fs: HF,
{
    let e = Env { j, p3: PoseidonParams::new(3, 8, if heavy { 10 } else { 2 }), p4: PoseidonParams::new(4, 4, 2) };
    let (a, b) = (c.n(4, 16), c.n(1, 4));
    let zs: Vec<Z> = all_z(true, 254).into_iter().filter(|z| heavy || *z != Z::Eddsa).collect();
    let ad = |z: Z, proving: bool, v: Option<&[Num<E::Fr>]>| {
        adapter::<E>(proving, &|cs: &Groth16CS<E, BRec<E>>| {
            let v: Option<Vec<Num<E::Fr>>> = v.map(|v| v.to_vec());
            synth(z, cs, v.as_ref().map(|v| unsafe { &*(v.as_slice() as *const _) }), &e)
        })
    };
    zoo(circ, o, &e, &zs, &move |z| if z == Z::Eddsa || z == Z::FromScalar { b } else { a }, r, Some(&ad));
}

pub fn run(c: &Ctx) {
    let mut r = R::new(c.seed, 18);
    let mut progs = read_programs(&format!("{}/programs.ndjson", c.dir));
    progs.extend(read_programs(&format!("{}/programs2.ndjson", c.dir)));
    for n in [40usize, 300, 40].iter() {
        progs.insert(0, wide_program(&mut r, *n));
    }
    let mut small = c.out("small.ndjson");
    for (n, bad) in [(300, 0), (70_000, 0), (6_000, 5_999), (70_000, 69_999), (70_000, 256), (70_000, 65_536)].iter() {
        many::<Tiny<7>>(&mut small, *n, *bad);
    }
    let mut bigo = c.out("progs.ndjson");
    programs::<pairing::bn256::Bn256>(&mut bigo, &mut small, &progs, &mut r, 2);
    programs::<pairing::bls12_381::Bls12>(&mut bigo, &mut small, &progs[..progs.len() / 2], &mut r, 5);

    let mut circ = c.out("small_circ.ndjson");
    tiny_zoo::<73, 11>(c, &mut circ, &mut small, TinyCurve::new(5, 5, 1, 6), &mut r);
    tiny_zoo::<97, 13>(c, &mut circ, &mut small, TinyCurve::new(7, 5, 11, 81), &mut r);
    let mut circ = c.out("bn_circ.ndjson");
    let mut o = c.out("bn.ndjson");
    real_zoo::<pairing::bn256::Bn256, _>(c, &mut circ, &mut o, fawkes_crypto::native::bn256::JubJubBN256::new(), &mut r, true);
    let mut circ = c.out("bls_circ.ndjson");
    let mut o = c.out("bls.ndjson");
    real_zoo::<pairing::bls12_381::Bls12, _>(c, &mut circ, &mut o, fawkes_crypto::native::bls12_381::JubJubBLS12_381::new(), &mut r, false);
}
