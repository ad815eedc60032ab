//! C22: programs composed of gadgets, written by TLC (ProgramModel.tla).
use crate::c13::{arg, K};
use crate::enc::*;
use crate::pos::*;
use crate::rec::*;
use crate::tiny::Tiny;
use fawkes_crypto::circuit::{
    bitify::{c_comp_constant, c_from_bits_le, c_into_bits_le, c_into_bits_le_strict},
    bool::CBool,
    ecc::CEdwardsPoint,
    mux::c_mux3,
    num::CNum,
    poseidon::*,
};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use std::io::BufRead;
use typenum::{U1, U2};

#[derive(Clone)]
pub struct Op<F: HF> {
    o: String,
    a: Vec<usize>, // 0-based
    r: usize,
    m: usize,
    k: Num<F>,
    n: usize,
    tab: Vec<Vec<Num<F>>>,
    prm: Option<PoseidonParams<F>>,
}
pub struct Prog<F: HF> {
    kinds: Vec<bool>, // true: boolean
    fit: Vec<Num<F>>,
    ops: Vec<Op<F>>,
    curve: String,
}

fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}
/// numbers of the model's field; its minus one is the field's
fn num<F: HF>(v: &Value, mp: u64) -> Num<F> {
    let x = v.as_u64().unwrap();
    if x == mp - 1 {
        -of_u64::<F>(1)
    } else {
        of_u64(x)
    }
}
fn parse<F: HF>(v: &Value, curve: &str) -> Prog<F> {
    let mp = v["p"].as_u64().unwrap();
    let nums = |x: &Value| -> Vec<Num<F>> { arr(x).iter().map(|y| num(y, mp)).collect() };
    let ops = arr(&v["ops"])
        .iter()
        .map(|x| {
            let par = &x["par"];
            let k = if par["ct"].is_u64() { &par["ct"] } else { &par["k"] };
            Op {
                o: x["o"].as_str().unwrap().to_string(),
                a: arr(&x["a"]).iter().map(|i| us(i) - 1).collect(),
                r: us(&x["r"]),
                m: us(&x["m"]),
                k: if k.is_u64() { num(k, mp) } else { of_u64(0) },
                n: par["n"].as_u64().unwrap_or(0) as usize,
                tab: par["tab"].as_array().map(|t| t.iter().map(|y| nums(y)).collect()).unwrap_or_default(),
                prm: par.get("prm").map(|q| {
                    let (f, p) = (us(&q["f"]), us(&q["p"]));
                    PoseidonParams {
                        t: us(&q["t"]),
                        f,
                        p,
                        c: nums(&q["c"])[..f + p].to_vec(),
                        m: arr(&q["m"]).iter().map(|y| nums(y)).collect(),
                    }
                }),
            }
        })
        .collect();
    Prog {
        kinds: arr(&v["kinds"]).iter().map(|x| x == "b").collect(),
        fit: nums(&v["in"]),
        ops,
        curve: curve.to_string(),
    }
}

fn bits_of<'a, F: HF>(v: &[N<'a, F>]) -> Vec<B<'a, F>> {
    v.iter().map(|x| x.into_bool()).collect()
}
fn pt<'a, F: HF>(v: &[N<'a, F>], i: usize) -> P<'a, F> {
    CEdwardsPoint { x: v[i].clone(), y: v[i + 1].clone() }
}
fn mproof<'a, F: HF, L: typenum::Unsigned>(x: &[N<'a, F>], prm: &PoseidonParams<F>) -> N<'a, F> {
    let n = L::USIZE;
    let sibling: SizedVec<N<'a, F>, L> = x[1..=n].iter().cloned().collect();
    let path: SizedVec<B<'a, F>, L> = bits_of(&x[n + 1..]).into_iter().collect();
    c_poseidon_merkle_proof_root(&x[0], &CMerkleProof { sibling, path }, prm)
}

/// one operation of a program, as a user of the library would write it
fn exec<'a, F: HF, J: JubJubParams<Fr = F>>(f: &Feed<'a, F>, op: &Op<F>, x: &[N<'a, F>], j: Option<&J>) -> Vec<N<'a, F>> {
    let b = |i: usize| x[i].into_bool();
    let p2 = |p: P<'a, F>| vec![p.x, p.y];
    match op.o.as_str() {
        "const" => vec![CNum::from_const(f.cs, &op.k)],
        "add" => vec![&x[0] + &x[1]],
        "sub" => vec![&x[0] - &x[1]],
        "neg" => vec![-&x[0]],
        "not" => vec![Num::one() - &x[0]],
        "addc" => vec![&x[0] + op.k],
        "mulc" => vec![&x[0] * op.k],
        "mul" | "and" => vec![&x[0] * &x[1]],
        "or" => vec![&x[0] + &x[1] - &x[0] * &x[1]],
        "square" => vec![x[0].square()],
        "div" => vec![&x[0] / &x[1]],
        "is_eq" => vec![x[0].is_eq(&x[1]).into_num()],
        "is_zero" => vec![x[0].is_zero().into_num()],
        "switch" => vec![x[1].switch(&b(0), &x[2])],
        "mux3" => c_mux3(&bits_of(x), &op.tab),
        "bits" => c_into_bits_le(&x[0], op.n).iter().map(|y| y.into_num()).collect(),
        "bits_strict" => c_into_bits_le_strict(&x[0]).iter().map(|y| y.into_num()).collect(),
        "from_bits" => vec![c_from_bits_le(&bits_of(x))],
        "comp" => vec![c_comp_constant(&bits_of(x), op.k).into_num()],
        "publish" => {
            x[0].inputize();
            vec![f.cs.publics().pop().unwrap()]
        }
        "assert_val" => {
            x[0].assert_const(&op.k);
            vec![]
        }
        "assert_eq" => {
            x[0].assert_eq(&x[1]);
            vec![]
        }
        "assert_zero" => {
            x[0].assert_zero();
            vec![]
        }
        "assert_nonzero" => {
            x[0].assert_nonzero();
            vec![]
        }
        "assert_bit" => {
            x[0].assert_bit();
            vec![]
        }
        "bool_true" => {
            b(0).assert_true();
            vec![]
        }
        "bool_false" => {
            b(0).assert_false();
            vec![]
        }
        "poseidon" => vec![c_poseidon(x, op.prm.as_ref().unwrap())],
        "mtree" => vec![c_poseidon_merkle_tree_root(x, op.prm.as_ref().unwrap())],
        "mproof" if x.len() == 3 => vec![mproof::<F, U1>(x, op.prm.as_ref().unwrap())],
        "mproof" => vec![mproof::<F, U2>(x, op.prm.as_ref().unwrap())],
        o => {
            let j = j.unwrap();
            match o {
                "decompress" => p2(CEdwardsPoint::subgroup_decompress(&x[0], j)),
                "from_scalar" => p2(CEdwardsPoint::from_scalar(&x[0], j)),
                "ed_add" => p2(pt(x, 0).add(&pt(x, 2), j)),
                "ed_double" => p2(pt(x, 0).double(j)),
                "ed_cof" => p2(pt(x, 0).mul_by_cofactor(j)),
                "ed_mul" => p2(pt(x, 0).mul(&bits_of(&x[2..]), j)),
                "in_curve" => {
                    pt(x, 0).assert_in_curve(j);
                    vec![]
                }
                "in_subgroup" => {
                    pt(x, 0).assert_in_subgroup(j);
                    vec![]
                }
                _ => unreachable!(),
            }
        }
    }
}

fn build<'a, F: HF, J: JubJubParams<Fr = F>>(f: &mut Feed<'a, F>, pr: &Prog<F>, j: Option<&J>) -> Built<'a, F> {
    let ins: Vec<N<'a, F>> = pr
        .kinds
        .iter()
        .map(|k| if *k { f.bit().into_num() } else { arg(f, K::V) })
        .collect();
    f.note(&ins.iter().collect::<Vec<_>>());
    let mut v = ins.clone();
    for op in pr.ops.iter() {
        let x: Vec<N<'a, F>> = op.a.iter().map(|i| v[*i].clone()).collect();
        v.extend(exec(f, op, &x, j));
    }
    Built { ins, outs: v }
}

fn par<F: HF>(pr: &Prog<F>) -> Value {
    let ops: Vec<Value> = pr
        .ops
        .iter()
        .map(|o| {
            let p = match o.o.as_str() {
                "comp" => json!({"ct": enc(&o.k)}),
                "bits" => json!({"n": o.n}),
                "mux3" => json!({"tab": o.tab.iter().map(|t| enc_vec(t)).collect::<Vec<_>>()}),
                "poseidon" | "mtree" | "mproof" => json!({"prm": eprm(o.prm.as_ref().unwrap())}),
                "decompress" | "from_scalar" | "ed_add" | "ed_double" | "ed_cof" | "ed_mul" | "in_curve" | "in_subgroup" => {
                    json!({ "c": pr.curve })
                }
                _ => json!({"k": enc(&o.k)}),
            };
            json!({"o": o.o, "par": p, "a": o.a.iter().map(|i| i + 1).collect::<Vec<_>>(), "r": o.r, "m": o.m})
        })
        .collect();
    json!({ "ops": ops })
}

fn add<F: HF, J: JubJubParams<Fr = F> + 'static>(s: &mut Sink, pr: Prog<F>, inputs: &[Vec<Num<F>>], j: Option<J>) {
    let pj = par(&pr);
    let pr = std::rc::Rc::new(pr);
    s.add::<F>("prog", pj, true, inputs, &move |f| build(f, &pr, j.as_ref()));
}

fn tiny<const Q: u64, J: JubJubParams<Fr = Tiny<Q>> + 'static>(c: &Ctx, s: &mut Sink, r: &mut R, v: &Value, curve: &str, j: Option<J>) {
    let pr = parse::<Tiny<Q>>(v, curve);
    let doms: Vec<Vec<Vec<Num<Tiny<Q>>>>> =
        pr.kinds.iter().map(|k| if *k { dom_bit() } else { dom_all() }).collect();
    let mut inputs = vec![pr.fit.clone()];
    inputs.extend(product(&doms, c.n(60, 400), r));
    add(s, pr, &inputs, j);
}

/// The program over another field: widths follow the field, and assertions are kept as far as the
/// code says they hold for the given inputs (whether they do is for the specification to judge).
fn adapt<F: HF, J: JubJubParams<Fr = F>>(pr: &Prog<F>, vals: &[Num<F>], j: Option<&J>) -> Vec<Op<F>> {
    let cs = Rec::<F>::new();
    let mut f = Feed::new(&cs, Some(vals.to_vec()));
    let mut v: Vec<N<F>> = pr.kinds.iter().map(|k| if *k { f.bit().into_num() } else { f.var() }).collect();
    let mut at: Vec<usize> = (0..v.len()).collect(); // where the model's values are
    let mut out = vec![];
    for (i, op) in pr.ops.iter().enumerate() {
        let mut op = op.clone();
        op.a = op.a.iter().map(|i| at[*i]).collect();
        let x: Vec<N<F>> = op.a.iter().map(|i| v[*i].clone()).collect();
        let w: Vec<Num<F>> = x.iter().map(|y| y.value.unwrap_or(of_u64(0))).collect();
        let last = i + 1 == pr.ops.len();
        let model = op.m;
        let keep = match op.o.as_str() {
            "bits" => {
                if to_big(&w[0]) >= num::bigint::BigUint::from(1u32) << op.n {
                    op.n = F::NUM_BITS as usize;
                }
                true
            }
            "assert_val" => {
                op.k = w[0];
                true
            }
            "assert_eq" => w[0] == w[1],
            "assert_zero" | "bool_false" => last || w[0] == of_u64(0),
            "assert_nonzero" => last || w[0] != of_u64(0),
            "assert_bit" => last || w[0] == of_u64(0) || w[0] == of_u64(1),
            "bool_true" => last || w[0] == of_u64(1),
            "in_curve" => last || op.a[1] == op.a[0] + 1,
            _ => true,
        };
        if !keep {
            continue;
        }
        op.r = v.len() + 1;
        match guard(|| exec(&f, &op, &x, j)) {
            Some(res) => {
                op.m = res.len();
                at.extend((0..model).map(|k| v.len() + k));
                v.extend(res);
                out.push(op);
            }
            None => {
                out.push(op);
                break;
            }
        }
    }
    out
}

fn real<F: HF, J: JubJubParams<Fr = F> + 'static>(c: &Ctx, s: &mut Sink, r: &mut R, v: &Value, curve: &str, j: J) {
    let mut pr = parse::<F>(v, curve);
    let points = v["p"].as_u64().unwrap() > 20;
    let mut draw = |k: &bool| -> Num<F> {
        if *k {
            of_u64(r.below(2))
        } else if points && r.below(4) > 0 {
            let k: Num<J::Fs> = Num::from(1 + r.below(1 << 40));
            j.edwards_g().mul(k, &j).x
        } else {
            r.bnum()
        }
    };
    let kinds = pr.kinds.clone();
    let mut inputs: Vec<Vec<Num<F>>> = (0..c.n(2, 5)).map(|_| kinds.iter().map(&mut draw).collect()).collect();
    pr.ops = adapt(&pr, &inputs[0], Some(&j));
    // the same inputs with one changed
    let mut other = inputs[0].clone();
    let i = r.below(other.len() as u64) as usize;
    other[i] = if kinds[i] { of_u64::<F>(1) - other[i] } else { other[i] + of_u64::<F>(1) };
    inputs.push(other);
    add(s, pr, &inputs, Some(j));
}

pub fn run(c: &Ctx) {
    use fawkes_crypto::native::{bls12_381::*, bn256::*};
    let mut r = c.rng(22);
    let file = std::fs::File::open(format!("{}/programs.ndjson", c.dir)).unwrap();
    let mut small: Vec<Sink> = (1..=4).map(|k| Sink::new(c, &format!("small{}", k), true)).collect();
    let mut big = Sink::new(c, "big", false);
    let mut mid = Sink::new(c, "mid", true);
    let (mut nbig, mut ncurve) = (0, 0);
    for (i, line) in std::io::BufReader::new(file).lines().enumerate() {
        let v: Value = match serde_json::from_str(&line.unwrap()) {
            Ok(v) => v,
            Err(_) => {
                eprintln!("bad program {}", i);
                std::process::exit(2)
            }
        };
        // curves have many more assignments: some of those programs are only run honestly
        let curve = v["p"].as_u64().unwrap() > 20;
        let every = curve && v["kinds"].as_array().unwrap().len() == 1 && ncurve < c.n(12, 150);
        if every {
            ncurve += 1;
        }
        let s = if curve && !every { &mut mid } else { &mut small[i % 4] };
        match v["p"].as_u64().unwrap() {
            5 => tiny::<5, crate::tiny::TinyCurve<5, 5>>(c, s, &mut r, &v, "none", None),
            7 => tiny::<7, crate::tiny::TinyCurve<7, 5>>(c, s, &mut r, &v, "none", None),
            11 => tiny::<11, crate::tiny::TinyCurve<11, 5>>(c, s, &mut r, &v, "none", None),
            13 => tiny::<13, crate::tiny::TinyCurve<13, 5>>(c, s, &mut r, &v, "none", None),
            17 => tiny::<17, crate::tiny::TinyCurve<17, 5>>(c, s, &mut r, &v, "none", None),
            73 => tiny(c, s, &mut r, &v, "c73", Some(c73())),
            _ => tiny(c, s, &mut r, &v, "c97", Some(c97())),
        }
        if nbig < c.n(120, 1500) && i % 3 == 0 {
            nbig += 1;
            if i % 2 == 0 {
                real(c, &mut big, &mut r, &v, "bn", JubJubBN256::new());
            } else {
                real(c, &mut big, &mut r, &v, "bls", JubJubBLS12_381::new());
            }
        }
    }
}
