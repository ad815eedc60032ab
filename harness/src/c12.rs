//! C12: programs over symbolic numbers.
use crate::enc::*;
use crate::rec::*;
use crate::tiny::Tiny;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::{cs::ConstraintSystem, signal::Signal};
use fawkes_crypto::native::num::Num;
use std::io::BufRead;

#[derive(Clone)]
pub struct Op<F: HF> {
    o: String,
    d: usize,
    a: usize,
    b: usize,
    c: Num<F>,
    form: usize,
}
/// initial register: variable (1-based) or constant
#[derive(Clone)]
enum Ini<F: HF> {
    Var(usize),
    Const(Num<F>),
}

macro_rules! forms {
    ($op:tt, $asg:tt, $a:expr, $b:expr, $form:expr, $asgok:expr) => {
        match if $asgok { $form % 6 } else { $form % 4 } {
            0 => $a.clone() $op $b.clone(),
            1 => $a.clone() $op &$b,
            2 => &$a $op $b.clone(),
            3 => &$a $op &$b,
            4 => { let mut t = $a.clone(); t $asg $b.clone(); t }
            _ => { let mut t = $a.clone(); t $asg &$b; t }
        }
    };
}
macro_rules! forms4 {
    ($op:tt, $a:expr, $b:expr, $form:expr) => {
        match $form % 4 {
            0 => $a.clone() $op $b.clone(),
            1 => $a.clone() $op &$b,
            2 => &$a $op $b.clone(),
            _ => &$a $op &$b,
        }
    };
}

fn exec<'a, F: HF>(op: &Op<F>, regs: &[N<'a, F>]) -> N<'a, F> {
    let a = &regs[op.a];
    let b = &regs[op.b];
    let c = op.c;
    let f = op.form;
    let inplace = op.d == op.a;
    // the operands as places, so that every operator form can be used
    let (a, b) = (a.clone(), b.clone());
    match op.o.as_str() {
        "add" => forms!(+, +=, a, b, f, inplace),
        "sub" => forms!(-, -=, a, b, f, inplace),
        "mul" => forms!(*, *=, a, b, f, inplace),
        "div" => forms!(/, /=, a, b, f, inplace),
        "neg" => if f % 2 == 0 { -a } else { -&a },
        "sq" => a.square(),
        "addc" => forms!(+, +=, a, c, f, inplace),
        "subc" => forms!(-, -=, a, c, f, inplace),
        "mulc" => forms!(*, *=, a, c, f, inplace),
        "divc" => forms!(/, /=, a, c, f, inplace),
        "cadd" => forms4!(+, c, a, f),
        "cmul" => forms4!(*, c, a, f),
        "csub" => forms4!(-, c, a, f),
        _ => unreachable!(),
    }
}

fn obs<F: HF>(cs: &Rec<F>, n: &N<F>) -> Value {
    let c = n.as_const();
    let v = n.get_value();
    json!({"lc": enc_lc(&cs.lc(n)), "isc": c.is_some(), "c": enc(&c.unwrap_or(of_u64(0))),
        "k": v.is_some(), "v": enc(&v.unwrap_or(of_u64(0)))})
}

fn run_prog<F: HF>(o: &mut Out, kinds: &[bool], vals: &[Option<Num<F>>], init: &[Ini<F>], ops: &[Op<F>]) {
    let cs = Rec::<F>::new();
    let vars: Vec<N<F>> = kinds
        .iter()
        .zip(vals)
        .map(|(k, v)| {
            if *k {
                let i: Index = cs.alloc_input(*v);
                CNum::from_var(&cs, *v, i)
            } else {
                CNum::alloc(&cs, v.as_ref())
            }
        })
        .collect();
    let mut regs: Vec<N<F>> = init
        .iter()
        .map(|i| match i {
            Ini::Var(i) => vars[*i - 1].clone(),
            Ini::Const(c) => CNum::from_const(&cs, c),
        })
        .collect();
    let (mut ob, mut nv, mut nc, mut panic) = (vec![], vec![], vec![], 0);
    for (i, op) in ops.iter().enumerate() {
        match guard(|| exec(op, &regs)) {
            Some(r) => {
                ob.push(obs(&cs, &r));
                regs[op.d] = r;
                nv.push(cs.nvars());
                nc.push(cs.ncons());
            }
            None => {
                panic = i + 1;
                break;
            }
        }
    }
    let mut allkinds = kinds.to_vec();
    allkinds.extend(vec![false; 200]);
    let k: Vec<bool> = cs.0.borrow().kinds.clone();
    let ops: Vec<Value> = ops
        .iter()
        .map(|x| json!({"o":x.o,"d":x.d+1,"a":x.a+1,"b":x.b+1,"c":enc(&x.c),"form":x.form}))
        .collect();
    let init: Vec<Value> = init
        .iter()
        .map(|x| match x {
            Ini::Var(i) => json!({"i":i,"v":enc(&of_u64::<F>(0))}),
            Ini::Const(c) => json!({"i":0,"v":enc(c)}),
        })
        .collect();
    o.ev(json!({"p":enc_mod::<F>(),"kinds":k,"known":vals.iter().map(|x| x.is_some()).collect::<Vec<_>>(),
        "vals":vals.iter().map(|x| enc(&x.unwrap_or(of_u64(0)))).collect::<Vec<_>>(),
        "init":init,"ops":ops,"obs":ob,"nv":nv,"nc":nc,"panic":panic}));
}

const OPS: [&str; 15] = [
    "add", "sub", "mul", "div", "add", "sub", "neg", "sq", "addc", "subc", "mulc", "divc", "cadd", "cmul", "csub",
];

fn random_prog<F: HF>(o: &mut Out, r: &mut R, len: usize, maxmul: usize) {
    let nv = 2 + r.below(5) as usize;
    let kinds: Vec<bool> = (0..nv).map(|_| r.below(3) == 0).collect();
    let mode = r.below(4);
    let vals: Vec<Option<Num<F>>> = (0..nv)
        .map(|_| {
            let v = r.bnum();
            if mode == 0 || (mode == 1 && r.bool()) { None } else { Some(v) }
        })
        .collect();
    let nr = 3 + r.below(3) as usize;
    let init: Vec<Ini<F>> = (0..nr)
        .map(|_| {
            if r.below(4) == 0 {
                let c = if r.below(3) == 0 { of_u64(r.below(2)) } else { r.bnum() };
                Ini::Const(c)
            } else {
                Ini::Var(1 + r.below(nv as u64) as usize)
            }
        })
        .collect();
    let mut muls = 0;
    let ops: Vec<Op<F>> = (0..len)
        .map(|_| {
            let mut k = *r.pick(&OPS);
            if ["mul", "div", "sq"].contains(&k) {
                muls += 1;
                if muls > maxmul {
                    k = if r.bool() { "add" } else { "sub" };
                }
            }
            let a = r.below(nr as u64) as usize;
            let d = if r.bool() { a } else { r.below(nr as u64) as usize };
            let c = match r.below(5) {
                0 if k != "divc" => of_u64(0),
                1 => of_u64(1),
                2 => -of_u64::<F>(1),
                _ => r.bnum(),
            };
            Op { o: k.to_string(), d, a, b: r.below(nr as u64) as usize, c, form: r.below(12) as usize }
        })
        .collect();
    run_prog(o, &kinds, &vals, &init, &ops);
}

/// combinations of many variables
fn wide_prog<F: HF>(o: &mut Out, r: &mut R) {
    let nv = 20 + r.below(70) as usize;
    let kinds: Vec<bool> = (0..nv).map(|_| r.below(3) == 0).collect();
    let unknown = r.below(4) == 0;
    let vals: Vec<Option<Num<F>>> = (0..nv).map(|i| if unknown && i == nv / 2 { None } else { Some(r.bnum()) }).collect();
    let init: Vec<Ini<F>> = (0..nv)
        .map(|i| if r.below(12) == 0 { Ini::Const(r.bnum()) } else { Ini::Var(1 + i) })
        .collect();
    let mut ops: Vec<Op<F>> = vec![];
    let op = |o: &str, d: usize, a: usize, b: usize, c: Num<F>, form: usize| Op { o: o.to_string(), d, a, b, c, form };
    let mut half = nv;
    let mut muls = 0;
    while half > 1 {
        let h = half / 2;
        for i in 0..h {
            // neighbours, or halves: the terms interleave or follow one another
            let (a, b) = if r.bool() { (i, half - 1 - i) } else { (half - 1 - i, i) };
            let k = if r.bool() { "add" } else { "sub" };
            let t = r.below(12) as usize;
            ops.push(op(k, i, a, b, of_u64(0), t));
            if r.below(6) == 0 {
                let c = r.bnum();
                let t = r.below(12) as usize;
                ops.push(op(*r.pick(&["mulc", "addc", "csub", "cmul", "neg"]), i, i, i, c, t));
            }
            if muls < 4 && r.below(20) == 0 {
                muls += 1;
                let t = r.below(12) as usize;
                ops.push(op("mul", half - 1 - i, i, half - 1 - i, of_u64(0), t));
            }
        }
        half -= h;
    }
    // terms that cancel one by one
    for i in 1..nv.min(20) {
        let k = if r.bool() { "add" } else { "sub" };
        let t = r.below(12) as usize;
        ops.push(op(k, 0, 0, i, of_u64(0), t));
    }
    run_prog(o, &kinds, &vals, &init, &ops);
}

/// sums of hundreds of terms, added one at a time in any order, then joined
fn long_sums<F: HF>(o: &mut Out, r: &mut R, nv: usize) {
    let cs = Rec::<F>::new();
    let kinds: Vec<bool> = (0..nv).map(|_| r.below(4) == 0).collect();
    let vals: Vec<Num<F>> = (0..nv).map(|_| r.bnum()).collect();
    let vars: Vec<N<F>> = kinds
        .iter()
        .zip(&vals)
        .map(|(k, v)| if *k { CNum::from_var(&cs, Some(*v), cs.alloc_input(Some(*v))) } else { CNum::alloc(&cs, Some(v)) })
        .collect();
    let mut sum = |r: &mut R| {
        let mut idx: Vec<usize> = (0..nv).filter(|_| r.below(8) != 0).collect();
        match r.below(3) {
            0 => {}
            1 => idx.reverse(),
            _ => (1..idx.len()).for_each(|i| idx.swap(i, r.below(i as u64 + 1) as usize)),
        }
        let terms: Vec<(usize, Num<F>)> = idx.into_iter().map(|i| (i, if r.bool() { of_u64(1) } else { r.bnum() })).collect();
        let n = guard(|| {
            let mut a: N<F> = CNum::zero(&cs);
            for (k, (i, c)) in terms.iter().enumerate() {
                match k % 3 {
                    0 => a += &vars[*i] * *c,
                    1 => a -= &vars[*i] * -*c,
                    _ => a = &a + &vars[*i] * c,
                }
            }
            a
        });
        (terms, n)
    };
    let ((t1, a), (t2, b)) = (sum(r), sum(r));
    let sub = r.bool();
    let j = |t: &[(usize, Num<F>)]| t.iter().map(|(i, c)| json!([i + 1, enc(c)])).collect::<Vec<_>>();
    let ob = match (&a, &b) {
        (Some(a), Some(b)) => guard(|| if sub { a - b } else { a + b }).map(|c| vec![obs(&cs, a), obs(&cs, b), obs(&cs, &c)]),
        _ => None,
    };
    o.ev(json!({"p":enc_mod::<F>(),"kinds":kinds,"vals":enc_vec(&vals),"t1":j(&t1),"t2":j(&t2),"sub":sub,"obs":ob.unwrap_or_default(),
        "nv":cs.nvars(),"nc":cs.ncons()}));
}

/// programs written by TLC (CNumModel.tla)
fn replay(c: &Ctx, o: &mut Out, r: &mut R) {
    let f = std::fs::File::open(format!("{}/programs.ndjson", c.dir)).unwrap();
    for line in std::io::BufReader::new(f).lines() {
        let line = line.unwrap();
        let v: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(_) => {
                eprintln!("bad program {}", line);
                std::process::exit(2)
            }
        };
        type F = Tiny<5>;
        let u = |x: &Value| x.as_u64().unwrap();
        let init: Vec<Ini<F>> = v["init"].as_array().unwrap().iter()
            .map(|x| if u(x) == 0 { Ini::Const(of_u64(2)) } else { Ini::Var(u(x) as usize) })
            .collect();
        let ops: Vec<Op<F>> = v["ops"].as_array().unwrap().iter()
            .map(|x| Op {
                o: x["o"].as_str().unwrap().to_string(),
                d: u(&x["d"]) as usize - 1,
                a: u(&x["a"]) as usize - 1,
                b: u(&x["b"]) as usize - 1,
                c: of_u64(u(&x["c"])),
                form: r.below(12) as usize,
            })
            .collect();
        let kinds = [r.below(3) == 0, r.below(3) == 0, r.below(3) == 0];
        let vals = match r.below(6) {
            0 => [None, None, None],
            1 => [Some(of_u64(3)), None, Some(of_u64(0))],
            2 => [Some(r.num()), Some(r.num()), Some(r.num())],
            _ => [Some(of_u64(3)), Some(of_u64(4)), Some(of_u64(0))],
        };
        run_prog(o, &kinds, &vals, &init, &ops);
    }
}

pub fn run(c: &Ctx) {
    let mut r = c.rng(12);
    let mut o = c.out("small.ndjson");
    for i in 0..c.n(3000, 30000) {
        let len = 1 + r.below(25) as usize;
        match i % 3 {
            0 => random_prog::<Tiny<5>>(&mut o, &mut r, len, 6),
            1 => random_prog::<Tiny<7>>(&mut o, &mut r, len, 6),
            _ => random_prog::<Tiny<251>>(&mut o, &mut r, len, 6),
        }
    }
    for i in 0..c.n(60, 600) {
        match i % 2 {
            0 => wide_prog::<Tiny<7>>(&mut o, &mut r),
            _ => wide_prog::<Tiny<251>>(&mut o, &mut r),
        }
    }
    for n in [64, 130, 257, 300, 520, c.n(700, 1500)].iter() {
        long_sums::<Tiny<7>>(&mut o, &mut r, *n);
        long_sums::<Tiny<251>>(&mut o, &mut r, *n);
    }
    replay(c, &mut c.out("model.ndjson"), &mut r);
    let mut o = c.out("big.ndjson");
    for i in 0..c.n(900, 9000) {
        let len = 1 + r.below(40) as usize;
        match i % 3 {
            0 => random_prog::<fawkes_crypto::native::bn256::Fr>(&mut o, &mut r, len, 8),
            1 => random_prog::<fawkes_crypto::native::bls12_381::Fr>(&mut o, &mut r, len, 8),
            _ => random_prog::<M127>(&mut o, &mut r, len, 8),
        }
    }
    long_sums::<fawkes_crypto::native::bn256::Fr>(&mut o, &mut r, 300);
    long_sums::<fawkes_crypto::native::bls12_381::Fr>(&mut o, &mut r, 300);
    for i in 0..c.n(30, 300) {
        match i % 2 {
            0 => wide_prog::<fawkes_crypto::native::bn256::Fr>(&mut o, &mut r),
            _ => wide_prog::<fawkes_crypto::native::bls12_381::Fr>(&mut o, &mut r),
        }
    }
}
