//! C01: field-number arithmetic.
use crate::enc::*;
use crate::tiny::Tiny;
use fawkes_crypto::native::num::Num;

pub const FORMS: [&str; 6] = ["vv", "vr", "rv", "rr", "av", "ar"];
pub const OPS: [&str; 4] = ["add", "sub", "mul", "div"];

macro_rules! forms {
    ($op:tt, $asg:tt, $a:expr, $b:expr, $form:expr) => {
        match $form {
            "vv" => $a $op $b,
            "vr" => $a $op &$b,
            "rv" => &$a $op $b,
            "rr" => &$a $op &$b,
            "av" => { let mut t = $a; t $asg $b; t }
            "ar" => { let mut t = $a; t $asg &$b; t }
            _ => unreachable!(),
        }
    };
}

fn bin<F: HF>(op: &str, form: &str, a: Num<F>, b: Num<F>) -> Num<F> {
    match op {
        "add" => forms!(+, +=, a, b, form),
        "sub" => forms!(-, -=, a, b, form),
        "mul" => forms!(*, *=, a, b, form),
        "div" => forms!(/, /=, a, b, form),
        _ => unreachable!(),
    }
}

pub const UNOPS: [&str; 9] = [
    "neg_v", "neg_r", "double", "square", "inverse", "sqrt", "is_zero", "is_odd", "is_even",
];

/// result of a unary operation: ("num", v) | ("bool", b) | ("none", 0) | ("panic", 0)
fn un<F: HF>(op: &str, a: Num<F>) -> Value {
    let num = |x: Option<Num<F>>| match x {
        Some(x) => json!({"k":"num","v":enc(&x)}),
        None => json!({"k":"panic","v":0}),
    };
    let boo = |x: Option<bool>| match x {
        Some(x) => json!({"k":"bool","v":x}),
        None => json!({"k":"panic","v":0}),
    };
    match op {
        "neg_v" => num(guard(|| -a)),
        "neg_r" => num(guard(|| -&a)),
        "double" => num(guard(|| a.double())),
        "square" => num(guard(|| a.square())),
        "inverse" => num(guard(|| a.inverse())),
        "sqrt" => match guard(|| a.sqrt()) {
            Some(Some(x)) => json!({"k":"num","v":enc(&x)}),
            Some(None) => json!({"k":"none","v":0}),
            None => json!({"k":"panic","v":0}),
        },
        "is_zero" => boo(guard(|| a.is_zero())),
        "is_odd" => boo(guard(|| a.is_odd())),
        "is_even" => boo(guard(|| a.is_even())),
        _ => unreachable!(),
    }
}

fn tiny_tables<F: HF>(o: &mut Out) {
    let els = all::<F>();
    for op in OPS.iter() {
        for form in FORMS.iter() {
            for a in els.iter() {
                let row: Vec<i64> = els
                    .iter()
                    .map(|b| match guard(|| bin(op, form, *a, *b)) {
                        Some(x) => (x.0).into_repr().as_ref()[0] as i64,
                        None => -1,
                    })
                    .collect();
                o.ev(json!({"t":"row","p":enc_mod::<F>(),"op":op,"form":form,"a":enc(a),"row":row}));
            }
        }
    }
    for a in els.iter() {
        let row: Vec<bool> = els.iter().map(|b| a == b).collect();
        o.ev(json!({"t":"eqrow","p":enc_mod::<F>(),"a":enc(a),"row":row}));
        for op in UNOPS.iter() {
            o.ev(json!({"t":"un","p":enc_mod::<F>(),"op":op,"a":enc(a),"r":un(op, *a)}));
        }
    }
    consts::<F>(o);
}

fn consts<F: HF>(o: &mut Out) {
    o.ev(json!({"t":"consts","p":enc_mod::<F>(),"zero":enc(&Num::<F>::zero()),
        "one":enc(&Num::<F>::one()),"minusone":enc(&Num::<F>::minusone())}));
}

fn big_events<F: HF>(o: &mut Out, r: &mut R, nrand: usize) {
    consts::<F>(o);
    let mut els = boundary::<F>();
    for _ in 0..nrand {
        els.push(r.num());
    }
    for (i, a) in els.iter().enumerate() {
        for op in UNOPS.iter() {
            o.ev(json!({"t":"un","p":enc_mod::<F>(),"op":op,"a":enc(a),"r":un(op, *a)}));
        }
        for (j, b) in els.iter().enumerate() {
            for (k, op) in OPS.iter().enumerate() {
                // every operator form is met on many operand pairs
                let form = FORMS[(i + 5 * j + k) % 6];
                let v = outcome(|| enc(&bin(op, form, *a, *b)));
                o.ev(json!({"t":"bin","p":enc_mod::<F>(),"op":op,"form":form,"a":enc(a),"b":enc(b),"r":v}));
            }
            if (i + j) % 3 == 0 || i == j {
                o.ev(json!({"t":"eq","p":enc_mod::<F>(),"a":enc(a),"b":enc(b),"r":a == b}));
            }
        }
    }
    // all forms on selected operands
    for _ in 0..nrand {
        let (a, b) = (r.bnum::<F>(), r.bnum::<F>());
        for op in OPS.iter() {
            for form in FORMS.iter() {
                let v = outcome(|| enc(&bin(op, form, a, b)));
                o.ev(json!({"t":"bin","p":enc_mod::<F>(),"op":op,"form":form,"a":enc(&a),"b":enc(&b),"r":v}));
            }
        }
    }
    // commuted operand identities via equality: (a+b)-b == a computed by the code itself
    for _ in 0..nrand {
        let (a, b) = (r.bnum::<F>(), r.bnum::<F>());
        o.ev(json!({"t":"eq","p":enc_mod::<F>(),"a":enc(&a),"b":enc(&a),"r": (a + b) - b == a}));
    }
}

pub fn run(c: &Ctx) {
    let mut o = c.out("small.ndjson");
    tiny_tables::<Tiny<5>>(&mut o);
    tiny_tables::<Tiny<7>>(&mut o);
    tiny_tables::<Tiny<11>>(&mut o);
    tiny_tables::<Tiny<13>>(&mut o);
    tiny_tables::<Tiny<73>>(&mut o);
    if c.thorough {
        tiny_tables::<Tiny<97>>(&mut o);
        tiny_tables::<Tiny<251>>(&mut o);
    }
    let mut o = c.out("big.ndjson");
    let mut r = c.rng(1);
    let n = c.n(6, 60);
    big_events::<fawkes_crypto::native::bn256::Fr>(&mut o, &mut r, n);
    big_events::<fawkes_crypto::native::bn256::Fs>(&mut o, &mut r, n);
    big_events::<fawkes_crypto::native::bls12_381::Fr>(&mut o, &mut r, n);
    big_events::<fawkes_crypto::native::bls12_381::Fs>(&mut o, &mut r, n);
    big_events::<pairing::bn256::Fq>(&mut o, &mut r, n);
    big_events::<pairing::bls12_381::Fq>(&mut o, &mut r, n);
    big_events::<M127>(&mut o, &mut r, n);
}
