//! C03: JSON and binary encodings of numbers, fixed-length vectors, points and Merkle proofs.
use crate::enc::*;
use crate::tiny::Tiny;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::{
    ecc::{EdwardsPoint, MontgomeryPoint},
    num::Num,
    poseidon::MerkleProof,
};
use num::bigint::BigUint;
use serde::{de::DeserializeOwned, Serialize};
use typenum::{Unsigned, U0, U1, U2, U3, U5, U32};

/// types with a description, a value encoding for TLC and a random generator
trait HT: Sized + Serialize + DeserializeOwned {
    fn ty() -> Value;
    fn val(&self) -> Value;
    fn rnd(r: &mut R) -> Self;
}
impl<F: HF> HT for Num<F> {
    fn ty() -> Value {
        json!({"k":"num","p":enc_mod::<F>()})
    }
    fn val(&self) -> Value {
        enc(self)
    }
    fn rnd(r: &mut R) -> Self {
        r.bnum()
    }
}
impl HT for bool {
    fn ty() -> Value {
        json!({"k":"bool"})
    }
    fn val(&self) -> Value {
        json!(*self)
    }
    fn rnd(r: &mut R) -> Self {
        r.bool()
    }
}
impl<T: HT, L: Unsigned> HT for SizedVec<T, L> {
    fn ty() -> Value {
        json!({"k":"vec","n":L::USIZE,"e":T::ty()})
    }
    fn val(&self) -> Value {
        Value::Array(self.iter().map(|x| x.val()).collect())
    }
    fn rnd(r: &mut R) -> Self {
        (0..L::USIZE).map(|_| T::rnd(r)).collect()
    }
}
impl<F: HF, L: Unsigned> HT for MerkleProof<F, L> {
    fn ty() -> Value {
        json!({"k":"obj","f":[["sibling", SizedVec::<Num<F>, L>::ty()], ["path", SizedVec::<bool, L>::ty()]]})
    }
    fn val(&self) -> Value {
        json!([self.sibling.val(), self.path.val()])
    }
    fn rnd(r: &mut R) -> Self {
        MerkleProof { sibling: HT::rnd(r), path: HT::rnd(r) }
    }
}
macro_rules! point {
    ($t:ident) => {
        impl<F: HF> HT for $t<F> {
            fn ty() -> Value {
                json!({"k":"obj","f":[["x", Num::<F>::ty()], ["y", Num::<F>::ty()]]})
            }
            fn val(&self) -> Value {
                json!([self.x.val(), self.y.val()])
            }
            fn rnd(r: &mut R) -> Self {
                $t { x: HT::rnd(r), y: HT::rnd(r) }
            }
        }
    };
}
point!(EdwardsPoint);
point!(MontgomeryPoint);

pub fn codes(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
pub fn tree(v: &Value) -> Value {
    match v {
        Value::String(s) => json!({"k":"str","v":codes(s)}),
        Value::Bool(b) => json!({"k":"bool","v":b}),
        Value::Array(a) => json!({"k":"list","v":a.iter().map(tree).collect::<Vec<_>>()}),
        Value::Object(m) => json!({"k":"obj","v":m.iter().map(|(k, v)| json!([k, tree(v)])).collect::<Vec<_>>()}),
        _ => json!({"k":"other","v":0}),
    }
}
pub fn result(x: Option<Option<Value>>) -> Value {
    match x {
        Some(Some(v)) => json!({"k":"ok","v":v}),
        Some(None) => json!({"k":"err","v":0}),
        None => json!({"k":"panic","v":0}),
    }
}
fn dec<T: HT>(o: &mut Out, doc: &Value) {
    let text = doc.to_string();
    let r = result(guard(|| serde_json::from_str::<T>(&text).ok().map(|x| x.val())));
    o.ev(json!({"t":"dec","ty":T::ty(),"doc":tree(doc),"r":r}));
    let r = result(guard(|| serde_json::from_value::<T>(doc.clone()).ok().map(|x| x.val())));
    o.ev(json!({"t":"dec","ty":T::ty(),"doc":tree(doc),"r":r}));
}
/// all documents made by one change of a valid one
pub fn mutants(d: &Value, bad: &[String]) -> Vec<Value> {
    let mut v = vec![];
    match d {
        Value::String(_) => {
            for b in bad {
                v.push(json!(b));
            }
            v.push(json!(5));
            v.push(json!(null));
            v.push(json!(["5"]));
            v.push(json!({"x": "5"}));
            v.push(json!(true));
        }
        Value::Bool(_) => {
            v.push(json!(0));
            v.push(json!("true"));
            v.push(json!(null));
        }
        Value::Array(a) => {
            v.push(json!("5"));
            v.push(json!(null));
            v.push(json!([]));
            if let Some(x) = a.first() {
                let mut b = a.clone();
                b.push(x.clone());
                v.push(json!(b));
                let mut b = a.clone();
                b.insert(0, x.clone());
                b.insert(0, x.clone());
                v.push(json!(b));
                v.push(json!(a[1..].to_vec()));
                v.push(json!(a[..a.len() - 1].to_vec()));
                let mut b = a.clone();
                b.extend(a.iter().cloned());
                v.push(json!(b));
            } else {
                v.push(json!(["1"]));
                v.push(json!([true]));
            }
            for (i, x) in a.iter().enumerate() {
                for m in mutants(x, bad) {
                    let mut b = a.clone();
                    b[i] = m;
                    v.push(json!(b));
                }
            }
        }
        Value::Object(m) => {
            v.push(json!("5"));
            for (k, x) in m.iter() {
                let mut b = m.clone();
                b.remove(k);
                v.push(json!(b));
                for y in mutants(x, bad) {
                    let mut b = m.clone();
                    b[k] = y;
                    v.push(json!(b));
                }
            }
        }
        _ => {}
    }
    v
}
fn round<T: HT>(o: &mut Out, x: &T) -> Value {
    let doc = serde_json::to_value(x).unwrap();
    o.ev(json!({"t":"enc","ty":T::ty(),"v":x.val(),"doc":tree(&doc)}));
    let text = serde_json::to_string(x).unwrap();
    o.ev(json!({"t":"enc","ty":T::ty(),"v":x.val(),"doc":tree(&serde_json::from_str(&text).unwrap())}));
    dec::<T>(o, &doc);
    doc
}
fn composite<F: HF, T: HT>(o: &mut Out, r: &mut R, n: usize) {
    let p = modulus::<F>();
    let bad: Vec<String> = vec![p.to_string(), (&p + 1u32).to_string(), "-1".into(), "".into(), "0x1".into()];
    for _ in 0..n {
        let x = T::rnd(r);
        let d = round(o, &x);
        let mut ms = mutants(&d, &bad);
        if ms.len() > 400 {
            let k = ms.len() / 200;
            let keep: Vec<Value> = ms.iter().take(60).cloned().collect();
            ms = ms.into_iter().skip(60).step_by(k).collect();
            ms.extend(keep);
        }
        for m in ms {
            dec::<T>(o, &m);
        }
    }
}
fn numbers<F: HF>(o: &mut Out, els: &[Num<F>]) {
    let p = modulus::<F>();
    for a in els {
        round(o, a);
        let r = result(guard(|| a.try_to_vec().ok().map(|b| json!(b))));
        o.ev(json!({"t":"benc","p":enc_mod::<F>(),"v":enc(a),"r":r}));
    }
    let width = els[0].try_to_vec().unwrap().len();
    let one = BigUint::from(1u32);
    let mut vals = vec![p.clone(), &p + &one, &p * 2u32, (&one << (8 * width)) - &one, &one << (8 * width - 1), &one << p.bits()];
    for k in 0..8 * width {
        vals.push(&one << k);
        vals.push(&p + (&one << k));
    }
    vals.extend(els.iter().map(|x| to_big(x)));
    for v in vals.iter() {
        dec::<Num<F>>(o, &json!(v.to_string()));
        let mut b = v.to_bytes_le();
        if b.len() > width {
            continue;
        }
        b.resize(width, 0);
        bdec::<F>(o, &b);
        for extra in [1usize, 2, width, 2 * width].iter() {
            let mut c = b.clone();
            c.extend(vec![7u8; *extra]);
            bdec::<F>(o, &c);
        }
        bdec::<F>(o, &b[..width - 1]);
    }
    for n in 0..width {
        bdec::<F>(o, &vec![0u8; n]);
        bdec::<F>(o, &vec![1u8; n]);
    }
    for s in ["", " ", " 5", "5 ", "-1", "-0", "--1", "0x1", "0b1", "1e3", "1.0", "abc", "5a", "a5", "\u{ff15}", "\u{0967}", "\u{0661}",
        "5\u{0}", "\n5", "5\n", "1,000", "NaN", "Infinity", "0o7", "\"5\"", "5/1", "(5)", "#5", "0", "1", "4", "00", "01", "0000000005"].iter()
    {
        dec::<Num<F>>(o, &json!(s));
    }
    // many digits
    dec::<Num<F>>(o, &json!("9".repeat(2000)));
    dec::<Num<F>>(o, &json!(format!("{}{}", "0".repeat(300), "3")));
    for d in [json!(5), json!(0), json!(-1), json!(1.5), json!(null), json!(true), json!([]), json!(["5"]), json!({}), json!([5])].iter() {
        dec::<Num<F>>(o, d);
    }
    for s in ["+5", "1_0", "_1", "+", "_", "++1", "+_1", "+-1", "1_", "-+1", "+0", "_5_"].iter() {
        let t = json!(s).to_string();
        let r = result(guard(|| serde_json::from_str::<Num<F>>(&t).ok().map(|x| enc(&x))));
        o.ev(json!({"t":"odd","p":enc_mod::<F>(),"s":codes(s),"r":r}));
    }
}
fn bdec<F: HF>(o: &mut Out, b: &[u8]) {
    let mut used = 0;
    let r = result(guard(|| {
        let mut s = b;
        let x = Num::<F>::deserialize(&mut s).ok();
        used = b.len() - s.len();
        x.map(|x| enc(&x))
    }));
    o.ev(json!({"t":"bdec","p":enc_mod::<F>(),"bs":b,"exact":false,"used":used,"r":r}));
    let r = result(guard(|| Num::<F>::try_from_slice(b).ok().map(|x| enc(&x))));
    o.ev(json!({"t":"bdec","p":enc_mod::<F>(),"bs":b,"exact":true,"used":b.len(),"r":r}));
}
fn collect<L: Unsigned>(o: &mut Out) {
    for n in (0..8).chain(vec![31usize, 32, 33, 64]) {
        let items: Vec<u32> = (0..n as u32).map(|x| x * 3 + 1).collect();
        let r = outcome(|| json!(items.iter().cloned().collect::<SizedVec<u32, L>>().0));
        o.ev(json!({"t":"collect","n":n,"len":L::USIZE,"items":items,"r":r}));
        // through an iterator without a size hint
        let r = outcome(|| json!(items.iter().cloned().filter(|_| true).collect::<SizedVec<u32, L>>().0));
        o.ev(json!({"t":"collect","n":n,"len":L::USIZE,"items":items,"r":r}));
    }
}
fn comps<F: HF>(o: &mut Out, r: &mut R, n: usize) {
    composite::<F, SizedVec<Num<F>, U1>>(o, r, n);
    composite::<F, SizedVec<Num<F>, U3>>(o, r, n);
    composite::<F, SizedVec<Num<F>, U0>>(o, r, 1);
    composite::<F, SizedVec<bool, U2>>(o, r, n);
    composite::<F, SizedVec<SizedVec<Num<F>, U2>, U3>>(o, r, n);
    composite::<F, SizedVec<SizedVec<bool, U1>, U0>>(o, r, 1);
    composite::<F, MerkleProof<F, U1>>(o, r, n);
    composite::<F, MerkleProof<F, U3>>(o, r, n);
    composite::<F, SizedVec<MerkleProof<F, U2>, U2>>(o, r, n);
    composite::<F, EdwardsPoint<F>>(o, r, n);
    composite::<F, MontgomeryPoint<F>>(o, r, n);
}
pub fn run(c: &Ctx) {
    let mut r = c.rng(3);
    let mut o = c.out("small.ndjson");
    numbers::<Tiny<5>>(&mut o, &all());
    numbers::<Tiny<13>>(&mut o, &all());
    numbers::<Tiny<251>>(&mut o, &all());
    comps::<Tiny<13>>(&mut o, &mut r, c.n(2, 30));
    collect::<U0>(&mut o);
    collect::<U1>(&mut o);
    collect::<U2>(&mut o);
    collect::<U5>(&mut o);
    collect::<U32>(&mut o);
    let mut o = c.out("big.ndjson");
    macro_rules! bigf {
        ($f:ty) => {{
            let mut e = boundary::<$f>();
            for _ in 0..c.n(10, 200) {
                e.push(r.num());
            }
            numbers::<$f>(&mut o, &e);
        }};
    }
    bigf!(fawkes_crypto::native::bn256::Fr);
    bigf!(fawkes_crypto::native::bn256::Fs);
    bigf!(fawkes_crypto::native::bls12_381::Fr);
    bigf!(fawkes_crypto::native::bls12_381::Fs);
    bigf!(pairing::bls12_381::Fq);
    bigf!(pairing::bn256::Fq);
    bigf!(M127);
    comps::<fawkes_crypto::native::bn256::Fr>(&mut o, &mut r, c.n(1, 10));
    comps::<fawkes_crypto::native::bls12_381::Fr>(&mut o, &mut r, c.n(1, 10));
    composite::<fawkes_crypto::native::bn256::Fr, MerkleProof<fawkes_crypto::native::bn256::Fr, U32>>(&mut o, &mut r, 1);
}
