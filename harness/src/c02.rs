//! C02: conversions of field numbers.
use crate::enc::*;
use crate::tiny::Tiny;
use fawkes_crypto::native::num::Num;
use num::bigint::{BigInt, BigUint, Sign};

fn from<F: HF>(o: &mut Out, how: &str, neg: bool, mag: &BigUint, f: impl FnOnce() -> Num<F>) {
    let r = outcome(|| enc(&f()));
    o.ev(json!({"t":"from","how":how,"p":enc_mod::<F>(),"neg":neg,"base":256,"ds":mag.to_bytes_be(),"r":r}));
}
fn from_str<F: HF>(o: &mut Out, s: &str) {
    let ds: Vec<u8> = s.bytes().map(|c| c - b'0').collect();
    let r = outcome(|| enc(&Num::<F>::from(s)));
    o.ev(json!({"t":"from","how":"str","p":enc_mod::<F>(),"neg":false,"base":10,"ds":ds,"r":r}));
}
/// text that is no decimal number, and numbers with superfluous zeros; 99 stands for any other character
fn texts<F: HF>(o: &mut Out, r: &mut R) {
    let good = modulus::<F>().to_string();
    let mut ts: Vec<String> = ["", " ", "a", "-1", "-", "0x10", "1 ", " 1", "1.0", "1e3", "12a34", "a1", "1a", "0b1", "\u{663}", "\u{ff11}", "1\n", "1\0", "--5", "1-1", "0-", "-0", "nan", "1,2"]
        .iter()
        .map(|x| x.to_string())
        .collect();
    for _ in 0..20 {
        let mut t: Vec<char> = good.chars().take(1 + r.below(good.len() as u64) as usize).collect();
        let k = r.below(t.len() as u64 + 1) as usize;
        t.insert(k, ['x', ' ', '.', ':', '/', '-', '\t', 'A', 'f', ';'][r.below(10) as usize]);
        ts.push(t.into_iter().collect());
    }
    for z in ["00", "01", "007", "000000000000000000000000000000000000000000000000000000000000000000000000000000000000001"].iter() {
        ts.push(z.to_string());
    }
    ts.push(format!("0{}", good));
    for t in ts {
        let ds: Vec<u8> = t.chars().map(|c| if c.is_ascii_digit() { c as u8 - b'0' } else { 99 }).collect();
        let res = outcome(|| enc(&Num::<F>::from(&t[..])));
        o.ev(json!({"t":"text","p":enc_mod::<F>(),"ds":ds,"r":res}));
    }
}
fn from_bin<F: HF>(o: &mut Out, b: &[u8]) {
    let r = outcome(|| enc(&Num::<F>::from_binary_be(b)));
    o.ev(json!({"t":"from","how":"bin","p":enc_mod::<F>(),"neg":false,"base":256,"ds":b,"r":r}));
}
fn from_big<F: HF>(o: &mut Out, mag: &BigUint) {
    from::<F>(o, "biguint", false, mag, || Num::from(mag.clone()));
    for neg in [false, true].iter() {
        let s = if *neg { Sign::Minus } else { Sign::Plus };
        let x = BigInt::from_biguint(s, mag.clone());
        from::<F>(o, "bigint", *neg, mag, || Num::from(x));
    }
    // the field crate parses digits as field elements, so it needs a prime above ten
    if modulus::<F>() > BigUint::from(10u32) {
        from_str::<F>(o, &mag.to_string());
    }
}
fn mag(x: i128) -> (bool, BigUint) {
    (x < 0, BigUint::from(x.unsigned_abs()))
}
fn machine<F: HF>(o: &mut Out, x: i128) {
    let (neg, m) = mag(x);
    if x >= 0 && x <= u64::MAX as i128 {
        from::<F>(o, "u64", neg, &m, || Num::from(x as u64));
    }
    if x >= i64::MIN as i128 && x <= i64::MAX as i128 {
        from::<F>(o, "i64", neg, &m, || Num::from(x as i64));
    }
    if x >= 0 && x <= u32::MAX as i128 {
        from::<F>(o, "u32", neg, &m, || Num::from(x as u32));
    }
    if x >= i32::MIN as i128 && x <= i32::MAX as i128 {
        from::<F>(o, "i32", neg, &m, || Num::from(x as i32));
    }
    if x == 0 || x == 1 {
        from::<F>(o, "bool", neg, &m, || Num::from(x == 1));
    }
}
fn to_all<F: HF>(o: &mut Out, a: Num<F>) {
    let p = enc_mod::<F>();
    let mut ev = |t: &str, r: Value| o.ev(json!({"t":t,"p":p,"a":enc(&a),"r":r}));
    ev("dec", outcome(|| json!(a.to_string().bytes().map(|c| if c.is_ascii_digit() { c - b'0' } else { 99 }).collect::<Vec<u8>>())));
    ev("bigint", outcome(|| { let b: BigUint = a.into(); json!(b.to_bytes_be()) }));
    ev("bytes", outcome(|| json!(a.into_binary_be())));
    ev("u64", outcome(|| { let x: u64 = a.into(); json!(BigUint::from(x).to_bytes_be()) }));
    ev("bool", outcome(|| json!(a.into_bool())));
    ev("le", outcome(|| json!(a.iterbit_le().map(|b| b as u8).collect::<Vec<u8>>())));
    ev("be", outcome(|| json!(a.iterbit_be().map(|b| b as u8).collect::<Vec<u8>>())));
}
fn other<F: HF, G: HF>(o: &mut Out, a: Num<F>) {
    let (p, q) = (enc_mod::<F>(), enc_mod::<G>());
    o.ev(json!({"t":"other","how":"from","p":p,"q":q,"a":enc(&a),"r":outcome(|| enc(&Num::<G>::from_other(a)))}));
    o.ev(json!({"t":"other","how":"into","p":p,"q":q,"a":enc(&a),"r":outcome(|| enc(&a.into_other::<G>()))}));
}
fn seed<F: HF>(o: &mut Out, s: &[u8]) {
    o.ev(json!({"t":"seed","p":enc_mod::<F>(),"s":s,"r":outcome(|| enc(&Num::<F>::from_seed(s)))}));
}

fn elems<F: HF>(r: &mut R, n: usize) -> Vec<Num<F>> {
    let mut v = boundary::<F>();
    let p = modulus::<F>();
    // each byte / limb position alone, and all-ones below each byte position
    for k in (0..p.bits()).step_by(8) {
        let t = BigUint::from(1u32) << k;
        v.push(of_big(&t));
        v.push(of_big(&(&t << 7)));
        v.push(of_big(&(&p - &t)));
        v.push(of_big(&(&t - BigUint::from(1u32))));
    }
    for _ in 0..n {
        v.push(r.num());
    }
    v
}

fn big_field<F: HF>(c: &Ctx, o: &mut Out, r: &mut R, seeds: bool) {
    for x in [
        0i128, 1, 2, 255, 256, 65535, -1, -2, -256,
        i32::MAX as i128, i32::MIN as i128, i32::MIN as i128 + 1, i32::MAX as i128 + 1, i32::MIN as i128 - 1,
        u32::MAX as i128, u32::MAX as i128 + 1, i64::MAX as i128, i64::MIN as i128, i64::MIN as i128 + 1,
        i64::MAX as i128 + 1, u64::MAX as i128, u64::MAX as i128 - 1, -(u32::MAX as i128),
    ]
    .iter()
    {
        machine::<F>(o, *x);
    }
    for _ in 0..c.n(10, 200) {
        let x = r.big(8);
        let d = { let mut w = [0u8; 8]; let b = x.to_bytes_le(); w[..b.len()].copy_from_slice(&b); u64::from_le_bytes(w) >> r.below(60) };
        machine::<F>(o, d as i128);
        machine::<F>(o, -((d >> 1) as i128));
    }
    let p = modulus::<F>();
    let one = BigUint::from(1u32);
    let mut mags = vec![BigUint::from(0u32), one.clone(), &p - &one, p.clone(), &p + &one, &p * 2u32, &p * &p, &p * 2u32 - &one, &p * &p - &one];
    for k in [8usize, 15, 31, 32, 63, 64, 120, 128, 248, 252, 253, 254, 255, 256, 257, 320, 376, 380, 381, 384, 500, 512, 2048].iter() {
        mags.push(&one << *k);
        mags.push((&one << *k) - &one);
    }
    for i in 0..c.n(12, 150) {
        mags.push(r.big(1 + (i * 7) % 70));
        // multiples of the prime plus a small remainder
        mags.push(&p * r.big(1 + i % 33) + BigUint::from(i as u32));
    }
    for m in mags.iter() {
        from_big::<F>(o, m);
        let b = m.to_bytes_be();
        from_bin::<F>(o, &b);
    }
    from_bin::<F>(o, &[]);
    for n in 1..=c.n(70, 200) {
        let mut b = r.bytes(n);
        from_bin::<F>(o, &b);
        b[0] = 0;
        from_bin::<F>(o, &b);
        from_bin::<F>(o, &vec![0xff; n]);
    }
    for a in elems::<F>(r, c.n(20, 300)) {
        to_all(o, a);
        other::<F, fawkes_crypto::native::bn256::Fr>(o, a);
        other::<F, fawkes_crypto::native::bn256::Fs>(o, a);
        other::<F, fawkes_crypto::native::bls12_381::Fr>(o, a);
        other::<F, pairing::bls12_381::Fq>(o, a);
        other::<F, M127>(o, a);
    }
    if seeds {
        for n in [0usize, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200].iter() {
            let s = r.bytes(*n);
            seed::<F>(o, &s);
        }
        seed::<F>(o, &vec![0; 64]);
        seed::<F>(o, b"fawkes");
        for _ in 0..c.n(2, 100) {
            let n = r.below(300) as usize;
            let s = r.bytes(n);
            seed::<F>(o, &s);
        }
    }
}

fn tiny_field<F: HF>(o: &mut Out, r: &mut R) {
    let p = F::char().as_ref()[0];
    // integers that do not fit the field, up to the extremes of their types
    for k in [0i128, 7, 15, 16, 31, 32, 40, 63, 64].iter() {
        for d in -2..3i128 {
            machine::<F>(o, (1i128 << k) + d);
            machine::<F>(o, -(1i128 << k) + d);
            machine::<F>(o, ((1i128 << k) / p as i128) * p as i128 + d);
        }
    }
    for x in 0..3 * p {
        machine::<F>(o, x as i128);
        machine::<F>(o, -(x as i128));
    }
    for x in 0..3 * p {
        let m = BigUint::from(x);
        from_big::<F>(o, &m);
        from_bin::<F>(o, &m.to_bytes_be());
    }
    for n in 0..20 {
        let b = r.bytes(n);
        from_bin::<F>(o, &b);
        from_big::<F>(o, &BigUint::from_bytes_be(&b));
    }
    for a in all::<F>() {
        to_all(o, a);
        other::<F, Tiny<5>>(o, a);
        other::<F, Tiny<7>>(o, a);
        other::<F, Tiny<73>>(o, a);
        other::<F, Tiny<251>>(o, a);
    }
    for n in [0usize, 1, 64, 65].iter() {
        let s = r.bytes(*n);
        seed::<F>(o, &s);
    }
}

pub fn run(c: &Ctx) {
    let mut r = c.rng(2);
    let mut o = c.out("small.ndjson");
    texts::<Tiny<251>>(&mut o, &mut R::new(c.seed, 202));
    tiny_field::<Tiny<5>>(&mut o, &mut r);
    tiny_field::<Tiny<7>>(&mut o, &mut r);
    tiny_field::<Tiny<11>>(&mut o, &mut r);
    tiny_field::<Tiny<73>>(&mut o, &mut r);
    tiny_field::<Tiny<251>>(&mut o, &mut r);
    let mut o = c.out("big.ndjson");
    let mut rt = R::new(c.seed, 203);
    texts::<fawkes_crypto::native::bn256::Fr>(&mut o, &mut rt);
    texts::<fawkes_crypto::native::bn256::Fs>(&mut o, &mut rt);
    texts::<pairing::bls12_381::Fq>(&mut o, &mut rt);
    big_field::<fawkes_crypto::native::bn256::Fr>(c, &mut o, &mut r, true);
    big_field::<fawkes_crypto::native::bn256::Fs>(c, &mut o, &mut r, true);
    big_field::<fawkes_crypto::native::bls12_381::Fr>(c, &mut o, &mut r, true);
    big_field::<fawkes_crypto::native::bls12_381::Fs>(c, &mut o, &mut r, true);
    big_field::<pairing::bls12_381::Fq>(c, &mut o, &mut r, false);
    big_field::<pairing::bn256::Fq>(c, &mut o, &mut r, true);
    big_field::<M127>(c, &mut o, &mut r, true);
}
