//! Replays histories of commands.  Everything written to or read from the files outside the
//! commands is encoded and decoded here, independently of the library.
use crate::c03::tree;
use crate::c04::{bls, bn, pt};
use crate::enc::*;
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;
use std::collections::BTreeMap;
use std::fs;
use std::io::BufRead;
use std::path::{Path, PathBuf};
use std::process::Command;

#[derive(Clone, Copy, PartialEq)]
enum B {
    Eth,
    Waves,
    WavesBn,
    Near,
}
impl B {
    fn name(self) -> &'static str {
        match self {
            B::Eth => "eth",
            B::Waves => "waves",
            B::WavesBn => "wavesbn",
            B::Near => "near",
        }
    }
    fn field(self) -> &'static str {
        if self == B::Waves { "bls_fr" } else { "bn_fr" }
    }
    fn prime(self) -> BigUint {
        if self == B::Waves { modulus::<fawkes_crypto::native::bls12_381::Fr>() } else { modulus::<fawkes_crypto::native::bn256::Fr>() }
    }
    fn ext(self) -> &'static str {
        if self == B::Eth { "json" } else { "txt" }
    }
}
fn qmod() -> BigUint {
    modulus::<pairing::bn256::Fq>()
}
/// role and number, such as "v1"; number one is the default name of the commands
fn file(b: B, f: &str) -> String {
    let one = f.ends_with('1');
    let (stem, ext) = match &f[..1] {
        "p" => ("params", "bin"),
        "v" => ("verification_key", b.ext()),
        "o" => ("object", "json"),
        "r" => ("proof", b.ext()),
        "i" => ("inputs", b.ext()),
        _ => ("verifier", "sol"),
    };
    if one { format!("{}.{}", stem, ext) } else { format!("sub/{}-{}.{}", stem, &f[1..], ext) }
}
fn long(role: &str) -> &'static str {
    match role {
        "p" => "params",
        "v" => "vk",
        "o" => "object",
        "r" => "proof",
        "i" => "inputs",
        _ => "solidity",
    }
}
fn be32(x: &BigUint) -> Vec<u8> {
    let b = x.to_bytes_be();
    let mut v = vec![0; 32usize.saturating_sub(b.len())];
    v.extend(b);
    v
}
fn le32(x: &BigUint) -> Vec<u8> {
    let mut v = be32(x);
    v.reverse();
    v
}
fn put_inputs(b: B, x: &[BigUint]) -> Vec<u8> {
    match b {
        B::Eth => serde_json::to_vec(&x.iter().map(|n| n.to_string()).collect::<Vec<_>>()).unwrap(),
        B::Near => {
            let mut v = (x.len() as u32).to_le_bytes().to_vec();
            x.iter().for_each(|n| v.extend(le32(n)));
            base64::encode(&v).into_bytes()
        }
        _ => base64::encode(&x.iter().flat_map(|n| be32(n)).collect::<Vec<u8>>()).into_bytes(),
    }
}
fn get_inputs(b: B, text: &[u8]) -> Option<Vec<BigUint>> {
    if b == B::Eth {
        return serde_json::from_slice::<Vec<Value>>(text).ok()?.iter().map(dec).collect();
    }
    let v = base64::decode(text).ok()?;
    Some(if b == B::Near {
        v.get(4..)?.chunks(32).map(BigUint::from_bytes_le).collect()
    } else {
        v.chunks(32).map(BigUint::from_bytes_be).collect()
    })
}
/// the form of a file: a JSON tree or the bytes behind base64; "bad" if neither
fn form(b: B, text: &[u8]) -> Value {
    let s = String::from_utf8_lossy(text).to_string();
    if b == B::Eth {
        match serde_json::from_str::<Value>(&s) {
            Ok(v) => json!({"k":"doc","doc":tree(&v)}),
            _ => json!({"k":"bad"}),
        }
    } else {
        match base64::decode(&s) {
            Ok(v) => json!({"k":"bin","bs":v}),
            _ => json!({"k":"bad"}),
        }
    }
}
fn dec(v: &Value) -> Option<BigUint> {
    BigUint::parse_bytes(v.as_str()?.as_bytes(), 10)
}
/// coordinates of the proof in a file, [A, B, C] with B as real, imaginary; empty if there are none
fn proof_coords(b: B, text: &[u8]) -> Option<Value> {
    let s = String::from_utf8_lossy(text).to_string();
    let n = |x: Vec<BigUint>| {
        // x: ax, ay, bx re, bx im, by re, by im, cx, cy
        let e = |i: usize| big(&x[i]);
        json!([[e(0), e(1)], [[e(2), e(3)], [e(4), e(5)]], [e(6), e(7)]])
    };
    match b {
        B::Eth => {
            let v: Value = serde_json::from_str(&s).ok()?;
            let g = |p: &[&str]| {
                let mut t = &v;
                for k in p {
                    t = if let Ok(i) = k.parse::<usize>() { t.get(i)? } else { t.get(*k)? };
                }
                dec(t)
            };
            Some(n(vec![g(&["a", "0"])?, g(&["a", "1"])?, g(&["b", "0", "1"])?, g(&["b", "0", "0"])?, g(&["b", "1", "1"])?,
                g(&["b", "1", "0"])?, g(&["c", "0"])?, g(&["c", "1"])?]))
        }
        B::Near => {
            let v = base64::decode(&s).ok()?;
            if v.len() != 256 {
                return None;
            }
            Some(n(v.chunks(32).map(BigUint::from_bytes_le).collect()))
        }
        B::Waves => {
            let v = base64::decode(&s).ok()?;
            let p = bellman::groth16::Proof::<pairing::bls12_381::Bls12>::read(&v[..]).ok()?;
            Some(json!([pt(&p.a, 1), pt(&p.b, 2), pt(&p.c, 1)]))
        }
        B::WavesBn => {
            let v = base64::decode(&s).ok()?;
            let p = bellman::groth16::Proof::<pairing::bn256::Bn256>::read(&v[..]).ok()?;
            Some(json!([pt(&p.a, 1), pt(&p.b, 2), pt(&p.c, 1)]))
        }
    }
}
/// the verifying key inside a parameters file
fn params_key(b: B, data: &[u8]) -> Option<Value> {
    macro_rules! key {
        ($e:ty) => {{
            let p = bellman::groth16::Parameters::<$e>::read(data, false).ok()?;
            json!([pt(&p.vk.alpha_g1, 1), pt(&p.vk.beta_g2, 2), pt(&p.vk.gamma_g2, 2), pt(&p.vk.delta_g2, 2),
                p.vk.ic.iter().map(|x| pt(x, 1)).collect::<Vec<_>>()])
        }};
    }
    Some(if b == B::Waves { key!(pairing::bls12_381::Bls12) } else { key!(pairing::bn256::Bn256) })
}
/// the proof file with A negated
fn negated(b: B, text: &[u8]) -> Option<Vec<u8>> {
    let s = String::from_utf8_lossy(text).to_string();
    match b {
        B::Eth => {
            let mut v: Value = serde_json::from_str(&s).ok()?;
            let y = dec(v.get("a")?.get(1)?)?;
            v["a"][1] = json!((qmod() - y).to_string());
            Some(v.to_string().into_bytes())
        }
        B::Near => {
            let mut v = base64::decode(&s).ok()?;
            let y = qmod() - BigUint::from_bytes_le(v.get(32..64)?);
            v[32..64].copy_from_slice(&le32(&y));
            Some(base64::encode(&v).into_bytes())
        }
        _ => {
            let mut v = base64::decode(&s).ok()?;
            *v.get_mut(0)? ^= if b == B::Waves { 32 } else { 128 };
            Some(base64::encode(&v).into_bytes())
        }
    }
}
/// the proof file with an A that is no point
fn offcurve(b: B, text: &[u8]) -> Option<Vec<u8>> {
    let s = String::from_utf8_lossy(text).to_string();
    match b {
        B::Eth => {
            let mut v: Value = serde_json::from_str(&s).ok()?;
            let y = dec(v.get("a")?.get(1)?)?;
            v["a"][1] = json!(((y + 1u32) % qmod()).to_string());
            Some(v.to_string().into_bytes())
        }
        B::Near => {
            let mut v = base64::decode(&s).ok()?;
            let y = (BigUint::from_bytes_le(v.get(32..64)?) + 1u32) % qmod();
            v[32..64].copy_from_slice(&le32(&y));
            Some(base64::encode(&v).into_bytes())
        }
        _ => {
            let mut v = base64::decode(&s).ok()?;
            for x in v.iter_mut().take(24) {
                *x = 255;
            }
            Some(base64::encode(&v).into_bytes())
        }
    }
}

struct World {
    b: B,
    dir: PathBuf,
    exe: PathBuf,
    r: R,
}
impl World {
    fn path(&self, f: &str) -> PathBuf {
        self.dir.join(file(self.b, f))
    }
    fn read(&self, f: &str) -> Option<Vec<u8>> {
        fs::read(self.path(f)).ok()
    }
    fn write(&self, f: &str, d: &[u8]) {
        fs::write(self.path(f), d).unwrap()
    }
    fn all(&self) -> BTreeMap<PathBuf, Vec<u8>> {
        fn walk(d: &Path, m: &mut BTreeMap<PathBuf, Vec<u8>>) {
            for e in fs::read_dir(d).unwrap() {
                let p = e.unwrap().path();
                if p.is_dir() {
                    walk(&p, m)
                } else {
                    m.insert(p.clone(), fs::read(&p).unwrap());
                }
            }
        }
        let mut m = BTreeMap::new();
        walk(&self.dir, &mut m);
        m
    }
    /// runs a command; the outcome and the changed files
    fn cmd(&mut self, name: &str, files: &[&str]) -> (String, Value) {
        let mut a = vec![self.b.name().to_string(), name.to_string()];
        for f in files {
            let role = &f[..1];
            if f.ends_with('1') && self.r.bool() {
                continue;
            }
            a.push(if self.r.bool() { format!("-{}", role) } else { format!("--{}", long(role)) });
            a.push(file(self.b, f));
        }
        let before = self.all();
        let o = Command::new(&self.exe).args(&a).current_dir(&self.dir).output().unwrap();
        let after = self.all();
        let mut ch = vec![];
        for f in ["p1", "p2", "v1", "v2", "o1", "o2", "r1", "r2", "i1", "i2", "s1", "s2"].iter() {
            let p = self.path(f);
            if before.get(&p) != after.get(&p) {
                ch.push(f.to_string());
            }
        }
        let known: Vec<PathBuf> =
            ["p1", "p2", "v1", "v2", "o1", "o2", "r1", "r2", "i1", "i2", "s1", "s2"].iter().map(|f| self.path(f)).collect();
        if after.keys().any(|k| !known.contains(k)) {
            ch.push("other".to_string());
        }
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let out = if !o.status.success() {
            if o.status.code() == Some(2) {
                // not a panic: the stand-in parser refused the command line
                eprintln!("driver: {:?} {}", a, String::from_utf8_lossy(&o.stderr));
                std::process::exit(2);
            }
            "fail"
        } else if name == "verify" {
            match (text.contains("true"), text.contains("false")) {
                (true, false) => "true",
                (false, true) => "false",
                _ => "odd",
            }
        } else {
            "ok"
        };
        (out.to_string(), json!(ch))
    }
    fn value(&mut self) -> BigUint {
        let p = self.b.prime();
        match self.r.below(6) {
            0 => BigUint::from(self.r.below(4)),
            1 => p - BigUint::from(1 + self.r.below(3)),
            2 => BigUint::from(self.r.below(1 << 40)),
            _ => self.r.big(40) % p,
        }
    }
    /// writes an object of the given kind; its six numbers, or nothing if it is no object
    fn object(&mut self, f: &str, kind: &str) -> Option<Vec<BigUint>> {
        let p = self.b.prime();
        let (mut x, y, free) = (self.value(), self.value(), self.value());
        let free = match self.r.below(4) {
            0 => BigUint::from(1u32),
            1 => BigUint::from(0u32),
            _ => free,
        };
        if self.r.below(4) == 0 {
            x = BigUint::from(0u32);
        }
        let mut h = &x * &y % &p;
        let mut v0 = (&x + BigUint::from(3u32) * &y) % &p;
        let mut b = x == BigUint::from(0u32);
        match kind {
            "bad1" => h = (h + 1u32) % &p,
            "bad2" => v0 = (v0 + 1u32) % &p,
            "bad3" => b = !b,
            _ => {}
        }
        let s = |n: &BigUint| n.to_string();
        let mut d = json!([{"h":s(&h),"v":[s(&v0),s(&free)],"b":b},{"x":s(&x),"y":s(&y)}]);
        let mut ok = true;
        match kind {
            "over" => {
                d[0]["h"] = json!(s(&(h.clone() + &p)));
                ok = false
            }
            "vec3" => {
                d[0]["v"] = json!([s(&v0), s(&free), s(&free)]);
                ok = false
            }
            "vec1" => {
                d[0]["v"] = json!([s(&v0)]);
                ok = false
            }
            "nosec" => {
                d[1] = json!({"x":s(&x)});
                ok = false
            }
            "number" => {
                d[1]["x"] = json!(5);
                ok = false
            }
            _ => {}
        }
        self.write(f, serde_json::to_string(&d).unwrap().as_bytes());
        if ok {
            Some(vec![h, v0, free, BigUint::from(b as u32), x, y])
        } else {
            None
        }
    }
    fn step(&mut self, op: &Value, last: &mut BTreeMap<String, Vec<BigUint>>) -> Value {
        let g = |k: &str| op[k].as_str().unwrap_or("").to_string();
        let mut e = op.clone();
        let none = json!({"k":"bad"});
        match g("o").as_str() {
            "setup" => {
                let (p, v) = (g("p"), g("v"));
                let (out, ch) = self.cmd("setup", &[&p, &v]);
                e["out"] = json!(out);
                e["ch"] = ch;
                e["vk"] = self.read(&p).and_then(|d| params_key(self.b, &d)).unwrap_or(json!([]));
                e["file"] = self.read(&v).map(|d| form(self.b, &d)).unwrap_or(none);
            }
            "prove" => {
                let (p, o, r, i) = (g("p"), g("ob"), g("r"), g("i"));
                let (out, ch) = self.cmd("prove", &[&p, &o, &r, &i]);
                e["out"] = json!(out);
                e["ch"] = ch;
                if out == "ok" {
                    let t = self.read(&r).unwrap_or(vec![]);
                    e["pr"] = proof_coords(self.b, &t).unwrap_or(json!([]));
                    e["file"] = form(self.b, &t);
                    e["inp"] = form(self.b, &self.read(&i).unwrap_or(vec![]));
                }
            }
            "verify" => {
                let (v, r, i) = (g("v"), g("r"), g("i"));
                let (out, ch) = self.cmd("verify", &[&v, &r, &i]);
                e["out"] = json!(out);
                e["ch"] = ch;
            }
            "gensol" => {
                let (v, s) = (g("v"), g("s"));
                let (out, ch) = self.cmd("generate-verifier", &[&v, &s]);
                e["out"] = json!(out);
                e["ch"] = ch;
                // the contract of the key in the file (what that contract does is C20)
                let want = self.read(&v).and_then(|d| serde_json::from_slice(&d).ok()).map(|k| {
                    fawkes_crypto::helpers::groth16::ethereum::generate_sol_data(&k).into_bytes()
                });
                e["same"] = json!(want.is_some() && want == self.read(&s));
            }
            "gentest" => {
                let o = g("ob");
                let (out, ch) = self.cmd("generate-test-data", &[&o]);
                e["out"] = json!(out);
                e["ch"] = ch;
                let d: Value = self.read(&o).and_then(|d| serde_json::from_slice(&d).ok()).unwrap_or(json!(0));
                let n = |v: &Value| dec(v).map(|x| big(&x)).unwrap_or(json!([0]));
                e["x"] = json!([n(&d[0]["h"]), n(&d[0]["v"][0]), n(&d[0]["v"][1]),
                    if d[0]["b"] == json!(true) { json!([1]) } else { json!([]) }, n(&d[1]["x"]), n(&d[1]["y"])]);
            }
            "wobj" => {
                let (f, kind) = (g("f"), g("kind"));
                let x = self.object(&f, &kind);
                e["wf"] = json!(x.is_some());
                e["x"] = json!(x.unwrap_or(vec![]).iter().map(big).collect::<Vec<_>>());
            }
            "winp" => {
                // the inputs of the most recent object of the history, altered
                let (f, m) = (g("f"), g("m"));
                let k = op["n"].as_u64().unwrap() as usize % 4;
                let p = self.b.prime();
                let mut x: Vec<BigUint> = last.get("pub").cloned().unwrap_or(vec![BigUint::from(1u32); 4]);
                let mut wf = true;
                if m == "alt" {
                    // what the file itself holds, one number in another form
                    x = self.read(&f).and_then(|d| get_inputs(self.b, &d)).filter(|x| x.len() == 4).unwrap_or(x);
                }
                match m.as_str() {
                    "inc" => x[k] = (&x[k] + 1u32) % &p,
                    "swap" => x.swap(k, (k + 1) % 4),
                    "short" => {
                        x.remove(k);
                    }
                    "long" => x.insert(k, BigUint::from(0u32)),
                    "empty" => x.clear(),
                    "over" | "alt" => {
                        // often the other form of a small number
                        let k = (0..4).map(|j| (k + j) % 4).find(|&j| x[j] <= BigUint::from(1u32)).unwrap_or(k);
                        x[k] = &x[k] + &p;
                        wf = false
                    }
                    "huge" => {
                        x[k] = (BigUint::from(1u32) << 256) - 1u32;
                        wf = false
                    }
                    "ragged" => wf = false,
                    "max" => x[k] = &p - 1u32,
                    _ => {}
                }
                let mut text = put_inputs(self.b, &x);
                if m == "ragged" {
                    // one more element that is no number, or some bytes more or less than whole numbers
                    text = match self.b {
                        B::Eth => {
                            let t = String::from_utf8(text).unwrap();
                            let more = ["5", "\"\"", "null", "[]", "\"0x1\"", "true"][self.r.below(6) as usize];
                            format!("{},{}]", &t[..t.len() - 1], more).into_bytes()
                        }
                        _ => {
                            let mut v = base64::decode(&text).unwrap();
                            let n = 1 + self.r.below(30) as usize;
                            if self.r.bool() {
                                v.extend(vec![0; n])
                            } else {
                                v.truncate(v.len() - n)
                            }
                            base64::encode(&v).into_bytes()
                        }
                    };
                }
                self.write(&f, &text);
                e["wf"] = json!(wf);
                e["x"] = json!(x.iter().map(big).collect::<Vec<_>>());
            }
            "copy" => {
                match self.read(&g("f")) {
                    Some(d) => self.write(&g("g"), &d),
                    None => {
                        let _ = fs::remove_file(self.path(&g("g")));
                    }
                };
            }
            "pad" => {
                let mut d = self.read(&g("f")).unwrap_or(vec![]);
                d.extend("\n{ junk }\n".repeat(2000).bytes());
                self.write(&g("f"), &d);
            }
            "tail" => {
                let d = self.read(&g("f")).unwrap_or(vec![]);
                let d = match self.b {
                    B::Eth => Some([&d[..], &[b" 1", b" }", b",0", b" {"][self.r.below(4) as usize][..]].concat()),
                    B::Near => base64::decode(&d).ok().map(|mut v| {
                        v.extend(vec![0; 1 + self.r.below(64) as usize]);
                        base64::encode(&v).into_bytes()
                    }),
                    // keys and proofs of the other bindings are not read to the end
                    _ if g("f").starts_with("i") => base64::decode(&d).ok().map(|mut v| {
                        v.extend(vec![0; 1 + self.r.below(31) as usize]);
                        base64::encode(&v).into_bytes()
                    }),
                    _ => None,
                };
                e["done"] = json!(d.is_some());
                if let Some(d) = d {
                    self.write(&g("f"), &d);
                }
            }
            "del" => {
                let _ = fs::remove_file(self.path(&g("f")));
            }
            "cut" => {
                if let Some(d) = self.read(&g("f")) {
                    // a length that is neither base64 nor JSON
                    let n = d.len() / 3 / 4 * 4 + 1;
                    let d = if d.len() < 3 { vec![b'x'] } else { d[..n].to_vec() };
                    self.write(&g("f"), &d);
                }
            }
            "negp" | "offp" => {
                if let Some(d) = self.read(&g("f")).filter(|d| proof_coords(self.b, d).is_some()) {
                    let d = if g("o") == "negp" { negated(self.b, &d) } else { offcurve(self.b, &d) };
                    if let Some(d) = d {
                        self.write(&g("f"), &d);
                    }
                }
            }
            s => panic!("unknown operation {}", s),
        }
        // numbers the next inputs are made from
        if g("o") == "wobj" && e["wf"] == json!(true) || g("o") == "gentest" {
            let v: Vec<BigUint> = e["x"].as_array().unwrap()[..4].iter().map(|l| {
                let mut x = BigUint::from(0u32);
                for d in l.as_array().unwrap().iter().rev() {
                    x = (x << 15) + BigUint::from(d.as_u64().unwrap());
                }
                x
            }).collect();
            last.insert("pub".into(), v);
        }
        e
    }
}

pub fn run(c: &Ctx) {
    let f = fs::File::open(format!("{}/programs.ndjson", c.dir)).unwrap();
    let progs: Vec<Value> = std::io::BufReader::new(f).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    let bs = [B::Eth, B::Waves, B::WavesBn, B::Near];
    let per = c.n(120, 400);
    let exe = std::env::current_exe().unwrap();
    let hs: Vec<_> = (0..4usize)
        .map(|k| {
            let (b, exe, dir, seed) = (bs[k], exe.clone(), c.dir.clone(), c.seed);
            let mine: Vec<Value> = progs.iter().skip(k).step_by(4).take(per).cloned().collect();
            std::thread::spawn(move || {
                let mut o = Out::create(&dir, &format!("{}.ndjson", b.name()));
                for (n, p) in mine.iter().enumerate() {
                    let scratch = PathBuf::from(format!("{}/scratch-{}-{}", dir, b.name(), n));
                    fs::create_dir_all(scratch.join("sub")).unwrap();
                    let mut w = World { b, dir: scratch.clone(), exe: exe.clone(), r: R::new(seed, 2100 + (k * 1000 + n) as u32) };
                    let mut last = BTreeMap::new();
                    let ops: Vec<Value> = p["ops"].as_array().unwrap().iter()
                        .filter(|op| b == B::Eth || op["o"] != json!("gensol"))
                        .map(|op| w.step(op, &mut last)).collect();
                    o.ev(json!({"b":b.name(),"eng":if b == B::Waves { "bls" } else { "bn" },"f":b.field(),"ops":ops}));
                    fs::remove_dir_all(&scratch).unwrap();
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            eprintln!("driver: unexpected panic");
            std::process::exit(2);
        }
    }
}
