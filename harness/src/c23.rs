//! C23: where secrets come from.  Scripts written by TLC (EntropyModel.tla) run in processes of
//! their own, whose system calls for entropy go through a shim that counts, shortens, interrupts
//! or fails them; what they deliver goes into one trace.
use crate::c19::Lc;
use crate::enc::*;
use fawkes_crypto::core::osrng::OsRng;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove, Proof};
use fawkes_crypto::native::ecc::EdwardsPoint;
use fawkes_crypto::native::num::Num;
use pairing::{CurveAffine, CurveProjective, Engine, EncodedPoint};
use rand::{Rand, Rng};
use std::io::{BufRead, Read, Write};

const SHIM: &str = r#"
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/syscall.h>
#include <unistd.h>
/* 0 as it is, 1 one byte at a time, 2 interrupted every other call, 3 failing, 4 failing from the k-th call on */
static volatile int mode, k, calls, odd;
static volatile long got, failed;
static long (*real_syscall)(long, ...);
static ssize_t (*real_read)(int, void *, size_t);
__attribute__((constructor)) static void init(void) {
  real_syscall = dlsym(RTLD_NEXT, "syscall");
  real_read = dlsym(RTLD_NEXT, "read");
}
void entropy_mode(int m, int n) { mode = m; k = n; calls = 0; odd = 0; got = 0; failed = 0; }
long entropy_got(void) { return got; }
long entropy_failed(void) { return failed; }
static int refuse(size_t *n) {
  if (*n == 0) return 0;
  calls++;
  if (mode == 1 && *n > 1) *n = 1;
  if (mode == 2 && (odd ^= 1)) { errno = EINTR; return 1; }
  if (mode == 3 || (mode == 4 && calls >= k)) { failed++; errno = EIO; return 1; }
  return 0;
}
static long count(long r) { if (r > 0) __sync_fetch_and_add(&got, r); return r; }
long syscall(long nr, ...) {
  va_list a; va_start(a, nr);
  long x[6]; for (int i = 0; i < 6; i++) x[i] = va_arg(a, long);
  va_end(a);
  if (!real_syscall) init();
  if (nr == SYS_getrandom) {
    size_t n = x[1];
    if (refuse(&n)) return -1;
    return count(real_syscall(nr, x[0], n, x[2]));
  }
  return real_syscall(nr, x[0], x[1], x[2], x[3], x[4], x[5]);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!real_syscall) init();
  if (refuse(&n)) return -1;
  return count(real_syscall(SYS_getrandom, b, n, f));
}
int getentropy(void *b, size_t n) {
  size_t done = 0;
  while (done < n) {
    ssize_t r = getrandom((char *)b + done, n - done, 0);
    if (r < 0) { if (errno == EINTR) continue; return -1; }
    done += r;
  }
  return 0;
}
ssize_t read(int fd, void *b, size_t n) {
  struct stat s;
  if (!real_read) init();
  if (fstat(fd, &s) == 0 && S_ISCHR(s.st_mode) && major(s.st_rdev) == 1 && (minor(s.st_rdev) == 8 || minor(s.st_rdev) == 9)) {
    if (refuse(&n)) return -1;
    return count(real_read(fd, b, n));
  }
  return real_read(fd, b, n);
}
"#;

extern "C" {
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
}
struct Shim {
    mode: extern "C" fn(i32, i32),
    got: extern "C" fn() -> i64,
    failed: extern "C" fn() -> i64,
}
fn shim() -> Option<Shim> {
    unsafe {
        let f = |n: &[u8]| dlsym(std::ptr::null_mut(), n.as_ptr());
        let m = f(b"entropy_mode\0");
        if m.is_null() {
            return None;
        }
        Some(Shim {
            mode: std::mem::transmute(m),
            got: std::mem::transmute(f(b"entropy_got\0")),
            failed: std::mem::transmute(f(b"entropy_failed\0")),
        })
    }
}

type V16 = [u16; 8];
fn chunk(b: &[u8]) -> V16 {
    let mut v = [0u16; 8];
    for i in 0..8 {
        v[i] = (b[2 * i] as u16) << 8 | b[2 * i + 1] as u16;
    }
    v
}
/// 128 bits that name a longer value (FNV-1a of its bytes; a name, not a defence)
fn name(b: &[u8]) -> V16 {
    let mut h: u128 = 0x6c62272e07bb014262b821756295c58d;
    for x in b {
        h = (h ^ *x as u128).wrapping_mul(0x0000000001000000000000000000013b);
    }
    chunk(&h.to_be_bytes())
}
fn named<C: CurveAffine>(p: &C) -> V16 {
    name(p.into_uncompressed().as_ref())
}
fn low128<F: HF>(n: &Num<F>) -> V16 {
    let b = to_big(n).to_bytes_le();
    let mut x = [0u8; 16];
    for (i, y) in b.iter().take(16).enumerate() {
        x[i] = *y;
    }
    chunk(&x)
}
fn words(r: &mut OsRng) -> V16 {
    let mut b = vec![];
    for _ in 0..4 {
        b.extend_from_slice(&r.next_u32().to_be_bytes());
    }
    chunk(&b)
}

fn key_values<E: Engine>(p: &bellman::groth16::Parameters<E>) -> Vec<V16> {
    let k = &p.vk;
    let mut v = vec![named(&k.alpha_g1), named(&k.beta_g1), named(&k.delta_g1), named(&k.beta_g2), named(&k.gamma_g2), named(&k.delta_g2)];
    v.extend(k.ic.iter().map(named));
    v.extend(p.h.iter().map(named));
    v.extend(p.l.iter().map(named));
    // the same scalar in both groups: pairings with other elements tell
    v.push(name(format!("{}", E::pairing(k.alpha_g1, k.delta_g2)).as_bytes()));
    v.push(name(format!("{}", E::pairing(k.delta_g1, k.gamma_g2)).as_bytes()));
    v
}
/// the elements of proofs of one statement, and the differences of their blinding factors
fn proof_values<E: Engine>(p: &bellman::groth16::Parameters<E>, v: &[Proof<E>]) -> Vec<V16> {
    let mut out = vec![];
    for (i, x) in v.iter().enumerate() {
        out.extend_from_slice(&[named(&x.0.a), named(&x.0.b), named(&x.0.c)]);
        if i > 0 {
            let mut a = v[i - 1].0.a.into_projective();
            a.sub_assign(&x.0.a.into_projective());
            let mut b = v[i - 1].0.b.into_projective();
            b.sub_assign(&x.0.b.into_projective());
            out.push(name(format!("{}", E::pairing(a, p.vk.delta_g2)).as_bytes()));
            out.push(name(format!("{}", E::pairing(p.vk.delta_g1, b)).as_bytes()));
        }
    }
    out
}
fn proofs<E: Engine>(p: &bellman::groth16::Parameters<E>, n: usize) -> Vec<V16>
where
    E::Fr: HF,
{
    let w = Some([of_u64(11), of_u64(23), of_u64(7), of_u64(3)]);
    let v: Vec<Proof<E>> = (0..=n).map(|_| prove::<E, Lc<E::Fr, 1>>(&Lc { w: w.clone() }, p)).collect();
    proof_values(p, &v)
}

fn load<E: Engine>(c: &Ctx, e: &str) -> bellman::groth16::Parameters<E> {
    let f = std::fs::File::open(format!("{}/params-{}", c.dir, e)).unwrap();
    bellman::groth16::Parameters::read(std::io::BufReader::new(f), false).unwrap()
}
fn save<E: Engine>(c: &Ctx, o: &mut Out, e: &str)
where
    E::Fr: HF,
{
    let p = generate_keys::<E, Lc<E::Fr, 1>>();
    p.write(std::fs::File::create(format!("{}/params-{}", c.dir, e)).unwrap()).unwrap();
    o.ev(json!({"t":"op","op":"setup","out":"ok","got":16,"failed":0,"bytes":16,"vals":key_values(&p)}));
}
/// the script on standard input, observations on standard output
pub fn child(c: &Ctx) {
    use fawkes_crypto::native::{bls12_381, bn256};
    use pairing::{bls12_381::Bls12, bn256::Bn256};
    let s = shim().expect("shim");
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let script: Vec<Value> = serde_json::from_str(&text).unwrap();
    let jp = bn256::JubJubBN256::new();
    let (mut kbn, mut kbls) = (None, None);
    let mut rng = OsRng::new();
    for op in script {
        let o = op["o"].as_str().unwrap();
        let n = op["n"].as_u64().unwrap() as usize;
        let m = match op["m"].as_str().unwrap() {
            "short" => 1,
            "eintr" => 2,
            "fail" => 3,
            "failat" => 4,
            _ => 0,
        };
        println!("{}", json!({"o": o, "n": n, "m": m, "k": op["k"], "begin": true}));
        (s.mode)(m, op["k"].as_i64().unwrap() as i32);
        let r = guard(|| -> (usize, Vec<V16>) {
            match o {
                "u32" => (16 * n, (0..n).map(|_| words(&mut rng)).collect()),
                "u64" => (
                    16 * n,
                    (0..n)
                        .map(|_| {
                            let (a, b) = (OsRng::new().next_u64(), rng.next_u64());
                            chunk(&((a as u128) << 64 | b as u128).to_be_bytes())
                        })
                        .collect(),
                ),
                "fill" => {
                    let mut b = vec![0u8; 16 * n + n % 16];
                    rng.fill_bytes(&mut b);
                    (16 * n, b.chunks(16).filter(|c| c.len() == 16).map(chunk).collect())
                }
                "num_bn" => (16 * n, (0..n).map(|_| low128(&Num::<bn256::Fr>::rand(&mut rng))).collect()),
                "num_bls" => (16 * n, (0..n).map(|_| low128(&Num::<bls12_381::Fr>::rand(&mut rng))).collect()),
                "sc_bn" => (16 * n, (0..n).map(|_| low128(&Num::<bn256::Fs>::rand(&mut rng))).collect()),
                "point" => (16, vec![low128(&EdwardsPoint::<bn256::Fr>::rand(&mut rng, &jp).x)]),
                "threads" => {
                    let t: Vec<_> = (0..4)
                        .map(|_| std::thread::spawn(move || (0..n).map(|_| words(&mut OsRng::new())).collect::<Vec<_>>()))
                        .collect();
                    let mut v = vec![];
                    let mut bad = false;
                    for x in t {
                        match x.join() {
                            Ok(y) => v.extend(y),
                            Err(_) => bad = true,
                        }
                    }
                    if bad {
                        panic!("a thread")
                    }
                    (16 * n, v)
                }
                "setup_bn" => {
                    kbn = Some(generate_keys::<Bn256, Lc<bn256::Fr, 1>>());
                    (16, key_values(kbn.as_ref().unwrap()))
                }
                "setup_bls" => {
                    kbls = Some(generate_keys::<Bls12, Lc<bls12_381::Fr, 1>>());
                    (16, key_values(kbls.as_ref().unwrap()))
                }
                "load_bn" => {
                    kbn = Some(load(c, "bn"));
                    (0, vec![])
                }
                "load_bls" => {
                    kbls = Some(load(c, "bls"));
                    (0, vec![])
                }
                "prove_bn" => (16, proofs(kbn.as_ref().unwrap(), n)),
                "prove_bls" => (16, proofs(kbls.as_ref().unwrap(), n)),
                _ => unreachable!(),
            }
        });
        let (got, failed) = ((s.got)(), (s.failed)());
        (s.mode)(0, 0);
        println!(
            "{}",
            json!({"t":"op","op":o,"n":n,"m":m,"k":op["k"],"out":if r.is_some() {"ok"} else {"panic"},"got":got,"failed":failed.min(1000),
                "bytes":r.as_ref().map(|x| x.0).unwrap_or(0),"vals":r.map(|x| x.1).unwrap_or_default()})
        );
    }
}

fn bits<T>(n: usize, f: impl Fn(&T) -> V16, mut draw: impl FnMut() -> T) -> Value {
    let v: Vec<Vec<u8>> = (0..n)
        .map(|_| f(&draw()).iter().flat_map(|w| (0..16).map(move |i| (w >> i & 1) as u8)).collect())
        .collect();
    json!({"t":"bits","b":v})
}

pub fn run(c: &Ctx) {
    use fawkes_crypto::native::{bls12_381, bn256};
    let so = format!("{}/entropy.so", c.dir);
    std::fs::write(format!("{}/entropy.c", c.dir), SHIM).unwrap();
    let ok = std::process::Command::new("cc")
        .args(&["-O1", "-fPIC", "-shared", "-o", &so, &format!("{}/entropy.c", c.dir), "-ldl"])
        .status()
        .map(|s| s.success())
        .unwrap_or(false);
    if !ok {
        eprintln!("cannot build the shim");
        std::process::exit(2);
    }
    let mut o = c.out("fresh.ndjson");
    save::<pairing::bn256::Bn256>(c, &mut o, "bn");
    save::<pairing::bls12_381::Bls12>(c, &mut o, "bls");
    let file = std::fs::File::open(format!("{}/programs.ndjson", c.dir)).unwrap();
    let exe = std::env::current_exe().unwrap();
    for line in std::io::BufReader::new(file).lines() {
        let line = line.unwrap();
        let mut p = std::process::Command::new(&exe)
            .args(&["C23-child", &c.dir, "1", "quick"])
            .env("LD_PRELOAD", &so)
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        p.stdin.take().unwrap().write_all(line.as_bytes()).unwrap();
        let mut so = p.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(&mut so).lines() {
                if tx.send(l.unwrap_or_default()).is_err() {
                    break;
                }
            }
        });
        o.ev(json!({"t":"start"}));
        let mut open: Option<Value> = None;
        loop {
            // an operation whose source fails may retry for ever; one whose source works may not
            let wait = match open.as_ref().map(|v: &Value| v["m"] == 3 || v["m"] == 4) {
                Some(true) => 10,
                _ => 120,
            };
            match rx.recv_timeout(std::time::Duration::from_secs(wait)) {
                Ok(l) => {
                    let v: Value = match serde_json::from_str(&l) {
                        Ok(v) => v,
                        Err(_) => continue,
                    };
                    if v["begin"] == true {
                        open = Some(v);
                    } else {
                        open = None;
                        o.ev(v);
                    }
                }
                Err(e) => {
                    if let Some(v) = open {
                        // it hangs, or the process died
                        let out = if e == std::sync::mpsc::RecvTimeoutError::Timeout { "hang" } else { "panic" };
                        let failed = if v["m"] == 3 || v["m"] == 4 { 1 } else { 0 };
                        o.ev(json!({"t":"op","op":v["o"],"n":v["n"],"m":v["m"],"k":v["k"],"out":out,"got":0,"failed":failed,
                            "bytes":0,"vals":Vec::<V16>::new()}));
                    }
                    break;
                }
            }
        }
        let _ = p.kill();
        let _ = p.wait();
    }
    let mut r = OsRng::new();
    let mut st = c.out("stats.ndjson");
    for _ in 0..c.n(3, 12) {
        let w: Vec<[u32; 2]> = (0..20000).map(|_| r.next_u32()).map(|x| [x >> 16, x & 65535]).collect();
        st.ev(json!({"t":"words","w":w}));
        let w: Vec<[u32; 2]> = (0..10000).map(|_| r.next_u64()).flat_map(|x| vec![[(x >> 48) as u32, (x >> 32 & 65535) as u32], [(x >> 16 & 65535) as u32, (x & 65535) as u32]]).collect();
        st.ev(json!({"t":"words","w":w}));
        st.ev(bits(256, |v: &V16| *v, || words(&mut r)));
        st.ev(bits(256, |v: &V16| *v, || {
            let mut b = [0u8; 16];
            r.fill_bytes(&mut b);
            chunk(&b)
        }));
        st.ev(bits(256, low128, || Num::<bn256::Fr>::rand(&mut r)));
        st.ev(bits(256, low128, || Num::<bn256::Fs>::rand(&mut r)));
        st.ev(bits(256, low128, || Num::<bls12_381::Fr>::rand(&mut r)));
        st.ev(bits(256, low128, || Num::<bls12_381::Fs>::rand(&mut r)));
    }
}
