//! C21: programs made of the library's command-line binding macros, and the driver that replays
//! histories of commands over files in scratch directories.
//!   cli <binding> <command> <options>      runs one command of a binding in the current directory
//!   cli C21 <dir> <seed> <tier>            replays <dir>/programs.ndjson, writes <dir>/<binding>.ndjson
#![allow(dead_code, unused_imports)]
#[macro_use]
extern crate ff;
#[path = "../../harness/src/c03.rs"]
mod c03;
#[path = "../../harness/src/c04.rs"]
mod c04;
mod driver;
#[path = "../../harness/src/enc.rs"]
mod enc;
#[path = "../../harness/src/m127.rs"]
mod m127;
#[path = "../../harness/src/tiny.rs"]
mod tiny;

mod app {
    use fawkes_crypto::circuit::{bool::CBool, num::CNum};
    use fawkes_crypto::core::{cs::ConstraintSystem, field::Field, signal::Signal, sizedvec::SizedVec};
    use fawkes_crypto::native::num::Num;
    use fawkes_crypto_derive::Signal;
    use fawkes_crypto::{groth16_ethereum_bindings, groth16_near_bindings, groth16_waves_bindings, groth16_waves_bindings_bn256};
    use serde::{Deserialize, Serialize};
    use typenum::U2;

    #[derive(Clone, Serialize, Deserialize)]
    #[serde(bound(serialize = "", deserialize = ""))]
    pub struct Pub<F: Field> {
        pub h: Num<F>,
        pub v: SizedVec<Num<F>, U2>,
        pub b: bool,
    }
    #[derive(Clone, Serialize, Deserialize)]
    #[serde(bound(serialize = "", deserialize = ""))]
    pub struct Sec<F: Field> {
        pub x: Num<F>,
        pub y: Num<F>,
    }
    #[derive(Clone, Signal)]
    #[Value = "Pub<CS::F>"]
    pub struct CPub<'a, CS: ConstraintSystem> {
        pub h: CNum<'a, CS>,
        pub v: SizedVec<CNum<'a, CS>, U2>,
        pub b: CBool<'a, CS>,
    }
    #[derive(Clone, Signal)]
    #[Value = "Sec<CS::F>"]
    pub struct CSec<'a, CS: ConstraintSystem> {
        pub x: CNum<'a, CS>,
        pub y: CNum<'a, CS>,
    }
    pub struct Params(u64);
    pub static PARAMS: Params = Params(3);
    /// h = x y, v[0] = x + 3 y, b tells whether x = 0; v[1] is free
    pub fn main_circuit<'a, CS: ConstraintSystem>(p: &CPub<'a, CS>, s: &CSec<'a, CS>, k: &Params) {
        (&s.x * &s.y).assert_eq(&p.h);
        (&s.x + &s.y * Num::from(k.0)).assert_eq(&p.v[0]);
        s.x.is_zero().assert_eq(&p.b);
    }
    pub fn test_data<F: Field>() -> (Pub<F>, Sec<F>) {
        let n = |k: u64| Num::<F>::from(k);
        (Pub { h: n(77), v: vec![n(32), n(1000000007)].into_iter().collect(), b: false }, Sec { x: n(11), y: n(7) })
    }
    type BnPub = Pub<pairing::bn256::Fr>;
    type BnSec = Sec<pairing::bn256::Fr>;
    type BlsPub = Pub<pairing::bls12_381::Fr>;
    type BlsSec = Sec<pairing::bls12_381::Fr>;
    groth16_ethereum_bindings!(eth, BnPub, CPub, BnSec, CSec, PARAMS, main_circuit, test_data);
    groth16_waves_bindings!(waves, BlsPub, CPub, BlsSec, CSec, PARAMS, main_circuit, test_data);
    groth16_waves_bindings_bn256!(wavesbn, BnPub, CPub, BnSec, CSec, PARAMS, main_circuit, test_data);
    groth16_near_bindings!(near, BnPub, CPub, BnSec, CSec, PARAMS, main_circuit, test_data);

    pub fn run(b: &str) {
        match b {
            "eth" => eth::cli_main(),
            "waves" => waves::cli_main(),
            "wavesbn" => wavesbn::cli_main(),
            "near" => near::cli_main(),
            _ => std::process::exit(2),
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] != "C21" {
        app::run(&a[1]);
        return;
    }
    let ctx = enc::Ctx { dir: a[2].clone(), seed: a[3].parse().unwrap(), thorough: a[4] == "thorough" };
    driver::run(&ctx);
}
