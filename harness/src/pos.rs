//! Poseidon parameters for the traces.
use crate::enc::*;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;

pub fn eprm<F: HF>(p: &PoseidonParams<F>) -> Value {
    json!({"t":p.t,"f":p.f,"p":p.p,"c":enc_vec(&p.c),
        "m":p.m.iter().map(|r| enc_vec(r)).collect::<Vec<_>>()})
}
/// a file of parameter sets, referred to by 1-based index
pub struct PrmFile(pub Out);
impl PrmFile {
    pub fn add<F: HF>(&mut self, p: &PoseidonParams<F>) -> usize {
        self.0.ev(json!({"field":enc_mod::<F>(),"prm":eprm(p)}));
        self.0.n
    }
}
/// parameters with arbitrary contents (the hash is a function of them)
pub fn rand_params<F: HF>(r: &mut R, t: usize, f: usize, p: usize) -> PoseidonParams<F> {
    let c: Vec<Num<F>> = (0..f + p).map(|_| r.num()).collect();
    let m: Vec<Vec<Num<F>>> = (0..t).map(|_| (0..t).map(|_| r.num()).collect()).collect();
    PoseidonParams { c, m, t, f, p }
}
