//! C17: composite signals.
use crate::enc::*;
use crate::rec::*;
use crate::tiny::Tiny;
use fawkes_crypto::circuit::{
    bool::CBool,
    ecc::{CEdwardsPoint, CMontgomeryPoint},
    num::CNum,
    poseidon::CMerkleProof,
};
use fawkes_crypto::core::{cs::ConstraintSystem, field::Field, signal::Signal, sizedvec::SizedVec};
use fawkes_crypto::native::{
    ecc::{EdwardsPoint, MontgomeryPoint},
    num::Num,
    poseidon::MerkleProof,
};
use fawkes_crypto_derive::Signal;
use typenum::{Unsigned, U1, U2, U3, U130, U33, U4, U5};

// derived structs, named and tuple-like, and nestings
#[derive(Clone, Debug)]
pub struct Named<F: Field> {
    pub a: Num<F>,
    pub flag: bool,
    pub z: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "Named<CS::F>"]
pub struct CNamed<'a, CS: ConstraintSystem> {
    pub a: CNum<'a, CS>,
    pub flag: CBool<'a, CS>,
    pub z: CNum<'a, CS>,
}
#[derive(Clone, Debug)]
pub struct Tup<F: Field>(pub bool, pub Num<F>, pub Num<F>);
#[derive(Clone, Signal)]
#[Value = "Tup<CS::F>"]
pub struct CTup<'a, CS: ConstraintSystem>(pub CBool<'a, CS>, pub CNum<'a, CS>, pub CNum<'a, CS>);
#[derive(Clone, Debug)]
pub struct One<F: Field> {
    pub only: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "One<CS::F>"]
pub struct COne<'a, CS: ConstraintSystem> {
    pub only: CNum<'a, CS>,
}
#[derive(Clone, Debug)]
pub struct Solo<F: Field>(pub Num<F>);
#[derive(Clone, Signal)]
#[Value = "Solo<CS::F>"]
pub struct CSolo<'a, CS: ConstraintSystem>(pub CNum<'a, CS>);
#[derive(Clone, Debug)]
pub struct Nest<F: Field> {
    pub v: SizedVec<Num<F>, U2>,
    pub t: Tup<F>,
    pub b: bool,
}
#[derive(Clone, Signal)]
#[Value = "Nest<CS::F>"]
pub struct CNest<'a, CS: ConstraintSystem> {
    pub v: SizedVec<CNum<'a, CS>, U2>,
    pub t: CTup<'a, CS>,
    pub b: CBool<'a, CS>,
}

// many fields, in an order that is not that of their names
#[derive(Clone, Debug)]
pub struct Wide<F: Field> {
    pub zeta: Num<F>,
    pub b10: bool,
    pub b9: bool,
    pub alpha: Num<F>,
    pub mid: EdwardsPoint<F>,
    pub _x: bool,
    pub a: Num<F>,
    pub v: SizedVec<bool, U2>,
    pub k: Tup<F>,
    pub cs: Num<F>,
    pub acc: bool,
    pub value: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "Wide<CS::F>"]
pub struct CWide<'a, CS: ConstraintSystem> {
    pub zeta: CNum<'a, CS>,
    pub b10: CBool<'a, CS>,
    pub b9: CBool<'a, CS>,
    pub alpha: CNum<'a, CS>,
    pub mid: CEdwardsPoint<'a, CS>,
    pub _x: CBool<'a, CS>,
    pub a: CNum<'a, CS>,
    pub v: SizedVec<CBool<'a, CS>, U2>,
    pub k: CTup<'a, CS>,
    pub cs: CNum<'a, CS>,
    pub acc: CBool<'a, CS>,
    pub value: CNum<'a, CS>,
}
#[derive(Clone, Debug)]
pub struct Row<F: Field>(
    pub Num<F>, pub Num<F>, pub bool, pub Num<F>, pub bool, pub bool, pub Num<F>, pub bool, pub Num<F>, pub bool, pub Num<F>, pub Named<F>, pub bool,
);
#[derive(Clone, Signal)]
#[Value = "Row<CS::F>"]
pub struct CRow<'a, CS: ConstraintSystem>(
    pub CNum<'a, CS>, pub CNum<'a, CS>, pub CBool<'a, CS>, pub CNum<'a, CS>, pub CBool<'a, CS>, pub CBool<'a, CS>, pub CNum<'a, CS>,
    pub CBool<'a, CS>, pub CNum<'a, CS>, pub CBool<'a, CS>, pub CNum<'a, CS>, pub CNamed<'a, CS>, pub CBool<'a, CS>,
);

/// what the harness knows about a composite: its components, in declaration order
pub trait Comp<'a, F: HF>: Signal<'a, Rec<F>> {
    fn kinds() -> String;
    fn comps(&self, out: &mut Vec<N<'a, F>>);
    fn value(v: &mut dyn FnMut() -> Num<F>) -> Self::Value;
    fn flat(v: &Self::Value, out: &mut Vec<Num<F>>);
    fn build(leaf: &mut dyn FnMut() -> N<'a, F>) -> Self;
}
fn bit_of<F: HF>(b: bool) -> Num<F> {
    of_u64(b as u64)
}
impl<'a, F: HF> Comp<'a, F> for CNum<'a, Rec<F>> {
    fn kinds() -> String {
        "n".into()
    }
    fn comps(&self, out: &mut Vec<N<'a, F>>) {
        out.push(self.clone())
    }
    fn value(v: &mut dyn FnMut() -> Num<F>) -> Num<F> {
        v()
    }
    fn flat(v: &Num<F>, out: &mut Vec<Num<F>>) {
        out.push(*v)
    }
    fn build(leaf: &mut dyn FnMut() -> N<'a, F>) -> Self {
        leaf()
    }
}
impl<'a, F: HF> Comp<'a, F> for CBool<'a, Rec<F>> {
    fn kinds() -> String {
        "b".into()
    }
    fn comps(&self, out: &mut Vec<N<'a, F>>) {
        out.push(self.0.clone())
    }
    fn value(v: &mut dyn FnMut() -> Num<F>) -> bool {
        v() != of_u64(0)
    }
    fn flat(v: &bool, out: &mut Vec<Num<F>>) {
        out.push(bit_of(*v))
    }
    fn build(leaf: &mut dyn FnMut() -> N<'a, F>) -> Self {
        CBool(leaf())
    }
}
impl<'a, F: HF, T: Comp<'a, F>, L: Unsigned> Comp<'a, F> for SizedVec<T, L> {
    fn kinds() -> String {
        T::kinds().repeat(L::USIZE)
    }
    fn comps(&self, out: &mut Vec<N<'a, F>>) {
        for i in 0..L::USIZE {
            self.0[i].comps(out)
        }
    }
    fn value(v: &mut dyn FnMut() -> Num<F>) -> Self::Value {
        let x: Vec<T::Value> = (0..L::USIZE).map(|_| T::value(v)).collect();
        SizedVec(x, std::marker::PhantomData)
    }
    fn flat(v: &Self::Value, out: &mut Vec<Num<F>>) {
        for i in 0..L::USIZE {
            T::flat(&v.0[i], out)
        }
    }
    fn build(leaf: &mut dyn FnMut() -> N<'a, F>) -> Self {
        let x: Vec<T> = (0..L::USIZE).map(|_| T::build(leaf)).collect();
        SizedVec(x, std::marker::PhantomData)
    }
}
macro_rules! comp_tuple {
    ($($t:ident . $i:tt),+) => {
        impl<'a, F: HF, $($t: Comp<'a, F>),+> Comp<'a, F> for ($($t,)+) {
            fn kinds() -> String {
                let mut s = String::new();
                $(s += &$t::kinds();)+
                s
            }
            fn comps(&self, out: &mut Vec<N<'a, F>>) {
                $(self.$i.comps(out);)+
            }
            fn value(v: &mut dyn FnMut() -> Num<F>) -> Self::Value {
                ($($t::value(v),)+)
            }
            fn flat(v: &Self::Value, out: &mut Vec<Num<F>>) {
                $($t::flat(&v.$i, out);)+
            }
            fn build(leaf: &mut dyn FnMut() -> N<'a, F>) -> Self {
                ($($t::build(leaf),)+)
            }
        }
    };
}
comp_tuple!(A.0, B.1);
comp_tuple!(A.0, B.1, C.2);
comp_tuple!(A.0, B.1, C.2, D.3);
comp_tuple!(A.0, B.1, C.2, D.3, E.4);
comp_tuple!(A.0, B.1, C.2, D.3, E.4, G.5);
comp_tuple!(A.0, B.1, C.2, D.3, E.4, G.5, H.6, I.7, J.8, K.9, L.10, M.11, O.12, P.13, Q.14, S.15, T.16);
macro_rules! comp_struct {
    ([$($g:tt)*] $t:ty, $v:path, {$($f:ident : $ft:ty),+}, $ctor:path) => {
        comp_struct!([$($g)*] $t, $v, {$($f $f : $ft),+}, $ctor);
    };
    // field name (or number), local name, type
    ([$($g:tt)*] $t:ty, $v:path, {$($i:tt $f:ident : $ft:ty),+}, $ctor:path) => {
        impl<'a, F: HF, $($g)*> Comp<'a, F> for $t {
            fn kinds() -> String {
                let mut s = String::new();
                $(s += &<$ft as Comp<'a, F>>::kinds();)+
                s
            }
            fn comps(&self, out: &mut Vec<N<'a, F>>) {
                $(Comp::<F>::comps(&self.$i, out);)+
            }
            fn value(v: &mut dyn FnMut() -> Num<F>) -> Self::Value {
                $(let $f = <$ft as Comp<'a, F>>::value(v);)+
                $v { $($i: $f),+ }
            }
            fn flat(v: &Self::Value, out: &mut Vec<Num<F>>) {
                $(<$ft as Comp<'a, F>>::flat(&v.$i, out);)+
            }
            fn build(leaf: &mut dyn FnMut() -> N<'a, F>) -> Self {
                $(let $f = <$ft as Comp<'a, F>>::build(leaf);)+
                $ctor { $($i: $f),+ }
            }
        }
    };
}
comp_struct!([] CEdwardsPoint<'a, Rec<F>>, EdwardsPoint, {x: CNum<'a, Rec<F>>, y: CNum<'a, Rec<F>>}, CEdwardsPoint);
comp_struct!([] CMontgomeryPoint<'a, Rec<F>>, MontgomeryPoint, {x: CNum<'a, Rec<F>>, y: CNum<'a, Rec<F>>}, CMontgomeryPoint);
comp_struct!([L: Unsigned] CMerkleProof<'a, Rec<F>, L>, MerkleProof,
    {sibling: SizedVec<CNum<'a, Rec<F>>, L>, path: SizedVec<CBool<'a, Rec<F>>, L>}, CMerkleProof);
comp_struct!([] CNamed<'a, Rec<F>>, Named, {a: CNum<'a, Rec<F>>, flag: CBool<'a, Rec<F>>, z: CNum<'a, Rec<F>>}, CNamed);
comp_struct!([] COne<'a, Rec<F>>, One, {only: CNum<'a, Rec<F>>}, COne);
comp_struct!([] CNest<'a, Rec<F>>, Nest, {v: SizedVec<CNum<'a, Rec<F>>, U2>, t: CTup<'a, Rec<F>>, b: CBool<'a, Rec<F>>}, CNest);
comp_struct!([] CWide<'a, Rec<F>>, Wide, {zeta: Nn<'a, F>, b10: Bb<'a, F>, b9: Bb<'a, F>, alpha: Nn<'a, F>, mid: CEdwardsPoint<'a, Rec<F>>,
    _x: Bb<'a, F>, a: Nn<'a, F>, v: SizedVec<Bb<'a, F>, U2>, k: CTup<'a, Rec<F>>, cs: Nn<'a, F>, acc: Bb<'a, F>, value: Nn<'a, F>}, CWide);
comp_struct!([] CRow<'a, Rec<F>>, Row, {0 f0: Nn<'a, F>, 1 f1: Nn<'a, F>, 2 f2: Bb<'a, F>, 3 f3: Nn<'a, F>, 4 f4: Bb<'a, F>, 5 f5: Bb<'a, F>,
    6 f6: Nn<'a, F>, 7 f7: Bb<'a, F>, 8 f8: Nn<'a, F>, 9 f9: Bb<'a, F>, 10 f10: Nn<'a, F>, 11 f11: CNamed<'a, Rec<F>>, 12 f12: Bb<'a, F>}, CRow);
impl<'a, F: HF> Comp<'a, F> for CTup<'a, Rec<F>> {
    fn kinds() -> String {
        "bnn".into()
    }
    fn comps(&self, out: &mut Vec<N<'a, F>>) {
        out.push((self.0).0.clone());
        out.push(self.1.clone());
        out.push(self.2.clone());
    }
    fn value(v: &mut dyn FnMut() -> Num<F>) -> Tup<F> {
        let a = v() != of_u64(0);
        let b = v();
        let c = v();
        Tup(a, b, c)
    }
    fn flat(v: &Tup<F>, out: &mut Vec<Num<F>>) {
        out.push(bit_of(v.0));
        out.push(v.1);
        out.push(v.2);
    }
    fn build(leaf: &mut dyn FnMut() -> N<'a, F>) -> Self {
        let a = leaf();
        let b = leaf();
        let c = leaf();
        CTup(CBool(a), b, c)
    }
}
impl<'a, F: HF> Comp<'a, F> for CSolo<'a, Rec<F>> {
    fn kinds() -> String {
        "n".into()
    }
    fn comps(&self, out: &mut Vec<N<'a, F>>) {
        out.push(self.0.clone());
    }
    fn value(v: &mut dyn FnMut() -> Num<F>) -> Solo<F> {
        Solo(v())
    }
    fn flat(v: &Solo<F>, out: &mut Vec<Num<F>>) {
        out.push(v.0);
    }
    fn build(leaf: &mut dyn FnMut() -> N<'a, F>) -> Self {
        CSolo(leaf())
    }
}

fn comps<'a, F: HF, T: Comp<'a, F>>(t: &T) -> Vec<N<'a, F>> {
    let mut v = vec![];
    t.comps(&mut v);
    v
}
fn value<'a, F: HF, T: Comp<'a, F>>(v: &[Num<F>]) -> T::Value {
    let mut i = 0;
    T::value(&mut || {
        i += 1;
        v[i - 1]
    })
}
fn flat<'a, F: HF, T: Comp<'a, F>>(v: &T::Value) -> Vec<Num<F>> {
    let mut o = vec![];
    T::flat(v, &mut o);
    o
}
/// a leaf: constant, variable or an offset multiple of a variable
#[derive(Clone, Copy, Debug, PartialEq)]
enum Lf {
    C(u64),
    V,
    M,
}
fn leaf<'a, F: HF>(f: &mut Feed<'a, F>, l: Lf, kind: u8) -> N<'a, F> {
    let b = kind == b'b';
    match l {
        Lf::C(x) => f.c(if b { x & 1 } else { x }),
        Lf::V => f.vars(if b { "bit" } else { "F" }, 1).pop().unwrap(),
        // 1 - b, 3v - 2
        Lf::M if b => Num::one() - f.vars("bit", 1).pop().unwrap(),
        Lf::M => f.var() * of_u64::<F>(3) - of_u64::<F>(2),
    }
}
fn build<'a, F: HF, T: Comp<'a, F>>(f: &mut Feed<'a, F>, pat: &[Lf]) -> T {
    let ks = T::kinds().into_bytes();
    let mut i = 0;
    T::build(&mut || {
        i += 1;
        leaf(f, pat[i - 1], ks[i - 1])
    })
}
fn pdoms<F: HF>(kinds: &str, pat: &[Lf], r: &mut R) -> Vec<Vec<Vec<Num<F>>>> {
    let mut d = vec![];
    for (k, p) in kinds.bytes().zip(pat) {
        if let Lf::C(_) = p {
            continue;
        }
        d.push(if k == b'b' {
            dom_bit::<F>()
        } else if F::SMALL {
            dom_all::<F>()
        } else {
            (0..6).map(|_| vec![r.bnum::<F>()]).collect()
        });
    }
    d
}
/// sampled inputs; for two operands about half of them equal, a quarter differing in one component
fn sample2<F: HF>(kinds: &str, pa: &[Lf], pb: &[Lf], limit: usize, r: &mut R) -> Vec<Vec<Num<F>>> {
    let mut d = pdoms::<F>(kinds, pa, r);
    let na = d.len();
    d.extend(pdoms::<F>(kinds, pb, r));
    let mut v = product(&d, limit, r);
    if pa == pb {
        let base: Vec<Vec<Num<F>>> = product(&d[..na], limit, r);
        let (mut keep, free) = (vec![], v.len());
        for (bi, x) in base.into_iter().enumerate() {
            let mut e = x.clone();
            e.extend(x.iter().cloned());
            let out = if bi == 0 { &mut keep } else { &mut v };
            out.push(e.clone());
            for k in 0..na {
                let mut g = e.clone();
                g[na + k] = if d[k].len() == 2 { Num::one() - g[k] } else { g[k] + Num::one() };
                out.push(g);
            }
        }
        // one operand with each of its neighbours always, of the others a random choice
        if v.len() > 3 * limit {
            let n = v.len();
            for i in 0..2 * limit {
                let j = if i % 4 == 0 && free > 0 { r.below(free as u64) } else { r.below(n as u64) } as usize;
                keep.push(v[j].clone());
            }
            v = keep;
        } else {
            v.extend(keep);
        }
    }
    v
}

fn leaves<F: HF>(cs: &Vec<N<F>>) -> Value {
    Value::Array(
        cs.iter()
            .map(|x| json!({"c": x.as_const().is_some(), "k": x.value.is_some(), "v": x.value.as_ref().map(enc).unwrap_or(json!([]))}))
            .collect(),
    )
}
fn some<F: HF>(v: Option<Vec<Num<F>>>) -> Value {
    match v {
        Some(v) => json!({"some":true,"v":enc_vec(&v)}),
        None => json!({"some":false,"v":[]}),
    }
}

/// sizes: how many leaves a two-operand search may have
pub struct Opt {
    prover: bool,
    limit: usize,
}

fn ty<F: HF, T>(s: &mut Sink, o: &mut Out, r: &mut R, opt: &Opt, name: &'static str)
where
    T: TyFam<F>,
{
    let kinds = T::kinds();
    let n = kinds.len();
    let kv: Vec<String> = kinds.chars().map(|c| c.to_string()).collect();
    let par = json!({"n": n, "kinds": kv, "ty": name});
    let with = |k: &str, v: Value| {
        let mut p = par.clone();
        p[k] = v;
        p
    };
    let all_v = vec![Lf::V; n];
    let alt: Vec<Lf> = (0..n).map(|i| if i % 2 == 0 { Lf::V } else { Lf::C(i as u64 % 3) }).collect();
    let alt2: Vec<Lf> = (0..n).map(|i| if i % 2 == 1 { Lf::M } else { Lf::C(i as u64 % 3) }).collect();
    let con: Vec<Lf> = (0..n).map(|i| Lf::C(i as u64 % 3 + 1)).collect();
    let mut con_last = con.clone();
    con_last[n - 1] = Lf::C(4);
    let mut con_first = con.clone();
    con_first[0] = Lf::C(4);
    let one_v = |i: usize| {
        let mut c = con.clone();
        c[i] = Lf::V;
        c
    };
    let mixed: Vec<Lf> = (0..n).map(|i| [Lf::M, Lf::V, Lf::C(2)][i % 3]).collect();

    // allocation
    {
        let d = pdoms::<F>(&kinds, &all_v, r);
        let inputs = product(&d, opt.limit, r);
        s.add::<F>("s_alloc", par.clone(), true, &inputs, &move |f| T::alloc(f));
        for inp in inputs.iter().take(40) {
            T::ev_alloc(o, Some(inp));
            T::ev_const(o, inp);
        }
        T::ev_alloc(o, None);
    }
    // reading
    for p in [&all_v, &alt, &alt2, &con, &con_last, &mixed].iter() {
        let d = pdoms::<F>(&kinds, p, r);
        for inp in product(&d, 30, r) {
            T::ev_read(o, p, Some(inp));
        }
        T::ev_read(o, p, None);
    }
    for i in 0..n {
        let p = one_v(i);
        T::ev_read(o, &p, None);
    }
    // one component unknown, the others known
    T::ev_partial(o);
    // two operands
    let mut pats: Vec<(Vec<Lf>, Vec<Lf>)> = vec![
        (all_v.clone(), all_v.clone()),
        (all_v.clone(), con.clone()),
        (con.clone(), all_v.clone()),
        (con.clone(), con.clone()),
        (con.clone(), con_last.clone()),
        (con_first.clone(), con.clone()),
        (alt.clone(), alt2.clone()),
        (mixed.clone(), con.clone()),
    ];
    for i in 0..n {
        pats.push((one_v(i), con.clone()));
        pats.push((con_last.clone(), one_v(i)));
    }
    for (pi, (pa, pb)) in pats.iter().enumerate() {
        let wide = n > 9 && pi >= 8;
        let nv = pa.iter().chain(pb.iter()).filter(|x| !matches!(x, Lf::C(_))).count();
        if opt.prover && nv > 6 {
            continue;
        }
        let inputs = sample2::<F>(&kinds, pa, pb, opt.limit, r);
        for g in ["s_assert_eq", "s_is_eq"].iter() {
            let (pa, pb) = (pa.clone(), pb.clone());
            s.add::<F>(g, par.clone(), true, &inputs, &move |f| T::two(f, g, &pa, &pb));
        }
        for bk in [Lf::V, Lf::M, Lf::C(0), Lf::C(1)].iter() {
            if wide && *bk != Lf::V && (pi + (*bk == Lf::M) as usize) % 4 != 0 {
                continue;
            }
            if opt.prover && nv > 5 && matches!(bk, Lf::M) {
                continue;
            }
            let (pa, pb, bk) = (pa.clone(), pb.clone(), *bk);
            let mut inp = vec![];
            for x in inputs.iter() {
                if let Lf::C(_) = bk {
                    inp.push(x.clone());
                } else {
                    for b in 0..2 {
                        let mut x = x.clone();
                        x.push(of_u64(b));
                        inp.push(x);
                    }
                }
            }
            if inp.len() > 2 * opt.limit {
                let st = inp.len() / (2 * opt.limit) * 2 + 1;
                inp = inp.into_iter().step_by(st).collect();
            }
            s.add::<F>("s_switch", par.clone(), true, &inp, &move |f| T::switch(f, &pa, &pb, bk));
        }
    }
    // constant assertion and publication
    for p in [&all_v, &alt, &alt2, &con, &con_last, &mixed].iter() {
        let d = pdoms::<F>(&kinds, p, r);
        let inputs = product(&d, opt.limit, r);
        {
            let p = p.to_vec();
            let rec = s.add::<F>("s_publish", par.clone(), true, &inputs, &move |f| T::publish(f, &p));
            let _ = rec;
        }
        T::ev_publish(o, p);
        let k: Vec<Num<F>> = con
            .iter()
            .zip(kinds.bytes())
            .map(|(c, kd)| match c {
                Lf::C(x) => of_u64(if kd == b'b' { x & 1 } else { *x }),
                _ => unreachable!(),
            })
            .collect();
        // also the inputs that satisfy it, and those failing in one component
        let mut inp = inputs.clone();
        if p.iter().all(|x| *x == Lf::V) {
            inp.push(k.clone());
            for i in 0..n {
                let mut g = k.clone();
                g[i] = if kv[i] == "b" { Num::one() - g[i] } else { g[i] + Num::one() };
                inp.push(g);
            }
        }
        let (p, kk) = (p.to_vec(), k.clone());
        s.add::<F>("s_assert_const", with("k", enc_vec(&k)), true, &inp, &move |f| T::assert_const(f, &p, &kk));
    }
}

/// a composite type constructor, usable under any lifetime
trait TyFam<F: HF>: 'static {
    fn kinds() -> String;
    fn alloc<'a>(f: &mut Feed<'a, F>) -> Built<'a, F>;
    fn two<'a>(f: &mut Feed<'a, F>, g: &str, pa: &[Lf], pb: &[Lf]) -> Built<'a, F>;
    fn switch<'a>(f: &mut Feed<'a, F>, pa: &[Lf], pb: &[Lf], bk: Lf) -> Built<'a, F>;
    fn publish<'a>(f: &mut Feed<'a, F>, p: &[Lf]) -> Built<'a, F>;
    fn assert_const<'a>(f: &mut Feed<'a, F>, p: &[Lf], k: &[Num<F>]) -> Built<'a, F>;
    fn ev_alloc(o: &mut Out, v: Option<&[Num<F>]>);
    fn ev_const(o: &mut Out, v: &[Num<F>]);
    fn ev_read(o: &mut Out, p: &[Lf], v: Option<Vec<Num<F>>>);
    fn ev_partial(o: &mut Out);
    fn ev_publish(o: &mut Out, p: &[Lf]);
}
fn x_alloc<'a, F: HF, T: Comp<'a, F>>(f: &mut Feed<'a, F>) -> Built<'a, F> {
    let n = T::kinds().len();
    let t: T = f.signal(n, |v| value::<F, T>(v), "F");
    Built { ins: comps(&t), outs: t.linearize() }
}
fn x_two<'a, F: HF, T: Comp<'a, F>>(f: &mut Feed<'a, F>, g: &str, pa: &[Lf], pb: &[Lf]) -> Built<'a, F> {
    let a: T = build(f, pa);
    let b: T = build(f, pb);
    let mut ins = comps(&a);
    ins.extend(comps(&b));
    f.note(&ins.iter().collect::<Vec<_>>());
    let outs = if g == "s_is_eq" {
        vec![a.is_eq(&b).0]
    } else {
        a.assert_eq(&b);
        vec![]
    };
    Built { ins, outs }
}
fn x_switch<'a, F: HF, T: Comp<'a, F>>(f: &mut Feed<'a, F>, pa: &[Lf], pb: &[Lf], bk: Lf) -> Built<'a, F> {
    let a: T = build(f, pa);
    let b: T = build(f, pb);
    let bit = CBool(leaf(f, bk, b'b'));
    let mut ins = comps(&a);
    ins.extend(comps(&b));
    ins.push(bit.0.clone());
    let r = if pa.len() % 2 == 0 { a.switch(&bit, &b) } else { bit.if_else(&a, &b) };
    Built { ins, outs: comps(&r) }
}
fn x_publish<'a, F: HF, T: Comp<'a, F>>(f: &mut Feed<'a, F>, p: &[Lf]) -> Built<'a, F> {
    let a: T = build(f, p);
    a.inputize();
    Built { ins: comps(&a), outs: f.cs.publics() }
}
fn x_assert_const<'a, F: HF, T: Comp<'a, F>>(f: &mut Feed<'a, F>, p: &[Lf], k: &[Num<F>]) -> Built<'a, F> {
    let a: T = build(f, p);
    let ins = comps(&a);
    f.note(&ins.iter().collect::<Vec<_>>());
    a.assert_const(&value::<F, T>(k));
    Built { ins, outs: vec![] }
}
fn x_ev_alloc<'a, F: HF, T: Comp<'a, F>>(cs: &'a Rec<F>, o: &mut Out, v: Option<&[Num<F>]>) {
    let val = v.map(|v| value::<F, T>(v));
    let t = T::alloc(cs, val.as_ref());
    let c = comps(&t);
    let ids: std::collections::BTreeSet<usize> = c.iter().flat_map(|x| cs.lc(x)).map(|x| x.0).collect();
    let fed = v.map(|v| v.to_vec()).unwrap_or(vec![of_u64(0); T::kinds().len()]);
    o.ev(json!({"t":"alloc","vals":enc_vec(&fed),"known":v.is_some(),"nvars":cs.nvars(),"pub":cs.publics().len(),
        "distinct": ids.len() == c.len() && c.iter().all(|x| x.lc.len() == 1), "leaves":leaves(&c)}));
}
fn x_ev_const<'a, F: HF, T: Comp<'a, F>>(cs: &'a Rec<F>, o: &mut Out, v: &[Num<F>]) {
    let t = T::from_const(cs, &value::<F, T>(v));
    let c = comps(&t);
    o.ev(json!({"t":"const","vals":enc_vec(v),"nvars":cs.nvars(),"ncons":cs.ncons(),"leaves":leaves(&c)}));
    x_read(o, &t, cs);
}
fn x_read<'a, F: HF, T: Comp<'a, F>>(o: &mut Out, t: &T, cs: &'a Rec<F>) {
    let c = comps(t);
    let flatn = t.linearize();
    let same = flatn.len() == c.len() && flatn.iter().zip(&c).all(|(a, b)| cs.lc(a) == cs.lc(b) && a.value == b.value);
    o.ev(json!({"t":"read","leaves":leaves(&c),"flat":same,
        "value":some(t.get_value().map(|v| flat::<F, T>(&v))),
        "konst":some(t.as_const().map(|v| flat::<F, T>(&v)))}));
}
fn x_ev_read<'a, F: HF, T: Comp<'a, F>>(cs: &'a Rec<F>, o: &mut Out, p: &[Lf], v: Option<Vec<Num<F>>>) {
    let mut f = Feed::new(cs, v);
    let t: T = build(&mut f, p);
    x_read(o, &t, cs);
}
fn x_ev_partial<'a, F: HF, T: Comp<'a, F>>(cs: &'a Rec<F>, o: &mut Out) {
    let n = T::kinds().len();
    for k in 0..n {
        let mut i = 0;
        let t = T::build(&mut || {
            i += 1;
            let v: Num<F> = of_u64(1);
            CNum::alloc(cs, if i - 1 == k { None } else { Some(&v) })
        });
        x_read(o, &t, cs);
        // one variable component among constants
        let mut i = 0;
        let t = T::build(&mut || {
            i += 1;
            let v: Num<F> = of_u64(1);
            if i - 1 == k {
                CNum::alloc(cs, Some(&v))
            } else {
                CNum::from_const(cs, &v)
            }
        });
        x_read(o, &t, cs);
    }
}
fn x_ev_publish<'a, F: HF, T: Comp<'a, F>>(cs: &'a Rec<F>, o: &mut Out, p: &[Lf]) {
    let mut f = Feed::new(cs, None);
    let t: T = build(&mut f, p);
    t.inputize();
    o.ev(json!({"t":"publish","n":T::kinds().len(),"pub":cs.publics().len()}));
}
macro_rules! fam {
    ($name:ident, $t:ty) => {
        pub struct $name;
        impl<F: HF> TyFam<F> for $name {
            fn kinds() -> String {
                fn k<'a, F: HF>() -> String {
                    <$t as Comp<'a, F>>::kinds()
                }
                k::<F>()
            }
            fn alloc<'a>(f: &mut Feed<'a, F>) -> Built<'a, F> {
                x_alloc::<F, $t>(f)
            }
            fn two<'a>(f: &mut Feed<'a, F>, g: &str, pa: &[Lf], pb: &[Lf]) -> Built<'a, F> {
                x_two::<F, $t>(f, g, pa, pb)
            }
            fn switch<'a>(f: &mut Feed<'a, F>, pa: &[Lf], pb: &[Lf], bk: Lf) -> Built<'a, F> {
                x_switch::<F, $t>(f, pa, pb, bk)
            }
            fn publish<'a>(f: &mut Feed<'a, F>, p: &[Lf]) -> Built<'a, F> {
                x_publish::<F, $t>(f, p)
            }
            fn assert_const<'a>(f: &mut Feed<'a, F>, p: &[Lf], k: &[Num<F>]) -> Built<'a, F> {
                x_assert_const::<F, $t>(f, p, k)
            }
            fn ev_alloc(o: &mut Out, v: Option<&[Num<F>]>) {
                fn go<'a, F: HF>(cs: &'a Rec<F>, o: &mut Out, v: Option<&[Num<F>]>) {
                    x_ev_alloc::<F, $t>(cs, o, v)
                }
                go(&Rec::new(), o, v)
            }
            fn ev_const(o: &mut Out, v: &[Num<F>]) {
                fn go<'a, F: HF>(cs: &'a Rec<F>, o: &mut Out, v: &[Num<F>]) {
                    x_ev_const::<F, $t>(cs, o, v)
                }
                go(&Rec::new(), o, v)
            }
            fn ev_read(o: &mut Out, p: &[Lf], v: Option<Vec<Num<F>>>) {
                fn go<'a, F: HF>(cs: &'a Rec<F>, o: &mut Out, p: &[Lf], v: Option<Vec<Num<F>>>) {
                    x_ev_read::<F, $t>(cs, o, p, v)
                }
                go(&Rec::new(), o, p, v)
            }
            fn ev_partial(o: &mut Out) {
                fn go<'a, F: HF>(cs: &'a Rec<F>, o: &mut Out) {
                    x_ev_partial::<F, $t>(cs, o)
                }
                go::<F>(&Rec::new(), o)
            }
            fn ev_publish(o: &mut Out, p: &[Lf]) {
                fn go<'a, F: HF>(cs: &'a Rec<F>, o: &mut Out, p: &[Lf]) {
                    x_ev_publish::<F, $t>(cs, o, p)
                }
                go::<F>(&Rec::new(), o, p)
            }
        }
    };
}
type Nn<'a, F> = CNum<'a, Rec<F>>;
type Bb<'a, F> = CBool<'a, Rec<F>>;
fam!(FNum, Nn<'a, F>);
fam!(FBool, Bb<'a, F>);
fam!(FVec1, SizedVec<Nn<'a, F>, U1>);
fam!(FVec3, SizedVec<Nn<'a, F>, U3>);
fam!(FBits4, SizedVec<Bb<'a, F>, U4>);
fam!(FPair, (Nn<'a, F>, Bb<'a, F>));
fam!(FTriple, (Bb<'a, F>, Nn<'a, F>, Nn<'a, F>));
fam!(FNamed, CNamed<'a, Rec<F>>);
fam!(FTup, CTup<'a, Rec<F>>);
fam!(FOne, COne<'a, Rec<F>>);
fam!(FSolo, CSolo<'a, Rec<F>>);
fam!(FPoint, CEdwardsPoint<'a, Rec<F>>);
fam!(FMont, CMontgomeryPoint<'a, Rec<F>>);
fam!(FMerkle, CMerkleProof<'a, Rec<F>, U2>);
fam!(FNest, CNest<'a, Rec<F>>);
fam!(FVecPair, SizedVec<(Nn<'a, F>, Bb<'a, F>), U2>);
fam!(FVecStruct, SizedVec<CNamed<'a, Rec<F>>, U2>);
fam!(FDeep, (SizedVec<SizedVec<Bb<'a, F>, U2>, U2>, (CSolo<'a, Rec<F>>, Bb<'a, F>)));
fam!(FFour, (Bb<'a, F>, Bb<'a, F>, Nn<'a, F>, Bb<'a, F>));
fam!(FFive, (Bb<'a, F>, Nn<'a, F>, Bb<'a, F>, Bb<'a, F>, Nn<'a, F>));
fam!(FWide, CWide<'a, Rec<F>>);
fam!(FRow, CRow<'a, Rec<F>>);
fam!(FVec33, SizedVec<Nn<'a, F>, U33>);
fam!(FVec130, SizedVec<Nn<'a, F>, U130>);
fam!(FSix, (Bb<'a, F>, Nn<'a, F>, CEdwardsPoint<'a, Rec<F>>, Bb<'a, F>, Nn<'a, F>, SizedVec<Bb<'a, F>, U5>));
fam!(F17, (Nn<'a, F>, Bb<'a, F>, Nn<'a, F>, Nn<'a, F>, Bb<'a, F>, Bb<'a, F>, Nn<'a, F>, Nn<'a, F>, Bb<'a, F>, Nn<'a, F>, Bb<'a, F>,
    Nn<'a, F>, Nn<'a, F>, Bb<'a, F>, Nn<'a, F>, Bb<'a, F>, Nn<'a, F>));

fn small_types<F: HF>(s: &mut Sink, o: &mut Out, r: &mut R, opt: &Opt) {
    ty::<F, FNum>(s, o, r, opt, "num");
    ty::<F, FBool>(s, o, r, opt, "bool");
    ty::<F, FVec1>(s, o, r, opt, "vec1");
    ty::<F, FVec3>(s, o, r, opt, "vec3");
    ty::<F, FBits4>(s, o, r, opt, "bits4");
    ty::<F, FPair>(s, o, r, opt, "pair");
    ty::<F, FTriple>(s, o, r, opt, "triple");
    ty::<F, FNamed>(s, o, r, opt, "named");
    ty::<F, FTup>(s, o, r, opt, "tupstruct");
    ty::<F, FOne>(s, o, r, opt, "one");
    ty::<F, FSolo>(s, o, r, opt, "solo");
    ty::<F, FPoint>(s, o, r, opt, "point");
    ty::<F, FMont>(s, o, r, opt, "mont");
    ty::<F, FMerkle>(s, o, r, opt, "merkle");
    ty::<F, FFour>(s, o, r, opt, "four");
    ty::<F, FVecPair>(s, o, r, opt, "vecpair");
}
fn large_types<F: HF>(s: &mut Sink, o: &mut Out, r: &mut R, opt: &Opt) {
    ty::<F, FNest>(s, o, r, opt, "nest");
    ty::<F, FVecStruct>(s, o, r, opt, "vecstruct");
    ty::<F, FDeep>(s, o, r, opt, "deep");
    ty::<F, FFive>(s, o, r, opt, "five");
    ty::<F, FSix>(s, o, r, opt, "six");
    ty::<F, F17>(s, o, r, opt, "tuple17");
    ty::<F, FWide>(s, o, r, opt, "wide");
    ty::<F, FRow>(s, o, r, opt, "row");
    ty::<F, FVec33>(s, o, r, opt, "vec33");
}

pub fn run(c: &Ctx) {
    let mut r = c.rng(170);
    let mut o = c.out("small.ndjson");
    let mut s = Sink::new(c, "small", true);
    let opt = Opt { prover: true, limit: c.n(60, 400) };
    small_types::<Tiny<5>>(&mut s, &mut o, &mut r, &opt);
    drop(s);
    let mut s = Sink::new(c, "small2", false);
    let opt = Opt { prover: false, limit: c.n(40, 300) };
    large_types::<Tiny<7>>(&mut s, &mut o, &mut r, &opt);
    ty::<Tiny<7>, FVec130>(&mut s, &mut o, &mut r, &Opt { prover: false, limit: 3 }, "vec130");
    drop(s);
    let mut o = c.out("big.ndjson");
    let mut s = Sink::new(c, "big", false);
    let opt = Opt { prover: false, limit: c.n(6, 40) };
    small_types::<fawkes_crypto::native::bn256::Fr>(&mut s, &mut o, &mut r, &opt);
    large_types::<fawkes_crypto::native::bls12_381::Fr>(&mut s, &mut o, &mut r, &opt);
}
