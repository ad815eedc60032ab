//! A `ConstraintSystem` that records what the real gadgets emit, and the construction of circuit
//! descriptions and honest witnesses for TLC.
use crate::enc::*;
use fawkes_crypto::circuit::{
    bool::CBool,
    ecc::CEdwardsPoint,
    num::{CNum, Index},
};
use fawkes_crypto::core::{cs::ConstraintSystem, signal::Signal};
use fawkes_crypto::native::num::Num;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// variable id (1-based allocation order), 0 is the constant one
pub type Lc<F> = Vec<(usize, Num<F>)>;

pub struct Inner<F: HF> {
    pub ids: HashMap<Index, usize>,
    pub kinds: Vec<bool>, // true = public input
    pub vals: Vec<Option<Num<F>>>,
    pub cons: Vec<[Lc<F>; 3]>,
    /// values of the three operands as recorded in the signals
    pub cvals: Vec<[Option<Num<F>>; 3]>,
    pub log: Vec<u8>, // 0 aux, 1 input, 2 constraint: order of calls
    nin: usize,
    naux: usize,
}
pub struct Rec<F: HF>(pub RefCell<Inner<F>>);

impl<F: HF> Clone for Rec<F> {
    fn clone(&self) -> Self {
        unimplemented!()
    }
}
impl<F: HF> Rec<F> {
    pub fn new() -> Self {
        let mut ids = HashMap::new();
        ids.insert(Index::Input(0), 0);
        Rec(RefCell::new(Inner {
            ids,
            kinds: vec![],
            vals: vec![],
            cons: vec![],
            cvals: vec![],
            log: vec![],
            nin: 1,
            naux: 0,
        }))
    }
    pub fn lc(&self, n: &CNum<Self>) -> Lc<F> {
        let s = self.0.borrow();
        lc_of(&s, n)
    }
    pub fn nvars(&self) -> usize {
        self.0.borrow().vals.len()
    }
    pub fn ncons(&self) -> usize {
        self.0.borrow().cons.len()
    }
    /// the value of every variable, if all are known
    pub fn witness(&self) -> Option<Vec<Num<F>>> {
        self.0.borrow().vals.iter().cloned().collect()
    }
    /// the public inputs in publishing order
    pub fn publics(&self) -> Vec<CNum<Self>> {
        let v: Vec<Option<Num<F>>> = {
            let s = self.0.borrow();
            s.kinds.iter().zip(&s.vals).filter(|x| *x.0).map(|x| *x.1).collect()
        };
        v.into_iter().enumerate().map(|(i, v)| CNum::from_var(self, v, Index::Input(i + 1))).collect()
    }
    pub fn shape(&self) -> Value {
        let s = self.0.borrow();
        let cons: Vec<Value> = s
            .cons
            .iter()
            .map(|c| json!([enc_lc(&c[0]), enc_lc(&c[1]), enc_lc(&c[2])]))
            .collect();
        json!({"kinds": s.kinds, "cons": cons, "log": s.log})
    }
}
fn lc_of<F: HF>(s: &Inner<F>, n: &CNum<Rec<F>>) -> Lc<F> {
    n.lc.iter()
        .map(|(k, v)| (s.ids.get(k).cloned().unwrap_or(999_999), *v))
        .collect()
}
pub fn enc_lc<F: HF>(l: &Lc<F>) -> Value {
    Value::Array(l.iter().map(|(i, v)| json!([i, enc(v)])).collect())
}

impl<F: HF> ConstraintSystem for Rec<F> {
    type F = F;
    fn alloc(&self, value: Option<Num<F>>) -> Index {
        let mut s = self.0.borrow_mut();
        let i = Index::Aux(s.naux);
        s.naux += 1;
        s.kinds.push(false);
        s.vals.push(value);
        let id = s.vals.len();
        s.ids.insert(i, id);
        s.log.push(0);
        i
    }
    fn alloc_input(&self, value: Option<Num<F>>) -> Index {
        let mut s = self.0.borrow_mut();
        let i = Index::Input(s.nin);
        s.nin += 1;
        s.kinds.push(true);
        s.vals.push(value);
        let id = s.vals.len();
        s.ids.insert(i, id);
        s.log.push(1);
        i
    }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) {
        let mut s = self.0.borrow_mut();
        let l = [lc_of(&s, a), lc_of(&s, b), lc_of(&s, c)];
        s.cons.push(l);
        s.cvals.push([a.value, b.value, c.value]);
        s.log.push(2);
    }
}

// ---------------------------------------------------------------------------------------------
// Circuits under test: a builder allocates its input variables through a Feed.

/// A group of input variables with a named domain (Prover.tla!Domain)
#[derive(Clone)]
pub struct Group {
    pub dom: String,
    pub vars: Vec<usize>,
}

pub struct Feed<'a, F: HF> {
    pub cs: &'a Rec<F>,
    /// values to feed, None in setup mode
    vals: Option<Vec<Num<F>>>,
    next: usize,
    pub groups: Vec<Group>,
    /// inputs of the gadget, noted before it is called (known even if it panics)
    pub noted: Vec<Lc<F>>,
}

pub type N<'a, F> = CNum<'a, Rec<F>>;
pub type B<'a, F> = CBool<'a, Rec<F>>;
pub type P<'a, F> = CEdwardsPoint<'a, Rec<F>>;

impl<'a, F: HF> Feed<'a, F> {
    pub fn new(cs: &'a Rec<F>, vals: Option<Vec<Num<F>>>) -> Self {
        Feed {
            cs,
            vals,
            next: 0,
            groups: vec![],
            noted: vec![],
        }
    }
    pub fn val(&mut self) -> Option<Num<F>> {
        let r = self.vals.as_ref().map(|v| v[self.next]);
        self.next += 1;
        r
    }
    /// n fresh variables ranging over a named domain of n-tuples
    pub fn vars(&mut self, dom: &str, n: usize) -> Vec<N<'a, F>> {
        let r: Vec<_> = (0..n)
            .map(|_| {
                let v = self.val();
                CNum::alloc(self.cs, v.as_ref())
            })
            .collect();
        let hi = self.cs.nvars();
        self.groups.push(Group {
            dom: dom.to_string(),
            vars: (hi - n + 1..=hi).collect(),
        });
        r
    }
    pub fn var(&mut self) -> N<'a, F> {
        self.vars("F", 1).pop().unwrap()
    }
    pub fn bit(&mut self) -> B<'a, F> {
        self.vars("bit", 1).pop().unwrap().into_bool()
    }
    pub fn point(&mut self, dom: &str) -> P<'a, F> {
        let v = self.vars(dom, 2);
        CEdwardsPoint {
            x: v[0].clone(),
            y: v[1].clone(),
        }
    }
    /// allocate any signal with the values given; its variables form one group (domain F each)
    pub fn signal<T: Signal<'a, Rec<F>>>(&mut self, nvars: usize, mk: impl FnOnce(&[Num<F>]) -> T::Value, dom: &str) -> T {
        let vals: Option<Vec<Num<F>>> = if self.vals.is_some() {
            Some((0..nvars).map(|_| self.val().unwrap()).collect())
        } else {
            self.next += nvars;
            None
        };
        let lo = self.cs.nvars();
        let v = vals.map(|v| mk(&v));
        let t = T::alloc(self.cs, v.as_ref());
        let hi = self.cs.nvars();
        for k in lo + 1..=hi {
            self.groups.push(Group {
                dom: dom.to_string(),
                vars: vec![k],
            });
        }
        t
    }
    pub fn note(&mut self, ins: &[&N<'a, F>]) {
        self.noted = ins.iter().map(|x| self.cs.lc(x)).collect();
    }
    pub fn c(&self, x: u64) -> N<'a, F> {
        CNum::from_const(self.cs, &of_u64(x))
    }
}

pub struct Built<'a, F: HF> {
    pub ins: Vec<N<'a, F>>,
    pub outs: Vec<N<'a, F>>,
}

pub type Builder<F> = dyn for<'a> Fn(&mut Feed<'a, F>) -> Built<'a, F>;

/// one recorded circuit (setup mode)
pub struct Circ<F: HF> {
    pub panic: bool,
    pub n: usize,
    pub cons: Vec<[Lc<F>; 3]>,
    pub ins: Vec<Lc<F>>,
    pub outs: Vec<Lc<F>>,
    pub groups: Vec<Group>,
    pub shape: Value,
}

pub struct Run<F: HF> {
    pub panic: bool,
    pub w: Option<Vec<Num<F>>>,
    pub outs: Vec<Option<Num<F>>>,
    pub circ: Circ<F>,
}

pub fn run_builder<F: HF>(b: &Builder<F>, vals: Option<Vec<Num<F>>>) -> Run<F> {
    let cs = Rec::<F>::new();
    let mut feed = Feed::new(&cs, vals);
    let r = guard(|| b(&mut feed));
    let groups = feed.groups.clone();
    let (ins, outs, ovals, panic) = match &r {
        Some(r) => (
            r.ins.iter().map(|x| cs.lc(x)).collect(),
            r.outs.iter().map(|x| cs.lc(x)).collect(),
            r.outs.iter().map(|x| x.value).collect(),
            false,
        ),
        None => (feed.noted.clone(), vec![], vec![], true),
    };
    let w = cs.witness();
    let shape = cs.shape();
    drop(r);
    let inner = cs.0.into_inner();
    Run {
        panic,
        w,
        outs: ovals,
        circ: Circ {
            panic,
            n: inner.vals.len(),
            cons: inner.cons,
            ins,
            outs,
            groups,
            shape,
        },
    }
}

fn cvars<F: HF>(c: &[Lc<F>; 3]) -> BTreeSet<usize> {
    c.iter()
        .flat_map(|l| l.iter())
        .map(|x| x.0)
        .filter(|x| *x != 0)
        .collect()
}

/// The order in which the search assigns variables (any order is sound; the specification checks
/// that every variable is assigned and every constraint is checked).
pub fn plan<F: HF>(c: &Circ<F>, inputs_first: bool) -> Vec<Value> {
    let cv: Vec<BTreeSet<usize>> = c.cons.iter().map(cvars).collect();
    let mut of_var: Vec<Vec<usize>> = vec![vec![]; c.n + 1];
    for (i, s) in cv.iter().enumerate() {
        for v in s {
            of_var[*v].push(i);
        }
    }
    let mut missing: Vec<usize> = cv.iter().map(|s| s.len()).collect();
    let mut assigned = vec![false; c.n + 1];
    assigned[0] = true;
    let affine = |i: usize, v: usize| {
        let has = |k: usize| c.cons[i][k].iter().any(|x| x.0 == v);
        !(has(0) && has(1))
    };
    let grouped: BTreeSet<usize> = c.groups.iter().flat_map(|g| g.vars.iter().cloned()).collect();
    let mut steps: Vec<(Vec<usize>, String, usize)> = vec![]; // vars, dom, solve(1-based)
    let assign = |vs: &[usize], assigned: &mut Vec<bool>, missing: &mut Vec<usize>| {
        for v in vs {
            assigned[*v] = true;
            for i in &of_var[*v] {
                missing[*i] -= 1;
            }
        }
    };
    let mut pending: Vec<Group> = c.groups.clone();
    if inputs_first {
        for g in pending.drain(..) {
            assign(&g.vars, &mut assigned, &mut missing);
            steps.push((g.vars, g.dom, 0));
        }
    }
    loop {
        // a variable determined by an affine constraint
        let mut best: Option<(usize, usize)> = None; // var, solve
        for i in 0..cv.len() {
            if missing[i] == 1 {
                let v = *cv[i].iter().find(|v| !assigned[**v]).unwrap();
                let single = !grouped.contains(&v) || pending.iter().any(|g| g.vars == [v] && (g.dom == "F"));
                if single && affine(i, v) {
                    best = Some((v, i + 1));
                    break;
                }
            }
        }
        if let Some((v, solve)) = best {
            pending.retain(|g| g.vars != [v]);
            assign(&[v], &mut assigned, &mut missing);
            steps.push((vec![v], "F".into(), solve));
            continue;
        }
        // otherwise a variable of the first open constraint, preferably an input
        if let Some(i) = (0..cv.len()).find(|i| missing[*i] > 0) {
            let open: Vec<usize> = cv[i].iter().cloned().filter(|v| !assigned[*v]).collect();
            let pos = pending.iter().position(|g| g.vars.iter().any(|v| open.contains(v)));
            let (vars, dom) = match pos {
                Some(k) => {
                    let g = pending.remove(k);
                    (g.vars, g.dom)
                }
                None => (vec![open[0]], "F".to_string()),
            };
            assign(&vars, &mut assigned, &mut missing);
            steps.push((vars, dom, 0));
            continue;
        }
        // variables in no constraint
        if !pending.is_empty() {
            let g = pending.remove(0);
            assign(&g.vars, &mut assigned, &mut missing);
            steps.push((g.vars, g.dom, 0));
            continue;
        }
        if let Some(v) = (1..=c.n).find(|v| !assigned[*v]) {
            assign(&[v], &mut assigned, &mut missing);
            steps.push((vec![v], "F".into(), 0));
            continue;
        }
        break;
    }
    // constraints are checked at the step that assigns their last variable
    let mut step_of = vec![0usize; c.n + 1];
    for (k, s) in steps.iter().enumerate() {
        for v in &s.0 {
            step_of[*v] = k;
        }
    }
    let nsteps = steps.len();
    let mut checks: Vec<Vec<usize>> = vec![vec![]; nsteps.max(1)];
    for (i, s) in cv.iter().enumerate() {
        let k = s.iter().map(|v| step_of[*v]).max().unwrap_or(0);
        checks[k].push(i + 1);
    }
    // last use of each variable
    let mut last = step_of.clone();
    for (i, s) in cv.iter().enumerate() {
        let _ = i;
        let k = s.iter().map(|v| step_of[*v]).max().unwrap_or(0);
        for v in s {
            last[*v] = last[*v].max(k);
        }
    }
    for l in c.ins.iter().chain(c.outs.iter()) {
        for (v, _) in l {
            if *v != 0 {
                last[*v] = nsteps;
            }
        }
    }
    let mut out = vec![];
    if nsteps == 0 {
        out.push(json!({"v":[], "d":"none", "c":checks[0], "solve":0, "keep":[]}));
    }
    for (k, (vs, dom, solve)) in steps.iter().enumerate() {
        let keep: Vec<usize> = (1..=c.n)
            .filter(|v| step_of[*v] <= k && last[*v] > k)
            .collect();
        out.push(json!({"v":vs, "d":dom, "c":checks[k], "solve":solve, "keep":keep}));
    }
    out
}

/// coefficients are interned: a linear combination lists <<variable, index into tab>>
pub fn circ_json<F: HF>(g: &str, par: &Value, c: &Circ<F>, steps: Vec<Value>) -> Value {
    let mut tab: Vec<Value> = vec![];
    let mut idx: BTreeMap<String, usize> = BTreeMap::new();
    let mut lcj = |l: &Lc<F>| -> Value {
        Value::Array(
            l.iter()
                .map(|(v, k)| {
                    let e = enc(k);
                    let i = *idx.entry(e.to_string()).or_insert_with(|| {
                        tab.push(e);
                        tab.len()
                    });
                    json!([v, i])
                })
                .collect(),
        )
    };
    let cons: Vec<Value> = c.cons.iter().map(|x| json!([lcj(&x[0]), lcj(&x[1]), lcj(&x[2])])).collect();
    let ins: Vec<Value> = c.ins.iter().map(&mut lcj).collect();
    let outs: Vec<Value> = c.outs.iter().map(&mut lcj).collect();
    json!({"p":enc_mod::<F>(), "g":g, "par":par, "panic":c.panic, "n":c.n, "cons":cons,
        "ins": ins, "outs": outs, "tab": tab, "steps": steps})
}

/// Where circuits and honest runs of one property go.
pub struct Sink {
    pub circ: Out,
    pub honest: Out,
    pub prover: bool,
    /// assignments of a cheating prover, where not all of them are searched
    pub forged: Option<Out>,
    pub effort: i64,
}
impl Sink {
    /// prover=false: honest runs only (real fields)
    pub fn new(c: &Ctx, name: &str, prover: bool) -> Sink {
        Sink {
            circ: c.out(&format!("{}_circ.ndjson", name)),
            honest: c.out(&format!("{}_honest.ndjson", name)),
            prover,
            forged: if prover { None } else { Some(c.out(&format!("{}_forged.ndjson", name))) },
            effort: c.n(400_000, 20_000_000) as i64,
        }
    }
    /// record a gadget instance: its constraints in setup mode and the honest runs for `inputs`
    pub fn add<F: HF>(&mut self, g: &str, par: Value, inputs_first: bool, inputs: &[Vec<Num<F>>], b: &Builder<F>) {
        let setup = run_builder(b, None);
        let steps = if self.prover && !setup.panic {
            plan(&setup.circ, inputs_first)
        } else {
            vec![]
        };
        self.circ.ev(circ_json(g, &par, &setup.circ, steps));
        let idx = self.circ.n;
        let mut seen = false;
        let mut forge = crate::forge::Forge::new(&setup.circ, idx as u32);
        let mut forging = if self.forged.is_some() && !setup.panic { 12 } else { 0 };
        for vals in inputs {
            seen = true;
            let w = self.honest1(idx, &setup, vals.clone(), b);
            if forging > 0 && w.len() == setup.circ.n && w.len() > 0 {
                let mut w1 = vec![of_u64(1)];
                w1.extend(w);
                if forge.satisfied(&w1) {
                    forging -= 1;
                    self.forge1(idx, &mut forge, &w1, forging == 11, forging > 8);
                }
            }
        }
        // no inputs: one honest run
        if !seen && setup.circ.groups.is_empty() {
            self.honest1(idx, &setup, vec![], b);
        }
    }
    fn forge1<F: HF>(&mut self, idx: usize, forge: &mut crate::forge::Forge<F>, w: &[Num<F>], first: bool, full: bool) {
        let honest = forge.outputs(w);
        let out = self.forged.as_mut().unwrap();
        if out.n == 0 {
            out.ev(json!({"c":idx, "w":enc_vec(&w[1..])}));
        }
        let found = forge.run(w, if full { self.effort } else { 0 });
        let (mut other, mut same) = (3, if first { 1 } else { 0 });
        for a in found {
            let left = if forge.outputs(&a) == honest { &mut same } else { &mut other };
            if *left > 0 {
                *left -= 1;
                out.ev(json!({"c":idx, "w":enc_vec(&a[1..])}));
            }
        }
    }
    fn honest1<F: HF>(&mut self, idx: usize, setup: &Run<F>, vals: Vec<Num<F>>, b: &Builder<F>) -> Vec<Num<F>> {
        let fed = enc_vec(&vals);
        let r = run_builder(b, Some(vals));
        let same = r.circ.shape == setup.circ.shape
            && r.circ.outs.len() == setup.circ.outs.len()
            && r.circ.outs.iter().zip(&setup.circ.outs).all(|(a, b)| enc_lc(a) == enc_lc(b));
        let known = r.panic || (r.w.is_some() && r.outs.iter().all(|x| x.is_some()));
        let w = r.w.unwrap_or_default();
        let vals: Vec<Value> = r
            .outs
            .iter()
            .map(|x| x.as_ref().map(enc).unwrap_or(json!([99])))
            .collect();
        self.honest.ev(json!({"c":idx, "panic":r.panic, "same":r.panic || same, "known":known,
            "w":enc_vec(&w), "vals":vals, "fed":fed}));
        w
    }
}

/// all tuples over the given domains (truncated to a random sample of `limit`)
pub fn product<F: HF>(doms: &[Vec<Vec<Num<F>>>], limit: usize, r: &mut R) -> Vec<Vec<Num<F>>> {
    let limit = if F::SMALL { limit } else { limit.min(8) };
    let total: u128 = doms.iter().fold(1u128, |a, d| a.saturating_mul(d.len() as u128));
    let mut out = vec![];
    if total <= limit as u128 {
        let mut idx = vec![0usize; doms.len()];
        if total == 0 {
            return out;
        }
        loop {
            out.push(
                idx.iter()
                    .zip(doms)
                    .flat_map(|(i, d)| d[*i].iter().cloned())
                    .collect(),
            );
            let mut k = 0;
            loop {
                if k == doms.len() {
                    return out;
                }
                idx[k] += 1;
                if idx[k] < doms[k].len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
        }
    }
    for _ in 0..limit {
        out.push(doms.iter().flat_map(|d| r.pick(d).clone()).collect());
    }
    out
}
pub fn dom_all<F: HF>() -> Vec<Vec<Num<F>>> {
    let v = if F::SMALL { all::<F>() } else { boundary::<F>() };
    v.into_iter().map(|x| vec![x]).collect()
}
pub fn dom_bit<F: HF>() -> Vec<Vec<Num<F>>> {
    vec![vec![of_u64(0)], vec![of_u64(1)]]
}
