//! A prover that tries to cheat in circuits too large to search: it starts from an honest
//! assignment, keeps the inputs, changes some values, recomputes what depends on them and repairs
//! violated constraints.  Assignments that satisfy every constraint are recorded; whether they are
//! right is for the specification to say (Forged.tla).
use crate::enc::*;
use crate::rec::{Circ, Lc};
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;
use std::collections::{BTreeMap, BTreeSet};

/// how the value of a variable is found from earlier ones
#[derive(Clone)]
enum Rule {
    Free,
    /// the constraint gives it: it occurs in no factor
    Product(usize),
    /// the constraint, divided by the other factor; `one`: by a new product, so an inverse
    Quotient(usize, usize, bool),
    /// a bit of a linear combination (group, place)
    Bit(usize, usize),
}
struct Group<F: HF> {
    rest: Lc<F>,         // what is decomposed: rest = sum 2^k bit_k (up to the sign and the lowest bit)
    bits: Vec<(usize, usize)>, // (place, variable)
    unit: Num<F>,
    at: usize,
}
pub struct Forge<'a, F: HF> {
    c: &'a Circ<F>,
    of_var: Vec<Vec<usize>>,
    rule: Vec<Rule>,
    groups: Vec<Group<F>>,
    frozen: Vec<bool>,
    budget: i64,
    /// decompose numbers plus the modulus where that fits
    wrap: bool,
    r: R,
    readers: Option<std::rc::Rc<Vec<Vec<usize>>>>,
}
#[derive(Clone)]
struct Asg<F: HF> {
    a: Vec<Num<F>>,
    pinned: BTreeSet<usize>,
    dirty: BTreeSet<usize>,
}

fn z<F: HF>() -> Num<F> {
    of_u64(0)
}
fn inv<F: HF>(x: &Num<F>) -> Option<Num<F>> {
    x.0.inverse().map(Num)
}
fn mulp<F: HF>(a: &Num<F>, b: &Num<F>) -> Num<F> {
    let mut x = a.0;
    x.mul_assign(&b.0);
    Num(x)
}
fn addp<F: HF>(a: &Num<F>, b: &Num<F>) -> Num<F> {
    let mut x = a.0;
    x.add_assign(&b.0);
    Num(x)
}
fn negp<F: HF>(a: &Num<F>) -> Num<F> {
    let mut x = a.0;
    x.negate();
    Num(x)
}
fn is0<F: HF>(a: &Num<F>) -> bool {
    a.0.is_zero()
}

impl<'a, F: HF> Forge<'a, F> {
    pub fn new(c: &'a Circ<F>, seed: u32) -> Self {
        let mut of_var = vec![vec![]; c.n + 1];
        let mut frozen = vec![false; c.n + 1];
        frozen[0] = true;
        for g in c.groups.iter() {
            for v in g.vars.iter() {
                frozen[*v] = true;
            }
        }
        for (i, con) in c.cons.iter().enumerate() {
            let vs: BTreeSet<usize> = con.iter().flat_map(|l| l.iter().map(|t| t.0)).filter(|v| *v != 0 && *v <= c.n).collect();
            for v in vs {
                of_var[v].push(i);
            }
        }
        let mut f = Forge { c, of_var, rule: vec![Rule::Free; c.n + 1], groups: vec![], frozen, budget: 0, wrap: false, r: R::new(23, seed), readers: None };
        f.rules();
        f
    }
    fn rules(&mut self) {
        // powers of two, to recognise decompositions
        let mut pow: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
        let mut k: Num<F> = of_u64(1);
        for i in 0..F::NUM_BITS as usize {
            pow.insert(to_big(&k).to_bytes_le(), i);
            k = addp(&k, &k);
        }
        let c = self.c;
        for i in 0..c.cons.len() {
            let con = &c.cons[i];
            let max = con.iter().flat_map(|l| l.iter().map(|t| t.0)).max().unwrap_or(0);
            // bits of a sum: L * (L - 1) = 0 or L * 1 = ... with many yet unexplained variables in L
            let l = &con[0];
            let fresh: Vec<&(usize, Num<F>)> =
                l.iter().filter(|t| t.0 != 0 && !self.frozen[t.0] && matches!(self.rule[t.0], Rule::Free) && self.boolean(t.0)).collect();
            if fresh.len() >= 1 {
                for s in &[of_u64::<F>(1), negp(&of_u64::<F>(1))] {
                    let bits: Vec<(usize, usize)> = fresh
                        .iter()
                        .filter_map(|t| pow.get(&to_big(&mulp(&t.1, s)).to_bytes_le()).filter(|k| **k > 0).map(|k| (*k, t.0)))
                        .collect();
                    if bits.len() == fresh.len() {
                        let g = self.groups.len();
                        for (n, b) in bits.iter().enumerate() {
                            self.rule[b.1] = Rule::Bit(g, n);
                        }
                        let rest: Lc<F> = l.iter().filter(|t| !bits.iter().any(|b| b.1 == t.0)).cloned().collect();
                        self.groups.push(Group { rest, bits, unit: *s, at: i });
                        break;
                    }
                }
            }
            if max == 0 || max > c.n || self.frozen[max] || !matches!(self.rule[max], Rule::Free) {
                continue;
            }
            let has = |k: usize| con[k].iter().any(|t| t.0 == max);
            self.rule[max] = match (has(0), has(1), has(2)) {
                (false, false, true) => Rule::Product(i),
                _ => Rule::Free,
            };
        }
        // factors: the hint was there before its product
        for v in 1..=c.n {
            if self.frozen[v] || !matches!(self.rule[v], Rule::Free) {
                continue;
            }
            // a factor that makes a bit of an older sum (its inverse, if it has one), or the first use
            let mut at: Vec<usize> = self.of_var[v].clone();
            at.sort_by_key(|i| {
                let con = &c.cons[*i];
                let bit = con[2].len() == 1 && con[2][0].0 > v && self.bit_like(con[2][0].0);
                let old = (0..2).all(|k| con[k].iter().all(|t| t.0 <= v));
                (!(bit && old), *i)
            });
            if let Some(i) = at.first() {
                let con = &c.cons[*i];
                for k in 0..2 {
                    if con[k].len() == 1 && con[k][0].0 == v && !con[1 - k].iter().any(|t| t.0 == v) {
                        let newer = con[2].iter().any(|t| t.0 > v);
                        self.rule[v] = Rule::Quotient(*i, k, newer);
                    }
                }
            }
        }
    }
    /// is there a constraint saying that v is a bit, or nothing but a bit-like use?
    fn boolean(&self, v: usize) -> bool {
        self.bit_like(v) || self.of_var[v].len() < 3
    }
    fn bit_like(&self, v: usize) -> bool {
        self.of_var[v].iter().any(|i| {
            let con = &self.c.cons[*i];
            con[0].len() == 1 && con[0][0].0 == v && con[1].len() <= 2 && con[1].iter().any(|t| t.0 == v) && con[2].iter().all(|t| is0(&t.1))
        })
    }
    fn eval(&mut self, l: &Lc<F>, a: &[Num<F>]) -> Num<F> {
        self.budget -= l.len() as i64;
        let mut s = z::<F>();
        for (v, k) in l.iter() {
            s = addp(&s, &if *v == 0 { *k } else { mulp(k, &a[*v]) });
        }
        s
    }
    fn residual(&mut self, i: usize, a: &[Num<F>]) -> Num<F> {
        let c = self.c;
        let (x, y, w) = (self.eval(&c.cons[i][0], a), self.eval(&c.cons[i][1], a), self.eval(&c.cons[i][2], a));
        addp(&mulp(&x, &y), &negp(&w))
    }
    fn set(&self, s: &mut Asg<F>, v: usize, x: Num<F>) {
        if s.a[v] != x {
            s.a[v] = x;
            s.dirty.insert(v);
        }
    }
    fn rederive(&mut self, s: &mut Asg<F>, v: usize) {
        let c = self.c;
        match self.rule[v].clone() {
            Rule::Free => {}
            Rule::Product(i) => {
                let (x, y) = (self.eval(&c.cons[i][0], &s.a), self.eval(&c.cons[i][1], &s.a));
                let k = c.cons[i][2].iter().find(|t| t.0 == v).unwrap().1;
                let others: Lc<F> = c.cons[i][2].iter().filter(|t| t.0 != v).cloned().collect();
                let o = self.eval(&others, &s.a);
                if let Some(k) = inv(&k) {
                    self.set(s, v, mulp(&addp(&mulp(&x, &y), &negp(&o)), &k));
                }
            }
            Rule::Quotient(i, k, newer) => {
                let d = self.eval(&c.cons[i][1 - k], &s.a);
                let d = mulp(&d, &c.cons[i][k][0].1);
                let w = if newer { of_u64(1) } else { self.eval(&c.cons[i][2], &s.a) };
                let q = match inv(&d) {
                    Some(d) => mulp(&w, &d),
                    None if newer => of_u64(1),
                    None => return,
                };
                self.set(s, v, q);
            }
            Rule::Bit(g, n) => {
                if n == 0 {
                    let (rest, unit, bits) = (self.groups[g].rest.clone(), self.groups[g].unit, self.groups[g].bits.clone());
                    let x = mulp(&negp(&self.eval(&rest, &s.a)), &unit);
                    let mut x = to_big(&x);
                    if self.wrap {
                        let y = &x + modulus::<F>();
                        if y < BigUint::from(1u32) << (bits.iter().map(|b| b.0).max().unwrap() + 1) {
                            x = y;
                        }
                    }
                    for (k, b) in bits {
                        if !s.pinned.contains(&b) {
                            let bit = (&x >> k) & BigUint::from(1u32);
                            self.set(s, b, of_big(&bit));
                        }
                    }
                }
            }
        }
    }
    fn propagate(&mut self, s: &mut Asg<F>) {
        // variables in order of allocation; what a rule reads is older, or of an older group
        let mut todo: BTreeSet<usize> = BTreeSet::new();
        let mut done: BTreeMap<usize, u8> = BTreeMap::new();
        let mut fresh: Vec<usize> = s.dirty.iter().cloned().collect();
        let readers = self.readers();
        loop {
            for v in fresh.drain(..) {
                for u in readers[v].iter() {
                    if !s.pinned.contains(u) && !self.frozen[*u] && *done.get(u).unwrap_or(&0) < 3 {
                        todo.insert(*u);
                    }
                }
            }
            let u = match todo.iter().next() {
                Some(u) => *u,
                None => break,
            };
            todo.remove(&u);
            *done.entry(u).or_insert(0) += 1;
            if self.budget < 0 {
                return;
            }
            let before = s.a[u];
            let bits: Vec<usize> = match self.rule[u] {
                Rule::Bit(g, 0) => self.groups[g].bits.iter().map(|b| b.1).collect(),
                _ => vec![],
            };
            let old: Vec<Num<F>> = bits.iter().map(|b| s.a[*b]).collect();
            self.rederive(s, u);
            if s.a[u] != before {
                fresh.push(u);
            }
            for (b, o) in bits.iter().zip(old) {
                if s.a[*b] != o && *b != u {
                    fresh.push(*b);
                }
            }
        }
    }
    /// which variables' rules read each variable
    fn readers(&mut self) -> std::rc::Rc<Vec<Vec<usize>>> {
        if let Some(v) = &self.readers {
            return v.clone();
        }
            let mut v: Vec<Vec<usize>> = vec![vec![]; self.c.n + 1];
            for u in 1..=self.c.n {
                let c = self.c;
                let reads: Vec<usize> = match self.rule[u] {
                    Rule::Free => vec![],
                    Rule::Product(i) => c.cons[i].iter().flat_map(|l| l.iter().map(|t| t.0)).collect(),
                    Rule::Quotient(i, k, newer) => {
                        let mut w: Vec<usize> = c.cons[i][1 - k].iter().map(|t| t.0).collect();
                        if !newer {
                            w.extend(c.cons[i][2].iter().map(|t| t.0));
                        }
                        w
                    }
                    Rule::Bit(g, 0) => self.groups[g].rest.iter().map(|t| t.0).collect(),
                    Rule::Bit(..) => vec![],
                };
                for x in reads {
                    if x != 0 && x != u && x <= c.n {
                        v[x].push(u);
                    }
                }
            }
        let v = std::rc::Rc::new(v);
        self.readers = Some(v.clone());
        v
    }
    fn violated(&mut self, s: &Asg<F>) -> Option<usize> {
        let mut cs: BTreeSet<usize> = BTreeSet::new();
        for v in s.dirty.iter() {
            cs.extend(self.of_var[*v].iter());
        }
        for i in cs {
            if self.budget < 0 {
                return Some(i);
            }
            if !is0(&self.residual(i, &s.a)) {
                return Some(i);
            }
        }
        None
    }
    /// values of v that satisfy constraint i, the others as they are
    fn solve(&mut self, i: usize, v: usize, s: &Asg<F>) -> Vec<Num<F>> {
        let mut a = s.a.clone();
        let mut at = |f: &mut Self, x: u64| {
            a[v] = of_u64(x);
            f.residual(i, &a)
        };
        // residual = q v^2 + l v + k
        let (r0, r1, r2) = (at(self, 0), at(self, 1), at(self, 2));
        let two: Num<F> = of_u64(2);
        let d1 = addp(&r1, &negp(&r0)); // q + l
        let d2 = addp(&r2, &negp(&r0)); // 4q + 2l
        let q = mulp(&addp(&d2, &negp(&mulp(&two, &d1))), &inv(&two).unwrap());
        let l = addp(&d1, &negp(&q));
        if is0(&q) {
            return match inv(&l) {
                Some(l) => vec![mulp(&negp(&r0), &l)],
                None => vec![],
            };
        }
        let disc = addp(&mulp(&l, &l), &negp(&mulp(&of_u64(4), &mulp(&q, &r0))));
        let h = inv(&mulp(&two, &q)).unwrap();
        match root(&disc) {
            Some(w) => vec![mulp(&addp(&negp(&l), &w), &h), mulp(&addp(&negp(&l), &negp(&w)), &h)],
            None => vec![],
        }
    }
    fn search(&mut self, s: &Asg<F>, depth: usize, out: &mut Vec<Vec<Num<F>>>) {
        if self.budget < 0 || out.len() >= 40 {
            return;
        }
        let i = match self.violated(s) {
            None => {
                out.push(s.a.clone());
                return;
            }
            Some(i) => i,
        };
        if depth == 0 || self.budget < 0 {
            return;
        }
        let mut vs: Vec<usize> = self.c.cons[i].iter().flat_map(|l| l.iter().map(|t| t.0)).collect();
        vs.sort();
        vs.dedup();
        vs.retain(|v| *v != 0 && *v <= self.c.n && !self.frozen[*v] && !s.pinned.contains(v));
        let mut key: Vec<(usize, u64, usize)> = vs.iter().map(|v| (self.of_var[*v].len(), self.r.below(1 << 20), *v)).collect();
        key.sort();
        for (_, _, v) in key.into_iter().take(5) {
            for x in self.solve(i, v, s) {
                if x == s.a[v] {
                    continue;
                }
                let mut t = s.clone();
                self.set(&mut t, v, x);
                t.pinned.insert(v);
                self.propagate(&mut t);
                self.search(&t, depth - 1, out);
            }
        }
    }
    fn other(&mut self, x: Num<F>, round: usize) -> Num<F> {
        let one: Num<F> = of_u64(1);
        let bit = is0(&x) || x == one;
        match (round, bit) {
            (0, true) => addp(&one, &negp(&x)),
            (0, false) => negp(&x),
            (1, _) => self.r.bnum(),
            (3, _) => of_big(&(to_big(&x) >> 1)),
            (_, true) => of_u64(2),
            _ => addp(&x, &one),
        }
    }
    fn attempt(&mut self, w: &[Num<F>], changes: &[(usize, Num<F>)], depth: usize, out: &mut Vec<Vec<Num<F>>>) {
        let mut s = Asg { a: w.to_vec(), pinned: BTreeSet::new(), dirty: BTreeSet::new() };
        for (v, x) in changes {
            self.set(&mut s, *v, *x);
            s.pinned.insert(*v);
        }
        if s.dirty.is_empty() {
            return;
        }
        self.propagate(&mut s);
        self.search(&s, depth, out);
    }
    /// satisfying assignments other than w = (1, values of the variables) with the same inputs
    pub fn run(&mut self, w: &[Num<F>], budget: i64) -> Vec<Vec<Num<F>>> {
        let mut out = vec![];
        if self.c.n == 0 {
            return out;
        }
        self.budget = budget.max(3_000_000);
        // decompositions of the same number plus the modulus
        for g in 0..self.groups.len() {
            let (rest, unit, bits) = (self.groups[g].rest.clone(), self.groups[g].unit, self.groups[g].bits.clone());
            let top = bits.iter().map(|b| b.0).max().unwrap() + 1;
            let x = mulp(&negp(&self.eval(&rest, w)), &unit);
            let y = to_big(&x) + modulus::<F>();
            if y < BigUint::from(1u32) << top {
                let ch: Vec<(usize, Num<F>)> =
                    bits.iter().map(|b| (b.1, of_big(&((&y >> b.0) & BigUint::from(1u32))))).collect();
                self.attempt(w, &ch, 1, &mut out);
            }
        }
        // the negative of what is decomposed, and the modulus on top
        for g in 0..self.groups.len() {
            let rest = self.groups[g].rest.clone();
            let rest: Vec<_> = rest.into_iter().filter(|t| !matches!(self.rule[t.0], Rule::Bit(..))).take(3).collect();
            for (v, _) in rest {
                if v != 0 && v <= self.c.n && !self.frozen[v] && !matches!(self.rule[v], Rule::Product(_)) && self.budget > 0 {
                    self.wrap = true;
                    self.attempt(w, &[(v, negp(&w[v]))], 1, &mut out);
                    self.wrap = false;
                }
            }
        }
        let vs: Vec<usize> = (1..=self.c.n).filter(|v| !self.frozen[*v]).collect();
        let mut hints: Vec<(usize, u64, usize)> = vs
            .into_iter()
            .map(|v| {
                // what no constraint seems to determine comes first
                let k = match self.rule[v] {
                    Rule::Free => self.of_var[v].len().min(6),
                    Rule::Bit(..) => if self.bit_like(v) { 7 } else { 0 },
                    Rule::Quotient(..) => 8,
                    Rule::Product(_) => 9,
                };
                (k, self.r.below(1 << 20), v)
            })
            .collect();
        hints.sort();
        // hints first, in every way; then every variable a little before any of them much
        let depth = if self.c.n < 600 { 3 } else { 2 };
        let first = hints.iter().filter(|h| h.0 < 7).count();
        let per = (budget * 4).max(1_000_000);
        let mut total = if budget == 0 { 0 } else { budget.max(self.c.n as i64 * budget / 50) };
        for (k, (_, _, v)) in hints[..first].iter().cloned().enumerate() {
            if total <= 0 {
                break;
            }
            // an equal share for each of them
            let share = total / (first - k) as i64;
            for round in 0..4 {
                self.budget = share.min(per) / 4;
                let at = self.budget;
                let y = self.other(w[v], round);
                self.attempt(w, &[(v, y)], depth, &mut out);
                total -= at - self.budget;
            }
        }
        if budget == 0 {
            return out;
        }
        self.budget = budget;
        for round in 0..3 {
            for (_, _, v) in hints[first..].iter().cloned() {
                if self.budget < 0 {
                    return out;
                }
                let y = self.other(w[v], round);
                self.attempt(w, &[(v, y)], depth, &mut out);
            }
        }
        out
    }
}
fn root<F: HF>(x: &Num<F>) -> Option<Num<F>> {
    x.0.sqrt().map(Num).filter(|r| mulp(r, r) == *x)
}

impl<'a, F: HF> Forge<'a, F> {
    pub fn satisfied(&mut self, w: &[Num<F>]) -> bool {
        (0..self.c.cons.len()).all(|i| is0(&self.residual(i, w)))
    }
    pub fn outputs(&mut self, w: &[Num<F>]) -> Vec<Num<F>> {
        let c = self.c;
        c.ins.iter().chain(c.outs.iter()).map(|l| self.eval(l, w)).collect()
    }
}
