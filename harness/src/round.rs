//! Rounding contracts: with every operation rounded to nearest, a computed value
//! is a sum of terms, each changed by at most k factors (1+d)^(+-1), |d| <= u
//! (the standard model of floating-point arithmetic; no overflow or underflow).
//! `Mg` keeps the sum of the terms' magnitudes and k; then
//!     |computed - exact| <= (k u / (1 - k u)) * sum of magnitudes.
use crate::eng::*;
use crate::poly::{Poly, Var};
use crate::rat::Rat;
use std::collections::{BTreeMap, HashMap};

/// |variables| to integer powers, and |atoms| (other polynomials) likewise
pub type Key = (Vec<(Var, i32)>, Vec<(usize, i32)>);

#[derive(Clone, Default, Debug)]
pub struct Mg {
    pub t: BTreeMap<Key, f64>,
    pub k: f64,
    /// computed = exact * k factors: right sign, zero only for zero
    pub rel: bool,
    pub nonneg: bool,
    /// relative error in rounding units, where more than the terms say is known
    pub re: Option<f64>,
}

#[derive(Default)]
pub struct Round {
    pub mags: HashMap<u32, Mg>,
    pub atoms: Vec<Poly>,
    /// |v| <= 1
    pub unit: Vec<Var>,
    /// divisors that may be assumed not to cancel: value, magnitude, factor
    pub depths: Vec<(Poly, Mg, f64)>,
}

fn kmul(a: &Key, b: &Key, s: i32) -> Key {
    fn m<T: Ord + Copy>(a: &[(T, i32)], b: &[(T, i32)], s: i32) -> Vec<(T, i32)> {
        let mut r: BTreeMap<T, i32> = a.iter().cloned().collect();
        for &(v, e) in b {
            *r.entry(v).or_insert(0) += s * e;
        }
        r.into_iter().filter(|x| x.1 != 0).collect()
    }
    (m(&a.0, &b.0, s), m(&a.1, &b.1, s))
}
fn tmul(a: &Mg, b: &Mg) -> BTreeMap<Key, f64> {
    let mut r = BTreeMap::new();
    for (x, c) in &a.t {
        for (y, d) in &b.t {
            *r.entry(kmul(x, y, 1)).or_insert(0.0) += c * d;
        }
    }
    r
}
fn is_pow2(r: &Rat) -> bool {
    let x = r.to_f64();
    x.is_normal() && x.to_bits() & ((1 << 52) - 1) == 0 && r.sub(&Rat::from_f64(x).unwrap()).is_zero()
}

/// an upper bound of a polynomial with positive coefficients where the squares
/// of its variables add up to at most 1
fn sphere_max(p: &[(Vec<(Var, i32)>, f64)]) -> f64 {
    // each monomial at its own maximum
    let mono = |u: &[(Var, i32)]| {
        let d: i32 = u.iter().map(|x| x.1).sum();
        u.iter().map(|x| (x.1 as f64 / d as f64).powf(x.1 as f64 / 2.0)).product::<f64>()
    };
    let mut quad: HashMap<Var, f64> = HashMap::new();
    let mut one = 0.0;
    let mut rest = 0.0;
    for (u, c) in p {
        match u[..] {
            [(v, 2)] => *quad.entry(v).or_insert(0.0) += c,
            [(v, 1), (w, 1)] => {
                *quad.entry(v).or_insert(0.0) += c / 2.0;
                *quad.entry(w).or_insert(0.0) += c / 2.0;
            }
            [] => one += c,
            _ => rest += c * mono(u),
        }
    }
    // a quadratic form is at most its largest row sum
    one + rest + quad.values().cloned().fold(0.0, f64::max)
}

impl Eng {
    pub fn leaf(&mut self, id: u32, v: Var, k: f64, unit: bool) {
        if let Some(r) = &mut self.round {
            if unit {
                r.unit.push(v);
            }
            let t = [((vec![(v, 1)], vec![]), 1.0)].into_iter().collect();
            r.mags.insert(id, Mg { t, k, rel: true, nonneg: false, re: None });
        }
    }
    fn cst(&self, id: u32) -> Option<Rat> {
        let f = &self.vals[id as usize];
        if f.poison || !f.den.is_empty() {
            return None;
        }
        if f.num.is_zero() { Some(Rat::zero()) } else { f.num.as_const() }
    }
    pub fn mag(&self, id: u32) -> Option<Mg> {
        let r = self.round.as_ref()?;
        if let Some(m) = r.mags.get(&id) {
            return Some(m.clone());
        }
        let c = self.cst(id)?;
        if c.is_zero() {
            return Some(Mg { rel: true, nonneg: true, ..Default::default() });
        }
        let x = c.to_f64();
        let exact = (x as f32) as f64 == x && c.sub(&Rat::from_f64(x)?).is_zero();
        let t = [((vec![], vec![]), x.abs())].into_iter().collect();
        Some(Mg { t, k: if exact { 0.0 } else { 1.0 }, rel: true, nonneg: x > 0.0, re: None })
    }
    /// |p| as a key and a factor
    fn abs_key(&mut self, p: &Poly) -> (Key, f64) {
        if p.0.len() == 1 {
            let (m, c) = &p.0[0];
            return ((m.0.iter().map(|&(v, e)| (v, e as i32)).collect(), vec![]), c.to_f64().abs());
        }
        let (c, q) = p.monic();
        // the square of an atom
        for i in 0..self.round.as_ref().unwrap().atoms.len() {
            let a = self.round.as_ref().unwrap().atoms[i].clone();
            let (d, s) = self.mul(&a, &a).monic();
            if s == q {
                return ((vec![], vec![(i, 2)]), (c.to_f64() / d.to_f64()).abs());
            }
        }
        let r = self.round.as_mut().unwrap();
        let i = match r.atoms.iter().position(|a| *a == q) {
            Some(i) => i,
            None => {
                r.atoms.push(q);
                r.atoms.len() - 1
            }
        };
        ((vec![], vec![(i, 1)]), c.to_f64().abs())
    }
    /// |value of a fraction|
    fn abs_frac(&mut self, f: &Frac) -> (Key, f64) {
        let (mut k, mut c) = self.abs_key(&f.num);
        for &(id, e) in &f.den.clone() {
            let p = self.factors[id].clone();
            let (k2, c2) = self.abs_key(&p);
            for _ in 0..e {
                k = kmul(&k, &k2, -1);
                c /= c2;
            }
        }
        (k, c)
    }
    /// relative error, in rounding units, of a value known not to cancel
    fn relative(&mut self, f: &Frac, m: &Mg) -> Result<f64, &'static str> {
        if m.rel {
            return Ok(m.k);
        }
        if let Some(k) = m.re {
            return Ok(k);
        }
        let (lc, q) = f.num.monic();
        let d = self.round.as_ref().unwrap().depths.iter().find(|d| f.den.is_empty() && d.0.monic().1 == q).cloned();
        let Some((p, spec, kappa)) = d else { return Err("that may cancel") };
        let ratio = (lc.to_f64() / p.monic().0.to_f64()).abs();
        match self.dominated(m, &spec) {
            Some(dom) => Ok(kappa * (dom / ratio).max(1.0) * m.k),
            None => Err("with terms that are not in its formula"),
        }
    }
    /// record the rounding of a result; false: outside the model
    pub fn track(&mut self, op: char, a: u32, b: u32, r: u32) -> Result<(), String> {
        if self.round.is_none() || self.vals[r as usize].poison {
            return Ok(());
        }
        let no = |w: &str| Err(format!("rounding: {w}"));
        let (Some(ma), Some(mb)) = (self.mag(a), self.mag(b)) else { return no("a value the model does not know") };
        let pow2 = |e: &Eng, i: u32| e.cst(i).map(|c| is_pow2(&c)).unwrap_or(false);
        let m = match op {
            'n' => Mg { nonneg: false, ..ma },
            '+' | '-' => {
                if ma.t.is_empty() && op == '+' {
                    mb
                } else if mb.t.is_empty() {
                    ma
                } else if ma.t.is_empty() {
                    Mg { nonneg: false, ..mb }
                } else if op == '-' && a == b {
                    Mg { rel: true, nonneg: true, ..Default::default() }
                } else {
                    let mut t = ma.t.clone();
                    for (k, c) in &mb.t {
                        *t.entry(k.clone()).or_insert(0.0) += c;
                    }
                    let nonneg = op == '+' && ma.nonneg && mb.nonneg;
                    Mg { t, k: ma.k.max(mb.k) + 1.0, rel: nonneg && ma.rel && mb.rel, nonneg, re: None }
                }
            }
            '*' => {
                let nonneg = (a == b && ma.rel) || (ma.nonneg && mb.nonneg);
                let one = if pow2(self, a) || pow2(self, b) { 0.0 } else { 1.0 };
                if ma.t.is_empty() || mb.t.is_empty() {
                    Mg { rel: true, nonneg: true, ..Default::default() }
                } else {
                    let (fa, fb) = (self.vals[a as usize].clone(), self.vals[b as usize].clone());
                    let re = match (self.relative(&fa, &ma), self.relative(&fb, &mb)) {
                        (Ok(x), Ok(y)) => Some(x + y + one),
                        _ => None,
                    };
                    Mg { t: tmul(&ma, &mb), k: ma.k + mb.k + one, rel: ma.rel && mb.rel, nonneg, re }
                }
            }
            '/' => {
                let fb = self.vals[b as usize].clone();
                let (kk, c) = self.abs_frac(&fb);
                let kb = if mb.rel {
                    mb.k
                } else {
                    match self.relative(&fb, &mb) {
                        Ok(k) => 2.0 * k,
                        Err(e) => return no(&format!("a divisor {e}")),
                    }
                };
                let one = if pow2(self, b) { 0.0 } else { 1.0 };
                let inv = Mg { t: [(kmul(&(vec![], vec![]), &kk, -1), 1.0 / c)].into_iter().collect(), ..Default::default() };
                Mg { t: tmul(&ma, &inv), k: ma.k + kb + one, rel: ma.rel, nonneg: ma.nonneg && mb.nonneg, re: None }
            }
            's' => {
                let ka = if ma.rel {
                    ma.k
                } else {
                    let f = self.vals[a as usize].clone();
                    match self.relative(&f, &ma) {
                        Ok(k) => 2.0 * k,
                        Err(e) => return no(&format!("the root of a value {e}")),
                    }
                };
                let f = self.vals[r as usize].clone();
                if f.num.is_zero() {
                    Mg { rel: true, nonneg: true, ..Default::default() }
                } else {
                    let (kk, c) = self.abs_frac(&f);
                    Mg { t: [(kk, c)].into_iter().collect(), k: (ka / 2.0).ceil() + 1.0, rel: true, nonneg: true, re: None }
                }
            }
            _ => return no("operation"),
        };
        self.round.as_mut().unwrap().mags.insert(r, m);
        Ok(())
    }
    /// least c found with a <= c * b termwise, using w^2 + i^2 + j^2 + k^2 = 1
    /// for the unit variables of a
    pub fn dominated(&self, a: &Mg, b: &Mg) -> Option<f64> {
        let unit = &self.round.as_ref()?.unit;
        // the polynomial in the unit variables in front of each other key
        let mut s: BTreeMap<Key, Vec<(Vec<(Var, i32)>, f64)>> = BTreeMap::new();
        for (k, c) in &a.t {
            let u: Vec<(Var, i32)> = k.0.iter().filter(|x| unit.contains(&x.0)).cloned().collect();
            if u.iter().any(|x| x.1 < 0) {
                return None;
            }
            let k2 = (k.0.iter().filter(|x| !unit.contains(&x.0)).cloned().collect(), k.1.clone());
            s.entry(k2).or_default().push((u, *c));
        }
        let mut m: f64 = 0.0;
        for (k, p) in &s {
            m = m.max(sphere_max(p) / b.t.get(k)?);
        }
        Some(m)
    }
    /// how a comparison of rounded values goes: as for exact ones, or any way
    pub fn comparable(&self, a: u32, b: u32) -> bool {
        if self.round.is_none() {
            return true;
        }
        let (Some(x), Some(y)) = (self.mag(a), self.mag(b)) else { return false };
        (x.k == 0.0 && y.k == 0.0) || (x.t.is_empty() && y.rel) || (y.t.is_empty() && x.rel)
    }
    pub fn any_way(&mut self, n: usize) -> usize {
        let c = if self.pos < self.prefix.len() {
            let c = self.prefix[self.pos];
            self.record.push((c, vec![]));
            c
        } else {
            self.record.push((0, (1..n as u8).collect()));
            0
        };
        self.pos += 1;
        self.path_desc.push(format!("a comparison of rounded values goes way {c}"));
        c as usize
    }
    pub fn show_key(&self, k: &Key) -> String {
        let mut s: Vec<String> = k.0.iter().map(|&(v, e)| format!("|{}|^{}", self.name(v), e)).collect();
        let r = self.round.as_ref().unwrap();
        s.extend(k.1.iter().map(|&(a, e)| format!("|{}|^{}", self.show(&r.atoms[a]), e)));
        if s.is_empty() { "1".into() } else { s.join(" ") }
    }
    /// obligation: |computed - exact| <= lim * u * (sum of the magnitudes of the terms)
    pub fn accurate(&mut self, label: &str, a: u32, terms: &[u32], lim: f64) {
        let Some(m) = self.mag(a) else {
            std::panic::resume_unwind(Box::new(Unsupported("rounding: a value the model does not know".into())));
        };
        let mut spec = Mg::default();
        for &t in terms {
            let f = self.vals[t as usize].clone();
            if f.num.is_zero() {
                continue;
            }
            let (k, c) = self.abs_frac(&f);
            *spec.t.entry(k).or_insert(0.0) += c;
        }
        match self.dominated(&m, &spec) {
            Some(c) if c * m.k <= lim => {
                if std::env::var("ROUND_SHOW").is_ok() {
                    eprintln!("{label}: {} of {lim}", c * m.k);
                }
                self.discharged(label, false)
            }
            // the bound is not tight: no claim
            Some(c) => std::panic::resume_unwind(Box::new(Unsupported(format!("{label}: bound of {} rounding units, {} wanted", c * m.k, lim)))),
            None => {
                let extra: Vec<String> = m.t.keys().filter(|k| self.dominated(&Mg { t: [((*k).clone(), 1.0)].into_iter().collect(), ..Default::default() }, &spec).is_none()).take(3).map(|k| self.show_key(k)).collect();
                self.fail(label, format!("the computation has terms that the formula does not have: {}", extra.join(", ")), None)
            }
        }
    }
    /// precondition: the terms of a divisor do not cancel by more than kappa
    pub fn depth(&mut self, z: u32, terms: &[u32], kappa: f64) {
        if self.round.is_none() {
            return;
        }
        let f = self.vals[z as usize].clone();
        self.abs_frac(&f);
        let mut spec = Mg::default();
        for &t in terms {
            let g = self.vals[t as usize].clone();
            let (k, c) = self.abs_frac(&g);
            *spec.t.entry(k).or_insert(0.0) += c;
        }
        let sq = Mg { t: tmul(&spec, &spec), ..Default::default() };
        let n2 = self.mul(&f.num, &f.num);
        self.add_fact(&n2, POS);
        let r = self.round.as_mut().unwrap();
        r.depths.push((f.num, spec, kappa));
        r.depths.push((n2, sq, kappa * kappa));
    }
}
