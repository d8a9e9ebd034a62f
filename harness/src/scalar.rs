//! Goals are written once over `Scalar` and run both symbolically (proof) and
//! on machine floats (replay of counterexamples on the real code).
use crate::eng::*;
use crate::poly::Poly;
use crate::rat::Rat;
use crate::sym::{with, Sym};
use simba::scalar::{ComplexField, RealField};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub trait Scalar: RealField + Copy + serde::Serialize + serde::de::DeserializeOwned + 'static {
    const NUMERIC: bool;
    /// an arbitrary real
    fn var(name: &str) -> Self;
    fn var_pos(name: &str) -> Self {
        let v = Self::var_p(name);
        Self::assume(v > Self::zero());
        v
    }
    /// as `var`, the numeric sampler prefers positive values
    fn var_p(name: &str) -> Self;
    fn var_nz(name: &str) -> Self {
        let v = Self::var(name);
        Self::assume_nz(v);
        v
    }
    /// w, i, j, k with w^2+i^2+j^2+k^2 = 1
    fn unit_quat(name: &str) -> [Self; 4];
    /// s, c with s^2 + c^2 = 1
    fn unit2(name: &str) -> [Self; 2];
    /// a, b, c with a^2 + b^2 + c^2 = 1
    fn unit3(name: &str) -> [Self; 3];
    fn assume(c: bool);
    fn assume_nz(x: Self);
    fn assume_pos(x: Self);
    /// x^2 may come up under a square root
    fn hint_sqrt(x: Self);
    /// an intermediate value may equal x: lets the engine shrink it to x
    fn hint(_x: Self) {}
    fn check_eq(label: &str, a: Self, b: Self);
    fn check(label: &str, c: bool);
    fn r(n: i64, d: i64) -> Self;
    fn int(n: i64) -> Self {
        Self::r(n, 1)
    }
    /// magnitude of intermediate quantities, used for the numeric tolerance
    fn scale_hint(_x: Self) {}
    fn show(x: Self) -> String;
    /// from here on every operation rounds to nearest
    fn rounding() {}
    /// an input of any magnitude
    fn wide(name: &str) -> Self {
        Self::var(name)
    }
    /// |computed - spec| <= lim * u * (|t1| + |t2| + ...), u the unit roundoff
    fn accurate(label: &str, computed: Self, spec: Self, terms: &[Self], lim: f64);
    /// precondition: |t1| + |t2| + ... <= kappa * |z|, z the sum of those terms
    fn depth(z: Self, terms: &[Self], kappa: f64);
}

impl Scalar for Sym {
    const NUMERIC: bool = false;
    fn var(name: &str) -> Sym {
        with(|e| {
            let v = e.new_var(name, true);
            let i = e.of_poly(Poly::var(v));
            e.leaf(i, v, 0.0, false);
            Sym(i)
        })
    }
    fn var_p(name: &str) -> Sym {
        Self::var(name)
    }
    fn var_pos(name: &str) -> Sym {
        let v = Self::var(name);
        Self::assume_pos(v);
        v
    }
    fn unit_quat(name: &str) -> [Sym; 4] {
        with(|e| {
            let i = e.new_var(&format!("{name}_i"), true);
            let j = e.new_var(&format!("{name}_j"), true);
            let k = e.new_var(&format!("{name}_k"), true);
            let w = e.new_var(&format!("{name}_w"), true);
            let sq = |v| Poly::var(v).mul(&Poly::var(v));
            e.vars[w as usize].rel = Some(Poly::one().sub(&sq(i)).sub(&sq(j)).sub(&sq(k)));
            [w, i, j, k].map(|v| {
                let n = e.of_poly(Poly::var(v));
                // a unit quaternion up to the rounding of its entries
                e.leaf(n, v, 1.0, true);
                Sym(n)
            })
        })
    }
    fn unit2(name: &str) -> [Sym; 2] {
        with(|e| {
            let s = e.new_var(&format!("{name}_s"), true);
            let c = e.new_var(&format!("{name}_c"), true);
            e.vars[c as usize].rel = Some(Poly::one().sub(&Poly::var(s).mul(&Poly::var(s))));
            [s, c].map(|v| Sym(e.of_poly(Poly::var(v))))
        })
    }
    fn unit3(name: &str) -> [Sym; 3] {
        with(|e| {
            let a = e.new_var(&format!("{name}_a"), true);
            let b = e.new_var(&format!("{name}_b"), true);
            let c = e.new_var(&format!("{name}_c"), true);
            let sq = |v| Poly::var(v).mul(&Poly::var(v));
            e.vars[c as usize].rel = Some(Poly::one().sub(&sq(a)).sub(&sq(b)));
            [a, b, c].map(|v| Sym(e.of_poly(Poly::var(v))))
        })
    }
    fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Infeasible));
        }
    }
    fn assume_nz(x: Sym) {
        let f = x.frac();
        if f.poison {
            Self::assume(false);
        }
        with(|e| e.add_fact(&f.num, NEG | POS));
    }
    fn assume_pos(x: Sym) {
        let f = x.frac();
        if f.poison {
            Self::assume(false);
        }
        if f.den.is_empty() {
            with(|e| e.add_fact(&f.num, POS));
        } else {
            Self::assume(x > Sym::int(0));
        }
    }
    fn hint_sqrt(x: Sym) {
        let f = x.frac();
        if f.den.is_empty() && !f.poison {
            with(|e| e.hints.push(f.num));
        }
    }
    fn hint(x: Sym) {
        let f = x.frac();
        if f.den.is_empty() && !f.poison {
            with(|e| e.add_cand(&f.num));
        }
    }
    fn check_eq(label: &str, a: Sym, b: Sym) {
        let (a, b) = (a.frac(), b.frac());
        with(|e| e.check_eq(label, &a, &b));
    }
    fn check(label: &str, c: bool) {
        with(|e| {
            if c {
                e.discharged(label, false)
            } else {
                e.fail(label, "condition is false on this path".into(), None)
            }
        });
    }
    fn rounding() {
        with(|e| e.round = Some(Default::default()));
    }
    fn accurate(label: &str, a: Sym, spec: Sym, terms: &[Sym], lim: f64) {
        Self::check_eq(&format!("{label}: exact value"), a, spec);
        let t: Vec<u32> = terms.iter().map(|t| t.0).collect();
        with(|e| e.accurate(&format!("{label}: rounding error"), a.0, &t, lim));
    }
    fn depth(z: Sym, terms: &[Sym], kappa: f64) {
        Self::assume_nz(z);
        let t: Vec<u32> = terms.iter().map(|t| t.0).collect();
        with(|e| e.depth(z.0, &t, kappa));
    }
    fn r(n: i64, d: i64) -> Sym {
        Sym::rat(Rat::int(n).div(&Rat::int(d)))
    }
    fn show(x: Sym) -> String {
        x.show()
    }
}

/// State of one numeric run.
#[derive(Default)]
pub struct NumCtx {
    pub rng: u64,
    pub fixed: BTreeMap<String, f64>,
    pub used: BTreeMap<String, f64>,
    pub fails: Vec<(String, String)>,
    pub checks: usize,
    pub scale: f64,
    pub wild: bool,
    /// how the values of this run are drawn (0: not chosen yet)
    pub mode: u64,
}
thread_local! {
    pub static NUM: RefCell<NumCtx> = RefCell::new(NumCtx::default());
}
pub struct Reject;
/// Sizes and values from the numbers written in the code under check.
pub fn dict() -> &'static (Vec<usize>, Vec<f64>) {
    static D: std::sync::OnceLock<(Vec<usize>, Vec<f64>)> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let s = std::env::var("VERIF_DICT").unwrap_or_default();
        let (a, b) = s.split_once(';').unwrap_or(("", ""));
        let mut n: Vec<usize> = a.split_whitespace().filter_map(|x| x.parse().ok()).flat_map(|k: usize| [k - 1, k, k + 1, 2 * k, 2 * k + 1]).collect();
        n.sort();
        n.dedup();
        (n, b.split_whitespace().filter_map(|x| x.parse().ok()).collect())
    })
}

pub fn nctx<T>(f: impl FnOnce(&mut NumCtx) -> T) -> T {
    NUM.with(|n| f(&mut n.borrow_mut()))
}
impl NumCtx {
    pub fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn uni(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn val(&mut self, name: &str) -> f64 {
        let mut n = name.to_string();
        while self.used.contains_key(&n) {
            n.push('_');
        }
        let v = if let Some(v) = self.fixed.get(&n) {
            *v
        } else {
            // now and then a run of mostly zeros, or of values from a small grid
            let mode = match self.mode {
                0 => {
                    self.mode = 1 + self.next() % 12;
                    self.mode
                }
                m => m,
            };
            let pick = match mode {
                1 if self.next() % 2 == 0 => 0,
                2 => self.next() % 5,
                _ => self.next() % 16,
            };
            match pick {
                8 if !dict().1.is_empty() && self.next() % 2 == 0 => {
                    // a number written in the code, exactly or nearly, either sign
                    let v = dict().1[self.next() as usize % dict().1.len()];
                    v * [1.0, 1.0, 1.0, 0.999, 1.001, 1.5][self.next() as usize % 6] * [1.0, -1.0][self.next() as usize % 2]
                }
                0 => 0.0,
                1 => 1.0,
                2 => -1.0,
                3 => 2.0,
                4 => -0.5,
                5 => (self.uni() - 0.5) * 400.0,
                6 if self.wild => (self.uni() - 0.5) * 1e5,
                7 if self.wild => (self.uni() - 0.5) * 1e-3,
                _ => (self.uni() - 0.5) * 8.0,
            }
        };
        self.used.insert(n, v);
        v
    }
}

macro_rules! num_scalar {
    ($t:ty, $tol:expr, $nz:expr) => {
        impl Scalar for $t {
            const NUMERIC: bool = true;
            fn var(name: &str) -> $t {
                nctx(|c| c.val(name)) as $t
            }
            fn var_p(name: &str) -> $t {
                nctx(|c| {
                    let v = c.val(name);
                    if c.fixed.contains_key(name) {
                        v
                    } else {
                        let v = v.abs();
                        c.used.insert(name.to_string(), v);
                        v
                    }
                }) as $t
            }
            fn unit_quat(name: &str) -> [$t; 4] {
                nctx(|c| {
                    let n = ["w", "i", "j", "k"].map(|s| format!("{name}_{s}"));
                    if n.iter().any(|x| c.fixed.contains_key(x)) {
                        let mut q = n.clone().map(|x| c.fixed.get(&x).cloned().unwrap_or(0.0));
                        let m = q.iter().map(|x| x * x).sum::<f64>().sqrt();
                        if m < 1e-9 {
                            q = [1.0, 0.0, 0.0, 0.0];
                        }
                        let m = q.iter().map(|x| x * x).sum::<f64>().sqrt();
                        for k in 0..4 {
                            c.used.insert(n[k].clone(), q[k]);
                        }
                        return q.map(|x| (x / m) as $t);
                    }
                    let q = loop {
                        let special = c.next() % 4 == 0;
                        if !special && c.next() % 8 == 0 {
                            // a turn by a small angle, or nearly a half turn
                            let a = 10f64.powf(-8.0 * c.uni());
                            let a = if c.next() % 3 == 0 { std::f64::consts::PI - a } else { a };
                            let mut u = [0; 3].map(|_| c.uni() * 2.0 - 1.0);
                            if c.next() % 3 == 0 {
                                u = [0.0; 3];
                                u[c.next() as usize % 3] = 1.0;
                            }
                            let m = u.iter().map(|x| x * x).sum::<f64>().sqrt();
                            if m > 0.1 {
                                let (s, k) = (0.5 * a).sin_cos();
                                let g = [1.0, -1.0][c.next() as usize % 2];
                                break [g * k, g * s * u[0] / m, g * s * u[1] / m, g * s * u[2] / m];
                            }
                        }
                        let q = [0; 4].map(|_| {
                            if special {
                                ((c.next() % 3) as f64) - 1.0
                            } else {
                                c.uni() * 2.0 - 1.0
                            }
                        });
                        let m = q.iter().map(|x: &f64| x * x).sum::<f64>();
                        if m > 0.01 {
                            break q.map(|x| x / m.sqrt());
                        }
                    };
                    for k in 0..4 {
                        c.used.insert(n[k].clone(), q[k]);
                    }
                    q.map(|x| x as $t)
                })
            }
            fn unit2(name: &str) -> [$t; 2] {
                nctx(|c| {
                    let (a, b) = (format!("{name}_s"), format!("{name}_c"));
                    let (s, k) = match (c.fixed.get(&a), c.fixed.get(&b)) {
                        (Some(s), Some(k)) if s * s + k * k > 1e-9 => (*s, *k),
                        _ => {
                            let t = c.uni() * 6.283185307179586;
                            t.sin_cos()
                        }
                    };
                    let m = (s * s + k * k).sqrt();
                    c.used.insert(a, s);
                    c.used.insert(b, k);
                    [(s / m) as $t, (k / m) as $t]
                })
            }
            fn unit3(name: &str) -> [$t; 3] {
                nctx(|c| {
                    let n = ["a", "b", "c"].map(|s| format!("{name}_{s}"));
                    let mut q = n.clone().map(|x| c.fixed.get(&x).cloned().unwrap_or(0.0));
                    let mut m = q.iter().map(|x| x * x).sum::<f64>();
                    while !(m > 1e-6 && m.is_finite()) {
                        q = [0; 3].map(|_| c.uni() * 2.0 - 1.0);
                        m = q.iter().map(|x| x * x).sum::<f64>();
                        if m > 1.0 {
                            m = 0.0;
                        }
                    }
                    for k in 0..3 {
                        q[k] /= m.sqrt();
                        c.used.insert(n[k].clone(), q[k]);
                    }
                    q.map(|x| x as $t)
                })
            }
            fn assume(c: bool) {
                if !c {
                    std::panic::resume_unwind(Box::new(Reject));
                }
            }
            fn assume_nz(x: $t) {
                let lim = if nctx(|c| !c.fixed.is_empty()) { 0.0 } else { $nz };
                Self::assume(ComplexField::abs(x) > lim);
            }
            fn assume_pos(x: $t) {
                let lim = if nctx(|c| !c.fixed.is_empty()) { 0.0 } else { $nz };
                Self::assume(x > lim);
            }
            fn hint_sqrt(_x: $t) {}
            fn check_eq(label: &str, a: $t, b: $t) {
                nctx(|c| {
                    c.checks += 1;
                    let (x, y) = (a as f64, b as f64);
                    let tol = $tol * (1.0 + x.abs().max(y.abs()) + c.scale);
                    if !((x - y).abs() <= tol) {
                        c.fails.push((label.to_string(), format!("{:?} vs {:?}", a, b)));
                    }
                })
            }
            fn check(label: &str, k: bool) {
                nctx(|c| {
                    c.checks += 1;
                    if !k {
                        c.fails.push((label.to_string(), "condition is false".into()));
                    }
                })
            }
            fn wide(name: &str) -> $t {
                nctx(|c| {
                    if let Some(v) = c.fixed.get(name).cloned() {
                        c.used.insert(name.to_string(), v);
                        return v;
                    }
                    let e = match c.next() % 4 {
                        0 => 0.0,
                        1 => 1.0,
                        // very far apart where the exponent range allows it
                        2 if <$t>::MAX_EXP > 200 && c.next() % 4 == 0 => c.uni() * 24.0 - 12.0,
                        _ => c.uni() * 7.0 - 3.5,
                    };
                    let s = if c.next() % 2 == 0 { 1.0 } else { -1.0 };
                    // a value of the scalar type, so that a replay reads back the same
                    let v = ((s * (1.0 + c.uni() * 9.0) * (10.0f64).powf(e)) as $t) as f64;
                    c.used.insert(name.to_string(), v);
                    v
                }) as $t
            }
            fn accurate(label: &str, a: $t, spec: $t, terms: &[$t], lim: f64) {
                nctx(|c| {
                    c.checks += 1;
                    let s: f64 = terms.iter().map(|t| (*t as f64).abs()).sum();
                    // both sides are rounded
                    let tol = 2.0 * lim * (<$t>::EPSILON as f64 / 2.0) * s + <$t>::MIN_POSITIVE as f64;
                    if s.is_finite() && !((a as f64 - spec as f64).abs() <= tol) {
                        c.fails.push((label.to_string(), format!("{:?} vs {:?}, error over {:?}", a, spec, tol)));
                    }
                })
            }
            fn depth(z: $t, terms: &[$t], kappa: f64) {
                let s: f64 = terms.iter().map(|t| (*t as f64).abs()).sum();
                Self::assume(z != 0.0 && s <= kappa * (z as f64).abs());
            }
            fn r(n: i64, d: i64) -> $t {
                n as $t / d as $t
            }
            fn scale_hint(x: $t) {
                nctx(|c| c.scale = c.scale.max((x as f64).abs()))
            }
            fn show(x: $t) -> String {
                format!("{:?}", x)
            }
        }
    };
}
num_scalar!(f64, 1e-6, 0.05);
num_scalar!(f32, 2e-2, 0.2);
