//! `Sym`: a scalar type implementing nalgebra's `RealField` whose values are
//! exact symbolic real numbers. Instantiating the code under test with it makes
//! every run of that code a generation of verification conditions.
use crate::eng::*;
use crate::poly::Poly;
use crate::rat::Rat;
use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use simba::scalar::{ComplexField, Field, RealField, SubsetOf};
use simba::simd::SimdValue;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

pub fn with<T>(f: impl FnOnce(&mut Eng) -> T) -> T {
    ENG.with(|e| f(&mut e.borrow_mut()))
}
pub fn unsupported(what: &str) -> ! {
    std::panic::resume_unwind(Box::new(Unsupported(what.to_string())))
}

impl Sym {
    pub fn rat(r: Rat) -> Sym {
        Sym(with(|e| e.konst(r)))
    }
    pub fn int(n: i64) -> Sym {
        Sym::rat(Rat::int(n))
    }
    pub fn frac(self) -> Frac {
        with(|e| e.get(self.0))
    }
    pub fn from_f64_exact(x: f64) -> Sym {
        if !x.is_finite() {
            return Sym(with(|e| e.poison("non-finite constant")));
        }
        // multiples of pi
        if x != 0.0 {
            for (n, d) in [(1i64, 1i64), (2, 1), (1, 2), (1, 3), (1, 4), (1, 6), (1, 8), (2, 3), (3, 4), (3, 2)] {
                let v = std::f64::consts::PI * n as f64 / d as f64;
                if x.abs() == v {
                    let p = Sym::pi_sym() * Sym::rat(Rat::int(n).div(&Rat::int(d)));
                    return if x < 0.0 { -p } else { p };
                }
            }
        }
        Sym::rat(Rat::from_f64(x).unwrap())
    }
    pub fn pi_sym() -> Sym {
        with(|e| {
            let v = match e.pi {
                Some(v) => v,
                None => {
                    let v = e.new_var("pi", false);
                    e.pi = Some(v);
                    e.add_fact(&Poly::var(v), POS);
                    // 3 < pi < 4
                    let a = Poly::var(v).sub(&Poly::konst(Rat::int(3)));
                    e.add_fact(&a, POS);
                    let b = Poly::var(v).sub(&Poly::konst(Rat::int(4)));
                    e.add_fact(&b, NEG);
                    v
                }
            };
            Sym(e.of_poly(Poly::var(v)))
        })
    }
    /// decide the sign of self - other
    fn cmp3(&self, o: &Sym, groups: &[u8]) -> Option<usize> {
        with(|e| {
            let (a, b) = (e.get(self.0), e.get(o.0));
            if a.poison || b.poison {
                return None;
            }
            if !e.comparable(self.0, o.0) {
                return Some(e.any_way(groups.len()));
            }
            let d = e.f_add(&a, &b, true);
            if let (Some(c), true) = (d.num.as_const(), d.den.is_empty()) {
                let s = match c.sign() {
                    0 => ZERO,
                    1 => POS,
                    _ => NEG,
                };
                return groups.iter().position(|g| g & s != 0);
            }
            Some(e.decide_frac(&d, groups))
        })
    }
    pub fn show(&self) -> String {
        with(|e| {
            let f = e.get(self.0);
            if f.poison {
                return "undefined".into();
            }
            let mut s = format!("({})", e.show(&f.num));
            for (id, k) in &f.den {
                let p = e.factors[*id].clone();
                s.push_str(&format!(" / ({})^{}", e.show(&p), k));
            }
            s
        })
    }
}

fn tracked(e: &mut Eng, op: char, a: u32, b: u32, r: u32) -> u32 {
    match e.track(op, a, b, r) {
        Ok(()) => r,
        Err(s) => unsupported(&s),
    }
}
macro_rules! binop {
    ($op:literal,$tr:ident,$f:ident,$atr:ident,$af:ident,|$e:ident,$a:ident,$b:ident| $body:expr) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                Sym(with(|$e| {
                    let ($a, $b) = ($e.get(self.0), $e.get(o.0));
                    let r = $body;
                    let r = $e.push(r);
                    tracked($e, $op, self.0, o.0, r)
                }))
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $f(self, o: &Sym) -> Sym {
                $tr::$f(self, *o)
            }
        }
        impl $atr for Sym {
            fn $af(&mut self, o: Sym) {
                *self = $tr::$f(*self, o);
            }
        }
        impl<'a> $atr<&'a Sym> for Sym {
            fn $af(&mut self, o: &Sym) {
                *self = $tr::$f(*self, *o);
            }
        }
    };
}
binop!('+', Add, add, AddAssign, add_assign, |e, a, b| e.f_add(&a, &b, false));
binop!('-', Sub, sub, SubAssign, sub_assign, |e, a, b| e.f_add(&a, &b, true));
binop!('*', Mul, mul, MulAssign, mul_assign, |e, a, b| e.f_mul(&a, &b));
binop!('/', Div, div, DivAssign, div_assign, |e, a, b| e.f_div(&a, &b));
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, _o: Sym) -> Sym {
        unsupported("rem")
    }
}
impl RemAssign for Sym {
    fn rem_assign(&mut self, _o: Sym) {
        unsupported("rem")
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        let f = self.frac();
        Sym(with(|e| {
            let r = e.f_neg(&f);
            let r = e.push(r);
            tracked(e, 'n', self.0, self.0, r)
        }))
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        if self.0 == o.0 {
            return !self.frac().poison;
        }
        matches!(self.cmp3(o, &[ZERO, NEG | POS]), Some(0))
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        match self.cmp3(o, &[NEG, ZERO, POS]) {
            Some(0) => Some(Ordering::Less),
            Some(1) => Some(Ordering::Equal),
            Some(2) => Some(Ordering::Greater),
            _ => None,
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        matches!(self.cmp3(o, &[NEG, ZERO | POS]), Some(0))
    }
    fn le(&self, o: &Sym) -> bool {
        matches!(self.cmp3(o, &[NEG | ZERO, POS]), Some(0))
    }
    fn gt(&self, o: &Sym) -> bool {
        matches!(self.cmp3(o, &[POS, ZERO | NEG]), Some(0))
    }
    fn ge(&self, o: &Sym) -> bool {
        matches!(self.cmp3(o, &[POS | ZERO, NEG]), Some(0))
    }
}
impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.show())
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.show())
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym::int(0)
    }
    fn is_zero(&self) -> bool {
        *self == Sym::int(0)
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym::int(1)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_s: &str, _r: u32) -> Result<Sym, ()> {
        unsupported("from_str_radix")
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(Sym::int(n))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        Some(Sym::int(n as i64))
    }
    fn from_f64(n: f64) -> Option<Sym> {
        Some(Sym::from_f64_exact(n))
    }
}
impl Signed for Sym {
    fn abs(&self) -> Sym {
        if *self >= Sym::int(0) {
            *self
        } else {
            if self.frac().poison {
                return *self;
            }
            -*self
        }
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        if *self <= *o {
            Sym::int(0)
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> Sym {
        // as for floats: +0.0.signum() == 1
        if *self >= Sym::int(0) {
            Sym::int(1)
        } else {
            Sym::int(-1)
        }
    }
    fn is_positive(&self) -> bool {
        *self > Sym::int(0)
    }
    fn is_negative(&self) -> bool {
        *self < Sym::int(0)
    }
}
impl SimdValue for Sym {
    const LANES: usize = 1;
    type Element = Sym;
    type SimdBool = bool;
    fn splat(v: Sym) -> Sym {
        v
    }
    fn extract(&self, _i: usize) -> Sym {
        *self
    }
    unsafe fn extract_unchecked(&self, _i: usize) -> Sym {
        *self
    }
    fn replace(&mut self, _i: usize, v: Sym) {
        *self = v
    }
    unsafe fn replace_unchecked(&mut self, _i: usize, v: Sym) {
        *self = v
    }
    fn select(self, c: bool, o: Sym) -> Sym {
        if c {
            self
        } else {
            o
        }
    }
}
impl Field for Sym {}
impl SubsetOf<Sym> for Sym {
    fn to_superset(&self) -> Sym {
        *self
    }
    fn from_superset_unchecked(e: &Sym) -> Sym {
        *e
    }
    fn is_in_subset(_e: &Sym) -> bool {
        true
    }
}
macro_rules! sub {
    ($t:ty) => {
        impl SubsetOf<Sym> for $t {
            fn to_superset(&self) -> Sym {
                Sym::from_f64_exact(*self as f64)
            }
            fn from_superset_unchecked(e: &Sym) -> $t {
                let f = e.frac();
                match (f.num.as_const(), f.den.is_empty(), f.poison) {
                    (Some(c), true, false) => c.to_f64() as $t,
                    (_, _, true) => <$t>::NAN,
                    _ => unsupported("conversion of a symbolic value to a machine float"),
                }
            }
            fn is_in_subset(_e: &Sym) -> bool {
                true
            }
        }
    };
}
sub!(f64);
sub!(f32);

fn eps() -> Sym {
    let e = if with(|e| e.is_single()) { f32::EPSILON as f64 } else { f64::EPSILON };
    Sym::rat(Rat::from_f64(e).unwrap())
}
impl AbsDiffEq for Sym {
    type Epsilon = Sym;
    fn default_epsilon() -> Sym {
        eps()
    }
    fn abs_diff_eq(&self, o: &Sym, e: Sym) -> bool {
        Signed::abs(&(*self - *o)) <= e
    }
}
impl RelativeEq for Sym {
    fn default_max_relative() -> Sym {
        eps()
    }
    fn relative_eq(&self, o: &Sym, e: Sym, r: Sym) -> bool {
        // approx's definition for floats, on finite values
        if self == o {
            return true;
        }
        if self.frac().poison || o.frac().poison {
            return false;
        }
        let d = Signed::abs(&(*self - *o));
        if d <= e {
            return true;
        }
        let (a, b) = (Signed::abs(self), Signed::abs(o));
        let m = if b > a { b } else { a };
        d <= m * r
    }
}
impl UlpsEq for Sym {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, _o: &Sym, _e: Sym, _m: u32) -> bool {
        unsupported("ulps_eq")
    }
}

/// the integer n with n <= x < n + 1
fn floor(x: Sym) -> Sym {
    let f = x.frac();
    if f.poison {
        return x;
    }
    if let (Some(c), true) = (f.num.as_const(), f.den.is_empty()) {
        return match c {
            Rat::S(n, d) => Sym::rat(Rat::int((n as i128).div_euclid(d as i128) as i64)),
            _ => unsupported("floor of a long rational number"),
        };
    }
    if with(|e| e.round.is_some()) {
        unsupported("floor of a rounded value");
    }
    let n = with(|e| {
        if let Some((_, _, r)) = e.floors.iter().find(|(a, b, _)| *a == f.num && *b == f.den) {
            return Ok(Sym(*r));
        }
        let v = e.new_var("floor", false);
        e.ints.push(v);
        let r = e.of_poly(Poly::var(v));
        e.floors.push((f.num.clone(), f.den.clone(), r));
        Err(Sym(r))
    });
    match n {
        Ok(n) => n,
        Err(n) => {
            if x < n || x >= n + Sym::int(1) {
                std::panic::resume_unwind(Box::new(Infeasible));
            }
            n
        }
    }
}

/// (sin, cos) of x
fn trig(x: Sym) -> (Sym, Sym) {
    let f = x.frac();
    if f.poison {
        return (x, x);
    }
    if f.num.is_zero() {
        return (Sym::int(0), Sym::int(1));
    }
    // rational multiple of pi
    let pm = with(|e| {
        if let (Some(pi), true, 1) = (e.pi, f.den.is_empty(), f.num.0.len()) {
            let (m, c) = &f.num.0[0];
            if m.0 == vec![(pi, 1)] {
                return Some(c.clone());
            }
        }
        None
    });
    if let Some(c) = pm {
        // c = k/2 ?
        let k = c.mul(&Rat::int(2));
        if let Rat::S(n, 1) = k {
            return match n.rem_euclid(4) {
                0 => (Sym::int(0), Sym::int(1)),
                1 => (Sym::int(1), Sym::int(0)),
                2 => (Sym::int(0), Sym::int(-1)),
                _ => (Sym::int(-1), Sym::int(0)),
            };
        }
    }
    with(|e| {
        for (n, d, s, c) in &e.trig {
            if *n == f.num && *d == f.den {
                return (Sym(*s), Sym(*c));
            }
        }
        let s = e.new_var("sin", true);
        let c = e.new_var("cos", true);
        e.vars[c as usize].rel = Some(Poly::one().sub(&Poly::var(s).mul(&Poly::var(s))));
        let a = e.of_poly(Poly::var(s));
        let b = e.of_poly(Poly::var(c));
        e.trig.push((f.num.clone(), f.den.clone(), a, b));
        (Sym(a), Sym(b))
    })
}

macro_rules! unsup {
    ($($f:ident),*) => { $(fn $f(self) -> Sym { unsupported(stringify!($f)) })* };
}
impl ComplexField for Sym {
    type RealField = Sym;
    fn from_real(re: Sym) -> Sym {
        re
    }
    fn real(self) -> Sym {
        self
    }
    fn imaginary(self) -> Sym {
        Sym::int(0)
    }
    fn modulus(self) -> Sym {
        Signed::abs(&self)
    }
    fn modulus_squared(self) -> Sym {
        self * self
    }
    fn argument(self) -> Sym {
        if self >= Sym::int(0) {
            Sym::int(0)
        } else {
            Sym::pi_sym()
        }
    }
    fn norm1(self) -> Sym {
        Signed::abs(&self)
    }
    fn scale(self, f: Sym) -> Sym {
        self * f
    }
    fn unscale(self, f: Sym) -> Sym {
        self / f
    }
    fn to_exp(self) -> (Sym, Sym) {
        if self >= Sym::int(0) {
            (self, Sym::int(1))
        } else {
            (-self, Sym::int(-1))
        }
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn abs(self) -> Sym {
        Signed::abs(&self)
    }
    fn signum(self) -> Sym {
        Signed::signum(&self)
    }
    fn hypot(self, o: Sym) -> Sym {
        ComplexField::sqrt(self * self + o * o)
    }
    fn recip(self) -> Sym {
        Sym::int(1) / self
    }
    fn conjugate(self) -> Sym {
        self
    }
    fn sin(self) -> Sym {
        trig(self).0
    }
    fn cos(self) -> Sym {
        trig(self).1
    }
    fn sin_cos(self) -> (Sym, Sym) {
        trig(self)
    }
    fn tan(self) -> Sym {
        let (s, c) = trig(self);
        s / c
    }
    fn log(self, _b: Sym) -> Sym {
        unsupported("log")
    }
    fn floor(self) -> Sym {
        floor(self)
    }
    fn ceil(self) -> Sym {
        -floor(-self)
    }
    fn round(self) -> Sym {
        let half = Sym::rat(Rat::int(1).div(&Rat::int(2)));
        if self >= Sym::int(0) {
            floor(self + half)
        } else {
            -floor(half - self)
        }
    }
    fn trunc(self) -> Sym {
        if self >= Sym::int(0) {
            floor(self)
        } else {
            -floor(-self)
        }
    }
    fn fract(self) -> Sym {
        self - ComplexField::trunc(self)
    }
    unsup!(
        asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, log2, log10, ln,
        ln_1p, exp, exp2, exp_m1, cbrt
    );
    fn sqrt(self) -> Sym {
        let f = self.frac();
        Sym(with(|e| {
            let r = e.f_sqrt(&f);
            let r = e.push(r);
            tracked(e, 's', self.0, self.0, r)
        }))
    }
    fn try_sqrt(self) -> Option<Sym> {
        if self >= Sym::int(0) {
            Some(self.sqrt())
        } else {
            None
        }
    }
    fn powi(self, n: i32) -> Sym {
        let mut r = Sym::int(1);
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 {
            Sym::int(1) / r
        } else {
            r
        }
    }
    fn powf(self, n: Sym) -> Sym {
        if let (Some(Rat::S(k, d)), true) = (n.frac().num.as_const(), n.frac().den.is_empty()) {
            if d == 1 && k.abs() < 64 {
                return self.powi(k as i32);
            }
            if d == 2 && k.abs() < 64 {
                return self.sqrt().powi(k as i32);
            }
        }
        unsupported("powf")
    }
    fn powc(self, n: Sym) -> Sym {
        self.powf(n)
    }
    fn is_finite(&self) -> bool {
        !self.frac().poison
    }
}
impl RealField for Sym {
    fn is_sign_positive(&self) -> bool {
        *self >= Sym::int(0)
    }
    fn is_sign_negative(&self) -> bool {
        *self < Sym::int(0)
    }
    fn copysign(self, s: Sym) -> Sym {
        let a = Signed::abs(&self);
        if s >= Sym::int(0) {
            a
        } else {
            -a
        }
    }
    fn max(self, o: Sym) -> Sym {
        if self >= o {
            self
        } else {
            o
        }
    }
    fn min(self, o: Sym) -> Sym {
        if self <= o {
            self
        } else {
            o
        }
    }
    fn clamp(self, a: Sym, b: Sym) -> Sym {
        if self < a {
            a
        } else if self > b {
            b
        } else {
            self
        }
    }
    fn atan2(self, _o: Sym) -> Sym {
        unsupported("atan2")
    }
    fn min_value() -> Option<Sym> {
        Some(Sym::from_f64_exact(if with(|e| e.is_single()) { f32::MIN as f64 } else { f64::MIN }))
    }
    fn max_value() -> Option<Sym> {
        Some(Sym::from_f64_exact(if with(|e| e.is_single()) { f32::MAX as f64 } else { f64::MAX }))
    }
    fn pi() -> Sym {
        Sym::pi_sym()
    }
    fn two_pi() -> Sym {
        Sym::pi_sym() * Sym::int(2)
    }
    fn frac_pi_2() -> Sym {
        Sym::pi_sym() / Sym::int(2)
    }
    fn frac_pi_3() -> Sym {
        Sym::pi_sym() / Sym::int(3)
    }
    fn frac_pi_4() -> Sym {
        Sym::pi_sym() / Sym::int(4)
    }
    fn frac_pi_6() -> Sym {
        Sym::pi_sym() / Sym::int(6)
    }
    fn frac_pi_8() -> Sym {
        Sym::pi_sym() / Sym::int(8)
    }
    fn frac_1_pi() -> Sym {
        Sym::int(1) / Sym::pi_sym()
    }
    fn frac_2_pi() -> Sym {
        Sym::int(2) / Sym::pi_sym()
    }
    fn frac_2_sqrt_pi() -> Sym {
        Sym::int(2) / Sym::pi_sym().sqrt()
    }
    fn e() -> Sym {
        unsupported("e")
    }
    fn log2_e() -> Sym {
        unsupported("log2_e")
    }
    fn log10_e() -> Sym {
        unsupported("log10_e")
    }
    fn ln_2() -> Sym {
        unsupported("ln_2")
    }
    fn ln_10() -> Sym {
        unsupported("ln_10")
    }
}
impl serde::Serialize for Sym {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.0)
    }
}
impl<'de> serde::Deserialize<'de> for Sym {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Sym, D::Error> {
        <u32 as serde::Deserialize>::deserialize(d).map(Sym)
    }
}
