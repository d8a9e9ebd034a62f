//! Exact rational numbers: small fast path with a big-number fallback.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Rat {
    S(i64, i64),
    B(Box<BigRational>),
}

fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

fn norm(n: i128, d: i128) -> Rat {
    debug_assert!(d != 0);
    if n == 0 {
        return Rat::S(0, 1);
    }
    let g = gcd(n.unsigned_abs(), d.unsigned_abs()) as i128;
    let (mut n, mut d) = (n / g, d / g);
    if d < 0 {
        n = -n;
        d = -d;
    }
    if n > i64::MIN as i128 && n <= i64::MAX as i128 && d <= i64::MAX as i128 {
        Rat::S(n as i64, d as i64)
    } else {
        Rat::B(Box::new(BigRational::new(BigInt::from(n), BigInt::from(d))))
    }
}

fn demote(b: BigRational) -> Rat {
    if let (Some(n), Some(d)) = (b.numer().to_i64(), b.denom().to_i64()) {
        if n != i64::MIN && d != i64::MIN {
            return Rat::S(n, d);
        }
    }
    Rat::B(Box::new(b))
}

impl Rat {
    pub fn zero() -> Rat {
        Rat::S(0, 1)
    }
    pub fn one() -> Rat {
        Rat::S(1, 1)
    }
    pub fn int(n: i64) -> Rat {
        Rat::S(n, 1)
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Rat::S(0, _))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, Rat::S(1, 1))
    }
    pub fn big(&self) -> BigRational {
        match self {
            Rat::S(n, d) => BigRational::new_raw(BigInt::from(*n), BigInt::from(*d)),
            Rat::B(b) => (**b).clone(),
        }
    }
    pub fn from_f64(x: f64) -> Option<Rat> {
        BigRational::from_float(x).map(demote)
    }
    pub fn add(&self, o: &Rat) -> Rat {
        match (self, o) {
            (Rat::S(a, b), Rat::S(c, d)) => {
                if *b == 1 && *d == 1 {
                    return norm(*a as i128 + *c as i128, 1);
                }
                let (a, b, c, d) = (*a as i128, *b as i128, *c as i128, *d as i128);
                match (a * d).checked_add(c * b) {
                    Some(n) => norm(n, b * d),
                    None => demote(self.big() + o.big()),
                }
            }
            _ => demote(self.big() + o.big()),
        }
    }
    pub fn neg(&self) -> Rat {
        match self {
            Rat::S(a, b) => Rat::S(-a, *b),
            Rat::B(b) => demote(-(**b).clone()),
        }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        match (self, o) {
            (Rat::S(a, b), Rat::S(c, d)) => {
                norm(*a as i128 * *c as i128, *b as i128 * *d as i128)
            }
            _ => demote(self.big() * o.big()),
        }
    }
    pub fn div(&self, o: &Rat) -> Rat {
        match (self, o) {
            (Rat::S(a, b), Rat::S(c, d)) => {
                norm(*a as i128 * *d as i128, *b as i128 * *c as i128)
            }
            _ => demote(self.big() / o.big()),
        }
    }
    pub fn sign(&self) -> i32 {
        match self {
            Rat::S(a, _) => a.signum() as i32,
            Rat::B(b) => {
                if b.is_zero() {
                    0
                } else if b.is_positive() {
                    1
                } else {
                    -1
                }
            }
        }
    }
    /// exact square root, if the number is a perfect square
    pub fn sqrt(&self) -> Option<Rat> {
        if self.sign() < 0 {
            return None;
        }
        let b = self.big();
        let (n, d) = (b.numer().sqrt(), b.denom().sqrt());
        if &(&n * &n) == b.numer() && &(&d * &d) == b.denom() {
            Some(demote(BigRational::new(n, d)))
        } else {
            None
        }
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            Rat::S(a, b) => *a as f64 / *b as f64,
            Rat::B(b) => b.to_f64().unwrap_or(f64::NAN),
        }
    }
    pub fn to_smt(&self) -> String {
        let b = self.big();
        let n = b.numer().abs();
        let s = if b.denom().is_one() {
            format!("{}.0", n)
        } else {
            format!("(/ {}.0 {}.0)", n, b.denom())
        };
        if b.is_negative() {
            format!("(- {})", s)
        } else {
            s
        }
    }
    pub fn show(&self) -> String {
        format!("{}", self.big())
    }
}
