//! A function of all rays, evaluated over exact expressions: what the loops add
//! up for one ray, and the result in terms of those sums and of the
//! pseudo-inverse of one 3x3 matrix. Anything it does not know is an error, and
//! nothing is claimed for the function then.
use crate::ir::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write;

type R<T> = Result<T, String>;

#[derive(Clone, PartialEq, Debug)]
pub enum X {
    /// rational constant
    C(i128, i128),
    A(String),
    Op(&'static str, Vec<X>),
}
use X::*;

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
fn rat(n: i128, d: i128) -> X {
    let g = gcd(n, d).max(1) * d.signum();
    C(n / g, d / g)
}
fn int(n: i128) -> X {
    C(n, 1)
}
fn add(a: X, b: X) -> X {
    match (&a, &b) {
        (C(0, _), _) => b,
        (_, C(0, _)) => a,
        _ => Op("+", vec![a, b]),
    }
}
fn sub(a: X, b: X) -> X {
    match (&a, &b) {
        (_, C(0, _)) => a,
        (C(0, _), _) => neg(b),
        _ => Op("-", vec![a, b]),
    }
}
fn mul(a: X, b: X) -> X {
    match (&a, &b) {
        (C(0, _), _) | (_, C(0, _)) => int(0),
        (C(1, 1), _) => b,
        (_, C(1, 1)) => a,
        _ => Op("*", vec![a, b]),
    }
}
fn div(a: X, b: X) -> X {
    match &b {
        C(1, 1) => a,
        _ => Op("/", vec![a, b]),
    }
}
fn neg(a: X) -> X {
    match &a {
        C(n, d) => C(-n, *d),
        _ => Op("neg", vec![a]),
    }
}
fn sum(xs: impl IntoIterator<Item = X>) -> X {
    xs.into_iter().fold(int(0), add)
}

/// s-expression
fn show(x: &X) -> String {
    match x {
        C(n, 1) => format!("{n}"),
        C(n, d) => format!("{n}/{d}"),
        A(s) => s.clone(),
        Op(f, a) => format!("({f} {})", a.iter().map(show).collect::<Vec<_>>().join(" ")),
    }
}
fn mentions(x: &X, p: &dyn Fn(&str) -> bool) -> bool {
    match x {
        C(..) => false,
        A(s) => p(s),
        Op(_, a) => a.iter().any(|a| mentions(a, p)),
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Z {
    S(X),
    /// rows, columns, entries by rows
    M(usize, usize, Vec<X>),
    /// storage of a matrix, its array of columns, one column
    Data(Box<Z>),
    Cols(Box<Z>),
    List(Vec<X>),
    Ok(Box<Z>),
    Err(String),
    Name(String),
    Points(Box<Z>),
    Svd(Vec<X>),
    I(I),
    B(bool),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum I {
    K(i128),
    N,
    /// the current row
    Row,
}

#[derive(Clone, Copy)]
pub enum Case {
    Exactly(i128),
    AtLeast(i128),
}

struct Ev<'a> {
    f: &'a Func,
    case: Case,
    env: HashMap<String, Z>,
    mats: HashMap<String, Vec<X>>,
    /// what each loop adds up for one ray
    sums: Vec<X>,
    pinv: Option<Vec<X>>,
    side: Vec<String>,
    row: Option<String>,
}

pub struct Outcome {
    pub value: String,
    pub sums: Vec<String>,
    pub pinv: Vec<String>,
    /// preconditions of the contracts of the operations called
    pub side: Vec<String>,
    pub result: Vec<String>,
}

fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(s.into())
}

fn number(s: &str) -> Option<X> {
    let t = s.strip_prefix("lit_")?;
    let t = t.trim_end_matches("f64").trim_end_matches("f32").replace('p', ".").replace('m', "-");
    let (m, e) = match t.split_once(['e', 'E']) {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().ok()?),
        None => (t.clone(), 0),
    };
    let (a, b) = m.split_once('.').unwrap_or((&m, ""));
    let digits: i128 = format!("{a}{b}").replace('_', "").parse().ok()?;
    let p = e - b.replace('_', "").len() as i32;
    if p.abs() > 30 {
        return None;
    }
    Some(if p >= 0 { int(digits * 10i128.pow(p as u32)) } else { rat(digits, 10i128.pow(-p as u32)) })
}

impl<'a> Ev<'a> {
    fn idx(&mut self, e: &E) -> R<I> {
        match self.e(e)? {
            Z::I(i) => Ok(i),
            _ => bad("index"),
        }
    }
    fn k(&mut self, e: &E) -> R<usize> {
        match self.idx(e)? {
            I::K(k) if k >= 0 => Ok(k as usize),
            _ => bad("index that is not a number"),
        }
    }
    fn s(&mut self, e: &E) -> R<X> {
        match self.e(e)? {
            Z::S(x) => Ok(x),
            z => bad(format!("not a number: {z:?}")),
        }
    }
    fn cond(&mut self, e: &E) -> R<bool> {
        match self.e(e)? {
            Z::B(b) => Ok(b),
            _ => bad("condition"),
        }
    }
    fn cmp(&self, o: &str, a: I, b: I) -> R<bool> {
        use std::cmp::Ordering::*;
        let ord = match (a, b) {
            (I::K(a), I::K(b)) => a.cmp(&b),
            (I::N, I::N) => Equal,
            (I::N, I::K(k)) => match self.case {
                Case::Exactly(n) => n.cmp(&k),
                Case::AtLeast(n) if k < n => Greater,
                _ => return bad("number of rays compared with a large constant"),
            },
            (I::K(_), I::N) => match self.cmp_ord(b, a)? {
                Less => Greater,
                Greater => Less,
                e => e,
            },
            _ => return bad("comparison of a row number"),
        };
        Ok(match o {
            "<" => ord == Less,
            "<=" => ord != Greater,
            ">" => ord == Greater,
            ">=" => ord != Less,
            "==" => ord == Equal,
            "!=" => ord != Equal,
            _ => return bad("comparison"),
        })
    }
    fn cmp_ord(&self, a: I, b: I) -> R<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        Ok(if self.cmp("<", a, b)? {
            Less
        } else if self.cmp("==", a, b)? {
            Equal
        } else {
            Greater
        })
    }
    fn cell(&mut self, m: &str, i: &E, c: usize) -> R<X> {
        if self.idx(i)? != I::Row {
            return bad("a row other than the current one");
        }
        match self.mats.get(m) {
            Some(r) if c < r.len() => Ok(r[c].clone()),
            _ => bad("matrix"),
        }
    }

    fn e(&mut self, e: &E) -> R<Z> {
        match e {
            E::Var(n, _) => match self.env.get(n) {
                Some(z) => Ok(z.clone()),
                None => bad(format!("variable {n}")),
            },
            E::Int(k) => Ok(Z::I(I::K(*k))),
            E::Bool(b) => Ok(Z::B(*b)),
            E::At(m, i, c) if *m == self.f.mat => {
                if self.idx(i)? != I::Row {
                    return bad("a particular ray");
                }
                let p = if self.k(c)? == 0 { "c" } else { "d" };
                Ok(Z::M(1, 3, "xyz".chars().map(|a| A(format!("r.{p}{a}"))).collect()))
            }
            E::At(m, i, c) => {
                let c = self.k(c)?;
                Ok(Z::S(self.cell(m, i, c)?))
            }
            E::RowVal(m, i) if *m != self.f.mat => {
                let n = self.mats.get(m).map_or(0, |r| r.len());
                let v = (0..n).map(|c| self.cell(m, i, c)).collect::<R<Vec<_>>>()?;
                Ok(Z::M(1, n, v))
            }
            E::RowVal(..) => bad("a ray as a value"),
            E::NRows(m) if *m == self.f.mat || self.mats.contains_key(m) => Ok(Z::I(I::N)),
            E::NRows(_) => bad("number of rows"),
            E::IntBin(o, a, b) => match (self.idx(a)?, self.idx(b)?) {
                (I::K(a), I::K(b)) => Ok(Z::I(I::K(match o.as_str() {
                    "+" => a + b,
                    "-" => a - b,
                    "*" => a * b,
                    _ => return bad("integer operation"),
                }))),
                _ => bad("arithmetic on the number of rays"),
            },
            E::Cmp(o, a, b) => {
                let (a, b) = (self.idx(a)?, self.idx(b)?);
                Ok(Z::B(self.cmp(o, a, b)?))
            }
            E::And(a, b) => Ok(Z::B(self.cond(a)? && self.cond(b)?)),
            E::Or(a, b) => Ok(Z::B(self.cond(a)? || self.cond(b)?)),
            E::Not(a) => Ok(Z::B(!self.cond(a)?)),
            E::If(c, s, a, t, b) => {
                let c = self.cond(c)?;
                let saved = self.env.clone();
                let (s, v) = if c { (s, a) } else { (t, b) };
                self.block(s)?;
                let r = self.e(v)?;
                self.env = saved;
                Ok(r)
            }
            E::Op(n, xs, _) => {
                // lazily: the operation decides
                let zs = xs.iter().map(|x| self.e(x)).collect::<R<Vec<_>>>()?;
                self.op(n, zs)
            }
        }
    }

    fn op(&mut self, n: &str, mut z: Vec<Z>) -> R<Z> {
        if let Some(x) = number(n) {
            return Ok(Z::S(x));
        }
        let unknown = || bad(format!("operation {n}"));
        // closures mapped over a container
        if let Some(k) = self.f.closures.iter().find(|c| c.name == n) {
            let (p, body, x) = (&k.param, &k.body, &k.value);
            let outer = self.env.clone();
            for ((c, _), v) in k.caps.iter().zip(z.drain(1..)) {
                self.env.insert(c.clone(), v);
            }
            let mut one = |v: X| -> R<X> {
                self.env.insert(p.clone(), Z::S(v));
                self.block(body)?;
                self.s(x)
            };
            let r = match z.remove(0) {
                Z::List(v) => v.into_iter().map(&mut one).collect::<R<_>>().map(Z::List),
                Z::M(r, c, v) => v.into_iter().map(&mut one).collect::<R<_>>().map(|v| Z::M(r, c, v)),
                Z::Ok(v) => match *v {
                    Z::S(x) => one(x).map(|x| Z::Ok(Box::new(Z::S(x)))),
                    _ => unknown(),
                },
                Z::S(x) => one(x).map(Z::S),
                _ => unknown(),
            };
            self.env = outer;
            return r;
        }
        if let Some(t) = n.strip_prefix("zeros_") {
            if let Some((a, b)) = t.split_once('_') {
                if let (Ok(a), Ok(b)) = (a.parse::<usize>(), b.parse::<usize>()) {
                    return Ok(Z::M(a, b, vec![int(0); a * b]));
                }
            }
        }
        if let Some(t) = n.strip_prefix("path_Error_").or(n.strip_prefix("path_crate_Error_")) {
            return Ok(Z::Name(t.into()));
        }
        if n.starts_with("tuple") {
            return unknown();
        }
        if let Some(t) = n.strip_prefix("fn_") {
            let base = t.rsplit_once('_').map_or(t, |x| x.0);
            return self.function(base, z).or_else(|_| unknown());
        }
        if let Some(t) = n.strip_prefix("m_") {
            let base = t.rsplit_once('_').map_or(t, |x| x.0);
            return self.method(base, z).or_else(|_| unknown());
        }
        let k = z.len();
        Ok(match (n, k) {
            ("zero", 0) => Z::S(int(0)),
            ("is_err", 1) => Z::B(match &z[0] {
                Z::Ok(_) => false,
                Z::Err(_) => true,
                _ => return unknown(),
            }),
            ("err_of", 1) if matches!(z[0], Z::Err(_)) => z.remove(0),
            ("try", 1) => match z.remove(0) {
                Z::Ok(v) => *v,
                // not reached: guarded by `is_err`
                Z::Err(e) => Z::Name(e),
                _ => return unknown(),
            },
            ("fld_data", 1) => match z.remove(0) {
                Z::Points(m) => *m,
                m @ Z::M(..) => Z::Data(Box::new(m)),
                _ => return unknown(),
            },
            ("fld_0", 1) => match z.remove(0) {
                Z::Data(m) => Z::Cols(m),
                _ => return unknown(),
            },
            ("fld_x" | "fld_y" | "fld_z", 1) => match &z[0] {
                Z::M(r, c, v) if r * c == 3 => Z::S(v[["fld_x", "fld_y", "fld_z"].iter().position(|f| *f == n).unwrap()].clone()),
                _ => return unknown(),
            },
            ("fld_coords", 1) => z.remove(0),
            ("idx", 2) => {
                let Z::I(I::K(i)) = z[1] else { return unknown() };
                let i = i as usize;
                match &z[0] {
                    Z::Cols(m) => match &**m {
                        Z::M(r, c, v) if i < *c => Z::List((0..*r).map(|a| v[a * c + i].clone()).collect()),
                        _ => return unknown(),
                    },
                    Z::List(v) if i < v.len() => Z::S(v[i].clone()),
                    // nalgebra numbers the entries by columns
                    Z::M(r, c, v) if i < r * c => Z::S(v[(i % r) * c + i / r].clone()),
                    _ => return unknown(),
                }
            }
            ("idx2", 3) => match (&z[0], &z[1], &z[2]) {
                (Z::M(r, c, v), Z::I(I::K(i)), Z::I(I::K(j))) if (*i as usize) < *r && (*j as usize) < *c => {
                    Z::S(v[*i as usize * c + *j as usize].clone())
                }
                _ => return unknown(),
            },
            ("setidx3" | "setidx4", _) => {
                let Some(Z::S(x)) = z.pop() else { return unknown() };
                match (&z[0], &z[1], z.get(2)) {
                    (Z::M(r, c, v), Z::I(I::K(i)), j) => {
                        let (i, j) = match j {
                            Some(Z::I(I::K(j))) => (*i as usize, *j as usize),
                            None => (*i as usize % r, *i as usize / r),
                            _ => return unknown(),
                        };
                        if i >= *r || j >= *c {
                            return unknown();
                        }
                        let mut v = v.clone();
                        v[i * c + j] = x;
                        Z::M(*r, *c, v)
                    }
                    (Z::List(v), Z::I(I::K(i)), None) if (*i as usize) < v.len() => {
                        let mut v = v.clone();
                        v[*i as usize] = x;
                        Z::List(v)
                    }
                    _ => return unknown(),
                }
            }
            ("setfld_data", 2) => match (&z[0], &z[1]) {
                (Z::Points(_), m @ Z::M(1, 3, _)) => Z::Points(Box::new(m.clone())),
                _ => return unknown(),
            },
            ("neg", 1) => match z.remove(0) {
                Z::S(x) => Z::S(neg(x)),
                Z::M(r, c, v) => Z::M(r, c, v.into_iter().map(neg).collect()),
                _ => return unknown(),
            },
            ("add" | "sub" | "mul" | "div", 2) => {
                let b = z.pop().unwrap();
                let a = z.pop().unwrap();
                return self.arith(n, a, b).or_else(|_| unknown());
            }
            (_, k) if *n == format!("array{k}") => {
                let mut v = vec![];
                for x in z {
                    match x {
                        Z::S(x) => v.push(x),
                        _ => return unknown(),
                    }
                }
                Z::List(v)
            }
            _ => return unknown(),
        })
    }

    fn arith(&mut self, o: &str, a: Z, b: Z) -> R<Z> {
        Ok(match (o, a, b) {
            ("add", Z::S(a), Z::S(b)) => Z::S(add(a, b)),
            ("sub", Z::S(a), Z::S(b)) => Z::S(sub(a, b)),
            ("mul", Z::S(a), Z::S(b)) => Z::S(mul(a, b)),
            ("div", Z::S(a), Z::S(b)) => Z::S(div(a, b)),
            ("add" | "sub", Z::M(r, c, v), Z::M(r2, c2, w)) if r == r2 && c == c2 => {
                let f = if o == "add" { add } else { sub };
                Z::M(r, c, v.into_iter().zip(w).map(|(a, b)| f(a, b)).collect())
            }
            ("mul", Z::M(r, k, v), Z::M(k2, c, w)) if k == k2 => {
                let mut out = vec![];
                for i in 0..r {
                    for j in 0..c {
                        out.push(sum((0..k).map(|t| mul(v[i * k + t].clone(), w[t * c + j].clone()))));
                    }
                }
                Z::M(r, c, out)
            }
            ("mul", Z::M(r, c, v), Z::S(x)) => Z::M(r, c, v.into_iter().map(|a| mul(a, x.clone())).collect()),
            ("mul", Z::S(x), Z::M(r, c, v)) => Z::M(r, c, v.into_iter().map(|a| mul(x.clone(), a)).collect()),
            ("div", Z::M(r, c, v), Z::S(x)) => Z::M(r, c, v.into_iter().map(|a| div(a, x.clone())).collect()),
            _ => return bad("arithmetic"),
        })
    }

    fn identity(n: usize) -> Z {
        Z::M(n, n, (0..n * n).map(|i| int((i % (n + 1) == 0) as i128)).collect())
    }

    fn function(&mut self, n: &str, mut z: Vec<Z>) -> R<Z> {
        let end = |s: &str| n == s || n.ends_with(&format!("_{s}"));
        let k = z.len();
        if n.contains("try_convert") || end("from_f64") || end("to_f64") {
            if let ([Z::S(_)], 1) = (&z[..], k) {
                return Ok(Z::Ok(Box::new(z.remove(0))));
            }
        }
        if k == 1 && (end("convert") || end("convert_ref") || end("convert_unchecked") || n == "R_from" || end("new_unchecked")) {
            return Ok(z.remove(0));
        }
        if k == 1 && n == "Ok" {
            return Ok(Z::Ok(Box::new(z.remove(0))));
        }
        if k == 1 && n == "Err" {
            if let Z::Name(e) = &z[0] {
                return Ok(Z::Err(e.clone()));
            }
        }
        if k == 1 && n == "Points_new" && matches!(z[0], Z::M(1, 3, _)) {
            return Ok(Z::Points(Box::new(z.remove(0))));
        }
        if k == 0 && (end("zero") || end("zeros") || end("one") || end("identity")) {
            if n == "R_zero" || n == "na_zero" || n == "nalgebra_zero" {
                return Ok(Z::S(int(0)));
            }
            if n == "R_one" || n == "na_one" || n == "nalgebra_one" {
                return Ok(Z::S(int(1)));
            }
            let one = end("one") || end("identity");
            if n.contains("Matrix3_") || n.contains("SMatrix_R_3_3") || n.contains("SMatrix_f64_3_3") {
                return Ok(if one { Self::identity(3) } else { Z::M(3, 3, vec![int(0); 9]) });
            }
            if n.contains("Vector3_") && !n.contains("Row") && !one {
                return Ok(Z::M(3, 1, vec![int(0); 3]));
            }
        }
        if end("new_normalize") && k == 1 {
            return self.method("normalize", z);
        }
        if end("new") && z.iter().all(|x| matches!(x, Z::S(_))) {
            let v: Vec<X> = z.iter().map(|x| if let Z::S(x) = x { x.clone() } else { unreachable!() }).collect();
            if n.contains("RowVector3") && k == 3 {
                return Ok(Z::M(1, 3, v));
            }
            if n.contains("Vector3") && k == 3 {
                return Ok(Z::M(3, 1, v));
            }
            if (n.contains("Matrix3_") || n.contains("SMatrix_R_3_3") || n.contains("SMatrix_f64_3_3")) && k == 9 {
                return Ok(Z::M(3, 3, v));
            }
            if n.contains("SMatrix") && n.contains("_1_3_") && k == 3 {
                return Ok(Z::M(1, 3, v));
            }
        }
        if let (true, [Z::List(v)]) = (end("from_iterator") || end("from_column_slice"), &z[..]) {
            let v = v.clone();
            let (r, c) = if n.contains("_3_3_") || n.contains("Matrix3_") {
                (3, 3)
            } else if n.contains("RowVector3") || n.contains("_1_3_") {
                (1, 3)
            } else if n.contains("Vector3") || n.contains("_3_1_") {
                (3, 1)
            } else {
                return bad("shape");
            };
            if v.len() == r * c {
                return Ok(Z::M(r, c, (0..r * c).map(|i| v[(i % c) * r + i / c].clone()).collect()));
            }
        }
        // linear algebra: the contract of the pseudo-inverse
        if end("SVD_try_new") && k == 5 {
            if let (Z::M(3, 3, m), Z::B(u), Z::B(v), Z::S(C(p, q)), Z::I(I::K(it))) = (&z[0], &z[1], &z[2], &z[3], &z[4]) {
                self.require(*u && *v, "SVD::try_new computes both factors");
                self.require(*p * 10_000_000 <= *q, "SVD::try_new: tolerance at most 1e-7");
                self.require(*it == 0 || *it >= 100, "SVD::try_new: at least 100 iterations");
                return Ok(Z::Ok(Box::new(Z::Svd(m.clone()))));
            }
        }
        if end("SVD_new") && k == 3 {
            if let (Z::M(3, 3, m), Z::B(u), Z::B(v)) = (&z[0], &z[1], &z[2]) {
                self.require(*u && *v, "SVD::new computes both factors");
                return Ok(Z::Svd(m.clone()));
            }
        }
        bad("function")
    }

    fn require(&mut self, ok: bool, what: &str) {
        if !ok && !self.side.contains(&what.to_string()) {
            self.side.push(what.into())
        }
    }

    fn inverse(&mut self, m: Vec<X>) -> R<Z> {
        if let Some(p) = &self.pinv {
            if *p != m {
                return bad("two matrices inverted");
            }
        }
        self.pinv = Some(m);
        Ok(Z::M(3, 3, (0..9).map(|i| A(format!("P.{}", &"abcdefghi"[i..i + 1]))).collect()))
    }

    fn method(&mut self, n: &str, mut z: Vec<Z>) -> R<Z> {
        let k = z.len();
        let tol = |x: &Z| matches!(x, Z::S(C(p, q)) if *p >= 0 && *p * 10_000_000 <= *q);
        Ok(match (n, k) {
            ("clone" | "into_inner" | "into_owned" | "clone_owned" | "as_ref" | "as_vector" | "into" | "iter" | "into_iter" | "cloned" | "copied" | "to_owned" | "borrow", 1)
                if !matches!((n, &z[0]), ("iter" | "into_iter", Z::M(..))) =>
            {
                z.remove(0)
            }
            ("as_slice" | "iter", 1) => match z.remove(0) {
                Z::M(r, c, v) => Z::List((0..r * c).map(|i| v[(i % r) * c + i / r].clone()).collect()),
                _ => return bad("slice"),
            },
            ("unwrap" | "ok", 1) | ("ok_or" | "expect" | "ok_or_else" | "map_err" | "unwrap_or", 2) => match z.remove(0) {
                Z::Ok(v) if n == "unwrap" || n == "expect" || n == "unwrap_or" => *v,
                v @ (Z::Ok(_) | Z::Err(_)) if !n.starts_with("unwrap") && n != "expect" => v,
                _ => return bad("unwrap"),
            },
            ("transpose", 1) => match z.remove(0) {
                Z::M(r, c, v) => Z::M(c, r, (0..r * c).map(|i| v[(i % r) * c + i / r].clone()).collect()),
                _ => return bad("transpose"),
            },
            ("add" | "sub" | "mul" | "div", 2) => {
                let b = z.pop().unwrap();
                let a = z.pop().unwrap();
                return self.arith(n, a, b);
            }
            ("component_mul", 2) => match (&z[0], &z[1]) {
                (Z::M(r, c, v), Z::M(r2, c2, w)) if r == r2 && c == c2 => {
                    Z::M(*r, *c, v.iter().zip(w).map(|(a, b)| mul(a.clone(), b.clone())).collect())
                }
                _ => return bad("component_mul"),
            },
            ("neg", 1) => return self.op("neg", z),
            ("powi", 2) => match (&z[0], &z[1]) {
                (Z::S(x), Z::I(I::K(p))) if (0..=8).contains(p) => Z::S((0..*p).fold(int(1), |a, _| mul(a, x.clone()))),
                _ => return bad("power"),
            },
            ("sqrt", 1) => match z.remove(0) {
                Z::S(x) => Z::S(Op("sqrt", vec![x])),
                _ => return bad("sqrt"),
            },
            ("recip", 1) => match z.remove(0) {
                Z::S(x) => Z::S(div(int(1), x)),
                _ => return bad("recip"),
            },
            ("dot", 2) => match (&z[0], &z[1]) {
                (Z::M(r, c, v), Z::M(r2, c2, w)) if r == r2 && c == c2 => {
                    Z::S(sum(v.iter().zip(w).map(|(a, b)| mul(a.clone(), b.clone()))))
                }
                _ => return bad("dot"),
            },
            ("norm_squared" | "norm" | "magnitude" | "magnitude_squared" | "normalize", 1) => match z.remove(0) {
                Z::M(r, c, v) => {
                    let q = sum(v.iter().map(|a| mul(a.clone(), a.clone())));
                    let l = Op("sqrt", vec![q.clone()]);
                    match n {
                        "normalize" => Z::M(r, c, v.into_iter().map(|a| div(a, l.clone())).collect()),
                        n if n.ends_with("squared") => Z::S(q),
                        _ => Z::S(l),
                    }
                }
                _ => return bad("norm"),
            },
            ("pseudo_inverse", 2) => match (z.remove(0), z.remove(0)) {
                (Z::Svd(m) | Z::M(3, 3, m), t) => {
                    self.require(tol(&t), "pseudo_inverse: tolerance at most 1e-7");
                    let p = self.inverse(m)?;
                    Z::Ok(Box::new(p))
                }
                _ => return bad("pseudo_inverse"),
            },
            ("solve", 3) => match (z.remove(0), z.remove(0), z.remove(0)) {
                (Z::Svd(m), b @ Z::M(3, 1, _), t) => {
                    self.require(tol(&t), "solve: tolerance at most 1e-7");
                    let p = self.inverse(m)?;
                    Z::Ok(Box::new(self.arith("mul", p, b)?))
                }
                _ => return bad("solve"),
            },
            _ => return bad("method"),
        })
    }

    fn block(&mut self, b: &[S]) -> R<()> {
        for s in b {
            self.stmt(s)?
        }
        Ok(())
    }

    fn stmt(&mut self, s: &S) -> R<()> {
        match s {
            S::Let(n, e) | S::Set(n, e) => {
                let z = self.e(e)?;
                self.env.insert(n.clone(), z);
            }
            S::LetMat(n, m) | S::SetMat(n, m) => {
                let row = match m {
                    M::Zeros(r, c) => {
                        if self.idx(r)? != I::N {
                            return bad("matrix that has not one row per ray");
                        }
                        vec![int(0); self.k(c)?]
                    }
                    M::ZerosT(r) => {
                        if self.idx(r)? != I::N {
                            return bad("matrix that has not one row per ray");
                        }
                        vec![int(0)]
                    }
                    M::Fill(r, c, v) => {
                        if self.idx(r)? != I::N {
                            return bad("matrix that has not one row per ray");
                        }
                        let k = self.k(c)?;
                        vec![self.s(v)?; k]
                    }
                    M::Copy(m) => match self.mats.get(m) {
                        Some(r) => r.clone(),
                        None => return bad("copy"),
                    },
                };
                self.mats.insert(n.clone(), row);
            }
            S::MatSet(m, i, c, v) => {
                if self.idx(i)? != I::Row {
                    return bad("a row other than the current one");
                }
                let (c, v) = (self.k(c)?, self.s(v)?);
                match self.mats.get_mut(m) {
                    Some(r) if c < r.len() => r[c] = v,
                    _ => return bad("matrix"),
                }
            }
            S::MatSetRow(m, i, v) => {
                if self.idx(i)? != I::Row {
                    return bad("a row other than the current one");
                }
                match (self.e(v)?, self.mats.get_mut(m)) {
                    (Z::M(1, k, v), Some(r)) if k == r.len() => *r = v,
                    _ => return bad("row"),
                }
            }
            S::Call(_) => return bad("batch operation"),
            S::If(c, a, b) => {
                let c = self.cond(c)?;
                self.block(if c { a } else { b })?
            }
            S::For { var, lo, hi, body, scope, .. } => {
                if self.row.is_some() {
                    return bad("nested loops over rays");
                }
                if self.idx(lo)? != I::K(0) || self.idx(hi)? != I::N {
                    return bad("a loop over some of the rays");
                }
                let mut all = vec![];
                modified(body, &mut all);
                let carry: Vec<String> =
                    all.into_iter().filter(|m| scope.iter().any(|(n, k)| n == m && k.is_some())).collect();
                let start: Vec<(String, Z)> = carry.iter().map(|n| (n.clone(), self.env[n].clone())).collect();
                for (n, z) in &start {
                    let z = match z {
                        Z::S(_) => Z::S(A(format!("@{n}"))),
                        Z::M(r, c, v) => Z::M(*r, *c, (0..v.len()).map(|k| A(format!("@{n}.{k}"))).collect()),
                        _ => return bad("value carried by a loop"),
                    };
                    self.env.insert(n.clone(), z);
                }
                self.row = Some(var.clone());
                self.env.insert(var.clone(), Z::I(I::Row));
                self.block(body)?;
                self.row = None;
                for (n, z) in start {
                    let now = self.env[&n].clone();
                    let new = match (z, now) {
                        (Z::S(s), Z::S(x)) => Z::S(self.total(s, x, &format!("@{n}"))?),
                        (Z::M(r, c, v), Z::M(r2, c2, w)) if r == r2 && c == c2 => {
                            let mut out = vec![];
                            for (k, (s, x)) in v.into_iter().zip(w).enumerate() {
                                out.push(self.total(s, x, &format!("@{n}.{k}"))?)
                            }
                            Z::M(r, c, out)
                        }
                        _ => return bad("value carried by a loop"),
                    };
                    self.env.insert(n, new);
                }
            }
        }
        Ok(())
    }

    /// start + sum over the rays of what one step adds
    fn total(&mut self, start: X, x: X, me: &str) -> R<X> {
        fn split(x: &X, me: &str) -> Option<X> {
            let has = |x: &X| mentions(x, &|s| s == me);
            match x {
                A(s) if s == me => Some(int(0)),
                Op("+", a) if has(&a[0]) && !has(&a[1]) => Some(add(split(&a[0], me)?, a[1].clone())),
                Op("+", a) if has(&a[1]) && !has(&a[0]) => Some(add(a[0].clone(), split(&a[1], me)?)),
                Op("-", a) if has(&a[0]) && !has(&a[1]) => Some(sub(split(&a[0], me)?, a[1].clone())),
                _ => None,
            }
        }
        let Some(t) = split(&x, me) else { return bad("a loop that does not add up") };
        if mentions(&t, &|s| !s.starts_with("r.")) {
            return bad("a sum of more than the rays");
        }
        let k = match self.sums.iter().position(|s| *s == t) {
            Some(k) => k,
            None => {
                self.sums.push(t);
                self.sums.len() - 1
            }
        };
        Ok(add(start, A(format!("S.{k}"))))
    }

    fn tail(&mut self, t: &Tail) -> R<Z> {
        match t {
            Tail::Val(e) => self.e(e),
            Tail::Ret(..) => bad("batch result"),
            Tail::If(c, a, b) => {
                let c = self.cond(c)?;
                let x = if c { a } else { b };
                self.block(&x.0)?;
                self.tail(&x.1)
            }
        }
    }
}

fn literals(f: &Func) -> i128 {
    // the largest constant the number of rays may be compared with
    let t = format!("{:?}{:?}", f.body, f.tail);
    let mut m = 1;
    let mut seen = HashSet::new();
    for (i, _) in t.match_indices("Cmp(") {
        for (j, _) in t[i..].match_indices("Int(").take(4) {
            let n: String = t[i + j + 4..].chars().take_while(|c| c.is_ascii_digit()).collect();
            if seen.insert(n.clone()) {
                if let Ok(k) = n.parse::<i128>() {
                    if k <= 64 {
                        m = m.max(k)
                    }
                }
            }
        }
    }
    m
}

/// The value for each number of rays: exactly 0, 1, …, k, and more than k.
pub fn cases(f: &Func) -> Vec<(String, Result<Outcome, String>)> {
    let k = literals(f);
    let mut out = vec![];
    for n in 0..=k + 1 {
        let case = if n <= k { Case::Exactly(n) } else { Case::AtLeast(n) };
        let name = if n <= k { format!("{n}") } else { format!("{n}+") };
        let mut ev = Ev {
            f,
            case,
            env: f.params.iter().filter(|p| p.1 == K::Int).map(|p| (p.0.clone(), Z::I(I::N))).collect(),
            mats: HashMap::new(),
            sums: vec![],
            pinv: None,
            side: vec![],
            row: None,
        };
        let r = ev.block(&f.body).and_then(|_| ev.tail(&f.tail));
        out.push((
            name,
            r.and_then(|z| {
                let (value, result) = match z {
                    Z::Err(e) => (format!("Err {e}"), vec![]),
                    Z::Ok(p) => match *p {
                        Z::Points(m) => match *m {
                            Z::M(1, 3, v) => ("Ok".into(), v.iter().map(show).collect()),
                            _ => return bad("result"),
                        },
                        _ => return bad("result"),
                    },
                    _ => return bad("result"),
                };
                Ok(Outcome {
                    value,
                    result,
                    sums: ev.sums.iter().map(show).collect(),
                    pinv: ev.pinv.unwrap_or_default().iter().map(show).collect(),
                    side: ev.side,
                })
            }),
        ));
    }
    out
}

pub fn json(cs: &[(String, Result<Outcome, String>)], js: &dyn Fn(&str) -> String) -> String {
    let list = |v: &[String]| format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let mut o = String::from("[");
    for (i, (n, r)) in cs.iter().enumerate() {
        let _ = write!(o, "{}{{\"n\":{},", if i > 0 { "," } else { "" }, js(n));
        let _ = match r {
            Ok(r) => write!(
                o,
                "\"value\":{},\"result\":{},\"sums\":{},\"matrix\":{},\"side\":{}}}",
                js(&r.value), list(&r.result), list(&r.sums), list(&r.pinv), list(&r.side)
            ),
            Err(e) => write!(o, "\"unsupported\":{}}}", js(e)),
        };
    }
    o + "]"
}
