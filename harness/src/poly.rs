//! Sparse multivariate polynomials with exact rational coefficients.
use crate::rat::Rat;
use std::cmp::Ordering;
use std::collections::HashMap;

pub type Var = u16;

/// A monomial: (variable, exponent) pairs, variables ascending. Ordered by
/// graded lexicographic order (an admissible order).
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Mono(pub Vec<(Var, u16)>);

impl Mono {
    pub fn deg(&self) -> u32 {
        self.0.iter().map(|x| x.1 as u32).sum()
    }
    pub fn exp(&self, v: Var) -> u16 {
        self.0.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(0)
    }
    pub fn mul(&self, o: &Mono) -> Mono {
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            let (a, b) = (self.0[i], o.0[j]);
            match a.0.cmp(&b.0) {
                Ordering::Less => {
                    r.push(a);
                    i += 1
                }
                Ordering::Greater => {
                    r.push(b);
                    j += 1
                }
                Ordering::Equal => {
                    r.push((a.0, a.1 + b.1));
                    i += 1;
                    j += 1
                }
            }
        }
        r.extend_from_slice(&self.0[i..]);
        r.extend_from_slice(&o.0[j..]);
        Mono(r)
    }
    /// self / o when o divides self
    pub fn div(&self, o: &Mono) -> Option<Mono> {
        let mut r = Vec::with_capacity(self.0.len());
        let mut j = 0;
        for &(v, e) in &self.0 {
            if j < o.0.len() && o.0[j].0 < v {
                return None;
            }
            if j < o.0.len() && o.0[j].0 == v {
                let f = o.0[j].1;
                if f > e {
                    return None;
                }
                if e > f {
                    r.push((v, e - f));
                }
                j += 1;
            } else {
                r.push((v, e));
            }
        }
        if j < o.0.len() {
            None
        } else {
            Some(Mono(r))
        }
    }
}
impl Ord for Mono {
    fn cmp(&self, o: &Self) -> Ordering {
        self.deg().cmp(&o.deg()).then_with(|| {
            // lex with smaller variable index = larger
            let (mut i, mut j) = (0, 0);
            loop {
                match (self.0.get(i), o.0.get(j)) {
                    (None, None) => return Ordering::Equal,
                    (Some(_), None) => return Ordering::Greater,
                    (None, Some(_)) => return Ordering::Less,
                    (Some(a), Some(b)) => {
                        if a.0 < b.0 {
                            return Ordering::Greater;
                        } else if a.0 > b.0 {
                            return Ordering::Less;
                        } else if a.1 != b.1 {
                            return a.1.cmp(&b.1);
                        }
                        i += 1;
                        j += 1;
                    }
                }
            }
        })
    }
}
impl PartialOrd for Mono {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

/// Terms sorted by descending monomial; no zero coefficients.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly(pub Vec<(Mono, Rat)>);

impl Poly {
    pub fn zero() -> Poly {
        Poly(vec![])
    }
    pub fn konst(r: Rat) -> Poly {
        if r.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(Mono::default(), r)])
        }
    }
    pub fn one() -> Poly {
        Poly::konst(Rat::one())
    }
    pub fn var(v: Var) -> Poly {
        Poly(vec![(Mono(vec![(v, 1)]), Rat::one())])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Rat> {
        if self.0.is_empty() {
            Some(Rat::zero())
        } else if self.0.len() == 1 && self.0[0].0 .0.is_empty() {
            Some(self.0[0].1.clone())
        } else {
            None
        }
    }
    pub fn from_map(m: HashMap<Mono, Rat>) -> Poly {
        let mut v: Vec<_> = m.into_iter().filter(|x| !x.1.is_zero()).collect();
        v.sort_by(|a, b| b.0.cmp(&a.0));
        Poly(v)
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            match self.0[i].0.cmp(&o.0[j].0) {
                Ordering::Greater => {
                    r.push(self.0[i].clone());
                    i += 1
                }
                Ordering::Less => {
                    r.push(o.0[j].clone());
                    j += 1
                }
                Ordering::Equal => {
                    let c = self.0[i].1.add(&o.0[j].1);
                    if !c.is_zero() {
                        r.push((self.0[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1
                }
            }
        }
        r.extend_from_slice(&self.0[i..]);
        r.extend_from_slice(&o.0[j..]);
        Poly(r)
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c.neg())).collect())
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn scale(&self, r: &Rat) -> Poly {
        if r.is_zero() {
            return Poly::zero();
        }
        if r.is_one() {
            return self.clone();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c.mul(r))).collect())
    }
    pub fn mul_mono(&self, m: &Mono, r: &Rat) -> Poly {
        Poly(self.0.iter().map(|(a, c)| (a.mul(m), c.mul(r))).collect())
    }
    /// plain product (no reduction)
    pub fn mul(&self, o: &Poly) -> Poly {
        if self.is_zero() || o.is_zero() {
            return Poly::zero();
        }
        if self.0.len() == 1 {
            return o.mul_mono(&self.0[0].0, &self.0[0].1);
        }
        if o.0.len() == 1 {
            return self.mul_mono(&o.0[0].0, &o.0[0].1);
        }
        let mut m: HashMap<Mono, Rat> = HashMap::with_capacity((self.0.len() * o.0.len()).min(1 << 16));
        if self.0.len() * o.0.len() > 4_000_000 {
            std::panic::resume_unwind(Box::new(crate::eng::Unsupported("expression too large".into())));
        }
        for (a, c) in &self.0 {
            for (b, d) in &o.0 {
                let k = a.mul(b);
                let v = c.mul(d);
                m.entry(k).and_modify(|x| *x = x.add(&v)).or_insert(v);
            }
        }
        Poly::from_map(m)
    }
    /// exact division in the polynomial ring
    pub fn div_exact(&self, o: &Poly) -> Option<Poly> {
        if o.is_zero() {
            return None;
        }
        if self.is_zero() {
            return Some(Poly::zero());
        }
        // quick degree test
        if self.0[0].0.deg() < o.0[0].0.deg() || self.0.last().unwrap().0.deg() < o.0.last().unwrap().0.deg() {
            return None;
        }
        let (lm, lc) = (&o.0[0].0, &o.0[0].1);
        let (tm, _) = (&o.0.last().unwrap().0, ());
        self.0.last().unwrap().0.div(tm)?;
        let mut rem: std::collections::BTreeMap<Mono, Rat> = self.0.iter().cloned().collect();
        let mut q = vec![];
        while let Some((m, c)) = rem.iter().next_back().map(|x| (x.0.clone(), x.1.clone())) {
            let qm = m.div(lm)?;
            let qc = c.div(lc);
            for (a, d) in &o.0 {
                let k = a.mul(&qm);
                let v = d.mul(&qc);
                let e = rem.entry(k.clone()).or_insert_with(Rat::zero);
                *e = e.sub(&v);
                if e.is_zero() {
                    rem.remove(&k);
                }
            }
            q.push((qm, qc));
            if q.len() > 4000 {
                return None;
            }
        }
        Some(Poly(q))
    }
    /// square root in the polynomial ring, if a perfect square
    pub fn sqrt_exact(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let (m, c) = &self.0[0];
        let rc = c.sqrt()?;
        let mut rm = vec![];
        for &(v, e) in &m.0 {
            if e % 2 != 0 {
                return None;
            }
            rm.push((v, e / 2));
        }
        let lead = (Mono(rm), rc);
        let mut r = Poly(vec![lead.clone()]);
        let mut rem = self.sub(&r.mul(&r));
        let two_lead_c = lead.1.mul(&Rat::int(2));
        let mut guard = 0;
        while !rem.is_zero() {
            let (m, c) = rem.0[0].clone();
            let qm = m.div(&lead.0)?;
            if qm >= lead.0 {
                return None;
            }
            let qc = c.div(&two_lead_c);
            let t = Poly(vec![(qm, qc)]);
            // rem -= 2 r t + t^2
            let sub = r.scale(&Rat::int(2)).add(&t).mul(&t);
            rem = rem.sub(&sub);
            r = r.add(&t);
            guard += 1;
            if guard > 400 {
                return None;
            }
        }
        Some(r)
    }
    /// greatest monomial dividing every term
    pub fn mono_content(&self) -> Mono {
        if self.0.is_empty() {
            return Mono::default();
        }
        let mut g = self.0[0].0.clone();
        for (m, _) in &self.0[1..] {
            g = Mono(
                g.0.iter()
                    .filter_map(|&(v, e)| {
                        let f = m.exp(v).min(e);
                        if f > 0 {
                            Some((v, f))
                        } else {
                            None
                        }
                    })
                    .collect(),
            );
            if g.0.is_empty() {
                break;
            }
        }
        g
    }
    pub fn div_mono(&self, m: &Mono) -> Poly {
        Poly(
            self.0
                .iter()
                .map(|(a, c)| (a.div(m).expect("mono content"), c.clone()))
                .collect(),
        )
    }
    /// (leading coefficient, monic polynomial)
    pub fn monic(&self) -> (Rat, Poly) {
        let c = self.0[0].1.clone();
        let inv = Rat::one().div(&c);
        (c, self.scale(&inv))
    }
    pub fn vars(&self, out: &mut std::collections::BTreeSet<Var>) {
        for (m, _) in &self.0 {
            for &(v, _) in &m.0 {
                out.insert(v);
            }
        }
    }
    pub fn eval(&self, val: &dyn Fn(Var) -> f64) -> f64 {
        let mut s = 0.0;
        for (m, c) in &self.0 {
            let mut t = c.to_f64();
            for &(v, e) in &m.0 {
                t *= val(v).powi(e as i32);
            }
            s += t;
        }
        s
    }
    pub fn to_smt(&self, name: &dyn Fn(Var) -> String) -> String {
        if self.0.is_empty() {
            return "0.0".into();
        }
        let mut ts = vec![];
        for (m, c) in &self.0 {
            let mut fs = vec![];
            if !c.is_one() || m.0.is_empty() {
                fs.push(c.to_smt());
            }
            for &(v, e) in &m.0 {
                for _ in 0..e {
                    fs.push(name(v));
                }
            }
            ts.push(if fs.len() == 1 {
                fs.pop().unwrap()
            } else {
                format!("(* {})", fs.join(" "))
            });
        }
        if ts.len() == 1 {
            ts.pop().unwrap()
        } else {
            format!("(+ {})", ts.join(" "))
        }
    }
    pub fn show(&self, name: &dyn Fn(Var) -> String) -> String {
        if self.0.is_empty() {
            return "0".into();
        }
        let mut s = String::new();
        for (k, (m, c)) in self.0.iter().enumerate() {
            if k > 11 {
                s.push_str(&format!(" + ...({} terms)", self.0.len()));
                break;
            }
            if k > 0 {
                s.push_str(" + ");
            }
            s.push_str(&c.show());
            for &(v, e) in &m.0 {
                s.push_str(&format!("*{}", name(v)));
                if e > 1 {
                    s.push_str(&format!("^{}", e));
                }
            }
        }
        s
    }
}
