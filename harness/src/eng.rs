//! The verification-condition engine: symbolic real numbers (rational functions
//! over variables, modulo quadratic relations), path conditions, decisions.
use crate::poly::{Mono, Poly, Var};
use crate::rat::Rat;
use crate::z3;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub const ANY: u8 = 7;

pub fn flip(s: u8) -> u8 {
    ((s & NEG) << 2) | (s & ZERO) | ((s & POS) >> 2)
}
pub fn smul(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZERO, POS] {
        for y in [NEG, ZERO, POS] {
            if a & x != 0 && b & y != 0 {
                r |= if x == ZERO || y == ZERO {
                    ZERO
                } else if x == y {
                    POS
                } else {
                    NEG
                };
            }
        }
    }
    r
}

#[derive(Clone)]
pub struct Frac {
    pub num: Poly,
    pub den: Vec<(usize, u16)>,
    pub poison: bool,
}

pub struct VarInfo {
    pub name: String,
    /// v^2 = rel
    pub rel: Option<Poly>,
    /// v = subst (introduced by a path condition "linear poly = 0")
    pub subst: Option<Poly>,
    pub base: bool,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub label: String,
    pub why: String,
    pub path: Vec<String>,
    /// "refuted" (a model was found), "undecided", "unproved" (holds wherever it was evaluated)
    pub status: String,
    pub model: Option<BTreeMap<String, f64>>,
    /// on a path for single precision
    pub single: bool,
}

/// Payloads used to leave a path early.
pub struct Infeasible;
pub struct Unsupported(pub String);
pub struct Stop;

/// Outcome of looking for a point of a path where a goal fails.
enum Found {
    Point(BTreeMap<String, f64>),
    /// the goal held at every point found
    Vanishes,
    Nothing,
}

#[derive(Default)]
pub struct Stats {
    pub paths: usize,
    pub infeasible: usize,
    pub z3_calls: usize,
    pub z3_time: f64,
    pub discharged: BTreeMap<String, usize>,
    pub by_nf: usize,
    pub by_z3: usize,
    pub failures: Vec<Failure>,
    pub notes: BTreeSet<String>,
}

pub struct Eng {
    pub vars: Vec<VarInfo>,
    pub vals: Vec<Frac>,
    pub factors: Vec<Poly>,
    fmap: HashMap<Poly, usize>,
    /// monic non-constant polynomial -> possible signs
    pub facts: HashMap<Poly, u8>,
    pub fact_order: Vec<Poly>,
    pub hints: Vec<Poly>,
    /// take the branches in the other order
    pub reverse: bool,
    /// does this path speak of f32 (or of f64)? Open until the code asks for a machine constant
    pub single: Option<bool>,
    pub prefix: Vec<u8>,
    pub pos: usize,
    /// (chosen, remaining alternatives)
    pub record: Vec<(u8, Vec<u8>)>,
    pub path_desc: Vec<String>,
    pub trig: Vec<(Poly, Vec<(usize, u16)>, u32, u32)>,
    pub floors: Vec<(Poly, Vec<(usize, u16)>, u32)>,
    /// variables with integer values
    pub ints: Vec<Var>,
    pub pi: Option<Var>,
    pub zcache: HashMap<String, z3::Res>,
    pub stats: Stats,
    pub powcache: HashMap<(Var, u16), Poly>,
    pub sqrt_cache: HashMap<Poly, Var>,
    pub z3_timeout_ms: u64,
    pub zero_polys: Vec<Poly>,
    /// closed forms the goal expects to meet; used to shrink intermediate values
    pub cands: Vec<(Poly, C)>,
    cvals: Vec<C>,
    /// set while operations are rounded
    pub round: Option<crate::round::Round>,
}

/// a complex number, for quick refutation of candidate identities
#[derive(Clone, Copy, Debug)]
pub struct C(pub f64, pub f64);
impl C {
    fn mul(self, o: C) -> C {
        C(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
    fn add(self, o: C) -> C {
        C(self.0 + o.0, self.1 + o.1)
    }
    fn abs(self) -> f64 {
        self.0.hypot(self.1)
    }
    fn div(self, o: C) -> C {
        let d = o.0 * o.0 + o.1 * o.1;
        C((self.0 * o.0 + self.1 * o.1) / d, (self.1 * o.0 - self.0 * o.1) / d)
    }
    fn sqrt(self) -> C {
        let r = self.abs();
        let a = ((r + self.0) / 2.0).max(0.0).sqrt();
        let b = ((r - self.0) / 2.0).max(0.0).sqrt();
        C(a, if self.1 < 0.0 { -b } else { b })
    }
}


thread_local! {
    pub static ENG: RefCell<Eng> = RefCell::new(Eng::new());
}

impl Eng {
    pub fn new() -> Eng {
        Eng {
            vars: vec![],
            vals: vec![],
            factors: vec![],
            fmap: HashMap::new(),
            facts: HashMap::new(),
            fact_order: vec![],
            hints: vec![],
            reverse: false,
            single: None,
            prefix: vec![],
            pos: 0,
            record: vec![],
            path_desc: vec![],
            trig: vec![],
            floors: vec![],
            ints: vec![],
            pi: None,
            zcache: HashMap::new(),
            stats: Stats::default(),
            powcache: HashMap::new(),
            sqrt_cache: HashMap::new(),
            z3_timeout_ms: 3000,
            zero_polys: vec![],
            cands: vec![],
            cvals: vec![],
            round: None,
        }
    }
    /// forget everything belonging to one path
    pub fn reset_path(&mut self) {
        self.vars.clear();
        self.vals.clear();
        self.factors.clear();
        self.fmap.clear();
        self.facts.clear();
        self.fact_order.clear();
        self.hints.clear();
        self.pos = 0;
        self.record.clear();
        self.path_desc.clear();
        self.trig.clear();
        self.floors.clear();
        self.ints.clear();
        self.pi = None;
        self.powcache.clear();
        self.sqrt_cache.clear();
        self.zero_polys.clear();
        self.cands.clear();
        self.cvals.clear();
        self.round = None;
        self.single = None;
    }
    fn cval(&mut self, v: usize) -> C {
        while self.cvals.len() <= v {
            let k = self.cvals.len();
            let (rel, sub) = (self.vars[k].rel.clone(), self.vars[k].subst.clone());
            let c = if let Some(p) = sub {
                self.ceval(&p)
            } else if let Some(p) = rel {
                self.ceval(&p).sqrt()
            } else {
                let mut z = (k as u64 + 11).wrapping_mul(0x9E3779B97F4A7C15);
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z ^= z >> 27;
                C(0.15 + (z >> 11) as f64 / (1u64 << 53) as f64 * 0.8, 0.0)
            };
            self.cvals.push(c);
        }
        self.cvals[v]
    }
    pub fn ceval(&mut self, p: &Poly) -> C {
        let mut s = C(0.0, 0.0);
        for (m, c) in &p.0 {
            let mut t = C(c.to_f64(), 0.0);
            for &(v, e) in &m.0 {
                let b = self.cval(v as usize);
                for _ in 0..e {
                    t = t.mul(b);
                }
            }
            s = s.add(t);
        }
        s
    }
    pub fn add_cand(&mut self, p: &Poly) {
        let c = self.ceval(p);
        self.cands.push((p.clone(), c));
    }
    /// replace a bulky value by an equal candidate closed form
    fn shrink(&mut self, f: Frac) -> Frac {
        if self.cands.is_empty() || f.poison || (f.den.is_empty() && f.num.0.len() < 4) {
            return f;
        }
        let mut v = self.ceval(&f.num);
        for &(id, e) in &f.den {
            let p = self.factors[id].clone();
            let d = self.ceval(&p);
            for _ in 0..e {
                v = v.div(d);
            }
        }
        let mut den: Option<Poly> = None;
        for i in 0..self.cands.len() {
            let c = self.cands[i].1;
            for sg in [1.0, -1.0] {
                let d = C(v.0 - sg * c.0, v.1 - sg * c.1).abs();
                if d < 1e-8 * (1.0 + c.abs()) {
                    let p = if sg > 0.0 { self.cands[i].0.clone() } else { self.cands[i].0.neg() };
                    if f.den.is_empty() && p.0.len() >= f.num.0.len() {
                        continue;
                    }
                    if den.is_none() {
                        den = Some(self.den_poly(&f.den));
                    }
                    let dp = den.clone().unwrap();
                    let q = self.mul(&p, &dp);
                    if q == f.num {
                        return Frac { num: p, den: vec![], poison: false };
                    }
                }
            }
        }
        f
    }
    pub fn name(&self, v: Var) -> String {
        self.vars[v as usize].name.clone()
    }
    pub fn show(&self, p: &Poly) -> String {
        p.show(&|v| self.name(v))
    }
    pub fn new_var(&mut self, name: &str, base: bool) -> Var {
        let mut n: String = name
            .chars()
            .map(|c| if c.is_ascii_alphanumeric() || c == '_' { c } else { '_' })
            .collect();
        while self.vars.iter().any(|v| v.name == n) {
            n.push('_');
        }
        self.vars.push(VarInfo { name: n, rel: None, subst: None, base });
        (self.vars.len() - 1) as Var
    }
    pub fn push(&mut self, f: Frac) -> u32 {
        self.vals.push(f);
        (self.vals.len() - 1) as u32
    }
    pub fn get(&self, i: u32) -> Frac {
        self.vals[i as usize].clone()
    }
    pub fn konst(&mut self, r: Rat) -> u32 {
        self.push(Frac { num: Poly::konst(r), den: vec![], poison: false })
    }
    pub fn of_poly(&mut self, p: Poly) -> u32 {
        self.push(Frac { num: p, den: vec![], poison: false })
    }
    pub fn poison(&mut self, why: &str) -> u32 {
        self.stats.notes.insert(format!("undefined value: {}", why));
        self.push(Frac { num: Poly::zero(), den: vec![], poison: true })
    }

    // ----- normal form -------------------------------------------------
    fn needs_reduction(&self, m: &Mono) -> bool {
        m.0.iter().any(|&(v, e)| {
            let i = &self.vars[v as usize];
            i.subst.is_some() || (e >= 2 && i.rel.is_some())
        })
    }
    /// v^e in normal form
    fn var_pow(&mut self, v: Var, e: u16) -> Poly {
        if let Some(p) = self.powcache.get(&(v, e)) {
            return p.clone();
        }
        let r = if let Some(s) = self.vars[v as usize].subst.clone() {
            if e == 1 {
                self.reduce(&s)
            } else {
                let h = self.var_pow(v, e - 1);
                let b = self.var_pow(v, 1);
                self.mul(&h, &b)
            }
        } else if e < 2 || self.vars[v as usize].rel.is_none() {
            Poly(vec![(Mono(vec![(v, e)]), Rat::one())])
        } else if e == 2 {
            let s = self.vars[v as usize].rel.clone().unwrap();
            self.reduce(&s)
        } else {
            let h = self.var_pow(v, e - 2);
            let b = self.var_pow(v, 2);
            self.mul(&h, &b)
        };
        self.powcache.insert((v, e), r.clone());
        r
    }
    pub fn reduce(&mut self, p: &Poly) -> Poly {
        if !p.0.iter().any(|(m, _)| self.needs_reduction(m)) {
            return p.clone();
        }
        let mut acc: HashMap<Mono, Rat> = HashMap::new();
        let mut groups: HashMap<Mono, Vec<(Mono, Rat)>> = HashMap::new();
        for (m, c) in &p.0 {
            if !self.needs_reduction(m) {
                let e = acc.entry(m.clone()).or_insert_with(Rat::zero);
                *e = e.add(c);
                continue;
            }
            let mut plain = vec![];
            let mut red = vec![];
            for &(v, e) in &m.0 {
                let i = &self.vars[v as usize];
                if i.subst.is_some() || (i.rel.is_some() && e >= 2) {
                    // keep an odd factor in the plain part
                    if i.subst.is_none() && e % 2 == 1 {
                        plain.push((v, 1));
                        red.push((v, e - 1));
                    } else {
                        red.push((v, e));
                    }
                } else {
                    plain.push((v, e));
                }
            }
            groups.entry(Mono(red)).or_default().push((Mono(plain), c.clone()));
        }
        let mut out = Poly::from_map(acc);
        for (red, terms) in groups {
            let mut rp = Poly::one();
            for (v, e) in red.0 {
                let q = self.var_pow(v, e);
                rp = self.mul(&rp, &q);
            }
            let mut t = terms;
            t.sort_by(|a, b| b.0.cmp(&a.0));
            let tp = Poly(t);
            if tp.0.len() * rp.0.len() > 4_000_000 {
                std::panic::resume_unwind(Box::new(Unsupported("expression too large".into())));
            }
            let prod = tp.mul(&rp);
            let prod = self.reduce(&prod);
            out = out.add(&prod);
        }
        out
    }
    pub fn mul(&mut self, a: &Poly, b: &Poly) -> Poly {
        if a.0.len() * b.0.len() > 4_000_000 {
            std::panic::resume_unwind(Box::new(Unsupported("expression too large".into())));
        }
        let r = a.mul(b);
        self.reduce(&r)
    }

    // ----- factors ------------------------------------------------------
    fn fid(&mut self, p: &Poly) -> usize {
        if let Some(i) = self.fmap.get(p) {
            return *i;
        }
        self.factors.push(p.clone());
        self.fmap.insert(p.clone(), self.factors.len() - 1);
        self.factors.len() - 1
    }
    /// p = c * prod factors
    fn split(&mut self, p: &Poly) -> (Rat, Vec<(usize, u16)>) {
        let (c, mut q) = p.monic();
        let mut out: BTreeMap<usize, u16> = BTreeMap::new();
        let mc = q.mono_content();
        if !mc.0.is_empty() {
            q = q.div_mono(&mc);
            for (v, e) in mc.0 {
                let f = self.fid(&Poly::var(v));
                *out.entry(f).or_insert(0) += e;
            }
        }
        if q.as_const().is_none() {
            for i in 0..self.factors.len() {
                loop {
                    if q.as_const().is_some() || self.factors[i].0.len() < 2 {
                        break;
                    }
                    match q.div_exact(&self.factors[i]) {
                        Some(r) => {
                            q = r;
                            *out.entry(i).or_insert(0) += 1;
                        }
                        None => break,
                    }
                }
            }
            // factors coming from known facts
            if q.as_const().is_none() && q.0.len() < 200 {
                let cands: Vec<Poly> = self.fact_order.iter().filter(|f| f.0.len() > 1).cloned().collect();
                for f in cands {
                    if f.0.len() > q.0.len() * 4 {
                        continue;
                    }
                    while q.as_const().is_none() {
                        match q.div_exact(&f) {
                            Some(r) => {
                                q = r;
                                let i = self.fid(&f);
                                *out.entry(i).or_insert(0) += 1;
                            }
                            None => break,
                        }
                    }
                }
            }
        }
        let mut c = c;
        if let Some(k) = q.as_const() {
            c = c.mul(&k);
        } else {
            if let Some(r) = q.sqrt_exact() {
                let (_, r) = r.monic();
                let i = self.fid(&r);
                *out.entry(i).or_insert(0) += 2;
            } else {
                let i = self.fid(&q);
                *out.entry(i).or_insert(0) += 1;
            }
        }
        (c, out.into_iter().collect())
    }
    fn den_poly(&mut self, den: &[(usize, u16)]) -> Poly {
        let mut r = Poly::one();
        for &(f, e) in den {
            let p = self.factors[f].clone();
            for _ in 0..e {
                r = self.mul(&r, &p);
            }
        }
        r
    }
    /// cancel common factors, rationalise even powers of relation variables
    fn simplify(&mut self, f: Frac) -> Frac {
        let g = self.simplify0(f);
        self.shrink(g)
    }
    fn simplify0(&mut self, mut f: Frac) -> Frac {
        if f.poison {
            return f;
        }
        if f.num.is_zero() {
            f.den.clear();
            return f;
        }
        let mut changed = true;
        let mut guard = 0;
        while changed && guard < 20 {
            guard += 1;
            changed = false;
            let den = f.den.clone();
            let mut nd: BTreeMap<usize, u16> = BTreeMap::new();
            for (id, e) in den {
                let p = self.factors[id].clone();
                let mut e = e;
                while e > 0 {
                    match f.num.div_exact(&p) {
                        Some(q) => {
                            f.num = q;
                            e -= 1;
                        }
                        None => break,
                    }
                }
                if e == 0 {
                    continue;
                }
                if p.0.len() == 1 {
                    let v = p.0[0].0 .0[0].0;
                    if let (Some(rel), None) = (self.vars[v as usize].rel.clone(), &self.vars[v as usize].subst) {
                        // v in the numerator times 1/v : handled by div_exact.
                        // num = A + B v with rel | A: num / v = B + (A / rel) v
                        let rr = self.reduce(&rel);
                        while e > 0 && f.num.0.len() > 1 && rr.as_const().is_none() {
                            let (mut a, mut b) = (vec![], vec![]);
                            for (m, c) in &f.num.0 {
                                match m.exp(v) {
                                    0 => a.push((m.clone(), c.clone())),
                                    _ => b.push((m.div(&Mono(vec![(v, 1)])).unwrap(), c.clone())),
                                }
                            }
                            let Some(q) = Poly(a).div_exact(&rr) else { break };
                            let q = self.mul(&q, &Poly::var(v));
                            b.sort_by(|x, y| y.0.cmp(&x.0));
                            f.num = q.add(&Poly(b));
                            e -= 1;
                            changed = true;
                        }
                        let k = e / 2;
                        if k > 0 {
                            let rel = self.reduce(&rel);
                            let (c, fs) = self.split(&rel);
                            for _ in 0..k {
                                f.num = f.num.scale(&Rat::one().div(&c));
                                for &(g, h) in &fs {
                                    *nd.entry(g).or_insert(0) += h;
                                }
                            }
                            e -= 2 * k;
                            changed = true;
                        }
                        // 1/v = v/rel
                    }
                }
                if e > 0 {
                    *nd.entry(id).or_insert(0) += e;
                }
            }
            f.den = nd.into_iter().collect();
            if f.den.is_empty() {
                break;
            }
        }
        f
    }
    pub fn f_add(&mut self, a: &Frac, b: &Frac, sub: bool) -> Frac {
        if a.poison || b.poison {
            return Frac { num: Poly::zero(), den: vec![], poison: true };
        }
        let bn = if sub { b.num.neg() } else { b.num.clone() };
        if a.num.is_zero() {
            return Frac { num: bn, den: b.den.clone(), poison: false };
        }
        if bn.is_zero() {
            return a.clone();
        }
        if a.den == b.den {
            let num = a.num.add(&bn);
            let f = Frac { num, den: a.den.clone(), poison: false };
            return if f.den.is_empty() { self.shrink(f) } else { self.simplify(f) };
        }
        let mut l: BTreeMap<usize, u16> = a.den.iter().cloned().collect();
        for &(f, e) in &b.den {
            let x = l.entry(f).or_insert(0);
            *x = (*x).max(e);
        }
        let miss = |d: &Vec<(usize, u16)>| -> Vec<(usize, u16)> {
            l.iter()
                .filter_map(|(&f, &e)| {
                    let have = d.iter().find(|x| x.0 == f).map(|x| x.1).unwrap_or(0);
                    if e > have {
                        Some((f, e - have))
                    } else {
                        None
                    }
                })
                .collect()
        };
        let (ma, mb) = (miss(&a.den), miss(&b.den));
        let (pa, pb) = (self.den_poly(&ma), self.den_poly(&mb));
        let na = self.mul(&a.num, &pa);
        let nb = self.mul(&bn, &pb);
        let f = Frac { num: na.add(&nb), den: l.into_iter().collect(), poison: false };
        self.simplify(f)
    }
    pub fn f_mul(&mut self, a: &Frac, b: &Frac) -> Frac {
        if a.poison || b.poison {
            return Frac { num: Poly::zero(), den: vec![], poison: true };
        }
        if a.num.is_zero() || b.num.is_zero() {
            return Frac { num: Poly::zero(), den: vec![], poison: false };
        }
        // cross-cancel before multiplying
        let x = self.simplify(Frac { num: a.num.clone(), den: b.den.clone(), poison: false });
        let y = self.simplify(Frac { num: b.num.clone(), den: a.den.clone(), poison: false });
        let num = self.mul(&x.num, &y.num);
        let mut l: BTreeMap<usize, u16> = x.den.iter().cloned().collect();
        for &(f, e) in &y.den {
            *l.entry(f).or_insert(0) += e;
        }
        let f = Frac { num, den: l.into_iter().collect(), poison: false };
        if f.den.is_empty() {
            self.shrink(f)
        } else {
            self.simplify(f)
        }
    }
    pub fn f_neg(&self, a: &Frac) -> Frac {
        Frac { num: a.num.neg(), den: a.den.clone(), poison: a.poison }
    }
    /// a / b where b's numerator is already known to be nonzero on this path
    fn f_div_nz(&mut self, a: &Frac, b: &Frac) -> Frac {
        let (c, fs) = self.split(&b.num);
        let binv_num = self.den_poly(&b.den).scale(&Rat::one().div(&c));
        let inv = Frac { num: binv_num, den: fs, poison: false };
        let inv = self.simplify(inv);
        self.f_mul(a, &inv)
    }
    pub fn f_div(&mut self, a: &Frac, b: &Frac) -> Frac {
        if a.poison || b.poison {
            return Frac { num: Poly::zero(), den: vec![], poison: true };
        }
        if let Some(k) = b.num.as_const() {
            if !k.is_zero() {
                return self.f_div_nz(a, b);
            }
        }
        let g = self.decide(&b.num, &[NEG | POS, ZERO]);
        if g == 1 {
            self.stats.notes.insert("a path divides by zero".into());
            return Frac { num: Poly::zero(), den: vec![], poison: true };
        }
        self.f_div_nz(a, b)
    }

    // ----- signs and decisions -------------------------------------------
    pub fn add_fact(&mut self, p: &Poly, s: u8) {
        if p.is_zero() {
            if s & ZERO == 0 {
                std::panic::resume_unwind(Box::new(Infeasible));
            }
            return;
        }
        let (c, q) = p.monic();
        let s = if c.sign() < 0 { flip(s) } else { s };
        if q.as_const().is_some() {
            if s & POS == 0 {
                std::panic::resume_unwind(Box::new(Infeasible));
            }
            return;
        }
        let old = self.facts.get(&q).cloned().unwrap_or(ANY);
        let n = old & s;
        if n == 0 {
            std::panic::resume_unwind(Box::new(Infeasible));
        }
        if !self.facts.contains_key(&q) {
            self.fact_order.push(q.clone());
        }
        self.facts.insert(q.clone(), n);
        if n == ZERO {
            self.learn_zero(&q);
        }
        if n & ZERO == 0 {
            // a product is nonzero iff each variable factor is
            let mc = q.mono_content();
            if q.0.len() > 1 || mc.0.len() > 1 || mc.deg() > 1 {
                let rest = q.div_mono(&mc);
                for (v, _) in mc.0 {
                    let o = self.facts.get(&Poly::var(v)).cloned().unwrap_or(ANY);
                    if o & ZERO != 0 {
                        self.add_fact(&Poly::var(v), NEG | POS);
                    }
                }
                if rest.as_const().is_none() && rest != q {
                    let o = self.facts.get(&rest).cloned().unwrap_or(ANY);
                    if o & ZERO != 0 {
                        self.add_fact(&rest, NEG | POS);
                    }
                }
            }
        }
    }
    fn learn_zero(&mut self, q: &Poly) {
        self.zero_polys.push(q.clone());
        // a variable alone, or linear with constant coefficient in a free base variable
        let mc = q.mono_content();
        let target = if q.0.len() == 1 && mc.0.len() == 1 {
            Some((mc.0[0].0, Poly::zero()))
        } else {
            let mut t = None;
            for (m, c) in &q.0 {
                if m.0.len() == 1 && m.0[0].1 == 1 {
                    let v = m.0[0].0;
                    let i = &self.vars[v as usize];
                    if !i.base || i.rel.is_some() || i.subst.is_some() {
                        continue;
                    }
                    let occurs = q.0.iter().filter(|x| x.0.exp(v) > 0).count();
                    let mut vs = BTreeSet::new();
                    q.vars(&mut vs);
                    let ok = occurs == 1
                        && vs.iter().all(|&w| w <= v)
                        && vs.iter().all(|&w| {
                            w == v || (self.vars[w as usize].rel.is_none() && self.vars[w as usize].subst.is_none())
                        });
                    if ok {
                        let rest = q.sub(&Poly(vec![(m.clone(), c.clone())]));
                        t = Some((v, rest.scale(&Rat::one().div(&c.neg()))));
                    }
                }
            }
            t
        };
        if let Some((v, p)) = target {
            if self.vars[v as usize].subst.is_none() {
                if let Some(rel) = self.vars[v as usize].rel.clone() {
                    // v = 0 so rel = 0 too: only record it
                    if p.is_zero() {
                        self.zero_polys.push(rel);
                    } else {
                        return;
                    }
                }
                self.vars[v as usize].subst = Some(p);
                self.powcache.clear();
                self.cvals.clear();
                let ps: Vec<Poly> = self.cands.iter().map(|c| c.0.clone()).collect();
                self.cands.clear();
                for q in ps {
                    let q = self.reduce(&q);
                    self.add_cand(&q);
                }
            }
        }
    }
    fn var_sign(&self, v: Var) -> u8 {
        self.facts.get(&Poly::var(v)).cloned().unwrap_or(ANY)
    }
    fn mono_sign(&self, m: &Mono) -> u8 {
        let mut s = POS;
        for &(v, e) in &m.0 {
            let t = self.var_sign(v);
            let t = if e % 2 == 0 {
                let mut r = 0;
                if t & (NEG | POS) != 0 {
                    r |= POS;
                }
                if t & ZERO != 0 {
                    r |= ZERO;
                }
                r
            } else {
                t
            };
            s = smul(s, t);
        }
        s
    }
    fn sum_sign(&self, p: &Poly) -> u8 {
        let mut all = None;
        for (m, c) in &p.0 {
            let mut s = self.mono_sign(m);
            if c.sign() < 0 {
                s = flip(s);
            }
            all = Some(match all {
                None => s,
                Some(a) => {
                    let mut r = 0;
                    for x in [NEG, ZERO, POS] {
                        for y in [NEG, ZERO, POS] {
                            if a & x != 0 && s & y != 0 {
                                r |= if x == y || y == ZERO {
                                    x
                                } else if x == ZERO {
                                    y
                                } else {
                                    ANY
                                };
                            }
                        }
                    }
                    r
                }
            });
        }
        all.unwrap_or(ZERO)
    }
    /// cheap sign analysis
    pub fn sign(&mut self, p: &Poly) -> u8 {
        if p.is_zero() {
            return ZERO;
        }
        let (c, q) = p.monic();
        let cs = if c.sign() < 0 { NEG } else { POS };
        let mc = q.mono_content();
        let mut s = smul(cs, self.mono_sign(&mc));
        let mut rest = q.div_mono(&mc);
        if rest.as_const().is_some() {
            return s;
        }
        if let Some(f) = self.facts.get(&q) {
            let t = smul(cs, *f);
            if t.count_ones() == 1 {
                return t;
            }
        }
        // pull known factors out of rest
        let mut known: Vec<(Poly, u8)> = vec![];
        for f in self.fact_order.iter() {
            if f.0.len() > 1 {
                known.push((f.clone(), self.facts[f]));
            }
        }
        let nv = self.vars.len();
        for v in 0..nv {
            if let (Some(r), None) = (self.vars[v].rel.clone(), &self.vars[v].subst) {
                let r = self.reduce(&r);
                if r.is_zero() || r.as_const().is_some() {
                    continue;
                }
                let (k, r) = r.monic();
                let vs = self.var_sign(v as Var);
                let t = if vs & ZERO == 0 { POS } else { ZERO | POS };
                let t = if k.sign() < 0 { flip(t) } else { t };
                known.push((r, t));
            }
        }
        for (f, t) in known {
            let mut guard = 0;
            while rest.as_const().is_none() && guard < 8 {
                guard += 1;
                match rest.div_exact(&f) {
                    Some(r) => {
                        rest = r;
                        s = smul(s, t);
                    }
                    None => break,
                }
            }
        }
        if let Some(k) = rest.as_const() {
            return smul(s, if k.sign() < 0 { NEG } else { POS });
        }
        let mut t = self.sum_sign(&rest);
        if t == ANY && rest.sqrt_exact().is_some() {
            t = ZERO | POS;
        }
        if t == ANY && rest.neg().sqrt_exact().is_some() {
            t = ZERO | NEG;
        }
        let r = smul(s, t);
        if let Some(f) = self.facts.get(&q) {
            return r & smul(cs, *f);
        }
        r
    }
    /// SMT text of everything known on this path that could matter
    pub fn context(&mut self, extra: &[&Poly]) -> String {
        // dependency closure over shared variables is not used: send everything,
        // restricted to variables that are mentioned
        let mut used: BTreeSet<Var> = BTreeSet::new();
        for p in extra {
            p.vars(&mut used);
        }
        let mut facts: Vec<(Poly, u8)> = vec![];
        for f in &self.fact_order {
            facts.push((f.clone(), self.facts[f]));
        }
        // closure
        loop {
            let n = used.len();
            for (v, i) in self.vars.iter().enumerate() {
                if used.contains(&(v as Var)) {
                    if let Some(r) = &i.rel {
                        r.vars(&mut used);
                    }
                    if let Some(r) = &i.subst {
                        r.vars(&mut used);
                    }
                } else if let Some(r) = &i.rel {
                    let mut vs = BTreeSet::new();
                    r.vars(&mut vs);
                    if i.base && vs.iter().any(|x| used.contains(x)) {
                        used.insert(v as Var);
                    }
                }
            }
            for (f, _) in &facts {
                let mut vs = BTreeSet::new();
                f.vars(&mut vs);
                if vs.iter().any(|x| used.contains(x)) {
                    used.extend(vs);
                }
            }
            if used.len() == n {
                break;
            }
        }
        let nm = |v: Var| self.vars[v as usize].name.clone();
        let mut s = String::new();
        for &v in &used {
            s.push_str(&format!("(declare-const {} Real)\n", nm(v)));
        }
        for &v in &used {
            let i = &self.vars[v as usize];
            if let Some(r) = &i.rel {
                s.push_str(&format!("(assert (= (* {} {}) {}))\n", i.name, i.name, r.to_smt(&nm)));
            }
            if let Some(r) = &i.subst {
                s.push_str(&format!("(assert (= {} {}))\n", i.name, r.to_smt(&nm)));
            }
        }
        for v in &self.ints {
            if used.contains(v) {
                s.push_str(&format!("(assert (is_int {}))\n", nm(*v)));
            }
        }
        for (f, t) in &facts {
            let mut vs = BTreeSet::new();
            f.vars(&mut vs);
            if vs.iter().all(|x| used.contains(x)) && *t != ANY {
                s.push_str(&format!("(assert {})\n", sign_smt(&f.to_smt(&nm), *t)));
            }
        }
        s
    }
    pub fn z3(&mut self, q: &str, model: bool, timeout: u64) -> z3::Res {
        if !model {
            if let Some(r) = self.zcache.get(q) {
                return r.clone();
            }
        }
        let t0 = std::time::Instant::now();
        let names: Vec<String> = self.vars.iter().map(|v| v.name.clone()).collect();
        let r = z3::run(q, model, timeout, &names);
        self.stats.z3_calls += 1;
        self.stats.z3_time += t0.elapsed().as_secs_f64();
        if !model {
            self.zcache.insert(q.to_string(), r.clone());
        }
        r
    }
    /// Machine constants differ between the scalar types: one path for each.
    pub fn is_single(&mut self) -> bool {
        if let Some(b) = self.single {
            return b;
        }
        let c = if self.pos < self.prefix.len() {
            let c = self.prefix[self.pos];
            self.record.push((c, vec![]));
            c
        } else {
            let o: [u8; 2] = if self.reverse { [1, 0] } else { [0, 1] };
            self.record.push((o[0], vec![o[1]]));
            o[0]
        };
        self.pos += 1;
        self.path_desc.push(format!("scalar type {}", if c == 1 { "f32" } else { "f64" }));
        self.single = Some(c == 1);
        c == 1
    }
    /// Which of the sign groups does p belong to on this path? Forks.
    pub fn decide(&mut self, p: &Poly, groups: &[u8]) -> usize {
        let p = &self.reduce(p);
        let s = self.sign(p);
        let mut opts: Vec<u8> = (0..groups.len()).filter(|&g| groups[g] & s != 0).map(|g| g as u8).collect();
        if opts.is_empty() {
            std::panic::resume_unwind(Box::new(Infeasible));
        }
        if opts.len() > 1 {
            // replay a recorded decision?
            if self.pos < self.prefix.len() {
                let c = self.prefix[self.pos];
                self.pos += 1;
                self.record.push((c, vec![]));
                self.note_decision(p, groups[c as usize] & s);
                return c as usize;
            }
            // drop the infeasible groups
            let mut keep = vec![];
            for &g in &opts {
                let want = groups[g as usize] & s;
                if self.hints.len() > 0 && self.lin_unsat(p, want) {
                    continue;
                }
                let ctx = self.context(&[p]);
                let nm = |v: Var| self.vars[v as usize].name.clone();
                let q = format!("{}(assert {})\n", ctx, sign_smt(&p.to_smt(&nm), want));
                let t = self.z3_timeout_ms;
                match self.z3(&q, false, t) {
                    z3::Res::Unsat => {}
                    _ => keep.push(g),
                }
            }
            opts = keep;
            if opts.is_empty() {
                std::panic::resume_unwind(Box::new(Infeasible));
            }
            if self.reverse {
                opts.reverse();
            }
            let c = opts[0];
            self.record.push((c, opts[1..].to_vec()));
            self.pos += 1;
            self.note_decision(p, groups[c as usize] & s);
            return c as usize;
        }
        let c = opts[0];
        if (groups[c as usize] & s) != s {
            self.note_decision(p, groups[c as usize] & s);
        }
        c as usize
    }
    fn note_decision(&mut self, p: &Poly, s: u8) {
        let d = format!("{} {}", self.show(p), sign_name(s));
        self.path_desc.push(d);
        self.add_fact(p, s);
    }
    /// sign decision for a fraction: groups refer to the fraction's sign
    pub fn decide_frac(&mut self, f: &Frac, groups: &[u8]) -> usize {
        // sign(num) * prod sign(den factors)
        let mut flipc = false;
        let den = f.den.clone();
        let mut mulp = Poly::one();
        if f.num.is_zero() {
            return groups.iter().position(|g| g & ZERO != 0).unwrap();
        }
        // zero test only needs the numerator
        let only_zero = groups.iter().all(|&g| g == ZERO || g == (NEG | POS));
        if only_zero {
            return self.decide(&f.num, groups);
        }
        for (id, e) in den {
            if e % 2 == 0 {
                continue;
            }
            let p = self.factors[id].clone();
            let s = self.sign(&p) & (NEG | POS);
            if s == POS {
            } else if s == NEG {
                flipc = !flipc;
            } else {
                mulp = self.mul(&mulp, &p);
            }
        }
        let mut p = self.mul(&f.num, &mulp);
        if flipc {
            p = p.neg();
        }
        self.decide(&p, groups)
    }

    // ----- square root ----------------------------------------------------
    /// Some(v) or None if negative
    pub fn f_sqrt(&mut self, a: &Frac) -> Frac {
        if a.poison {
            return a.clone();
        }
        // make all denominator exponents even
        let mut num = a.num.clone();
        let mut half: Vec<(usize, u16)> = vec![];
        for &(f, e) in &a.den.clone() {
            let mut e = e;
            if e % 2 == 1 {
                let p = self.factors[f].clone();
                num = self.mul(&num, &p);
                e += 1;
            }
            half.push((f, e / 2));
        }
        // outer = |den half|
        let mut den_out: Vec<(usize, u16)> = vec![];
        let mut neg = false;
        for (f, h) in half {
            if h % 2 == 1 {
                let p = self.factors[f].clone();
                let g = self.decide(&p, &[POS | ZERO, NEG]);
                if g == 1 {
                    neg = !neg;
                }
            }
            den_out.push((f, h));
        }
        let root = match self.poly_sqrt(&num) {
            Some(r) => r,
            None => return Frac { num: Poly::zero(), den: vec![], poison: true },
        };
        let root = if neg { root.neg() } else { root };
        let f = Frac { num: root, den: den_out, poison: false };
        self.simplify(f)
    }
    fn abs_poly(&mut self, p: &Poly) -> Poly {
        if self.decide(p, &[POS | ZERO, NEG]) == 1 {
            p.neg()
        } else {
            p.clone()
        }
    }
    fn poly_sqrt(&mut self, n: &Poly) -> Option<Poly> {
        let n = self.reduce(n);
        if n.is_zero() {
            return Some(Poly::zero());
        }
        // hints first: n == k * h^2 with k a perfect square
        for h in self.hints.clone() {
            let h2 = self.mul(&h, &h);
            if h2.is_zero() || h2.0.len() != n.0.len() {
                continue;
            }
            let k = n.0[0].1.div(&h2.0[0].1);
            if h2.scale(&k) != n || k.sign() < 0 {
                continue;
            }
            if self.sign(&h) & ZERO != 0 && self.lin_unsat(&n, NEG | ZERO) {
                self.add_fact(&h, NEG | POS);
            }
            let a = self.abs_poly(&h);
            if let Some(rk) = k.sqrt() {
                return Some(a.scale(&rk));
            }
            let rk = self.poly_sqrt(&Poly::konst(k))?;
            return Some(self.mul(&a, &rk));
        }
        let (mut c, mut q) = n.monic();
        let mut outer = Poly::one(); // product of |...|
        let mc = q.mono_content();
        if mc.0.iter().any(|x| x.1 >= 2) {
            let mut take = vec![];
            for (v, e) in mc.0 {
                let h = e / 2;
                if h > 0 {
                    take.push((v, 2 * h));
                    let av = self.abs_poly(&Poly::var(v));
                    for _ in 0..h {
                        outer = self.mul(&outer, &av);
                    }
                }
            }
            q = q.div_mono(&Mono(take));
        }
        // relation polynomials are squares of their variables
        for v in 0..self.vars.len() {
            if let (Some(r), None) = (self.vars[v].rel.clone(), &self.vars[v].subst) {
                let r = self.reduce(&r);
                if r.is_zero() || r.as_const().is_some() {
                    continue;
                }
                let (k, r) = r.monic();
                if let Some(t) = q.div_exact(&r) {
                    q = t;
                    c = c.div(&k);
                    let av = self.abs_poly(&Poly::var(v as Var));
                    outer = self.mul(&outer, &av);
                }
            }
        }
        if let Some(r) = q.sqrt_exact() {
            if r.as_const().is_none() {
                let ar = self.abs_poly(&r);
                outer = self.mul(&outer, &ar);
            }
            q = Poly::one();
        } else {
            // repeated known factors
            for i in 0..self.factors.len() {
                let f = self.factors[i].clone();
                if f.0.len() < 2 {
                    continue;
                }
                while let Some(t) = q.div_exact(&f).and_then(|t| t.div_exact(&f)) {
                    q = t;
                    let af = self.abs_poly(&f);
                    outer = self.mul(&outer, &af);
                }
            }
        }
        let mut inner = q.scale(&c);
        if let Some(k) = inner.as_const() {
            if k.sign() < 0 {
                return None;
            }
            if let Some(r) = k.sqrt() {
                return Some(outer.scale(&r));
            }
        } else {
            // pull out a perfect square constant
            let (c2, q2) = inner.monic();
            if let Some(r) = Rat::one().mul(&c2).sqrt() {
                outer = outer.scale(&r);
                inner = q2;
            }
            // sign
            if self.decide(&inner, &[POS | ZERO, NEG]) == 1 {
                return None;
            }
        }
        let v = match self.sqrt_cache.get(&inner) {
            Some(v) => *v,
            None => {
                let nm = format!("sqrt{}", self.vars.len());
                let v = self.new_var(&nm, false);
                self.vars[v as usize].rel = Some(inner.clone());
                self.sqrt_cache.insert(inner.clone(), v);
                let s = self.sign(&inner);
                let s = s & (POS | ZERO);
                let s = if s & ZERO != 0 && self.prove_nonzero(&inner) { POS } else { s };
                self.add_fact(&Poly::var(v), s);
                v
            }
        };
        let r = self.mul(&outer, &Poly::var(v));
        Some(r)
    }
    /// Is "p has a sign in `want`" contradictory when every monomial is read as
    /// an independent real (facts and squares of hints being the axioms)?
    fn lin_unsat(&mut self, p: &Poly, want: u8) -> bool {
        let mut ax: Vec<(Poly, u8)> = vec![(p.clone(), want)];
        for h in self.hints.clone() {
            let h2 = self.mul(&h, &h);
            ax.push((h2, ZERO | POS));
        }
        for f in self.fact_order.clone() {
            let t = self.facts[&f];
            if t != ANY && t != (NEG | POS) {
                let f = self.reduce(&f);
                ax.push((f, t));
            }
        }
        let mut ids: BTreeMap<Mono, usize> = BTreeMap::new();
        let mut body = String::new();
        for (f, t) in &ax {
            if f.0.len() > 400 {
                continue;
            }
            let mut ts = vec!["0.0".to_string(), "0.0".to_string()];
            for (m, c) in &f.0 {
                if m.0.is_empty() {
                    ts.push(c.to_smt());
                } else {
                    let n = ids.len();
                    let id = *ids.entry(m.clone()).or_insert(n);
                    ts.push(format!("(* {} m{})", c.to_smt(), id));
                }
            }
            body.push_str(&format!("(assert {})\n", sign_smt(&format!("(+ {})", ts.join(" ")), *t)));
        }
        let mut q = String::from("(set-logic QF_LRA)\n");
        for (m, i) in &ids {
            q.push_str(&format!("(declare-const m{} Real)\n", i));
            let t = self.mono_sign(m);
            if t != ANY {
                q.push_str(&format!("(assert {})\n", sign_smt(&format!("m{}", i), t)));
            }
        }
        q.push_str(&body);
        matches!(self.z3(&q, false, 3000), z3::Res::Unsat)
    }
    /// try to show p != 0 on this path without forking
    pub fn prove_nonzero(&mut self, p: &Poly) -> bool {
        let p = self.reduce(p);
        if self.sign(&p) & ZERO == 0 {
            return true;
        }
        let ctx = self.context(&[&p]);
        let nm = |v: Var| self.vars[v as usize].name.clone();
        let q = format!("{}(assert (= {} 0.0))\n", ctx, p.to_smt(&nm));
        let t = self.z3_timeout_ms;
        let ok = matches!(self.z3(&q, false, t), z3::Res::Unsat);
        if ok {
            self.add_fact(&p, NEG | POS);
        }
        ok
    }

    // ----- obligations ----------------------------------------------------
    pub fn discharged(&mut self, label: &str, z: bool) {
        *self.stats.discharged.entry(label.to_string()).or_insert(0) += 1;
        if z {
            self.stats.by_z3 += 1
        } else {
            self.stats.by_nf += 1
        }
    }
    pub fn fail(&mut self, label: &str, why: String, goal: Option<&Poly>) {
        // is this path feasible at all, with the goal violated?
        let mut ps: Vec<Poly> = self.fact_order.clone();
        for i in 0..self.vars.len() {
            if self.vars[i].base {
                ps.push(Poly::var(i as Var));
            }
        }
        if let Some(g) = goal {
            ps.push(g.clone());
        }
        let refs: Vec<&Poly> = ps.iter().collect();
        let ctx = self.context(&refs);
        let nm = |v: Var| self.vars[v as usize].name.clone();
        let q = match goal {
            Some(g) => format!("{}(assert (not (= {} 0.0)))\n", ctx, g.to_smt(&nm)),
            None => ctx,
        };
        let t = self.z3_timeout_ms * 3;
        let r = self.z3(&q, true, t);
        let (status, model) = match r {
            z3::Res::Unsat => {
                self.discharged(label, true);
                return;
            }
            z3::Res::Sat(m) => ("refuted", Some(m)),
            z3::Res::Unknown if self.stats.failures.iter().filter(|f| f.label == label).count() >= 6 => ("undecided", None),
            z3::Res::Unknown => match self.search(goal) {
                Found::Point(m) => ("refuted", Some(m)),
                Found::Vanishes => ("unproved", None),
                Found::Nothing => ("undecided", None),
            },
        };
        if self.stats.failures.iter().filter(|f| f.label == label).count() < 6 {
            let path = self.path_desc.clone();
            self.stats.failures.push(Failure {
                label: label.to_string(),
                why,
                path,
                status: status.into(),
                model,
                single: self.single == Some(true),
            });
        }
    }
    /// Points of this path, found numerically: is there one where the goal fails?
    fn search(&mut self, goal: Option<&Poly>) -> Found {
        type Term = (f64, Vec<(usize, u16)>);
        let comp = |p: &Poly| -> Vec<Term> {
            p.0.iter().map(|(m, c)| (c.to_f64(), m.0.iter().map(|&(v, e)| (v as usize, e)).collect())).collect()
        };
        // value and magnitude
        fn val(p: &[Term], x: &[f64]) -> (f64, f64) {
            let (mut s, mut m) = (0.0, 0.0);
            for (c, f) in p {
                let mut t = *c;
                for &(v, e) in f {
                    t *= x[v].powi(e as i32);
                }
                s += t;
                m += t.abs();
            }
            (s, m)
        }
        fn ratio(p: &[Term], x: &[f64]) -> f64 {
            let (s, m) = val(p, x);
            if m == 0.0 { 0.0 } else { s / m }
        }
        let n = self.vars.len();
        let rel: Vec<Option<(bool, Vec<Term>)>> = self
            .vars
            .iter()
            .map(|v| v.subst.as_ref().map(|p| (true, comp(p))).or(v.rel.as_ref().map(|p| (false, comp(p)))))
            .collect();
        // definitions before their uses
        let mut order = vec![];
        let mut done = vec![false; n];
        for _ in 0..n {
            let k = order.len();
            for v in 0..n {
                let ready = |r: &Vec<Term>| r.iter().all(|t| t.1.iter().all(|&(w, _)| done[w]));
                if !done[v] && rel[v].as_ref().map_or(true, |r| ready(&r.1)) {
                    order.push(v);
                }
            }
            for &v in &order[k..] {
                done[v] = true;
            }
            if order.len() == k {
                break;
            }
        }
        if order.len() < n || !self.ints.is_empty() {
            return Found::Nothing;
        }
        let facts: Vec<(Vec<Term>, u8)> = self.fact_order.iter().map(|p| (comp(p), self.facts[p])).filter(|f| f.1 != ANY).collect();
        let goal = goal.map(comp);
        let free: Vec<usize> = (0..n).filter(|&v| rel[v].is_none() && self.pi != Some(v as Var)).collect();
        let base: Vec<bool> = self.vars.iter().map(|v| v.base).collect();
        let pi = self.pi;
        let size: usize = facts.iter().map(|f| f.0.len()).sum::<usize>() + rel.iter().flatten().map(|r| r.1.len()).sum::<usize>() + 10;
        // by how much each condition of the path is missed
        let fill = |x: &mut [f64], sg: &[f64]| -> Vec<f64> {
            let mut bad = vec![];
            if let Some(v) = pi {
                x[v as usize] = std::f64::consts::PI;
            }
            for &v in &order {
                if let Some((lin, p)) = &rel[v] {
                    let (s, m) = val(p, x);
                    if *lin {
                        x[v] = s;
                        continue;
                    }
                    bad.push((-s / m).max(0.0));
                    x[v] = sg[v] * s.max(0.0).sqrt();
                }
            }
            for (p, s) in &facts {
                let r = ratio(p, x);
                bad.push(match *s {
                    ZERO => if r.abs() < 1e-13 { 0.0 } else { r },
                    s if s == NEG | POS => if r.abs() > 1e-9 { 0.0 } else { 1e-3 },
                    s => {
                        let m = if s & ZERO != 0 { 0.0 } else { 1e-12 };
                        // aim a little further inside than is asked for
                        let (d, k) = if s & POS != 0 { (r - m, 1.0) } else { (-r - m, -1.0) };
                        if d >= 0.0 { 0.0 } else { k * (d - 0.05 * d.abs()) }
                    }
                });
            }
            bad
        };
        let cost = |b: &[f64]| {
            let c = b.iter().map(|x| x * x).sum::<f64>();
            if c.is_finite() { c } else { f64::INFINITY }
        };
        let mut z = 0x1234_5678_9abc_def1u64;
        let mut uni = move || {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut y = z;
            y = (y ^ (y >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            y = (y ^ (y >> 27)).wrapping_mul(0x94D049BB133111EB);
            ((y ^ (y >> 31)) >> 11) as f64 / (1u64 << 53) as f64
        };
        let (mut hits, mut zeros) = (0, 0);
        let mut budget = (60_000_000 / size).clamp(1_000, 100_000) as isize;
        while budget > 0 && hits < 12 {
            let scale = [0.3, 1.0, 4.0][(uni() * 3.0) as usize];
            let mut x = vec![0.0; n];
            for &v in &free {
                x[v] = if uni() < 0.15 { [1.0, -1.0][(uni() * 2.0) as usize] } else { (uni() * 2.0 - 1.0) * scale };
            }
            let sg: Vec<f64> = (0..n).map(|v| if base[v] && uni() < 0.5 { -1.0 } else { 1.0 }).collect();
            let mut b = fill(&mut x, &sg);
            budget -= 1;
            // damped Gauss-Newton steps on what is missed
            for _ in 0..60 {
                let c0 = cost(&b);
                if c0 == 0.0 || c0 == f64::INFINITY || budget <= 0 {
                    break;
                }
                let miss: Vec<usize> = (0..b.len()).filter(|&i| b[i] != 0.0).collect();
                let mut j = nalgebra::DMatrix::<f64>::zeros(miss.len(), free.len());
                for (k, &v) in free.iter().enumerate() {
                    let mut y = x.clone();
                    let h = 1e-7 * (1e-3 + x[v].abs());
                    y[v] += h;
                    let by = fill(&mut y, &sg);
                    for (i, &m) in miss.iter().enumerate() {
                        j[(i, k)] = (by[m] - b[m]) / h;
                    }
                }
                budget -= free.len() as isize;
                let r = nalgebra::DVector::from_iterator(miss.len(), miss.iter().map(|&m| b[m]));
                let jj = &j * j.transpose();
                let lam = 1e-12 * jj.trace();
                let Some(w) = (jj + nalgebra::DMatrix::identity(miss.len(), miss.len()) * lam).lu().solve(&r) else { break };
                let d = j.transpose() * w;
                let mut better = false;
                for t in [1.0, 0.5, 0.2, 0.05, 0.01] {
                    let mut y = x.clone();
                    for (k, &v) in free.iter().enumerate() {
                        y[v] -= t * d[k];
                    }
                    let by = fill(&mut y, &sg);
                    budget -= 1;
                    if cost(&by) < c0 {
                        (x, b, better) = (y, by, true);
                        break;
                    }
                }
                if !better {
                    break;
                }
            }
            if cost(&b) > 0.0 {
                continue;
            }
            hits += 1;
            let r = goal.as_ref().map_or(1.0, |g| ratio(g, &x).abs());
            if r > 1e-7 {
                return Found::Point((0..n).map(|v| (self.vars[v].name.clone(), x[v])).collect());
            }
            if r < 1e-11 {
                zeros += 1;
            }
        }
        if hits >= 4 && zeros == hits { Found::Vanishes } else { Found::Nothing }
    }
    pub fn check_eq(&mut self, label: &str, a: &Frac, b: &Frac) {
        if a.poison || b.poison {
            self.fail(label, "the value is undefined (division by zero or root of a negative number)".into(), None);
            return;
        }
        let d = self.f_add(a, b, true);
        let n = self.reduce(&d.num);
        if n.is_zero() {
            self.discharged(label, false);
            return;
        }
        // use a "poly = 0" path condition by trial division
        for z in self.zero_polys.clone() {
            let z = self.reduce(&z);
            if !z.is_zero() && n.div_exact(&z).is_some() {
                self.discharged(label, false);
                return;
            }
        }
        let ctx = self.context(&[&n]);
        let nm = |v: Var| self.vars[v as usize].name.clone();
        let q = format!("{}(assert (not (= {} 0.0)))\n", ctx, n.to_smt(&nm));
        let t = self.z3_timeout_ms;
        if matches!(self.z3(&q, false, t), z3::Res::Unsat) {
            self.discharged(label, true);
            return;
        }
        let why = format!("difference numerator does not vanish: {}", self.show(&n));
        self.fail(label, why, Some(&n));
    }
}

pub fn sign_smt(e: &str, s: u8) -> String {
    match s {
        NEG => format!("(< {} 0.0)", e),
        ZERO => format!("(= {} 0.0)", e),
        POS => format!("(> {} 0.0)", e),
        3 => format!("(<= {} 0.0)", e),
        6 => format!("(>= {} 0.0)", e),
        5 => format!("(not (= {} 0.0))", e),
        0 => "false".into(),
        _ => "true".into(),
    }
}
pub fn sign_name(s: u8) -> &'static str {
    match s {
        NEG => "< 0",
        ZERO => "= 0",
        POS => "> 0",
        3 => "<= 0",
        6 => ">= 0",
        5 => "!= 0",
        _ => "?",
    }
}
