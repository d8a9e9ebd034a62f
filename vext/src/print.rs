//! The extracted program as a Verus file: executable statements under the
//! row-by-row contract, and the row function read off the same statements.
use crate::ir::*;
use std::collections::BTreeMap;
use std::fmt::Write;

const PRELUDE: &str = r#"
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Val { x: u64 }
pub struct Row { pub a: Val, pub b: Val, pub c: Val }
#[verifier::external_body]
pub struct Mat { x: u64 }
impl View for Mat { type V = Seq<Row>; uninterp spec fn view(&self) -> Seq<Row>; }
pub open spec fn rget(r: Row, c: int) -> Val { if c == 0 { r.a } else if c == 1 { r.b } else { r.c } }
pub open spec fn rset(r: Row, c: int, v: Val) -> Row {
    if c == 0 { Row { a: v, ..r } } else if c == 1 { Row { b: v, ..r } } else { Row { c: v, ..r } }
}
pub uninterp spec fn ncols(m: &Mat) -> nat;
pub uninterp spec fn zero_row() -> Row;
pub uninterp spec fn any_row() -> Row;
pub uninterp spec fn fill_row(v: Val) -> Row;
pub uninterp spec fn row_val(r: Row) -> Val;
pub uninterp spec fn row_of(v: Val) -> Row;
// ---- assumed: nalgebra matrices of a fixed column count ----
#[verifier::external_body]
fn mat_zeros(n: usize, c: usize) -> (m: Mat)
    ensures m@.len() == n, ncols(&m) == c, forall|k: int| 0 <= k < n ==> #[trigger] m@[k] == zero_row()
{ unimplemented!() }
#[verifier::external_body]
fn mat_fill(n: usize, c: usize, v: Val) -> (m: Mat)
    ensures m@.len() == n, ncols(&m) == c, forall|k: int| 0 <= k < n ==> #[trigger] m@[k] == fill_row(v)
{ unimplemented!() }
#[verifier::external_body]
fn mat_copy(s: &Mat) -> (m: Mat) ensures m@ == s@, ncols(&m) == ncols(s) { unimplemented!() }
#[verifier::external_body]
fn mat_nrows(m: &Mat) -> (n: usize) ensures n == m@.len() { unimplemented!() }
#[verifier::external_body]
fn mat_at(m: &Mat, i: usize, c: usize) -> (v: Val)
    requires i < m@.len(), c < ncols(m)
    ensures v == rget(m@[i as int], c as int)
{ unimplemented!() }
#[verifier::external_body]
fn mat_row(m: &Mat, i: usize) -> (v: Val) requires i < m@.len() ensures v == row_val(m@[i as int]) { unimplemented!() }
#[verifier::external_body]
fn mat_set(m: &mut Mat, i: usize, c: usize, v: Val)
    requires i < old(m)@.len(), c < ncols(old(m))
    ensures final(m)@ == old(m)@.update(i as int, rset(old(m)@[i as int], c as int, v)), ncols(final(m)) == ncols(old(m))
{ unimplemented!() }
#[verifier::external_body]
fn mat_set_row(m: &mut Mat, i: usize, v: Val)
    requires i < old(m)@.len()
    ensures final(m)@ == old(m)@.update(i as int, row_of(v)), ncols(final(m)) == ncols(old(m))
{ unimplemented!() }
"#;

fn kl(k: K) -> char {
    match k {
        K::Val => 'v',
        K::Int => 'i',
        K::Bool => 'b',
    }
}
fn kt(k: K, spec: bool) -> &'static str {
    match (k, spec) {
        (K::Val, _) => "Val",
        (K::Int, true) => "int",
        (K::Int, false) => "usize",
        (K::Bool, _) => "bool",
    }
}

#[derive(Default)]
struct P {
    ops: BTreeMap<String, (Vec<K>, K)>,
    calls: BTreeMap<String, (Vec<K>, usize, usize)>,
    stages: String,
    /// functions of all rows: the row count in specifications
    n: Option<String>,
    bad: Option<String>,
    folds: BTreeMap<usize, Fold>,
}

#[derive(Clone)]
pub struct Fold {
    pub params: Vec<(String, K)>,
    pub carry: Vec<String>,
    pub rays: String,
}


impl P {
    fn op(&mut self, n: &str, a: &[E], k: K) -> String {
        let ks: Vec<K> = a.iter().map(|e| e.kind()).collect();
        let id = format!("{n}_{}{}", ks.iter().map(|k| kl(*k)).collect::<String>(), kl(k).to_ascii_uppercase());
        self.ops.insert(id.clone(), (ks, k));
        id
    }
    fn list(&mut self, a: &[E], spec: bool) -> String {
        a.iter().map(|e| self.e(e, spec)).collect::<Vec<_>>().join(", ")
    }
    fn e(&mut self, e: &E, spec: bool) -> String {
        match e {
            E::Var(n, _) => n.clone(),
            E::Int(n) => {
                if spec {
                    format!("{n}int")
                } else {
                    format!("{n}usize")
                }
            }
            E::Bool(b) => b.to_string(),
            E::At(m, i, c) => {
                let c = self.e(c, spec);
                if spec {
                    format!("rget({m}, {c})")
                } else {
                    format!("mat_at(&{m}, {}, {c})", self.e(i, spec))
                }
            }
            E::RowVal(m, i) => {
                if spec {
                    format!("row_val({m})")
                } else {
                    format!("mat_row(&{m}, {})", self.e(i, spec))
                }
            }
            E::NRows(m) => {
                if spec {
                    self.n.clone().unwrap_or("1int".into())
                } else {
                    format!("mat_nrows(&{m})")
                }
            }
            E::Op(n, a, k) => {
                let id = self.op(n, a, *k);
                format!("{}_{id}({})", if spec { "s" } else { "o" }, self.list(a, spec))
            }
            E::IntBin(o, a, b) | E::Cmp(o, a, b) => format!("({} {o} {})", self.e(a, spec), self.e(b, spec)),
            E::And(a, b) => format!("({} && {})", self.e(a, spec), self.e(b, spec)),
            E::Or(a, b) => format!("({} || {})", self.e(a, spec), self.e(b, spec)),
            E::Not(a) => format!("(!{})", self.e(a, spec)),
            E::If(c, sa, a, sb, b) => {
                let c = self.e(c, spec);
                let (pa, pb) = if spec { (self.spec(sa), self.spec(sb)) } else { (self.exec(sa), self.exec(sb)) };
                format!("(if {c} {{ {pa} {} }} else {{ {pb} {} }})", self.e(a, spec), self.e(b, spec))
            }
        }
    }

    fn call_id(&mut self, c: &Call) -> String {
        let ks: Vec<K> = c.args.iter().map(|e| e.kind()).collect();
        let id = format!("{}_{}", c.name, ks.iter().map(|k| kl(*k)).collect::<String>());
        self.calls.insert(id.clone(), (ks, c.cols_in, c.cols_out));
        id
    }

    fn spec(&mut self, b: &[S]) -> String {
        let mut o = String::new();
        for s in b {
            match s {
                S::Let(n, e) | S::Set(n, e) => {
                    let x = self.e(e, true);
                    let _ = write!(o, "let {n} = {x}; ");
                }
                S::LetMat(n, m) | S::SetMat(n, m) => {
                    let x = match m {
                        M::Zeros(..) | M::ZerosT(_) => "zero_row()".to_string(),
                        M::Fill(_, _, v) => format!("fill_row({})", self.e(v, true)),
                        M::Copy(s) => s.clone(),
                    };
                    let _ = write!(o, "let {n} = {x}; ");
                }
                S::MatSet(m, _, c, v) => {
                    let (c, v) = (self.e(c, true), self.e(v, true));
                    let _ = write!(o, "let {m} = rset({m}, {c}, {v}); ");
                }
                S::MatSetRow(m, _, v) => {
                    let v = self.e(v, true);
                    let _ = write!(o, "let {m} = row_of({v}); ");
                }
                S::Call(c) => {
                    let id = self.call_id(c);
                    let a = self.list(&c.args, true);
                    let sep = if a.is_empty() { "" } else { ", " };
                    let _ = write!(o, "let {} = r_{id}({a}{sep}{}); let {} = b_{id}({a}); ", c.mat, c.src, c.bt);
                }
                S::If(c, a, b) => {
                    let mut ms = vec![];
                    modified(a, &mut ms);
                    modified(b, &mut ms);
                    if ms.is_empty() {
                        continue;
                    }
                    let t = tuple(&ms);
                    let (c, a, b) = (self.e(c, true), self.spec(a), self.spec(b));
                    let _ = write!(o, "let {t} = if {c} {{ {a}{t} }} else {{ {b}{t} }}; ");
                }
                S::For { id, lo, hi, body, scope, .. } => {
                    let ms = mats_modified(body, scope);
                    if ms.is_empty() {
                        continue;
                    }
                    let t = tuple(&ms);
                    let args = scope.iter().map(|(n, _)| n.clone()).collect::<Vec<_>>().join(", ");
                    if self.n.is_some() {
                        let _ = write!(o, "let {t} = stage_{id}({args}); ");
                        continue;
                    }
                    let _ = write!(o, "let {t} = if {} < {} {{ stage_{id}({args}) }} else {{ {t} }}; ", self.e(lo, true), self.e(hi, true));
                }
            }
        }
        o
    }

    fn stage(&mut self, s: &S) {
        let S::For { id, var, body, scope, .. } = s else { return };
        let ms = mats_modified(body, scope);
        if ms.is_empty() {
            return;
        }
        let ps = scope
            .iter()
            .map(|(n, k)| format!("{n}: {}", k.map_or("Row", |k| kt(k, true))))
            .collect::<Vec<_>>()
            .join(", ");
        let ty = if ms.len() == 1 { "Row".to_string() } else { format!("({})", vec!["Row"; ms.len()].join(", ")) };
        let b = self.spec(body);
        let _ = write!(self.stages, "spec fn stage_{id}({ps}) -> {ty} {{ let {var} = 0int; {b}{} }}\n", tuple(&ms));
    }

    fn exec(&mut self, b: &[S]) -> String {
        let mut o = String::new();
        for s in b {
            match s {
                S::Let(n, e) => {
                    let x = self.e(e, false);
                    let _ = write!(o, "let mut {n} = {x};\n");
                }
                S::Set(n, e) => {
                    let x = self.e(e, false);
                    let _ = write!(o, "{n} = {x};\n");
                }
                S::LetMat(n, m) | S::SetMat(n, m) => {
                    let x = match m {
                        M::Zeros(a, b) => format!("mat_zeros({}, {})", self.e(a, false), self.e(b, false)),
                        M::ZerosT(n) => format!("mat_zeros({}, 1usize)", self.e(n, false)),
                        M::Fill(a, b, v) => format!("mat_fill({}, {}, {})", self.e(a, false), self.e(b, false), self.e(v, false)),
                        M::Copy(s) => format!("mat_copy(&{s})"),
                    };
                    let l = if matches!(s, S::LetMat(..)) { "let mut " } else { "" };
                    let _ = write!(o, "{l}{n} = {x};\n");
                }
                S::MatSet(m, r, c, v) => {
                    let (r, c, v) = (self.e(r, false), self.e(c, false), self.e(v, false));
                    let _ = write!(o, "{{ let v_ = {v}; let r_ = {r}; let c_ = {c}; mat_set(&mut {m}, r_, c_, v_); }}\n");
                }
                S::MatSetRow(m, r, v) => {
                    let (r, v) = (self.e(r, false), self.e(v, false));
                    let _ = write!(o, "{{ let v_ = {v}; let r_ = {r}; mat_set_row(&mut {m}, r_, v_); }}\n");
                }
                S::Call(c) => {
                    let id = self.call_id(c);
                    let a = self.list(&c.args, false);
                    let sep = if a.is_empty() { "" } else { ", " };
                    let _ = write!(o, "let (mut {}, mut {}) = c_{id}({a}{sep}&{});\n", c.mat, c.bt, c.src);
                }
                S::If(c, a, b) => {
                    let (c, a, b) = (self.e(c, false), self.exec(a), self.exec(b));
                    let _ = write!(o, "if {c} {{\n{a}}} else {{\n{b}}}\n");
                }
                S::For { id, var, lo, hi, rev, body, scope } => {
                    self.stage(s);
                    let ms = mats_modified(body, scope);
                    let mut all = vec![];
                    modified(body, &mut all);
                    let (lo, hi) = (self.e(lo, false), self.e(hi, false));
                    let _ = write!(o, "let s_{id}: usize = {lo}; let e_{id}: usize = {hi};\n");
                    for m in &ms {
                        let _ = write!(o, "let ghost {m}_pre{id} = {m}@; let ghost {m}_nc{id} = ncols(&{m});\n");
                    }
                    for (n, k) in scope {
                        if k.is_some() && all.contains(n) {
                            let _ = write!(o, "let ghost {n}_pre{id} = {n};\n");
                        }
                    }
                    let args = scope
                        .iter()
                        .map(|(n, k)| match k {
                            None if ms.contains(n) => format!("{n}_pre{id}[k]"),
                            None => format!("{n}@[k]"),
                            Some(k) => {
                                let v = if all.contains(n) { format!("{n}_pre{id}") } else { n.clone() };
                                if *k == K::Int {
                                    format!("{v} as int")
                                } else {
                                    v
                                }
                            }
                        })
                        .collect::<Vec<_>>()
                        .join(", ");
                    let (init, cond, bounds, done, todo, dec) = if *rev {
                        (
                            format!("e_{id}"),
                            format!("{var} > s_{id}"),
                            format!("{var} <= e_{id}, s_{id} <= e_{id} ==> s_{id} <= {var}"),
                            format!("{var} <= k < e_{id}"),
                            format!("(k < {var} || e_{id} <= k)"),
                            format!("{var}"),
                        )
                    } else {
                        (
                            format!("s_{id}"),
                            format!("{var} < e_{id}"),
                            format!("s_{id} <= {var}, s_{id} <= e_{id} ==> {var} <= e_{id}"),
                            format!("s_{id} <= k < {var}"),
                            format!("(k < s_{id} || {var} <= k)"),
                            format!("e_{id} - {var}"),
                        )
                    };
                    let _ = write!(o, "let mut {var}: usize = {init};\nwhile {cond}\n    invariant {bounds},\n");
                    for (j, m) in ms.iter().enumerate() {
                        let proj = if ms.len() == 1 { String::new() } else { format!(".{j}") };
                        let _ = write!(
                            o,
                            "        {m}@.len() == {m}_pre{id}.len(), ncols(&{m}) == {m}_nc{id},\n        forall|k: int| 0 <= k < {m}@.len() && {done} ==> #[trigger] {m}@[k] == stage_{id}({args}){proj},\n        forall|k: int| 0 <= k < {m}@.len() && {todo} ==> #[trigger] {m}@[k] == {m}_pre{id}[k],\n"
                        );
                    }
                    if let Some(f) = self.folds.get(id).cloned() {
                        if *rev {
                            self.bad = Some("sum in reverse order".into());
                        }
                        let mut a: Vec<String> = f.params.iter().map(|(n, k)| if *k == K::Int { format!("{n} as int") } else { n.clone() }).collect();
                        a.extend(f.carry.iter().map(|c| format!("{c}_pre{id}")));
                        let a = a.into_iter().map(|x| x + ", ").collect::<String>();
                        for (j, c) in f.carry.iter().enumerate() {
                            let proj = if f.carry.len() == 1 { String::new() } else { format!(".{j}") };
                            let _ = write!(o, "        {c} == fold_{id}({a}{r}@, {r}@.len() as int, {var} as int){proj},\n", r = f.rays);
                        }
                    }
                    let body = self.exec(body);
                    let _ = write!(o, "    decreases {dec}\n{{\n");
                    if *rev {
                        let _ = write!(o, "{var} = {var} - 1;\n{body}}}\n");
                    } else {
                        let _ = write!(o, "{body}{var} = {var} + 1;\n}}\n");
                    }
                }
            }
        }
        o
    }

    fn tail(&mut self, t: &Tail, f: &Func, mode: Mode) -> String {
        match t {
            Tail::Val(e) => self.e(e, mode != Mode::Exec),
            Tail::Ret(m, bt) => match mode {
                Mode::Exec => {
                    let r = if *m == f.mat { format!("mat_copy({m})") } else { m.clone() };
                    match (f.has_bt, bt) {
                        (true, Some(b)) => format!("let b_ = {}; ({r}, b_)", self.e(b, false)),
                        _ => r,
                    }
                }
                Mode::Row => m.clone(),
                Mode::Bt => match bt {
                    Some(b) => self.e(b, true),
                    None => "no_bundle_type".into(),
                },
            },
            Tail::If(c, a, b) => {
                let x = mode == Mode::Exec;
                let c = self.e(c, !x);
                let (sa, sb) = if x { (self.exec(&a.0), self.exec(&b.0)) } else { (self.spec(&a.0), self.spec(&b.0)) };
                let (ta, tb) = (self.tail(&a.1, f, mode), self.tail(&b.1, f, mode));
                format!("if {c} {{ {sa} {ta} }} else {{ {sb} {tb} }}")
            }
        }
    }
}

fn carried(body: &[S], scope: &[(String, Option<K>)]) -> Vec<String> {
    let mut all = vec![];
    modified(body, &mut all);
    all.retain(|m| scope.iter().any(|(n, k)| n == m && k.is_some()));
    all
}

impl P {
    /// Specification of a function of all rows: matrices are described row by
    /// row (`prefix`), loops that carry a value are folds over the rows.
    fn global(&mut self, b: &[S], f: &Func, prefix: &mut Vec<S>, known: &mut Vec<(String, K)>) -> String {
        let mut o = String::new();
        for s in b {
            match s {
                S::Let(n, e) => {
                    let x = self.e(e, true);
                    known.retain(|k| k.0 != *n);
                    known.push((n.clone(), e.kind()));
                    let _ = write!(o, "let {n} = {x}; ");
                }
                S::Set(n, e) => {
                    if format!("{prefix:?}").contains(&format!("\"{n}\"")) {
                        self.bad = Some(format!("{n} changes after a matrix was made from it"));
                    }
                    let x = self.e(e, true);
                    let _ = write!(o, "let {n} = {x}; ");
                }
                S::For { id, body, scope, .. } => {
                    let carry = carried(body, scope);
                    let mats = mats_modified(body, scope);
                    if carry.is_empty() {
                        prefix.push(s.clone());
                        continue;
                    }
                    if !mats.is_empty() {
                        self.bad = Some("a loop that carries a value and fills a matrix".into());
                        continue;
                    }
                    self.fold(s, f, prefix, known, carry.clone());
                    let fd = self.folds[id].clone();
                    let mut a: Vec<String> = fd.params.iter().map(|p| p.0.clone()).collect();
                    a.extend(carry.iter().cloned());
                    let a = a.into_iter().map(|x| x + ", ").collect::<String>();
                    let n = self.n.clone().unwrap();
                    let _ = write!(o, "let {} = fold_{id}({a}{}_all, {n}, {n}); ", tuple(&carry), f.mat);
                }
                S::If(c, x, y) => {
                    let mut ms = vec![];
                    modified(x, &mut ms);
                    modified(y, &mut ms);
                    if ms.is_empty() {
                        continue;
                    }
                    if format!("{x:?}{y:?}").contains("Mat") || format!("{x:?}{y:?}").contains("For") {
                        self.bad = Some("matrix or loop in a branch".into());
                        continue;
                    }
                    let t = tuple(&ms);
                    let (c, x, y) = (self.e(c, true), self.spec(x), self.spec(y));
                    let _ = write!(o, "let {t} = if {c} {{ {x}{t} }} else {{ {y}{t} }}; ");
                }
                S::Call(_) => self.bad = Some("batch operation".into()),
                s => prefix.push(s.clone()),
            }
        }
        o
    }

    fn fold(&mut self, s: &S, f: &Func, prefix: &[S], known: &[(String, K)], carry: Vec<String>) {
        let S::For { id, var, body, .. } = s else { return };
        if self.folds.contains_key(id) {
            return;
        }
        let text = format!("{prefix:?}{body:?}");
        let params: Vec<(String, K)> =
            known.iter().filter(|(n, _)| !carry.contains(n) && text.contains(&format!("\"{n}\""))).cloned().collect();
        let saved = self.n.replace("n_".into());
        for p in prefix {
            self.stage(p);
        }
        let pre = self.spec(prefix);
        let b = self.spec(body);
        self.n = saved;
        let mut ps: Vec<String> = params.iter().map(|(n, k)| format!("{n}: {}", kt(*k, true))).collect();
        ps.extend(carry.iter().map(|c| format!("{c}: Val")));
        let a = params.iter().map(|p| p.0.clone()).chain(carry.iter().cloned()).map(|x| x + ", ").collect::<String>();
        let ty = if carry.len() == 1 { "Val".to_string() } else { format!("({})", vec!["Val"; carry.len()].join(", ")) };
        let t = tuple(&carry);
        let m = &f.mat;
        let _ = write!(
            self.stages,
            "spec fn fold_{id}({}, {m}_all: Seq<Row>, n_: int, k_: int) -> {ty} decreases k_ {{ if k_ <= 0 {{ {t} }} else {{ let {t} = fold_{id}({a}{m}_all, n_, k_ - 1); let {m} = {m}_all[k_ - 1]; let {var} = k_ - 1; {pre}{b}{t} }} }}\n",
            ps.join(", ")
        );
        self.folds.insert(*id, Fold { params, carry, rays: m.clone() });
    }

    fn global_tail(&mut self, t: &Tail, f: &Func, prefix: &mut Vec<S>, known: &mut Vec<(String, K)>) -> String {
        match t {
            Tail::Val(e) => self.e(e, true),
            Tail::Ret(..) => {
                self.bad = Some("batch result".into());
                String::new()
            }
            Tail::If(c, a, b) => {
                let c = self.e(c, true);
                let side = |p: &mut P, x: &(Vec<S>, Tail)| {
                    let (mut pf, mut kn) = (prefix.clone(), known.clone());
                    let s = p.global(&x.0, f, &mut pf, &mut kn);
                    s + &p.global_tail(&x.1, f, &mut pf, &mut kn)
                };
                let (a, b) = (side(self, a), side(self, b));
                format!("if {c} {{ {a} }} else {{ {b} }}")
            }
        }
    }
}

/// A function of all rows: `ensures r == F(arguments, rows)`.
pub fn reduce(id: &str, f: &Func) -> Result<String, String> {
    let mut p = P::default();
    p.n = Some(format!("({}_all.len() as int)", f.mat));
    let mut known = f.params.clone();
    let mut prefix = vec![];
    let mut sb = p.global(&f.body, f, &mut prefix, &mut known);
    sb += &p.global_tail(&f.tail, f, &mut prefix, &mut known);
    p.n = Some("n_".into());
    p.stages.clear();
    let folds = std::mem::take(&mut p.folds);
    // once more, in the order of use, to emit each stage once
    p.n = Some(format!("({}_all.len() as int)", f.mat));
    let mut known = f.params.clone();
    let mut prefix = vec![];
    p.global(&f.body, f, &mut prefix, &mut known);
    p.global_tail(&f.tail, f, &mut prefix, &mut known);
    let _ = folds;
    let spec_stages = std::mem::take(&mut p.stages);
    let body = p.exec(&f.body);
    let tail = p.tail(&f.tail, f, Mode::Exec);
    if let Some(b) = p.bad {
        return Err(b);
    }
    // stages are emitted by both passes: keep one of each
    let mut seen = std::collections::BTreeSet::new();
    let mut stages = String::new();
    for l in spec_stages.lines() {
        if seen.insert(l.split('(').next().unwrap().to_string()) {
            stages += l;
            stages.push('\n');
        }
    }
    p.stages = stages;
    let mut sp: Vec<String> = f.params.iter().map(|(n, k)| format!("{n}: {}", kt(*k, true))).collect();
    sp.push(format!("{}_all: Seq<Row>", f.mat));
    let mut ep: Vec<String> = f.params.iter().map(|(n, k)| format!("{n}: {}", kt(*k, false))).collect();
    ep.push(format!("{}: &Mat", f.mat));
    let mut args: Vec<String> = f.params.iter().map(|(n, k)| if *k == K::Int { format!("{n} as int") } else { n.clone() }).collect();
    args.push(format!("{}@", f.mat));
    let shadows = f.params.iter().map(|(n, _)| format!("let mut {n} = {n};\n")).collect::<String>();
    let mut o = head(id, f);
    ops(&p, &mut o);
    let _ = write!(o, "// ---- the function of all rows, read off the body ----\n{}", p.stages);
    let _ = write!(o, "spec fn F({}) -> Val {{ {sb} }}\n", sp.join(", "));
    let _ = write!(
        o,
        "// ---- {} ----\n#[verifier::loop_isolation(false)]\nfn extracted({}) -> (r: Val)\n    requires ncols({}) == {}\n    ensures r == F({}),\n{{\n{shadows}{body}{tail}\n}}\n}}\nfn main() {{}}\n",
        f.name, ep.join(", "), f.mat, f.cols_in, args.join(", ")
    );
    Ok(o)
}

fn head(id: &str, f: &Func) -> String {
    format!(
        "// {id}: extracted from {} ({})\n#![allow(unused, non_snake_case)]\nuse vstd::prelude::*;\nverus! {{\n{PRELUDE}\n// ---- assumed: scalar operations are pure functions of their arguments ----\n",
        f.line, f.name
    )
}
fn ops(p: &P, o: &mut String) {
    for (n, (ks, k)) in &p.ops {
        let sp = ks.iter().enumerate().map(|(i, k)| format!("a{i}: {}", kt(*k, true))).collect::<Vec<_>>().join(", ");
        let ep = ks.iter().enumerate().map(|(i, k)| format!("a{i}: {}", kt(*k, false))).collect::<Vec<_>>().join(", ");
        let a = (0..ks.len()).map(|i| if ks[i] == K::Int { format!("a{i} as int") } else { format!("a{i}") }).collect::<Vec<_>>().join(", ");
        let eq = if *k == K::Int { format!("r as int == s_{n}({a})") } else { format!("r == s_{n}({a})") };
        let _ = write!(
            o,
            "pub uninterp spec fn s_{n}({sp}) -> {};\n#[verifier::external_body]\nfn o_{n}({ep}) -> (r: {}) ensures {eq} {{ unimplemented!() }}\n",
            kt(*k, true), kt(*k, false)
        );
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Exec,
    Row,
    Bt,
}

fn tuple(v: &[String]) -> String {
    if v.len() == 1 {
        v[0].clone()
    } else {
        format!("({})", v.join(", "))
    }
}

fn mats_modified(body: &[S], scope: &[(String, Option<K>)]) -> Vec<String> {
    let mut all = vec![];
    modified(body, &mut all);
    all.retain(|m| scope.iter().any(|(n, k)| n == m && k.is_none()));
    all
}

pub fn file(id: &str, f: &Func) -> String {
    let mut p = P::default();
    let ps = |spec: bool| f.params.iter().map(|(n, k)| format!("{}{n}: {}", if spec { "" } else { "mut " }, kt(*k, spec))).collect::<Vec<_>>();
    let body = p.exec(&f.body);
    let tail = p.tail(&f.tail, f, Mode::Exec);
    let sbody = p.spec(&f.body);
    let srow = p.tail(&f.tail, f, Mode::Row);
    let mut sp = ps(true);
    let bt_params = sp.join(", ");
    sp.push(format!("{}: Row", f.mat));
    let row_params = sp.join(", ");
    let bt_fn = if f.has_bt {
        let t = p.tail(&f.tail, f, Mode::Bt);
        format!("spec fn F_bundle_type({bt_params}) -> Val {{ let {} = any_row(); {sbody}{t} }}\n", f.mat)
    } else {
        String::new()
    };
    // parameters are immutable in the contract; mutable copies inside
    let eps: Vec<String> = f.params.iter().map(|(n, k)| format!("{n}: {}", kt(*k, false))).collect();
    let mut ep = eps.clone();
    ep.push(format!("{}: &Mat", f.mat));
    let args = f
        .params
        .iter()
        .map(|(n, k)| if *k == K::Int { format!("{n} as int") } else { n.clone() })
        .collect::<Vec<_>>();
    let mut rargs = args.clone();
    rargs.push(format!("{}@[k]", f.mat));
    let (rt, rm) = if f.has_bt { ("(Mat, Val)", "r.0") } else { ("Mat", "r") };
    let shadows = f.params.iter().map(|(n, _)| format!("let mut {n} = {n};\n")).collect::<String>();
    let mut o = head(id, f);
    ops(&p, &mut o);
    if !p.calls.is_empty() {
        o.push_str("// ---- row contracts of the operations called (discharged for the crate's own in their files) ----\n");
    }
    for (n, (ks, ci, co)) in &p.calls {
        let sp = ks.iter().enumerate().map(|(i, k)| format!("a{i}: {}, ", kt(*k, true))).collect::<String>();
        let ep = ks.iter().enumerate().map(|(i, k)| format!("a{i}: {}, ", kt(*k, false))).collect::<String>();
        let a = (0..ks.len()).map(|i| if ks[i] == K::Int { format!("a{i} as int, ") } else { format!("a{i}, ") }).collect::<String>();
        let _ = write!(
            o,
            "pub uninterp spec fn r_{n}({sp}row: Row) -> Row;\npub uninterp spec fn b_{n}({}) -> Val;\n#[verifier::external_body]\nfn c_{n}({ep}m: &Mat) -> (r: (Mat, Val))\n    requires ncols(m) == {ci}\n    ensures r.0@.len() == m@.len(), ncols(&r.0) == {co}, r.1 == b_{n}({}),\n        forall|k: int| 0 <= k < m@.len() ==> #[trigger] r.0@[k] == r_{n}({a}m@[k])\n{{ unimplemented!() }}\n",
            sp.trim_end_matches(", "),
            a.trim_end_matches(", ")
        );
    }
    let _ = write!(o, "// ---- the row function, read off the body ----\n{}", p.stages);
    let _ = write!(o, "spec fn F_row({row_params}) -> Row {{ {sbody}{srow} }}\n{bt_fn}");
    let btc = if f.has_bt { format!("        r.1 == F_bundle_type({}),\n", args.join(", ")) } else { String::new() };
    let _ = write!(
        o,
        "// ---- {} ----\n#[verifier::loop_isolation(false)]\nfn extracted({}) -> (r: {rt})\n    requires ncols({}) == {}\n    ensures\n        {rm}@.len() == {}@.len(), ncols(&{rm}) == {},\n        forall|k: int| 0 <= k < {rm}@.len() ==> #[trigger] {rm}@[k] == F_row({}),\n{btc}{{\n{shadows}{body}{tail}\n}}\n}}\nfn main() {{}}\n",
        f.name, ep.join(", "), f.mat, f.cols_in, f.mat, f.cols_out, rargs.join(", ")
    );
    o
}
