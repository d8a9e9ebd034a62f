//! The round-trip utility as a Lean term: its statements over natural numbers,
//! lists of pairs and two-column matrices; loops are folds over their ranges.
//! The camera model and the scalars are opaque. Dropped: clones, references,
//! conversions between equal scalars (`convert`), capacity hints, types.
use crate::Cand;
use quote::ToTokens;
use std::collections::HashMap;
use syn::{Expr, Pat, Stmt};

type R<T> = Result<T, String>;

/// element types of lists
#[derive(Clone, PartialEq, Debug)]
enum T {
    N,
    A,
    Pair(Box<T>, Box<T>),
    Unknown,
}

#[derive(Clone, Debug)]
enum G {
    N(String),
    A(String),
    Tup(Vec<G>),
    /// list of the given element type
    L(String, T),
    /// an iterator over a list
    It(String, T),
    /// with the position of each element
    Enum(String, T),
    M(String),
    /// value of the camera's own types
    O(String),
    Cam,
    Unit,
}

fn lean_t(t: &T) -> String {
    match t {
        T::N => "ℕ".into(),
        T::A => "α".into(),
        T::Pair(a, b) => format!("({} × {})", lean_t(a), lean_t(b)),
        T::Unknown => "_".into(),
    }
}

fn ty(g: &G) -> Option<T> {
    Some(match g {
        G::N(_) => T::N,
        G::A(_) => T::A,
        G::Tup(v) if v.len() == 2 => T::Pair(Box::new(ty(&v[0])?), Box::new(ty(&v[1])?)),
        _ => return None,
    })
}

fn text(g: &G) -> R<String> {
    Ok(match g {
        G::N(s) | G::A(s) | G::L(s, _) | G::M(s) | G::O(s) => s.clone(),
        G::Tup(v) => format!("({})", v.iter().map(text).collect::<R<Vec<_>>>()?.join(", ")),
        _ => return Err("a value outside the grid subset".into()),
    })
}

fn of(s: String, t: &T) -> R<G> {
    Ok(match t {
        T::N => G::N(s),
        T::A => G::A(s),
        T::Pair(a, b) => G::Tup(vec![of(format!("{s}.1"), a)?, of(format!("{s}.2"), b)?]),
        T::Unknown => return Err("a list of unknown elements".into()),
    })
}

#[derive(Clone)]
struct Var {
    v: G,
    depth: usize,
    mutable: bool,
}

pub struct Tr<'a> {
    all: &'a [Cand],
    file: &'a str,
    scopes: Vec<HashMap<String, Var>>,
    depth: usize,
    n: usize,
    calls: usize,
    lines: Vec<String>,
    written: Vec<String>,
    pub fed: Vec<String>,
    pub under: Vec<String>,
    asserts: Vec<usize>,
    vars: Vec<(String, T)>,
}

impl<'a> Tr<'a> {
    fn un<X>(&self, what: &str, e: &dyn ToTokens) -> R<X> {
        Err(format!("{what}: {}", e.to_token_stream().to_string().chars().take(90).collect::<String>()))
    }
    fn fresh(&mut self, s: &str) -> String {
        self.n += 1;
        format!("{s}_{}", self.n)
    }
    fn get(&self, n: &str) -> Option<Var> {
        self.scopes.iter().rev().find_map(|s| s.get(n).cloned())
    }
    fn bind(&mut self, n: &str, v: G, mutable: bool) {
        let depth = self.depth;
        self.scopes.last_mut().unwrap().insert(n.into(), Var { v, depth, mutable });
    }
    fn set(&mut self, n: &str, v: G) -> R<()> {
        for s in self.scopes.iter_mut().rev() {
            if let Some(x) = s.get_mut(n) {
                x.v = v;
                return Ok(());
            }
        }
        Err(format!("{n} is not known"))
    }
    fn nat(&mut self, e: &Expr) -> R<String> {
        match self.expr(e)? {
            G::N(s) => Ok(s),
            _ => self.un("not a natural number", e),
        }
    }
    fn iter_of(&mut self, e: &Expr) -> R<(String, T)> {
        match self.expr(e)? {
            G::It(s, t) | G::L(s, t) => Ok((s, t)),
            _ => self.un("not an iterator", e),
        }
    }
    fn pat(&mut self, p: &Pat, v: G) -> R<()> {
        match (p, v) {
            (Pat::Ident(i), v) => self.bind(&i.ident.to_string(), v, i.mutability.is_some()),
            (Pat::Type(t), v) => return self.pat(&t.pat, v),
            (Pat::Reference(r), v) => return self.pat(&r.pat, v),
            (Pat::Wild(_), _) => {}
            (Pat::Tuple(t), G::Tup(v)) if t.elems.len() == v.len() => {
                for (p, v) in t.elems.iter().zip(v) {
                    self.pat(p, v)?
                }
            }
            (Pat::Slice(t), G::Tup(v)) if t.elems.len() == v.len() => {
                for (p, v) in t.elems.iter().zip(v) {
                    self.pat(p, v)?
                }
            }
            (p, _) => return self.un("pattern", p),
        }
        Ok(())
    }
    /// a closure of one argument on an element: its text and result
    fn lambda(&mut self, c: &Expr, t: &T) -> R<(String, G)> {
        let Expr::Closure(c) = c else { return self.un("not a closure", c) };
        if c.inputs.len() != 1 {
            return self.un("closure", c);
        }
        let x = self.fresh("x");
        self.scopes.push(HashMap::new());
        let (lines, depth) = (std::mem::take(&mut self.lines), self.depth);
        self.depth += 1;
        let (w, a) = (self.written.len(), self.asserts.len());
        let r = self.pat(&c.inputs[0], of(x.clone(), t)?).and_then(|_| self.expr(&c.body));
        self.scopes.pop();
        self.depth = depth;
        let inner = std::mem::replace(&mut self.lines, lines);
        if self.written.len() != w || self.asserts.len() != a {
            return self.un("closure with an effect", c);
        }
        Ok((format!("fun {x} : {} => {}", lean_t(t), inner.join("")), r?))
    }
    fn expr(&mut self, e: &Expr) -> R<G> {
        match e {
            Expr::Paren(p) => self.expr(&p.expr),
            Expr::Group(p) => self.expr(&p.expr),
            Expr::Reference(r) => self.expr(&r.expr),
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.expr(&u.expr),
            Expr::Path(p) => {
                let n = p.path.to_token_stream().to_string();
                match self.get(&n) {
                    Some(v) => Ok(v.v),
                    None => self.un("name", e),
                }
            }
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => Ok(G::N(format!("({} : ℕ)", i.base10_digits()))),
                syn::Lit::Float(f) => Ok(G::A(format!("(lit {:?})", f.base10_digits().to_string()))),
                _ => self.un("literal", e),
            },
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                match (self.expr(&c.expr)?, t.as_str()) {
                    (G::N(s), "f64" | "f32") => Ok(G::A(format!("(conv {s})"))),
                    (G::N(s), "usize" | "u64") => Ok(G::N(s)),
                    _ => self.un("cast", e),
                }
            }
            Expr::Binary(b) => {
                let (x, y) = (self.expr(&b.left)?, self.expr(&b.right)?);
                let (G::N(x), G::N(y)) = (x, y) else { return self.un("operation", e) };
                let o = match b.op {
                    syn::BinOp::Add(_) => "+",
                    syn::BinOp::Mul(_) => "*",
                    syn::BinOp::Div(_) => "/",
                    syn::BinOp::Rem(_) => "%",
                    syn::BinOp::Sub(_) => {
                        if self.depth > 0 && !self.vars.is_empty() && self.vars.iter().any(|(v, _)| x.contains(v.as_str()) || y.contains(v.as_str())) {
                            return self.un("subtraction inside a loop", e);
                        }
                        let l = format!("({}({y} ≤ {x}))", self.lines.join(""));
                        if self.depth == 0 || true {
                            self.under.push(l)
                        }
                        "-"
                    }
                    _ => return self.un("operation", e),
                };
                Ok(G::N(format!("({x} {o} {y})")))
            }
            Expr::Tuple(t) => Ok(G::Tup(t.elems.iter().map(|x| self.expr(x)).collect::<R<_>>()?)),
            Expr::Array(t) => Ok(G::Tup(t.elems.iter().map(|x| self.expr(x)).collect::<R<_>>()?)),
            Expr::Block(b) if b.label.is_none() => self.block(&b.block),
            Expr::Field(f) => {
                let v = self.expr(&f.base)?;
                match (&v, f.member.to_token_stream().to_string().as_str()) {
                    (G::M(_), "data") => Ok(v),
                    (G::Tup(a), k) => match k.parse::<usize>() {
                        Ok(k) if k < a.len() => Ok(a[k].clone()),
                        _ => self.un("field", e),
                    },
                    _ => self.un("field", e),
                }
            }
            Expr::Index(i) => {
                let v = self.expr(&i.expr)?;
                let k = self.expr(&i.index)?;
                match (v, k) {
                    (G::L(s, t), G::N(k)) => of(format!("({s}[{k}]!)"), &t),
                    (G::M(s), G::Tup(v)) if v.len() == 2 => Ok(G::A(format!("(Mat.val {s} {} {})", text(&v[0])?, text(&v[1])?))),
                    (G::Tup(a), G::N(k)) => {
                        let k = lit(&k).ok_or("index of an array")?;
                        a.get(k).cloned().ok_or_else(|| "index of an array".to_string())
                    }
                    _ => self.un("index", e),
                }
            }
            Expr::Range(r) => {
                let (Some(a), Some(b)) = (&r.start, &r.end) else { return self.un("range", e) };
                let (a, b) = (self.nat(a)?, self.nat(b)?);
                let b = if matches!(r.limits, syn::RangeLimits::Closed(_)) { format!("({b} + 1)") } else { b };
                Ok(G::It(range(&a, &b), T::N))
            }
            Expr::Struct(s) => {
                if s.fields.len() == 1 && s.path.segments.last().unwrap().ident == "Pixels" {
                    return self.expr(&s.fields[0].expr);
                }
                self.un("struct", e)
            }
            Expr::Macro(m) if m.mac.path.is_ident("vec") && m.mac.tokens.is_empty() => Ok(G::L("[]".into(), T::Unknown)),
            Expr::Call(c) => self.call(c),
            Expr::MethodCall(c) => self.method(c),
            _ => self.un("expression", e),
        }
    }
    fn args<'b>(&mut self, a: impl IntoIterator<Item = &'b Expr>) -> R<Vec<G>> {
        a.into_iter().map(|x| self.expr(x)).collect()
    }
    fn call(&mut self, c: &syn::ExprCall) -> R<G> {
        let Expr::Path(p) = &*c.func else { return self.un("call", c) };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().unwrap().as_str();
        let prev = if segs.len() > 1 { segs[segs.len() - 2].as_str() } else { "" };
        let a: Vec<&Expr> = c.args.iter().collect();
        match (prev, last, a.len()) {
            ("Vec", "new", 0) => return Ok(G::L("[]".into(), T::Unknown)),
            ("Vec", "with_capacity", 1) => return Ok(G::L("[]".into(), T::Unknown)),
            ("" | "nalgebra" | "na", "convert", 1) => return self.expr(a[0]),
            (_, "range_step", 3) if prev == "num_iter" || prev.is_empty() => {
                let v = self.args(a)?;
                let [G::N(x), G::N(y), G::N(z)] = &v[..] else { return self.un("range", c) };
                return Ok(G::It(format!("(range {x} {y} {z})"), T::N));
            }
            ("R", "zero" | "one", 0) => return Ok(G::A(format!("(lit {last:?})"))),
            ("Pixels", "new", 1) => return self.expr(a[0]),
            ("OMatrix" | "MatrixXx2" | "Matrix", "from_element", 2) => {
                let v = self.args(a)?;
                let [G::N(n), G::A(x)] = &v[..] else { return self.un("matrix", c) };
                return Ok(G::M(format!("(Mat.fill {n} {x})")));
            }
            ("OMatrix" | "MatrixXx2" | "Matrix", "zeros", 1) => {
                let n = self.nat(a[0])?;
                return Ok(G::M(format!("(Mat.fill {n} (lit \"zero\"))")));
            }
            ("OMatrix" | "MatrixXx2" | "Matrix", "from_fn", 2) => {
                let n = self.nat(a[0])?;
                let Expr::Closure(f) = a[1] else { return self.un("matrix", c) };
                if f.inputs.len() != 2 {
                    return self.un("matrix", c);
                }
                let i = self.fresh("i");
                let mut cells = vec![];
                for j in 0..2 {
                    self.scopes.push(HashMap::new());
                    let w = self.written.len();
                    let lines = std::mem::take(&mut self.lines);
                    let r = self
                        .pat(&f.inputs[0], G::N(i.clone()))
                        .and_then(|_| self.pat(&f.inputs[1], G::N(format!("({j} : ℕ)"))))
                        .and_then(|_| self.expr(&f.body));
                    self.scopes.pop();
                    let inner = std::mem::replace(&mut self.lines, lines);
                    if self.written.len() != w {
                        return self.un("closure with an effect", c);
                    }
                    let G::A(r) = r? else { return self.un("matrix element", c) };
                    cells.push(format!("({}{r})", inner.join("")));
                }
                return Ok(G::M(format!("(Mat.mk {n} (fun {i} j => if j = 0 then {} else {}))", cells[0], cells[1])));
            }
            _ => {}
        }
        if let Some(v) = self.inline(last, &a)? {
            return Ok(v);
        }
        self.un("call", c)
    }
    fn inline(&mut self, name: &str, a: &[&Expr]) -> R<Option<G>> {
        let mut c: Vec<&Cand> = self.all.iter().filter(|c| c.owner.is_empty() && c.sig.ident == name).collect();
        if c.len() > 1 {
            c.retain(|c| c.file == self.file)
        }
        let [c] = c[..] else { return Ok(None) };
        self.calls += 1;
        if self.calls > 40 {
            return Err("recursion".into());
        }
        let vals = self.args(a.iter().copied())?;
        if vals.len() != c.sig.inputs.len() {
            return Err("arity".into());
        }
        let saved = std::mem::replace(&mut self.scopes, vec![HashMap::new()]);
        let r = (|| {
            for (p, v) in c.sig.inputs.iter().zip(vals) {
                let syn::FnArg::Typed(p) = p else { return Err("method".to_string()) };
                if let syn::Type::Reference(r) = &*p.ty {
                    if r.mutability.is_some() {
                        return self.un("mutable argument", p);
                    }
                }
                self.pat(&p.pat, v)?;
            }
            self.block(&c.block)
        })();
        self.scopes = saved;
        r.map(Some)
    }
    fn method(&mut self, c: &syn::ExprMethodCall) -> R<G> {
        let name = c.method.to_string();
        let a: Vec<&Expr> = c.args.iter().collect();
        let recv = self.expr(&c.receiver)?;
        match (name.as_str(), recv.clone(), a.len()) {
            ("clone" | "to_owned" | "as_slice" | "into" | "copied" | "cloned" | "into_owned" | "clone_owned", v, 0) => return Ok(v),
            ("len" | "count", G::L(s, _) | G::It(s, _), 0) => return Ok(G::N(format!("(List.length {s})"))),
            ("nrows", G::M(s), 0) => return Ok(G::N(format!("(Mat.n {s})"))),
            ("ncols", G::M(_), 0) => return Ok(G::N("(2 : ℕ)".into())),
            ("iter" | "into_iter", G::L(s, t) | G::It(s, t), 0) => return Ok(G::It(s, t)),
            ("enumerate", G::It(s, t), 0) => return Ok(G::Enum(s, t)),
            ("step_by", G::It(s, T::N), 1) => {
                // (range lo hi 1) with a step
                let k = self.nat(a[0])?;
                let Some(s) = s.strip_prefix("(range ").and_then(|s| s.strip_suffix(" 1)")) else { return self.un("step_by", c) };
                return Ok(G::It(format!("(range {s} {k})"), T::N));
            }
            ("collect", G::It(s, t), 0) => return Ok(G::L(s, t)),
            ("saturating_sub", G::N(x), 1) => {
                let y = self.nat(a[0])?;
                return Ok(G::N(format!("({x} - {y})")));
            }
            ("map", G::It(s, t), 1) => {
                let (f, r) = self.lambda(a[0], &t)?;
                let rt = ty(&r).ok_or("map to another type")?;
                return Ok(G::It(format!("(List.map ({f}{}) {s})", text(&r)?), rt));
            }
            ("flat_map", G::It(s, t), 1) => {
                let (f, r) = self.lambda(a[0], &t)?;
                let (G::It(r, rt) | G::L(r, rt)) = r else { return self.un("flat_map", c) };
                return Ok(G::It(format!("(List.flatMap ({f}{r}) {s})"), rt));
            }
            ("pixel_to_camera", G::Cam, 1) => {
                let G::M(m) = self.expr(a[0])? else { return self.un("pixels", c) };
                if self.depth > 0 {
                    return self.un("the model is used in a loop", c);
                }
                self.fed.push(format!("{}{m}", self.lines.join("")));
                return Ok(G::O(format!("(P2C {m})")));
            }
            ("point_on_ray", G::O(x), 0) => return Ok(G::O(format!("(POR {x})"))),
            ("camera_to_pixel", G::Cam, 1) => {
                let G::O(m) = self.expr(a[0])? else { return self.un("points", c) };
                return Ok(G::M(format!("(C2P {m})")));
            }
            _ => {}
        }
        self.un("method", c)
    }
    fn let_(&mut self, hint: &str, v: G) -> R<G> {
        // name what is used more than once; natural numbers and scalars stay terms
        Ok(match v {
            G::L(s, t) => {
                let n = self.fresh(hint);
                if t == T::Unknown {
                    G::L(s, t)
                } else {
                    self.lines.push(format!("let {n} : List {} := {s}; ", lean_t(&t)));
                    G::L(n, t)
                }
            }
            G::M(s) => {
                let n = self.fresh(hint);
                self.lines.push(format!("let {n} : Mat α := {s}; "));
                G::M(n)
            }
            v => v,
        })
    }
    fn block(&mut self, b: &syn::Block) -> R<G> {
        self.scopes.push(HashMap::new());
        let r = self.stmts(&b.stmts);
        self.scopes.pop();
        r
    }
    fn stmts(&mut self, ss: &[Stmt]) -> R<G> {
        let mut out = G::Unit;
        let mut i = 0;
        while i < ss.len() {
            out = G::Unit;
            // let mut x = lo; while x < hi { ..; x += step; }
            if let (Stmt::Local(l), Some(Stmt::Expr(Expr::While(w), _))) = (&ss[i], ss.get(i + 1)) {
                if let Some((name, body, hi, step)) = counter(l, w) {
                    let lo = self.nat(&l.init.as_ref().unwrap().expr)?;
                    if ss[i + 2..].iter().any(|s| uses(&s.to_token_stream(), &name)) {
                        return self.un("the counter is used after its loop", w);
                    }
                    let (hi, step) = (self.nat(&hi)?, self.nat(&step)?);
                    self.for_loop(
                        &syn::parse_str::<Wrapped>(&name).unwrap().0,
                        G::It(format!("(range {lo} {hi} {step})"), T::N),
                        &body,
                    )?;
                    i += 2;
                    continue;
                }
            }
            match &ss[i] {
                Stmt::Local(l) => {
                    let Some(init) = &l.init else { return self.un("let", l) };
                    if init.diverge.is_some() {
                        return self.un("let", l);
                    }
                    let v = self.expr(&init.expr)?;
                    let v = self.let_("v", v)?;
                    self.pat(&l.pat, v)?;
                }
                Stmt::Item(syn::Item::Use(_)) => {}
                Stmt::Item(x) => return self.un("item", x),
                Stmt::Macro(m) => self.macro_(&m.mac)?,
                Stmt::Expr(e, semi) => {
                    if self.effect(e)? {
                    } else if i + 1 == ss.len() && semi.is_none() {
                        out = self.expr(e)?
                    } else {
                        return self.un("statement", e);
                    }
                }
            }
            i += 1;
        }
        Ok(out)
    }
    fn root(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Paren(p) => self.root(&p.expr),
            Expr::Reference(p) => self.root(&p.expr),
            Expr::Unary(p) => self.root(&p.expr),
            Expr::Field(f) if f.member.to_token_stream().to_string() == "data" => self.root(&f.base),
            _ => None,
        }
    }
    fn update(&mut self, n: &str, v: G) -> R<()> {
        let Some(x) = self.get(n) else { return Err(format!("{n} is not known")) };
        if !x.mutable {
            return Err(format!("{n} is changed through a reference"));
        }
        let v = self.let_("v", v)?;
        if x.depth < self.depth && !self.written.contains(&n.to_string()) {
            self.written.push(n.into())
        }
        self.set(n, v)
    }
    fn effect(&mut self, e: &Expr) -> R<bool> {
        match e {
            Expr::Macro(m) => {
                self.macro_(&m.mac)?;
                Ok(true)
            }
            Expr::MethodCall(c) if c.method == "push" && c.args.len() == 1 => {
                let Some(n) = self.root(&c.receiver) else { return self.un("push", e) };
                let Some(Var { v: G::L(s, t), .. }) = self.get(&n) else { return self.un("push", e) };
                let x = self.expr(&c.args[0])?;
                let xt = ty(&x).ok_or("push of another type")?;
                if t != T::Unknown && t != xt {
                    return self.un("push of another type", e);
                }
                self.update(&n, G::L(format!("({s} ++ [{}])", text(&x)?), xt))?;
                Ok(true)
            }
            Expr::MethodCall(c) if c.method == "extend" && c.args.len() == 1 => {
                let Some(n) = self.root(&c.receiver) else { return self.un("extend", e) };
                let Some(Var { v: G::L(s, t), .. }) = self.get(&n) else { return self.un("extend", e) };
                let (x, xt) = self.iter_of(&c.args[0])?;
                if t != T::Unknown && t != xt {
                    return self.un("extend of another type", e);
                }
                self.update(&n, G::L(format!("({s} ++ {x})"), xt))?;
                Ok(true)
            }
            Expr::Assign(a) => {
                let Expr::Index(i) = &*a.left else { return self.un("assignment", e) };
                let Some(n) = self.root(&i.expr) else { return self.un("assignment", e) };
                let Some(Var { v: G::M(m), .. }) = self.get(&n) else { return self.un("assignment", e) };
                let G::A(x) = self.expr(&a.right)? else { return self.un("assignment", e) };
                let G::Tup(k) = self.expr(&i.index)? else { return self.un("assignment", e) };
                if k.len() != 2 {
                    return self.un("assignment", e);
                }
                let (r, c) = (text(&k[0])?, text(&k[1])?);
                let c = match lit(&c) {
                    Some(k) if k < 2 => k,
                    _ => return self.un("column", e),
                };
                self.update(&n, G::M(format!("(Mat.set {m} {r} {c} {x})")))?;
                Ok(true)
            }
            Expr::ForLoop(f) if f.label.is_none() => {
                // columns: a range between literals is unrolled
                if let Expr::Range(r) = strip(&f.expr) {
                    if let (Some(x), Some(y)) = (r.start.as_deref(), r.end.as_deref()) {
                        let (x, y) = (self.nat(x)?, self.nat(y)?);
                        if let (Some(a), Some(b)) = (lit(&x), lit(&y)) {
                            let b = if matches!(r.limits, syn::RangeLimits::Closed(_)) { b + 1 } else { b };
                            if b < a || b - a > 4 {
                                return self.un("range", e);
                            }
                            for j in a..b {
                                self.scopes.push(HashMap::new());
                                let r = self.pat(&f.pat, G::N(format!("({j} : ℕ)"))).and_then(|_| self.block(&f.body));
                                self.scopes.pop();
                                r?;
                            }
                            return Ok(true);
                        }
                    }
                }
                let it = self.expr(&f.expr)?;
                self.for_loop(&f.pat, it, &f.body)?;
                Ok(true)
            }
            Expr::Call(_) => {
                let before = (self.scopes.clone(), self.n, self.lines.len(), self.fed.len(), self.under.len(), self.asserts.len());
                match self.expr(e)? {
                    G::Unit => Ok(true),
                    _ => {
                        // the value of the block: evaluated again by the caller
                        self.scopes = before.0;
                        self.n = before.1;
                        self.lines.truncate(before.2);
                        self.fed.truncate(before.3);
                        self.under.truncate(before.4);
                        self.asserts.truncate(before.5);
                        Ok(false)
                    }
                }
            }
            Expr::Block(b) if b.label.is_none() && self.depth > 0 && matches!(b.block.stmts.last(), Some(Stmt::Expr(_, Some(_))) | None) => {
                self.block(&b.block)?;
                Ok(true)
            }
            _ => Ok(false),
        }
    }
    fn for_loop(&mut self, p: &Pat, it: G, body: &syn::Block) -> R<()> {
        let x = self.fresh("x");
        let (list, bound, elem) = match it {
            G::It(s, t) | G::L(s, t) => (s, of(x.clone(), &t)?, t),
            G::Enum(s, t) => {
                let at = of(format!("({s}[{x}]!)"), &t)?;
                (format!("(List.range (List.length {s}))"), G::Tup(vec![G::N(x.clone()), at]), T::N)
            }
            _ => return Err("loop over something else".into()),
        };
        // run the body once to learn what it changes, then with those named
        let snapshot = (self.scopes.clone(), self.n, self.fed.len(), self.under.len());
        let saved_lines = std::mem::take(&mut self.lines);
        let saved_written = std::mem::take(&mut self.written);
        self.depth += 1;
        self.vars.push((x.clone(), elem.clone()));
        let run = |me: &mut Self| -> R<()> {
            me.scopes.push(HashMap::new());
            let r = me.pat(p, bound.clone()).and_then(|_| me.block(body).map(|_| ()));
            me.scopes.pop();
            r
        };
        let first = run(self);
        let changed = self.written.clone();
        let types: Vec<Option<G>> = changed.iter().map(|n| self.get(n).map(|v| v.v)).collect();
        self.scopes = snapshot.0;
        self.under.truncate(snapshot.3);
        self.lines.clear();
        first?;
        if changed.len() > 1 {
            return Err("a loop that changes several variables".into());
        }
        let asserts = self.asserts.len();
        let Some(n) = changed.first().cloned() else {
            // only assertions
            let r = run(self);
            self.depth -= 1;
            self.vars.pop();
            let inner = std::mem::replace(&mut self.lines, saved_lines);
            self.written = saved_written;
            r?;
            let _ = asserts;
            if !inner.iter().any(|l| l.ends_with(" ∧ ")) {
                return Ok(());
            }
            self.lines.push(format!("(∀ {x} ∈ {list}, {}True) ∧ ", inner.join("")));
            return Ok(());
        };
        let a = self.fresh("acc");
        let (entry, start, t) = match (self.get(&n).unwrap().v, types[0].clone().unwrap()) {
            (G::L(s, _), G::L(_, t)) => (G::L(a.clone(), t.clone()), s, format!("List {}", lean_t(&t))),
            (G::M(s), G::M(_)) => (G::M(a.clone()), s, "Mat α".to_string()),
            _ => return Err("a loop that changes another type".into()),
        };
        self.set(&n, entry)?;
        let r = run(self);
        self.depth -= 1;
        self.vars.pop();
        let inner = std::mem::replace(&mut self.lines, saved_lines);
        self.written = saved_written;
        r?;
        if inner.iter().any(|l| l.ends_with(" ∧ ")) {
            return Err("assertions in a loop that changes a variable".into());
        }
        let end = text(&self.get(&n).unwrap().v)?;
        let value = format!("(List.foldl (fun ({a} : {t}) ({x} : {}) => {}{end}) {start} {list})", lean_t(&elem), inner.join(""));
        let v = match self.get(&n).unwrap().v {
            G::L(_, t) => G::L(value, t),
            _ => G::M(value),
        };
        // the loop variables of this loop are gone; the update counts outside
        self.update(&n, v)
    }
    fn macro_(&mut self, m: &syn::Macro) -> R<()> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name == "assert_abs_diff_eq" {
            let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
            let a: Vec<Expr> = m.parse_body_with(parser).map_err(|e| e.to_string())?.into_iter().collect();
            if a.len() != 3 {
                return self.un("assertion", m);
            }
            let Expr::Assign(eps) = &a[2] else { return self.un("assertion", m) };
            if eps.left.to_token_stream().to_string() != "epsilon" {
                return self.un("assertion", m);
            }
            let (x, y, e) = (self.expr(&a[0])?, self.expr(&a[1])?, self.expr(&eps.right)?);
            let p = match (x, y, e) {
                (G::M(x), G::M(y), G::A(e)) => format!("Mat.close close {x} {y} {e}"),
                (G::A(x), G::A(y), G::A(e)) => format!("close {x} {y} {e}"),
                _ => return self.un("assertion", m),
            };
            self.asserts.push(self.depth);
            self.lines.push(format!("({p}) ∧ "));
            return Ok(());
        }
        if name == "assert" || name == "assert_eq" || name == "debug_assert_eq" || name == "debug_assert" {
            // the shape of the result
            let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
            let a: Vec<Expr> = m.parse_body_with(parser).map_err(|e| e.to_string())?.into_iter().collect();
            if a.len() >= 2 && name == "assert_eq" {
                let (x, y) = (self.nat(&a[0])?, self.nat(&a[1])?);
                self.asserts.push(self.depth);
                self.lines.push(format!("({x} = {y}) ∧ "));
                return Ok(());
            }
        }
        self.un("macro", m)
    }
}

struct Wrapped(Pat);
impl syn::parse::Parse for Wrapped {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        Ok(Wrapped(Pat::parse_single(i)?))
    }
}

fn lit(s: &str) -> Option<usize> {
    s.strip_prefix('(')?.strip_suffix(" : ℕ)")?.parse().ok()
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        e => e,
    }
}

fn range(a: &str, b: &str) -> String {
    if a == "(0 : ℕ)" {
        // over the positions of a list or matrix
        return format!("(List.range {b})");
    }
    format!("(range {a} {b} 1)")
}

fn uses(t: &proc_macro2::TokenStream, n: &str) -> bool {
    t.clone().into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == n,
        proc_macro2::TokenTree::Group(g) => uses(&g.stream(), n),
        _ => false,
    })
}

/// `let mut x = lo;` with `while x < hi { body; x += step; }`
fn counter(l: &syn::Local, w: &syn::ExprWhile) -> Option<(String, syn::Block, Expr, Expr)> {
    let Pat::Ident(p) = (match &l.pat {
        Pat::Type(t) => &*t.pat,
        p => p,
    }) else {
        return None;
    };
    l.init.as_ref()?;
    let n = p.ident.to_string();
    let Expr::Binary(c) = &*w.cond else { return None };
    let (hi, ok) = match &c.op {
        syn::BinOp::Lt(_) => (&c.right, c.left.to_token_stream().to_string() == n),
        syn::BinOp::Gt(_) => (&c.left, c.right.to_token_stream().to_string() == n),
        _ => return None,
    };
    if !ok || w.label.is_some() {
        return None;
    }
    let mut body = w.body.clone();
    let Some(Stmt::Expr(last, Some(_))) = body.stmts.pop() else { return None };
    let step = match &last {
        Expr::Binary(b) if matches!(b.op, syn::BinOp::AddAssign(_)) && b.left.to_token_stream().to_string() == n => (*b.right).clone(),
        Expr::Assign(a) if a.left.to_token_stream().to_string() == n => match &*a.right {
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Add(_)) && b.left.to_token_stream().to_string() == n => (*b.right).clone(),
            _ => return None,
        },
        _ => return None,
    };
    let t = body.to_token_stream().to_string();
    let assigned = |op: &str| t.contains(&format!("{n} {op} ")) && !t.contains(&format!("{n} == "));
    if assigned("=") || assigned("+=") || assigned("-=") || assigned("*=") || t.contains("continue") || t.contains("break") || t.contains(&format!("& mut {n}")) {
        return None;
    }
    Some((n, body, (**hi).clone(), step))
}

/// The Lean definitions of `roundtrip_intrinsics`.
pub fn translate(all: &[Cand]) -> R<(String, String, String, String, usize)> {
    let c: Vec<&Cand> = all.iter().filter(|c| c.owner.is_empty() && c.sig.ident == "roundtrip_intrinsics").collect();
    let [c] = c[..] else { return Err("roundtrip_intrinsics is not found".into()) };
    if c.sig.inputs.len() != 6 {
        return Err("parameters".into());
    }
    let mut t = Tr {
        all,
        file: &c.file,
        scopes: vec![HashMap::new()],
        depth: 0,
        n: 0,
        calls: 0,
        lines: vec![],
        written: vec![],
        fed: vec![],
        under: vec![],
        asserts: vec![],
        vars: vec![],
    };
    let vals = [G::Cam, G::N("w".into()), G::N("h".into()), G::N("s".into()), G::N("b".into()), G::A("eps".into())];
    for (p, v) in c.sig.inputs.iter().zip(vals) {
        let syn::FnArg::Typed(p) = p else { return Err("method".into()) };
        t.pat(&p.pat, v)?;
    }
    t.stmts(&c.block.stmts)?;
    if t.fed.len() != 1 {
        return Err(format!("the model unprojects {} times", t.fed.len()));
    }
    if t.asserts.is_empty() {
        t.lines.push(String::new());
    }
    let under = if t.under.is_empty() { "True".to_string() } else { t.under.join(" ∧ ") };
    Ok((t.fed.pop().unwrap(), format!("{}True", t.lines.join("")), under, c.file.clone(), c.line))
}
