//! From Rust syntax to the extracted program (`ir`). What the extraction drops
//! or abstracts:
//!  - scalar expressions (numbers, small vectors, poses, model parameters) keep
//!    their structure but every operation on them is an uninterpreted pure
//!    function named after the operation and its type arguments;
//!  - `clone`, references, dereferences and ownership are identities;
//!  - `let a = &x.data` / `&mut x.data` are replaced by what they name;
//!  - loops with a literal range of at most 16 steps are unrolled;
//!  - type annotations, attributes and comments are dropped.
//! Everything else must fit the subset, or the function is reported
//! `unsupported` and nothing is claimed for it.
use crate::ir::*;
use crate::Cand;
use quote::ToTokens;
use std::collections::HashMap;
use syn::{BinOp, Expr, FnArg, Lit, Pat, Stmt, Type, UnOp};

type R<T> = Result<T, String>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TK {
    S(K),
    Mat(usize),
    Bun(usize),
    /// a slice of rays: rows of two values, centre and direction
    Rays,
    Unit,
}

#[derive(Clone)]
enum B {
    Var(String, K, bool),
    Mat(String),
    /// batch: matrix name, bundle type
    Bun(String, Option<E>),
    /// one row of a matrix
    Row(String, E),
    Const(i128),
    /// one element of a matrix (row, column)
    Elem(String, E, E),
    Col(String, E),
    Iter(It),
    /// a closure bound to a name: its body is read where it is called
    Fun(std::rc::Rc<Fun>),
    /// a tuple of the above
    Tup(Vec<B>),
}

struct Fun {
    pats: Vec<Pat>,
    body: Expr,
    scopes: Vec<HashMap<String, B>>,
}

pub struct Shape {
    ret: TK,
    /// all rows to one value
    pub reduce: bool,
}

fn bun_cols(n: &str) -> Option<usize> {
    match n {
        "Pixels" => Some(2),
        "Points" | "RayBundle" => Some(3),
        _ => None,
    }
}

fn dim_cols(t: &syn::GenericArgument) -> Option<usize> {
    match t.to_token_stream().to_string().as_str() {
        "U2" | "2" => Some(2),
        "U3" | "3" => Some(3),
        _ => None,
    }
}

fn type_kind(t: &Type, c: &Cand) -> TK {
    match t {
        Type::Reference(r) => type_kind(&r.elem, c),
        Type::Paren(p) => type_kind(&p.elem, c),
        Type::Tuple(t) if t.elems.is_empty() => TK::Unit,
        Type::Slice(s) => match &*s.elem {
            Type::Path(p) if p.path.segments.last().unwrap().ident == "Ray" => TK::Rays,
            _ => TK::S(K::Val),
        },
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let n = s.ident.to_string();
            if n == "Self" && bun_cols(&c.owner).is_some() {
                return TK::Bun(bun_cols(&c.owner).unwrap());
            }
            if let Some(k) = bun_cols(&n) {
                return TK::Bun(k);
            }
            match n.as_str() {
                "usize" => TK::S(K::Int),
                "bool" => TK::S(K::Bool),
                "Matrix" | "OMatrix" => {
                    let syn::PathArguments::AngleBracketed(a) = &s.arguments else { return TK::S(K::Val) };
                    let a: Vec<_> = a.args.iter().collect();
                    if a.len() < 3 {
                        return TK::S(K::Val);
                    }
                    let rows = a[1].to_token_stream().to_string();
                    match (c.generics.contains(&rows) || rows == "Dyn", dim_cols(a[2])) {
                        (true, Some(k)) => TK::Mat(k),
                        _ => TK::S(K::Val),
                    }
                }
                _ => TK::S(K::Val),
            }
        }
        _ => TK::S(K::Val),
    }
}

/// Does the function map a batch to a batch?
pub fn shape(c: &Cand) -> Option<Shape> {
    let ret = match &c.sig.output {
        syn::ReturnType::Default => return None,
        syn::ReturnType::Type(_, t) => type_kind(t, c),
    };
    let rays = c.sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if type_kind(&t.ty, c) == TK::Rays));
    if rays && matches!(ret, TK::S(K::Val)) {
        return Some(Shape { ret, reduce: true });
    }
    if !matches!(ret, TK::Mat(_) | TK::Bun(_)) {
        return None;
    }
    let takes = c.sig.inputs.iter().any(|a| match a {
        FnArg::Receiver(_) => bun_cols(&c.owner).is_some(),
        FnArg::Typed(t) => matches!(type_kind(&t.ty, c), TK::Mat(_) | TK::Bun(_)),
    });
    takes.then_some(Shape { ret, reduce: false })
}

/// the digits of a number as part of an identifier
fn literal(s: &str) -> String {
    s.replace('.', "p").replace('-', "m").replace('+', "")
}

pub fn clean(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_alphanumeric() {
            o.push(c)
        } else if c != ' ' && !o.ends_with('_') {
            o.push('_')
        }
    }
    o.trim_matches('_').to_string()
}

struct Lw<'a> {
    c: &'a Cand,
    scopes: Vec<HashMap<String, B>>,
    /// variables in scope of the extracted program, in order
    live: Vec<(String, Option<K>)>,
    n: usize,
    loops: usize,
    mat_in: String,
    cols_in: usize,
    self_bun: Option<(String, String)>,
    all: &'a [Cand],
    depth: usize,
    in_loop: bool,
    /// column counts known from the construction
    cols: HashMap<String, i128>,
    /// matrices that are a row vector in the code (1 x n) and a column here
    rowvec: Vec<String>,
    rays: Option<String>,
    reduce: bool,
    tries: Vec<String>,
    macros: &'a [(String, proc_macro2::TokenStream)],
    closures: Vec<Closure>,
}

enum V {
    E(E),
    Mat(String),
    NewMat(M),
    Bun(String, Option<E>),
    Row(String, E),
    Col(String, E),
    Iter(It),
    Elem(String, E, E),
    Tup(Vec<V>),
    Unit,
}

/// an iterator: what it yields in step i, and how many steps
#[derive(Clone)]
pub struct It {
    item: Item,
    n: Option<E>,
}
/// what a loop binds in each step
#[derive(Clone)]
enum Item {
    Index,
    Row(String),
    Elem(String, E),
    Tup(Vec<Item>),
    Map(Box<Item>, std::rc::Rc<Clo>),
}
/// a closure and the names it sees
struct Clo {
    pat: Pat,
    body: Expr,
    scopes: Vec<HashMap<String, B>>,
}

const PURE_ON_MUT: &[&str] = &[
    "add", "sub", "mul", "div", "neg", "sqrt", "abs", "powi", "transpose", "norm", "dot", "cross", "to_homogeneous",
    "inverse", "transform_point", "transform_vector", "recip", "matrix", "is_finite", "normalize", "coords",
];

const BATCH_OPS: &[&str] = &[
    "pixel_to_camera", "camera_to_pixel", "pixel_to_world", "world_to_pixel", "camera_to_world", "world_to_camera",
    "ray_camera_to_world", "to_pose", "point_on_ray", "point_on_ray_at_distance", "directions", "centers",
];

fn contains_return(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

fn idents(t: proc_macro2::TokenStream, out: &mut Vec<String>) {
    for t in t {
        match t {
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
            _ => {}
        }
    }
}
fn mentions(t: proc_macro2::TokenStream, n: &str) -> bool {
    let mut v = vec![];
    idents(t, &mut v);
    v.iter().any(|x| x == n)
}
struct Writes<'a> {
    name: &'a str,
    bad: &'a mut bool,
}
impl<'a, 'b> syn::visit::Visit<'b> for Writes<'a> {
    fn visit_expr_assign(&mut self, a: &'b syn::ExprAssign) {
        if a.left.to_token_stream().to_string() == self.name {
            *self.bad = true
        }
        syn::visit::visit_expr_assign(self, a)
    }
    fn visit_expr_binary(&mut self, b: &'b syn::ExprBinary) {
        if b.op.to_token_stream().to_string().len() > 1 && b.left.to_token_stream().to_string() == self.name {
            *self.bad |= !matches!(b.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::Eq(_) | BinOp::Ne(_));
        }
        syn::visit::visit_expr_binary(self, b)
    }
    fn visit_expr_reference(&mut self, r: &'b syn::ExprReference) {
        if r.mutability.is_some() && r.expr.to_token_stream().to_string() == self.name {
            *self.bad = true
        }
        syn::visit::visit_expr_reference(self, r)
    }
    fn visit_expr_continue(&mut self, _: &'b syn::ExprContinue) {
        *self.bad = true
    }
    fn visit_expr_break(&mut self, _: &'b syn::ExprBreak) {
        *self.bad = true
    }
    fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) {
        if p.ident == self.name {
            *self.bad = true
        }
    }
}

fn bt_name(mat: &str) -> String {
    format!("{}_bt", mat.strip_suffix("_data").unwrap_or(mat))
}

fn value(b: B) -> V {
    match b {
        B::Var(n, k, _) => V::E(E::Var(n, k)),
        B::Mat(n) => V::Mat(n),
        B::Bun(n, b) => V::Bun(n, b),
        B::Row(m, i) => V::Row(m, i),
        B::Const(c) => V::E(E::Int(c)),
        B::Elem(m, i, c) => V::Elem(m, i, c),
        B::Col(m, c) => V::Col(m, c),
        B::Iter(i) => V::Iter(i),
        // only ever called
        B::Fun(_) => V::Unit,
        B::Tup(v) => V::Tup(v.into_iter().map(value).collect()),
    }
}

impl<'a> Lw<'a> {
    fn fresh(&mut self, s: &str) -> String {
        self.n += 1;
        format!("{}_{}", s.trim_start_matches("r#"), self.n)
    }
    fn get(&self, s: &str) -> Option<B> {
        self.scopes.iter().rev().find_map(|m| m.get(s)).cloned()
    }
    fn bind(&mut self, s: &str, b: B) {
        self.scopes.last_mut().unwrap().insert(s.to_string(), b);
    }
    fn un<T>(&self, what: &str, t: &dyn ToTokens) -> R<T> {
        let mut s = t.to_token_stream().to_string();
        s.truncate(80);
        Err(format!("{what}: {s}"))
    }

    fn scalar(&mut self, e: &Expr, out: &mut Vec<S>) -> R<E> {
        match self.expr(e, out)? {
            V::E(x) => Ok(x),
            V::Row(m, i) => Ok(E::RowVal(m, Box::new(i))),
            V::Elem(m, i, c) => Ok(E::At(m, Box::new(i), Box::new(c))),
            _ => self.un("a scalar was expected", e),
        }
    }
    fn of(&mut self, e: &Expr, k: K, out: &mut Vec<S>) -> R<E> {
        let x = self.scalar(e, out)?;
        if x.kind() != k {
            return self.un(&format!("{k:?} was expected"), e);
        }
        Ok(x)
    }
    fn mat_of(&mut self, v: V, what: &Expr) -> R<M> {
        match v {
            V::Mat(n) => Ok(M::Copy(n)),
            V::NewMat(m) => Ok(m),
            _ => self.un("a matrix was expected", what),
        }
    }
    /// give a matrix value a name
    fn named(&mut self, v: V, hint: &str, what: &Expr, out: &mut Vec<S>) -> R<String> {
        match v {
            V::Mat(n) => Ok(n),
            V::NewMat(m) => {
                let n = self.fresh(hint) + "_data";
                let k = match &m {
                    M::Zeros(_, E::Int(k)) | M::Fill(_, E::Int(k), _) => Some(*k),
                    M::ZerosT(_) => Some(1),
                    M::Copy(s) => self.cols.get(s).copied(),
                    _ => None,
                };
                if let Some(k) = k {
                    self.cols.insert(n.clone(), k);
                }
                if matches!(&m, M::ZerosT(_)) || matches!(&m, M::Copy(s) if self.rowvec.contains(s)) {
                    self.rowvec.push(n.clone());
                }
                out.push(S::LetMat(n.clone(), m));
                self.live.push((n.clone(), None));
                Ok(n)
            }
            _ => self.un("a matrix was expected", what),
        }
    }

    fn expr(&mut self, e: &Expr, out: &mut Vec<S>) -> R<V> {
        match e {
            Expr::Paren(p) => self.expr(&p.expr, out),
            Expr::Group(p) => self.expr(&p.expr, out),
            Expr::Reference(r) => self.expr(&r.expr, out),
            Expr::Macro(m) => {
                let e = self.expand(&m.mac)?;
                self.expr(&e, out)
            }
            Expr::Range(_) => Ok(V::Iter(self.iter(e, out)?)),
            Expr::Try(t) => {
                if !self.reduce {
                    return self.un("`?`", e);
                }
                let x = self.of(&t.expr, K::Val, out)?;
                let n = self.fresh("res");
                out.push(S::Let(n.clone(), x));
                self.live.push((n.clone(), Some(K::Val)));
                self.tries.push(n.clone());
                Ok(V::E(E::Op("try".into(), vec![E::Var(n, K::Val)], K::Val)))
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => self.expr(&u.expr, out),
                UnOp::Neg(_) => {
                    let x = self.of(&u.expr, K::Val, out)?;
                    Ok(V::E(E::Op("neg".into(), vec![x], K::Val)))
                }
                UnOp::Not(_) => {
                    let x = self.of(&u.expr, K::Bool, out)?;
                    Ok(V::E(E::Not(Box::new(x))))
                }
                _ => self.un("operator", e),
            },
            Expr::Lit(l) => Ok(V::E(match &l.lit {
                Lit::Int(i) if i.suffix().is_empty() || i.suffix() == "usize" => {
                    E::Int(i.base10_parse::<i128>().map_err(|e| e.to_string())?)
                }
                Lit::Bool(b) => E::Bool(b.value),
                Lit::Float(f) => E::Op(format!("lit_{}", literal(f.base10_digits())), vec![], K::Val),
                Lit::Int(i) => E::Op(format!("lit_{}{}", literal(i.base10_digits()), i.suffix()), vec![], K::Val),
                l => E::Op(format!("lit_{}", clean(&l.to_token_stream().to_string())), vec![], K::Val),
            })),
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let s = i.to_string();
                    if s == "self" {
                        if let Some((d, b)) = &self.self_bun {
                            return Ok(V::Bun(d.clone(), Some(E::Var(b.clone(), K::Val))));
                        }
                    }
                    if let Some(b) = self.get(&s) {
                        return Ok(value(b));
                    }
                    if let "U1" | "U2" | "U3" | "U4" = s.as_str() {
                        return Ok(V::E(E::Int(s[1..].parse().unwrap())));
                    }
                    if s.chars().next().map_or(false, |c| c.is_lowercase()) {
                        return self.un("unknown variable", e);
                    }
                }
                Ok(V::E(E::Op(format!("path_{}", clean(&p.to_token_stream().to_string())), vec![], K::Val)))
            }
            Expr::Field(f) => {
                let name = f.member.to_token_stream().to_string();
                match self.expr(&f.base, out)? {
                    V::Bun(m, bt) => match name.as_str() {
                        "data" => Ok(V::Mat(m)),
                        "bundle_type" => bt.map(V::E).ok_or_else(|| "no bundle type".into()),
                        "coords" => Ok(V::E(E::Op("frame".into(), vec![], K::Val))),
                        _ => self.un("field of a batch", e),
                    },
                    V::E(x) if x.kind() == K::Val => Ok(V::E(E::Op(format!("fld_{name}"), vec![x], K::Val))),
                    V::Elem(m, i, c) => Ok(V::E(E::Op(format!("fld_{name}"), vec![E::At(m, Box::new(i), Box::new(c))], K::Val))),
                    V::Row(m, i) if self.rays.as_ref() == Some(&m) && (name == "center" || name == "direction") => {
                        Ok(V::E(E::At(m, Box::new(i), Box::new(E::Int((name == "direction") as i128)))))
                    }
                    V::Tup(v) => match name.parse::<usize>() {
                        Ok(k) if k < v.len() => Ok(v.into_iter().nth(k).unwrap()),
                        _ => self.un("field", e),
                    },
                    _ => self.un("field", e),
                }
            }
            Expr::Index(ix) => {
                let base = self.expr(&ix.expr, out)?;
                let two = match &*ix.index {
                    Expr::Tuple(t) if t.elems.len() == 2 => Some((t.elems[0].clone(), t.elems[1].clone())),
                    _ => None,
                };
                let base = match base {
                    V::Elem(m, i, c) => V::E(E::At(m, Box::new(i), Box::new(c))),
                    b => b,
                };
                match (base, two) {
                    (V::Mat(m), None) if self.rays.as_ref() == Some(&m) => {
                        let i = self.of(&ix.index, K::Int, out)?;
                        Ok(V::Row(m, i))
                    }
                    (V::Mat(m), None) if self.cols.get(&m) == Some(&1) => {
                        let i = self.of(&ix.index, K::Int, out)?;
                        Ok(V::Elem(m, i, E::Int(0)))
                    }
                    (V::Mat(m), Some((r, c))) if self.rowvec.contains(&m) => {
                        let r = self.of(&r, K::Int, out)?;
                        let c = self.of(&c, K::Int, out)?;
                        if !matches!(r, E::Int(0)) {
                            return self.un("index", e);
                        }
                        Ok(V::Elem(m, c, E::Int(0)))
                    }
                    (V::Col(m, c), None) => {
                        let i = self.of(&ix.index, K::Int, out)?;
                        Ok(V::Elem(m, i, c))
                    }
                    (V::Mat(m), Some((r, c))) => {
                        let r = self.of(&r, K::Int, out)?;
                        let c = self.of(&c, K::Int, out)?;
                        Ok(V::E(E::At(m, Box::new(r), Box::new(c))))
                    }
                    (V::Row(m, i), None) => {
                        let c = self.of(&ix.index, K::Int, out)?;
                        Ok(V::E(E::At(m, Box::new(i), Box::new(c))))
                    }
                    (V::Row(m, i), Some((r, c))) => {
                        if !matches!(self.of(&r, K::Int, out)?, E::Int(0)) {
                            return self.un("index", e);
                        }
                        let c = self.of(&c, K::Int, out)?;
                        Ok(V::E(E::At(m, Box::new(i), Box::new(c))))
                    }
                    (V::E(x), Some((r, c))) if x.kind() == K::Val => {
                        let r = self.of(&r, K::Int, out)?;
                        let c = self.of(&c, K::Int, out)?;
                        Ok(V::E(E::Op("idx2".into(), vec![x, r, c], K::Val)))
                    }
                    (V::E(x), None) if x.kind() == K::Val => {
                        let i = self.of(&ix.index, K::Int, out)?;
                        Ok(V::E(E::Op("idx".into(), vec![x, i], K::Val)))
                    }
                    _ => self.un("index", e),
                }
            }
            Expr::Binary(b) => self.binary(b, out),
            Expr::Cast(c) => {
                let x = self.scalar(&c.expr, out)?;
                Ok(V::E(E::Op(format!("as_{}", clean(&c.ty.to_token_stream().to_string())), vec![x], K::Val)))
            }
            Expr::Array(a) => {
                let xs = a.elems.iter().map(|x| self.scalar(x, out)).collect::<R<Vec<_>>>()?;
                Ok(V::E(E::Op(format!("array{}", xs.len()), xs, K::Val)))
            }
            Expr::Tuple(a) if a.elems.is_empty() => Ok(V::Unit),
            Expr::Tuple(a) => {
                let xs = a.elems.iter().map(|x| self.scalar(x, out)).collect::<R<Vec<_>>>()?;
                Ok(V::E(E::Op(format!("tuple{}", xs.len()), xs, K::Val)))
            }
            Expr::Struct(s) => {
                let mut n = s.path.segments.last().unwrap().ident.to_string();
                if n == "Self" {
                    n = self.c.owner.clone();
                }
                if s.rest.is_some() {
                    return self.un("struct update", e);
                }
                if bun_cols(&n).is_some() {
                    let (mut m, mut bt) = (None, None);
                    for f in &s.fields {
                        let v = self.expr(&f.expr, out)?;
                        match f.member.to_token_stream().to_string().as_str() {
                            "data" => match v {
                                V::E(x) if x.kind() == K::Val && n == "Points" => {
                                    return Ok(V::E(E::Op("fn_Points_new_1".into(), vec![x], K::Val)));
                                }
                                v => m = Some(self.named(v, "lit", &f.expr, out)?),
                            },
                            "bundle_type" => {
                                bt = match v {
                                    V::E(x) => Some(x),
                                    _ => return self.un("bundle type", e),
                                }
                            }
                            "coords" => {}
                            _ => return self.un("field", e),
                        }
                    }
                    let m = m.ok_or("no data field")?;
                    return Ok(V::Bun(m, bt));
                }
                let mut name = format!("struct_{n}");
                let mut xs = vec![];
                let mut fs: Vec<_> = s.fields.iter().map(|f| (f.member.to_token_stream().to_string(), f.expr.clone())).collect();
                fs.sort_by(|a, b| a.0.cmp(&b.0));
                for (m, x) in fs {
                    name += &format!("_{m}");
                    xs.push(self.scalar(&x, out)?);
                }
                Ok(V::E(E::Op(name, xs, K::Val)))
            }
            Expr::Block(b) if b.label.is_none() => {
                self.scopes.push(HashMap::new());
                let r = self.value_block(&b.block, out);
                self.scopes.pop();
                r
            }
            Expr::If(i) => {
                let Some((_, els)) = &i.else_branch else { return self.un("if without else as a value", e) };
                let c = self.cond(&i.cond, out)?;
                let (live, tries) = (self.live.len(), self.tries.len());
                let mut a = vec![];
                self.scopes.push(HashMap::new());
                let x = self.value_block(&i.then_branch, &mut a)?;
                self.scopes.pop();
                self.live.truncate(live);
                let mut b = vec![];
                let y = self.expr(els, &mut b)?;
                if self.tries.len() != tries {
                    return self.un("`?` in a branch", e);
                }
                self.live.truncate(live);
                match (x, y) {
                    (V::E(x), V::E(y)) if x.kind() == y.kind() => {
                        let mut ms = vec![];
                        modified(&a, &mut ms);
                        modified(&b, &mut ms);
                        if !ms.is_empty() {
                            return self.un("assignment inside an if used as a value", e);
                        }
                        Ok(V::E(E::If(Box::new(c), a, Box::new(x), b, Box::new(y))))
                    }
                    _ => self.un("if as a value", e),
                }
            }
            Expr::Call(c) => self.call(c, out),
            Expr::MethodCall(c) => self.method(c, out),
            _ => self.un("expression", e),
        }
    }

    fn cond(&mut self, e: &Expr, out: &mut Vec<S>) -> R<E> {
        if let Expr::Let(_) = e {
            return self.un("if let", e);
        }
        self.of(e, K::Bool, out)
    }

    fn binary(&mut self, b: &syn::ExprBinary, out: &mut Vec<S>) -> R<V> {
        let x = self.scalar(&b.left, out)?;
        let y = self.scalar(&b.right, out)?;
        let sym = b.op.to_token_stream().to_string();
        let (kx, ky) = (x.kind(), y.kind());
        let e = match b.op {
            BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) => {
                if kx == K::Int && ky == K::Int {
                    E::IntBin(sym, Box::new(x), Box::new(y))
                } else if kx == K::Val && ky == K::Val {
                    let n = match b.op {
                        BinOp::Add(_) => "add",
                        BinOp::Sub(_) => "sub",
                        BinOp::Mul(_) => "mul",
                        BinOp::Div(_) => "div",
                        _ => "rem",
                    };
                    E::Op(n.into(), vec![x, y], K::Val)
                } else {
                    return self.un("operator", b);
                }
            }
            BinOp::And(_) if kx == K::Bool && ky == K::Bool => E::And(Box::new(x), Box::new(y)),
            BinOp::Or(_) if kx == K::Bool && ky == K::Bool => E::Or(Box::new(x), Box::new(y)),
            BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::Eq(_) | BinOp::Ne(_) => {
                if kx == K::Int && ky == K::Int {
                    E::Cmp(sym, Box::new(x), Box::new(y))
                } else if kx == K::Val && ky == K::Val {
                    let n = match b.op {
                        BinOp::Lt(_) => "lt",
                        BinOp::Le(_) => "le",
                        BinOp::Gt(_) => "gt",
                        BinOp::Ge(_) => "ge",
                        BinOp::Eq(_) => "eq",
                        _ => "ne",
                    };
                    E::Op(n.into(), vec![x, y], K::Bool)
                } else {
                    return self.un("comparison", b);
                }
            }
            _ => return self.un("operator", b),
        };
        Ok(V::E(e))
    }

    fn call(&mut self, c: &syn::ExprCall, out: &mut Vec<S>) -> R<V> {
        let Expr::Path(p) = &*c.func else { return self.un("call", c) };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().unwrap().clone();
        let mut own = if segs.len() >= 2 { segs[segs.len() - 2].clone() } else { String::new() };
        if own == "Self" {
            own = self.c.owner.clone();
        }
        if let Some(f) = p.path.get_ident() {
            match self.get(&f.to_string()) {
                Some(B::Fun(f)) if f.pats.len() == c.args.len() && self.depth < 6 => {
                    let mut vals = vec![];
                    for a in &c.args {
                        vals.push(self.expr(a, out)?);
                    }
                    let saved = std::mem::replace(&mut self.scopes, f.scopes.clone());
                    self.scopes.push(HashMap::new());
                    self.depth += 1;
                    let r = (|| {
                        for (p, v) in f.pats.iter().zip(vals) {
                            self.bind_value(p, v, out)?;
                        }
                        self.expr(&f.body, out)
                    })();
                    self.depth -= 1;
                    self.scopes = saved;
                    return r;
                }
                Some(_) => return self.un("call of a closure", c),
                None => {}
            }
        }
        if (own.is_empty() || own == self.c.owner) && c.args.iter().any(|a| self.names_batch(a)) && bun_cols(&own).is_none() {
            if let Some(v) = self.inline(&last, None, &c.args.iter().collect::<Vec<_>>(), out)? {
                return Ok(v);
            }
        }
        if self.reduce && (own.is_empty() || own == self.c.owner) && self.depth < 4 && segs.iter().all(|s| s != "na" && s != "nalgebra") {
            let live = self.live.len();
            let (k, t) = (out.len(), self.tries.len());
            match self.inline(&last, None, &c.args.iter().collect::<Vec<_>>(), out) {
                Ok(Some(v)) => return Ok(v),
                _ => {
                    out.truncate(k);
                    self.tries.truncate(t);
                    self.live.truncate(live);
                }
            }
        }
        if (own == "OMatrix" || own == "Matrix") && last == "from_fn_generic" && c.args.len() == 3 {
            return self.from_fn(c, out);
        }
        if segs.len() == 1 && (last == "izip_of" || last == "zip") {
            let its = c.args.iter().map(|a| self.iter(a, out)).collect::<R<Vec<_>>>()?;
            return Ok(V::Iter(zip(its)));
        }
        let mut args = vec![];
        for a in &c.args {
            args.push(self.expr(a, out)?);
        }
        // dimensions
        if (last == "from_usize" || (segs.len() == 1 && last == "Dyn")) && args.len() == 1 {
            return match args.remove(0) {
                V::E(x) if x.kind() == K::Int => Ok(V::E(x)),
                _ => self.un("dimension", c),
            };
        }
        // zero-filled matrices
        if own == "OMatrix" || own == "Matrix" {
            match (last.as_str(), args.len()) {
                ("zeros_generic", 2) => {
                    if let (V::E(a), V::E(b)) = (&args[0], &args[1]) {
                        if a.kind() == K::Int && b.kind() == K::Int {
                            if let (E::Int(x), E::Int(y)) = (a, b) {
                                return Ok(V::E(E::Op(format!("zeros_{x}_{y}"), vec![], K::Val)));
                            }
                            if let E::Int(1) = a {
                                return Ok(V::NewMat(M::ZerosT(b.clone())));
                            }
                            return Ok(V::NewMat(M::Zeros(a.clone(), b.clone())));
                        }
                    }
                }
                ("from_element_generic", 3) => {
                    if let (V::E(a), V::E(b), V::E(v)) = (&args[0], &args[1], &args[2]) {
                        if a.kind() == K::Int && b.kind() == K::Int && v.kind() == K::Val {
                            return Ok(V::NewMat(M::Fill(a.clone(), b.clone(), v.clone())));
                        }
                    }
                }
                ("zeros", 0) => {
                    // the row count is the type-level dimension of the input
                    if let syn::PathArguments::AngleBracketed(g) = &p.path.segments[segs.len() - 2].arguments {
                        let g: Vec<_> = g.args.iter().collect();
                        if g.len() >= 3 && self.c.generics.contains(&g[1].to_token_stream().to_string()) {
                            if let Some(k) = dim_cols(g[2]) {
                                return Ok(V::NewMat(M::Zeros(E::NRows(self.mat_in.clone()), E::Int(k as i128))));
                            }
                        }
                    }
                }
                _ => {}
            }
            return self.un("matrix constructor", c);
        }
        // batches
        if bun_cols(&own).is_some() {
            match (last.as_str(), args.len()) {
                ("new", 1) if own == "Points" && matches!(&args[0], V::E(x) if x.kind() == K::Val) => {
                    let V::E(x) = args.remove(0) else { unreachable!() };
                    return Ok(V::E(E::Op("fn_Points_new_1".into(), vec![x], K::Val)));
                }
                ("new", 1) if own != "RayBundle" => {
                    let a = args.remove(0);
                    let m = self.named(a, "b", &c.args[0], out)?;
                    return Ok(V::Bun(m, None));
                }
                ("new", 2) if own == "RayBundle" => {
                    let d = args.remove(1);
                    let m = self.named(d, "b", &c.args[1], out)?;
                    let V::E(bt) = args.remove(0) else { return self.un("bundle type", c) };
                    return Ok(V::Bun(m, Some(bt)));
                }
                ("new_shared_zero_origin", 1) | ("new_shared_plusz_direction", 1) => {
                    let a = args.remove(0);
                    let m = self.named(a, "b", &c.args[0], out)?;
                    return Ok(V::Bun(m, Some(E::Op(format!("bt_{last}"), vec![], K::Val))));
                }
                _ => return self.un("batch constructor", c),
            }
        }
        // `Trait::method(recv, batch)` style calls
        if args.iter().any(|a| matches!(a, V::Mat(_) | V::NewMat(_) | V::Bun(..))) {
            if args.len() >= 2 && segs.len() >= 2 {
                let recv = args.remove(0);
                return self.batch_call(&last, Some(recv), args, c, out);
            }
            return self.un("function of a batch", c);
        }
        let mut xs = vec![];
        for (a, x) in args.into_iter().zip(&c.args) {
            if let Expr::Reference(r) = x {
                if r.mutability.is_some() {
                    return self.un("mutable argument", c);
                }
            }
            match a {
                V::E(e) => xs.push(e),
                V::Row(m, i) => xs.push(E::RowVal(m, Box::new(i))),
                V::Elem(m, i, c) => xs.push(E::At(m, Box::new(i), Box::new(c))),
                _ => return self.un("argument", c),
            }
        }
        Ok(V::E(E::Op(format!("fn_{}_{}", clean(&p.to_token_stream().to_string()), xs.len()), xs, K::Val)))
    }

    /// `recv.name(batch, scalars…)` or `batch.name(scalars…)`: the callee's
    /// row contract, not its body.
    fn batch_call(&mut self, name: &str, recv: Option<V>, args: Vec<V>, c: &dyn ToTokens, out: &mut Vec<S>) -> R<V> {
        let (cin, cout, bun) = match name {
            "pixel_to_camera" => (2, 3, true),
            "camera_to_pixel" => (3, 2, true),
            "pixel_to_world" => (2, 3, true),
            "world_to_pixel" => (3, 2, true),
            "camera_to_world" | "world_to_camera" | "ray_camera_to_world" | "to_pose" | "point_on_ray"
            | "point_on_ray_at_distance" => (3, 3, true),
            "directions" | "centers" => (3, 3, false),
            _ => return self.un("operation on a batch", &c.to_token_stream()),
        };
        let mut src = None;
        let mut xs = vec![];
        for a in recv.into_iter().chain(args) {
            match a {
                V::E(e) => xs.push(e),
                V::Row(m, i) => xs.push(E::RowVal(m, Box::new(i))),
                V::Elem(m, i, c) => xs.push(E::At(m, Box::new(i), Box::new(c))),
                V::Mat(m) if src.is_none() => src = Some(m),
                V::Bun(m, bt) if src.is_none() => {
                    src = Some(m);
                    xs.extend(bt);
                }
                _ => return self.un("batch argument", &c.to_token_stream()),
            }
        }
        let src = src.ok_or("no batch argument")?;
        let m = self.fresh("call") + "_data";
        let bt = bt_name(&m);
        self.cols.insert(m.clone(), cout as i128);
        out.push(S::Call(Call { name: format!("{name}_{}", xs.len()), args: xs, src, cols_in: cin, cols_out: cout, mat: m.clone(), bt: bt.clone() }));
        self.live.push((m.clone(), None));
        self.live.push((bt.clone(), Some(K::Val)));
        Ok(if bun { V::Bun(m, Some(E::Var(bt, K::Val))) } else { V::Mat(m) })
    }

    fn method(&mut self, c: &syn::ExprMethodCall, out: &mut Vec<S>) -> R<V> {
        let name = c.method.to_string();
        let recv = self.expr(&c.receiver, out)?;
        let recv = match self.iter_method(recv, c, out)? {
            Ok(v) => return Ok(v),
            Err(v) => v,
        };
        if matches!(name.as_str(), "clone" | "borrow" | "as_ref" | "into_owned" | "clone_owned" | "to_owned") && c.args.is_empty() {
            return Ok(match recv {
                V::Mat(m) => V::NewMat(M::Copy(m)),
                V::Bun(m, bt) => {
                    let n = self.fresh("clone") + "_data";
                    out.push(S::LetMat(n.clone(), M::Copy(m)));
                    self.live.push((n.clone(), None));
                    V::Bun(n, bt)
                }
                v => v,
            });
        }
        if let V::Mat(m) = &recv {
            match (name.as_str(), c.args.len()) {
                ("len", 0) if self.rays.as_ref() == Some(m) || self.cols.get(m) == Some(&1) => return Ok(V::E(E::NRows(m.clone()))),
                // (a batch of points or pixels has columns: it is empty if it has no rows)
                ("is_empty", 0) if self.rays.as_ref() == Some(m) || matches!(self.cols.get(m), Some(1 | 2 | 3)) => {
                    return Ok(V::E(E::Cmp("==".into(), Box::new(E::NRows(m.clone())), Box::new(E::Int(0)))));
                }
                ("get", 1) if self.rays.as_ref() == Some(m) => {
                    let i = self.of(&c.args[0], K::Int, out)?;
                    return Ok(V::Row(m.clone(), i));
                }
                ("ncols", 0) if self.rowvec.contains(m) => return Ok(V::E(E::NRows(m.clone()))),
                ("nrows", 0) if self.rowvec.contains(m) => return Ok(V::E(E::Int(1))),
                ("nrows", 0) => return Ok(V::E(E::NRows(m.clone()))),
                ("row" | "row_mut", 1) => {
                    let i = self.of(&c.args[0], K::Int, out)?;
                    return Ok(V::Row(m.clone(), i));
                }
                ("ncols", 0) => {
                    return match self.cols.get(m) {
                        Some(k) => Ok(V::E(E::Int(*k))),
                        None => self.un("matrix method", c),
                    };
                }
                ("index", 1) => {
                    if let Expr::Tuple(t) = &c.args[0] {
                        if t.elems.len() == 2 {
                            let r = self.of(&t.elems[0], K::Int, out)?;
                            let k = self.of(&t.elems[1], K::Int, out)?;
                            return Ok(V::E(E::At(m.clone(), Box::new(r), Box::new(k))));
                        }
                    }
                }
                _ => {}
            }
            if let Some(v) = self.inline(&name, Some(c.receiver.as_ref()), &c.args.iter().collect::<Vec<_>>(), out)? {
                return Ok(v);
            }
            return self.un("matrix method", c);
        }
        let batchy = matches!(recv, V::Bun(..)) || c.args.iter().any(|a| self.names_batch(a));
        if batchy && !BATCH_OPS.contains(&name.as_str()) {
            return match self.inline(&name, Some(c.receiver.as_ref()), &c.args.iter().collect::<Vec<_>>(), out)? {
                Some(v) => Ok(v),
                None => self.un("operation on a batch", c),
            };
        }
        if name == "map" && c.args.len() == 1 && matches!(c.args[0], Expr::Closure(_)) {
            if let V::E(r) = recv {
                return self.map_value(r, c);
            }
            return self.un("map", c);
        }
        let mut args = vec![];
        for a in &c.args {
            if let Expr::Reference(r) = a {
                if r.mutability.is_some() {
                    return self.un("mutable argument", c);
                }
            }
            args.push(self.expr(a, out)?);
        }
        if matches!(recv, V::Bun(..)) || args.iter().any(|a| matches!(a, V::Mat(_) | V::NewMat(_) | V::Bun(..))) {
            return self.batch_call(&name, Some(recv), args, c, out);
        }
        let r = match recv {
            V::E(r) => r,
            // `rays.get(i).unwrap()`: in bounds by the precondition of the access
            V::Row(m, i) if self.rays.as_ref() == Some(&m) && name == "unwrap" => return Ok(V::Row(m, i)),
            V::Row(m, i) => E::RowVal(m, Box::new(i)),
            V::Elem(m, i, c) => E::At(m, Box::new(i), Box::new(c)),
            _ => return self.un("method", c),
        };
        // a method on a mutable local could change it
        if let Expr::Path(p) = &*c.receiver {
            if let Some(i) = p.path.get_ident() {
                if let Some(B::Var(_, K::Val, true)) = self.get(&i.to_string()) {
                    if !PURE_ON_MUT.contains(&name.as_str()) {
                        return self.un("method on a mutable local", c);
                    }
                }
            }
        }
        let mut xs = vec![r];
        for a in args {
            match a {
                V::E(e) => xs.push(e),
                V::Row(m, i) => xs.push(E::RowVal(m, Box::new(i))),
                V::Elem(m, i, c) => xs.push(E::At(m, Box::new(i), Box::new(c))),
                _ => return self.un("argument", c),
            }
        }
        let int = xs.len() == 1 && matches!(name.as_str(), "len" | "nrows" | "ncols");
        if xs[0].kind() == K::Int {
            if let ("min" | "max", 2) = (name.as_str(), xs.len()) {
                if xs[1].kind() == K::Int {
                    let o = if name == "min" { "<=" } else { ">=" };
                    let (a, b) = (xs[0].clone(), xs[1].clone());
                    let c = E::Cmp(o.into(), Box::new(a.clone()), Box::new(b.clone()));
                    return Ok(V::E(E::If(Box::new(c), vec![], Box::new(a), vec![], Box::new(b))));
                }
            }
            return self.un("method on an integer", c);
        }
        let boolean = name.starts_with("is_") && xs.len() == 1;
        let k = if int { K::Int } else if boolean { K::Bool } else { K::Val };
        let tf = c.turbofish.as_ref().map_or(String::new(), |t| "_".to_string() + &clean(&t.to_token_stream().to_string()));
        Ok(V::E(E::Op(format!("m_{name}{tf}_{}", xs.len()), xs, k)))
    }

    fn value_block(&mut self, b: &syn::Block, out: &mut Vec<S>) -> R<V> {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(e, None) = s {
                    return self.expr(e, out);
                }
            }
            self.stmt(s, out)?;
        }
        Ok(V::Unit)
    }

    fn block(&mut self, ss: &[Stmt], out: &mut Vec<S>) -> R<()> {
        let tries = self.tries.len();
        self.scopes.push(HashMap::new());
        let r = self.stmts(ss, out);
        self.scopes.pop();
        if self.tries.len() != tries {
            return Err("`?` inside a block".into());
        }
        r
    }

    /// statements of a loop body or branch; `if c { …; continue; }` becomes if/else
    fn stmts(&mut self, ss: &[Stmt], out: &mut Vec<S>) -> R<()> {
        for (i, s) in ss.iter().enumerate() {
            if let Stmt::Expr(Expr::While(w), _) = s {
                let k = self.while_loop(&ss[..i], w)?;
                self.for_loop(&k, out)?;
                continue;
            }
            if let Stmt::Expr(Expr::If(f), _) = s {
                if f.else_branch.is_none() && ends_in_continue(&f.then_branch) {
                    let c = self.cond(&f.cond, out)?;
                    let live = self.live.len();
                    let (mut a, mut b) = (vec![], vec![]);
                    let t = &f.then_branch.stmts;
                    self.block(&t[..t.len() - 1], &mut a)?;
                    self.live.truncate(live);
                    self.block(&ss[i + 1..], &mut b)?;
                    self.live.truncate(live);
                    out.push(S::If(c, a, b));
                    return Ok(());
                }
            }
            self.stmt(s, out)?;
        }
        Ok(())
    }

    fn let_var(&mut self, id: &syn::PatIdent, v: V, e: &Expr, out: &mut Vec<S>) -> R<()> {
        let s = id.ident.to_string();
        let b = match v {
            V::E(E::Int(k)) if id.mutability.is_none() => B::Const(k),
            V::Elem(m, i, c) => {
                let n = self.fresh(&s);
                out.push(S::Let(n.clone(), E::At(m, Box::new(i), Box::new(c))));
                self.live.push((n.clone(), Some(K::Val)));
                B::Var(n, K::Val, id.mutability.is_some())
            }
            V::Col(m, c) => B::Col(m, c),
            V::Iter(i) => B::Iter(i),
            v @ V::Tup(_) => self.binding(v, e)?,
            V::E(x) => {
                let n = self.fresh(&s);
                let k = x.kind();
                out.push(S::Let(n.clone(), x));
                self.live.push((n.clone(), Some(k)));
                B::Var(n, k, id.mutability.is_some())
            }
            V::Mat(m) => B::Mat(m),
            v @ V::NewMat(_) => B::Mat(self.named(v, &s, e, out)?),
            V::Bun(m, None) => B::Bun(m, None),
            V::Bun(m, Some(bt)) => {
                let n = self.fresh(&s) + "_bt";
                out.push(S::Let(n.clone(), bt));
                self.live.push((n.clone(), Some(K::Val)));
                B::Bun(m, Some(E::Var(n, K::Val)))
            }
            V::Row(m, i) => {
                // the row index must not change under the name
                let n = self.fresh(&s);
                out.push(S::Let(n.clone(), i));
                self.live.push((n.clone(), Some(K::Int)));
                B::Row(m, E::Var(n, K::Int))
            }
            V::Unit => return self.un("unit variable", e),
        };
        self.bind(&s, b);
        Ok(())
    }

    fn stmt(&mut self, s: &Stmt, out: &mut Vec<S>) -> R<()> {
        match s {
            Stmt::Local(l) => {
                let Some(init) = &l.init else { return self.un("let without value", l) };
                if init.diverge.is_some() {
                    return self.un("let else", l);
                }
                let mut pat = &l.pat;
                let mut ty = None;
                if let Pat::Type(t) = pat {
                    pat = &t.pat;
                    ty = Some(type_kind(&t.ty, self.c));
                }
                // `let a = &mut x` must stay an alias
                if let (Expr::Reference(r), Pat::Ident(_)) = (&*init.expr, pat) {
                    if r.mutability.is_some() {
                        let v = self.expr(&r.expr, out)?;
                        match (v, pat) {
                            (V::Mat(m), Pat::Ident(id)) => {
                                self.bind(&id.ident.to_string(), B::Mat(m));
                                return Ok(());
                            }
                            (V::Bun(m, bt), Pat::Ident(id)) => {
                                self.bind(&id.ident.to_string(), B::Bun(m, bt));
                                return Ok(());
                            }
                            (v @ V::Row(..), Pat::Ident(id)) => return self.let_var(id, v, &r.expr, out),
                            _ => return self.un("mutable reference", l),
                        }
                    }
                }
                if let (Expr::Closure(f), Pat::Ident(id)) = (&*init.expr, pat) {
                    let mut names = vec![];
                    idents(f.body.to_token_stream(), &mut names);
                    let mutable = names.iter().any(|n| matches!(self.get(n), Some(B::Var(_, _, true))));
                    if mutable || contains_try(&f.body) {
                        return self.un("closure", f);
                    }
                    let fun = Fun { pats: f.inputs.iter().cloned().collect(), body: (*f.body).clone(), scopes: self.scopes.clone() };
                    self.bind(&id.ident.to_string(), B::Fun(std::rc::Rc::new(fun)));
                    return Ok(());
                }
                let v = self.expr(&init.expr, out)?;
                if let (Some(TK::S(k)), V::E(x)) = (ty, &v) {
                    if x.kind() != k {
                        return self.un("type of a variable", l);
                    }
                }
                self.let_pat(pat, v, &init.expr, out)
            }
            Stmt::Expr(e, _) => self.effect(e, out),
            Stmt::Item(syn::Item::Const(k)) => {
                let v = self.expr(&k.expr, out)?;
                let b = match v {
                    V::E(E::Int(k)) => B::Const(k),
                    V::E(x) => {
                        let n = self.fresh("const");
                        let kd = x.kind();
                        out.push(S::Let(n.clone(), x));
                        self.live.push((n.clone(), Some(kd)));
                        B::Var(n, kd, false)
                    }
                    _ => return self.un("constant", k),
                };
                self.bind(&k.ident.to_string(), b);
                Ok(())
            }
            Stmt::Item(i @ syn::Item::Use(_)) => {
                let _ = i;
                Ok(())
            }
            _ => self.un("statement", s),
        }
    }

    /// irrefutable pattern of a `let`
    fn let_pat(&mut self, pat: &Pat, v: V, e: &Expr, out: &mut Vec<S>) -> R<()> {
        match pat {
            Pat::Ident(id) if id.subpat.is_none() && (id.by_ref.is_none() || matches!(v, V::E(_)) && id.mutability.is_none()) => self.let_var(id, v, e, out),
            Pat::Wild(_) => Ok(()),
            Pat::Paren(p) => self.let_pat(&p.pat, v, e, out),
            Pat::Reference(p) => self.let_pat(&p.pat, v, e, out),
            Pat::Tuple(t) => {
                // `let (a, b) = (x, y)` or projections
                let V::E(x) = v else { return self.un("pattern", pat) };
                let parts: Vec<E> = match (&x, t.elems.len()) {
                    (E::Op(n, xs, _), k) if *n == format!("tuple{k}") => xs.clone(),
                    (_, k) => (0..k).map(|j| E::Op(format!("tup_{j}_of_{k}"), vec![x.clone()], K::Val)).collect(),
                };
                for (p, x) in t.elems.iter().zip(parts) {
                    self.let_pat(p, V::E(x), e, out)?;
                }
                Ok(())
            }
            Pat::Slice(t) => {
                let V::E(x) = v else { return self.un("pattern", pat) };
                if t.elems.iter().any(|p| matches!(p, Pat::Rest(_))) {
                    return self.un("pattern", pat);
                }
                for (j, p) in t.elems.iter().enumerate() {
                    let y = match &x {
                        E::Op(n, xs, _) if *n == format!("array{}", t.elems.len()) => xs[j].clone(),
                        _ => E::Op("idx".into(), vec![x.clone(), E::Int(j as i128)], K::Val),
                    };
                    self.let_pat(p, V::E(y), e, out)?;
                }
                Ok(())
            }
            Pat::Struct(t) => {
                if pat.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "mut") {
                    return self.un("pattern", pat);
                }
                for f in &t.fields {
                    let name = f.member.to_token_stream().to_string();
                    let x = match &v {
                        V::Bun(m, bt) => match (name.as_str(), bt) {
                            ("data", _) => V::Mat(m.clone()),
                            ("bundle_type", Some(b)) => V::E(b.clone()),
                            ("coords", _) => V::E(E::Op("frame".into(), vec![], K::Val)),
                            _ => return self.un("pattern", pat),
                        },
                        V::E(x) if x.kind() == K::Val => V::E(E::Op(format!("fld_{name}"), vec![x.clone()], K::Val)),
                        _ => return self.un("pattern", pat),
                    };
                    self.let_pat(&f.pat, x, e, out)?;
                }
                Ok(())
            }
            _ => self.un("pattern", pat),
        }
    }

    fn assign(&mut self, lhs: &Expr, v: V, what: &Expr, out: &mut Vec<S>) -> R<()> {
        match lhs {
            Expr::Paren(p) => self.assign(&p.expr, v, what, out),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.assign(&u.expr, v, what, out),
            Expr::Path(p) => {
                let s = p.to_token_stream().to_string();
                let v = match v {
                    V::Elem(m, i, c) => V::E(E::At(m, Box::new(i), Box::new(c))),
                    v => v,
                };
                match (self.get(&s), v) {
                    (Some(B::Elem(m, i, c)), V::E(x)) if x.kind() == K::Val => {
                        out.push(S::MatSet(m, i, c, x));
                        Ok(())
                    }
                    (Some(B::Var(n, k, m)), V::E(x)) if x.kind() == k => {
                        if !m && !matches!(lhs, Expr::Path(_)) {
                            return self.un("assignment", what);
                        }
                        out.push(S::Set(n, x));
                        Ok(())
                    }
                    (Some(B::Mat(n)), v @ (V::Mat(_) | V::NewMat(_))) => {
                        let m = self.mat_of(v, what)?;
                        out.push(S::SetMat(n, m));
                        Ok(())
                    }
                    _ => self.un("assignment", what),
                }
            }
            Expr::Field(f) => {
                let name = f.member.to_token_stream().to_string();
                match self.expr(&f.base, out)? {
                    V::Bun(m, bt) => match (name.as_str(), v, bt) {
                        ("bundle_type", V::E(x), Some(E::Var(b, _))) => {
                            out.push(S::Set(b, x));
                            Ok(())
                        }
                        ("data", v @ (V::Mat(_) | V::NewMat(_)), _) => {
                            let x = self.mat_of(v, what)?;
                            out.push(S::SetMat(m, x));
                            Ok(())
                        }
                        _ => self.un("assignment", what),
                    },
                    V::E(b) => match v {
                        V::E(x) => self.assign(&f.base, V::E(E::Op(format!("setfld_{name}"), vec![b, x], K::Val)), what, out),
                        _ => self.un("assignment", what),
                    },
                    _ => self.un("assignment", what),
                }
            }
            Expr::Index(ix) => {
                let base = self.expr(&ix.expr, out)?;
                let x = match v {
                    V::E(x) => x,
                    V::Elem(m, i, c) => E::At(m, Box::new(i), Box::new(c)),
                    _ => return self.un("assignment", what),
                };
                let two = match &*ix.index {
                    Expr::Tuple(t) if t.elems.len() == 2 => Some((t.elems[0].clone(), t.elems[1].clone())),
                    _ => None,
                };
                match (base, two) {
                    (V::Mat(m), None) if self.cols.get(&m) == Some(&1) && x.kind() == K::Val => {
                        let i = self.of(&ix.index, K::Int, out)?;
                        out.push(S::MatSet(m, i, E::Int(0), x));
                        Ok(())
                    }
                    (V::Mat(m), Some((r, c))) if self.rowvec.contains(&m) && x.kind() == K::Val => {
                        let r = self.of(&r, K::Int, out)?;
                        let c = self.of(&c, K::Int, out)?;
                        if !matches!(r, E::Int(0)) {
                            return self.un("assignment", what);
                        }
                        out.push(S::MatSet(m, c, E::Int(0), x));
                        Ok(())
                    }
                    (V::Mat(m), Some((r, c))) => {
                        let r = self.of(&r, K::Int, out)?;
                        let c = self.of(&c, K::Int, out)?;
                        if x.kind() != K::Val {
                            return self.un("assignment", what);
                        }
                        out.push(S::MatSet(m, r, c, x));
                        Ok(())
                    }
                    (V::Row(m, i), two) if x.kind() == K::Val => {
                        let c = match two {
                            None => self.of(&ix.index, K::Int, out)?,
                            Some((r, c)) => {
                                if !matches!(self.of(&r, K::Int, out)?, E::Int(0)) {
                                    return self.un("assignment", what);
                                }
                                self.of(&c, K::Int, out)?
                            }
                        };
                        out.push(S::MatSet(m, i, c, x));
                        Ok(())
                    }
                    (V::E(b), two) if b.kind() == K::Val => {
                        let mut a = vec![b];
                        match two {
                            Some((r, c)) => {
                                a.push(self.of(&r, K::Int, out)?);
                                a.push(self.of(&c, K::Int, out)?);
                            }
                            None => a.push(self.of(&ix.index, K::Int, out)?),
                        }
                        a.push(x);
                        let v = E::Op(format!("setidx{}", a.len()), a, K::Val);
                        self.assign(&ix.expr, V::E(v), what, out)
                    }
                    _ => self.un("assignment", what),
                }
            }
            _ => self.un("assignment", what),
        }
    }

    fn effect(&mut self, e: &Expr, out: &mut Vec<S>) -> R<()> {
        match e {
            Expr::Assign(a) => {
                let v = self.expr(&a.right, out)?;
                self.assign(&a.left, v, e, out)
            }
            Expr::Binary(b) => {
                let op: BinOp = match b.op {
                    BinOp::AddAssign(_) => syn::parse_quote!(+),
                    BinOp::SubAssign(_) => syn::parse_quote!(-),
                    BinOp::MulAssign(_) => syn::parse_quote!(*),
                    BinOp::DivAssign(_) => syn::parse_quote!(/),
                    _ => return self.un("statement", e),
                };
                let mut c = b.clone();
                c.op = op;
                let v = self.binary(&c, out)?;
                self.assign(&b.left, v, e, out)
            }
            Expr::Block(b) if b.label.is_none() => self.block(&b.block.stmts, out),
            Expr::Paren(p) => self.effect(&p.expr, out),
            Expr::If(i) => {
                let c = self.cond(&i.cond, out)?;
                let live = self.live.len();
                let (mut a, mut b) = (vec![], vec![]);
                self.block(&i.then_branch.stmts, &mut a)?;
                self.live.truncate(live);
                if let Some((_, x)) = &i.else_branch {
                    self.scopes.push(HashMap::new());
                    self.effect(x, &mut b)?;
                    self.scopes.pop();
                }
                self.live.truncate(live);
                out.push(S::If(c, a, b));
                Ok(())
            }
            Expr::ForLoop(f) if f.label.is_none() => self.for_loop(f, out),
            Expr::MethodCall(c) if c.method == "for_each" && c.args.len() == 1 => {
                let Expr::Closure(k) = &c.args[0] else { return self.un("statement", e) };
                if k.inputs.len() != 1 {
                    return self.un("statement", e);
                }
                let body: syn::Block = match &*k.body {
                    Expr::Block(b) => b.block.clone(),
                    x => syn::parse_quote!({ #x; }),
                };
                let mut pat = &k.inputs[0];
                if let Pat::Type(t) = pat {
                    pat = &t.pat;
                }
                let (pat, it) = (pat.clone(), c.receiver.clone());
                let f: syn::ExprForLoop = syn::parse_quote!(for #pat in #it #body);
                self.for_loop(&f, out)
            }
            Expr::Call(c) => match self.call(c, out)? {
                _ => Ok(()),
            },
            Expr::MethodCall(c) => {
                let name = c.method.to_string();
                if c.args.iter().any(|a| self.names_batch(a)) && !BATCH_OPS.contains(&name.as_str()) && name != "set_row" {
                    if self.inline(&name, Some(c.receiver.as_ref()), &c.args.iter().collect::<Vec<_>>(), out)?.is_some() {
                        return Ok(());
                    }
                }
                // row writers
                if let V::Mat(m) = self.expr(&c.receiver, out)? {
                    if name == "set_row" && c.args.len() == 2 {
                        let i = self.of(&c.args[0], K::Int, out)?;
                        let v = self.of(&c.args[1], K::Val, out)?;
                        out.push(S::MatSetRow(m, i, v));
                        return Ok(());
                    }
                    return self.un("statement", e);
                }
                if name == "copy_from" && c.args.len() == 1 {
                    if let V::Row(m, i) = self.expr(&c.receiver, out)? {
                        let v = self.of(&c.args[0], K::Val, out)?;
                        out.push(S::MatSetRow(m, i, v));
                        return Ok(());
                    }
                }
                // `x.normalize_mut();` on a local: a new value for the local
                if let Expr::Path(p) = &*c.receiver {
                    let s = p.to_token_stream().to_string();
                    if let Some(B::Var(n, K::Val, true)) = self.get(&s) {
                        let mut a = vec![E::Var(n.clone(), K::Val)];
                        for x in &c.args {
                            a.push(self.scalar(x, out)?);
                        }
                        out.push(S::Set(n, E::Op(format!("mut_{name}_{}", a.len()), a, K::Val)));
                        return Ok(());
                    }
                }
                self.un("statement", e)
            }
            Expr::Tuple(t) if t.elems.is_empty() => Ok(()),
            // a pure expression evaluated for nothing
            Expr::Path(_) | Expr::Lit(_) | Expr::Field(_) => {
                self.expr(e, out)?;
                Ok(())
            }
            _ => self.un("statement", e),
        }
    }

    /// `let mut i = 0; while i < n { …; i += 1; }` as a `for`
    fn while_loop(&mut self, before: &[Stmt], w: &syn::ExprWhile) -> R<syn::ExprForLoop> {
        let fail = |s: &str| Err(format!("while loop: {s}"));
        let Expr::Binary(c) = &*w.cond else { return fail("condition") };
        let (Expr::Path(p), BinOp::Lt(_)) = (&*c.left, &c.op) else { return fail("condition") };
        let Some(iv) = p.path.get_ident().cloned() else { return fail("condition") };
        if w.label.is_some() {
            return fail("label");
        }
        let ivs = iv.to_string();
        // initial value: the last statement naming the counter must be its `let`
        let Some(d) = before.iter().rev().find(|s| mentions(s.to_token_stream(), &ivs)) else { return fail("counter") };
        let Stmt::Local(l) = d else { return fail("counter") };
        let mut pat = &l.pat;
        if let Pat::Type(t) = pat {
            pat = &t.pat;
        }
        let (Pat::Ident(pi), Some(init)) = (pat, &l.init) else { return fail("counter") };
        if pi.ident != iv {
            return fail("counter");
        }
        let Some((last, rest)) = w.body.stmts.split_last() else { return fail("body") };
        let want: [String; 2] = [format!("{iv} += 1 ;"), format!("{iv} = {iv} + 1 ;")];
        if !want.contains(&last.to_token_stream().to_string()) {
            return fail("step");
        }
        let mut bad = false;
        for s in rest {
            let mut v = Writes { name: &ivs, bad: &mut bad };
            syn::visit::Visit::visit_stmt(&mut v, s);
        }
        let mut bound_writes = vec![];
        if bad {
            return fail("counter or control flow in the body");
        }
        // the bound is read once by `for`: it must not depend on mutable locals
        idents(c.right.to_token_stream(), &mut bound_writes);
        for b in bound_writes {
            if let Some(B::Var(_, _, true)) = self.get(&b) {
                return fail("bound");
            }
        }
        let (init, hi) = (&init.expr, &c.right);
        Ok(syn::parse_quote!(for #iv in (#init)..(#hi) { #(#rest)* }))
    }

    /// methods that make, adapt or consume iterators; Err(recv) if it is none
    fn iter_method(&mut self, recv: V, c: &syn::ExprMethodCall, out: &mut Vec<S>) -> R<Result<V, V>> {
        let name = c.method.to_string();
        let k = c.args.len();
        let one = |item, n| Ok(Ok(V::Iter(It { item, n: Some(n) })));
        match (recv, name.as_str(), k) {
            (V::Mat(m), "row_iter" | "row_iter_mut", 0) if !self.rowvec.contains(&m) => one(Item::Row(m.clone()), E::NRows(m)),
            (V::Mat(m), "iter" | "into_iter", 0) if self.rays.as_ref() == Some(&m) => one(Item::Row(m.clone()), E::NRows(m)),
            (V::Mat(m), "iter" | "iter_mut" | "into_iter", 0) if self.cols.get(&m) == Some(&1) => {
                one(Item::Elem(m.clone(), E::Int(0)), E::NRows(m))
            }
            (V::Mat(m), "sum", 0) if self.cols.get(&m) == Some(&1) => {
                let it = It { item: Item::Elem(m.clone(), E::Int(0)), n: Some(E::NRows(m)) };
                Ok(Ok(self.sum(it, c, out)?))
            }
            (V::Mat(m), "column" | "column_mut", 1) if self.rays.as_ref() != Some(&m) => {
                let j = self.of(&c.args[0], K::Int, out)?;
                Ok(Ok(V::Col(m, j)))
            }
            (V::Col(m, j), "iter" | "iter_mut" | "into_iter", 0) => one(Item::Elem(m.clone(), j), E::NRows(m)),
            (V::Col(m, j), "sum", 0) => {
                let it = It { item: Item::Elem(m.clone(), j), n: Some(E::NRows(m)) };
                Ok(Ok(self.sum(it, c, out)?))
            }
            (V::Col(m, _), "len" | "nrows", 0) => Ok(Ok(V::E(E::NRows(m)))),
            (V::Col(m, j), "clone", 0) => Ok(Ok(V::Col(m, j))),
            (V::Iter(i), "into_iter" | "by_ref" | "cloned" | "copied" | "clone" | "iter", 0) => Ok(Ok(V::Iter(i))),
            (V::Iter(i), "enumerate", 0) => {
                let item = Item::Tup(vec![Item::Index, i.item]);
                Ok(Ok(V::Iter(It { item, n: i.n })))
            }
            (V::Iter(i), "take", 1) => {
                let k = self.of(&c.args[0], K::Int, out)?;
                let Some(n) = i.n else { return Ok(Ok(V::Iter(It { item: i.item, n: Some(k) }))) };
                let c = E::Cmp("<=".into(), Box::new(n.clone()), Box::new(k.clone()));
                let n = E::If(Box::new(c), vec![], Box::new(n), vec![], Box::new(k));
                Ok(Ok(V::Iter(It { item: i.item, n: Some(n) })))
            }
            (V::Iter(i), "zip", 1) => {
                let b = self.iter(&c.args[0], out)?;
                Ok(Ok(V::Iter(zip(vec![i, b]))))
            }
            (V::Iter(i), "map", 1) => {
                let Expr::Closure(f) = &c.args[0] else { return self.un("iterator", c) };
                if f.inputs.len() != 1 || contains_try(&f.body) {
                    return self.un("iterator", c);
                }
                let mut pat = &f.inputs[0];
                if let Pat::Type(t) = pat {
                    pat = &t.pat;
                }
                // evaluated later: what it captures must not change in between
                let mut names = vec![];
                idents(f.body.to_token_stream(), &mut names);
                for n in names {
                    if let Some(B::Var(_, _, true)) = self.get(&n) {
                        return self.un("closure over a mutable variable", c);
                    }
                }
                let clo = Clo { pat: pat.clone(), body: (*f.body).clone(), scopes: self.scopes.clone() };
                Ok(Ok(V::Iter(It { item: Item::Map(Box::new(i.item), std::rc::Rc::new(clo)), n: i.n })))
            }
            (V::Iter(i), "sum", 0) => Ok(Ok(self.sum(i, c, out)?)),
            (V::Iter(i), "fold", 2) => {
                let init = self.of(&c.args[0], K::Val, out)?;
                let Expr::Closure(f) = &c.args[1] else { return self.un("fold", c) };
                if f.inputs.len() != 2 || contains_try(&f.body) {
                    return self.un("fold", c);
                }
                let pats: Vec<Pat> = f.inputs.iter().map(|p| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() }).collect();
                let Pat::Ident(acc) = &pats[0] else { return self.un("fold", c) };
                let (acc, body, p1) = (acc.ident.to_string(), (*f.body).clone(), pats[1].clone());
                let Some(n) = i.n else { return self.un("fold", c) };
                let a = self.fresh("acc");
                out.push(S::Let(a.clone(), init));
                self.live.push((a.clone(), Some(K::Val)));
                let a2 = a.clone();
                self.row_loop(&p1, &i.item, E::Int(0), n, false, out, c, |l, b| {
                    l.bind(&acc, B::Var(a2.clone(), K::Val, false));
                    let x = l.of(&body, K::Val, b)?;
                    b.push(S::Set(a2, x));
                    Ok(())
                })?;
                Ok(Ok(V::E(E::Var(a, K::Val))))
            }
            (V::Iter(i), "collect", 0) => {
                let Some(n) = i.n else { return self.un("collect", c) };
                let m = self.named(V::NewMat(M::Zeros(n.clone(), E::Int(1))), "vec", &c.receiver, out)?;
                let (mm, item) = (m.clone(), i.item.clone());
                let pat: Pat = syn::parse_quote!(row_index__);
                self.row_loop(&pat, &Item::Index, E::Int(0), n, false, out, c, |l, b| {
                    let Some(B::Var(iv, _, _)) = l.get("row_index__") else { unreachable!() };
                    let x = match l.item_value(&item, &iv, b)? {
                        V::E(x) if x.kind() == K::Val => x,
                        V::Elem(m, i, c) => E::At(m, Box::new(i), Box::new(c)),
                        _ => return l.un("collect", c),
                    };
                    b.push(S::MatSet(mm, E::Var(iv, K::Int), E::Int(0), x));
                    Ok(())
                })?;
                Ok(Ok(V::Mat(m)))
            }
            (V::Iter(_), _, _) => self.un("iterator", c),
            (v, _, _) => Ok(Err(v)),
        }
    }

    /// the sum of what the iterator yields, in order, starting from zero
    fn sum(&mut self, it: It, c: &syn::ExprMethodCall, out: &mut Vec<S>) -> R<V> {
        let Some(n) = it.n else { return self.un("sum", c) };
        let a = self.fresh("sum");
        out.push(S::Let(a.clone(), E::Op("zero".into(), vec![], K::Val)));
        self.live.push((a.clone(), Some(K::Val)));
        let (a2, item) = (a.clone(), it.item.clone());
        let pat: Pat = syn::parse_quote!(row_index__);
        self.row_loop(&pat, &Item::Index, E::Int(0), n, false, out, c, |l, b| {
            let Some(B::Var(iv, _, _)) = l.get("row_index__") else { unreachable!() };
            let x = match l.item_value(&item, &iv, b)? {
                V::E(x) if x.kind() == K::Val => x,
                V::Elem(m, i, c) => E::At(m, Box::new(i), Box::new(c)),
                _ => return l.un("sum", c),
            };
            b.push(S::Set(a2.clone(), E::Op("add".into(), vec![E::Var(a2, K::Val), x], K::Val)));
            Ok(())
        })?;
        Ok(V::E(E::Var(a, K::Val)))
    }

    /// `x.map(|a| …)` on a scalar-world container: one opaque operation per closure
    fn map_value(&mut self, x: E, c: &syn::ExprMethodCall) -> R<V> {
        let Expr::Closure(f) = &c.args[0] else { return self.un("map", c) };
        if f.inputs.len() != 1 || contains_try(&f.body) {
            return self.un("map", c);
        }
        let mut pat = &f.inputs[0];
        while let Pat::Type(_) | Pat::Reference(_) = pat {
            match pat {
                Pat::Type(t) => pat = &t.pat,
                Pat::Reference(t) => pat = &t.pat,
                _ => {}
            }
        }
        let Pat::Ident(id) = pat else { return self.un("map", c) };
        let p = self.fresh("elem");
        self.scopes.push(HashMap::from([(id.ident.to_string(), B::Var(p.clone(), K::Val, false))]));
        let mut body = vec![];
        let live = self.live.len();
        let e = self.of(&f.body, K::Val, &mut body);
        self.scopes.pop();
        self.live.truncate(live);
        let e = e?;
        // what it captures becomes an argument
        let text = format!("{body:?}{e:?}");
        if ["At(", "RowVal(", "NRows(", "For {", "Mat"].iter().any(|t| text.contains(t)) {
            return self.un("closure over a matrix", c);
        }
        let mut caps: Vec<(String, K)> = vec![];
        for (n, k) in &self.live {
            if text.contains(&format!("Var({n:?},")) && !caps.iter().any(|c| c.0 == *n) {
                match k {
                    Some(k) if !body.iter().any(|s| matches!(s, S::Let(m, _) if m == n)) => caps.push((n.clone(), *k)),
                    _ => {}
                }
            }
        }
        let mut ms = vec![];
        modified(&body, &mut ms);
        if !ms.is_empty() {
            return self.un("closure that assigns", c);
        }
        let mut args = vec![x];
        args.extend(caps.iter().map(|(n, k)| E::Var(n.clone(), *k)));
        // the same text, the same operation
        for k in &self.closures {
            if k.body.is_empty() && body.is_empty() && k.caps == caps && format!("{:?}", k.value).replace(&k.param, &p) == format!("{e:?}") {
                return Ok(V::E(E::Op(k.name.clone(), args, K::Val)));
            }
        }
        let name = format!("map_{}", self.closures.len());
        self.closures.push(Closure { name: name.clone(), param: p, caps, body, value: e });
        Ok(V::E(E::Op(name, args, K::Val)))
    }

    /// macros of the crate (one rule, comma-separated fragments) and `izip!`
    fn expand(&mut self, m: &syn::Macro) -> R<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name == "izip" {
            use syn::parse::Parser;
            let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
            let xs = p.parse2(m.tokens.clone()).map_err(|e| e.to_string())?;
            if xs.len() < 2 {
                return self.un("macro", m);
            }
            let xs: Vec<Expr> = xs.into_iter().collect();
            return Ok(syn::parse_quote!(izip_of(#(#xs),*)));
        }
        let Some((_, def)) = self.macros.iter().find(|x| x.0 == name) else { return self.un("macro", m) };
        match expand_rule(def.clone(), m.tokens.clone()) {
            Some(t) => {
                let t2: proc_macro2::TokenStream = quote::quote!({ #t });
                syn::parse2(t2).map_err(|e| format!("macro {name}: {e}"))
            }
            None => self.un("macro", m),
        }
    }

    fn iter(&mut self, e: &Expr, out: &mut Vec<S>) -> R<It> {
        match e {
            Expr::Range(r) => {
                let Some(a) = &r.start else { return self.un("iterator", e) };
                if !matches!(self.of(a, K::Int, out)?, E::Int(0)) || !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                    return self.un("iterator", e);
                }
                let n = match &r.end {
                    Some(b) => Some(self.of(b, K::Int, out)?),
                    None => None,
                };
                Ok(It { item: Item::Index, n })
            }
            e => match self.expr(e, out)? {
                V::Iter(i) => Ok(i),
                V::Mat(m) if self.rays.as_ref() == Some(&m) => Ok(It { item: Item::Row(m.clone()), n: Some(E::NRows(m)) }),
                V::Mat(m) if self.cols.get(&m) == Some(&1) => Ok(It { item: Item::Elem(m.clone(), E::Int(0)), n: Some(E::NRows(m)) }),
                V::Col(m, j) => Ok(It { item: Item::Elem(m.clone(), j), n: Some(E::NRows(m)) }),
                _ => self.un("iterator", e),
            },
        }
    }

    /// the value the iterator yields in step `iv`
    fn item_value(&mut self, it: &Item, iv: &str, out: &mut Vec<S>) -> R<V> {
        let i = E::Var(iv.into(), K::Int);
        Ok(match it {
            Item::Index => V::E(i),
            Item::Row(m) => V::Row(m.clone(), i),
            Item::Elem(m, c) => V::Elem(m.clone(), i, c.clone()),
            Item::Tup(v) => V::Tup(v.iter().map(|x| self.item_value(x, iv, out)).collect::<R<_>>()?),
            Item::Map(inner, clo) => {
                let saved = std::mem::replace(&mut self.scopes, clo.scopes.clone());
                self.scopes.push(HashMap::new());
                let r = (|| {
                    self.bind_item(&clo.pat, inner, iv, out)?;
                    self.expr(&clo.body, out)
                })();
                self.scopes = saved;
                // a tuple of scalars is its parts
                match r? {
                    V::E(E::Op(n, xs, _)) if n == format!("tuple{}", xs.len()) => V::Tup(xs.into_iter().map(V::E).collect()),
                    v => v,
                }
            }
        })
    }

    fn binding(&mut self, v: V, what: &dyn ToTokens) -> R<B> {
        Ok(match v {
            V::E(E::Var(n, k)) => B::Var(n, k, false),
            V::E(E::Int(k)) => B::Const(k),
            V::Mat(m) => B::Mat(m),
            V::Bun(m, b) => B::Bun(m, b),
            V::Row(m, i) => B::Row(m, i),
            V::Elem(m, i, c) => B::Elem(m, i, c),
            V::Col(m, c) => B::Col(m, c),
            V::Iter(i) => B::Iter(i),
            V::Tup(v) => B::Tup(v.into_iter().map(|x| self.binding(x, what)).collect::<R<_>>()?),
            _ => return self.un("binding", what),
        })
    }

    fn bind_value(&mut self, p: &Pat, v: V, out: &mut Vec<S>) -> R<()> {
        match (p, v) {
            (Pat::Wild(_), _) => Ok(()),
            (Pat::Reference(r), v) => self.bind_value(&r.pat, v, out),
            (Pat::Paren(r), v) => self.bind_value(&r.pat, v, out),
            (Pat::Type(r), v) => self.bind_value(&r.pat, v, out),
            (Pat::Tuple(t), V::Tup(v)) if t.elems.len() == v.len() => {
                for (p, v) in t.elems.iter().zip(v) {
                    self.bind_value(p, v, out)?;
                }
                Ok(())
            }
            (Pat::Slice(_), V::E(x)) => {
                let e: Expr = syn::parse_quote!(item);
                self.let_pat(p, V::E(x), &e, out)
            }
            (Pat::Ident(i), V::E(x)) => {
                let e: Expr = syn::parse_quote!(item);
                self.let_var(i, V::E(x), &e, out)
            }
            (Pat::Ident(i), v) => {
                let b = self.binding(v, p)?;
                self.bind(&i.ident.to_string(), b);
                Ok(())
            }
            _ => self.un("loop variable", p),
        }
    }

    fn bind_item(&mut self, p: &Pat, it: &Item, iv: &str, out: &mut Vec<S>) -> R<()> {
        if let (Pat::Ident(i), Item::Index) = (p, it) {
            self.bind(&i.ident.to_string(), B::Var(iv.into(), K::Int, false));
            return Ok(());
        }
        if let (Pat::Tuple(t), Item::Tup(v)) = (p, it) {
            if t.elems.len() == v.len() {
                for (p, x) in t.elems.iter().zip(v) {
                    self.bind_item(p, x, iv, out)?;
                }
                return Ok(());
            }
        }
        let v = self.item_value(it, iv, out)?;
        self.bind_value(p, v, out)
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop, out: &mut Vec<S>) -> R<()> {
        let mut it = &*f.expr;
        let mut rev = false;
        while let Expr::Paren(p) = it {
            it = &p.expr;
        }
        if let Expr::MethodCall(m) = it {
            if m.method == "rev" && m.args.is_empty() {
                it = &m.receiver;
                rev = true;
            }
        }
        while let Expr::Paren(p) = it {
            it = &p.expr;
        }
        let (item, a, b) = match it {
            Expr::Range(r) => {
                let (Some(a), Some(b)) = (&r.start, &r.end) else { return self.un("loop", &f.expr) };
                let a = self.of(a, K::Int, out)?;
                let mut b = self.of(b, K::Int, out)?;
                if let syn::RangeLimits::Closed(_) = r.limits {
                    b = match b {
                        E::Int(n) => E::Int(n + 1),
                        b => E::IntBin("+".into(), Box::new(b), Box::new(E::Int(1))),
                    };
                }
                (Item::Index, a, b)
            }
            it => {
                let i = self.iter(it, out)?;
                let Some(n) = i.n else { return self.un("loop", &f.expr) };
                (i.item, E::Int(0), n)
            }
        };
        let var = match &*f.pat {
            Pat::Ident(i) => i.ident.to_string(),
            _ => "i".into(),
        };
        if let (E::Int(lo), E::Int(hi)) = (&a, &b) {
            if hi - lo > 16 {
                return self.un("loop", &f.expr);
            }
            let mut ix: Vec<i128> = (*lo..*hi).collect();
            if rev {
                ix.reverse();
            }
            for k in ix {
                let live = self.live.len();
                self.scopes.push(HashMap::from([(var.clone(), B::Const(k))]));
                let r = self.block(&f.body.stmts, out);
                self.scopes.pop();
                self.live.truncate(live);
                r?;
            }
            return Ok(());
        }
        self.row_loop(&f.pat, &item, a, b, rev, out, &f.expr, |l, body| l.block(&f.body.stmts, body))
    }

    #[allow(clippy::too_many_arguments)]
    fn row_loop(
        &mut self,
        pat: &Pat,
        item: &Item,
        lo: E,
        hi: E,
        rev: bool,
        out: &mut Vec<S>,
        what: &dyn ToTokens,
        f: impl FnOnce(&mut Self, &mut Vec<S>) -> R<()>,
    ) -> R<()> {
        if self.in_loop {
            return self.un("loop inside a row loop", what);
        }
        self.loops += 1;
        let id = self.loops;
        let iv = self.fresh("i");
        let scope = self.live.clone();
        let live = self.live.len();
        self.scopes.push(HashMap::new());
        self.in_loop = true;
        let mut body = vec![];
        let tries = self.tries.len();
        let r = self.bind_item(pat, item, &iv, &mut body).and_then(|_| f(self, &mut body));
        if self.tries.len() != tries {
            return self.un("`?` in a loop", what);
        }
        self.in_loop = false;
        self.scopes.pop();
        self.live.truncate(live);
        r?;
        let mut ms = vec![];
        modified(&body, &mut ms);
        for m in &ms {
            if scope.iter().any(|(n, k)| n == m && *k == Some(K::Int)) {
                return self.un("counter carried by a row loop", what);
            }
        }
        // only what the body mentions
        let text = format!("{body:?}");
        let scope = scope.into_iter().filter(|(n, _)| text.contains(&format!("\"{n}\""))).collect();
        out.push(S::For { id, var: iv, lo, hi, rev, body, scope });
        Ok(())
    }

    /// `OMatrix::from_fn_generic(rows, cols, |i, j| e)`
    fn from_fn(&mut self, c: &syn::ExprCall, out: &mut Vec<S>) -> R<V> {
        let n = self.of(&c.args[0], K::Int, out)?;
        let k = self.of(&c.args[1], K::Int, out)?;
        let (E::Int(cols), Expr::Closure(f)) = (&k, &c.args[2]) else { return self.un("matrix constructor", c) };
        if f.inputs.len() != 2 || !(1..=3).contains(cols) {
            return self.un("matrix constructor", c);
        }
        let mut pats = vec![];
        for p in &f.inputs {
            pats.push(match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            });
        }
        let cols = *cols;
        let m = self.named(V::NewMat(M::Zeros(n, k)), "fill", &c.args[0], out)?;
        let mm = m.clone();
        let jname = match &pats[1] {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Wild(_) => "_".into(),
            _ => return self.un("matrix constructor", c),
        };
        let iname = match &pats[0] {
            Pat::Ident(i) => Some(i.ident.to_string()),
            _ => None,
        };
        let hi = E::NRows(m.clone());
        let pat: Pat = syn::parse_quote!(row_index__);
        let body = (*f.body).clone();
        self.row_loop(&pat, &Item::Index, E::Int(0), hi, false, out, c, |l, b| {
            for j in 0..cols {
                let iv = l.get("row_index__").unwrap();
                let B::Var(ivn, _, _) = iv.clone() else { unreachable!() };
                l.scopes.push(HashMap::from([(jname.clone(), B::Const(j))]));
                if let Some(i) = &iname {
                    l.bind(i, iv);
                }
                let x = l.of(&body, K::Val, b);
                l.scopes.pop();
                b.push(S::MatSet(mm.clone(), E::Var(ivn, K::Int), E::Int(j), x?));
            }
            Ok(())
        })?;
        Ok(V::Mat(m))
    }

    fn names_batch(&self, e: &Expr) -> bool {
        match e {
            Expr::Reference(r) => self.names_batch(&r.expr),
            Expr::Paren(r) => self.names_batch(&r.expr),
            Expr::Unary(r) => self.names_batch(&r.expr),
            Expr::Path(p) => {
                let s = p.to_token_stream().to_string();
                (s == "self" && self.self_bun.is_some()) || matches!(self.get(&s), Some(B::Mat(_) | B::Bun(..)))
            }
            Expr::Field(f) => f.member.to_token_stream().to_string() == "data" && self.names_batch(&f.base),
            Expr::MethodCall(m) => {
                matches!(m.method.to_string().as_str(), "clone" | "as_ref" | "clone_owned" | "into_owned") && self.names_batch(&m.receiver)
            }
            _ => false,
        }
    }

    /// A helper of the crate that takes a batch: its body in place of the call.
    fn inline(&mut self, name: &str, recv: Option<&Expr>, args: &[&Expr], out: &mut Vec<S>) -> R<Option<V>> {
        let fs: Vec<&Cand> = self.all.iter().filter(|c| c.sig.ident == name).collect();
        if fs.len() != 1 || self.depth >= 4 {
            return Ok(None);
        }
        let f = fs[0];
        let mut vals = vec![];
        for a in recv.into_iter().chain(args.iter().copied()) {
            vals.push((self.expr(a, out)?, a));
        }
        if vals.len() != f.sig.inputs.len() {
            return Ok(None);
        }
        let saved = (std::mem::take(&mut self.scopes), self.self_bun.take(), self.c);
        self.scopes.push(HashMap::new());
        self.depth += 1;
        let r = (|| {
            for ((v, a), p) in vals.into_iter().zip(&f.sig.inputs) {
                match p {
                    FnArg::Receiver(_) => match v {
                        V::E(E::Var(n, k)) => self.bind("self", B::Var(n, k, false)),
                        V::E(x) => {
                            let n = self.fresh("self");
                            let k = x.kind();
                            out.push(S::Let(n.clone(), x));
                            self.live.push((n.clone(), Some(k)));
                            self.bind("self", B::Var(n, k, false));
                        }
                        V::Bun(m, Some(E::Var(b, _))) => self.self_bun = Some((m, b)),
                        V::Bun(m, None) => self.bind("self", B::Bun(m, None)),
                        V::Mat(m) => self.bind("self", B::Mat(m)),
                        _ => return self.un("receiver", a),
                    },
                    FnArg::Typed(t) => {
                        let Pat::Ident(id) = &*t.pat else { return self.un("parameter pattern", &t.pat) };
                        if let (Type::Reference(r), V::E(_)) = (&*t.ty, &v) {
                            if r.mutability.is_some() {
                                return self.un("mutable argument", a);
                            }
                        }
                        self.let_var(id, v, a, out)?;
                    }
                }
            }
            self.c = f;
            let mut b = f.block.clone();
            if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last().cloned() {
                if let Some(e) = r.expr {
                    b.stmts.pop();
                    b.stmts.push(Stmt::Expr(*e, None));
                }
            }
            if contains_return(&b) && !(self.reduce && !contains_explicit_return(&b)) {
                return Err(format!("return inside the helper {name}"));
            }
            let n = b.stmts.len();
            let tries = self.tries.len();
            let unit = matches!(f.sig.output, syn::ReturnType::Default);
            if unit {
                self.stmts(&b.stmts, out)?;
                Ok(V::Unit)
            } else {
                self.stmts(&b.stmts[..n - 1], out)?;
                let v = match &b.stmts[n - 1] {
                    Stmt::Expr(e, None) => self.expr(e, out)?,
                    s => return self.un("helper", s),
                };
                // `?` in the helper returns from the helper
                let ts: Vec<String> = self.tries.drain(tries..).collect();
                let mut v = v;
                for t in ts.into_iter().rev() {
                    let V::E(x) = v else { return self.un("helper", &b.stmts[n - 1]) };
                    let t = E::Var(t, K::Val);
                    let c = E::Op("is_err".into(), vec![t.clone()], K::Bool);
                    let e = E::Op("err_of".into(), vec![t], K::Val);
                    v = V::E(E::If(Box::new(c), vec![], Box::new(e), vec![], Box::new(x)));
                }
                Ok(v)
            }
        })();
        self.depth -= 1;
        self.scopes = saved.0;
        self.self_bun = saved.1;
        self.c = saved.2;
        r.map(Some)
    }

    fn ret(&mut self, e: &Expr, shape: &Shape, out: &mut Vec<S>) -> R<Tail> {
        let v = self.expr(e, out)?;
        if shape.reduce {
            return match v {
                V::E(x) if x.kind() == K::Val => Ok(Tail::Val(x)),
                _ => self.un("returned value", e),
            };
        }
        Ok(match (v, shape.ret) {
            (V::Bun(m, bt), TK::Bun(_)) => Tail::Ret(m, bt),
            (V::Mat(m), TK::Mat(_)) => Tail::Ret(m, None),
            (v @ V::NewMat(_), TK::Mat(_)) => Tail::Ret(self.named(v, "ret", e, out)?, None),
            _ => return self.un("returned value", e),
        })
    }

    fn body(&mut self, ss: &[Stmt], shape: &Shape) -> R<(Vec<S>, Tail)> {
        let mut out = vec![];
        for (i, s) in ss.iter().enumerate() {
            if let Some(t) = self.tries.pop() {
                let t = E::Var(t, K::Val);
                let c = E::Op("is_err".into(), vec![t.clone()], K::Bool);
                let e = Tail::Val(E::Op("err_of".into(), vec![t], K::Val));
                if !self.tries.is_empty() {
                    return self.un("two `?` in one statement", s);
                }
                let rest = self.body(&ss[i..], shape)?;
                return Ok((out, Tail::If(c, Box::new((vec![], e)), Box::new(rest))));
            }
            let last = i + 1 == ss.len();
            match s {
                Stmt::Expr(Expr::Return(r), _) => {
                    let Some(e) = &r.expr else { return self.un("return", s) };
                    let t = self.ret(e, shape, &mut out)?;
                    return Ok((out, t));
                }
                Stmt::Expr(Expr::If(f), semi) if (last && semi.is_none()) || ends_in_return(&f.then_branch) => {
                    let c = self.cond(&f.cond, &mut out)?;
                    let live = self.live.len();
                    self.scopes.push(HashMap::new());
                    let a = self.body(&f.then_branch.stmts, shape)?;
                    self.scopes.pop();
                    self.live.truncate(live);
                    self.scopes.push(HashMap::new());
                    let b = match &f.else_branch {
                        None => self.body(&ss[i + 1..], shape)?,
                        Some((_, x)) if last => match &**x {
                            Expr::Block(b) => self.body(&b.block.stmts, shape)?,
                            x => self.body(&[Stmt::Expr(x.clone(), None)], shape)?,
                        },
                        _ => return self.un("if/else with a return", f),
                    };
                    self.scopes.pop();
                    self.live.truncate(live);
                    return Ok((out, Tail::If(c, Box::new(a), Box::new(b))));
                }
                Stmt::Expr(e, None) if last => {
                    let t = self.ret(e, shape, &mut out)?;
                    if !self.tries.is_empty() {
                        return self.un("`?` in the result", s);
                    }
                    return Ok((out, t));
                }
                Stmt::Expr(Expr::While(w), _) => {
                    let k = self.while_loop(&ss[..i], w)?;
                    self.for_loop(&k, &mut out)?;
                }
                s => self.stmt(s, &mut out)?,
            }
        }
        Err("no result".into())
    }
}

fn zip(its: Vec<It>) -> It {
    let mut n: Option<E> = None;
    let mut items = vec![];
    for i in its {
        items.push(i.item);
        n = match (n, i.n) {
            (Some(a), Some(b)) => {
                let c = E::Cmp("<".into(), Box::new(a.clone()), Box::new(b.clone()));
                Some(E::If(Box::new(c), vec![], Box::new(a), vec![], Box::new(b)))
            }
            (a, b) => a.or(b),
        };
    }
    It { item: Item::Tup(items), n }
}

fn contains_try(e: &Expr) -> bool {
    let b: syn::Block = syn::parse_quote!({ #e });
    contains_return(&b)
}
fn contains_explicit_return(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// `($a:frag, $b:frag) => {{ body }}` applied to comma-separated tokens
fn expand_rule(def: proc_macro2::TokenStream, args: proc_macro2::TokenStream) -> Option<proc_macro2::TokenStream> {
    use proc_macro2::{Delimiter, Group, TokenStream, TokenTree as T};
    let d: Vec<T> = def.into_iter().collect();
    let (T::Group(pat), T::Group(body)) = (d.first()?, d.get(3)?) else { return None };
    // one rule only
    if d.len() > 5 || d[4..].iter().any(|t| !matches!(t, T::Punct(p) if p.as_char() == ';')) {
        return None;
    }
    let p: Vec<T> = pat.stream().into_iter().collect();
    let mut names = vec![];
    let mut i = 0;
    while i < p.len() {
        match (&p[i], p.get(i + 1)?, p.get(i + 2)?, p.get(i + 3)?) {
            (T::Punct(a), T::Ident(n), T::Punct(c), T::Ident(_)) if a.as_char() == '$' && c.as_char() == ':' => names.push(n.to_string()),
            _ => return None,
        }
        i += 4;
        match p.get(i) {
            None => {}
            Some(T::Punct(c)) if c.as_char() == ',' => i += 1,
            _ => return None,
        }
    }
    let mut vals = vec![TokenStream::new()];
    for t in args {
        match &t {
            T::Punct(c) if c.as_char() == ',' => vals.push(TokenStream::new()),
            _ => vals.last_mut().unwrap().extend([t]),
        }
    }
    if vals.last().unwrap().is_empty() {
        vals.pop();
    }
    // commas inside type arguments are not understood
    if vals.len() != names.len() {
        return None;
    }
    fn sub(b: TokenStream, names: &[String], vals: &[TokenStream]) -> Option<TokenStream> {
        let b: Vec<T> = b.into_iter().collect();
        let mut o = TokenStream::new();
        let mut i = 0;
        while i < b.len() {
            match &b[i] {
                T::Punct(p) if p.as_char() == '$' => {
                    let T::Ident(n) = b.get(i + 1)? else { return None };
                    let k = names.iter().position(|x| *n == x.as_str())?;
                    let v = vals[k].clone();
                    let single = v.clone().into_iter().count() == 1;
                    if single {
                        o.extend(v);
                    } else {
                        o.extend([T::Group(Group::new(Delimiter::Parenthesis, v))]);
                    }
                    i += 2;
                }
                T::Group(g) => {
                    let s = sub(g.stream(), names, vals)?;
                    o.extend([T::Group(Group::new(g.delimiter(), s))]);
                    i += 1;
                }
                t => {
                    o.extend([t.clone()]);
                    i += 1;
                }
            }
        }
        Some(o)
    }
    sub(body.stream(), &names, &vals)
}

fn ends_in_continue(b: &syn::Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none())
}
fn ends_in_return(b: &syn::Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

pub fn lower<'a>(c: &'a Cand, all: &'a [Cand], macros: &'a [(String, proc_macro2::TokenStream)], shape: &Shape) -> R<Func> {
    let mut l = Lw {
        c,
        scopes: vec![HashMap::new()],
        live: vec![],
        n: 0,
        loops: 0,
        mat_in: String::new(),
        cols_in: 0,
        self_bun: None,
        all,
        depth: 0,
        in_loop: false,
        cols: HashMap::new(),
        rowvec: vec![],
        rays: None,
        reduce: shape.reduce,
        tries: vec![],
        macros,
        closures: vec![],
    };
    let mut params = vec![];
    for a in &c.sig.inputs {
        let (name, k, mutbl) = match a {
            FnArg::Receiver(_) => ("self".to_string(), bun_cols(&c.owner).map_or(TK::S(K::Val), TK::Bun), false),
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => (i.ident.to_string(), type_kind(&t.ty, c), i.mutability.is_some()),
                _ => return Err("parameter pattern".into()),
            },
        };
        if let FnArg::Typed(t) = a {
            if let Type::Reference(r) = &*t.ty {
                if r.mutability.is_some() {
                    return Err(format!("mutable parameter {name}"));
                }
            }
        }
        let p = if name == "self" { "this".to_string() } else { format!("p_{name}") };
        match k {
            TK::S(k) => {
                params.push((p.clone(), k));
                l.live.push((p.clone(), Some(k)));
                l.bind(&name, B::Var(p, k, mutbl));
            }
            TK::Mat(cols) | TK::Bun(cols) => {
                if !l.mat_in.is_empty() {
                    return Err("two batch parameters".into());
                }
                let d = format!("{p}_data");
                l.mat_in = d.clone();
                l.cols_in = cols;
                l.cols.insert(d.clone(), cols as i128);
                l.live.push((d.clone(), None));
                if matches!(k, TK::Bun(_)) {
                    let b = format!("{p}_bt");
                    params.push((b.clone(), K::Val));
                    l.live.push((b.clone(), Some(K::Val)));
                    if name == "self" {
                        l.self_bun = Some((d, b));
                    } else {
                        l.bind(&name, B::Bun(d, Some(E::Var(b, K::Val))));
                    }
                } else {
                    l.bind(&name, B::Mat(d));
                }
            }
            TK::Rays => {
                if !l.mat_in.is_empty() {
                    return Err("two batch parameters".into());
                }
                l.mat_in = p.clone();
                l.cols_in = 2;
                l.rays = Some(p.clone());
                l.live.push((p.clone(), None));
                l.bind(&name, B::Mat(p));
            }
            TK::Unit => {}
        }
    }
    if shape.reduce && l.rays.is_none() {
        return Err("no rays".into());
    }
    let (body, tail) = l.body(&c.block.stmts, shape)?;
    let cols_out = match shape.ret {
        TK::Mat(k) | TK::Bun(k) => k,
        _ => 0,
    };
    let owner = if c.owner.is_empty() { String::new() } else { format!("{}::", c.owner) };
    Ok(Func {
        name: format!("{owner}{}", c.sig.ident),
        line: format!("{}:{}", c.file, c.line),
        params,
        mat: l.mat_in.clone(),
        cols_in: l.cols_in,
        cols_out,
        has_bt: has_bt(&tail),
        closures: l.closures,
        body,
        tail,
    })
}

fn has_bt(t: &Tail) -> bool {
    match t {
        Tail::Ret(_, b) => b.is_some(),
        Tail::Val(_) => false,
        Tail::If(_, a, b) => has_bt(&a.1) || has_bt(&b.1),
    }
}
