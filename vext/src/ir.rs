//! The extracted program: scalars are opaque values, matrices are sequences of
//! rows, a batch (Points, Pixels, RayBundle) is its data matrix and, for ray
//! bundles, its bundle type.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Val,
    Int,
    Bool,
}

#[derive(Clone, Debug)]
pub enum E {
    Var(String, K),
    Int(i128),
    Bool(bool),
    /// element (row, column) of a matrix
    At(String, Box<E>, Box<E>),
    /// a whole row of a matrix as a value
    RowVal(String, Box<E>),
    NRows(String),
    /// pure operation of the scalar world, identified by its name
    Op(String, Vec<E>, K),
    IntBin(String, Box<E>, Box<E>),
    Cmp(String, Box<E>, Box<E>),
    And(Box<E>, Box<E>),
    Or(Box<E>, Box<E>),
    Not(Box<E>),
    If(Box<E>, Vec<S>, Box<E>, Vec<S>, Box<E>),
}

impl E {
    pub fn kind(&self) -> K {
        match self {
            E::Var(_, k) => *k,
            E::Int(_) | E::NRows(_) | E::IntBin(..) => K::Int,
            E::Bool(_) | E::Cmp(..) | E::And(..) | E::Or(..) | E::Not(_) => K::Bool,
            E::At(..) | E::RowVal(..) => K::Val,
            E::Op(_, _, k) => *k,
            E::If(_, _, a, _, _) => a.kind(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum M {
    Zeros(E, E),
    /// 1 x n in the code
    ZerosT(E),
    Fill(E, E, E),
    Copy(String),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub name: String,
    pub args: Vec<E>,
    pub src: String,
    pub cols_in: usize,
    pub cols_out: usize,
    pub mat: String,
    pub bt: String,
}

#[derive(Clone, Debug)]
pub enum S {
    Let(String, E),
    Set(String, E),
    LetMat(String, M),
    SetMat(String, M),
    MatSet(String, E, E, E),
    MatSetRow(String, E, E),
    Call(Call),
    If(E, Vec<S>, Vec<S>),
    For { id: usize, var: String, lo: E, hi: E, rev: bool, body: Vec<S>, scope: Vec<(String, Option<K>)> },
}

#[derive(Clone, Debug)]
pub enum Tail {
    Ret(String, Option<E>),
    /// a function of all rows that returns a value
    Val(E),
    If(E, Box<(Vec<S>, Tail)>, Box<(Vec<S>, Tail)>),
}

#[derive(Clone, Debug)]
pub struct Closure {
    pub name: String,
    pub param: String,
    pub caps: Vec<(String, K)>,
    pub body: Vec<S>,
    pub value: E,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub line: String,
    /// scalar parameters
    pub params: Vec<(String, K)>,
    pub mat: String,
    pub cols_in: usize,
    pub cols_out: usize,
    pub body: Vec<S>,
    pub tail: Tail,
    pub has_bt: bool,
    /// closures over scalars, by the name of the operation that stands for them
    pub closures: Vec<Closure>,
}

/// Variables of the enclosing scope that a block may change.
pub fn modified(b: &[S], out: &mut Vec<String>) {
    let mut local: Vec<&String> = vec![];
    for s in b {
        let mut inner = vec![];
        match s {
            S::Set(n, _) | S::SetMat(n, _) | S::MatSet(n, ..) | S::MatSetRow(n, ..) => inner.push(n.clone()),
            S::Let(n, _) | S::LetMat(n, _) => local.push(n),
            S::Call(c) => {
                local.push(&c.mat);
                local.push(&c.bt);
            }
            S::If(_, a, b) => {
                modified(a, &mut inner);
                modified(b, &mut inner);
            }
            S::For { body, .. } => modified(body, &mut inner),
        }
        for n in inner {
            if !local.contains(&&n) && !out.contains(&n) {
                out.push(n)
            }
        }
    }
}
