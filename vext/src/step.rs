//! `num_iter::range_step` and `RangeStep::next` at `usize`, from the source of the
//! crate the build uses, as a Verus file. Rewritten: the type parameter is `usize`,
//! `.clone()` of a field is the field, `Zero::zero()` is `0`, and `checked_add(&x)`
//! of num-traits is that of `usize`.
use quote::ToTokens;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Expr, ImplItem, Item};

struct R(Option<String>);
impl VisitMut for R {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(c) => match c.method.to_string().as_str() {
                "clone" if c.args.is_empty() && matches!(&*c.receiver, Expr::Field(_)) => *e = (*c.receiver).clone(),
                "checked_add" if c.args.len() == 1 => match &c.args[0] {
                    Expr::Reference(r) => {
                        let (x, y) = (&c.receiver, &r.expr);
                        *e = parse_quote!(#x.checked_add(#y))
                    }
                    _ => self.0 = Some("checked_add".into()),
                },
                m => self.0 = Some(format!("method {m}")),
            },
            Expr::Call(c) => match c.func.to_token_stream().to_string().replace(' ', "").as_str() {
                "Zero::zero" => *e = parse_quote!(0usize),
                "Some" => {}
                f => self.0 = Some(format!("call {f}")),
            },
            Expr::Macro(_) | Expr::Unsafe(_) | Expr::Closure(_) => self.0 = Some("expression".into()),
            _ => {}
        }
    }
}

pub fn text(src: &str) -> Result<String, String> {
    let f = syn::parse_file(src).map_err(|e| e.to_string())?;
    let (mut make, mut next, mut fields) = (None, None, None);
    for i in &f.items {
        match i {
            Item::Fn(f) if f.sig.ident == "range_step" => make = Some((*f.block).clone()),
            Item::Struct(s) if s.ident == "RangeStep" => {
                fields = Some(s.fields.iter().map(|f| format!("{}:{}", f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), f.ty.to_token_stream())).collect::<Vec<_>>())
            }
            Item::Impl(m) if m.self_ty.to_token_stream().to_string().replace(' ', "") == "RangeStep<A>"
                && m.trait_.as_ref().map_or(false, |t| t.1.segments.last().unwrap().ident == "Iterator") =>
            {
                for x in &m.items {
                    if let ImplItem::Fn(f) = x {
                        if f.sig.ident == "next" {
                            next = Some(f.block.clone())
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let (Some(mut make), Some(mut next), Some(fields)) = (make, next, fields) else { return Err("range_step not found".into()) };
    if fields != ["state:A", "stop:A", "step:A", "rev:bool"] {
        return Err(format!("fields {fields:?}"));
    }
    let mut r = R(None);
    r.visit_block_mut(&mut make);
    r.visit_block_mut(&mut next);
    if let Some(w) = r.0 {
        return Err(w);
    }
    Ok(format!(
        "#![allow(unused_imports)]
use vstd::prelude::*;
verus! {{
pub struct RangeStep {{ state: usize, stop: usize, step: usize, rev: bool }}
fn range_step(start: usize, stop: usize, step: usize) -> (r: RangeStep)
    ensures r.state == start, r.stop == stop, r.step == step, !r.rev
{}
impl RangeStep {{
    fn next(&mut self) -> (r: Option<usize>)
        requires !old(self).rev
        ensures !final(self).rev, final(self).stop == old(self).stop, final(self).step == old(self).step,
            old(self).state >= old(self).stop ==> r.is_none() && final(self).state == old(self).state,
            old(self).state < old(self).stop ==> r == Some(old(self).state)
                && (old(self).state + old(self).step <= usize::MAX ==> final(self).state == old(self).state + old(self).step)
                && (old(self).state + old(self).step > usize::MAX ==> final(self).state == old(self).stop),
    {}
}}
/// what a loop over the range sees: lo, lo + s, ... below hi, each once, in order, and then it ends
fn seen(lo: usize, hi: usize, s: usize) -> (v: Vec<usize>)
    requires s > 0
    ensures forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]) == lo + k * s && v[k] < hi,
        lo + v.len() * s >= hi,
{{
    let mut it = range_step(lo, hi, s);
    let mut v: Vec<usize> = Vec::new();
    let mut x = it.next();
    proof {{ assert(v.len() * s == 0) by (nonlinear_arith) requires v.len() == 0; }}
    while x.is_some()
        invariant !it.rev, it.stop == hi, it.step == s, s > 0,
            forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]) == lo + k * s && v[k] < hi,
            x.is_some() ==> x.unwrap() == lo + v.len() * s && x.unwrap() < hi
                && (it.state == x.unwrap() + s || x.unwrap() + s > usize::MAX && it.state == hi),
            x.is_none() ==> lo + v.len() * s >= hi,
        decreases (if x.is_some() {{ 1int + hi - x.unwrap() }} else {{ 0int }})
    {{
        let y = x.unwrap();
        proof {{
            assert((v.len() + 1) * s == v.len() * s + s) by (nonlinear_arith);
        }}
        v.push(y);
        x = it.next();
    }}
    v
}}
}}
fn main() {{}}
",
        make.to_token_stream(),
        next.to_token_stream()
    ))
}
