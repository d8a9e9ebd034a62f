//! The hand-written deserialization visitors as Verus functions: `visit_map`
//! and `visit_seq`, statement by statement, over an access whose contract gives
//! the events of any input (keys in any order and number, values that may fail).
//! Rewritten: `while let Some(k) = map.next_key()?` to a `while` over the key,
//! error constructors to one error value, the final constructor to an opaque
//! function, `ok_or_else(|| e)` to `ok_or(e)`; types of `let`s are dropped.
use quote::ToTokens;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Expr, ImplItem, Item, Pat, Stmt};

pub struct Out {
    pub id: String,
    pub file: String,
    pub line: usize,
    pub owner: String,
    pub fun: String,
    pub text: Result<String, String>,
}

/// the key type of a visitor: variant, key (none: any unknown key)
#[derive(Clone)]
struct Keys {
    name: String,
    variants: Vec<(String, Option<String>)>,
}

struct Find<'a> {
    file: &'a str,
    out: Vec<Out>,
    fields: Vec<Keys>,
    test: bool,
}

fn squeeze(t: &dyn ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

impl<'a, 'b> Visit<'b> for Find<'a> {
    fn visit_item_mod(&mut self, m: &'b syn::ItemMod) {
        if !crate::is_test(&m.attrs) {
            syn::visit::visit_item_mod(self, m)
        }
    }
    fn visit_block(&mut self, b: &'b syn::Block) {
        let n = self.fields.len();
        for s in &b.stmts {
            if let Stmt::Item(Item::Enum(e)) = s {
                self.field_enum(e)
            }
        }
        syn::visit::visit_block(self, b);
        self.fields.truncate(n);
    }
    fn visit_file(&mut self, f: &'b syn::File) {
        for i in &f.items {
            if let Item::Enum(e) = i {
                self.field_enum(e)
            }
        }
        syn::visit::visit_file(self, f)
    }
    fn visit_item_impl(&mut self, i: &'b syn::ItemImpl) {
        if crate::is_test(&i.attrs) || self.test {
            return;
        }
        if let Some((_, path, _)) = &i.trait_ {
            if path.segments.last().unwrap().ident == "Visitor" {
                let mut value = squeeze(&i.self_ty);
                for x in &i.items {
                    if let ImplItem::Type(t) = x {
                        if t.ident == "Value" {
                            value = squeeze(&t.ty)
                        }
                    }
                }
                let owner = value.split('<').next().unwrap().rsplit("::").next().unwrap().to_string();
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        let n = f.sig.ident.to_string();
                        if n == "visit_map" || n == "visit_seq" {
                            let text = match wanted(&owner) {
                                Some(w) => translate(f, &w.iter().map(|x| x.to_string()).collect::<Vec<_>>(), &[], &self.fields, true),
                                None => Err("no contract for this visitor".into()),
                            };
                            self.out.push(Out {
                                id: format!("{owner}__{n}"),
                                file: self.file.into(),
                                line: f.sig.ident.span().start().line,
                                owner: owner.clone(),
                                fun: n,
                                text,
                            })
                        }
                    }
                }
            }
        }
        syn::visit::visit_item_impl(self, i)
    }
}

impl<'a> Find<'a> {
    fn field_enum(&mut self, e: &syn::ItemEnum) {
        let a: String = e.attrs.iter().map(|a| squeeze(a)).collect();
        if !a.contains("field_identifier") || !a.contains("rename_all=\"lowercase\"") {
            return;
        }
        let mut v = vec![];
        for x in &e.variants {
            let a: String = x.attrs.iter().map(|a| squeeze(a)).collect();
            if !a.is_empty() && !a.contains("other") {
                return;
            }
            let n = x.ident.to_string();
            let k = (!a.contains("other")).then(|| n.to_lowercase());
            v.push((n, k))
        }
        self.fields.push(Keys { name: e.ident.to_string(), variants: v })
    }
}

/// the fields of each type, in the order of its constructor's arguments
fn wanted(owner: &str) -> Option<&'static [&'static str]> {
    match owner {
        "ExtrinsicParameters" => Some(&["rquat", "camcenter"]),
        "IntrinsicParametersPerspective" => Some(&["params"]),
        _ => None,
    }
}

struct Rewrite {
    bad: Option<String>,
    /// fields in the order of the constructor's arguments, for a struct literal
    order: Vec<String>,
}
impl VisitMut for Rewrite {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let l = p.segments.last().unwrap().ident.clone();
        if p.segments.len() > 1 && ["Some", "None", "Ok", "Err"].contains(&l.to_string().as_str()) {
            *p = l.into()
        }
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if let Pat::Type(t) = &l.pat {
            l.pat = (*t.pat).clone()
        }
        syn::visit_mut::visit_local_mut(self, l)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                let p = squeeze(&c.func);
                let last = p.split("::<").next().unwrap().rsplit("::").next().unwrap().to_string();
                if p.contains("::") {
                    let arg = c.args.first().map(|a| squeeze(a)).unwrap_or_default();
                    let of = arg.strip_prefix("&mut").or(arg.strip_prefix('&')).and_then(|a| syn::parse_str::<syn::Ident>(a).ok());
                    match (last.as_str(), c.args.len(), of) {
                        ("next_key" | "next_value" | "next_element", 1, Some(a)) if arg.starts_with("&mut") => {
                            let m = syn::Ident::new(&last, a.span());
                            *e = parse_quote!(#a.#m());
                            return;
                        }
                        ("is_some" | "is_none", 1, Some(a)) => {
                            let m = syn::Ident::new(&last, a.span());
                            *e = parse_quote!(#a.#m());
                            return;
                        }
                        ("default", 0, _) => {
                            *e = parse_quote!(any_value());
                            return;
                        }
                        _ => {}
                    }
                    if p.ends_with("de::missing_field") {
                        *e = parse_quote!(missing());
                        return;
                    }
                    if p.contains("Error>::") {
                        *e = parse_quote!(err());
                        return;
                    }
                }
                if p.contains("Error::") {
                    *e = parse_quote!(err());
                    return;
                }
                match p.as_str() {
                    "Some" | "Ok" | "Err" | "ok_or" | "err" | "ctor" | "missing" | "any_value" => {}
                    "Result::Ok" | "std::result::Result::Ok" => c.func = parse_quote!(Ok),
                    "Result::Err" | "std::result::Result::Err" => c.func = parse_quote!(Err),
                    "Option::Some" => c.func = parse_quote!(Some),
                    _ => c.func = parse_quote!(ctor),
                }
            }
            Expr::MethodCall(c) => {
                c.turbofish = None;
                let n = c.method.to_string();
                let r = &c.receiver;
                match n.as_str() {
                    "ok_or_else" => {
                        if let Some(Expr::Closure(k)) = c.args.first() {
                            if k.inputs.is_empty() && squeeze(&k.body) == "err()" {
                                *e = parse_quote!(ok_or(#r));
                                return;
                            }
                        }
                        self.bad = Some("ok_or_else".into())
                    }
                    "ok_or" if c.args.first().map_or(false, |a| squeeze(a) == "err()") => *e = parse_quote!(ok_or(#r)),
                    "replace" if c.args.len() == 1 => {
                        let a = &c.args[0];
                        *e = parse_quote!(replace(&mut #r, #a))
                    }
                    "into" => *e = parse_quote!(ctor(#r)),
                    "is_some" | "is_none" | "next_key" | "next_value" | "next_element" | "unwrap" | "take" => {}
                    _ => self.bad = Some(format!("method {n}")),
                }
            }
            Expr::Closure(_) => {}
            Expr::Struct(x) => {
                let mut a = vec![];
                for f in &self.order {
                    match x.fields.iter().find(|v| squeeze(&v.member) == *f) {
                        Some(v) => a.push(v.expr.clone()),
                        None => self.bad = Some("struct literal".into()),
                    }
                }
                if x.rest.is_some() || self.order.is_empty() || x.fields.len() != a.len() {
                    self.bad = Some("struct literal".into());
                    return;
                }
                *e = parse_quote!(ctor(#(#a),*))
            }
            Expr::Macro(m) => self.bad = Some(format!("macro {}", squeeze(&m.mac.path))),
            Expr::Continue(_) | Expr::Break(_) => self.bad = Some("break or continue".into()),
            _ => {}
        }
    }
}

const PRELUDE: &str = "\
#![allow(unused_imports, non_camel_case_types, unused_variables, unused_mut)]
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct V { x: u64 }
#[verifier::external_body]
pub struct Er { x: u64 }
#[verifier::external_body]
fn err() -> Er { unimplemented!() }
fn ok_or<T>(o: Option<T>) -> (r: Result<T, Er>)
    ensures o.is_some() ==> r == Ok::<T, Er>(o.unwrap()), o.is_none() ==> r.is_err()
{ match o { Some(x) => Ok(x), None => Err(err()) } }
#[verifier::external_body]
fn missing() -> (r: Result<V, Er>) ensures r.is_err() { unimplemented!() }
#[verifier::external_body]
fn any_value() -> V { unimplemented!() }
#[verifier::external_body]
fn replace(o: &mut Option<V>, v: V) -> (r: Option<V>)
    ensures r == *old(o), *final(o) == Some(v)
{ unimplemented!() }
";

fn assigned(b: &syn::Block, field: &str) -> Vec<(String, String)> {
    // (variant, variable) for every arm that stores a value
    struct A {
        field: String,
        arm: Vec<String>,
        out: Vec<(String, String)>,
    }
    impl<'b> Visit<'b> for A {
        fn visit_arm(&mut self, a: &'b syn::Arm) {
            let p = squeeze(&a.pat);
            let v = p.strip_prefix(&format!("{}::", self.field)).map(|s| s.to_string());
            if let Some(v) = &v {
                self.arm.push(v.clone())
            }
            syn::visit::visit_arm(self, a);
            if v.is_some() {
                self.arm.pop();
            }
        }
        fn visit_expr_assign(&mut self, a: &'b syn::ExprAssign) {
            if let Some(v) = self.arm.last() {
                self.out.push((v.clone(), squeeze(&a.left)))
            }
            syn::visit::visit_expr_assign(self, a)
        }
        fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
            if squeeze(&c.func) == "replace" {
                if let Some(v) = self.arm.last() {
                    self.out.push((v.clone(), squeeze(&c.args[0]).trim_start_matches("&mut").to_string()))
                }
            }
            syn::visit::visit_expr_call(self, c)
        }
    }
    let mut a = A { field: field.into(), arm: vec![], out: vec![] };
    a.visit_block(b);
    a.out.sort();
    a.out.dedup();
    a.out
}

/// `want`: the keys, in the order of the constructor's arguments; `order`: the
/// members of the struct, in the same order; `strict`: unknown keys are refused
fn translate(f: &syn::ImplItemFn, want: &[String], order: &[String], fields: &[Keys], strict: bool) -> Result<String, String> {
    let acc = match f.sig.inputs.iter().nth(1) {
        Some(syn::FnArg::Typed(t)) => match &*t.pat {
            Pat::Ident(i) => i.ident.to_string(),
            _ => return Err("argument".into()),
        },
        _ => return Err("argument".into()),
    };
    let mut body = f.block.clone();
    let mut rw = Rewrite { bad: None, order: order.to_vec() };
    rw.visit_block_mut(&mut body);
    if let Some(b) = rw.bad {
        return Err(b);
    }
    let mut o = String::from(PRELUDE);
    let args = |n: usize, t: &str| (0..n).map(|i| format!("a{i}: {t}")).collect::<Vec<_>>().join(", ");
    let n = want.len();
    o += &format!(
        "#[verifier::external_body]\npub struct Out {{ x: u64 }}\npub uninterp spec fn made({}) -> Out;\n#[verifier::external_body]\nfn ctor({}) -> (r: Out) ensures r == made({}) {{ unimplemented!() }}\n",
        args(n, "V"),
        args(n, "V"),
        (0..n).map(|i| format!("a{i}")).collect::<Vec<_>>().join(", ")
    );
    if f.sig.ident == "visit_seq" {
        o += "pub ghost struct Item { pub ok: bool, pub val: V }
#[verifier::external_body]
pub struct Access { x: u64 }
impl Access {
    pub uninterp spec fn items(&self) -> Seq<Item>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn next_element(&mut self) -> (r: Result<Option<V>, Er>)
        requires 0 <= old(self).pos() <= old(self).items().len()
        ensures final(self).items() == old(self).items(),
            old(self).pos() == old(self).items().len() ==> r == Ok::<Option<V>, Er>(None) && final(self).pos() == old(self).pos(),
            old(self).pos() < old(self).items().len() && !old(self).items()[old(self).pos()].ok ==> r.is_err(),
            old(self).pos() < old(self).items().len() && old(self).items()[old(self).pos()].ok ==>
                r == Ok::<Option<V>, Er>(Some(old(self).items()[old(self).pos()].val)) && final(self).pos() == old(self).pos() + 1,
    { unimplemented!() }
}
";
        let oks: Vec<String> = (0..n).map(|i| format!("{acc}0@[{i}].ok")).collect();
        let vals: Vec<String> = (0..n).map(|i| format!("{acc}0@[{i}].val")).collect();
        o += &format!(
            "fn extracted({acc}: Access, Ghost({acc}0): Ghost<Seq<Item>>) -> (result: Result<Out, Er>)\n    requires {acc}.pos() == 0, {acc}.items() == {acc}0\n    ensures result.is_ok() <==> {acc}0.len() >= {n} && {},\n        result.is_ok() ==> result == Ok::<Out, Er>(made({}))\n",
            oks.join(" && ").replace('@', ""),
            vals.join(", ").replace('@', "")
        );
        let b = body.stmts.iter().map(|s| s.to_token_stream().to_string()).collect::<Vec<_>>().join("\n    ");
        o += &format!("{{\n    let mut {acc} = {acc};\n    {b}\n}}\n}}\nfn main() {{}}\n");
        return Ok(o);
    }
    // visit_map
    let text = body.to_token_stream().to_string();
    let used: Vec<_> = fields.iter().filter(|k| text.contains(&format!("{} ::", k.name))).collect();
    let [Keys { name: field, variants }] = used[..] else { return Err("the key type is not known".into()) };
    let plain: Vec<String> = variants.iter().filter_map(|v| v.1.clone()).collect();
    let mut w = want.to_vec();
    w.sort();
    let mut p = plain.clone();
    p.sort();
    if w != p {
        return Err(format!("the keys are {plain:?}"));
    }
    let vars = assigned(&body, field);
    let of = |name: &str| -> Result<(String, String), String> {
        let v = &variants.iter().find(|v| v.1.as_deref() == Some(name)).unwrap().0;
        let m: Vec<_> = vars.iter().filter(|x| &x.0 == v).collect();
        match m[..] {
            [x] => Ok((v.clone(), x.1.clone())),
            _ => Err(format!("where the value of {name} is kept")),
        }
    };
    let fv: Vec<(String, String)> = want.iter().map(|n| of(n)).collect::<Result<_, _>>()?;
    o += &format!(
        "#[derive(PartialEq, Eq, Clone, Copy)]\npub enum {field} {{ {} }}\n",
        variants.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(", ")
    );
    o += &format!(
        "/// one entry of the input: a key (none: not a known field) and a value that may not parse
pub ghost struct Item {{ pub key: Option<{field}>, pub ok: bool, pub val: V }}
#[verifier::external_body]
pub struct Access {{ x: u64 }}
impl Access {{
    pub uninterp spec fn items(&self) -> Seq<Item>;
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn pending(&self) -> bool;
    #[verifier::external_body]
    fn next_key(&mut self) -> (r: Result<Option<{field}>, Er>)
        requires 0 <= old(self).pos() <= old(self).items().len(), !old(self).pending()
        ensures final(self).items() == old(self).items(), final(self).pos() == old(self).pos(),
            old(self).pos() == old(self).items().len() ==> r == Ok::<Option<{field}>, Er>(None) && !final(self).pending(),
            old(self).pos() < old(self).items().len() && old(self).items()[old(self).pos()].key.is_none() ==> r.is_err(),
            old(self).pos() < old(self).items().len() && old(self).items()[old(self).pos()].key.is_some() ==>
                r == Ok::<Option<{field}>, Er>(old(self).items()[old(self).pos()].key) && final(self).pending(),
    {{ unimplemented!() }}
    #[verifier::external_body]
    fn next_value(&mut self) -> (r: Result<V, Er>)
        requires old(self).pending(), 0 <= old(self).pos() < old(self).items().len()
        ensures final(self).items() == old(self).items(),
            !old(self).items()[old(self).pos()].ok ==> r.is_err(),
            old(self).items()[old(self).pos()].ok ==> r == Ok::<V, Er>(old(self).items()[old(self).pos()].val)
                && final(self).pos() == old(self).pos() + 1 && !final(self).pending(),
    {{ unimplemented!() }}
}}
pub open spec fn once(s: Seq<Item>, f: {field}) -> bool {{
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key == Some(f) && forall|j: int| 0 <= j < s.len() && (#[trigger] s[j]).key == Some(f) ==> j == i
}}
pub open spec fn value(s: Seq<Item>, f: {field}) -> V {{
    s[choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key == Some(f)].val
}}
/// every entry has a value that parses, and each field is there exactly once
pub open spec fn complete(s: Seq<Item>) -> bool {{
    (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok){}
}}
/// and every key is a known field
pub open spec fn well_formed(s: Seq<Item>) -> bool {{
    complete(s) && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).key.is_some(){})
}}
",
        fv.iter().map(|(v, _)| format!(" && once(s, {field}::{v})")).collect::<String>(),
        variants.iter().filter(|v| v.1.is_none()).map(|v| format!(" && s[i].key != Some({field}::{})", v.0)).collect::<String>(),
    );
    // the loop over the keys
    let mut count = 0;
    let mut stmts = vec![];
    for s in &body.stmts {
        if let Stmt::Expr(Expr::While(w), _) = s {
            if let Expr::Let(l) = &*w.cond {
                let pat = &l.pat;
                let cond = squeeze(&l.expr);
                let Pat::TupleStruct(ts) = &**pat else { return Err("loop".into()) };
                if cond != format!("{acc}.next_key()?") || squeeze(&ts.path) != "Some" || ts.elems.len() != 1 {
                    return Err("loop".into());
                }
                count += 1;
                let k = squeeze(&ts.elems[0]);
                let inv: String = fv
                    .iter()
                    .map(|(v, x)| {
                        format!(
                            "            forall|i: int| 0 <= i < {acc}.pos() && (#[trigger] {acc}0[i]).key == Some({field}::{v}) ==> {x} == Some({acc}0[i].val),
            {x}.is_some() ==> exists|i: int| 0 <= i < {acc}.pos() && (#[trigger] {acc}0[i]).key == Some({field}::{v}),
            forall|i: int, j: int| 0 <= i < {acc}.pos() && 0 <= j < {acc}.pos() && (#[trigger] {acc}0[i]).key == Some({field}::{v}) && (#[trigger] {acc}0[j]).key == Some({field}::{v}) ==> i == j,
"
                        )
                    })
                    .collect();
                let other: String = variants.iter().filter(|v| v.1.is_none() && strict).map(|v| format!(" && {acc}0[i].key != Some({field}::{})", v.0)).collect();
                stmts.push(format!(
                    "let mut the_key = {acc}.next_key()?;
    while the_key.is_some()
        invariant {acc}.items() == {acc}0, 0 <= {acc}.pos() <= {acc}0.len(),
            the_key.is_some() ==> {acc}.pos() < {acc}0.len() && {acc}.pending() && the_key == {acc}0[{acc}.pos()].key,
            the_key.is_none() ==> {acc}.pos() == {acc}0.len() && !{acc}.pending(),
            forall|i: int| 0 <= i < {acc}.pos() ==> (#[trigger] {acc}0[i]).key.is_some() && {acc}0[i].ok{other},
{inv}        decreases {acc}0.len() - {acc}.pos()
    {{
        let {k} = the_key.unwrap();
        proof {{ assert({acc}0[{acc}.pos()] == {acc}0[{acc}.pos()]); }}
        {{ {} }}
        the_key = {acc}.next_key()?;
    }}",
                    w.body.stmts.iter().map(|s| s.to_token_stream().to_string()).collect::<Vec<_>>().join("\n        ")
                ));
                continue;
            }
        }
        stmts.push(s.to_token_stream().to_string());
    }
    if count != 1 {
        return Err("not one loop over the keys".into());
    }
    o += &format!(
        "fn extracted({acc}: Access, Ghost({acc}0): Ghost<Seq<Item>>) -> (result: Result<Out, Er>)
    requires {acc}.pos() == 0, {acc}.items() == {acc}0, !{acc}.pending()
    ensures {},
        result.is_ok() ==> result == Ok::<Out, Er>(made({}))
{{
    let mut {acc} = {acc};
    {}
}}
}}
fn main() {{}}
",
        if strict { format!("result.is_ok() <==> well_formed({acc}0)") } else { format!("well_formed({acc}0) ==> result.is_ok(),\n        result.is_ok() ==> complete({acc}0)") },
        fv.iter().map(|(v, _)| format!("value({acc}0, {field}::{v})")).collect::<Vec<_>>().join(", "),
        stmts.join("\n    ")
    );
    Ok(o)
}

pub fn visitors(file: &str, f: &syn::File) -> Vec<Out> {
    let mut v = Find { file, out: vec![], fields: vec![], test: false };
    v.visit_file(f);
    v.out
}

/// The derived visitors, from the source with its derives expanded.
#[derive(Default)]
struct Derived {
    structs: Vec<(String, Vec<String>)>,
    /// type, (key, member) in the order they are written
    ser: Vec<(String, Result<Vec<(String, String)>, String>)>,
    de: Vec<(String, syn::Block)>,
}

fn path_end(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
        _ => None,
    }
}

impl<'b> Visit<'b> for Derived {
    fn visit_item_struct(&mut self, s: &'b syn::ItemStruct) {
        if let syn::Fields::Named(f) = &s.fields {
            self.structs.push((s.ident.to_string(), f.named.iter().map(|x| x.ident.as_ref().unwrap().to_string()).collect()))
        }
    }
    fn visit_item_impl(&mut self, i: &'b syn::ItemImpl) {
        let Some((_, path, _)) = &i.trait_ else { return };
        let (t, Some(ty)) = (path.segments.last().unwrap().ident.to_string(), path_end(&i.self_ty)) else { return };
        for x in &i.items {
            let ImplItem::Fn(f) = x else { continue };
            if t == "Deserialize" && f.sig.ident == "deserialize" {
                self.de.push((ty.clone(), f.block.clone()))
            }
            if t == "Serialize" && f.sig.ident == "serialize" {
                self.ser.push((ty.clone(), written(&f.block)))
            }
        }
    }
}

/// the keys a derived `serialize` writes, with the members they come from
fn written(b: &syn::Block) -> Result<Vec<(String, String)>, String> {
    struct W {
        out: Vec<(String, String)>,
        bad: Option<String>,
        start: usize,
    }
    impl<'b> Visit<'b> for W {
        fn visit_expr(&mut self, e: &'b Expr) {
            match e {
                Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_) | Expr::Return(_) => {
                    self.bad = Some("serialize does more than write its fields".into())
                }
                _ => {}
            }
            syn::visit::visit_expr(self, e)
        }
        fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
            let p = squeeze(&c.func);
            let last = p.rsplit("::").next().unwrap();
            match last {
                "serialize_struct" => self.start += 1,
                "end" => {}
                "serialize_field" if c.args.len() == 3 => {
                    let (k, v) = (&c.args[1], squeeze(&c.args[2]));
                    match (k, v.strip_prefix("&self.")) {
                        (Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(k), .. }), Some(v)) => self.out.push((k.value(), v.into())),
                        _ => self.bad = Some(format!("what is written: {v}")),
                    }
                }
                _ => self.bad = Some(format!("serialize calls {p}")),
            }
            syn::visit::visit_expr_call(self, c)
        }
        fn visit_expr_method_call(&mut self, c: &'b syn::ExprMethodCall) {
            self.bad = Some(format!("serialize calls {}", c.method))
        }
    }
    let mut w = W { out: vec![], bad: None, start: 0 };
    w.visit_block(b);
    match w.bad {
        Some(b) => Err(b),
        None if w.start != 1 => Err("not one struct written".into()),
        None => Ok(w.out),
    }
}

/// name or index of each key -> variant, from one visit function of the key visitor
fn table(f: &syn::ImplItemFn) -> Result<(Vec<(String, String)>, Option<String>), String> {
    let bad = || "the key visitor".to_string();
    let [Stmt::Expr(Expr::Match(m), _)] = &f.block.stmts[..] else { return Err(bad()) };
    let (mut out, mut other) = (vec![], None);
    for a in &m.arms {
        let b = squeeze(&a.body);
        let b = b.trim_matches(|c| c == '{' || c == '}');
        let v = b.split("Ok(__Field::").nth(1).and_then(|s| s.strip_suffix(')')).map(|s| s.to_string());
        match (&a.pat, v) {
            _ if a.guard.is_some() => return Err(bad()),
            (Pat::Lit(l), Some(v)) => out.push((
                match &l.lit {
                    syn::Lit::Str(s) => s.value(),
                    syn::Lit::ByteStr(s) => String::from_utf8_lossy(&s.value()).to_string(),
                    syn::Lit::Int(n) => n.base10_digits().into(),
                    _ => return Err(bad()),
                },
                v,
            )),
            (Pat::Or(o), Some(v)) => {
                for c in &o.cases {
                    match c {
                        Pat::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => out.push((s.value(), v.clone())),
                        Pat::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(s), .. }) => out.push((String::from_utf8_lossy(&s.value()).to_string(), v.clone())),
                        _ => return Err(bad()),
                    }
                }
            }
            (Pat::Wild(_), Some(v)) => other = Some(v),
            (Pat::Wild(_), None) if b.contains("Err(") => {}
            _ => return Err(bad()),
        }
    }
    Ok((out, other))
}

fn derived_one(d: &Derived, ty: &str, b: &syn::Block, name: &str) -> Result<String, String> {
    let one = |v: Vec<Result<Vec<(String, String)>, String>>| -> Result<Vec<(String, String)>, String> {
        match &v[..] {
            [x] => x.clone(),
            _ => Err("not one Serialize for it".into()),
        }
    };
    let ser = one(d.ser.iter().filter(|x| x.0 == ty).map(|x| x.1.clone()).collect())?;
    let members: Vec<_> = d.structs.iter().filter(|x| x.0 == ty).collect();
    let [(_, members)] = members[..] else { return Err("not one struct of this name".into()) };
    let mut keys = vec![];
    for m in members {
        let k: Vec<_> = ser.iter().filter(|x| &x.1 == m).collect();
        let [k] = k[..] else { return Err(format!("{m} is not written once")) };
        keys.push(k.0.clone());
    }
    if ser.len() != members.len() {
        return Err("something else is written".into());
    }
    if name == "visit_seq" && ser.iter().map(|x| &x.1).ne(members.iter()) {
        return Err("written in another order than the members'".into());
    }
    let (mut en, mut fv, mut vi) = (None, None, None);
    for s in &b.stmts {
        match s {
            Stmt::Item(Item::Enum(e)) if e.ident == "__Field" => en = Some(e),
            Stmt::Item(Item::Impl(i)) if i.trait_.as_ref().map_or(false, |t| t.1.segments.last().unwrap().ident == "Visitor") => {
                match path_end(&i.self_ty).as_deref() {
                    Some("__FieldVisitor") => fv = Some(i),
                    Some("__Visitor") => vi = Some(i),
                    _ => {}
                }
            }
            _ => {}
        }
    }
    let (Some(en), Some(fv), Some(vi)) = (en, fv, vi) else { return Err("not a derived deserialize".into()) };
    let fun = |i: &syn::ItemImpl, n: &str| -> Result<syn::ImplItemFn, String> {
        i.items
            .iter()
            .find_map(|x| match x {
                ImplItem::Fn(f) if f.sig.ident == n => Some(f.clone()),
                _ => None,
            })
            .ok_or(format!("no {n}"))
    };
    let (mut t, other) = table(&fun(fv, "visit_str")?)?;
    let (mut tb, otherb) = table(&fun(fv, "visit_bytes")?)?;
    t.sort();
    tb.sort();
    if t != tb || other != otherb {
        return Err("the key visitors differ".into());
    }
    // an alias is a second name of a key the type writes: only the written name is in the contract
    let mut variants = vec![];
    for v in &en.variants {
        let v = v.ident.to_string();
        if Some(&v) == other.as_ref() {
            variants.push((v, None));
            continue;
        }
        let k: Vec<_> = t.iter().filter(|x| x.1 == v).map(|x| x.0.clone()).collect();
        match &k[..] {
            [k] => variants.push((v, Some(k.clone()))),
            [] => variants.push((v, None)),
            _ => return Err("a key with two names".into()),
        }
    }
    let f = fun(vi, name)?;
    translate(&f, &keys, members, &[Keys { name: "__Field".into(), variants }], false)
}

/// types whose derived visitors have a contract
pub fn derived(f: &syn::File, known: &[Out]) -> Vec<Out> {
    let mut d = Derived::default();
    d.visit_file(f);
    let mut out = vec![];
    for (ty, b) in &d.de {
        if d.structs.iter().find(|s| &s.0 == ty).map_or(true, |s| s.1.is_empty()) || known.iter().any(|k| &k.owner == ty) {
            continue;
        }
        for n in ["visit_map", "visit_seq"] {
            out.push(Out {
                id: format!("{ty}__{n}"),
                file: "src (derived)".into(),
                line: 0,
                owner: ty.clone(),
                fun: n.into(),
                text: derived_one(&d, ty, b, n),
            })
        }
    }
    out
}
