//! vext SRC_DIR OUT_DIR
//!
//! Extracts every function of SRC_DIR that maps a batch of rows (points,
//! pixels, rays or their data matrix) to a batch of rows, and writes one Verus
//! file per function: the function's own statements over opaque scalar values,
//! with the row-by-row contract. What is dropped is listed in `lower.rs`.
mod eval;
mod grid;
mod ir;
mod lower;
mod print;
mod step;
mod visit;

use quote::ToTokens;
use std::collections::BTreeMap;
use syn::{ImplItem, Item};

pub struct Cand {
    pub file: String,
    pub line: usize,
    pub owner: String,
    pub trait_: Option<String>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub generics: Vec<String>,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s == "#[cfg(test)]" || s == "#[test]"
    })
}

fn gen_names(g: &syn::Generics) -> Vec<String> {
    g.type_params().map(|t| t.ident.to_string()).collect()
}

fn macros(items: &[Item], out: &mut Vec<(String, proc_macro2::TokenStream)>) {
    for it in items {
        match it {
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    macros(items, out)
                }
            }
            Item::Macro(m) => {
                if let Some(i) = &m.ident {
                    out.push((i.to_string(), m.mac.tokens.clone()))
                }
            }
            _ => {}
        }
    }
}

fn collect(file: &str, items: &[Item], out: &mut Vec<Cand>) {
    for it in items {
        match it {
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    collect(file, items, out)
                }
            }
            Item::Fn(f) if !is_test(&f.attrs) => out.push(Cand {
                file: file.into(),
                line: f.sig.ident.span().start().line,
                owner: String::new(),
                trait_: None,
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                generics: gen_names(&f.sig.generics),
            }),
            Item::Impl(im) if !is_test(&im.attrs) => {
                let owner = match &*im.self_ty {
                    syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    t => t.to_token_stream().to_string(),
                };
                for i in &im.items {
                    if let ImplItem::Fn(f) = i {
                        let mut g = gen_names(&im.generics);
                        g.extend(gen_names(&f.sig.generics));
                        out.push(Cand {
                            file: file.into(),
                            line: f.sig.ident.span().start().line,
                            owner: owner.clone(),
                            trait_: im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string()),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            generics: g,
                        });
                    }
                }
            }
            _ => {}
        }
    }
}

/// `match e { Ok(x) => x, Err(e) => return Err(e) }` is `e?`
struct Tries;
impl syn::visit_mut::VisitMut for Tries {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let syn::Expr::Match(m) = e else { return };
        if m.arms.len() != 2 || m.arms.iter().any(|a| a.guard.is_some()) {
            return;
        }
        let text = |i: usize| {
            let a = &m.arms[i];
            let p = a.pat.to_token_stream().to_string().replace(' ', "");
            let b = a.body.to_token_stream().to_string().replace([' ', '{', '}', ';'], "");
            (p, b)
        };
        for (i, j) in [(0, 1), (1, 0)] {
            let ((p, b), (q, r)) = (text(i), text(j));
            let ok = p.strip_prefix("Ok(").and_then(|s| s.strip_suffix(')')).map_or(false, |x| x == b);
            let err = q.strip_prefix("Err(").and_then(|s| s.strip_suffix(')')).map_or(false, |x| r == format!("returnErr({x})"));
            if ok && err {
                let x = &m.expr;
                *e = syn::parse_quote!((#x)?);
                return;
            }
        }
    }
}

/// Anything that could make a call depend on more than its arguments.
fn impurities(file: &str, toks: proc_macro2::TokenStream, out: &mut Vec<String>) {
    for t in toks {
        match t {
            proc_macro2::TokenTree::Group(g) => impurities(file, g.stream(), out),
            proc_macro2::TokenTree::Ident(i) => {
                let s = i.to_string();
                if ["static", "unsafe", "Cell", "RefCell", "OnceCell", "UnsafeCell", "Mutex", "RwLock", "thread_local", "SystemTime", "Instant", "extern"]
                    .contains(&s.as_str())
                    || s.starts_with("Atomic")
                {
                    out.push(format!("{file}:{} {s}", i.span().start().line))
                }
            }
            _ => {}
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--step" {
        match std::fs::read_to_string(&a[2]).map_err(|e| e.to_string()).and_then(|t| step::text(&t)) {
            Ok(t) => print!("{t}"),
            Err(e) => {
                eprintln!("{e}");
                std::process::exit(1)
            }
        }
        return;
    }
    let (src, outd) = (&a[1], &a[2]);
    let mut cands = vec![];
    let mut defs = vec![];
    let mut files = vec![];
    walk(std::path::Path::new(src), &mut files);
    files.sort();
    let mut impure = vec![];
    let mut visitors = vec![];
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let name = f.strip_prefix(src).unwrap().to_string_lossy().to_string();
        match syn::parse_file(&text) {
            Ok(p) => {
                collect(&name, &p.items, &mut cands);
                macros(&p.items, &mut defs);
                visitors.extend(visit::visitors(&name, &p));
                for it in &p.items {
                    let s = match it {
                        Item::Mod(m) if is_test(&m.attrs) => continue,
                        Item::ExternCrate(_) => continue,
                        it => it.to_token_stream(),
                    };
                    impurities(&name, s, &mut impure);
                }
            }
            Err(e) => impure.push(format!("{name}: {e}")),
        }
    }
    if let Some(p) = a.get(3) {
        match std::fs::read_to_string(p).map_err(|e| e.to_string()).and_then(|t| syn::parse_file(&t).map_err(|e| e.to_string())) {
            Ok(f) => {
                let d = visit::derived(&f, &visitors);
                visitors.extend(d)
            }
            Err(e) => eprintln!("expanded source: {e}"),
        }
    }
    for c in &mut cands {
        syn::visit_mut::VisitMut::visit_block_mut(&mut Tries, &mut c.block);
    }
    std::fs::create_dir_all(outd).unwrap();
    let mut recs = vec![];
    let mut used: BTreeMap<String, usize> = BTreeMap::new();
    for c in &cands {
        let Some(shape) = lower::shape(c) else { continue };
        let stem = std::path::Path::new(&c.file).file_stem().unwrap().to_string_lossy().to_string();
        let base = if c.owner.is_empty() { format!("{stem}__{}", c.sig.ident) } else { format!("{}__{}", c.owner, c.sig.ident) };
        let n = used.entry(base.clone()).or_insert(0);
        *n += 1;
        let id = if *n == 1 { base } else { format!("{base}_{n}") };
        let mut cases = String::from("null");
        let (status, why) = match lower::lower(c, &cands, &defs, &shape) {
            Ok(f) if shape.reduce => match print::reduce(&id, &f) {
                Ok(t) => {
                    cases = eval::json(&eval::cases(&f), &js);
                    std::fs::write(format!("{outd}/{id}.rs"), t).unwrap();
                    ("ok", String::new())
                }
                Err(e) => ("unsupported", e),
            },
            Ok(f) => {
                std::fs::write(format!("{outd}/{id}.rs"), print::file(&id, &f)).unwrap();
                ("ok", String::new())
            }
            Err(e) => ("unsupported", e),
        };
        recs.push(format!(
            "{{\"id\":{},\"file\":{},\"line\":{},\"owner\":{},\"fn\":{},\"trait\":{},\"status\":{},\"why\":{},\"kind\":{},\"cases\":{cases}}}",
            js(&id), js(&c.file), c.line, js(&c.owner), js(&c.sig.ident.to_string()),
            js(c.trait_.as_deref().unwrap_or("")), js(status), js(&why),
            js(if shape.reduce { "all rows" } else { "row" })
        ));
    }
    for v in visitors {
        let (status, why) = match v.text {
            Ok(t) => {
                std::fs::write(format!("{outd}/{}.rs", v.id), t).unwrap();
                ("ok", String::new())
            }
            Err(e) => ("unsupported", e),
        };
        recs.push(format!(
            "{{\"id\":{},\"file\":{},\"line\":{},\"owner\":{},\"fn\":{},\"trait\":\"Visitor\",\"status\":{},\"why\":{},\"kind\":\"visitor\",\"cases\":null}}",
            js(&v.id), js(&v.file), v.line, js(&v.owner), js(&v.fun), js(status), js(&why)
        ));
    }
    let utility = match grid::translate(&cands) {
        Ok((fed, completes, under, file, line)) => format!("{{\"file\":{},\"line\":{line},\"fed\":{},\"completes\":{},\"under\":{}}}", js(&file), js(&fed), js(&completes), js(&under)),
        Err(e) => format!("{{\"unsupported\":{}}}", js(&e)),
    };
    println!(
        "{{\"functions\":[{}],\n\"utility\":{utility},\n\"impure\":[{}]}}",
        recs.join(",\n"),
        impure.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
    );
}

fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(d).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() {
            walk(&p, out)
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p)
        }
    }
}
