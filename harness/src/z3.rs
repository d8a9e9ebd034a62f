//! z3 as a subprocess.
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};

#[derive(Clone, Debug)]
pub enum Res {
    Unsat,
    Sat(BTreeMap<String, f64>),
    Unknown,
}

pub fn exe() -> String {
    std::env::var("VERIF_Z3").unwrap_or_else(|_| "z3-new".into())
}

pub fn run(body: &str, model: bool, timeout_ms: u64, names: &[String]) -> Res {
    let mut q = String::new();
    q.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n");
    // a resource limit, so that the answer does not depend on the load; the
    // time limits only guard against a runaway
    q.push_str(&format!("(set-option :rlimit {})\n", timeout_ms * 100));
    q.push_str(body);
    q.push_str("(check-sat)\n");
    if model {
        q.push_str("(get-model)\n");
    }
    let child = Command::new(exe())
        .arg("-in")
        .arg(format!("-T:{}", timeout_ms / 1000 * 10 + 60))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(_) => return Res::Unknown,
    };
    if child.stdin.take().unwrap().write_all(q.as_bytes()).is_err() {
        let _ = child.wait();
        return Res::Unknown;
    }
    let out = match child.wait_with_output() {
        Ok(o) => String::from_utf8_lossy(&o.stdout).to_string(),
        Err(_) => return Res::Unknown,
    };
    let first = out.lines().next().unwrap_or("").trim();
    match first {
        "unsat" => Res::Unsat,
        "sat" => {
            let mut m = BTreeMap::new();
            if model {
                parse_model(&out, names, &mut m);
            }
            Res::Sat(m)
        }
        _ => Res::Unknown,
    }
}

fn parse_model(out: &str, names: &[String], m: &mut BTreeMap<String, f64>) {
    // (define-fun x () Real VALUE)
    let toks: Vec<String> = out
        .replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|s| s.to_string())
        .collect();
    let mut i = 0;
    while i < toks.len() {
        if toks[i] == "define-fun" && i + 5 < toks.len() {
            let name = toks[i + 1].clone();
            // skip "( )" "Real"
            let mut j = i + 5;
            let (v, nj) = parse_val(&toks, &mut j);
            if let Some(v) = v {
                if names.contains(&name) {
                    m.insert(name, v);
                }
            }
            i = nj;
        } else {
            i += 1;
        }
    }
}
fn parse_val(t: &[String], j: &mut usize) -> (Option<f64>, usize) {
    if *j >= t.len() {
        return (None, *j);
    }
    if t[*j] == "(" {
        let op = t.get(*j + 1).cloned().unwrap_or_default();
        *j += 2;
        let mut args = vec![];
        while *j < t.len() && t[*j] != ")" {
            let (v, nj) = parse_val(t, j);
            *j = nj;
            match v {
                Some(v) => args.push(v),
                None => return (None, *j + 1),
            }
        }
        *j += 1;
        let r = match (op.as_str(), args.len()) {
            ("-", 1) => Some(-args[0]),
            ("/", 2) => Some(args[0] / args[1]),
            ("+", _) => Some(args.iter().sum()),
            ("*", _) => Some(args.iter().product()),
            _ => None,
        };
        (r, *j)
    } else {
        let s = t[*j].trim_end_matches('?').to_string();
        *j += 1;
        (s.parse::<f64>().ok(), *j)
    }
}
