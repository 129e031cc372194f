//! Runs the real code generator over the catalogue and prints one module per format, with a conversion of each generated type to the
//! canonical values of the reference.
use doodle::codegen::{ToFragment, generate_code};
use doodle::{Format, FormatModule};
use sem::cat::*;
use std::fmt::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

fn emit(c: Case) -> Option<String> {
    let mut c = c;
    catch_unwind(AssertUnwindSafe(move || {
        let top = c.module.define_format("top", c.format.clone());
        format!("{}", generate_code(&c.module, &top.call()).to_fragment())
    }))
    .ok()
}
/// splits at commas outside brackets
fn split(s: &str) -> Vec<String> {
    let (mut d, mut cur, mut out) = (0i32, String::new(), vec![]);
    for ch in s.chars() {
        match ch {
            '(' | '<' | '[' | '{' => d += 1,
            ')' | '>' | ']' | '}' => d -= 1,
            _ => {}
        }
        if ch == ',' && d == 0 {
            out.push(cur.trim().to_string());
            cur.clear();
        } else {
            cur.push(ch);
        }
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().to_string());
    }
    out
}
fn conv_fields(fields: &str) -> (String, String) {
    let names: Vec<String> = split(fields).iter().map(|f| f.split(':').next().unwrap().trim().trim_start_matches("pub ").to_string()).collect();
    let pat = names.join(", ");
    let mut e = String::from("CV::Rec(vec![");
    for n in &names {
        write!(e, "(\"{n}\".into(), crate::gen_cv::ToCv::to_cv({n})), ").unwrap();
    }
    (pat, e + "])")
}
fn conversions(text: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    loop {
        let (i, en) = match (rest.find("\npub struct "), rest.find("\npub enum ")) {
            (None, None) => break,
            (Some(a), None) => (a, false),
            (None, Some(b)) => (b, true),
            (Some(a), Some(b)) => (a.min(b), b < a),
        };
        let t = &rest[i + if en { 10 } else { 12 }..];
        let open = t.find('{').unwrap();
        let head = t[..open].trim();
        let (mut d, mut end) = (0, 0);
        for (k, ch) in t.char_indices() {
            if ch == '{' {
                d += 1
            } else if ch == '}' {
                d -= 1;
                if d == 0 {
                    end = k;
                    break;
                }
            }
        }
        let body = t[open + 1..end].replace('\n', " ");
        let (name, lt) = match head.find('<') {
            Some(p) => (&head[..p], "<'input>"),
            None => (head, ""),
        };
        writeln!(out, "impl{lt} crate::gen_cv::ToCv for {name}{lt} {{ fn to_cv(&self) -> CV {{").unwrap();
        if en {
            writeln!(out, "match self {{").unwrap();
            for v in split(&body) {
                let k = v.find(|c: char| c == '(' || c == '{' || c == ' ').unwrap_or(v.len());
                let (vn, args) = (&v[..k], v[k..].trim());
                if args.starts_with('(') {
                    let n = split(&args[1..args.len() - 1]).len();
                    let xs: Vec<String> = (0..n).map(|i| format!("x{i}")).collect();
                    let es: Vec<String> = xs.iter().map(|x| format!("crate::gen_cv::ToCv::to_cv({x})")).collect();
                    let e = if n == 1 { es[0].clone() } else { format!("CV::Tup(vec![{}])", es.join(", ")) };
                    writeln!(out, "{name}::{vn}({}) => CV::Var(\"{vn}\".into(), Box::new({e})),", xs.join(", ")).unwrap();
                } else if args.starts_with('{') {
                    let (p, e) = conv_fields(&args[1..args.len() - 1]);
                    writeln!(out, "{name}::{vn} {{ {p} }} => CV::Var(\"{vn}\".into(), Box::new({e})),").unwrap();
                } else {
                    writeln!(out, "{name}::{vn} => CV::Var(\"{vn}\".into(), Box::new(CV::Tup(vec![]))),").unwrap();
                }
            }
            writeln!(out, "}} }} }}").unwrap();
        } else {
            let (p, e) = conv_fields(&body);
            writeln!(out, "let {name} {{ {p} }} = self; {e} }} }}").unwrap();
        }
        rest = &t[end..];
    }
    out
}
fn main() {
    std::panic::set_hook(Box::new(|i| eprintln!("{}", i.to_string().chars().take(300).collect::<String>())));
    let deep = std::env::args().any(|a| a == "deep");
    let only: Option<usize> = std::env::args().nth(2).and_then(|x| x.parse().ok());
    let mut table = String::new();
    for k in 0..gen_count(deep) {
        if only.is_some_and(|o| o != k) {
            continue;
        }
        let (name, _) = gen_name(deep, k);
        let text = if gen_skip(&name) { None } else { emit(gen_case(deep, k)) };
        let Some(text) = text else {
            if !gen_skip(&name) {
                eprintln!("UNSUPPORTED {name}");
            }
            writeln!(table, "None,").unwrap();
            continue;
        };
        let body: String = text
            .lines()
            .filter(|l| !l.starts_with("#![") && !l.starts_with("mod codegen_tests") && !l.starts_with("pub mod api_helper"))
            .map(|l| format!("{l}\n"))
            .collect();
        let at = body.find("/// d#0\n").expect("no first decoder");
        let f = &body[at + 8..];
        let f = &f[f.find("fn ").unwrap() + 3..];
        let fname = &f[..f.find(|c: char| c == '(' || c == '<').unwrap()];
        println!("pub mod m{k} {{ // {name}\n#![allow(warnings)]\nuse sem::CV;\n{body}\n{}", conversions(&body));
        println!("pub fn run(p: &mut Parser<'_>) -> Result<CV, ()> {{ match {fname}(p) {{ Ok(v) => Ok(crate::gen_cv::ToCv::to_cv(&v)), Err(_) => Err(()) }} }}\n}}\n");
        writeln!(table, "Some(m{k}::run),").unwrap();
    }
    println!("pub const DEEP: bool = {deep};");
    println!("pub const GEN: &[Option<for<'a, 'b> fn(&'a mut doodle::prelude::Parser<'b>) -> Result<sem::CV, ()>>] = &[\n{table}];");
}
