//! P37 and P38: what is said about a text does not depend on unrelated text
//! after or before it, whether it is valid or not.
use crate::cut::{self, guard, CompilationUnit, Diag};
use crate::driver::Ctx;
use crate::mutate;
use crate::print::FANCY;
use crate::props_front::{front_cfg, lex, LK};
use crate::rng::Rng;
use crate::util::*;
use serde_json::json;
use std::collections::HashMap;
use std::sync::Arc;

/// Any text, but not one that applies a name to itself over and over: next to
/// a definition of that name its type can be exponentially large.
fn some_text(r: &mut Rng) -> String {
    loop {
        let s = crate::textgen::text(r);
        if !s.contains("x |> x |> x |> x |> x |> ") && !s.contains("f (f (f (f (f (") {
            return s;
        }
    }
}

/// Modules and a last text that uses them; often broken.
fn texts(r: &mut Rng) -> Files {
    let mut srcs: Files;
    match r.below(10) {
        0..=2 => {
            srcs = vec![("main".into(), some_text(r))];
            if r.chance(30) {
                srcs.insert(0, ("a".into(), "export let x : int = 1;\nexport type T a = export A a | B rec;\nexport let f : b -> T b = \\x -> A x;\n".to_owned()));
            }
        }
        k => {
            let mut cfg = front_cfg(r);
            cfg.budget = cfg.budget.min(60);
            let mut p = some_project(r, &cfg);
            if r.chance(50) {
                for _ in 0..r.range(1, 3) {
                    mutate::mutate(&mut p, r);
                }
                mutate::dedup_ids(&mut p);
                p.fix_parens();
            }
            srcs = print_all(&p, r, FANCY).1;
            if k >= 6 {
                let last = srcs.last_mut().unwrap();
                last.1 = match r.below(3) {
                    0 => crate::textgen::damage(&last.1, r),
                    1 => crate::textgen::shuffle_tokens(&last.1, r),
                    _ => {
                        let ts = lex(&last.1);
                        let at = if ts.is_empty() { 0 } else { ts[r.below(ts.len())].2 };
                        last.1[..at].to_owned()
                    }
                };
            }
        }
    }
    srcs
}

fn library(mods: &[(String, String)]) -> Result<Arc<cut::MapResolver>, String> {
    guard(|| {
        let mut map = HashMap::new();
        for (n, s) in mods {
            let res = Arc::new(cut::MapResolver { map: map.clone() });
            let u = CompilationUnit::new(s, cut::opts(false), res).complete();
            map.insert(n.clone(), u);
        }
        Arc::new(cut::MapResolver { map })
    })
}

type Sp = (usize, usize);

#[derive(Debug, PartialEq, Clone)]
enum A {
    Diags(Vec<(usize, usize, bool, String)>),
    Tokens(Vec<(usize, usize, String)>),
    Def(Option<Sp>),
    Refs(Option<Vec<Sp>>),
    Info(Option<(Sp, String)>),
    Compl(Option<Vec<String>>),
}

fn span(s: cut::Span) -> Sp {
    (s.start().source_pos(), s.end().source_pos())
}

/// Asks everything about positions that are `at` in the part that starts at
/// `base`; spans are relative to it, and those not inside of it are dropped.
fn answers(u: &mut CompilationUnit, base: usize, len: usize, at: &[usize], warnings: bool) -> Vec<(String, A)> {
    let inside = |s: Sp| s.0 >= base && s.1 <= base + len;
    let rel = |s: Sp| (s.0 - base, s.1 - base);
    let mut out = vec![];
    let mut ds: Vec<_> = cut::diags(u)
        .into_iter()
        .filter(|d: &Diag| inside((d.start, d.end)) && (d.error || warnings))
        .map(|d| (d.start - base, d.end - base, d.error, d.message))
        .collect();
    ds.sort();
    out.push(("diagnostics".into(), A::Diags(ds)));
    out.push(("tokens".into(), A::Tokens(u.tokens().map(|t| (span(t.span), format!("{:?}", t.kind))).filter(|t| inside(t.0)).map(|(s, k)| (rel(s).0, rel(s).1, k)).collect())));
    for &p in at {
        let q = pos(base + p);
        out.push((format!("definition at {}", p), A::Def(u.find_definition(q).map(span).filter(|s| inside(*s)).map(rel))));
        out.push((format!("references at {}", p), A::Refs(u.find_references(q).map(|v| {
            let mut v: Vec<Sp> = v.into_iter().map(span).filter(|s| inside(*s)).map(rel).collect();
            v.sort();
            v
        }))));
        out.push((format!("hover at {}", p), A::Info(u.info(q).map(|i| (rel(span(i.span)), i.doc)))));
        out.push((format!("completions at {}", p), A::Compl(u.completions(q).map(|v| v.into_iter().map(|c| c.name).filter(|n| !n.starts_with("zz_")).collect()))));
    }
    out
}

fn compare(ctx: &mut Ctx, what: &str, a: &[(String, A)], b: &[(String, A)], srcs: &Files) -> bool {
    for ((q, x), (_, y)) in a.iter().zip(b) {
        if x != y {
            let kind = q.split(' ').next().unwrap();
            let show = |a: &A| shorten(&format!("{:?}", a), 700);
            let detail = match (x, y) {
                (A::Diags(x), A::Diags(y)) => format!("only without: {:?}\nonly with: {:?}", x.iter().filter(|d| !y.contains(d)).take(4).collect::<Vec<_>>(), y.iter().filter(|d| !x.contains(d)).take(4).collect::<Vec<_>>()),
                (A::Tokens(x), A::Tokens(y)) => format!("only without: {:?}\nonly with: {:?}", x.iter().filter(|d| !y.contains(d)).take(4).collect::<Vec<_>>(), y.iter().filter(|d| !x.contains(d)).take(4).collect::<Vec<_>>()),
                _ => format!("{}\n{}", show(x), show(y)),
            };
            ctx.fail(&format!("{} changes the {}", what, kind), format!("{}\n{}", q, detail), srcs);
            return false;
        }
    }
    true
}

fn places(text: &str, r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    let ts: Vec<_> = lex(text).into_iter().filter(|t| t.0 != LK::Comment).collect();
    if ts.is_empty() {
        return v;
    }
    let first = ts[0].1;
    let last = ts[ts.len() - 1].2;
    for _ in 0..n {
        let t = r.pick(&ts);
        let p = *r.pick(&[t.1, t.2, (t.1 + t.2) / 2]);
        // a place before the first token or after the last one belongs to
        // what is around as well
        if text.is_char_boundary(p) && p > first && p < last {
            v.push(p);
        }
    }
    v
}

const FENCE: &str = "\ntype Zz_1 = Zz_2;\ntype Zz_3 = Zz_4;\ntype Zz_5 = Zz_6;\n";

pub fn p37(ctx: &mut Ctx) {
    let mut r = ctx.rng("P37");
    let mut srcs = texts(&mut r);
    let (name, text) = srcs.pop().unwrap();
    if lex(&text).last().map_or(false, |t| &text[t.1..t.2] == "export") {
        return;
    }
    let lib = match library(&srcs) {
        Ok(l) => l,
        Err(_) => {
            ctx.count("skipped_panic_in_front_end", 1);
            return;
        }
    };
    let after = |r: &mut Rng| -> String {
        match r.below(6) {
            0 => String::new(),
            1 => texts(r).pop().unwrap().1,
            // the same names with other meanings
            2 => crate::textgen::shuffle_tokens(&text, r),
            3 => text.clone(),
            4 => "let _a : int = 1;\nexport let _b : string = _a;\n".into(),
            _ => some_text(r),
        }
    };
    // imports give names to types and constructors of other modules, also
    // where they are used before
    let tame = |s: String| {
        let mut out = String::new();
        let mut at = 0;
        for t in lex(&s).iter().filter(|t| &s[t.1..t.2] == "import") {
            out += &s[at..t.1];
            out += "let";
            at = t.2;
        }
        out + &s[at..]
    };
    let (x, y) = (tame(after(&mut r)), tame(after(&mut r)));
    let at = places(&text, &mut r, 12);
    let tx = format!("{}{}{}", text, FENCE, x);
    let ty = format!("{}{}{}", text, FENCE, y);
    srcs.push((name.clone(), tx.clone()));
    srcs.push((format!("{} (other)", name), ty.clone()));
    ctx.begin(&srcs);
    let mut get = |t: &str| guard(|| answers(&mut CompilationUnit::new(t, cut::opts(false), lib.clone()), 0, text.len(), &at, false));
    let (Ok(a), Ok(b)) = (get(&tx), get(&ty)) else {
        ctx.count("skipped_panic_in_front_end", 1);
        return;
    };
    ctx.eval();
    judge(ctx, "text that follows", &text, &a, &b, &srcs);
}

fn judge(ctx: &mut Ctx, what: &str, text: &str, a: &[(String, A)], b: &[(String, A)], srcs: &Files) {
    let errors = match &a[0].1 {
        A::Diags(d) => d.iter().filter(|d| d.2).count(),
        _ => 0,
    };
    ctx.count("answers_compared", a.len() as u64);
    ctx.count(if errors > 0 { "texts_with_errors" } else { "texts_without_errors" }, 1);
    if compare(ctx, what, a, b, srcs) {
        let tokens = match &a[1].1 {
            A::Tokens(t) => t.len(),
            _ => 0,
        };
        let mut h = 0u64;
        for (_, x) in a {
            for c in format!("{:?}", x).bytes() {
                h = h.wrapping_mul(1099511628211).wrapping_add(c as u64);
            }
        }
        ctx.class(&format!("{} {} {:x}", tokens, errors, h));
        ctx.sample(|| json!({"text": shorten(text, 200), "errors": errors, "answers": a.len()}));
    }
}

pub fn p38(ctx: &mut Ctx) {
    let mut r = ctx.rng("P38");
    let mut srcs = texts(&mut r);
    let (name, text) = srcs.pop().unwrap();
    let lib = match library(&srcs) {
        Ok(l) => l,
        Err(_) => {
            ctx.count("skipped_panic_in_front_end", 1);
            return;
        }
    };
    let mut before = String::new();
    for k in 0..r.range(1, 4) {
        let nl = *r.pick(&["\n", "\n", "\r\n", "\n\n", "  \n"]);
        before += &match r.below(9) {
            0 => String::new(),
            1 => "  ".into(),
            2 => "-- \u{e9}\u{1f600} \" let x = ".into(),
            3 => format!("let zz_{} : int = 1;", k),
            4 => format!("export let zz_{} : a -> a = \\zz_x -> zz_x;", k),
            5 => format!("type zz_T{} a = export zz_C{} a | zz_D{} rec int;", k, k, k),
            6 => format!("import zz_m{} (map) from \"std/option\";", k).replace(" (map)", ""),
            7 => format!("let zz_{} = \"\u{1f600}\u{e9}\";", k),
            _ => format!("let zz_{} : string\n -> int = \\zz_y -> match zz_y with end;", k).replace("match zz_y with end", "1"),
        };
        before += nl;
    }
    let at = places(&text, &mut r, 12);
    let tx = format!("{}{}", before, text);
    srcs.push((name.clone(), text.clone()));
    srcs.push((format!("{} (other)", name), tx.clone()));
    ctx.begin(&srcs);
    let mut get = |t: &str, base: usize| guard(|| answers(&mut CompilationUnit::new(t, cut::opts(false), lib.clone()), base, text.len(), &at, true));
    let (Ok(a), Ok(b)) = (get(&text, 0), get(&tx, before.len())) else {
        ctx.count("skipped_panic_in_front_end", 1);
        return;
    };
    ctx.eval();
    judge(ctx, "text that comes before", &text, &a, &b, &srcs);
}
