//! Properties about what accepted programs mean.
use crate::cut::{self, guard, MainOut, Out, Runner, RUNNERS};
use crate::driver::Ctx;
use crate::gen::Cfg;
use crate::lang::*;
use crate::print::{FANCY, MILD, PLAIN};
use crate::refeval::{Eval, Outcome};
use crate::rng::Rng;
use crate::util::*;
use serde_json::json;

pub const FUEL: u64 = 150_000;

pub fn run_cfg(rng: &mut Rng) -> Cfg {
    let mut c = Cfg::run();
    match rng.below(10) {
        0..=3 => {}
        4 => c.std = 100,
        5 => {
            c.std = 0;
            c.budget = 110;
        }
        6 => {
            c.poly = 75;
            c.unannotated = 40;
        }
        7 => {
            c.modules = (2, 4);
            c.items = (1, 4);
        }
        8 => {
            c.big = 60;
            c.items = (2, 4);
        }
        _ => {
            c.depth = 7;
            c.budget = 160;
            c.items = (1, 3);
        }
    }
    c
}

/// A program of the general generator or, in some cases, of a special family.
pub fn subject(ctx: &mut Ctx, r: &mut Rng, cfg: &Cfg, style: crate::print::Style, percent: u32) -> Option<Prog> {
    if r.chance(percent) {
        let Some((k, p)) = crate::families::prog(r, style) else {
            ctx.count("family_programs_not_valid", 1);
            return None;
        };
        ctx.count(&format!("family: {}", k), 1);
        return Some(p);
    }
    well_typed(r, cfg, style)
}

pub fn input(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => vec![],
        1 => b"12".to_vec(),
        2 => b"1,2,3\n4,5,6\n\n".to_vec(),
        3 => (0..rng.below(200)).map(|_| rng.below(256) as u8).collect(),
        4 => "žąsis 🦀\r\nhello".as_bytes().to_vec(),
        _ => (0..rng.below(60)).map(|_| *rng.pick(b"0123456789 ,\nabc")).collect(),
    }
}

pub fn has_main(prog: &Prog) -> bool {
    let m = prog.p.main();
    // the last definition of a name is the one that counts
    let last = m.items.iter().rev().find_map(|i| match i {
        Item::Value(v) if v.name.s == "main" => Some(v),
        _ => None,
    });
    matches!(last, Some(ValueItem { export: true, ty: Some(TyE::Fn(a, b)), .. }) if matches!((&**a, &**b), (TyE::Str, TyE::Str)))
}

// ---- P14: reference semantics ------------------------------------------------

/// Items that define a `main` of some type.
const MAINS: &[&str] = &[
    "export let main : int = 3;",
    "export let main : string = \"no function\";",
    "export let main : string -> string = \\x -> \"const\";",
    "export let main : string -> string = \\x -> x;",
    "export let main : a -> a = \\x -> x;",
    "export let main = \\x -> x;",
    "export let main = \\x -> let y : string = x; y;",
    "export let main : a -> string = \\x -> \"generic\";",
    "export let main : string -> a -> string = \\x -> \\y -> x;",
    "export let main : string -> string -> string = \\x -> \\y -> y;",
    "export let main : string -> int = \\x -> 1;",
    "export let main : int -> string = \\x -> \"i\";",
    "export let main : (string -> string) -> string = \\x -> x \"applied\";",
    "let main : string -> string = \\x -> \"not exported\";",
    "let main : bool = false;",
    "export type MainBox = MainBox string; export let main : string -> MainBox = \\x -> MainBox x;",
];

/// Puts one to three definitions of `main` somewhere in the main module.
fn several_mains(r: &mut Rng, prog: &Prog) -> Option<Prog> {
    let mut p = prog.p.clone();
    let m = p.modules.len() - 1;
    if r.chance(30) {
        p.modules[m].items.retain(|i| !matches!(i, Item::Value(v) if v.name.s == "main"));
    }
    for _ in 0..r.range(1, 3) {
        let mut next = p.next_id;
        let new = crate::refparse::parse(r.pick(MAINS), &mut next).items;
        p.next_id = next;
        let at = r.range(0, p.modules[m].items.len());
        p.modules[m].items.splice(at..at, new);
    }
    p.fix_parens();
    let info = crate::refcheck::check(&p);
    if !info.errors.is_empty() {
        return None;
    }
    let (printed, srcs) = print_all(&p, r, FANCY);
    Some(Prog { p, info, printed, srcs })
}

/// What running the program as a command line program must come to.
#[derive(Clone, Copy, PartialEq, Debug)]
enum MainKind {
    Missing,
    Invalid,
    Fits,
}

fn main_kind(prog: &Prog) -> MainKind {
    use crate::refcheck::{Kind, T};
    let Some(&e) = prog.info.modules[prog.p.modules.len() - 1].exports.values.get("main") else { return MainKind::Missing };
    match &prog.info.ents[e].kind {
        Kind::Value { vars, ty: T::Fn(a, b) } if vars.is_empty() && matches!((&**a, &**b), (T::Str, T::Str)) => MainKind::Fits,
        _ => MainKind::Invalid,
    }
}

pub fn p14(ctx: &mut Ctx) {
    let mut r = ctx.rng("P14");
    let cfg = run_cfg(&mut r);
    let Some(mut prog) = subject(ctx, &mut r, &cfg, FANCY, 20) else { return };
    if r.chance(25) {
        if let Some(x) = several_mains(&mut r, &prog) {
            prog = x;
            ctx.count("with_added_mains", 1);
        }
    }
    let kind = main_kind(&prog);
    ctx.count(&format!("main: {:?}", kind), 1);
    let mut ev = Eval::new(&prog.p, &prog.info, FUEL);
    let Ok(expected) = ev.run() else {
        ctx.count("skipped_reference_out_of_fuel", 1);
        return;
    };
    ctx.count("reference_steps", ev.steps);
    let ins: Vec<Vec<u8>> = if kind == MainKind::Fits { (0..3).map(|_| input(&mut r)).collect() } else { vec![] };
    let mains: Vec<_> = ins.iter().map(|i| if matches!(expected, Outcome::Values(_)) { ev.run_main(i).ok() } else { None }).collect();
    ctx.class(&shape(&prog.p));
    let hs = holes(&prog.p);
    let several = hs.len() > 1;
    let mut ok = false;
    // checking the IR dominates the cost and is the subject of other properties
    let verify = r.chance(15);
    for optimize in [false, true] {
        let Some(mut u) = accepted_with(ctx, &prog.srcs, cut::Options { verify, optimize }) else { return };
        for rn in RUNNERS {
            ctx.eval();
            let out = cut::run(&mut u, rn);
            match (&expected, &out) {
                (Outcome::Values(a), Out::Values(b)) if same_values(a, b) => ok = true,
                (Outcome::Trap(a), Out::Trap(b)) if a == b => ok = true,
                // which of several holes is met first is not specified
                (Outcome::Trap(_), Out::Trap(b)) if several && hs.iter().any(|h| b == &format!("encountered ?{}", h)) => ok = true,
                (Outcome::Trap(_), Out::Values(_) | Out::Trap(_)) if optimize => {}
                (Outcome::Values(a), Out::Values(b)) => {
                    ctx.fail(&format!("wrong value ({}, optimize {})", rn, optimize), first_diff(a, b), &prog.srcs);
                    return;
                }
                _ => {
                    ctx.fail(&format!("wrong outcome ({}, optimize {})", rn, optimize), format!("expected {}\n     got {}", shorten(&format!("{:?}", expected), 300), shorten(&format!("{:?}", out), 300)), &prog.srcs);
                    return;
                }
            }
            if kind != MainKind::Fits {
                ctx.eval();
                let got = cut::run_main(&mut u, rn, b"some input");
                let want = if kind == MainKind::Missing { MainOut::NoMain } else { MainOut::InvalidMain };
                if got != want {
                    ctx.fail(&format!("wrong outcome of main ({}, optimize {})", rn, optimize), format!("expected {:?}\n     got {:?}", want, got), &prog.srcs);
                    return;
                }
            }
            for (i, m) in ins.iter().zip(&mains) {
                let Some(m) = m else { continue };
                ctx.eval();
                let got = cut::run_main(&mut u, rn, i);
                let good = match (m, &got) {
                    (Ok(a), MainOut::Bytes(b)) => a == b,
                    (Err(a), MainOut::Trap(b)) => a == b || several,
                    _ => false,
                };
                if !good {
                    ctx.fail(&format!("wrong output of main ({}, optimize {})", rn, optimize), format!("input {:?}\nexpected {:?}\n     got {:?}", String::from_utf8_lossy(i), m, got), &prog.srcs);
                    return;
                }
                ctx.count("main_runs", 1);
            }
        }
    }
    if ok {
        ctx.count("programs_compared", 1);
        ctx.sample(|| json!({"main_module": shorten(&prog.srcs.last().unwrap().1, 500), "outcome": shorten(&format!("{:?}", expected), 300)}));
    }
}

// ---- P13: soundness ----------------------------------------------------------

pub fn p13(ctx: &mut Ctx) {
    let mut r = ctx.rng("P13");
    let mut cfg = run_cfg(&mut r);
    cfg.unannotated = *r.pick(&[10, 40, 80]);
    cfg.hole = *r.pick(&[0, 0, 3]);
    let mut p = if r.chance(15) {
        match crate::families::prog(&mut r, PLAIN) {
            Some((_, x)) => x.p,
            None => return,
        }
    } else {
        crate::gen::project(&mut r, &cfg)
    };
    // programs the compiler accepts although they were disturbed count as well
    let disturbed = r.chance(60);
    if disturbed {
        let n = r.range(1, 3);
        for _ in 0..n {
            crate::mutate::mutate(&mut p, &mut r);
        }
        p.fix_parens();
    }
    let (_, srcs) = print_all(&p, &mut r, MILD);
    ctx.begin(&srcs);
    let c = guard(|| cut::compile(&srcs, cut::opts(false)));
    let (mut u, ds) = match c {
        Ok(x) => x,
        Err(_) => {
            ctx.count("skipped_panic_in_front_end", 1);
            return;
        }
    };
    if ds.iter().flatten().any(|d| d.error) {
        ctx.count("rejected", 1);
        return;
    }
    ctx.count(if disturbed { "accepted_disturbed" } else { "accepted_plain" }, 1);
    // reference fuel decides whether running is affordable
    let info = crate::refcheck::check(&p);
    let mut affordable = false;
    let mut main_affordable = false;
    if info.errors.is_empty() {
        let mut ev = Eval::new(&p, &info, FUEL);
        affordable = !matches!(ev.run(), Err(crate::refeval::Stop::Fuel | crate::refeval::Stop::Depth));
        main_affordable = affordable && ev.run_main(b"1 2 3").is_ok();
    } else {
        ctx.count("accepted_but_rejected_by_reference", 1);
    }
    ctx.class(&shape(&p));
    for optimize in [false, true] {
        if optimize {
            match guard(|| cut::compile(&srcs, cut::opts(true))) {
                Ok((x, _)) => u = x,
                Err(_) => return,
            }
        }
        ctx.eval();
        match guard(|| u.emit_ir()) {
            Ok(t) => ctx.count("ir_bytes_checked", t.len() as u64),
            Err(e) => {
                ctx.fail(&format!("code generation failed: {}", e), format!("optimize {}: {}", optimize, e), &srcs);
                return;
            }
        }
        if affordable {
            for rn in RUNNERS {
                ctx.eval();
                if let Out::Panic(e) = cut::run(&mut u, rn) {
                    ctx.fail(&format!("evaluation crashed: {}", e), format!("{} optimize {}: {}", rn, optimize, e), &srcs);
                    return;
                }
                if !main_affordable {
                    continue;
                }
                if let MainOut::Panic(e) = cut::run_main(&mut u, rn, b"1 2 3") {
                    ctx.fail(&format!("main crashed: {}", e), format!("{} optimize {}: {}", rn, optimize, e), &srcs);
                    return;
                }
            }
        }
    }
    ctx.sample(|| json!({"main_module": shorten(&srcs.last().unwrap().1, 500), "disturbed": disturbed}));
}

// ---- P15: the runners agree --------------------------------------------------

fn holes(p: &Project) -> Vec<String> {
    fn go(e: &Expr, out: &mut Vec<String>) {
        if let EK::Hole(h) = &*e.k {
            out.push(h.clone());
        }
        for c in e.children() {
            go(c, out);
        }
    }
    let mut v = vec![];
    for m in &p.modules {
        for i in &m.items {
            if let Item::Value(x) = i {
                go(&x.expr, &mut v);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn p15(ctx: &mut Ctx) {
    let mut r = ctx.rng("P15");
    let mut cfg = run_cfg(&mut r);
    if r.chance(40) {
        cfg.hole = *r.pick(&[1, 2, 4]);
    }
    let style = if r.chance(50) { FANCY } else { MILD };
    let Some(prog) = subject(ctx, &mut r, &cfg, style, 30) else { return };
    let mut ev = Eval::new(&prog.p, &prog.info, FUEL);
    let expected = ev.run();
    if matches!(expected, Err(crate::refeval::Stop::Fuel | crate::refeval::Stop::Depth)) {
        ctx.count("skipped_reference_out_of_fuel", 1);
        return;
    }
    let hs = holes(&prog.p);
    let main = has_main(&prog);
    // checking the IR dominates the cost and is the subject of other properties
    let verify = r.chance(15);
    for optimize in [false, true] {
        let Some(mut u) = accepted_with(ctx, &prog.srcs, cut::Options { verify, optimize }) else { return };
        let mut inputs: Vec<Option<Vec<u8>>> = vec![None];
        if main && matches!(expected, Ok(Outcome::Values(_))) {
            for _ in 0..2 {
                let i = input(&mut r);
                if ev.run_main(&i).is_ok() {
                    inputs.push(Some(i));
                }
            }
        }
        for inp in inputs {
            let outs: Vec<(Runner, String, Option<String>)> = RUNNERS
                .iter()
                .map(|&rn| {
                    ctx.eval();
                    match &inp {
                        None => match cut::run(&mut u, rn) {
                            Out::Values(v) => (rn, format!("values:\n{}", v), None),
                            Out::Trap(t) => (rn, "trap".to_owned(), Some(t)),
                            Out::Panic(p) => (rn, format!("crash: {}", p), None),
                        },
                        Some(i) => match cut::run_main(&mut u, rn, i) {
                            MainOut::Bytes(v) => (rn, format!("bytes: {:?}", v), None),
                            MainOut::Trap(t) => (rn, "trap".to_owned(), Some(t)),
                            MainOut::Panic(p) => (rn, format!("crash: {}", p), None),
                            o => (rn, format!("{:?}", o), None),
                        },
                    }
                })
                .collect();
            ctx.class(&format!("{}{}{}", shape(&prog.p), outs[0].1.len().min(40), inp.is_some()));
            if outs.iter().any(|o| o.1 != outs[0].1) {
                let d = outs.iter().map(|o| format!("{}: {} {:?}", o.0, shorten(&o.1, 400), o.2)).collect::<Vec<_>>().join("\n");
                ctx.fail(&format!("runners disagree (optimize {})", optimize), format!("input {:?}\n{}", inp, d), &prog.srcs);
                return;
            }
            for o in &outs {
                if let Some(t) = &o.2 {
                    ctx.count("traps", 1);
                    let known = hs.iter().any(|h| *t == format!("encountered ?{}", h)) || *t == "encountered ?unreachable";
                    if !known {
                        ctx.fail("trap message names no hole of the program", format!("{}: {}", o.0, t), &prog.srcs);
                        return;
                    }
                    if !optimize && hs.len() == 1 && outs.iter().any(|x| x.2 != o.2) {
                        ctx.fail("trap messages disagree", format!("{:?}", outs), &prog.srcs);
                        return;
                    }
                }
            }
            if inp.is_some() {
                ctx.count("main_runs_compared", 1);
            }
        }
    }
    ctx.count("programs_compared", 1);
    ctx.sample(|| json!({"main_module": shorten(&prog.srcs.last().unwrap().1, 500), "holes": hs}));
}

// ---- P16: the optimizer preserves meaning --------------------------------------

pub fn p16(ctx: &mut Ctx) {
    let mut r = ctx.rng("P16");
    let mut cfg = run_cfg(&mut r);
    if r.chance(25) {
        cfg.hole = 2;
    }
    let Some(prog) = subject(ctx, &mut r, &cfg, MILD, 35) else { return };
    let mut ev = Eval::new(&prog.p, &prog.info, FUEL);
    if matches!(ev.run(), Err(crate::refeval::Stop::Fuel | crate::refeval::Stop::Depth)) {
        ctx.count("skipped_reference_out_of_fuel", 1);
        return;
    }
    let main = has_main(&prog);
    let Some(mut plain) = accepted(ctx, &prog.srcs, false) else { return };
    let Some(mut opt) = accepted(ctx, &prog.srcs, true) else { return };
    let size = |u: &mut cut::CompilationUnit| guard(|| u.emit_ir().len()).unwrap_or(0);
    let (a, b) = (size(&mut plain), size(&mut opt));
    ctx.count("ir_bytes_before", a as u64);
    ctx.count("ir_bytes_after", b as u64);
    for rn in RUNNERS {
        ctx.eval();
        let x = cut::run(&mut plain, rn);
        let y = cut::run(&mut opt, rn);
        let good = match (&x, &y) {
            (Out::Panic(_), _) => return,
            (Out::Values(a), Out::Values(b)) => a == b,
            (Out::Trap(_), Out::Values(_) | Out::Trap(_)) => {
                ctx.count("trapping_programs", 1);
                true
            }
            _ => false,
        };
        if !good {
            let d = match (&x, &y) {
                (Out::Values(a), Out::Values(b)) => first_diff(a, b),
                _ => format!("unoptimized {}\noptimized {}", shorten(&format!("{:?}", x), 400), shorten(&format!("{:?}", y), 400)),
            };
            ctx.fail(&format!("optimization changed the result ({})", rn), d, &prog.srcs);
            return;
        }
        if main && matches!(x, Out::Values(_)) {
            for _ in 0..2 {
                let i = input(&mut r);
                if ev.run_main(&i).is_err() {
                    continue;
                }
                ctx.eval();
                let x = cut::run_main(&mut plain, rn, &i);
                let y = cut::run_main(&mut opt, rn, &i);
                let good = match (&x, &y) {
                    (MainOut::Panic(_), _) => return,
                    (MainOut::Trap(_), MainOut::Trap(_) | MainOut::Bytes(_)) => true,
                    _ => x == y,
                };
                if !good {
                    ctx.fail(&format!("optimization changed the output of main ({})", rn), format!("input {:?}\nunoptimized {:?}\noptimized {:?}", i, x, y), &prog.srcs);
                    return;
                }
            }
        }
    }
    if a != b {
        ctx.class(&format!("{}/{}", shape(&prog.p), b * 8 / a.max(1)));
    }
    ctx.sample(|| json!({"main_module": shorten(&prog.srcs.last().unwrap().1, 500), "ir_bytes": [a, b]}));
}

// ---- P18: meaning does not depend on layout or names ----------------------------

pub fn p18(ctx: &mut Ctx) {
    let mut r = ctx.rng("P18");
    let mut cfg = run_cfg(&mut r);
    cfg.extra_parens = 0;
    let Some(prog) = subject(ctx, &mut r, &cfg, PLAIN, 15) else { return };
    let mut ev = Eval::new(&prog.p, &prog.info, FUEL);
    if ev.run().is_err() {
        return;
    }
    let optimize = r.chance(50);
    let rn = *r.pick(&RUNNERS);
    let Some(mut base) = accepted(ctx, &prog.srcs, optimize) else { return };
    let Out::Values(expected) = cut::run(&mut base, rn) else { return };
    for k in 0..5 {
        let mut p = prog.p.clone();
        let what = match k {
            0 => {
                "layout and comments"
            }
            1 => {
                crate::mutate::rename_locals(&mut p, &prog.info, &mut r);
                "renaming of local variables"
            }
            2 => {
                crate::mutate::add_parens(&mut p, &mut r);
                "redundant parentheses"
            }
            3 => {
                crate::mutate::add_unused(&mut p, &mut r);
                "unused definitions"
            }
            _ => {
                crate::mutate::rename_private(&mut p, &prog.info, &mut r);
                "renaming of private definitions"
            }
        };
        let (_, srcs) = print_all(&p, &mut r, if k == 0 { FANCY } else { PLAIN });
        ctx.eval();
        let c = guard(|| cut::compile(&srcs, cut::opts(optimize)));
        let mut u = match c {
            Ok((u, ds)) => {
                if let Some(d) = ds.iter().flatten().find(|d| d.error) {
                    ctx.fail(&format!("rejected after a change of {}", what), format!("{:?}", d), &srcs);
                    return;
                }
                u
            }
            Err(e) => {
                ctx.fail(&format!("crash after a change of {}", what), e, &srcs);
                return;
            }
        };
        match cut::run(&mut u, rn) {
            Out::Values(v) if v == expected => {}
            o => {
                let d = match &o {
                    Out::Values(v) => first_diff(&expected, v),
                    o => format!("{:?}", o),
                };
                ctx.fail(&format!("result changed by {}", what), d, &srcs);
                return;
            }
        }
        ctx.count(what, 1);
    }
    ctx.class(&shape(&prog.p));
    ctx.sample(|| json!({"main_module": shorten(&prog.srcs.last().unwrap().1, 400)}));
}

// ---- P17: syntax -------------------------------------------------------------------

/// Single tokens and brackets are disturbed so that most results are close to
/// being programs.
pub fn disturb(r: &mut Rng, s: &str) -> String {
    match r.below(10) {
        0 => crate::textgen::damage(s, r),
        1 | 2 => crate::textgen::shuffle_tokens(s, r),
        3 => s.to_owned(),
        _ => {
            let toks = crate::props_front::lex(s);
            let mut words: Vec<(String, &str)> = vec![];
            let mut at = 0;
            for t in &toks {
                words.push((s[t.1..t.2].to_owned(), &s[at..t.1]));
                at = t.2;
            }
            for _ in 0..if r.chance(70) { 1 } else { r.range(1, 3) } {
                if words.len() < 3 {
                    break;
                }
                let k = r.below(words.len() - 1);
                let ops = ["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>"];
                match r.below(9) {
                    0 => {
                        words.remove(k);
                    }
                    1 => {
                        let w = words[k].clone();
                        words.insert(k, w);
                    }
                    2 => words.swap(k, k + 1),
                    // parentheses move or go
                    3 => {
                        if let Some(j) = (0..words.len()).map(|j| (j + k) % words.len()).find(|&j| words[j].0 == "(") {
                            let mut depth = 0;
                            let mut e = j;
                            while e < words.len() {
                                match &*words[e].0 {
                                    "(" => depth += 1,
                                    ")" => depth -= 1,
                                    _ => {}
                                }
                                if depth == 0 {
                                    break;
                                }
                                e += 1;
                            }
                            if e < words.len() {
                                words.remove(e);
                                words.remove(j);
                            }
                        }
                    }
                    4 => {
                        let e = (k + r.range(1, 6)).min(words.len());
                        words.insert(e, (")".into(), " "));
                        words.insert(k, ("(".into(), " "));
                    }
                    5 | 6 => {
                        if let Some(j) = (0..words.len()).map(|j| (j + k) % words.len()).find(|&j| ops.contains(&&*words[j].0)) {
                            words[j].0 = (*r.pick(&ops)).to_owned();
                        }
                    }
                    7 => {
                        let a = words[k].0.clone();
                        words.insert(k + 1, ((*r.pick(&ops)).to_owned(), " "));
                        words.insert(k + 2, (a, " "));
                    }
                    _ => {
                        let w = words[r.below(words.len())].0.clone();
                        words[k].0 = w;
                    }
                }
            }
            let mut out = String::new();
            for (w, sp) in words {
                out.push_str(sp);
                if sp.is_empty() {
                    out.push(' ');
                }
                out.push_str(&w);
                if w.starts_with("--") {
                    out.push('\n');
                }
            }
            out.push('\n');
            out
        }
    }
}

/// Unparenthesised chains of operators: most are of the right type when
/// grouped as they should be, and hardly any when grouped otherwise.
fn chains(r: &mut Rng) -> String {
    let mut s = String::from("let f : int -> int = \\x -> x * 3 + 1;\nlet g : int -> bool = \\x -> x % 2 == 1;\nlet h : bool -> int = \\b -> if b then 5 else 8;\nlet k : int -> int -> int = \\a -> \\b -> a * 10 + b;\n");
    fn atom(r: &mut Rng, s: &mut String, d: usize) {
        match r.below(12) {
            0 => *s += "f 2",
            1 => *s += "h true",
            2 => {
                *s += "k ";
                *s += &r.below(9).to_string();
                *s += " 4";
            }
            3 if d > 0 => {
                *s += "(";
                sum(r, s, d - 1);
                *s += ")";
            }
            4 if d > 0 => {
                *s += "if ";
                truth(r, s, d - 1);
                *s += " then ";
                sum(r, s, d - 1);
                *s += " else ";
                atom(r, s, 0);
            }
            _ => *s += &r.below(30).to_string(),
        }
    }
    fn sum(r: &mut Rng, s: &mut String, d: usize) {
        atom(r, s, d);
        for _ in 0..r.below(4) {
            *s += r.pick(&[" + ", " - ", " * ", " / ", " % "]);
            atom(r, s, d);
        }
    }
    fn truth(r: &mut Rng, s: &mut String, d: usize) {
        sum(r, s, d);
        *s += r.pick(&[" < ", " <= ", " > ", " >= ", " == ", " != "]);
        sum(r, s, d);
    }
    for i in 0..r.range(1, 5) {
        let mut int = r.chance(50);
        let mut e = String::new();
        if int { sum(r, &mut e, 2) } else { truth(r, &mut e, 2) }
        for _ in 0..r.below(4) {
            e += match (int, r.below(5)) {
                (true, 0) => " |> f",
                (true, 1) => " |> k 7",
                (true, 2) => {
                    int = false;
                    " |> g"
                }
                (true, _) => " |> k 3 |> f",
                (false, _) => {
                    int = true;
                    " |> h"
                }
            };
        }
        // operators that bind tighter than what is before them
        if r.chance(30) {
            let op = *r.pick(&["==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "|>"]);
            e += &format!(" {} {}", op, r.pick(&["3", "2 + 1", "f 1", "true", "h false"]));
            if r.chance(50) {
                int = op.len() == 1 && !"<>".contains(op);
            }
            if r.chance(30) {
                e += r.pick(&[" |> h", " |> f", " |> g", " == 2"]);
            }
        }
        s += &format!("let v{} : {} = {};\n", i, if int { "int" } else { "bool" }, e);
        if r.chance(50) {
            let j = r.below(i + 1);
            s += &format!("export let w{} : int = {}v{} |> {};\n", i, r.pick(&["", "2 + ", "2 != "]), j, r.pick(&["f", "h", "k 1"]));
        }
    }
    s
}

pub fn p17(ctx: &mut Ctx) {
    let mut r = ctx.rng("P17");
    let mut cfg = run_cfg(&mut r);
    cfg.modules = (1, 1);
    cfg.budget = cfg.budget.min(60);
    cfg.items = (1, 5);
    cfg.extra_parens = *r.pick(&[0, 10, 30]);
    let text = if r.chance(12) {
        crate::textgen::text(&mut r)
    } else if r.chance(8) {
        let t = chains(&mut r);
        if r.chance(60) { t } else { disturb(&mut r, &t) }
    } else {
        let Some(prog) = well_typed(&mut r, &cfg, MILD) else { return };
        disturb(&mut r, &prog.srcs[0].1)
    };
    let mut p = Project::new();
    let mut next = 0;
    let parsed = crate::refparse::parse(&text, &mut next);
    p.next_id = next;
    p.modules.push(Module { path: "main".into(), items: parsed.items });
    let info = crate::refcheck::check(&p);
    let srcs: Files = vec![("main".into(), text.clone())];
    ctx.begin(&srcs);
    let Ok((mut u, ds)) = guard(|| cut::compile(&srcs, cut::opts(false))) else {
        ctx.count("skipped_panic_in_front_end", 1);
        return;
    };
    ctx.eval();
    let errs: Vec<_> = ds[0].iter().filter(|d| d.error).collect();
    let n = parsed.spans.len();
    // item n is everything after the last complete item
    let item_of = |at: usize| (0..n).find(|&k| at < parsed.spans[k].1).unwrap_or(n);
    let got = errs.iter().map(|d| item_of(d.start)).min();
    let expected = info.first_error_item(0).or(parsed.error.map(|_| n));
    let whats: Vec<&str> = info.errors.iter().filter(|e| Some(e.item) == expected).map(|e| e.what).collect();
    if got != expected {
        let key = match (expected, got) {
            (Some(n2), _) if n2 == n && parsed.error.is_some() && got.map_or(true, |g| g > n) => "text that breaks the grammar is accepted".to_owned(),
            (None, Some(_)) => format!("text that follows all rules is rejected: {}", errs[0].message),
            (Some(a), g) if g.map_or(true, |g| g > a) => format!("not rejected in its definition: {:?}", whats.first()),
            _ => format!("definition that follows all rules is rejected: {}", errs[0].message),
        };
        ctx.fail(&key, format!("the grammar stops fitting at {:?}; first definition at fault should be {:?} of {} ({:?}), is {:?}; errors {:?}", parsed.error, expected, n, whats, got, errs), &srcs);
        return;
    }
    if let Some(bad) = parsed.error {
        ctx.count("texts_outside_the_grammar", 1);
        // the first complaint about syntax is at the first token that cannot be right
        let found = match bad {
            Some(s) => errs.iter().any(|d| (d.start, d.end) == s),
            None => errs.iter().any(|d| item_of(d.start) == n || d.start >= parsed.spans.last().map_or(0, |s| s.1)),
        };
        if !found {
            ctx.fail("syntax error is reported at the wrong place", format!("the first token that fits no program is at {:?} {:?}; errors {:?}", bad, bad.map(|s| &text[s.0..s.1]), errs), &srcs);
            return;
        }
        let tok = bad.map(|s| text[s.0..s.1].chars().take(8).collect::<String>());
        ctx.class(&format!("{:?}|{}", tok, errs[0].message));
        ctx.sample(|| json!({"text": shorten(&text, 300), "bad_token": tok, "message": errs[0].message}));
        return;
    }
    ctx.count("texts_of_the_grammar", 1);
    if expected.is_some() {
        ctx.count("rejected_for_other_rules", 1);
        return;
    }
    // what an accepted text means depends on how it is grouped
    let mut ev = Eval::new(&p, &info, FUEL);
    let Ok(want) = ev.run() else {
        ctx.count("skipped_reference_out_of_fuel", 1);
        return;
    };
    ctx.eval();
    let out = cut::run(&mut u, Runner::Treewalk);
    ctx.count("accepted_and_run", 1);
    ctx.class(&shape(&p));
    match (&want, &out) {
        (Outcome::Values(a), Out::Values(b)) if same_values(a, b) => {}
        (Outcome::Trap(_), Out::Trap(_)) => {}
        _ => ctx.fail("accepted text is read differently", format!("expected {}\n     got {}", shorten(&format!("{:?}", want), 400), shorten(&format!("{:?}", out), 400)), &srcs),
    }
}
