//! P36: what the complaint about a syntax error says.
use crate::cut::{self, guard};
use crate::driver::Ctx;
use crate::print::MILD;
use crate::props_front::{lex, LK};
use crate::props_sem::{disturb, run_cfg};
use crate::refparse;
use crate::rng::Rng;
use crate::util::*;
use serde_json::json;

/// What a token is called in a complaint, and an example of it.
const TOKENS: &[(&str, &str)] = &[
    ("name", "x"), ("hole", "?h"), ("number", "1"), ("string", "\"s\""),
    ("`import`", "import"), ("`from`", "from"), ("`export`", "export"), ("`let`", "let"), ("`match`", "match"), ("`with`", "with"),
    ("`end`", "end"), ("`if`", "if"), ("`then`", "then"), ("`else`", "else"), ("`type`", "type"), ("`int`", "int"), ("`bool`", "bool"),
    ("`string`", "string"), ("`true`", "true"), ("`false`", "false"), ("`fold`", "fold"), ("`rec`", "rec"), ("`:`", ":"), ("`=`", "="),
    ("`+`", "+"), ("`-`", "-"), ("`*`", "*"), ("`/`", "/"), ("`%`", "%"), ("`<`", "<"), ("`<=`", "<="), ("`>`", ">"), ("`>=`", ">="),
    ("`==`", "=="), ("`!=`", "!="), ("`|>`", "|>"), ("`(`", "("), ("`)`", ")"), ("`\\`", "\\"), ("`->`", "->"), ("`|`", "|"),
    ("`,`", ","), ("`.`", "."), ("`;`", ";"),
];

/// Tokens that can begin something of the kind.
fn starts(kind: &str) -> Option<&'static [&'static str]> {
    Some(match kind {
        "definition" => &["type", "export", "let"],
        "type" => &["int", "bool", "string", "rec", "(", "x"],
        "expression" => &["let", "match", "if", "true", "false", "(", "\\", "x", "?h", "1", "\"s\""],
        "operator" => &["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>"],
        _ => return None,
    })
}

fn called(text: &str) -> Option<&'static str> {
    let l = lex(text);
    let w = match l.first()?.0 {
        LK::Ident => "x",
        LK::Hole => "?h",
        LK::Number => "1",
        LK::Str => "\"s\"",
        _ => text,
    };
    TOKENS.iter().find(|t| t.1 == w).map(|t| t.0)
}

/// Whether a program can begin with `prefix` followed by the word.
fn fits(prefix: &str, word: &str) -> bool {
    let s = format!("{}\n{}", prefix, word);
    let at = prefix.len() + 1;
    let mut next = 0;
    !matches!(refparse::parse(&s, &mut next).error, Some(Some((a, _))) if a <= at)
}

fn list(m: &str) -> Option<Vec<&str>> {
    let m = m.strip_prefix("expected ")?;
    let mut v: Vec<&str> = vec![];
    if let Some((a, b)) = m.rsplit_once(", or ") {
        v.extend(a.split(", "));
        v.push(b);
    } else if let Some((a, b)) = m.split_once(" or ") {
        v.extend([a, b]);
    } else {
        v.push(m);
    }
    // a comma itself
    let mut out: Vec<&str> = vec![];
    for x in v {
        out.push(x);
    }
    Some(out)
}

fn text(r: &mut Rng) -> Option<String> {
    if r.chance(8) {
        return Some(crate::textgen::text(r));
    }
    let mut cfg = run_cfg(r);
    cfg.modules = (1, 1);
    cfg.budget = cfg.budget.min(60);
    cfg.items = (1, 5);
    cfg.extra_parens = *r.pick(&[0, 10, 30]);
    let prog = some_typed(r, &cfg, MILD)?;
    // the last module imports from the others
    let s = &prog.srcs.last().unwrap().1;
    let toks: Vec<_> = lex(s).into_iter().filter(|t| t.0 != LK::Comment).collect();
    if toks.is_empty() {
        return None;
    }
    // favour the ends of tokens everywhere, and few of the many expressions
    let k = r.below(toks.len());
    Some(match r.below(10) {
        0..=4 => {
            // another token in its place or before it
            let w = if r.chance(4) { *r.pick(&["@", "\"", "\u{e9}", "!", "?", "'"]) } else { r.pick(TOKENS).1 };
            let rest = if r.chance(50) { &s[toks[k].2..] } else { &s[toks[k].1..] };
            format!("{} {} {}", &s[..toks[k].1], w, rest)
        }
        5..=7 => s[..if r.chance(50) { toks[k].1 } else { toks[k].2 }].to_owned(),
        _ => disturb(r, s),
    })
}

pub fn p36(ctx: &mut Ctx) {
    let mut r = ctx.rng("P36");
    let Some(text) = text(&mut r) else { return };
    let mut next = 0;
    let parsed = refparse::parse(&text, &mut next);
    let Some(bad) = parsed.error else {
        ctx.count("texts_of_the_grammar", 1);
        return;
    };
    let srcs: Files = vec![("main".into(), text.clone())];
    ctx.begin(&srcs);
    let from = parsed.spans.last().map_or(0, |s| s.1);
    let end = bad.map_or(text.len(), |s| s.0);
    let prefix = &text[from..end];
    let place = bad.unwrap_or_else(|| {
        // an error at the end is right behind the last token
        let e = lex(&text).into_iter().filter(|t| t.0 != LK::Comment).last().map_or(0, |t| t.2);
        (e, e)
    });
    let Ok(ds) = guard(|| cut::compile(&srcs, cut::opts(false)).1) else {
        ctx.count("skipped_panic_in_front_end", 1);
        return;
    };
    ctx.eval();
    let syntax = |m: &str| m == "bad token" || (m.starts_with("expected ") && list(m.split(", got ").next().unwrap()).map_or(false, |l| l.iter().all(|x| starts(x).is_some() || TOKENS.iter().any(|t| t.0 == *x))));
    let at: Vec<_> = ds[0].iter().filter(|d| d.error && (d.start, d.end) == place && syntax(&d.message)).collect();
    let Some(d) = at.first() else {
        let errs: Vec<_> = ds[0].iter().filter(|d| d.error).collect();
        ctx.fail("no complaint about syntax at the first token that does not fit", format!("place {:?}; errors {:?}", place, errs), &srcs);
        return;
    };
    let found = bad.map(|s| &text[s.0..s.1]);
    let kind = found.map(|t| called(t).unwrap_or("bad token"));
    ctx.count("complaints", 1);
    if kind == Some("bad token") || d.message == "bad token" {
        ctx.class("bad token");
        if d.message != "bad token" || kind != Some("bad token") {
            ctx.fail("complaint about the wrong thing", format!("at {:?} {:?}: {}", place, found, d.message), &srcs);
        }
        return;
    }
    let (said, got) = match d.message.split_once(", got ") {
        Some((a, b)) => (a, Some(b)),
        None => (&*d.message, None),
    };
    if got != kind {
        ctx.fail("complaint names another token than the one that is there", format!("at {:?} {:?} ({:?}): {}", place, found, kind, d.message), &srcs);
        return;
    }
    let said = list(said).unwrap();
    let fitting: Vec<&(&str, &str)> = TOKENS.iter().filter(|t| fits(prefix, t.1)).collect();
    ctx.class(&format!("{:?} {:?}", said, kind));
    ctx.count("tokens_tried", TOKENS.len() as u64);
    for (i, s) in said.iter().enumerate() {
        let ok = match starts(s) {
            Some(st) => st.iter().any(|w| fitting.iter().any(|f| f.1 == *w)),
            None => fitting.iter().any(|f| f.0 == *s),
        };
        if !ok || said[..i].contains(s) {
            ctx.fail(&format!("complaint offers what does not fit: {}", s), format!("after {:?}: {}; fits: {:?}", shorten(prefix, 300), d.message, fitting), &srcs);
            return;
        }
    }
    // a `rec` outside of a type's definition is a type in the wrong place
    let complete = found != Some("rec");
    for f in fitting.iter().filter(|_| complete) {
        if !said.iter().any(|s| *s == f.0 || starts(s).map_or(false, |st| st.contains(&f.1))) {
            ctx.fail(&format!("complaint does not offer what fits: {}", f.0), format!("after {:?}: {}; fits: {:?}", shorten(prefix, 300), d.message, fitting), &srcs);
            return;
        }
    }
    ctx.sample(|| json!({"after": shorten(prefix, 200), "message": d.message}));
}
