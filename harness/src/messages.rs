//! P40: names and numbers in complaints are right.
use crate::cut::Diag;
use crate::driver::Ctx;
use crate::lang::*;
use crate::mutate;
use crate::print::{FANCY, MILD};
use crate::props_front::{compile, front_cfg, lex, rule_of, scope_rule, LK};
use crate::refcheck::{self, RefError};
use crate::util::*;
use serde_json::json;
use std::collections::HashMap;

fn numbers(m: &str) -> Vec<usize> {
    m.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter_map(|w| w.parse().ok()).collect()
}

/// Which rule a complaint is about, with those on matches.
fn rule(m: &str) -> Option<&'static str> {
    scope_rule(m).or_else(|| {
        if m.starts_with("pattern") && m.ends_with(" not covered") {
            Some("missing patterns")
        } else if m.starts_with("expected ") && m.contains(" field") {
            Some("wrong number of fields")
        } else {
            None
        }
    })
}

fn rule_ref(what: &'static str) -> Option<&'static str> {
    match what {
        "missing patterns" | "wrong number of fields" => Some(what),
        _ => rule_of(what),
    }
}

/// What is wrong with a complaint that belongs to an error.
fn judge(rule: &str, m: &str, e: &RefError) -> Option<String> {
    match rule {
        // constructors that the standard library keeps to itself
        "missing patterns" if e.names.is_empty() => None,
        "missing patterns" => {
            let (_, list) = m.split_once(' ')?;
            let list = list.strip_suffix(" not covered")?;
            let mut named: Vec<&str> = list.split(" and ").collect();
            let more = match named.last().and_then(|l| l.strip_suffix(" more")) {
                Some(k) => {
                    named.pop();
                    match k.parse::<usize>() {
                        Ok(k) => k,
                        Err(_) => return Some(format!("`{}` is not a number", k)),
                    }
                }
                None => 0,
            };
            let mut left = e.names.clone();
            for n in &named {
                match left.iter().position(|x| x == n) {
                    Some(k) => {
                        left.remove(k);
                    }
                    None => return Some(format!("`{}` is not missing, {:?} are", n, e.names)),
                }
            }
            if left.len() != more {
                return Some(format!("{} are left out, and it says {}; {:?} are missing", left.len(), more, e.names));
            }
            None
        }
        "wrong number of fields" => (numbers(m) != e.numbers).then(|| format!("should say {:?}", e.numbers)),
        "wrong number of type arguments" => {
            let (name, rest) = m.split_once(' ')?;
            // types of other modules are not named
            if name != "???" && name != e.names[0] {
                return Some(format!("the type is called `{}`", e.names[0]));
            }
            (numbers(rest) != e.numbers).then(|| format!("should say {:?}", e.numbers))
        }
        "duplicate constructor" => (m.rsplit(' ').next() != Some(&e.names[0])).then(|| format!("the constructor is `{}`", e.names[0])),
        "not exported" => {
            let other = m.contains(" is not a ");
            if other != (e.numbers[0] == 1) {
                return Some(format!("the name is {}exported as something else", if other { "not " } else { "" }));
            }
            if other {
                let kind = match e.what {
                    "type not exported" => "type",
                    "value not exported" => "value",
                    _ => "constructor",
                };
                (m != format!("{} is not a {}", e.names[0], kind)).then(|| format!("it is about the {} `{}`", kind, e.names[0]))
            } else {
                (m.rsplit(' ').next() != Some(&e.names[0])).then(|| format!("the name is `{}`", e.names[0]))
            }
        }
        _ => None,
    }
}

/// Names in the text of a type, or what is wrong with the text.
fn type_names(t: &str) -> Result<Vec<String>, String> {
    #[derive(Clone, PartialEq)]
    enum T {
        Name(String),
        P(char),
        Arrow,
        Fat,
    }
    let mut toks = vec![];
    let mut cs = t.chars().peekable();
    while let Some(c) = cs.next() {
        match c {
            ' ' => {}
            '(' | ')' | '{' | '}' => toks.push(T::P(c)),
            '-' if cs.peek() == Some(&'>') => {
                cs.next();
                toks.push(T::Arrow);
            }
            '=' if cs.peek() == Some(&'>') => {
                cs.next();
                toks.push(T::Fat);
            }
            c if c.is_alphanumeric() || c == '_' || c == '?' => {
                let mut w = c.to_string();
                while let Some(&c) = cs.peek().filter(|c| c.is_alphanumeric() || **c == '_' || **c == '?') {
                    w.push(c);
                    cs.next();
                }
                toks.push(T::Name(w));
            }
            c => return Err(format!("`{}` in a type", c)),
        }
    }
    struct P {
        t: Vec<T>,
        i: usize,
    }
    impl P {
        fn fun(&mut self) -> bool {
            if !self.app() {
                return false;
            }
            while self.t.get(self.i) == Some(&T::Arrow) {
                self.i += 1;
                if !self.app() {
                    return false;
                }
            }
            true
        }
        fn app(&mut self) -> bool {
            let mut n = 0;
            while self.atom() {
                n += 1;
            }
            n > 0
        }
        fn atom(&mut self) -> bool {
            let at = self.i;
            let ok = match self.t.get(at) {
                Some(T::Name(_)) => {
                    self.i += 1;
                    true
                }
                Some(T::P('(')) => {
                    self.i += 1;
                    self.fun() && self.eat(')')
                }
                Some(T::P('{')) => {
                    self.i += 1;
                    self.fun() && {
                        self.i += 1;
                        self.t.get(self.i - 1) == Some(&T::Fat)
                    } && self.fun()
                        && self.eat('}')
                }
                _ => false,
            };
            if !ok {
                self.i = at;
            }
            ok
        }
        fn eat(&mut self, c: char) -> bool {
            self.i += 1;
            self.t.get(self.i - 1) == Some(&T::P(c))
        }
    }
    let mut p = P { t: toks, i: 0 };
    if !p.fun() || p.i != p.t.len() {
        return Err("not a type".into());
    }
    Ok(p.t.into_iter().filter_map(|t| if let T::Name(n) = t { Some(n) } else { None }).collect())
}

/// What is wrong with a complaint, whatever it is about.
fn judge_alone(d: &Diag, src: &str, types: &HashMap<String, usize>) -> Option<String> {
    let m = d.message.as_str();
    let text = src.get(d.start..d.end)?;
    // names that mean one thing in the whole file
    let clear = |n: &String| matches!(n.as_str(), "int" | "bool" | "string") || n.starts_with(|c: char| c.is_ascii_uppercase()) && types.get(n) == Some(&1);
    if let Some(n) = m.strip_suffix(" is never used") {
        return (n != text).then(|| format!("it is about `{}`", text));
    }
    if m == "invalid number" {
        return text.bytes().all(|b| b.is_ascii_digit()).then(|| "all are digits".into());
    }
    if m == "number is too large" {
        return text.parse::<u64>().is_ok().then(|| "it is not".into());
    }
    if let Some(t) = m.strip_prefix("cannot match on ") {
        return match type_names(t) {
            Err(e) => Some(e),
            Ok(ns) if !t.contains("->") && clear(&ns[0]) && types.contains_key(&ns[0]) => Some("one can match on it".into()),
            Ok(_) => None,
        };
    }
    if m.contains(" field") || !d.error {
        return None;
    }
    if let Some((a, b)) = m.strip_prefix("expected ").and_then(|m| m.split_once(", got ")) {
        let (na, nb) = match (type_names(a), type_names(b)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) | (_, Err(e)) => return Some(e),
        };
        if a == b && na.iter().chain(&nb).all(clear) {
            return Some("both are the same".into());
        }
    }
    None
}

pub fn p40(ctx: &mut Ctx) {
    let mut r = ctx.rng("P40");
    let cfg = front_cfg(&mut r);
    let mut p = some_project(&mut r, &cfg);
    let mut done = vec![];
    for _ in 0..r.range(1, 8) {
        let kinds = match r.below(10) {
            0..=4 => mutate::MATCH_EDITS,
            5..=7 => mutate::SCOPE_EDITS,
            _ => mutate::TYPE_EDITS,
        };
        let k = *r.pick(kinds);
        done.push(mutate::mutate_kind(&mut p, &mut r, k));
    }
    if done.contains(&"emptied") {
        return;
    }
    mutate::dedup_ids(&mut p);
    p.fix_parens();
    let info = refcheck::check(&p);
    let style = if r.chance(50) { MILD } else { FANCY };
    let (printed, srcs) = print_all(&p, &mut r, style);
    let Some((_, ds)) = compile(ctx, &srcs) else { return };
    for m in 0..p.modules.len() {
        ctx.eval();
        let mut types: HashMap<String, usize> = HashMap::new();
        for i in &p.modules[m].items {
            if let Item::Type(t) = i {
                *types.entry(t.name.s.clone()).or_insert(0) += 1;
            }
            if let Item::Import(i) = i {
                for n in i.exposed.iter().flatten() {
                    *types.entry(n.s.clone()).or_insert(0) += 2;
                }
            }
        }
        for d in &ds[m] {
            ctx.count("messages", 1);
            if let Some(bad) = judge_alone(d, &srcs[m].1, &types) {
                ctx.fail(&format!("wrong complaint: {}", bad), format!("edits {:?}; module {} at {}..{}: `{}`: {}", done, srcs[m].0, d.start, d.end, srcs[m].1.get(d.start..d.end).unwrap_or(""), d.message), &srcs);
                return;
            }
        }
        let toks: Vec<_> = lex(&srcs[m].1).into_iter().filter(|t| t.0 != LK::Comment).collect();
        let mut seen = vec![];
        for e in info.errors.iter().filter(|e| e.module == m) {
            let Some(rule_e) = rule_ref(e.what) else { continue };
            // what a match is about is a matter of types
            if rule_e == "missing patterns" && info.errors.iter().any(|x| x.module == m && x.item == e.item && !matches!(x.what, "missing patterns" | "unreachable pattern")) {
                continue;
            }
            let span = if rule_e == "missing patterns" { printed[m].expr_span(e.node) } else { printed[m].name_span(e.node) };
            let Some(span) = span else { continue };
            // a qualified name may be reported at its module part
            let mut starts = vec![span.0];
            if let Some(k) = toks.iter().position(|t| t.1 == span.0) {
                if k >= 2 && &srcs[m].1[toks[k - 1].1..toks[k - 1].2] == "." {
                    starts.push(toks[k - 2].1);
                }
            }
            for d in ds[m].iter().filter(|d| d.error && rule(&d.message) == Some(rule_e) && starts.contains(&d.start)) {
                if rule_e == "missing patterns" && d.end != span.1 {
                    continue;
                }
                ctx.count(&format!("judged: {}", rule_e), 1);
                seen.push((rule_e, e.numbers.clone(), e.names.len()));
                if let Some(bad) = judge(rule_e, &d.message, e) {
                    ctx.fail(&format!("wrong complaint about {}", rule_e), format!("edits {:?}; module {} at {}..{}: `{}`: {}; {}", done, srcs[m].0, d.start, d.end, shorten(srcs[m].1.get(d.start..d.end).unwrap_or(""), 300), d.message, bad), &srcs);
                    return;
                }
            }
        }
        if !seen.is_empty() {
            let kinds: Vec<String> = ds[m].iter().filter(|d| d.error).map(|d| d.message.split(' ').next().unwrap_or("").to_owned()).collect();
            ctx.class(&format!("{:?} {:?}", seen, kinds));
            ctx.sample(|| json!({"edits": done, "messages": ds[m].iter().filter(|d| d.error).map(|d| d.message.clone()).take(6).collect::<Vec<_>>()}));
        }
        if info.first_error_item(m).is_some() || ds[m].iter().any(|d| d.error) {
            return;
        }
    }
}
