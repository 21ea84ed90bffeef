//! Properties about checking programs and about questions editors ask.
use crate::cut::{self, guard, Diag};
use crate::driver::Ctx;
use crate::gen::Cfg;
use crate::lang::*;
use crate::mutate;
use crate::print::{FANCY, MILD, PLAIN, TK};
use crate::refcheck::{self, Info, Kind};
use crate::rng::Rng;
use crate::util::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub fn front_cfg(rng: &mut Rng) -> Cfg {
    let mut c = Cfg::front();
    match rng.below(10) {
        0..=2 => {}
        3 => {
            c.modules = (2, 5);
            c.items = (2, 5);
            c.budget = 25;
        }
        4 => c.std = 90,
        5 => {
            c.std = 0;
            c.unannotated = 70;
        }
        6 => {
            c.poly = 80;
            c.budget = 70;
        }
        7 => {
            c.modules = (1, 1);
            c.items = (6, 14);
        }
        8 => {
            c.depth = 7;
            c.budget = 120;
        }
        _ => {
            c.items = (3, 8);
            c.export = 15;
        }
    }
    c
}

/// As `front_cfg`, now and then with modules of hundreds of definitions.
fn query_cfg(rng: &mut Rng) -> Cfg {
    let mut c = front_cfg(rng);
    if rng.chance(3) {
        c.modules = (1, 1);
        c.items = (100, 300);
        c.budget = 12;
        c.depth = 3;
    }
    c
}

pub fn compile(ctx: &mut Ctx, srcs: &Files) -> Option<(cut::CompilationUnit, Vec<Vec<Diag>>)> {
    ctx.begin(srcs);
    match guard(|| cut::compile(srcs, cut::opts(false))) {
        Ok(x) => Some(x),
        Err(_) => {
            ctx.count("skipped_panic_in_front_end", 1);
            None
        }
    }
}

// ---- P08: well-formed programs are accepted -----------------------------------

pub fn p08(ctx: &mut Ctx) {
    let mut r = ctx.rng("P08");
    let cfg = front_cfg(&mut r);
    let prog = if r.chance(25) {
        ctx.count("terms", 1);
        crate::families::prog_of(&mut r, 7, FANCY)
    } else {
        well_typed(&mut r, &cfg, FANCY)
    };
    let Some(prog) = prog else { return };
    ctx.begin(&prog.srcs);
    let ds = match guard(|| cut::compile(&prog.srcs, cut::opts(false))) {
        Ok(x) => x.1,
        Err(e) => {
            ctx.fail(&format!("crash while checking a well-formed program: {}", e), e, &prog.srcs);
            return;
        }
    };
    for (m, d) in ds.iter().enumerate() {
        ctx.eval();
        ctx.count("items_accepted", prog.p.modules[m].items.len() as u64);
        if let Some(d) = d.iter().find(|d| d.error) {
            ctx.fail(&format!("rejected a well-formed program: {}", d.message), format!("module {} at {}..{}: {}", prog.srcs[m].0, d.start, d.end, d.message), &prog.srcs);
            return;
        }
    }
    ctx.class(&shape(&prog.p));
    ctx.sample(|| json!({"main_module": shorten(&prog.srcs.last().unwrap().1, 500)}));
}

// ---- P09, P10, P12: ill-formed programs are rejected where they are wrong -------

fn reject(ctx: &mut Ctx, prop: &str, kinds: &[usize]) {
    let mut r = ctx.rng(prop);
    let cfg = front_cfg(&mut r);
    let mut p = some_project(&mut r, &cfg);
    let mut done = vec![];
    for _ in 0..r.range(1, 3) {
        let k = *r.pick(kinds);
        done.push(mutate::mutate_kind(&mut p, &mut r, k));
    }
    if done.iter().all(|d| d.is_empty()) || done.contains(&"emptied") {
        return;
    }
    mutate::dedup_ids(&mut p);
    p.fix_parens();
    judge(ctx, r, p, done)
}

fn judge(ctx: &mut Ctx, mut r: Rng, p: Project, done: Vec<&'static str>) {
    let info = refcheck::check(&p);
    let style = if r.chance(50) { MILD } else { FANCY };
    let (printed, srcs) = print_all(&p, &mut r, style);
    let Some((_, ds)) = compile(ctx, &srcs) else { return };
    for m in 0..p.modules.len() {
        ctx.eval();
        let expected = info.first_error_item(m);
        let spans: Vec<(usize, usize)> = (0..printed[m].items.len()).map(|i| printed[m].item_span(i)).collect();
        let item_of = |d: &Diag| spans.iter().rposition(|s| s.0 <= d.start).unwrap_or(0);
        let got = ds[m].iter().filter(|d| d.error).map(|d| (item_of(d), d)).min_by_key(|x| x.0);
        let whats: Vec<&str> = info.errors.iter().filter(|e| e.module == m && Some(e.item) == expected).map(|e| e.what).collect();
        match (expected, &got) {
            (None, None) => {
                ctx.count("still_well_formed", 1);
                continue;
            }
            (Some(a), Some((b, d))) if a == *b => {
                // the complaint is about text of the item it belongs to
                if d.end < d.start || d.start > spans[a].1 {
                    ctx.fail("error is reported outside its item", format!("{:?} but the item is {:?}", d, spans[a]), &srcs);
                    return;
                }
                for w in &whats {
                    ctx.count(&format!("rejected: {}", w), 1);
                    ctx.class(&format!("{}|{}|{}", w, done.join("+"), d.message.split(' ').next().unwrap_or("")));
                }
                ctx.sample(|| json!({"edit": done, "why": whats, "diagnostic": d.message, "module": shorten(&srcs[m].1, 400)}));
            }
            (Some(a), None) => {
                ctx.fail(&format!("accepted although: {}", whats[0]), format!("edit {:?}; module {} item {} ({:?}) should be rejected: {:?}", done, srcs[m].0, a, spans[a], whats), &srcs);
            }
            (Some(a), Some((b, d))) if a < *b => {
                ctx.fail(&format!("not reported in its item: {}", whats[0]), format!("edit {:?}; module {} item {} ({:?}) should be rejected: {:?}; first error is {:?} in item {}", done, srcs[m].0, a, spans[a], whats, d, b), &srcs);
            }
            (_, Some((b, d))) => {
                ctx.fail(&format!("rejected although well-formed: {}", d.message), format!("edit {:?}; module {} item {} ({:?}): {:?}; the reference finds {:?} in item {:?}", done, srcs[m].0, b, spans[*b], d, whats, expected), &srcs);
            }
        }
        // what an erroneous module means for its importers is not specified
        return;
    }
}

pub fn p09(ctx: &mut Ctx) {
    let mut r = ctx.rng("P09 terms");
    if r.chance(35) {
        let slips = *r.pick(&[3u64, 10, 25, 60]);
        let holes = r.chance(30);
        let text = crate::terms::module(&mut r, slips, holes);
        let Some(mut p) = crate::families::read(&text) else {
            ctx.count("terms_unreadable", 1);
            return;
        };
        p.fix_parens();
        ctx.count("terms", 1);
        judge(ctx, r, p, vec!["terms"]);
        return;
    }
    reject(ctx, "P09", mutate::TYPE_EDITS)
}

pub fn p12(ctx: &mut Ctx) {
    reject(ctx, "P12", mutate::SCOPE_EDITS)
}

// ---- P10: match coverage ----------------------------------------------------------

pub fn p10(ctx: &mut Ctx) {
    let mut r = ctx.rng("P10");
    let cfg = front_cfg(&mut r);
    let mut p = some_project(&mut r, &cfg);
    let mut done = vec![];
    for _ in 0..r.range(0, 3) {
        let k = *r.pick(mutate::MATCH_EDITS);
        done.push(mutate::mutate_kind(&mut p, &mut r, k));
    }
    if done.contains(&"emptied") {
        return;
    }
    mutate::dedup_ids(&mut p);
    p.fix_parens();
    let info = refcheck::check(&p);
    // look at the first module with errors only, and only when all of the
    // errors are about coverage
    let Some(m) = (0..p.modules.len()).find(|&m| info.first_error_item(m).is_some()).or(Some(p.modules.len() - 1)) else { return };
    let errs: Vec<_> = info.errors.iter().filter(|e| e.module == m).collect();
    if errs.iter().any(|e| e.what != "missing patterns" && e.what != "unreachable pattern" && e.what != "cannot match") {
        ctx.count("skipped_other_errors", 1);
        return;
    }
    let (printed, srcs) = print_all(&p, &mut r, MILD);
    let Some((_, ds)) = compile(ctx, &srcs) else { return };
    let got: Vec<&Diag> = ds[m].iter().filter(|d| d.error).collect();
    let mut missing: Vec<(usize, usize)> = vec![];
    let mut unreachable: Vec<(usize, usize)> = vec![];
    let mut opaque: Vec<(usize, usize)> = vec![];
    for e in &errs {
        if e.what == "cannot match" {
            opaque.extend(printed[m].expr_span(e.node));
        } else if e.what == "missing patterns" {
            missing.extend(printed[m].expr_span(e.node));
        } else {
            unreachable.extend(printed[m].name_span(e.node));
        }
    }
    let mut n_matches = 0u64;
    for i in &p.modules[m].items {
        if let Item::Value(v) = i {
            count_matches(&v.expr, &mut n_matches);
        }
    }
    ctx.evals += n_matches.max(1);
    ctx.count("matches_checked", n_matches);
    ctx.count("incomplete_matches", missing.len() as u64);
    ctx.count("unreachable_cases", unreachable.len() as u64);
    ctx.count("matches_on_opaque_values", opaque.len() as u64);
    // every expected complaint is there, and nothing else
    let mut left: Vec<&Diag> = got.clone();
    for s in &missing {
        match left.iter().position(|d| (d.start, d.end) == *s) {
            Some(k) => {
                left.remove(k);
            }
            None => {
                ctx.fail("incomplete match not reported", format!("edits {:?}; match at {:?} misses constructors; diagnostics {:?}", done, s, got), &srcs);
                return;
            }
        }
    }
    for s in &opaque {
        match left.iter().position(|d| (d.start, d.end) == *s) {
            Some(k) => {
                left.remove(k);
            }
            None => {
                ctx.fail("match on a value without constructors not reported", format!("edits {:?}; match on {:?}; diagnostics {:?}", done, s, got), &srcs);
                return;
            }
        }
    }
    for s in &unreachable {
        // cases nest: the one that belongs to this constructor is the smallest
        let found = (0..left.len()).filter(|&k| left[k].start <= s.0 && s.1 <= left[k].end && !missing.contains(&(left[k].start, left[k].end))).min_by_key(|&k| left[k].end - left[k].start);
        match found {
            Some(k) => {
                left.remove(k);
            }
            None => {
                ctx.fail("unreachable case not reported", format!("edits {:?}; case at {:?} repeats a constructor; diagnostics {:?}", done, s, got), &srcs);
                return;
            }
        }
    }
    if let Some(d) = left.first() {
        ctx.fail(&format!("complaint about a complete match: {}", d.message), format!("edits {:?}; {:?}", done, d), &srcs);
        return;
    }
    if n_matches > 0 {
        ctx.class(&format!("{}|{}|{}|{}", n_matches, missing.len(), unreachable.len(), shape(&p)));
        ctx.sample(|| json!({"module": shorten(&srcs[m].1, 400), "incomplete": missing, "unreachable": unreachable}));
    }
}

fn count_matches(e: &Expr, n: &mut u64) {
    if matches!(&*e.k, EK::Match(..)) {
        *n += 1;
    }
    for c in e.children() {
        count_matches(c, n);
    }
}

// ---- P11: warnings about unused names ----------------------------------------------

pub fn p11(ctx: &mut Ctx) {
    let mut r = ctx.rng("P11");
    let mut cfg = front_cfg(&mut r);
    cfg.export = *r.pick(&[5, 20, 45, 90]);
    let mut p = some_project(&mut r, &cfg);
    for _ in 0..r.below(3) {
        let k = *r.pick(&[10, 10, 24, 25, 28, 29, 32]);
        mutate::mutate_kind(&mut p, &mut r, k);
    }
    if r.chance(50) {
        // unused things on purpose, also with an underscore
        mutate::add_unused(&mut p, &mut r);
    }
    mutate::dedup_ids(&mut p);
    p.fix_parens();
    let info = refcheck::check(&p);
    let (printed, srcs) = print_all(&p, &mut r, MILD);
    let Some((_, ds)) = compile(ctx, &srcs) else { return };
    for m in 0..p.modules.len() {
        if info.first_error_item(m).is_some() {
            return;
        }
        ctx.eval();
        let (must, may) = info.unused(m);
        let expected: BTreeSet<(usize, usize)> = must.iter().filter_map(|&id| printed[m].name_span(id)).collect();
        let may: BTreeSet<(usize, usize)> = may.iter().filter_map(|&id| printed[m].name_span(id)).filter(|s| !expected.contains(s)).collect();
        let got: BTreeSet<(usize, usize)> = ds[m].iter().filter(|d| !d.error).map(|d| (d.start, d.end)).filter(|s| !may.contains(s)).collect();
        ctx.count("warnings_expected", expected.len() as u64);
        ctx.count("definitions", info.modules[m].sites.len() as u64);
        if expected != got {
            let t = &srcs[m].1;
            let names = |s: &BTreeSet<(usize, usize)>, o: &BTreeSet<(usize, usize)>| s.difference(o).map(|x| format!("{}@{}", &t[x.0..x.1], x.0)).collect::<Vec<_>>();
            let miss = names(&expected, &got);
            let extra = names(&got, &expected);
            let key = if extra.is_empty() { "unused name not reported" } else { "used name reported as unused" };
            ctx.fail(key, format!("module {}: missing {:?}, extra {:?}", srcs[m].0, miss, extra), &srcs);
            return;
        }
        ctx.class(&format!("{}|{}|{}", expected.len(), info.modules[m].sites.len(), shape(&p)));
    }
    ctx.sample(|| json!({"main_module": shorten(&srcs.last().unwrap().1, 400)}));
}

// ---- P05: navigation -----------------------------------------------------------------

/// name tokens of a module: (span, name id)
fn names(printed: &crate::print::Printed) -> Vec<((usize, usize), Id)> {
    let mut v: Vec<((usize, usize), Id)> = printed.name_tok.iter().map(|(&id, &t)| (printed.spans[t], id)).collect();
    v.sort();
    v
}

fn at(ns: &[((usize, usize), Id)], pos: usize) -> Option<Id> {
    ns.iter().find(|(s, _)| s.0 <= pos && pos <= s.1).map(|x| x.1)
}

fn first_site(info: &Info, m: usize, ent: usize) -> Option<Id> {
    info.modules[m].sites.iter().find(|s| s.ent == ent).map(|s| s.name)
}

fn positions(text: &str, ns: &[((usize, usize), Id)], r: &mut Rng) -> Vec<usize> {
    let mut ps: BTreeSet<usize> = BTreeSet::new();
    for ((a, b), _) in ns {
        ps.insert(*a);
        ps.insert(*b);
        ps.insert((a + b) / 2);
        if *a > 0 {
            ps.insert(a - 1);
        }
        ps.insert(b + 1);
    }
    for _ in 0..12 {
        ps.insert(r.below(text.len() + 1));
    }
    let mut v: Vec<usize> = ps.into_iter().filter(|p| *p <= text.len() && text.is_char_boundary(*p)).collect();
    // long modules: a random selection is enough
    while v.len() > 160 {
        let k = r.below(v.len());
        v.swap_remove(k);
    }
    v
}

pub fn p05(ctx: &mut Ctx) {
    let mut r = ctx.rng("P05");
    let cfg = query_cfg(&mut r);
    let Some(prog) = some_typed(&mut r, &cfg, FANCY) else { return };
    let Some((_, ds)) = compile(ctx, &prog.srcs) else { return };
    if ds.iter().flatten().any(|d| d.error) {
        ctx.count("skipped_rejected", 1);
        return;
    }
    let m = prog.p.modules.len() - 1;
    let info = &prog.info;
    let pr = &prog.printed[m];
    let text = &prog.srcs[m].1;
    let ns = names(pr);
    let mut u = cut::fresh_main(&prog.srcs, cut::opts(false));
    for pos_ in positions(text, &ns, &mut r) {
        ctx.evals += 2;
        let here = at(&ns, pos_);
        let ent = here.and_then(|id| info.res.get(&id).or_else(|| info.site_of.get(&id)).copied());
        let is_use = here.map_or(false, |id| info.res.contains_key(&id));
        let want_def = match (here, ent) {
            (Some(_), Some(e)) if is_use => first_site(info, m, e).and_then(|n| pr.name_span(n)),
            (Some(id), Some(_)) => pr.name_span(id),
            _ => None,
        };
        let want_refs = match ent {
            Some(e) if first_site(info, m, e).is_some() => {
                let mut v: Vec<_> = info.modules[m].refs.iter().filter(|x| x.1 == e).filter_map(|x| pr.name_span(x.0)).collect();
                v.sort();
                Some(v)
            }
            _ => None,
        };
        let got = guard(|| {
            let d = u.find_definition(pos(pos_)).map(|s| (s.start().source_pos(), s.end().source_pos()));
            let rf = u.find_references(pos(pos_)).map(|v| {
                let mut v: Vec<_> = v.iter().map(|s| (s.start().source_pos(), s.end().source_pos())).collect();
                v.sort();
                v
            });
            (d, rf)
        });
        let (d, rf) = match got {
            Ok(x) => x,
            Err(e) => {
                ctx.fail(&format!("crash while navigating: {}", e), format!("position {}", pos_), &prog.srcs);
                return;
            }
        };
        let name = here.and_then(|id| pr.name_span(id)).map(|s| text[s.0..s.1].to_owned()).unwrap_or_default();
        if d != want_def {
            ctx.fail("wrong definition", format!("position {} ({}): expected {:?}, got {:?}", pos_, name, want_def, d), &prog.srcs);
            return;
        }
        if rf != want_refs {
            ctx.fail("wrong references", format!("position {} ({}): expected {:?}, got {:?}", pos_, name, want_refs, rf), &prog.srcs);
            return;
        }
        if let Some(e) = ent {
            ctx.count("positions_on_names", 1);
            if is_use {
                ctx.count("uses", 1);
            }
            let k = match &info.ents[e].kind {
                Kind::Value { .. } => "v",
                Kind::StdValue { .. } => "s",
                Kind::Ctor { .. } => "c",
                Kind::Type { .. } => "t",
                Kind::TypeVar => "p",
                Kind::Module(_) => "m",
            };
            let shadowed = info.modules[m].sites.iter().filter(|s| info.ents[s.ent].name == info.ents[e].name).count().min(4);
            ctx.class(&format!("{}{}{}{:?}", k, is_use, shadowed, want_refs.as_ref().map(|v| v.len().min(12))));
        }
    }
    ctx.sample(|| json!({"module": shorten(text, 400), "names": ns.len()}));
}

// ---- P06: hover --------------------------------------------------------------------

pub fn p06(ctx: &mut Ctx) {
    let mut r = ctx.rng("P06");
    let cfg = query_cfg(&mut r);
    let Some(prog) = some_typed(&mut r, &cfg, FANCY) else { return };
    let Some((_, ds)) = compile(ctx, &prog.srcs) else { return };
    if ds.iter().flatten().any(|d| d.error) {
        ctx.count("skipped_rejected", 1);
        return;
    }
    let m = prog.p.modules.len() - 1;
    let info = &prog.info;
    let pr = &prog.printed[m];
    let text = &prog.srcs[m].1;
    let ns = names(pr);
    // expressions in source order, parents first
    let mut exprs: Vec<((usize, usize), Id)> = vec![];
    for i in &prog.p.modules[m].items {
        if let Item::Value(v) = i {
            all_exprs(&v.expr, pr, &mut exprs);
        }
    }
    let mut u = cut::fresh_main(&prog.srcs, cut::opts(false));
    for pos_ in positions(text, &ns, &mut r) {
        ctx.eval();
        let here = at(&ns, pos_);
        let ent = here.and_then(|id| info.res.get(&id).or_else(|| info.site_of.get(&id)).copied());
        let mut want: Option<((usize, usize), String)> = None;
        if let (Some(id), Some(e)) = (here, ent) {
            if first_site(info, m, e).is_some() {
                let name = &info.ents[e].name;
                let doc = match &info.ents[e].kind {
                    Kind::Value { ty, .. } => Some(format!("{}: {}", name, info.show(info.binder_ty.get(&e).unwrap_or(ty), m))),
                    Kind::StdValue { ty, .. } => Some(format!("{}: {}", name, info.show(ty, m))),
                    Kind::Ctor { fn_ty, .. } => Some(format!("{}: {}", name, info.show(fn_ty, m))),
                    Kind::Type { params, .. } => Some(format!("{}: *{}", name, " -> *".repeat(*params))),
                    Kind::TypeVar => Some(format!("{}: *", name)),
                    Kind::Module(_) => None,
                };
                want = doc.map(|d| (pr.name_span(id).unwrap(), d));
            }
        }
        let on_name = want.is_some();
        if want.is_none() {
            want = exprs.iter().rev().find(|(s, _)| s.0 <= pos_ && pos_ <= s.1).map(|(s, id)| (*s, info.show(&info.expr_ty[id], m)));
        }
        let got = guard(|| u.info(pos(pos_)).map(|i| ((i.span.start().source_pos(), i.span.end().source_pos()), i.doc)));
        let got = match got {
            Ok(g) => g,
            Err(e) => {
                ctx.fail(&format!("crash in hover: {}", e), format!("position {}", pos_), &prog.srcs);
                return;
            }
        };
        if got != want {
            ctx.fail(if on_name { "wrong hover on a name" } else { "wrong hover on an expression" }, format!("position {}: expected {:?}, got {:?}", pos_, want, got), &prog.srcs);
            return;
        }
        if let Some((_, d)) = want {
            ctx.count(if on_name { "names_described" } else { "expressions_described" }, 1);
            let d = if on_name { d.split(": ").nth(1).unwrap_or("").to_owned() } else { d };
            ctx.class(&d);
        }
    }
    ctx.sample(|| json!({"module": shorten(text, 400)}));
}

fn all_exprs(e: &Expr, pr: &crate::print::Printed, out: &mut Vec<((usize, usize), Id)>) {
    out.push((pr.expr_span(e.id).unwrap(), e.id));
    for c in e.children() {
        all_exprs(c, pr, out);
    }
}

// ---- P07: completion ------------------------------------------------------------------

pub fn p07(ctx: &mut Ctx) {
    let mut r = ctx.rng("P07");
    let cfg = query_cfg(&mut r);
    let Some(prog) = some_typed(&mut r, &cfg, FANCY) else { return };
    let Some((_, ds)) = compile(ctx, &prog.srcs) else { return };
    if ds.iter().flatten().any(|d| d.error) {
        ctx.count("skipped_rejected", 1);
        return;
    }
    let info = refcheck::check_with(&prog.p, true);
    let m = prog.p.modules.len() - 1;
    let pr = &prog.printed[m];
    let text = &prog.srcs[m].1;
    let ns = names(pr);
    let mut u = cut::fresh_main(&prog.srcs, cut::opts(false));
    let mut order: Vec<usize> = (0..ns.len()).collect();
    r.shuffle(&mut order);
    for &k in order.iter().take(60) {
        let ((a, b), id) = ns[k];
        let p_ = *r.pick(&[a, b, (a + b) / 2]);
        let want = info.visible.get(&id);
        ctx.eval();
        let got = guard(|| u.completions(pos(p_)).map(|v| v.into_iter().map(|c| c.name).collect::<Vec<_>>()));
        let got = match got {
            Ok(g) => g,
            Err(e) => {
                ctx.fail(&format!("crash in completion: {}", e), format!("position {}", p_), &prog.srcs);
                return;
            }
        };
        match (want, &got) {
            (Some((usage, w)), Some(g)) if w == g => {
                ctx.count("completions_compared", 1);
                ctx.class(&format!("{:?}{}", usage, w.join(",")));
                let at = p_;
                ctx.sample(|| json!({"position": at, "offered": g.len(), "module": shorten(text, 300)}));
            }
            (None, None) => ctx.count("definitions_without_completion", 1),
            (want, got) => {
                let (usage, w) = match want {
                    Some((u, w)) => (format!("{:?}", u), w.clone()),
                    None => ("definition".into(), vec![]),
                };
                let g: Vec<String> = got.clone().unwrap_or_default();
                let miss: Vec<_> = w.iter().filter(|x| !g.contains(x)).take(8).collect();
                let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).take(8).collect();
                ctx.fail(&format!("wrong completions ({})", usage), format!("position {} in `{}`: missing {:?}, extra {:?}, answered {}", p_, &text[a..b], miss, extra, got.is_some()), &prog.srcs);
                return;
            }
        }
    }
}

// ---- P02: highlighting ------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LK {
    Keyword,
    Punct,
    Op,
    Number,
    Str,
    Ident,
    Hole,
    Comment,
    Error,
}

/// An independent lexer: tokens and comments with their spans.
pub fn lex(s: &str) -> Vec<(LK, usize, usize)> {
    let b = s.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let st = i;
        let c = b[i];
        let next = b.get(i + 1).copied().unwrap_or(0);
        let kind = if c == b' ' || c == b'\n' {
            i += 1;
            continue;
        } else if c == b'\r' && next == b'\n' {
            i += 2;
            continue;
        } else if c.is_ascii_digit() {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            LK::Number
        } else if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            match &s[st..i] {
                "import" | "from" | "type" | "int" | "bool" | "string" | "rec" | "export" | "let" | "match" | "with" | "end" | "if" | "then" | "else" | "true" | "false" | "fold" => LK::Keyword,
                _ => LK::Ident,
            }
        } else if c == b'?' && word(next) {
            i += 1;
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            LK::Hole
        } else if c == b'-' && next == b'-' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            LK::Comment
        } else if c == b'"' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b'"' && b[j] != b'\n' && b[j] != b'\\' {
                j += 1;
            }
            if j < b.len() && b[j] == b'"' {
                i = j + 1;
                LK::Str
            } else {
                // an unterminated string is an error up to the point where it had to end
                i = j;
                LK::Error
            }
        } else {
            let two = s.get(i..i + 2).unwrap_or("");
            match two {
                "->" => {
                    i += 2;
                    LK::Punct
                }
                "<=" | ">=" | "==" | "!=" | "|>" => {
                    i += 2;
                    LK::Op
                }
                _ => {
                    let k = match c {
                        b'=' | b'|' | b',' | b'.' | b'(' | b')' | b':' | b';' | b'\\' => LK::Punct,
                        b'+' | b'-' | b'*' | b'/' | b'%' | b'<' | b'>' => LK::Op,
                        _ => LK::Error,
                    };
                    i += s[i..].chars().next().unwrap().len_utf8();
                    k
                }
            }
        };
        out.push((kind, st, i));
    }
    out
}

fn group(k: cut::TokenKind) -> (LK, &'static str) {
    use cut::TokenKind as K;
    match k {
        K::Keyword => (LK::Keyword, "keyword"),
        K::Type => (LK::Ident, "type"),
        K::TypeVariable => (LK::Ident, "type variable"),
        K::Ctor => (LK::Ident, "ctor"),
        K::Value => (LK::Ident, "value"),
        K::Function => (LK::Ident, "value"),
        K::Operator => (LK::Op, "operator"),
        K::Punctuation => (LK::Punct, "punctuation"),
        K::Number => (LK::Number, "number"),
        K::String => (LK::Str, "string"),
        K::Comment => (LK::Comment, "comment"),
    }
}

fn check_tokens(ctx: &mut Ctx, text: &str, toks: &[cut::Token], files: &Files) -> bool {
    let want: Vec<_> = lex(text).into_iter().filter(|t| t.0 != LK::Error).collect();
    let mut got: Vec<(LK, usize, usize)> = toks.iter().map(|t| (group(t.kind).0, t.span.start().source_pos(), t.span.end().source_pos())).collect();
    // holes are shown like values
    for (g, w) in got.iter_mut().zip(&want) {
        if g.0 == LK::Ident && w.0 == LK::Hole && (g.1, g.2) == (w.1, w.2) {
            g.0 = LK::Hole;
        }
    }
    ctx.eval();
    ctx.count("tokens", want.len() as u64);
    if got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        ctx.fail(
            "highlighting differs from the text's tokens",
            format!("token {}: expected {:?}, got {:?} ({} expected, {} got)\nnear {:?}", k, want.get(k), got.get(k), want.len(), got.len(), want.get(k).map(|w| text.get(w.1..w.2))),
            files,
        );
        return false;
    }
    true
}

pub fn p02(ctx: &mut Ctx) {
    let mut r = ctx.rng("P02");
    if r.chance(55) {
        let text = crate::textgen::text(&mut r);
        let files = vec![("main".to_owned(), text.clone())];
        ctx.begin(&files);
        let got = guard(|| cut::CompilationUnit::new(&text, cut::opts(false), crate::textgen::resolver()).tokens().collect::<Vec<_>>());
        match got {
            Ok(t) => {
                if check_tokens(ctx, &text, &t, &files) {
                    ctx.class(&lex(&text).iter().take(6).map(|t| format!("{:?}", t.0)).collect::<String>());
                }
            }
            Err(_) => ctx.count("skipped_panic_in_front_end", 1),
        }
        return;
    }
    let cfg = front_cfg(&mut r);
    let Some(prog) = some_typed(&mut r, &cfg, FANCY) else { return };
    let Some((mut u, ds)) = compile(ctx, &prog.srcs) else { return };
    if ds.iter().flatten().any(|d| d.error) {
        ctx.count("skipped_rejected", 1);
        return;
    }
    let m = prog.p.modules.len() - 1;
    let text = &prog.srcs[m].1;
    let Ok(toks) = guard(|| u.tokens().collect::<Vec<_>>()) else { return };
    if !check_tokens(ctx, text, &toks, &prog.srcs) {
        return;
    }
    let pr = &prog.printed[m];
    let info = &prog.info;
    // kinds of names that are defined or imported in this module
    let mut kinds: HashMap<(usize, usize), BTreeSet<&'static str>> = HashMap::new();
    let known: HashSet<usize> = info.modules[m].sites.iter().map(|s| s.ent).collect();
    let label = |e: usize| match &info.ents[e].kind {
        Kind::Value { .. } | Kind::StdValue { .. } => "value",
        Kind::Ctor { .. } => "ctor",
        Kind::Type { .. } => "type",
        Kind::TypeVar => "type variable",
        Kind::Module(_) => "type",
    };
    for s in &info.modules[m].sites {
        if let Some(sp) = pr.name_span(s.name) {
            kinds.entry(sp).or_default().insert(label(s.ent));
        }
    }
    for (id, e, _) in &info.modules[m].refs {
        if known.contains(e) {
            if let Some(sp) = pr.name_span(*id) {
                kinds.entry(sp).or_default().insert(label(*e));
            }
        }
    }
    for t in &toks {
        let sp = (t.span.start().source_pos(), t.span.end().source_pos());
        if let Some(ks) = kinds.get(&sp) {
            ctx.count("names_classified", 1);
            let g = group(t.kind).1;
            if !ks.contains(g) {
                ctx.fail("wrong highlighting of a name", format!("`{}` at {:?}: expected {:?}, got {}", &text[sp.0..sp.1], sp, ks, g), &prog.srcs);
                return;
            }
        }
    }
    ctx.class(&shape(&prog.p));
    ctx.sample(|| json!({"module": shorten(text, 300), "tokens": toks.len()}));
    let _ = TK::Op;
}

// ---- P03: answers do not depend on earlier questions -------------------------------------

#[derive(Clone, Copy, Debug)]
enum Q {
    Diags,
    Tokens,
    Def(usize),
    Refs(usize),
    Info(usize),
    Compl(usize),
}

fn ask(u: &mut cut::CompilationUnit, q: Q) -> String {
    match q {
        Q::Diags => format!("{:?}", cut::diags(u)),
        Q::Tokens => format!("{:?}", u.tokens().map(|t| (format!("{:?}", t.kind), t.span.start().source_pos(), t.span.end().source_pos())).collect::<Vec<_>>()),
        Q::Def(p) => format!("{:?}", u.find_definition(pos(p)).map(|s| (s.start().source_pos(), s.end().source_pos()))),
        Q::Refs(p) => format!("{:?}", u.find_references(pos(p)).map(|v| v.iter().map(|s| (s.start().source_pos(), s.end().source_pos())).collect::<Vec<_>>())),
        Q::Info(p) => format!("{:?}", u.info(pos(p)).map(|i| (i.span.start().source_pos(), i.span.end().source_pos(), i.doc))),
        Q::Compl(p) => format!("{:?}", u.completions(pos(p)).map(|v| v.into_iter().map(|c| c.name).collect::<Vec<_>>())),
    }
}

pub fn p03(ctx: &mut Ctx) {
    let mut r = ctx.rng("P03");
    let cfg = front_cfg(&mut r);
    let mut p = some_project(&mut r, &cfg);
    if r.chance(50) {
        for _ in 0..r.range(1, 3) {
            mutate::mutate(&mut p, &mut r);
        }
        mutate::dedup_ids(&mut p);
        p.fix_parens();
    }
    let (_, mut srcs) = print_all(&p, &mut r, FANCY);
    if r.chance(25) {
        let last = srcs.last_mut().unwrap();
        last.1 = crate::textgen::damage(&last.1, &mut r);
    }
    ctx.begin(&srcs);
    let text = srcs.last().unwrap().1.clone();
    let spots: Vec<usize> = lex(&text).iter().flat_map(|t| [t.1, t.2, (t.1 + t.2) / 2]).filter(|p| text.is_char_boundary(*p)).collect();
    let n = r.range(3, 14);
    let qs: Vec<Q> = (0..n)
        .map(|_| {
            let at = if spots.is_empty() || r.chance(10) { r.below(text.len() + 1) } else { *r.pick(&spots) };
            match r.below(10) {
                0 => Q::Diags,
                1 => Q::Tokens,
                2 | 3 => Q::Def(at),
                4 | 5 => Q::Refs(at),
                6 | 7 => Q::Info(at),
                _ => Q::Compl(at),
            }
        })
        .collect();
    // each question to a unit that was never asked anything
    let lib = match guard(|| library(&srcs)) {
        Ok(l) => l,
        Err(_) => {
            ctx.count("skipped_panic_in_front_end", 1);
            return;
        }
    };
    let fresh = || cut::CompilationUnit::new(&text, cut::opts(false), lib.clone());
    let mut alone = vec![];
    for &q in &qs {
        match guard(|| ask(&mut fresh(), q)) {
            Ok(a) => alone.push(a),
            Err(_) => {
                ctx.count("skipped_panic_in_front_end", 1);
                return;
            }
        }
    }
    for _ in 0..3 {
        let mut order: Vec<usize> = (0..qs.len()).collect();
        r.shuffle(&mut order);
        let extra = r.below(qs.len());
        order.push(extra);
        let mut u = fresh();
        let mut asked = vec![];
        for &k in &order {
            ctx.eval();
            asked.push(qs[k]);
            match guard(|| ask(&mut u, qs[k])) {
                Ok(a) if a == alone[k] => {}
                Ok(a) => {
                    ctx.fail(&format!("answer depends on earlier questions ({:?})", qs[k]), format!("questions {:?}\nalone: {}\nafter: {}", asked, shorten(&alone[k], 400), shorten(&a, 400)), &srcs);
                    return;
                }
                Err(e) => {
                    ctx.fail("crash only after earlier questions", format!("questions {:?}: {}", asked, e), &srcs);
                    return;
                }
            }
        }
        ctx.class(&format!("{:?}", order.iter().map(|&k| format!("{:?}", qs[k]).chars().take(3).collect::<String>()).collect::<Vec<_>>()));
    }
    ctx.count("units", qs.len() as u64 + 3);
    ctx.sample(|| json!({"questions": format!("{:?}", qs), "module": shorten(&text, 300)}));
}

/// The compiled imports of the last module.
pub fn library(srcs: &Files) -> std::sync::Arc<cut::MapResolver> {
    let mut map = HashMap::new();
    for (path, text) in &srcs[..srcs.len() - 1] {
        let u = cut::CompilationUnit::new(text, cut::opts(false), std::sync::Arc::new(cut::MapResolver { map: map.clone() }));
        map.insert(path.clone(), u.complete());
    }
    std::sync::Arc::new(cut::MapResolver { map })
}

// ---- P01: any text gets answers -----------------------------------------------------------

pub fn p01(ctx: &mut Ctx) {
    let mut r = ctx.rng("P01");
    let text = crate::textgen::text(&mut r);
    let mut srcs: Files = vec![];
    if r.chance(30) {
        // something to import, possibly broken itself
        let lib = if r.chance(50) { crate::textgen::text(&mut r) } else { "export let x : int = 1;\nexport type T a = export A a | B rec;\nexport let f : b -> T b = \\x -> A x;\n".to_owned() };
        srcs.push(("a".into(), lib));
    }
    srcs.push(("main".into(), text.clone()));
    ctx.begin(&srcs);
    let valid = |a: usize, b: usize| a <= b && b <= text.len() && text.is_char_boundary(a) && text.is_char_boundary(b);
    let lib = match guard(|| {
        let mut map = HashMap::new();
        if srcs.len() > 1 {
            map.insert("a".to_owned(), cut::CompilationUnit::new(&srcs[0].1, cut::opts(false), crate::textgen::resolver()).complete());
        }
        std::sync::Arc::new(cut::MapResolver { map })
    }) {
        Ok(l) => l,
        Err(e) => {
            ctx.fail(&format!("crash: {}", e), format!("compiling an imported module: {}", e), &srcs);
            return;
        }
    };
    let mut u = cut::CompilationUnit::new(&text, cut::opts(false), lib.clone());
    if r.chance(40) {
        // questions in the middle first
        let at = r.below(text.len() + 1);
        if let Err(e) = guard(|| ask(&mut u, Q::Info(at))) {
            ctx.fail(&format!("crash: {}", e), format!("hover at {}: {}", at, e), &srcs);
            return;
        }
    }
    ctx.eval();
    let ds = match guard(|| cut::diags(&mut u)) {
        Ok(d) => d,
        Err(e) => {
            ctx.fail(&format!("crash: {}", e), format!("diagnostics: {}", e), &srcs);
            return;
        }
    };
    for d in &ds {
        if !valid(d.start, d.end) {
            ctx.fail("diagnostic outside the text", format!("{:?}, text is {} bytes", d, text.len()), &srcs);
            return;
        }
        if d.message.is_empty() {
            ctx.fail("diagnostic without a message", format!("{:?}", d), &srcs);
            return;
        }
    }
    ctx.count("diagnostics", ds.len() as u64);
    let clean = !ds.iter().any(|d| d.error);
    ctx.count(if clean { "texts_without_errors" } else { "texts_with_errors" }, 1);
    if text.bytes().any(|b| b == b'#' || b == b'\t') && clean {
        // these characters only mean something inside strings and comments
        if lex(&text).iter().any(|t| t.0 == LK::Error) {
            ctx.fail("text with a stray character is accepted", "no error reported".into(), &srcs);
            return;
        }
    }
    match guard(|| u.tokens().map(|t| (t.span.start().source_pos(), t.span.end().source_pos())).collect::<Vec<_>>()) {
        Ok(t) => {
            let mut last = 0;
            for (a, b) in t {
                if !valid(a, b) || a < last || a == b {
                    ctx.fail("token outside the text or out of order", format!("{}..{}", a, b), &srcs);
                    return;
                }
                last = b;
            }
        }
        Err(e) => {
            ctx.fail(&format!("crash: {}", e), format!("tokens: {}", e), &srcs);
            return;
        }
    }
    // questions at many positions
    let mut ps: Vec<usize> = (0..=text.len()).collect();
    if ps.len() > 80 {
        r.shuffle(&mut ps);
        ps.truncate(80);
    }
    let by_item = cut::CompilationUnit::new(&text, cut::opts(false), lib);
    let mut lazy = by_item;
    for p_ in ps {
        let unit = if r.chance(50) { &mut u } else { &mut lazy };
        let q = match r.below(4) {
            0 => Q::Def(p_),
            1 => Q::Refs(p_),
            2 => Q::Info(p_),
            _ => Q::Compl(p_),
        };
        ctx.eval();
        let res = guard(|| -> Option<(usize, usize)> {
            match q {
                Q::Def(p) => unit.find_definition(pos(p)).map(|s| (s.start().source_pos(), s.end().source_pos())),
                Q::Refs(p) => unit.find_references(pos(p)).and_then(|v| v.iter().map(|s| (s.start().source_pos(), s.end().source_pos())).find(|s| !valid(s.0, s.1))),
                Q::Info(p) => unit.info(pos(p)).map(|i| (i.span.start().source_pos(), i.span.end().source_pos())),
                _ => unit.completions(pos(p_)).map(|_| (0, 0)),
            }
        });
        match res {
            Ok(Some((a, b))) if !valid(a, b) => {
                ctx.fail("answer outside the text", format!("{:?}: {}..{}", q, a, b), &srcs);
                return;
            }
            Ok(_) => {}
            Err(e) => {
                ctx.fail(&format!("crash: {}", e), format!("{:?}: {}", q, e), &srcs);
                return;
            }
        }
    }
    // as a module for others
    if let Err(e) = guard(|| u.complete()) {
        ctx.fail(&format!("crash: {}", e), format!("complete: {}", e), &srcs);
        return;
    }
    let mut by_msg: BTreeMap<String, u32> = BTreeMap::new();
    for d in &ds {
        *by_msg.entry(d.message.chars().take(18).collect()).or_insert(0) += 1;
    }
    ctx.class(&by_msg.keys().take(3).cloned().collect::<Vec<_>>().join("|"));
    ctx.sample(|| json!({"text": shorten(&text, 300), "diagnostics": ds.len()}));
    let _ = PLAIN;
}

// ---- P34: scope errors, each at its name --------------------------------------------

/// Which rule a message is about, for rules that are judged name by name.
pub fn scope_rule(message: &str) -> Option<&'static str> {
    let ends = |s: &str| message.ends_with(s);
    Some(match message {
        "undefined variable" => "undefined variable",
        "undefined type" => "undefined type",
        "undefined constructor" => "undefined constructor",
        "undefined module" => "undefined module",
        "cannot find module" => "missing module",
        "invalid number" | "number is too large" => "bad number",
        m if m.starts_with("module does not export ") || ends(" is not a type") || ends(" is not a value") || ends(" is not a constructor") => "not exported",
        m if m.starts_with("duplicate constructor ") => "duplicate constructor",
        m if m.contains(" expects ") && m.contains(" type arguments, got ") => "wrong number of type arguments",
        _ => return None,
    })
}

pub fn rule_of(what: &'static str) -> Option<&'static str> {
    Some(match what {
        "undefined variable" | "undefined type" | "undefined constructor" | "undefined module" | "missing module" | "duplicate constructor" | "wrong number of type arguments" | "bad number" => what,
        "not exported" | "type not exported" | "value not exported" | "constructor not exported" => "not exported",
        _ => return None,
    })
}

pub fn p34(ctx: &mut Ctx) {
    let mut r = ctx.rng("P34");
    let cfg = front_cfg(&mut r);
    let mut p = some_project(&mut r, &cfg);
    let mut done = vec![];
    for _ in 0..r.range(1, 8) {
        let kinds = if r.chance(75) { mutate::SCOPE_EDITS } else { mutate::TYPE_EDITS };
        let k = *r.pick(kinds);
        done.push(mutate::mutate_kind(&mut p, &mut r, k));
    }
    if done.contains(&"emptied") {
        return;
    }
    mutate::dedup_ids(&mut p);
    p.fix_parens();
    let info = refcheck::check(&p);
    let style = if r.chance(50) { MILD } else { FANCY };
    let (printed, srcs) = print_all(&p, &mut r, style);
    let Some((_, ds)) = compile(ctx, &srcs) else { return };
    for m in 0..p.modules.len() {
        ctx.eval();
        let path_of = |i: usize| {
            // the path is the last string of the item
            let (a, b) = printed[m].item_span(i);
            let toks: Vec<_> = lex(&srcs[m].1).into_iter().filter(|t| t.1 >= a && t.2 <= b && t.0 == LK::Str).collect();
            toks.last().map(|t| (t.1, t.2))
        };
        let mut expected: Vec<(usize, usize, &'static str)> = vec![];
        for e in info.errors.iter().filter(|e| e.module == m) {
            let Some(rule) = rule_of(e.what) else { continue };
            let span = match rule {
                "missing module" => path_of(e.item),
                "bad number" => printed[m].expr_span(e.node),
                _ => printed[m].name_span(e.node),
            };
            let Some(span) = span else {
                ctx.count("places_not_known", 1);
                return;
            };
            expected.push((span.0, span.1, rule));
            ctx.count(&format!("reported: {}", rule), 1);
        }
        // a qualified name may be reported at its module part
        let toks = lex(&srcs[m].1);
        let place = |d: &Diag| {
            let whole = (d.start, d.end);
            if expected.iter().any(|e| (e.0, e.1) == whole) || !d.message.contains("export") {
                return whole;
            }
            let code: Vec<_> = toks.iter().filter(|t| t.0 != LK::Comment).collect();
            match code.iter().position(|t| (t.1, t.2) == whole) {
                Some(k) if code.len() > k + 2 && &srcs[m].1[code[k + 1].1..code[k + 1].2] == "." => (code[k + 2].1, code[k + 2].2),
                _ => whole,
            }
        };
        let mut got: Vec<(usize, usize, &'static str)> = ds[m].iter().filter(|d| d.error).filter_map(|d| scope_rule(&d.message).map(|w| (place(d).0, place(d).1, w))).collect();
        expected.sort();
        expected.dedup();
        got.sort();
        got.dedup();
        if let Some(e) = expected.iter().find(|e| !got.contains(e)) {
            ctx.fail(&format!("not reported: {}", e.2), format!("edits {:?}; module {} at {:?}: `{}`; reported are {:?}", done, srcs[m].0, (e.0, e.1), srcs[m].1.get(e.0..e.1).unwrap_or(""), got), &srcs);
            return;
        }
        if let Some(g) = got.iter().find(|g| !expected.contains(g)) {
            ctx.fail(&format!("reported without reason: {}", g.2), format!("edits {:?}; module {} at {:?}: `{}`; expected are {:?}", done, srcs[m].0, (g.0, g.1), srcs[m].1.get(g.0..g.1).unwrap_or(""), expected), &srcs);
            return;
        }
        let mut rules: Vec<&str> = expected.iter().map(|e| e.2).collect();
        rules.dedup();
        if !rules.is_empty() {
            ctx.class(&format!("{:?} {} {}", rules, expected.len(), p.modules[m].items.len()));
        }
        if expected.len() > 1 {
            ctx.count("modules_with_several", 1);
            ctx.sample(|| json!({"edits": done, "expected": format!("{:?}", expected), "module": shorten(&srcs[m].1, 400)}));
        }
        if info.first_error_item(m).is_some() || ds[m].iter().any(|d| d.error) {
            // what an erroneous module means for its importers is not specified
            return;
        }
    }
}

// ---- P35: errors stay where they are ------------------------------------------------

fn same_item(a: &Item, b: &Item) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}

/// Items of the module are the same but for the expressions of some values; which.
fn changed_values(old: &Project, new: &Project) -> Option<Vec<(usize, usize)>> {
    let mut out = vec![];
    if old.modules.len() != new.modules.len() {
        return None;
    }
    for (m, (a, b)) in old.modules.iter().zip(&new.modules).enumerate() {
        if a.items.len() != b.items.len() || a.path != b.path {
            return None;
        }
        for (i, (x, y)) in a.items.iter().zip(&b.items).enumerate() {
            if same_item(x, y) {
                continue;
            }
            match (x, y) {
                (Item::Value(v), Item::Value(w)) => {
                    let mut u = v.clone();
                    u.expr = w.expr.clone();
                    if !same_item(&Item::Value(u), y) {
                        return None;
                    }
                    out.push((m, i));
                }
                _ => return None,
            }
        }
    }
    Some(out)
}

/// Breaks the types in some type definitions and annotations of one module.
fn break_types(p: &mut Project, r: &mut Rng) -> Vec<(usize, usize)> {
    let m = r.below(p.modules.len());
    let mut next = p.next_id;
    let mut out = vec![];
    for _ in 0..r.range(1, 4) {
        let n = p.modules[m].items.len();
        if n == 0 {
            break;
        }
        let i = r.below(n);
        if out.contains(&(m, i)) {
            continue;
        }
        let t = match &mut p.modules[m].items[i] {
            Item::Value(v) => v.ty.as_mut(),
            Item::Type(t) => {
                let mut all: Vec<&mut TyE> = t
                    .ctors
                    .iter_mut()
                    .flat_map(|c| c.fields.iter_mut())
                    .filter_map(|f| match f {
                        Field::Ty(t) => Some(t),
                        Field::Rec => None,
                    })
                    .collect();
                if all.is_empty() {
                    None
                } else {
                    let k = r.below(all.len());
                    Some(all.swap_remove(k))
                }
            }
            _ => None,
        };
        if let Some(t) = t {
            mutate::break_type(t, r, &mut next);
            out.push((m, i));
        }
    }
    p.next_id = next;
    out
}

pub fn p35(ctx: &mut Ctx) {
    let mut r = ctx.rng("P35");
    let cfg = front_cfg(&mut r);
    let original = some_project(&mut r, &cfg);
    if !refcheck::check(&original).errors.is_empty() {
        return;
    }
    let mut p = original.clone();
    let want = r.range(1, 6);
    let mut done = vec![];
    // types that are broken, in definitions of types and annotations
    let broken = if r.chance(35) { break_types(&mut p, &mut r) } else { vec![] };
    for _ in 0..want * 3 {
        if done.len() >= want || !broken.is_empty() {
            break;
        }
        let mut q = p.clone();
        let k = *r.pick(mutate::TYPE_EDITS);
        let what = mutate::mutate_kind(&mut q, &mut r, k);
        if what.is_empty() || what == "emptied" {
            continue;
        }
        mutate::dedup_ids(&mut q);
        if changed_values(&original, &q).map_or(false, |c| c.iter().all(|x| x.0 == c[0].0)) {
            p = q;
            done.push(what);
        }
    }
    p.fix_parens();
    let with_broken_types = !broken.is_empty();
    let changed = if broken.is_empty() {
        let Some(c) = changed_values(&original, &p) else { return };
        c
    } else {
        done.push("broke types");
        ctx.count("definitions_with_broken_types", broken.len() as u64);
        broken
    };
    let Some(&(m, _)) = changed.first() else { return };
    if changed.iter().any(|x| x.0 != m) {
        return;
    }
    let annotated = |i: usize| matches!(&p.modules[m].items[i], Item::Value(v) if v.ty.is_some());
    // is each of the changed definitions wrong by itself?
    let mut wrong = vec![];
    for &(_, i) in &changed {
        let mut q = original.clone();
        q.next_id = p.next_id;
        q.modules[m].items[i] = p.modules[m].items[i].clone();
        let info = refcheck::check(&q);
        wrong.push(info.errors.iter().any(|e| e.module == m && e.item == i));
    }
    let info = refcheck::check(&p);
    let n = p.modules[m].items.len();
    let mut defined_in = std::collections::HashMap::new();
    for s in info.modules[m].sites.iter().filter(|s| s.vis != refcheck::Vis::Local && !s.imported) {
        defined_in.insert(s.ent, s.item);
    }
    let uses: Vec<Vec<usize>> = (0..n).map(|j| info.modules[m].refs.iter().filter(|x| x.2 == j).filter_map(|x| defined_in.get(&x.1).copied()).filter(|&i| i != j).collect()).collect();
    let is_changed = |j: usize| changed.iter().any(|x| x.1 == j);
    // the inferred type of these is not what it was, or not known
    let mut open = vec![false; n];
    for j in 0..n {
        open[j] = !annotated(j) && matches!(p.modules[m].items[j], Item::Value(_)) && (is_changed(j) || uses[j].iter().any(|&i| open[i] || (with_broken_types && is_changed(i))));
    }
    let style = if r.chance(50) { MILD } else { FANCY };
    let (printed, srcs) = print_all(&p, &mut r, style);
    let Some((_, ds)) = compile(ctx, &srcs) else { return };
    let spans: Vec<(usize, usize)> = (0..n).map(|i| printed[m].item_span(i)).collect();
    let item_of = |d: &Diag| spans.iter().rposition(|s| s.0 <= d.start).unwrap_or(0);
    let mut errors: Vec<Vec<&Diag>> = vec![vec![]; n];
    for d in ds[m].iter().filter(|d| d.error) {
        errors[item_of(d)].push(d);
    }
    let mut judged = (0, 0);
    for j in 0..n {
        if uses[j].iter().any(|&i| open[i]) {
            ctx.count("definitions_not_judged", 1);
            continue;
        }
        let bad = changed.iter().position(|x| x.1 == j).map_or(false, |k| wrong[k]);
        ctx.eval();
        if bad {
            judged.0 += 1;
            ctx.count("wrong_definitions", 1);
        } else {
            judged.1 += 1;
            ctx.count("definitions_without_errors", 1);
            if uses[j].iter().any(|&i| !errors[i].is_empty()) {
                ctx.count("users_of_wrong_definitions_without_errors", 1);
            }
        }
        if bad && errors[j].is_empty() {
            ctx.fail("no error in a wrong definition", format!("edits {:?}; module {} definition at {:?} is wrong by itself; errors are in {:?}", done, srcs[m].0, spans[j], (0..n).filter(|&i| !errors[i].is_empty()).map(|i| spans[i]).collect::<Vec<_>>()), &srcs);
            return;
        }
        if !bad && !errors[j].is_empty() {
            ctx.fail(&format!("error in a definition that is right: {}", errors[j][0].message), format!("edits {:?}; module {} definition at {:?} has {:?}; wrong definitions are at {:?}", done, srcs[m].0, spans[j], errors[j], changed.iter().map(|x| spans[x.1]).collect::<Vec<_>>()), &srcs);
            return;
        }
    }
    if judged.0 > 0 {
        ctx.class(&format!("{} {} {}", judged.0, judged.1, done.join("+")));
        ctx.sample(|| json!({"edits": done, "wrong": judged.0, "right": judged.1, "module": shorten(&srcs[m].1, 300)}));
    }
}
