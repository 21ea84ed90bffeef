//! Edits of harness programs: meaning preserving ones and disturbing ones.
use crate::lang::*;
use crate::refcheck::{Info, Vis, Kind};
use crate::rng::Rng;
use crate::stdsig;
use std::collections::{HashMap, HashSet};

// ---- visitors ------------------------------------------------------------------

pub fn ty_names(t: &mut TyE, f: &mut dyn FnMut(&mut Name)) {
    match t {
        TyE::Int | TyE::Bool | TyE::Str => {}
        TyE::Fn(a, b) => {
            ty_names(a, f);
            ty_names(b, f);
        }
        TyE::Named { ns, name, args } => {
            if let Some(n) = ns {
                f(n);
            }
            f(name);
            for a in args {
                ty_names(a, f);
            }
        }
        TyE::Paren(i) => ty_names(i, f),
    }
}

pub fn expr_names(e: &mut Expr, f: &mut dyn FnMut(&mut Name)) {
    match &mut *e.k {
        EK::Var(n) | EK::Lam(n, _) | EK::Fold(n, _) => f(n),
        EK::Ns(a, b) => {
            f(a);
            f(b);
        }
        EK::Let(n, t, _, _) => {
            f(n);
            if let Some(t) = t {
                ty_names(t, f);
            }
        }
        EK::Match(_, cs) => {
            for c in cs {
                if let Some(n) = &mut c.ns {
                    f(n);
                }
                f(&mut c.ctor);
                for v in &mut c.vars {
                    f(v);
                }
            }
        }
        _ => {}
    }
    for c in e.children_mut() {
        expr_names(c, f);
    }
}

pub fn item_names(i: &mut Item, f: &mut dyn FnMut(&mut Name)) {
    match i {
        Item::Import(i) => {
            if let Some(n) = &mut i.name {
                f(n);
            }
            for n in i.exposed.iter_mut().flatten() {
                f(n);
            }
        }
        Item::Type(t) => {
            f(&mut t.name);
            for p in &mut t.params {
                f(p);
            }
            for c in &mut t.ctors {
                f(&mut c.name);
                for x in &mut c.fields {
                    if let Field::Ty(t) = x {
                        ty_names(t, f);
                    }
                }
            }
        }
        Item::Value(v) => {
            f(&mut v.name);
            if let Some(t) = &mut v.ty {
                ty_names(t, f);
            }
            expr_names(&mut v.expr, f);
        }
    }
}

pub fn all_names(p: &mut Project, f: &mut dyn FnMut(&mut Name)) {
    for m in &mut p.modules {
        for i in &mut m.items {
            item_names(i, f);
        }
    }
}

fn fresh_ids(e: &mut Expr, next: &mut Id) {
    fn go(e: &mut Expr, next: &mut Id) {
        *next += 1;
        e.id = *next;
        for c in e.children_mut() {
            go(c, next);
        }
    }
    go(e, next);
    expr_names(e, &mut |n| {
        *next += 1;
        n.id = *next;
    });
}

fn fresh_ty_ids(t: &mut TyE, next: &mut Id) {
    ty_names(t, &mut |n| {
        *next += 1;
        n.id = *next;
    });
}

pub fn count_exprs(i: &Item) -> usize {
    match i {
        Item::Value(v) => v.expr.count(),
        _ => 0,
    }
}

fn every_expr_mut(e: &mut Expr, f: &mut dyn FnMut(&mut Expr)) {
    for c in e.children_mut() {
        every_expr_mut(c, f);
    }
    f(e);
}

// ---- meaning preserving ----------------------------------------------------------

/// Names of the standard library that the program does not use for anything.
struct StdNames {
    used: HashSet<String>,
}

impl StdNames {
    fn new(p: &Project) -> StdNames {
        let mut used = HashSet::new();
        all_names(&mut p.clone(), &mut |n| {
            used.insert(n.s.clone());
        });
        StdNames { used }
    }

    /// The name of a value, if possible one of this type.
    fn value(&mut self, ty: Option<&TyE>, rng: &mut Rng) -> Option<String> {
        let path = *rng.pick(stdsig::PATHS);
        let m = stdsig::module(path)?;
        let mut fits = vec![];
        if let Some(t) = ty.and_then(plain_ty) {
            for path in stdsig::PATHS {
                let m = stdsig::module(path).unwrap();
                fits.extend(m.values.iter().filter(|v| v.1 == t).map(|v| v.0));
            }
        }
        let name = if !fits.is_empty() && rng.chance(70) { *rng.pick(&fits) } else { rng.pick(m.values).0 };
        self.used.insert(name.to_owned()).then(|| name.to_owned())
    }

    fn ty(&mut self, rng: &mut Rng) -> Option<String> {
        let name = *rng.pick(&["Option", "List", "Result", "Array", "ParseErr"]);
        self.used.insert(name.to_owned()).then(|| name.to_owned())
    }
}

/// The text of a function type of primitive types.
fn plain_ty(t: &TyE) -> Option<String> {
    Some(match t {
        TyE::Int => "int".into(),
        TyE::Str => "string".into(),
        TyE::Bool => "bool".into(),
        TyE::Fn(a, b) => match &**a {
            TyE::Fn(..) => return None,
            _ => format!("{} -> {}", plain_ty(a)?, plain_ty(b)?),
        },
        TyE::Paren(t) => plain_ty(t)?,
        TyE::Named { .. } => return None,
    })
}

/// Gives local variables and type variables new unique names.
pub fn rename_locals(p: &mut Project, info: &Info, rng: &mut Rng) {
    let mut new: HashMap<usize, String> = HashMap::new();
    let mut std = StdNames::new(p);
    let mut k = 0;
    for m in &info.modules {
        for s in &m.sites {
            if s.vis == Vis::Local && !s.imported && rng.chance(85) {
                k += 1;
                if !matches!(info.ents[s.ent].kind, Kind::TypeVar) && rng.chance(10) {
                    if let Some(n) = std.value(None, rng) {
                        new.insert(s.ent, n);
                        continue;
                    }
                }
                // a type variable of an annotation is told apart by its first letter
                let base = if matches!(info.ents[s.ent].kind, Kind::TypeVar) {
                    *rng.pick(&["zz", "zz_", "matchz", "z0"])
                } else {
                    *rng.pick(&["zz", "_zz", "Zz", "zz_", "matchz", "z0"])
                };
                new.insert(s.ent, format!("{}{}q", base, k));
            }
        }
    }
    apply_names(p, info, &new);
}

/// Gives private top-level values and types new unique names.
pub fn rename_private(p: &mut Project, info: &Info, rng: &mut Rng) {
    let mut new: HashMap<usize, String> = HashMap::new();
    let mut std = StdNames::new(p);
    let types: HashMap<Id, TyE> = p
        .modules
        .iter()
        .flat_map(|m| m.items.iter())
        .filter_map(|i| match i {
            Item::Value(v) => Some((v.name.id, v.ty.clone()?)),
            _ => None,
        })
        .collect();
    let mut k = 0;
    for m in &info.modules {
        for s in &m.sites {
            let fits = matches!(info.ents[s.ent].kind, Kind::Value { .. } | Kind::Type { .. });
            if s.vis == Vis::Module && !s.imported && fits && rng.chance(80) {
                k += 1;
                if rng.chance(30) {
                    let name = match info.ents[s.ent].kind {
                        Kind::Value { .. } => std.value(types.get(&info.ents[s.ent].def), rng),
                        _ => std.ty(rng),
                    };
                    if let Some(n) = name {
                        new.insert(s.ent, n);
                        continue;
                    }
                }
                new.insert(s.ent, format!("{}{}q", rng.pick(&["priv", "Qz", "_p"]), k));
            }
        }
    }
    apply_names(p, info, &new);
}

fn apply_names(p: &mut Project, info: &Info, new: &HashMap<usize, String>) {
    all_names(p, &mut |n| {
        let ent = info.site_of.get(&n.id).or_else(|| info.res.get(&n.id));
        if let Some(s) = ent.and_then(|e| new.get(e)) {
            n.s = s.clone();
        }
    });
}

pub fn add_parens(p: &mut Project, rng: &mut Rng) {
    let mut next = p.next_id;
    for m in &mut p.modules {
        for i in &mut m.items {
            if let Item::Value(v) = i {
                every_expr_mut(&mut v.expr, &mut |e| {
                    if rng.chance(20) {
                        next += 1;
                        let id = next;
                        let inner = std::mem::replace(e, Expr { id: 0, k: Box::new(EK::Bool(false)) });
                        *e = Expr { id, k: Box::new(EK::Paren(inner)) };
                    }
                });
                if let Some(t) = &mut v.ty {
                    paren_ty(t, rng);
                }
            }
        }
    }
    p.next_id = next;
}

fn paren_ty(t: &mut TyE, rng: &mut Rng) {
    match t {
        TyE::Fn(a, b) => {
            paren_ty(a, rng);
            paren_ty(b, rng);
        }
        TyE::Named { args, .. } => {
            for a in args {
                paren_ty(a, rng);
            }
        }
        TyE::Paren(i) => paren_ty(i, rng),
        _ => {}
    }
    if rng.chance(25) {
        let inner = std::mem::replace(t, TyE::Int);
        *t = TyE::Paren(Box::new(inner));
    }
}

/// Adds definitions nothing refers to: private items and local lets.
pub fn add_unused(p: &mut Project, rng: &mut Rng) {
    let mut next = p.next_id;
    let mut k = 0;
    fn lit(rng: &mut Rng, next: &mut Id) -> Expr {
        *next += 1;
        let id = *next;
        let k = match rng.below(5) {
            0 => EK::Int("7".into()),
            1 => EK::Str("unused".into()),
            2 => EK::Bool(true),
            3 => {
                *next += 3;
                let n = Name { id: *next - 1, s: "uq".into() };
                let b = Expr { id: *next, k: Box::new(EK::Var(Name { id: *next - 2, s: "uq".into() })) };
                EK::Lam(n, b)
            }
            _ => {
                *next += 2;
                let a = Expr { id: *next - 1, k: Box::new(EK::Int("3".into())) };
                let b = Expr { id: *next, k: Box::new(EK::Int("0".into())) };
                EK::Op(a, BinOp::Div, b)
            }
        };
        Expr { id, k: Box::new(k) }
    }
    for m in &mut p.modules {
        for i in &mut m.items {
            if let Item::Value(v) = i {
                every_expr_mut(&mut v.expr, &mut |e| {
                    if rng.chance(8) {
                        k += 1;
                        next += 2;
                        let ids = next;
                        let name = Name { id: ids - 1, s: format!("unused{}q", k) };
                        let val = lit(rng, &mut next);
                        let inner = std::mem::replace(e, Expr { id: 0, k: Box::new(EK::Bool(false)) });
                        let l = Expr { id: ids, k: Box::new(EK::Let(name, None, val, inner)) };
                        next += 1;
                        *e = Expr { id: next, k: Box::new(EK::Paren(l)) };
                    }
                });
            }
        }
        let n = rng.range(0, 3);
        for _ in 0..n {
            k += 1;
            next += 1;
            let name = Name { id: next, s: format!("unusedTop{}q", k) };
            let at = rng.below(m.items.len() + 1);
            let it = if rng.chance(30) {
                next += 1;
                let c = CtorDef { name: Name { id: next, s: format!("UnusedCtor{}q", k) }, fields: vec![Field::Ty(TyE::Int), Field::Rec] };
                Item::Type(TypeItem { export: false, export_ctors: false, name, params: vec![], lead_pipe: rng.chance(50), ctors: vec![c] })
            } else {
                let mut expr = lit(rng, &mut next);
                if let EK::Lam(..) = &*expr.k {
                    // the type of an unannotated function may be left open
                    next += 1;
                    expr = Expr { id: next, k: Box::new(EK::Int("5".into())) };
                }
                Item::Value(ValueItem { export: false, name, ty: None, expr })
            };
            m.items.insert(at, it);
        }
    }
    p.next_id = next;
    p.fix_parens();
}

// ---- disturbing --------------------------------------------------------------------

fn pick_value_item<'a>(p: &'a mut Project, rng: &mut Rng) -> Option<&'a mut ValueItem> {
    let all: Vec<(usize, usize)> = p.modules.iter().enumerate().flat_map(|(a, m)| m.items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Value(_))).map(move |(b, _)| (a, b))).collect();
    if all.is_empty() {
        return None;
    }
    let last = p.modules.len() - 1;
    let mains: Vec<_> = all.iter().copied().filter(|x| x.0 == last).collect();
    let (a, b) = if !mains.is_empty() && rng.chance(75) { *rng.pick(&mains) } else { *rng.pick(&all) };
    match &mut p.modules[a].items[b] {
        Item::Value(v) => Some(v),
        _ => None,
    }
}

fn some_name(p: &Project, rng: &mut Rng) -> String {
    let mut v = vec![];
    let mut q = p.clone();
    all_names(&mut q, &mut |n| v.push(n.s.clone()));
    if v.is_empty() || rng.chance(5) {
        return "nowhere".into();
    }
    rng.pick(&v).clone()
}

fn some_type(p: &Project, rng: &mut Rng, next: &mut Id) -> TyE {
    let mut v: Vec<TyE> = vec![TyE::Int, TyE::Bool, TyE::Str];
    for m in &p.modules {
        for i in &m.items {
            match i {
                Item::Value(x) => v.extend(x.ty.clone()),
                Item::Type(t) => {
                    for c in &t.ctors {
                        for f in &c.fields {
                            if let Field::Ty(t) = f {
                                v.push(t.clone());
                            }
                        }
                    }
                    v.push(TyE::Named { ns: None, name: t.name.clone(), args: vec![] });
                }
                _ => {}
            }
        }
    }
    let mut t = if rng.chance(50) { v[rng.below(3)].clone() } else { rng.pick(&v).clone() };
    // sometimes only a part of it
    while rng.chance(40) {
        t = match t {
            TyE::Fn(a, b) => *(if rng.chance(50) { a } else { b }),
            TyE::Paren(i) => *i,
            TyE::Named { mut args, .. } if !args.is_empty() => args.swap_remove(rng.below(args.len())),
            t => t,
        };
    }
    fresh_ty_ids(&mut t, next);
    t
}

fn mutate_ty(t: &mut TyE, new: TyE, rng: &mut Rng) {
    match t {
        TyE::Fn(a, b) if rng.chance(75) => {
            if rng.chance(50) {
                mutate_ty(a, new, rng)
            } else {
                mutate_ty(b, new, rng)
            }
        }
        TyE::Paren(i) if rng.chance(80) => mutate_ty(i, new, rng),
        TyE::Named { args, .. } if !args.is_empty() && rng.chance(60) => match rng.below(4) {
            0 => {
                args.pop();
            }
            1 => args.push(new),
            _ => {
                let k = rng.below(args.len());
                mutate_ty(&mut args[k], new, rng)
            }
        },
        TyE::Named { args, .. } if rng.chance(15) => args.push(new),
        _ => *t = new,
    }
}

/// Makes a part of a type name nothing, or take a wrong number of arguments.
pub fn break_type(t: &mut TyE, rng: &mut Rng, next: &mut Id) {
    match t {
        TyE::Fn(a, b) if rng.chance(85) => return break_type(if rng.chance(50) { a } else { b }, rng, next),
        TyE::Paren(i) if rng.chance(90) => return break_type(i, rng, next),
        TyE::Named { args, .. } if !args.is_empty() && rng.chance(40) => {
            let k = rng.below(args.len());
            return break_type(&mut args[k], rng, next);
        }
        TyE::Named { args, .. } if rng.chance(60) => {
            if !args.is_empty() && rng.chance(50) {
                args.pop();
            } else {
                args.push(TyE::Int);
            }
            return;
        }
        TyE::Named { name, .. } if rng.chance(50) => {
            name.s = "Nowhere".into();
            return;
        }
        _ => {}
    }
    *next += 1;
    *t = TyE::Named { ns: None, name: Name { id: *next, s: "Nowhere".into() }, args: vec![] };
}

/// One random edit; the result is usually, but not always, wrong.
/// Returns what was done, or "" when nothing applied.
pub fn mutate(p: &mut Project, rng: &mut Rng) -> &'static str {
    let k = rng.below(36);
    mutate_kind(p, rng, k)
}

/// Kinds of edits that change match expressions.
pub const MATCH_EDITS: &[usize] = &[12, 13, 14, 15, 16, 23, 38, 38, 39];
/// Kinds of edits that change what is exported, imported or named.
pub const SCOPE_EDITS: &[usize] = &[7, 8, 9, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 37];
/// Kinds of edits that change types, kinds and expressions.
pub const TYPE_EDITS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 17, 18, 19, 20, 21, 22, 23, 34, 35, 36];

pub fn mutate_kind(p: &mut Project, rng: &mut Rng, kind: usize) -> &'static str {
    let mut next = p.next_id;
    let snapshot = p.clone();
    let what = match kind {
        0..=3 => {
            // replace an expression by another one from anywhere
            let donors: Vec<Expr> = snapshot
                .modules
                .iter()
                .flat_map(|m| m.items.iter())
                .filter_map(|i| match i {
                    Item::Value(v) => Some(v.expr.clone()),
                    _ => None,
                })
                .collect();
            if donors.is_empty() {
                return "";
            }
            let mut d = rng.pick(&donors).clone();
            let mut k = rng.below(d.count());
            let mut e = d.nth_mut(&mut k).unwrap().clone();
            fresh_ids(&mut e, &mut next);
            let Some(v) = pick_value_item(p, rng) else { return "" };
            let mut k = rng.below(v.expr.count());
            *v.expr.nth_mut(&mut k).unwrap() = e;
            "replaced an expression"
        }
        4..=6 => {
            let Some(v) = pick_value_item(p, rng) else { return "" };
            let mut k = rng.below(v.expr.count());
            let e = v.expr.nth_mut(&mut k).unwrap();
            next += 1;
            let new = match rng.below(5) {
                0 => EK::Int((*rng.pick(&["0", "1", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "007", "1_000", "7_", "12ab", "0x1F"])).into()),
                1 => EK::Bool(rng.chance(50)),
                2 => EK::Str("text".into()),
                3 => {
                    next += 1;
                    EK::Lam(Name { id: next, s: "q".into() }, e.clone())
                }
                _ => {
                    next += 1;
                    EK::App(e.clone(), Expr { id: next, k: Box::new(EK::Int("3".into())) })
                }
            };
            next += 1;
            *e = Expr { id: next, k: Box::new(new) };
            "replaced an expression by a simple one"
        }
        7..=9 => {
            let s = some_name(&snapshot, rng);
            let Some(v) = pick_value_item(p, rng) else { return "" };
            let mut n = 0;
            expr_names(&mut v.expr, &mut |_| n += 1);
            if n == 0 {
                return "";
            }
            let mut k = rng.below(n) as isize;
            expr_names(&mut v.expr, &mut |x| {
                if k == 0 {
                    x.s = s.clone();
                }
                k -= 1;
            });
            "changed a name"
        }
        10..=11 => {
            // drop a part: an argument, an operand, a let, a branch
            let Some(v) = pick_value_item(p, rng) else { return "" };
            let mut k = rng.below(v.expr.count());
            let e = v.expr.nth_mut(&mut k).unwrap();
            let cs: Vec<Expr> = e.children().into_iter().cloned().collect();
            if cs.is_empty() {
                return "";
            }
            *e = rng.pick(&cs).clone();
            "dropped a part of an expression"
        }
        12..=16 => {
            // matches
            let donors = snapshot.clone();
            let all: Vec<(usize, usize, usize)> = matches_of(p);
            if all.is_empty() {
                return "";
            }
            let (a, b, k) = *rng.pick(&all);
            let Item::Value(v) = &mut p.modules[a].items[b] else { return "" };
            let mut k = k;
            let e = v.expr.nth_mut(&mut k).unwrap();
            let EK::Match(_, cases) = &mut *e.k else { return "" };
            if cases.is_empty() {
                return "";
            }
            let c = rng.below(cases.len());
            match rng.below(7) {
                0 | 1 => {
                    cases.remove(c);
                    "removed a case"
                }
                2 => {
                    let mut x = cases[c].clone();
                    fresh_ids(&mut x.body, &mut next);
                    next += 1;
                    x.ctor.id = next;
                    if let Some(n) = &mut x.ns {
                        next += 1;
                        n.id = next;
                    }
                    for v in &mut x.vars {
                        next += 1;
                        v.id = next;
                    }
                    let at = rng.below(cases.len() + 1);
                    cases.insert(at, x);
                    "duplicated a case"
                }
                3 => {
                    cases[c].vars.pop();
                    "removed a case variable"
                }
                4 => {
                    next += 1;
                    cases[c].vars.push(Name { id: next, s: "extra".into() });
                    "added a case variable"
                }
                5 => {
                    let s = some_name(&donors, rng);
                    cases[c].ctor.s = s;
                    "changed a case constructor"
                }
                _ => {
                    let d = rng.below(cases.len());
                    cases.swap(c, d);
                    "swapped cases"
                }
            }
        }
        17..=19 => {
            let t = some_type(&snapshot, rng, &mut next);
            let Some(v) = pick_value_item(p, rng) else { return "" };
            match &mut v.ty {
                Some(x) if rng.chance(80) => {
                    mutate_ty(x, t, rng);
                    "changed an annotation"
                }
                Some(_) => {
                    v.ty = None;
                    "removed an annotation"
                }
                None => {
                    v.ty = Some(t);
                    "added an annotation"
                }
            }
        }
        20 => {
            // annotations of inner lets
            let t = some_type(&snapshot, rng, &mut next);
            let Some(v) = pick_value_item(p, rng) else { return "" };
            let mut done = false;
            let mut skip = rng.below(3);
            every_expr_mut(&mut v.expr, &mut |e| {
                if let EK::Let(_, ty, _, _) = &mut *e.k {
                    if !done {
                        if skip > 0 {
                            skip -= 1;
                            return;
                        }
                        done = true;
                        *ty = if ty.is_some() && rng.chance(40) { None } else { Some(t.clone()) };
                    }
                }
            });
            "changed an inner annotation"
        }
        21..=23 => {
            // types
            let t = some_type(&snapshot, rng, &mut next);
            let s = some_name(&snapshot, rng);
            let all: Vec<(usize, usize)> = items_where(p, |i| matches!(i, Item::Type(_)));
            if all.is_empty() {
                return "";
            }
            let (a, b) = *rng.pick(&all);
            let Item::Type(ti) = &mut p.modules[a].items[b] else { return "" };
            match rng.below(8) {
                0 => {
                    ti.params.pop();
                    "removed a type parameter"
                }
                1 => {
                    next += 1;
                    ti.params.push(Name { id: next, s: "extra".into() });
                    "added a type parameter"
                }
                2 => {
                    ti.name.s = s;
                    "renamed a type"
                }
                3 => {
                    ti.export = !ti.export;
                    "toggled the export of a type"
                }
                4 => {
                    ti.export_ctors = !ti.export_ctors;
                    "toggled the export of constructors"
                }
                _ => {
                    if ti.ctors.is_empty() {
                        return "";
                    }
                    let c = rng.below(ti.ctors.len());
                    match rng.below(5) {
                        0 => {
                            ti.ctors.remove(c);
                            if ti.ctors.is_empty() {
                                return "emptied";
                            }
                            "removed a constructor"
                        }
                        1 => {
                            ti.ctors[c].fields.push(if rng.chance(50) { Field::Rec } else { Field::Ty(t) });
                            "added a field"
                        }
                        2 => {
                            ti.ctors[c].fields.pop();
                            "removed a field"
                        }
                        3 => {
                            ti.ctors[c].name.s = s;
                            "renamed a constructor"
                        }
                        _ => {
                            let n = ti.ctors[c].fields.len();
                            if n == 0 {
                                return "";
                            }
                            let f = rng.below(n);
                            if let Field::Ty(x) = &mut ti.ctors[c].fields[f] {
                                mutate_ty(x, t, rng);
                            } else {
                                ti.ctors[c].fields[f] = Field::Ty(t);
                            }
                            "changed a field"
                        }
                    }
                }
            }
        }
        24..=26 => {
            let s = some_name(&snapshot, rng);
            let all: Vec<(usize, usize)> = items_where(p, |i| matches!(i, Item::Import(_)));
            if all.is_empty() {
                return "";
            }
            let (a, b) = *rng.pick(&all);
            let Item::Import(im) = &mut p.modules[a].items[b] else { return "" };
            match rng.below(6) {
                0 => {
                    im.path = (*rng.pick(&["nowhere", "std/nope", "std/list", "std/int"])).into();
                    "changed an import path"
                }
                1 | 2 => match &mut im.exposed {
                    Some(ex) if !ex.is_empty() => {
                        let k = rng.below(ex.len());
                        ex.remove(k);
                        "removed an exposed name"
                    }
                    _ => "",
                },
                3 => match &mut im.exposed {
                    Some(ex) => {
                        next += 1;
                        ex.push(Name { id: next, s });
                        "exposed another name"
                    }
                    None => "",
                },
                4 => match &mut im.exposed {
                    Some(ex) if !ex.is_empty() => {
                        let k = rng.below(ex.len());
                        ex[k].s = s;
                        "changed an exposed name"
                    }
                    _ => "",
                },
                _ => {
                    if im.exposed.is_some() || rng.chance(50) {
                        if im.name.is_some() && im.exposed.is_some() {
                            im.name = None;
                            "removed the name of an import"
                        } else if let Some(n) = &mut im.name {
                            n.s = s;
                            "renamed an import"
                        } else {
                            ""
                        }
                    } else {
                        ""
                    }
                }
            }
        }
        27 => {
            let a = p.modules.len() - 1;
            let n = p.modules[a].items.len();
            if n < 2 {
                return "";
            }
            let (i, j) = (rng.below(n), rng.below(n));
            p.modules[a].items.swap(i, j);
            "swapped items"
        }
        28 => {
            let a = rng.below(p.modules.len());
            let n = p.modules[a].items.len();
            if n < 2 {
                return "";
            }
            p.modules[a].items.remove(rng.below(n));
            "removed an item"
        }
        30 | 31 => {
            // names looked up in another module, anywhere in a module
            let s = some_name(&snapshot, rng);
            let m = p.modules.len() - 1;
            let other: Vec<String> = snapshot.modules.iter().flat_map(|m| m.items.iter()).filter_map(|i| match i {
                Item::Import(i) => i.name.as_ref().map(|n| n.s.clone()),
                _ => None,
            }).collect();
            let mut spots = vec![];
            let mut n = 0usize;
            for i in &mut p.modules[m].items {
                qualified(i, &mut |_, _| { spots.push(n); n += 1; });
            }
            if spots.is_empty() {
                return "";
            }
            let pick = *rng.pick(&spots);
            let change_ns = rng.chance(30) && !other.is_empty();
            let ns_to = if other.is_empty() { String::new() } else { rng.pick(&other).clone() };
            let mut n = 0usize;
            for i in &mut p.modules[m].items {
                qualified(i, &mut |a, b| {
                    if n == pick {
                        if change_ns { a.s = ns_to.clone() } else { b.s = s.clone() }
                    }
                    n += 1;
                });
            }
            "changed a qualified name"
        }
        32 | 33 => {
            // hide or show one export of an imported module
            if p.modules.len() < 2 {
                return "";
            }
            let a = rng.below(p.modules.len() - 1);
            if p.modules[a].items.is_empty() {
                return "";
            }
            let b = rng.below(p.modules[a].items.len());
            match &mut p.modules[a].items[b] {
                Item::Value(v) => { v.export = !v.export; "toggled the export of a value" }
                Item::Type(t) => {
                    if rng.chance(50) { t.export = !t.export; "toggled the export of a type" }
                    else { t.export_ctors = !t.export_ctors; "toggled the export of constructors" }
                }
                Item::Import(_) => return "",
            }
        }
        34 => {
            // let a variable from outside flow into a polymorphic local definition
            let Some(v) = pick_value_item(p, rng) else { return "" };
            let mut done = false;
            let pick_var = rng.chance(70);
            escape_edit(&mut v.expr, &mut vec![], &mut next, &mut done, pick_var, rng);
            if !done { return "" }
            "used an outer variable in a polymorphic local definition"
        }
        35 => {
            // self application and friends
            let Some(v) = pick_value_item(p, rng) else { return "" };
            let mut k = rng.below(v.expr.count());
            let e = v.expr.nth_mut(&mut k).unwrap();
            let mut copy = e.clone();
            fresh_ids(&mut copy, &mut next);
            next += 1;
            let new = if rng.chance(50) { EK::App(e.clone(), copy) } else { EK::Op(e.clone(), BinOp::Pipe, copy) };
            *e = Expr { id: next, k: Box::new(new) };
            "applied an expression to itself"
        }
        36 => {
            // a value that would have to contain itself
            let text = infinite_type(rng);
            let mut n = next + 1;
            let parsed = crate::refparse::parse(&text, &mut n);
            next = n;
            let m = rng.below(p.modules.len());
            let m = &mut p.modules[m];
            m.items.extend(parsed.items);
            "added a value of an infinite type"
        }
        38 => {
            // an expression becomes a match on itself
            let ctors: Vec<CtorDef> = snapshot
                .modules
                .iter()
                .flat_map(|m| m.items.iter())
                .filter_map(|i| match i {
                    Item::Type(t) => Some(t.ctors.clone()),
                    _ => None,
                })
                .flatten()
                .collect();
            let Some(v) = pick_value_item(p, rng) else { return "" };
            let mut k = rng.below(v.expr.count());
            let e = v.expr.nth_mut(&mut k).unwrap();
            let mut cases = vec![];
            if !ctors.is_empty() && rng.chance(30) {
                let c = rng.pick(&ctors);
                let mut body = e.clone();
                fresh_ids(&mut body, &mut next);
                next += 1;
                let ctor = Name { id: next, s: c.name.s.clone() };
                let mut vars = vec![];
                for i in 0..c.fields.len() {
                    next += 1;
                    vars.push(Name { id: next, s: format!("m{}", i) });
                }
                cases.push(Case { ns: None, ctor, vars, body });
            }
            next += 1;
            *e = Expr { id: next, k: Box::new(EK::Match(e.clone(), cases)) };
            "matched on an expression"
        }
        39 => {
            // some of the cases, some of them more than once
            let all: Vec<(usize, usize, usize)> = matches_of(p);
            if all.is_empty() {
                return "";
            }
            let (a, b, k) = *rng.pick(&all);
            let Item::Value(v) = &mut p.modules[a].items[b] else { return "" };
            let mut k = k;
            let e = v.expr.nth_mut(&mut k).unwrap();
            let EK::Match(_, cases) = &mut *e.k else { return "" };
            let old = std::mem::take(cases);
            for c in old {
                let n = *rng.pick(&[0, 0, 1, 1, 1, 2, 3]);
                for i in 0..n {
                    let mut x = c.clone();
                    if i > 0 {
                        fresh_ids(&mut x.body, &mut next);
                        next += 1;
                        x.ctor.id = next;
                        if let Some(n) = &mut x.ns {
                            next += 1;
                            n.id = next;
                        }
                        for v in &mut x.vars {
                            next += 1;
                            v.id = next;
                        }
                    }
                    cases.push(x);
                }
            }
            rng.shuffle(cases);
            "kept some of the cases"
        }
        37 => {
            // a constructor is defined again, in its type or in another one
            let all: Vec<CtorDef> = snapshot
                .modules
                .iter()
                .flat_map(|m| m.items.iter())
                .filter_map(|i| match i {
                    Item::Type(t) => Some(t.ctors.clone()),
                    _ => None,
                })
                .flatten()
                .collect();
            let mut types: Vec<&mut TypeItem> = p
                .modules
                .iter_mut()
                .flat_map(|m| m.items.iter_mut())
                .filter_map(|i| match i {
                    Item::Type(t) => Some(t),
                    _ => None,
                })
                .collect();
            if types.is_empty() || all.is_empty() {
                return "";
            }
            let k = rng.below(types.len());
            let t = &mut types[k];
            let mut c = if rng.chance(60) && !t.ctors.is_empty() { rng.pick(&t.ctors).clone() } else { rng.pick(&all).clone() };
            next += 1;
            c.name.id = next;
            if rng.chance(60) {
                c.fields.retain(|f| matches!(f, Field::Rec));
            }
            let at = rng.below(t.ctors.len() + 1);
            t.ctors.insert(at, c);
            "added a constructor that exists"
        }
        _ => {
            let s = some_name(&snapshot, rng);
            let Some(v) = pick_value_item(p, rng) else { return "" };
            if rng.chance(50) {
                v.export = !v.export;
                "toggled the export of a value"
            } else {
                v.name.s = s;
                "renamed a value"
            }
        }
    };
    p.next_id = next.max(p.next_id);
    what
}

fn escape_edit(e: &mut Expr, outer: &mut Vec<String>, next: &mut Id, done: &mut bool, pick_var: bool, rng: &mut Rng) {
    if *done {
        return;
    }
    if let EK::Let(_, ty, value, _) = &mut *e.k {
        let open = ty.as_mut().map_or(false, |t| {
            let mut low = false;
            ty_names(t, &mut |n| low |= n.s.as_bytes()[0].is_ascii_lowercase());
            low
        });
        if open && !outer.is_empty() && rng.chance(60) {
            let mut k = rng.below(value.count());
            let t = value.nth_mut(&mut k).unwrap();
            let v = rng.pick(outer).clone();
            *next += 2;
            let name = Name { id: *next - 1, s: v };
            let mut x = Expr { id: *next, k: Box::new(EK::Var(name)) };
            if !pick_var {
                *next += 1;
                x = Expr { id: *next, k: Box::new(EK::App(x, t.clone())) };
            }
            *t = x;
            *done = true;
            return;
        }
    }
    let mut pushed = 0;
    match &*e.k {
        EK::Lam(n, _) | EK::Fold(n, _) => {
            outer.push(n.s.clone());
            pushed = 1;
        }
        _ => {}
    }
    for c in e.children_mut() {
        escape_edit(c, outer, next, done, pick_var, rng);
    }
    for _ in 0..pushed {
        outer.pop();
    }
}

/// Visits every name that is looked up through a module name.
fn qualified(i: &mut Item, f: &mut dyn FnMut(&mut Name, &mut Name)) {
    fn ty(t: &mut TyE, f: &mut dyn FnMut(&mut Name, &mut Name)) {
        match t {
            TyE::Fn(a, b) => {
                ty(a, f);
                ty(b, f);
            }
            TyE::Paren(t) => ty(t, f),
            TyE::Named { ns, name, args } => {
                if let Some(ns) = ns {
                    f(ns, name);
                }
                for a in args {
                    ty(a, f);
                }
            }
            _ => {}
        }
    }
    match i {
        Item::Value(v) => {
            if let Some(t) = &mut v.ty {
                ty(t, f);
            }
            every_expr_mut(&mut v.expr, &mut |e| match &mut *e.k {
                EK::Ns(a, b) => f(a, b),
                EK::Let(_, Some(t), _, _) => ty(t, f),
                EK::Match(_, cases) => {
                    for c in cases {
                        if let Some(ns) = &mut c.ns {
                            f(ns, &mut c.ctor);
                        }
                    }
                }
                _ => {}
            });
        }
        Item::Type(t) => {
            for c in &mut t.ctors {
                for x in &mut c.fields {
                    if let Field::Ty(x) = x {
                        ty(x, f);
                    }
                }
            }
        }
        Item::Import(_) => {}
    }
}

fn items_where(p: &Project, f: impl Fn(&Item) -> bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (a, m) in p.modules.iter().enumerate() {
        for (b, i) in m.items.iter().enumerate() {
            if f(i) {
                v.push((a, b));
            }
        }
    }
    v
}

fn matches_of(p: &Project) -> Vec<(usize, usize, usize)> {
    fn go(e: &Expr, k: &mut usize, out: &mut Vec<usize>) {
        if matches!(&*e.k, EK::Match(..)) {
            out.push(*k);
        }
        *k += 1;
        for c in e.children() {
            go(c, k, out);
        }
    }
    let mut v = vec![];
    for (a, m) in p.modules.iter().enumerate() {
        for (b, i) in m.items.iter().enumerate() {
            if let Item::Value(x) = i {
                let mut out = vec![];
                go(&x.expr, &mut 0, &mut out);
                v.extend(out.into_iter().map(|k| (a, b, k)));
            }
        }
    }
    v
}

/// Node ids must be unique; edits that copy subtrees may break that.
pub fn dedup_ids(p: &mut Project) {
    let mut seen: HashSet<Id> = HashSet::new();
    let mut next = p.next_id;
    for m in &mut p.modules {
        for i in &mut m.items {
            if let Item::Value(v) = i {
                every_expr_mut(&mut v.expr, &mut |e| {
                    if !seen.insert(e.id) {
                        next += 1;
                        e.id = next;
                    }
                });
            }
            item_names(i, &mut |n| {
                if !seen.insert(n.id) {
                    next += 1;
                    n.id = next;
                }
            });
        }
    }
    p.next_id = next;
}

/// A definition that unifies a type with one that contains it, most of the
/// time; some results are fine.
fn infinite_type(rng: &mut Rng) -> String {
    fn wrap(rng: &mut Rng, x: &str, n: usize, d: usize) -> String {
        if d == 0 {
            return x.to_owned();
        }
        let inner = wrap(rng, x, n, d - 1);
        match rng.below(5) {
            0 => format!("(\\_q -> {})", inner),
            1 => format!("(\\q -> if true then {} else q)", inner),
            2 => format!("(\\q -> let _w : int = q {}; 1)", inner),
            _ => {
                let k = rng.below(n);
                let fs: Vec<String> = (0..n).map(|i| if i == k { inner.clone() } else { (*rng.pick(&["?z", "1", "true", "(\\_y -> ?z)"])).to_owned() }).collect();
                format!("(Knot {})", fs.join(" "))
            }
        }
    }
    let n = rng.range(1, 4);
    let d = if rng.chance(10) { 0 } else { rng.range(1, 2) };
    let params = &["a", "b", "c", "d"][..n];
    let w = wrap(rng, "x", n, d);
    let body = match rng.below(6) {
        0 => format!("\\x -> if true then x else {}", w),
        1 => format!("\\x -> if true then {} else x", w),
        2 => format!("\\x -> let g = \\p -> \\q -> if p == 1 then q else x; g 2 {}", w),
        3 => "\\x -> x x".to_owned(),
        4 => format!("\\x -> \\f -> let _w : int = f x; f {}", w),
        _ => format!("\\x -> \\y -> if true then (if true then y else x) else (if false then {} else y)", w),
    };
    format!("type Knot {} = Knot {};\nlet knot = {};\n", params.join(" "), params.join(" "), body)
}
