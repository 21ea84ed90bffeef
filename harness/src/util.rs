//! Shared pieces of the property cases.
use crate::cut;
use crate::driver::Ctx;
use crate::gen::{self, Cfg};
use crate::lang::*;
use crate::print::{self, Printed, Style};
use crate::refcheck::{self, Info};
use crate::rng::Rng;

pub type Files = Vec<(String, String)>;

pub struct Prog {
    pub p: Project,
    pub info: Info,
    pub printed: Vec<Printed>,
    pub srcs: Files,
}

pub fn print_all(p: &Project, rng: &mut Rng, style: Style) -> (Vec<Printed>, Files) {
    let mut printed = vec![];
    let mut srcs = vec![];
    for m in &p.modules {
        let pr = print::print_module(m, rng, style);
        srcs.push((m.path.clone(), pr.text.clone()));
        printed.push(pr);
    }
    (printed, srcs)
}

/// A generated project that the reference checker accepts.
/// A project of the generator, or (one in eight) a module of dense terms.
pub fn some_project(rng: &mut Rng, cfg: &Cfg) -> Project {
    if rng.chance(12) {
        let holes = rng.chance(30);
        let text = crate::terms::module(rng, 0, holes);
        if let Some(p) = crate::families::read(&text) {
            return p;
        }
    }
    gen::project(rng, cfg)
}

pub fn some_typed(rng: &mut Rng, cfg: &Cfg, style: Style) -> Option<Prog> {
    if rng.chance(12) {
        return crate::families::prog_of(rng, 7, style);
    }
    well_typed(rng, cfg, style)
}

pub fn well_typed(rng: &mut Rng, cfg: &Cfg, style: Style) -> Option<Prog> {
    for _ in 0..4 {
        let p = gen::project(rng, cfg);
        let info = refcheck::check(&p);
        if !info.errors.is_empty() {
            continue;
        }
        let (printed, srcs) = print_all(&p, rng, style);
        return Some(Prog { p, info, printed, srcs });
    }
    None
}

/// Compiles and returns the unit of the main module if nothing was rejected.
/// Rejections and panics are counted and left to the properties about them.
pub fn accepted(ctx: &mut Ctx, srcs: &Files, optimize: bool) -> Option<cut::CompilationUnit> {
    accepted_with(ctx, srcs, cut::opts(optimize))
}

pub fn accepted_with(ctx: &mut Ctx, srcs: &Files, opts: cut::Options) -> Option<cut::CompilationUnit> {
    ctx.begin(srcs);
    match cut::guard(|| cut::compile(srcs, opts)) {
        Ok((u, ds)) => {
            if ds.iter().flatten().any(|d| d.error) {
                ctx.count("skipped_rejected", 1);
                None
            } else {
                Some(u)
            }
        }
        Err(_) => {
            ctx.count("skipped_panic_in_front_end", 1);
            None
        }
    }
}

pub fn shorten(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

/// Which constructs a program contains, as a short label.
pub fn shape(p: &Project) -> String {
    let mut bits = std::collections::BTreeSet::new();
    fn go(e: &Expr, bits: &mut std::collections::BTreeSet<&'static str>) {
        bits.insert(match &*e.k {
            EK::Int(_) | EK::Bool(_) => "",
            EK::Str(_) => "s",
            EK::Var(_) => "",
            EK::Ns(..) => "n",
            EK::App(..) => "a",
            EK::Op(_, BinOp::Pipe, _) => "p",
            EK::Op(..) => "o",
            EK::Let(..) => "l",
            EK::Match(..) => "m",
            EK::If(..) => "i",
            EK::Lam(..) => "L",
            EK::Fold(..) => "F",
            EK::Paren(_) => "",
            EK::Hole(_) => "h",
        });
        for c in e.children() {
            go(c, bits);
        }
    }
    let mut n = 0;
    for m in &p.modules {
        for i in &m.items {
            match i {
                Item::Import(_) => {
                    bits.insert("I");
                }
                Item::Type(_) => {
                    bits.insert("T");
                }
                Item::Value(v) => {
                    n += v.expr.count();
                    go(&v.expr, &mut bits);
                }
            }
        }
    }
    format!("{}/{}/{}", bits.into_iter().collect::<String>(), p.modules.len(), n / 12)
}

/// Line-wise comparison that ignores lines showing arrays, whose
/// representation is private to the standard library.
pub fn same_values(reference: &str, got: &str) -> bool {
    let a: Vec<&str> = reference.split('\n').collect();
    let b: Vec<&str> = got.split('\n').collect();
    a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y || (x.contains("<array>") && x.split(" = ").next() == y.split(" = ").next()))
}

pub fn first_diff(a: &str, b: &str) -> String {
    for (x, y) in a.split('\n').zip(b.split('\n')) {
        if x != y {
            return format!("expected `{}`\n     got `{}`", shorten(x, 300), shorten(y, 300));
        }
    }
    format!("expected {} lines, got {}", a.lines().count(), b.lines().count())
}

pub fn pos(p: usize) -> cut::Pos {
    cut::Pos::new(p as u32)
}
