//! Type-directed generator of multi-module tic programs.
use crate::lang::*;
use crate::rng::Rng;
use crate::stdsig;
use std::collections::HashSet;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum G {
    Int,
    Bool,
    Str,
    Fn(Box<G>, Box<G>),
    D(usize, Vec<G>),
    V(u32),
}

fn gf(a: G, b: G) -> G {
    G::Fn(Box::new(a), Box::new(b))
}

#[derive(Clone, Debug)]
enum GField {
    Rec,
    Ty(G),
}

#[derive(Clone, Debug)]
struct GData {
    name: String,
    params: usize,
    ctors: Vec<(String, Vec<GField>)>,
    export: bool,
    export_ctors: bool,
    /// usable in generated types (opaque types without producers are not)
    opaque: bool,
}

#[derive(Clone, Debug)]
struct OutVal {
    name: String,
    nvars: u32,
    ty: G,
    key: Option<String>,
}

#[derive(Clone, Debug, Default)]
struct ModOut {
    path: String,
    types: Vec<usize>,
    /// data indexes whose constructors are exported
    ctors: Vec<usize>,
    values: Vec<OutVal>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Acc {
    Plain(String),
    Ns(String, String),
}

#[derive(Clone, Debug)]
struct GVal {
    acc: Acc,
    nvars: u32,
    ty: G,
    key: Option<String>,
}

#[derive(Clone, Debug, Default)]
struct Scope {
    values: Vec<GVal>,
    types: Vec<(Acc, usize)>,
    ctors: Vec<(Acc, usize, usize)>,
}

#[derive(Clone, Debug)]
struct Local {
    name: String,
    /// scheme variables are V(n) with n in lo..hi
    lo: u32,
    hi: u32,
    ty: G,
    /// `\fold x`: data type and result
    folded: Option<(G, G)>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub modules: (usize, usize),
    pub items: (usize, usize),
    pub depth: usize,
    pub budget: usize,
    pub std: u32,
    pub hole: u32,
    pub unannotated: u32,
    pub poly: u32,
    pub big: u32,
    pub export: u32,
    pub main: u32,
    pub unicode: bool,
    pub extra_parens: u32,
    pub probe: u32,
}

impl Cfg {
    pub fn front() -> Cfg {
        Cfg { modules: (1, 3), items: (1, 7), depth: 4, budget: 50, std: 45, hole: 2, unannotated: 25, poly: 35, big: 10, export: 45, main: 15, unicode: true, extra_parens: 4, probe: 40 }
    }
    pub fn run() -> Cfg {
        Cfg { modules: (1, 3), items: (2, 8), depth: 5, budget: 70, std: 50, hole: 0, unannotated: 15, poly: 30, big: 20, export: 80, main: 25, unicode: true, extra_parens: 4, probe: 85 }
    }
    pub fn single() -> Cfg {
        Cfg { modules: (1, 1), std: 0, ..Cfg::run() }
    }
}

const LOCALS: &[&str] = &["x", "y", "z", "acc", "n", "f", "g", "val", "x1", "_t", "tmp", "matches", "iff", "lets", "rect", "intx", "a", "b", "foldx", "endd", "h", "k", "_", "w2"];
const ITEMS: &[&str] = &["foo", "bar", "baz", "qux", "value", "go", "step", "run", "calc", "conv", "size", "sum2", "type1", "build", "_priv", "x", "f", "rest", "thenx", "fromList2"];
const TYPES: &[&str] = &["Foo", "Bar", "Tree", "Pair", "Box", "Shape", "Nat", "Expr", "Maybe", "Either", "Rose", "Color", "Op2", "Env"];
const CTORS: &[&str] = &["A", "B", "Leaf", "Node", "Mk", "Zero", "Succ", "Lit", "Add", "Left", "Right", "Tip", "Bin", "Red", "C1", "Wrap", "End2", "More"];
const VARS: &[&str] = &["a", "b", "c", "d", "e", "t", "elem", "k1", "res", "st"];
const NSES: &[&str] = &["lst", "opt", "m", "util", "lib", "int2", "str", "arr", "mod1", "other", "list", "string2"];
const PATHS: &[&str] = &["a", "b", "lib/util", "x y", "./q", "tools", "mod-1", "deep/er/path"];

struct Gen<'r> {
    rng: &'r mut Rng,
    cfg: Cfg,
    p: Project,
    datas: Vec<GData>,
    outs: Vec<ModOut>,
    scope: Scope,
    budget: usize,
    /// bound on the search effort for one item
    work: usize,
    /// rigid type variables of the current definition: V(i) -> name
    rigid: Vec<String>,
    /// rigid variables in scope
    in_scope: u32,
    serial: usize,
}

pub fn project(rng: &mut Rng, cfg: &Cfg) -> Project {
    let mut g = Gen {
        rng,
        cfg: cfg.clone(),
        p: Project::new(),
        datas: vec![],
        outs: vec![],
        scope: Scope::default(),
        budget: cfg.budget,
        work: 0,
        rigid: vec![],
        in_scope: 0,
        serial: 0,
    };
    if g.rng.chance(cfg.std) {
        g.std();
    }
    let n = g.rng.range(cfg.modules.0, cfg.modules.1);
    let mut paths: Vec<String> = PATHS.iter().map(|s| s.to_string()).collect();
    for i in 0..n {
        let path = if i + 1 == n {
            "main".to_owned()
        } else {
            let k = g.rng.below(paths.len());
            paths.remove(k)
        };
        g.module(path, i + 1 == n);
    }
    let mut p = g.p;
    p.fix_parens();
    p
}

impl<'r> Gen<'r> {
    fn name(&mut self, s: &str) -> Name {
        self.p.name(s)
    }
    fn e(&mut self, k: EK) -> Expr {
        self.p.expr(k)
    }

    fn std(&mut self) {
        let mut home: Vec<(String, usize)> = vec![];
        for path in stdsig::PATHS {
            let m = stdsig::module(path).unwrap();
            let mut out = ModOut { path: path.to_string(), ..Default::default() };
            for t in m.types {
                let idx = self.datas.len();
                let mut ctors = vec![];
                self.datas.push(GData { name: t.name.to_owned(), params: t.params.len(), ctors: vec![], export: true, export_ctors: t.export_ctors, opaque: !t.export_ctors });
                for (c, fs) in t.ctors {
                    let fields = fs
                        .iter()
                        .map(|f| if *f == "rec" { GField::Rec } else { GField::Ty(G::V(t.params.iter().position(|p| p == f).unwrap() as u32)) })
                        .collect();
                    ctors.push((c.to_string(), fields));
                }
                self.datas[idx].ctors = ctors;
                out.types.push(idx);
                if t.export_ctors {
                    out.ctors.push(idx);
                }
                home.push((t.name.to_owned(), idx));
            }
            for (name, sig) in m.values {
                let toks = stdsig::sig_tokens(sig);
                let mut pos = 0;
                let mut vars = vec![];
                let ty = sig_fn(&toks, &mut pos, &home, &mut vars);
                let key = format!("{}/{}", &path[4..], name);
                if matches!(key.as_str(), "list/sortBy" | "list/maxBy" | "list/minBy") {
                    continue;
                }
                out.values.push(OutVal { name: name.to_string(), nvars: vars.len() as u32, ty, key: Some(key) });
            }
            self.outs.push(out);
        }
    }

    // ---- modules -----------------------------------------------------------

    fn module(&mut self, path: String, is_main: bool) {
        self.scope = Scope::default();
        let mut items = vec![];
        let mut out = ModOut { path: path.clone(), ..Default::default() };
        // imports
        let avail: Vec<usize> = (0..self.outs.len()).collect();
        for k in avail {
            let is_std = self.outs[k].path.starts_with("std/");
            let chance = if is_std { 40 } else { 75 };
            if self.rng.chance(chance) {
                let it = self.import(k);
                items.push(Item::Import(it));
                if self.rng.chance(4) {
                    let it = self.import(k);
                    items.push(Item::Import(it));
                }
            }
        }
        let n = self.rng.range(self.cfg.items.0, self.cfg.items.1);
        for i in 0..n {
            let want_type = if i == 0 { 60 } else { 25 };
            if self.rng.chance(want_type) {
                let (it, idx) = self.type_item();
                if it.export {
                    out.types.push(idx);
                }
                if it.export_ctors {
                    out.ctors.push(idx);
                }
                items.push(Item::Type(it));
            } else if let Some((it, val)) = self.value_item(is_main) {
                let (val_ty, val_nvars) = (val.ty.clone(), val.nvars);
                if it.export {
                    out.values.retain(|v| v.name != it.name.s);
                    out.values.push(val);
                }
                let (ty, nvars, name) = (val_ty, val_nvars, it.name.s.clone());
                items.push(Item::Value(it));
                if matches!(ty, G::Fn(..)) && self.rng.chance(self.cfg.probe) {
                    if let Some((it, val)) = self.probe(&name, nvars, &ty) {
                        if it.export {
                            out.values.retain(|v| v.name != it.name.s);
                            out.values.push(val);
                        }
                        items.push(Item::Value(it));
                    }
                }
            }
            // a late import
            if self.rng.chance(4) && !self.outs.is_empty() {
                let k = self.rng.below(self.outs.len());
                let it = self.import(k);
                items.push(Item::Import(it));
            }
        }
        if is_main && self.rng.chance(self.cfg.main) {
            self.rigid.clear();
            self.in_scope = 0;
            let ty = gf(G::Str, G::Str);
            self.budget = self.cfg.budget;
            self.work = 4 * self.budget;
            let d = self.cfg.depth;
            if let Some(expr) = self.expr(&ty, &vec![], d) {
                let name = self.name("main");
                let t = self.ty_expr(&ty);
                items.push(Item::Value(ValueItem { export: true, name, ty: t, expr }));
            }
        }
        if items.is_empty() {
            let name = self.name("only");
            let expr = self.e(EK::Int("1".into()));
            items.push(Item::Value(ValueItem { export: true, name, ty: Some(TyE::Int), expr }));
        }
        // a duplicate export of the same constructor name hides the older one
        self.outs.push(out);
        self.p.modules.push(Module { path, items });
    }

    fn import(&mut self, k: usize) -> ImportItem {
        let out = self.outs[k].clone();
        let style = self.rng.below(3);
        let name = if style != 1 {
            let s = self.rng.pick(NSES).to_string();
            Some(self.name(&s))
        } else {
            None
        };
        let mut exposed = None;
        if style != 0 {
            let mut list: Vec<String> = vec![];
            for &t in &out.types {
                if self.rng.chance(80) {
                    list.push(self.datas[t].name.clone());
                }
            }
            for &t in &out.ctors {
                if self.rng.chance(80) {
                    for c in &self.datas[t].ctors.clone() {
                        if self.rng.chance(93) {
                            list.push(c.0.clone());
                        }
                    }
                }
            }
            for v in &out.values {
                if self.rng.chance(45) {
                    list.push(v.name.clone());
                }
            }
            // random order, no duplicates
            let mut seen = HashSet::new();
            list.retain(|x| seen.insert(x.clone()));
            for i in (1..list.len()).rev() {
                let j = self.rng.below(i + 1);
                list.swap(i, j);
            }
            for n in &list {
                self.bring(&out, n);
            }
            exposed = Some(list.iter().map(|s| self.p.name(s)).collect());
        }
        if let Some(ns) = &name {
            let ns = ns.s.clone();
            // an older namespace of the same name is hidden
            let stale = |a: &Acc| matches!(a, Acc::Ns(n, _) if *n == ns);
            self.scope.values.retain(|v| !stale(&v.acc));
            self.scope.types.retain(|v| !stale(&v.0));
            self.scope.ctors.retain(|v| !stale(&v.0));
            for &t in &out.types {
                let n = self.datas[t].name.clone();
                // the last type of a name wins
                self.scope.types.retain(|(a, _)| *a != Acc::Ns(ns.clone(), n.clone()));
                self.scope.types.push((Acc::Ns(ns.clone(), n), t));
            }
            for &t in &out.ctors {
                for (i, c) in self.datas[t].ctors.iter().enumerate() {
                    let a = Acc::Ns(ns.clone(), c.0.clone());
                    self.scope.ctors.retain(|x| x.0 != a);
                    self.scope.ctors.push((a, t, i));
                }
            }
            for v in &out.values {
                self.scope.values.push(GVal { acc: Acc::Ns(ns.clone(), v.name.clone()), nvars: v.nvars, ty: v.ty.clone(), key: v.key.clone() });
            }
        }
        ImportItem { name, exposed, path: out.path }
    }

    fn bring(&mut self, out: &ModOut, n: &str) {
        let acc = Acc::Plain(n.to_owned());
        if let Some(v) = out.values.iter().rev().find(|v| v.name == n) {
            self.scope.values.retain(|x| x.acc != acc);
            self.scope.values.push(GVal { acc: acc.clone(), nvars: v.nvars, ty: v.ty.clone(), key: v.key.clone() });
        }
        if let Some(&t) = out.types.iter().rev().find(|&&t| self.datas[t].name == n) {
            self.scope.types.retain(|x| x.0 != acc);
            self.scope.types.push((acc.clone(), t));
        }
        for &t in out.ctors.iter().rev() {
            if let Some(i) = self.datas[t].ctors.iter().position(|c| c.0 == n) {
                self.scope.ctors.retain(|x| x.0 != acc);
                self.scope.ctors.push((acc.clone(), t, i));
                break;
            }
        }
    }

    fn pick_name(&mut self, pool: &[&str]) -> String {
        let mut s = self.rng.pick(pool).to_string();
        if self.rng.chance(70) {
            self.serial += 1;
            s.push_str(&self.serial.to_string());
        }
        s
    }

    fn type_item(&mut self) -> (TypeItem, usize) {
        let name = self.pick_name(TYPES);
        let np = match self.rng.below(10) {
            0..=5 => 0,
            6..=8 => 1,
            _ => 2,
        };
        let mut pnames: Vec<String> = vec![];
        for i in 0..np {
            pnames.push(VARS[(i + self.rng.below(3) * 2) % VARS.len()].to_string());
        }
        let idx = self.datas.len();
        let export = self.rng.chance(60);
        let export_ctors = if export { self.rng.chance(80) } else { self.rng.chance(10) };
        let nc = match self.rng.below(100) {
            0..=19 => 1,
            20..=59 => 2,
            60..=84 => 3,
            85..=97 => 4,
            _ => self.rng.range(5, 12),
        };
        let mut ctors: Vec<(String, Vec<GField>)> = vec![];
        let mut cdefs = vec![];
        self.rigid = pnames.clone();
        self.in_scope = np as u32;
        for c in 0..nc {
            let cname = loop {
                let n = self.pick_name(CTORS);
                if !ctors.iter().any(|x| x.0 == n) {
                    break n;
                }
            };
            let nf = match self.rng.below(100) {
                0..=29 => 0,
                30..=59 => 1,
                60..=84 => 2,
                85..=95 => 3,
                96..=98 => self.rng.range(4, 8),
                _ => self.rng.range(9, 14),
            };
            let mut fields = vec![];
            let mut defs = vec![];
            for f in 0..nf {
                let mut fty = if c > 0 && self.rng.chance(35) {
                    GField::Rec
                } else if np > 0 && self.rng.chance(50) {
                    GField::Ty(G::V(self.rng.below(np) as u32))
                } else {
                    GField::Ty(self.small_ty(2, f % 3 == 2))
                };
                let mut te = None;
                if let GField::Ty(t) = &fty {
                    te = self.ty_expr(t);
                    if te.is_none() {
                        fty = GField::Ty(G::Int);
                        te = Some(TyE::Int);
                    }
                }
                defs.push(match te {
                    Some(t) => Field::Ty(t),
                    None => Field::Rec,
                });
                fields.push(fty);
            }
            let n = self.name(&cname);
            cdefs.push(CtorDef { name: n, fields: defs });
            ctors.push((cname, fields));
        }
        let lead_pipe = self.rng.chance(60);
        let tname = self.name(&name);
        let params = pnames.iter().map(|p| self.p.name(p)).collect();
        // put it in scope
        let acc = Acc::Plain(name.clone());
        self.scope.types.retain(|x| x.0 != acc);
        self.scope.types.push((acc, idx));
        for (i, c) in ctors.iter().enumerate() {
            let a = Acc::Plain(c.0.clone());
            self.scope.ctors.retain(|x| x.0 != a);
            self.scope.ctors.push((a, idx, i));
        }
        self.datas.push(GData { name, params: np, ctors, export, export_ctors, opaque: false });
        (TypeItem { export, export_ctors, name: tname, params, lead_pipe, ctors: cdefs }, idx)
    }

    fn value_item(&mut self, is_main: bool) -> Option<(ValueItem, OutVal)> {
        self.rigid.clear();
        self.in_scope = 0;
        let ground = self.rng.chance(30);
        let mut ty;
        if self.rng.chance(self.cfg.poly) {
            let n = self.rng.range(1, 2);
            for i in 0..n {
                self.rigid.push(VARS[(i + self.rng.below(4) * 2) % VARS.len()].to_string());
            }
            if n == 2 && self.rigid[0] == self.rigid[1] {
                self.rigid[1] = "zz".into();
            }
            self.in_scope = n as u32;
            ty = self.poly_ty(n as u32);
        } else if ground {
            ty = self.small_ty(2, false);
        } else {
            ty = self.small_ty(2, false);
            for _ in 0..self.rng.range(1, 3) {
                let a = self.small_ty(2, true);
                ty = gf(a, ty);
            }
        }
        let annotated = !self.rng.chance(if has_data_args(&ty) { self.cfg.unannotated / 6 } else { self.cfg.unannotated });
        let mut order: Vec<u32> = vec![];
        g_vars(&ty, &mut order);
        let poly = !order.is_empty();
        let te = if annotated || poly { self.ty_expr(&ty) } else { None };
        if poly && te.is_none() {
            return None;
        }
        let d = self.rng.range(1, self.cfg.depth);
        self.budget = self.rng.range(self.cfg.budget / 4, self.cfg.budget);
        self.work = 4 * self.budget;
        let expr = self.expr(&ty, &vec![], d)?;
        let s = self.pick_name(ITEMS);
        let export = self.rng.chance(self.cfg.export);
        let name = self.name(&s);
        // scheme variables renumbered in order of appearance
        let map: Vec<(u32, G)> = order.iter().enumerate().map(|(i, &v)| (v, G::V(i as u32))).collect();
        let sty = g_subst(&ty, &map);
        let nvars = order.len() as u32;
        let acc = Acc::Plain(s.clone());
        self.scope.values.retain(|x| x.acc != acc);
        self.scope.values.push(GVal { acc, nvars, ty: sty.clone(), key: None });
        let _ = is_main;
        Some((ValueItem { export, name, ty: te, expr }, OutVal { name: s, nvars, ty: sty, key: None }))
    }

    /// A value that applies a function defined before to arguments.
    fn probe(&mut self, f: &str, nvars: u32, ty: &G) -> Option<(ValueItem, OutVal)> {
        self.rigid.clear();
        self.in_scope = 0;
        self.budget = self.cfg.budget;
        self.work = 4 * self.budget;
        let mut map = vec![];
        for v in 0..nvars {
            let t = self.small_ty(1, false);
            map.push((v, t));
        }
        let mut args = vec![];
        let mut cur = g_subst(ty, &map);
        while let G::Fn(a, b) = cur {
            args.push(*a);
            cur = *b;
        }
        let d = self.rng.range(2, self.cfg.depth.max(2));
        let h = Head { acc: Acc::Plain(f.to_owned()), lo: 0, hi: 0, map: vec![], args, key: None, weight: 1 };
        let expr = self.apply_head(h, &vec![], d)?;
        let te = if self.rng.chance(40) { self.ty_expr(&cur) } else { None };
        if te.is_none() && has_data_args(&cur) {
            return None;
        }
        let s = self.pick_name(ITEMS);
        let export = self.rng.chance(90);
        let name = self.name(&s);
        let acc = Acc::Plain(s.clone());
        self.scope.values.retain(|x| x.acc != acc);
        self.scope.values.push(GVal { acc, nvars: 0, ty: cur.clone(), key: None });
        Some((ValueItem { export, name, ty: te, expr }, OutVal { name: s, nvars: 0, ty: cur, key: None }))
    }

    // ---- types -------------------------------------------------------------

    fn visible_data(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.scope.types.iter().map(|x| x.1).collect();
        v.sort();
        v.dedup();
        v
    }

    fn small_ty(&mut self, d: usize, fun: bool) -> G {
        let r = self.rng.below(100);
        if d > 0 {
            if fun && r < 14 {
                let a = self.small_ty(d - 1, false);
                let b = self.small_ty(d - 1, false);
                return gf(a, b);
            }
            if r < 60 {
                let ds: Vec<usize> = self.visible_data().into_iter().filter(|&i| !self.datas[i].opaque).collect();
                if !ds.is_empty() {
                    let i = *self.rng.pick(&ds);
                    let n = self.datas[i].params;
                    let args = (0..n).map(|_| self.small_ty(d - 1, self.cfg.depth > 3)).collect();
                    return G::D(i, args);
                }
            }
            if r < 65 {
                let ds: Vec<usize> = self.visible_data().into_iter().filter(|&i| self.datas[i].opaque && self.datas[i].name == "Array").collect();
                if !ds.is_empty() && fun {
                    let a = self.small_ty(d - 1, false);
                    return G::D(ds[0], vec![a]);
                }
            }
        }
        if self.in_scope > 0 && self.rng.chance(25) {
            return G::V(self.rng.below(self.in_scope as usize) as u32);
        }
        match self.rng.below(10) {
            0..=4 => G::Int,
            5..=6 => G::Bool,
            _ => G::Str,
        }
    }

    /// A polymorphic function type that is likely to be inhabited.
    fn poly_ty(&mut self, n: u32) -> G {
        let a = G::V(0);
        let b = if n > 1 { G::V(1) } else { G::Int };
        let ds: Vec<usize> = self.visible_data().into_iter().filter(|&i| self.datas[i].params == 1 && !self.datas[i].opaque).collect();
        let r = self.rng.below(10);
        if !ds.is_empty() && r < 7 {
            let d = *self.rng.pick(&ds);
            let da = G::D(d, vec![a.clone()]);
            let db = G::D(d, vec![b.clone()]);
            return match self.rng.below(6) {
                0 => gf(a, da),
                1 => gf(gf(a, b.clone()), gf(b, gf(da, db))),
                2 => gf(a.clone(), gf(da, a)),
                3 => gf(da.clone(), gf(da, G::Int)),
                4 => gf(gf(a.clone(), gf(b.clone(), b.clone())), gf(b.clone(), gf(da, b))),
                _ => gf(gf(a, G::Bool), gf(da.clone(), da)),
            };
        }
        match r % 6 {
            0 => gf(a.clone(), a),
            1 => gf(a.clone(), gf(b, a)),
            2 => gf(gf(a.clone(), b.clone()), gf(a, b)),
            3 => gf(gf(a.clone(), a.clone()), gf(a.clone(), a)),
            4 => gf(G::Bool, gf(a.clone(), gf(a.clone(), a))),
            _ => gf(gf(a.clone(), gf(b.clone(), G::Int)), gf(b, gf(a, G::Int))),
        }
    }

    fn type_acc(&mut self, d: usize) -> Option<Acc> {
        let c: Vec<Acc> = self.scope.types.iter().filter(|x| x.1 == d).map(|x| x.0.clone()).collect();
        if c.is_empty() {
            None
        } else {
            Some(self.rng.pick(&c).clone())
        }
    }

    fn ty_expr(&mut self, t: &G) -> Option<TyE> {
        let r = match t {
            G::Int => TyE::Int,
            G::Bool => TyE::Bool,
            G::Str => TyE::Str,
            G::Fn(a, b) => {
                let a = self.ty_expr(a)?;
                let b = self.ty_expr(b)?;
                TyE::Fn(Box::new(a), Box::new(b))
            }
            G::D(d, args) => {
                let acc = self.type_acc(*d)?;
                let mut ts = vec![];
                let (ns, name) = match acc {
                    Acc::Plain(n) => (None, self.name(&n)),
                    Acc::Ns(m, n) => {
                        let ns = self.name(&m);
                        (Some(ns), self.name(&n))
                    }
                };
                for a in args {
                    ts.push(self.ty_expr(a)?);
                }
                TyE::Named { ns, name, args: ts }
            }
            G::V(v) => {
                let s = self.rigid.get(*v as usize)?.clone();
                let name = self.name(&s);
                TyE::Named { ns: None, name, args: vec![] }
            }
        };
        if self.rng.chance(self.cfg.extra_parens / 2) {
            return Some(TyE::Paren(Box::new(r)));
        }
        Some(r)
    }

    // ---- expressions -------------------------------------------------------

    fn expr(&mut self, goal: &G, env: &Vec<Local>, d: usize) -> Option<Expr> {
        let e = self.expr_inner(goal, env, d)?;
        if self.rng.chance(self.cfg.extra_parens) {
            return Some(self.e(EK::Paren(e)));
        }
        Some(e)
    }

    fn expr_inner(&mut self, goal: &G, env: &Vec<Local>, d: usize) -> Option<Expr> {
        if self.budget == 0 || d == 0 {
            return self.leaf(goal, env, 3);
        }
        self.budget -= 1;
        if self.cfg.hole > 0 && self.rng.chance(self.cfg.hole) {
            let s = *self.rng.pick(&["todo", "x", "1", "hole_2"]);
            return Some(self.e(EK::Hole(s.to_owned())));
        }
        for _ in 0..3 {
            let r = self.rng.below(100);
            let e = match goal {
                G::Fn(a, b) => {
                    if r < 45 {
                        self.lambda(a, b, env, d)
                    } else if r < 72 {
                        self.fold(a, b, env, d).or_else(|| self.lambda(a, b, env, d))
                    } else if r < 90 {
                        self.app(goal, env, d)
                    } else {
                        self.common(goal, env, d)
                    }
                }
                G::Int => {
                    if r < 12 {
                        self.leaf(goal, env, 1)
                    } else if r < 42 {
                        let op = *self.rng.pick(&[BinOp::Add, BinOp::Add, BinOp::Sub, BinOp::Mul, BinOp::Div, BinOp::Mod]);
                        let a = self.expr(&G::Int, env, d - 1)?;
                        let b = self.expr(&G::Int, env, d - 1)?;
                        Some(self.e(EK::Op(a, op, b)))
                    } else if r < 68 {
                        self.app(goal, env, d)
                    } else {
                        self.common(goal, env, d)
                    }
                }
                G::Bool => {
                    if r < 10 {
                        self.leaf(goal, env, 1)
                    } else if r < 50 {
                        let op = *self.rng.pick(&[BinOp::Lt, BinOp::Le, BinOp::Gt, BinOp::Ge, BinOp::Eq, BinOp::Ne]);
                        let a = self.expr(&G::Int, env, d - 1)?;
                        let b = self.expr(&G::Int, env, d - 1)?;
                        Some(self.e(EK::Op(a, op, b)))
                    } else if r < 68 {
                        self.app(goal, env, d)
                    } else {
                        self.common(goal, env, d)
                    }
                }
                G::Str => {
                    if r < 20 {
                        self.leaf(goal, env, 1)
                    } else if r < 65 {
                        self.app(goal, env, d)
                    } else {
                        self.common(goal, env, d)
                    }
                }
                G::D(..) | G::V(_) => {
                    if r < 66 {
                        self.app(goal, env, d)
                    } else {
                        self.common(goal, env, d)
                    }
                }
            };
            if e.is_some() {
                return e;
            }
        }
        self.leaf(goal, env, 3)
    }

    fn common(&mut self, goal: &G, env: &Vec<Local>, d: usize) -> Option<Expr> {
        match self.rng.below(100) {
            0..=17 => {
                let c = self.expr(&G::Bool, env, d - 1)?;
                let a = self.expr(goal, env, d - 1)?;
                let b = self.expr(goal, env, d - 1)?;
                Some(self.e(EK::If(c, a, b)))
            }
            18..=45 => self.let_(goal, env, d),
            46..=90 => self.match_(goal, env, d),
            _ => {
                // beta redex
                let t = self.small_ty(1, false);
                let v = self.expr(&t, env, d - 1)?;
                let f = self.lambda(&t, goal, env, d)?;
                if self.rng.chance(50) {
                    Some(self.e(EK::Op(v, BinOp::Pipe, f)))
                } else {
                    Some(self.e(EK::App(f, v)))
                }
            }
        }
    }

    fn local_name(&mut self) -> String {
        let mut s = self.rng.pick(LOCALS).to_string();
        if self.rng.chance(35) {
            s.push_str(&self.rng.below(10).to_string());
        }
        s
    }

    fn with(&self, env: &Vec<Local>, l: Local) -> Vec<Local> {
        let mut e: Vec<Local> = env.iter().filter(|x| x.name != l.name).cloned().collect();
        e.push(l);
        e
    }

    fn lambda(&mut self, a: &G, b: &G, env: &Vec<Local>, d: usize) -> Option<Expr> {
        let n = self.local_name();
        // a fold need not take its parameter apart, which can be of any type
        let fold = self.rng.chance(4);
        let folded = if fold { Some((a.clone(), b.clone())) } else { None };
        let env2 = self.with(env, Local { name: n.clone(), lo: 0, hi: 0, ty: a.clone(), folded });
        let body = self.expr(b, &env2, if matches!(b, G::Fn(..)) { d } else { d.saturating_sub(1) })?;
        let n = self.name(&n);
        Some(self.e(if fold { EK::Fold(n, body) } else { EK::Lam(n, body) }))
    }

    fn fields(&self, d: usize, c: usize, args: &[G]) -> Vec<Option<G>> {
        let map: Vec<(u32, G)> = args.iter().enumerate().map(|(i, g)| (i as u32, g.clone())).collect();
        self.datas[d].ctors[c]
            .1
            .iter()
            .map(|f| match f {
                GField::Rec => None,
                GField::Ty(t) => Some(g_subst(t, &map)),
            })
            .collect()
    }

    fn matchable(&self, d: usize) -> bool {
        (0..self.datas[d].ctors.len()).all(|i| self.scope.ctors.iter().any(|c| c.1 == d && c.2 == i)) && !self.datas[d].opaque
    }

    fn ctor_acc(&mut self, d: usize, c: usize) -> Option<Acc> {
        let v: Vec<Acc> = self.scope.ctors.iter().filter(|x| x.1 == d && x.2 == c).map(|x| x.0.clone()).collect();
        if v.is_empty() {
            None
        } else {
            Some(self.rng.pick(&v).clone())
        }
    }

    fn cases(&mut self, d: usize, args: &[G], rec: &G, goal: &G, env: &Vec<Local>, depth: usize) -> Option<Vec<Case>> {
        let n = self.datas[d].ctors.len();
        let mut order: Vec<usize> = (0..n).collect();
        if self.rng.chance(40) {
            for i in (1..n).rev() {
                let j = self.rng.below(i + 1);
                order.swap(i, j);
            }
        }
        let mut cases = vec![];
        for c in order {
            let acc = self.ctor_acc(d, c)?;
            let mut env2 = env.clone();
            let mut vars = vec![];
            for f in self.fields(d, c, args) {
                let t = f.unwrap_or_else(|| rec.clone());
                let mut n = self.local_name();
                if vars.iter().any(|v: &Name| v.s == n) && self.rng.chance(80) {
                    self.serial += 1;
                    n = format!("v{}", self.serial);
                }
                env2 = self.with(&env2, Local { name: n.clone(), lo: 0, hi: 0, ty: t, folded: None });
                vars.push(self.name(&n));
            }
            let body = self.expr(goal, &env2, depth)?;
            let (ns, ctor) = match acc {
                Acc::Plain(n) => (None, self.name(&n)),
                Acc::Ns(m, n) => {
                    let m = self.name(&m);
                    (Some(m), self.name(&n))
                }
            };
            cases.push(Case { ns, ctor, vars, body });
        }
        Some(cases)
    }

    fn fold(&mut self, a: &G, b: &G, env: &Vec<Local>, d: usize) -> Option<Expr> {
        let G::D(dt, args) = a else { return None };
        if !self.matchable(*dt) || self.datas[*dt].ctors.is_empty() {
            return None;
        }
        let n = self.local_name();
        let env2 = self.with(env, Local { name: n.clone(), lo: 0, hi: 0, ty: a.clone(), folded: Some((a.clone(), b.clone())) });
        let use_let = self.rng.chance(6);
        let env3 = if use_let { env2.iter().filter(|l| l.name != "q9").cloned().collect() } else { env2.clone() };
        let cases = self.cases(*dt, args, b, b, &env3, d.saturating_sub(1))?;
        let vn = self.name(&n);
        let un = self.name(&n);
        let var = self.e(EK::Var(un));
        let body = if use_let {
            let q = self.name("q9");
            let qu = self.name("q9");
            let qv = self.e(EK::Var(qu));
            let m = self.e(EK::Match(qv, cases));
            self.e(EK::Let(q, None, var, m))
        } else {
            self.e(EK::Match(var, cases))
        };
        Some(self.e(EK::Fold(vn, body)))
    }

    fn match_(&mut self, goal: &G, env: &Vec<Local>, d: usize) -> Option<Expr> {
        // prefer something in scope to take apart
        let locals: Vec<Local> = env
            .iter()
            .filter(|l| l.lo == l.hi && matches!(&l.ty, G::D(t, _) if self.matchable(*t) && !self.datas[*t].ctors.is_empty()))
            .cloned()
            .collect();
        if !locals.is_empty() && self.rng.chance(75) {
            let l = self.rng.pick(&locals).clone();
            let G::D(t, args) = &l.ty else { unreachable!() };
            let rec = match &l.folded {
                Some((_, r)) => r.clone(),
                None => l.ty.clone(),
            };
            let cases = self.cases(*t, args, &rec, goal, env, d - 1)?;
            let n = self.name(&l.name);
            let v = self.e(EK::Var(n));
            return Some(self.e(EK::Match(v, cases)));
        }
        let ds: Vec<usize> = self.visible_data().into_iter().filter(|&i| self.matchable(i) && !self.datas[i].ctors.is_empty()).collect();
        if ds.is_empty() {
            return None;
        }
        let t = *self.rng.pick(&ds);
        let args: Vec<G> = (0..self.datas[t].params).map(|_| self.small_ty(1, false)).collect();
        let ty = G::D(t, args.clone());
        let s = self.expr(&ty, env, d - 1)?;
        let cases = self.cases(t, &args, &ty, goal, env, d - 1)?;
        Some(self.e(EK::Match(s, cases)))
    }

    fn let_(&mut self, goal: &G, env: &Vec<Local>, d: usize) -> Option<Expr> {
        let n = self.local_name();
        if self.rng.chance(15) && self.rigid.len() < 6 {
            // locally polymorphic function
            let fresh = self.rigid.len() as u32;
            let mut vn = self.rng.pick(VARS).to_string();
            while self.rigid.contains(&vn) {
                vn.push('1');
            }
            self.rigid.push(vn);
            let saved = self.in_scope;
            let v = G::V(fresh);
            let ty = match self.rng.below(4) {
                0 => gf(v.clone(), v.clone()),
                1 => gf(v.clone(), gf(G::Int, v.clone())),
                2 => gf(G::Bool, gf(v.clone(), gf(v.clone(), v.clone()))),
                _ => gf(gf(v.clone(), G::Int), gf(v.clone(), G::Int)),
            };
            let te = self.ty_expr(&ty);
            // variables of an outer rigid type are fine in the value
            let val = self.expr(&ty, env, d - 1);
            self.in_scope = saved;
            let env2 = self.with(env, Local { name: n.clone(), lo: fresh, hi: fresh + 1, ty, folded: None });
            let (te, val) = (te?, val?);
            let body = self.expr(goal, &env2, d - 1)?;
            let n = self.name(&n);
            return Some(self.e(EK::Let(n, Some(te), val, body)));
        }
        let ty = self.small_ty(2, true);
        let te = if self.rng.chance(40) { self.ty_expr(&ty) } else { None };
        let val = self.expr(&ty, env, d - 1)?;
        let env2 = self.with(env, Local { name: n.clone(), lo: 0, hi: 0, ty, folded: None });
        let body = self.expr(goal, &env2, d - 1)?;
        let n = self.name(&n);
        Some(self.e(EK::Let(n, te, val, body)))
    }

    fn acc_expr(&mut self, a: &Acc) -> Expr {
        match a {
            Acc::Plain(n) => {
                let n = self.name(n);
                self.e(EK::Var(n))
            }
            Acc::Ns(m, n) => {
                let m = self.name(m);
                let n = self.name(n);
                self.e(EK::Ns(m, n))
            }
        }
    }

    fn app(&mut self, goal: &G, env: &Vec<Local>, d: usize) -> Option<Expr> {
        let mut heads = self.heads(goal, env);
        for _ in 0..3 {
            if heads.is_empty() {
                return None;
            }
            let total: u32 = heads.iter().map(|h| h.weight).sum();
            let mut r = self.rng.below(total as usize) as u32;
            let mut k = 0;
            while r >= heads[k].weight {
                r -= heads[k].weight;
                k += 1;
            }
            let h = heads.remove(k);
            if let Some(e) = self.apply_head(h, env, d) {
                return Some(e);
            }
        }
        None
    }

    fn apply_head(&mut self, h: Head, env: &Vec<Local>, d: usize) -> Option<Expr> {
        // scheme variables not fixed by the goal
        let mut map = h.map.clone();
        for v in h.lo..h.hi {
            if !map.iter().any(|m| m.0 == v) {
                let t = self.small_ty(1, false);
                map.push((v, t));
            }
        }
        let mut args = vec![];
        for (i, a) in h.args.iter().enumerate() {
            let t = g_subst(a, &map);
            let e = if let Some(k) = &h.key {
                match count_arg(k, i) {
                    true => {
                        let n = self.rng.below(7).to_string();
                        self.e(EK::Int(n))
                    }
                    false => self.expr(&t, env, d - 1)?,
                }
            } else {
                self.expr(&t, env, d - 1)?
            };
            args.push(e);
        }
        let mut e = self.acc_expr(&h.acc);
        let n = args.len();
        for (i, a) in args.into_iter().enumerate() {
            if i + 1 == n && self.rng.chance(12) {
                e = self.e(EK::Op(a, BinOp::Pipe, e));
            } else {
                e = self.e(EK::App(e, a));
            }
        }
        Some(e)
    }

    fn heads(&mut self, goal: &G, env: &Vec<Local>) -> Vec<Head> {
        if self.work == 0 {
            return vec![];
        }
        self.work -= 1;
        let mut out: Vec<Head> = vec![];
        let push = |acc: Acc, lo: u32, hi: u32, ty: &G, key: Option<String>, weight: u32, out: &mut Vec<Head>| {
            let mut args = vec![];
            let mut cur = ty.clone();
            loop {
                let mut map = vec![];
                if g_match(&cur, goal, lo, hi, &mut map) {
                    let ok = match &key {
                        Some(k) => (0..4).all(|i| !count_arg(k, i) || i < args.len()),
                        None => true,
                    };
                    if ok {
                        // a bare scheme variable as the result matches anything
                        let w = if matches!(cur, G::V(v) if v >= lo && v < hi) && key.is_some() { (weight / 2).max(1) } else { weight };
                        out.push(Head { acc: acc.clone(), lo, hi, map, args: args.clone(), key: key.clone(), weight: w });
                    }
                }
                match cur {
                    G::Fn(a, b) => {
                        args.push(*a);
                        cur = *b;
                    }
                    _ => break,
                }
            }
        };
        let mut names: HashSet<&str> = HashSet::new();
        for l in env.iter().rev() {
            if !names.insert(&l.name) || l.folded.is_some() {
                continue;
            }
            push(Acc::Plain(l.name.clone()), l.lo, l.hi, &l.ty, None, 12, &mut out);
        }
        // scheme variables of globals are shifted away from the rigid ones
        const SHIFT: u32 = 1000;
        for v in &self.scope.values {
            if let Acc::Plain(n) = &v.acc {
                if names.contains(n.as_str()) {
                    continue;
                }
            }
            let map: Vec<(u32, G)> = (0..v.nvars).map(|i| (i, G::V(i + SHIFT))).collect();
            let ty = g_subst(&v.ty, &map);
            push(v.acc.clone(), SHIFT, SHIFT + v.nvars, &ty, v.key.clone(), if v.key.is_some() { 2 } else { 6 }, &mut out);
        }
        for (acc, d, c) in &self.scope.ctors {
            let data = &self.datas[*d];
            let np = data.params as u32;
            let whole = G::D(*d, (0..np).map(|i| G::V(i + SHIFT)).collect());
            let map: Vec<(u32, G)> = (0..np).map(|i| (i, G::V(i + SHIFT))).collect();
            let mut ty = whole.clone();
            for f in data.ctors[*c].1.iter().rev() {
                ty = gf(
                    match f {
                        GField::Rec => whole.clone(),
                        GField::Ty(t) => g_subst(t, &map),
                    },
                    ty,
                );
            }
            push(acc.clone(), SHIFT, SHIFT + np, &ty, None, 5, &mut out);
        }
        out
    }

    fn int_lit(&mut self) -> String {
        let s = if self.rng.chance(self.cfg.big) {
            let edges: [u64; 20] = [
                127, 128, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001,
                0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0x8000_0000_0000_0001, 0xffff_ffff_ffff_fffe, 0xffff_ffff_ffff_ffff,
                0xffff_ffff_8000_0000, 10_000_000_000_000_000_000, 48,
            ];
            if self.rng.chance(80) {
                self.rng.pick(&edges).to_string()
            } else {
                self.rng.next().to_string()
            }
        } else {
            self.rng.below(12).to_string()
        };
        if self.rng.chance(2) {
            format!("00{}", s)
        } else {
            s
        }
    }

    fn str_lit(&mut self) -> String {
        let ascii = ["", "a", "abc", "hello, world", " x ", "12", "007", "x,y,z", "  ", "tab\there", "let x = 1;", "-- no", "?", "zzzzzzzzzz"];
        let uni = ["é", "ąčę", "日本", "🦀", "x\u{301}", "\u{7f}"];
        if self.cfg.unicode && self.rng.chance(12) {
            return self.rng.pick(&uni).to_string();
        }
        if self.rng.chance(3) {
            let n = self.rng.range(20, 120);
            return (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        }
        self.rng.pick(&ascii).to_string()
    }

    fn leaf(&mut self, goal: &G, env: &Vec<Local>, d: usize) -> Option<Expr> {
        let locals: Vec<String> = {
            let mut names: HashSet<&str> = HashSet::new();
            env.iter()
                .rev()
                .filter(|l| names.insert(&l.name) && l.folded.is_none())
                .filter(|l| g_match(&l.ty, goal, l.lo, l.hi, &mut vec![]))
                .map(|l| l.name.clone())
                .collect()
        };
        if !locals.is_empty() && self.rng.chance(75) {
            let n = self.rng.pick(&locals).clone();
            let n = self.name(&n);
            return Some(self.e(EK::Var(n)));
        }
        match goal {
            G::Int => {
                let s = self.int_lit();
                Some(self.e(EK::Int(s)))
            }
            G::Bool => {
                let b = self.rng.chance(50);
                Some(self.e(EK::Bool(b)))
            }
            G::Str => {
                let s = self.str_lit();
                Some(self.e(EK::Str(s)))
            }
            G::Fn(a, b) => {
                let n = self.local_name();
                let env2 = self.with(env, Local { name: n.clone(), lo: 0, hi: 0, ty: (**a).clone(), folded: None });
                let body = self.leaf(b, &env2, d)?;
                let n = self.name(&n);
                Some(self.e(EK::Lam(n, body)))
            }
            G::D(..) | G::V(_) => {
                if d == 0 {
                    return None;
                }
                let mut heads = self.heads(goal, env);
                heads.sort_by_key(|h| h.args.len());
                // the first few smallest heads
                for h in heads.into_iter().take(4) {
                    let mut map = h.map.clone();
                    for v in h.lo..h.hi {
                        if !map.iter().any(|m| m.0 == v) {
                            map.push((v, G::Int));
                        }
                    }
                    let mut args = vec![];
                    let mut ok = true;
                    for (i, a) in h.args.iter().enumerate() {
                        let t = g_subst(a, &map);
                        let e = if h.key.as_deref().map(|k| count_arg(k, i)).unwrap_or(false) {
                            let n = self.rng.below(4).to_string();
                            Some(self.e(EK::Int(n)))
                        } else {
                            self.leaf(&t, env, d - 1)
                        };
                        match e {
                            Some(e) => args.push(e),
                            None => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        let mut e = self.acc_expr(&h.acc);
                        for a in args {
                            e = self.e(EK::App(e, a));
                        }
                        return Some(e);
                    }
                }
                None
            }
        }
    }
}

fn has_data_args(t: &G) -> bool {
    match t {
        G::D(_, a) => !a.is_empty(),
        G::Fn(..) => true,
        _ => false,
    }
}

struct Head {
    acc: Acc,
    lo: u32,
    hi: u32,
    map: Vec<(u32, G)>,
    args: Vec<G>,
    key: Option<String>,
    weight: u32,
}

/// Arguments of standard functions that drive the amount of work done.
pub fn count_arg(key: &str, i: usize) -> bool {
    matches!(
        (key, i),
        ("intrinsics/iterate", 0) | ("int/iterate", 0) | ("list/skip", 0) | ("list/take", 0) | ("list/repeat", 0) | ("list/range", 0) | ("list/range", 1) | ("array/new", 0) | ("array/truncate", 0)
    )
}

fn g_vars(t: &G, out: &mut Vec<u32>) {
    match t {
        G::V(v) => {
            if !out.contains(v) {
                out.push(*v);
            }
        }
        G::Fn(a, b) => {
            g_vars(a, out);
            g_vars(b, out);
        }
        G::D(_, a) => a.iter().for_each(|x| g_vars(x, out)),
        _ => {}
    }
}

fn g_subst(t: &G, map: &[(u32, G)]) -> G {
    match t {
        G::V(v) => map.iter().find(|m| m.0 == *v).map(|m| m.1.clone()).unwrap_or_else(|| t.clone()),
        G::Fn(a, b) => gf(g_subst(a, map), g_subst(b, map)),
        G::D(d, a) => G::D(*d, a.iter().map(|x| g_subst(x, map)).collect()),
        _ => t.clone(),
    }
}

/// One-way matching: scheme variables lo..hi of `t` are bound.
fn g_match(t: &G, goal: &G, lo: u32, hi: u32, map: &mut Vec<(u32, G)>) -> bool {
    match (t, goal) {
        (G::V(v), _) if *v >= lo && *v < hi => {
            if let Some(m) = map.iter().find(|m| m.0 == *v) {
                return m.1 == *goal;
            }
            map.push((*v, goal.clone()));
            true
        }
        (G::V(a), G::V(b)) => a == b,
        (G::Int, G::Int) | (G::Bool, G::Bool) | (G::Str, G::Str) => true,
        (G::Fn(a, b), G::Fn(c, d)) => g_match(a, c, lo, hi, map) && g_match(b, d, lo, hi, map),
        (G::D(x, a), G::D(y, b)) => x == y && a.len() == b.len() && a.iter().zip(b).all(|(p, q)| g_match(p, q, lo, hi, map)),
        _ => false,
    }
}

fn sig_fn(toks: &[String], pos: &mut usize, home: &[(String, usize)], vars: &mut Vec<String>) -> G {
    let a = sig_app(toks, pos, home, vars);
    if toks.get(*pos).map(|s| s == "->").unwrap_or(false) {
        *pos += 1;
        let b = sig_fn(toks, pos, home, vars);
        gf(a, b)
    } else {
        a
    }
}
fn sig_app(toks: &[String], pos: &mut usize, home: &[(String, usize)], vars: &mut Vec<String>) -> G {
    let mut h = sig_atom(toks, pos, home, vars);
    while let Some(t) = toks.get(*pos) {
        if t == "->" || t == ")" {
            break;
        }
        let a = sig_atom(toks, pos, home, vars);
        if let G::D(_, args) = &mut h {
            args.push(a);
        }
    }
    h
}
fn sig_atom(toks: &[String], pos: &mut usize, home: &[(String, usize)], vars: &mut Vec<String>) -> G {
    let t = toks[*pos].clone();
    *pos += 1;
    match t.as_str() {
        "int" => G::Int,
        "bool" => G::Bool,
        "string" => G::Str,
        "(" => {
            let r = sig_fn(toks, pos, home, vars);
            *pos += 1;
            r
        }
        n => {
            if let Some((_, d)) = home.iter().find(|h| h.0 == n) {
                return G::D(*d, vec![]);
            }
            let k = vars.iter().position(|v| v == n).unwrap_or_else(|| {
                vars.push(n.to_owned());
                vars.len() - 1
            });
            G::V(k as u32)
        }
    }
}
