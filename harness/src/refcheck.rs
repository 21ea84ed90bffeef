//! Reference front end: name resolution, kinds, types, match coverage and
//! unused definitions, computed from the harness AST.  It is written from the
//! language rules and shares no code with the compiler under test.
use crate::lang::*;
use crate::stdsig;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub type Ent = usize;

#[derive(Clone, Debug)]
pub enum T {
    Int,
    Bool,
    Str,
    Con(Ent, Vec<T>),
    Fn(Rc<T>, Rc<T>),
    Folded(Rc<T>, Rc<T>),
    Meta(usize),
    Err,
}

pub fn fun(a: T, b: T) -> T {
    T::Fn(Rc::new(a), Rc::new(b))
}

#[derive(Clone, Debug)]
pub enum RField {
    Rec,
    Ty(T),
}

#[derive(Clone, Debug)]
pub enum Kind {
    Value { vars: Vec<Ent>, ty: T },
    /// builtin std function (index in stdsig table)
    StdValue { vars: Vec<Ent>, ty: T, key: Rc<str> },
    Ctor { ty: Ent, params: Vec<Ent>, fields: Vec<RField>, fn_ty: T, index: usize },
    Type { params: usize, ctors: Vec<Ent> },
    TypeVar,
    Module(usize),
}

#[derive(Clone, Debug)]
pub struct Entity {
    pub name: String,
    pub kind: Kind,
    pub module: usize,
    /// defining name node (0 for std entities)
    pub def: Id,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RefError {
    pub module: usize,
    pub item: usize,
    pub what: &'static str,
    /// name or expression node the error is about (0 when none)
    pub node: Id,
    /// names that a complaint may give
    pub names: Vec<String>,
    /// numbers that a complaint may give, in order
    pub numbers: Vec<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Vis {
    Local,
    Module,
    Export,
}

#[derive(Clone, Debug)]
pub struct DefSite {
    pub name: Id,
    pub ent: Ent,
    pub vis: Vis,
    pub item: usize,
    /// this site is an entry of an import list
    pub imported: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Exports {
    pub values: HashMap<String, Ent>,
    pub types: HashMap<String, Ent>,
    pub ctors: HashMap<String, Ent>,
}

#[derive(Clone, Debug, Default)]
pub struct ModuleInfo {
    pub path: String,
    pub exports: Exports,
    pub sites: Vec<DefSite>,
    /// (use name id, entity, item)
    pub refs: Vec<(Id, Ent, usize)>,
    /// namespace uses: (name id, module index)
    pub ns_uses: Vec<(Id, usize)>,
    /// modules imported directly, in item order
    pub imports: Vec<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NameUse {
    Value,
    Type,
    Ctor,
    Module,
}

pub struct Info {
    pub ents: Vec<Entity>,
    pub modules: Vec<ModuleInfo>,
    pub errors: Vec<RefError>,
    pub expr_ty: HashMap<Id, T>,
    pub binder_ty: HashMap<Ent, T>,
    pub res: HashMap<Id, Ent>,
    pub site_of: HashMap<Id, Ent>,
    /// snapshot of what is visible at a use position: sorted names, per use
    pub visible: HashMap<Id, (NameUse, Vec<String>)>,
    pub metas: Vec<Option<T>>,
    pub import_target: HashMap<(usize, usize), usize>,
    pub ctor_std: HashMap<String, Ent>,
}

#[derive(Clone, Default)]
struct Scope {
    values: Vec<(String, Ent)>,
    types: Vec<(String, Ent)>,
    ctors: Vec<(String, Ent)>,
    modules: Vec<(String, usize)>,
}

fn find(v: &[(String, Ent)], n: &str) -> Option<Ent> {
    v.iter().rev().find(|(m, _)| m == n).map(|x| x.1)
}

pub struct Checker<'p> {
    p: &'p Project,
    pub info: Info,
    cur_module: usize,
    cur_item: usize,
    std_index: HashMap<String, usize>,
    record_visible: bool,
    /// rigid variables introduced by annotated inner lets -> value expression they belong to
    inner_rigid: Vec<(Ent, HashSet<Id>)>,
}

pub fn check(p: &Project) -> Info {
    check_with(p, false)
}

pub fn check_with(p: &Project, record_visible: bool) -> Info {
    let mut c = Checker {
        p,
        info: Info {
            ents: vec![],
            modules: vec![],
            errors: vec![],
            expr_ty: HashMap::new(),
            binder_ty: HashMap::new(),
            res: HashMap::new(),
            site_of: HashMap::new(),
            visible: HashMap::new(),
            metas: vec![],
            import_target: HashMap::new(),
            ctor_std: HashMap::new(),
        },
        cur_module: 0,
        cur_item: 0,
        std_index: HashMap::new(),
        record_visible,
        inner_rigid: vec![],
    };
    for _ in 0..p.modules.len() {
        c.info.modules.push(ModuleInfo::default());
    }
    for m in 0..p.modules.len() {
        c.module(m);
    }
    c.info
}

impl<'p> Checker<'p> {
    fn ent(&mut self, name: &str, kind: Kind, def: Id) -> Ent {
        self.info.ents.push(Entity { name: name.to_owned(), kind, module: self.cur_module, def });
        self.info.ents.len() - 1
    }
    fn err(&mut self, what: &'static str, node: Id) {
        self.err_with(what, node, vec![], vec![]);
    }
    fn err_with(&mut self, what: &'static str, node: Id, names: Vec<String>, numbers: Vec<usize>) {
        let e = RefError { module: self.cur_module, item: self.cur_item, what, node, names, numbers };
        self.info.errors.push(e);
    }
    /// A name that is not exported as what is looked for; the number tells
    /// whether it is exported as something else.
    fn err_export(&mut self, what: &'static str, name: &Name, m: usize) {
        let ex = &self.info.modules[m].exports;
        let other = ex.values.contains_key(&name.s) || ex.types.contains_key(&name.s) || ex.ctors.contains_key(&name.s);
        self.err_with(what, name.id, vec![name.s.clone()], vec![other as usize]);
    }
    fn site(&mut self, name: &Name, ent: Ent, vis: Vis, imported: bool) {
        self.info.site_of.entry(name.id).or_insert(ent);
        let item = self.cur_item;
        self.info.modules[self.cur_module].sites.push(DefSite { name: name.id, ent, vis, item, imported });
    }
    fn use_(&mut self, name: &Name, ent: Ent) {
        self.info.res.insert(name.id, ent);
        let item = self.cur_item;
        self.info.modules[self.cur_module].refs.push((name.id, ent, item));
    }

    fn std_module(&mut self, path: &str) -> Option<usize> {
        if let Some(&m) = self.std_index.get(path) {
            return Some(m);
        }
        let def = stdsig::module(path)?;
        let saved = self.cur_module;
        let idx = self.info.modules.len();
        self.info.modules.push(ModuleInfo { path: path.to_owned(), ..Default::default() });
        self.cur_module = idx;
        let mut exports = Exports::default();
        for t in def.types.iter() {
            let tent = self.ent(t.name, Kind::Type { params: t.params.len(), ctors: vec![] }, 0);
            exports.types.insert(t.name.to_owned(), tent);
            let mut params = vec![];
            let mut scope = Scope::default();
            for p in t.params.iter() {
                let e = self.ent(p, Kind::TypeVar, 0);
                params.push(e);
                scope.types.push((p.to_string(), e));
            }
            let mut ctors = vec![];
            for (index, (cname, fields)) in t.ctors.iter().enumerate() {
                let fields: Vec<RField> = fields
                    .iter()
                    .map(|f| if *f == "rec" { RField::Rec } else { RField::Ty(self.parse_sig(f, &mut scope, &mut vec![], false)) })
                    .collect();
                let fn_ty = ctor_fn_ty(tent, &params, &fields);
                let c = self.ent(cname, Kind::Ctor { ty: tent, params: params.clone(), fields, fn_ty, index }, 0);
                ctors.push(c);
                self.info.ctor_std.insert(format!("{}/{}", path, cname), c);
                if t.export_ctors {
                    exports.values.insert(cname.to_string(), c);
                    exports.ctors.insert(cname.to_string(), c);
                }
            }
            if let Kind::Type { ctors: cs, .. } = &mut self.info.ents[tent].kind {
                *cs = ctors;
            }
        }
        for (name, sig) in def.values.iter() {
            let mut scope = Scope::default();
            // types of other std modules used in signatures
            for (n, from) in stdsig::TYPE_HOMES {
                if *from != path {
                    if sig.contains(n) {
                        let m = self.std_module(from).unwrap();
                        let t = self.info.modules[m].exports.types[*n];
                        scope.types.push((n.to_string(), t));
                    }
                } else {
                    scope.types.push((n.to_string(), exports.types[*n]));
                }
            }
            self.cur_module = idx;
            let mut vars = vec![];
            let ty = self.parse_sig(sig, &mut scope, &mut vars, true);
            let key: Rc<str> = format!("{}/{}", path, name).into();
            let e = self.ent(name, Kind::StdValue { vars, ty, key }, 0);
            exports.values.insert(name.to_string(), e);
        }
        self.info.modules[idx].exports = exports;
        self.cur_module = saved;
        self.std_index.insert(path.to_owned(), idx);
        Some(idx)
    }

    fn parse_sig(&mut self, sig: &str, scope: &mut Scope, vars: &mut Vec<Ent>, fresh_vars: bool) -> T {
        let toks = stdsig::sig_tokens(sig);
        let mut pos = 0;
        let t = self.sig_fn(&toks, &mut pos, scope, vars, fresh_vars);
        assert_eq!(pos, toks.len(), "bad signature {}", sig);
        t
    }
    fn sig_fn(&mut self, toks: &[String], pos: &mut usize, scope: &mut Scope, vars: &mut Vec<Ent>, fv: bool) -> T {
        let a = self.sig_app(toks, pos, scope, vars, fv);
        if toks.get(*pos).map(|s| s == "->").unwrap_or(false) {
            *pos += 1;
            let b = self.sig_fn(toks, pos, scope, vars, fv);
            fun(a, b)
        } else {
            a
        }
    }
    fn sig_app(&mut self, toks: &[String], pos: &mut usize, scope: &mut Scope, vars: &mut Vec<Ent>, fv: bool) -> T {
        let mut head = self.sig_atom(toks, pos, scope, vars, fv);
        while let Some(t) = toks.get(*pos) {
            if t == "->" || t == ")" {
                break;
            }
            let a = self.sig_atom(toks, pos, scope, vars, fv);
            match &mut head {
                T::Con(_, args) => args.push(a),
                _ => panic!("bad signature"),
            }
        }
        head
    }
    fn sig_atom(&mut self, toks: &[String], pos: &mut usize, scope: &mut Scope, vars: &mut Vec<Ent>, fv: bool) -> T {
        let t = toks[*pos].clone();
        *pos += 1;
        match t.as_str() {
            "int" => T::Int,
            "bool" => T::Bool,
            "string" => T::Str,
            "(" => {
                let r = self.sig_fn(toks, pos, scope, vars, fv);
                assert_eq!(toks[*pos], ")");
                *pos += 1;
                r
            }
            name => {
                if let Some(e) = find(&scope.types, name) {
                    T::Con(e, vec![])
                } else if fv && name.chars().next().unwrap().is_ascii_lowercase() {
                    let e = self.ent(name, Kind::TypeVar, 0);
                    vars.push(e);
                    scope.types.push((name.to_owned(), e));
                    T::Con(e, vec![])
                } else {
                    panic!("unknown type {} in std signature", name)
                }
            }
        }
    }

    // ---- modules and items -------------------------------------------------

    fn module(&mut self, m: usize) {
        self.cur_module = m;
        self.info.modules[m].path = self.p.modules[m].path.clone();
        let mut scope = Scope::default();
        let items = &self.p.modules[m].items;
        for (i, item) in items.iter().enumerate() {
            self.cur_module = m;
            self.cur_item = i;
            match item {
                Item::Import(it) => self.import(it, &mut scope),
                Item::Type(it) => self.type_item(it, &mut scope),
                Item::Value(it) => self.value_item(it, &mut scope),
            }
        }
    }

    fn import(&mut self, it: &ImportItem, scope: &mut Scope) {
        let target = match self.std_module(&it.path) {
            Some(t) => Some(t),
            None => (0..self.cur_module).find(|&k| self.p.modules[k].path == it.path),
        };
        let Some(target) = target else {
            self.err("missing module", it.name.as_ref().map(|n| n.id).unwrap_or(0));
            return;
        };
        self.info.import_target.insert((self.cur_module, self.cur_item), target);
        self.info.modules[self.cur_module].imports.push(target);
        if let Some(n) = &it.name {
            let e = self.ent(&n.s, Kind::Module(target), n.id);
            self.site(n, e, Vis::Module, false);
            scope.modules.push((n.s.clone(), target));
        }
        for n in it.exposed.iter().flatten() {
            let ex = self.info.modules[target].exports.clone();
            let mut found = false;
            if let Some(&e) = ex.values.get(&n.s) {
                found = true;
                self.site(n, e, Vis::Module, true);
                scope.values.push((n.s.clone(), e));
                if matches!(self.info.ents[e].kind, Kind::Ctor { .. }) {
                    scope.ctors.push((n.s.clone(), e));
                }
            }
            if let Some(&e) = ex.types.get(&n.s) {
                found = true;
                self.site(n, e, Vis::Module, true);
                scope.types.push((n.s.clone(), e));
            }
            if let Some(&e) = ex.ctors.get(&n.s) {
                found = true;
                self.site(n, e, Vis::Module, true);
                scope.ctors.push((n.s.clone(), e));
                scope.values.push((n.s.clone(), e));
            }
            if !found {
                self.err_with("not exported", n.id, vec![n.s.clone()], vec![0]);
            }
        }
    }

    fn type_item(&mut self, it: &TypeItem, scope: &mut Scope) {
        let tent = self.ent(&it.name.s, Kind::Type { params: it.params.len(), ctors: vec![] }, it.name.id);
        let mut inner = scope.clone();
        let mut params = vec![];
        for p in &it.params {
            let e = self.ent(&p.s, Kind::TypeVar, p.id);
            params.push(e);
            self.site(p, e, Vis::Local, false);
            inner.types.push((p.s.clone(), e));
        }
        let vis = if it.export_ctors { Vis::Export } else { Vis::Module };
        let mut seen: Vec<String> = vec![];
        let mut ctors = vec![];
        let mut added = vec![];
        for c in &it.ctors {
            let fields: Vec<RField> = c
                .fields
                .iter()
                .map(|f| match f {
                    Field::Rec => RField::Rec,
                    Field::Ty(t) => RField::Ty(self.type_closed(t, &inner)),
                })
                .collect();
            if seen.contains(&c.name.s) {
                self.err_with("duplicate constructor", c.name.id, vec![c.name.s.clone()], vec![]);
                continue;
            }
            seen.push(c.name.s.clone());
            let fn_ty = ctor_fn_ty(tent, &params, &fields);
            let index = ctors.len();
            let e = self.ent(&c.name.s, Kind::Ctor { ty: tent, params: params.clone(), fields, fn_ty, index }, c.name.id);
            ctors.push(e);
            self.site(&c.name, e, vis, false);
            added.push((c.name.s.clone(), e));
        }
        if let Kind::Type { ctors: cs, .. } = &mut self.info.ents[tent].kind {
            *cs = ctors;
        }
        let tvis = if it.export { Vis::Export } else { Vis::Module };
        self.site(&it.name, tent, tvis, false);
        for (n, e) in added {
            scope.values.push((n.clone(), e));
            scope.ctors.push((n.clone(), e));
            if vis == Vis::Export {
                let ex = &mut self.info.modules[self.cur_module].exports;
                ex.values.insert(n.clone(), e);
                ex.ctors.insert(n, e);
            }
        }
        scope.types.push((it.name.s.clone(), tent));
        if it.export {
            self.info.modules[self.cur_module].exports.types.insert(it.name.s.clone(), tent);
        }
    }

    fn value_item(&mut self, it: &ValueItem, scope: &mut Scope) {
        let mut inner = scope.clone();
        let mut vars = vec![];
        let ty = match &it.ty {
            Some(t) => self.type_open(t, &mut inner, &mut vars),
            None => self.fresh(),
        };
        let e = self.ent(&it.name.s, Kind::Value { vars: vars.clone(), ty: ty.clone() }, it.name.id);
        self.site(&it.name, e, if it.export { Vis::Export } else { Vis::Module }, false);
        self.info.binder_ty.insert(e, ty.clone());
        self.inner_rigid.clear();
        self.expr(&it.expr, ty.clone(), &mut inner);
        self.matches(&it.expr);
        self.find_escapes(it);
        // what is left undetermined is arbitrary; the code generator uses int
        let z = self.zonk(&ty);
        let z = default_meta(&z);
        if it.ty.is_none() {
            if let Kind::Value { ty, .. } = &mut self.info.ents[e].kind {
                *ty = z.clone();
            }
            self.info.binder_ty.insert(e, z);
        }
        scope.values.push((it.name.s.clone(), e));
        if it.export {
            self.info.modules[self.cur_module].exports.values.insert(it.name.s.clone(), e);
        }
    }

    // ---- types -------------------------------------------------------------

    fn lookup_module(&mut self, ns: &Name, scope: &Scope) -> Option<usize> {
        self.visible(ns, NameUse::Module, scope, None);
        let m = scope.modules.iter().rev().find(|(n, _)| *n == ns.s).map(|x| x.1);
        match m {
            Some(m) => {
                let cm = self.cur_module;
                self.info.modules[cm].ns_uses.push((ns.id, m));
                Some(m)
            }
            None => {
                self.err("undefined module", ns.id);
                None
            }
        }
    }

    fn visible(&mut self, at: &Name, usage: NameUse, scope: &Scope, ns: Option<usize>) {
        if !self.record_visible {
            return;
        }
        let mut names: Vec<String> = vec![];
        match ns {
            None => {
                names.extend(scope.modules.iter().map(|x| x.0.clone()));
                let v = match usage {
                    NameUse::Value => &scope.values[..],
                    NameUse::Type => &scope.types[..],
                    NameUse::Ctor => &scope.ctors[..],
                    NameUse::Module => &[],
                };
                names.extend(v.iter().map(|x| x.0.clone()));
            }
            Some(m) => {
                let ex = &self.info.modules[m].exports;
                let v = match usage {
                    NameUse::Value => &ex.values,
                    NameUse::Type => &ex.types,
                    NameUse::Ctor => &ex.ctors,
                    NameUse::Module => unreachable!(),
                };
                names.extend(v.keys().cloned());
            }
        }
        names.sort();
        names.dedup();
        self.info.visible.insert(at.id, (usage, names));
    }

    fn named_type(&mut self, ns: &Option<Name>, name: &Name, nargs: usize, scope: &Scope) -> Result<Option<Ent>, ()> {
        // Ok(None): unknown lower-case name without arguments
        match ns {
            Some(ns) => {
                let Some(m) = self.lookup_module(ns, scope) else { return Err(()) };
                self.visible(name, NameUse::Type, scope, Some(m));
                match self.info.modules[m].exports.types.get(&name.s).copied() {
                    Some(e) => {
                        self.use_(name, e);
                        Ok(Some(e))
                    }
                    None => {
                        self.err_export("type not exported", name, m);
                        Err(())
                    }
                }
            }
            None => {
                self.visible(name, NameUse::Type, scope, None);
                if let Some(e) = find(&scope.types, &name.s) {
                    self.use_(name, e);
                    Ok(Some(e))
                } else if nargs == 0 && name.s.as_bytes()[0].is_ascii_lowercase() {
                    Ok(None)
                } else {
                    self.err("undefined type", name.id);
                    Err(())
                }
            }
        }
    }

    fn arity_ok(&mut self, e: Ent, n: usize, node: Id) -> bool {
        let want = match self.info.ents[e].kind {
            Kind::Type { params, .. } => params,
            _ => 0,
        };
        if want != n {
            let name = self.info.ents[e].name.clone();
            self.err_with("wrong number of type arguments", node, vec![name], vec![want, n]);
            return false;
        }
        true
    }

    fn type_closed(&mut self, t: &TyE, scope: &Scope) -> T {
        match t {
            TyE::Int => T::Int,
            TyE::Bool => T::Bool,
            TyE::Str => T::Str,
            TyE::Paren(t) => self.type_closed(t, scope),
            TyE::Fn(a, b) => {
                let a = self.type_closed(a, scope);
                let b = self.type_closed(b, scope);
                fun(a, b)
            }
            TyE::Named { ns, name, args } => {
                let e = self.named_type(ns, name, args.len(), scope);
                let targs: Vec<T> = args.iter().map(|a| self.type_closed(a, scope)).collect();
                match e {
                    Ok(Some(e)) => {
                        if self.arity_ok(e, targs.len(), name.id) {
                            T::Con(e, targs)
                        } else {
                            T::Err
                        }
                    }
                    Ok(None) => {
                        self.err("undefined type", name.id);
                        T::Err
                    }
                    Err(()) => T::Err,
                }
            }
        }
    }

    fn type_open(&mut self, t: &TyE, scope: &mut Scope, vars: &mut Vec<Ent>) -> T {
        match t {
            TyE::Int => T::Int,
            TyE::Bool => T::Bool,
            TyE::Str => T::Str,
            TyE::Paren(t) => self.type_open(t, scope, vars),
            TyE::Fn(a, b) => {
                let a = self.type_open(a, scope, vars);
                let b = self.type_open(b, scope, vars);
                fun(a, b)
            }
            TyE::Named { ns, name, args } => {
                let e = match self.named_type(ns, name, args.len(), scope) {
                    Ok(None) => {
                        let e = self.ent(&name.s, Kind::TypeVar, name.id);
                        vars.push(e);
                        self.site(name, e, Vis::Local, false);
                        scope.types.push((name.s.clone(), e));
                        Some(e)
                    }
                    Ok(Some(e)) => Some(e),
                    Err(()) => None,
                };
                let targs: Vec<T> = args.iter().map(|a| self.type_open(a, scope, vars)).collect();
                match e {
                    Some(e) => {
                        if self.arity_ok(e, targs.len(), name.id) {
                            T::Con(e, targs)
                        } else {
                            T::Err
                        }
                    }
                    None => T::Err,
                }
            }
        }
    }

    // ---- unification -------------------------------------------------------

    fn fresh(&mut self) -> T {
        self.info.metas.push(None);
        T::Meta(self.info.metas.len() - 1)
    }
    fn shallow(&self, t: &T) -> T {
        let mut t = t.clone();
        while let T::Meta(m) = t {
            match &self.info.metas[m] {
                Some(n) => t = n.clone(),
                None => break,
            }
        }
        t
    }
    pub fn zonk(&self, t: &T) -> T {
        self.info.zonk(t)
    }
    fn occurs(&self, m: usize, t: &T) -> bool {
        match self.shallow(t) {
            T::Meta(n) => n == m,
            T::Con(_, a) => a.iter().any(|x| self.occurs(m, x)),
            T::Fn(a, b) | T::Folded(a, b) => self.occurs(m, &a) || self.occurs(m, &b),
            _ => false,
        }
    }
    fn try_unify(&mut self, a: &T, b: &T, log: &mut Vec<usize>) -> bool {
        let a = self.shallow(a);
        let b = self.shallow(b);
        match (&a, &b) {
            (T::Meta(x), T::Meta(y)) if x == y => true,
            (T::Meta(x), _) => {
                if self.occurs(*x, &b) {
                    return false;
                }
                self.info.metas[*x] = Some(b.clone());
                log.push(*x);
                true
            }
            (_, T::Meta(y)) => {
                if self.occurs(*y, &a) {
                    return false;
                }
                self.info.metas[*y] = Some(a.clone());
                log.push(*y);
                true
            }
            (T::Err, _) | (_, T::Err) => true,
            (T::Int, T::Int) | (T::Bool, T::Bool) | (T::Str, T::Str) => true,
            (T::Con(x, xs), T::Con(y, ys)) => {
                x == y && xs.len() == ys.len() && xs.iter().zip(ys).all(|(p, q)| self.try_unify(p, q, log))
            }
            (T::Fn(a1, a2), T::Fn(b1, b2)) | (T::Folded(a1, a2), T::Folded(b1, b2)) => {
                self.try_unify(a1, b1, log) && self.try_unify(a2, b2, log)
            }
            _ => false,
        }
    }
    fn unify(&mut self, expected: &T, actual: &T, node: Id) {
        let mut log = vec![];
        if !self.try_unify(expected, actual, &mut log) {
            for m in log {
                self.info.metas[m] = None;
            }
            self.err("type mismatch", node);
        }
    }
    fn subst(&self, t: &T, map: &[(Ent, T)]) -> T {
        match t {
            T::Con(e, a) => {
                if let Some((_, r)) = map.iter().find(|(v, _)| v == e) {
                    return r.clone();
                }
                T::Con(*e, a.iter().map(|x| self.subst(x, map)).collect())
            }
            T::Fn(a, b) => fun(self.subst(a, map), self.subst(b, map)),
            T::Folded(a, b) => T::Folded(Rc::new(self.subst(a, map)), Rc::new(self.subst(b, map))),
            _ => t.clone(),
        }
    }
    fn inst(&mut self, e: Ent) -> T {
        let (vars, ty) = match &self.info.ents[e].kind {
            Kind::Value { vars, ty } | Kind::StdValue { vars, ty, .. } => (vars.clone(), ty.clone()),
            Kind::Ctor { params, fn_ty, .. } => (params.clone(), fn_ty.clone()),
            _ => return T::Err,
        };
        let map: Vec<(Ent, T)> = vars.iter().map(|&v| (v, self.fresh())).collect();
        self.subst(&ty, &map)
    }

    // ---- expressions -------------------------------------------------------

    fn bind(&mut self, n: &Name, vars: Vec<Ent>, ty: T) -> Ent {
        let e = self.ent(&n.s, Kind::Value { vars, ty: ty.clone() }, n.id);
        self.site(n, e, Vis::Local, false);
        self.info.binder_ty.insert(e, ty);
        e
    }

    fn expr(&mut self, e: &Expr, expected: T, scope: &mut Scope) {
        self.info.expr_ty.insert(e.id, expected.clone());
        match &*e.k {
            EK::Int(s) => {
                if s.parse::<u64>().is_err() || !s.bytes().all(|b| b.is_ascii_digit()) {
                    self.err("bad number", e.id);
                }
                self.unify(&expected, &T::Int, e.id);
            }
            EK::Bool(_) => self.unify(&expected, &T::Bool, e.id),
            EK::Str(_) => self.unify(&expected, &T::Str, e.id),
            EK::Hole(_) => {}
            EK::Paren(i) => self.expr(i, expected, scope),
            EK::Var(n) => {
                self.visible(n, NameUse::Value, scope, None);
                match find(&scope.values, &n.s) {
                    Some(v) => {
                        self.use_(n, v);
                        let t = self.inst(v);
                        self.unify(&expected, &t, e.id);
                    }
                    None => self.err("undefined variable", n.id),
                }
            }
            EK::Ns(ns, n) => {
                if let Some(m) = self.lookup_module(ns, scope) {
                    self.visible(n, NameUse::Value, scope, Some(m));
                    match self.info.modules[m].exports.values.get(&n.s).copied() {
                        Some(v) => {
                            self.use_(n, v);
                            let t = self.inst(v);
                            self.unify(&expected, &t, e.id);
                        }
                        None => self.err_export("value not exported", n, m),
                    }
                }
            }
            EK::App(f, a) => {
                let x = self.fresh();
                let y = self.fresh();
                self.expr(f, fun(x.clone(), y.clone()), scope);
                self.expr(a, x, scope);
                self.unify(&expected, &y, e.id);
            }
            EK::Op(l, op, r) => {
                if *op == BinOp::Pipe {
                    let x = self.fresh();
                    self.expr(l, x.clone(), scope);
                    let y = self.fresh();
                    self.expr(r, fun(x, y.clone()), scope);
                    self.unify(&expected, &y, e.id);
                } else {
                    self.expr(l, T::Int, scope);
                    self.expr(r, T::Int, scope);
                    let res = if op.is_arith() { T::Int } else { T::Bool };
                    self.unify(&expected, &res, e.id);
                }
            }
            EK::If(c, a, b) => {
                self.expr(c, T::Bool, scope);
                self.expr(a, expected.clone(), scope);
                self.expr(b, expected, scope);
            }
            EK::Let(n, ann, v, body) => {
                let mut inner = scope.clone();
                let mut vars = vec![];
                let ty = match ann {
                    Some(t) => self.type_open(t, &mut inner, &mut vars),
                    None => self.fresh(),
                };
                if !vars.is_empty() {
                    let mut ids = HashSet::new();
                    collect_ids(v, &mut ids);
                    for &x in &vars {
                        self.inner_rigid.push((x, ids.clone()));
                    }
                }
                self.expr(v, ty.clone(), &mut inner);
                let ent = self.bind(n, vars, ty);
                scope.values.push((n.s.clone(), ent));
                self.expr(body, expected, scope);
                scope.values.pop();
            }
            EK::Lam(n, body) => {
                let x = self.fresh();
                let y = self.fresh();
                let ent = self.bind(n, vec![], x.clone());
                self.unify(&expected, &fun(x, y.clone()), e.id);
                scope.values.push((n.s.clone(), ent));
                self.expr(body, y, scope);
                scope.values.pop();
            }
            EK::Fold(n, body) => {
                let x = self.fresh();
                let y = self.fresh();
                let ent = self.bind(n, vec![], T::Folded(Rc::new(x.clone()), Rc::new(y.clone())));
                self.unify(&expected, &fun(x, y.clone()), e.id);
                scope.values.push((n.s.clone(), ent));
                self.expr(body, y, scope);
                scope.values.pop();
            }
            EK::Match(d, cases) => {
                let dt = self.fresh();
                self.expr(d, dt.clone(), scope);
                let (primary, rec) = match self.shallow(&dt) {
                    T::Folded(a, b) => ((*a).clone(), (*b).clone()),
                    t => (t.clone(), t),
                };
                for c in cases {
                    let ctor = match &c.ns {
                        Some(ns) => match self.lookup_module(ns, scope) {
                            Some(m) => {
                                self.visible(&c.ctor, NameUse::Ctor, scope, Some(m));
                                let r = self.info.modules[m].exports.ctors.get(&c.ctor.s).copied();
                                if r.is_none() {
                                    self.err_export("constructor not exported", &c.ctor, m);
                                }
                                r
                            }
                            None => None,
                        },
                        None => {
                            self.visible(&c.ctor, NameUse::Ctor, scope, None);
                            let r = find(&scope.ctors, &c.ctor.s);
                            if r.is_none() {
                                self.err("undefined constructor", c.ctor.id);
                            }
                            r
                        }
                    };
                    let mut tys: Vec<Option<T>> = vec![None; c.vars.len()];
                    if let Some(ct) = ctor {
                        self.use_(&c.ctor, ct);
                        if let Kind::Ctor { ty, params, fields, .. } = self.info.ents[ct].kind.clone() {
                            let map: Vec<(Ent, T)> = params.iter().map(|&v| (v, self.fresh())).collect();
                            let whole = T::Con(ty, map.iter().map(|x| x.1.clone()).collect());
                            self.unify(&primary, &whole, c.ctor.id);
                            if fields.len() != c.vars.len() {
                                self.err_with("wrong number of fields", c.ctor.id, vec![], vec![fields.len(), c.vars.len()]);
                            } else {
                                for (k, f) in fields.iter().enumerate() {
                                    tys[k] = Some(match f {
                                        RField::Rec => rec.clone(),
                                        RField::Ty(t) => self.subst(t, &map),
                                    });
                                }
                            }
                        }
                    }
                    let depth = scope.values.len();
                    for (k, v) in c.vars.iter().enumerate() {
                        let t = match tys[k].take() {
                            Some(t) => t,
                            None => self.fresh(),
                        };
                        let ent = self.bind(v, vec![], t);
                        scope.values.push((v.s.clone(), ent));
                    }
                    self.expr(&c.body, expected.clone(), scope);
                    scope.values.truncate(depth);
                }
            }
        }
    }

    fn matches(&mut self, e: &Expr) {
        for c in e.children() {
            self.matches(c);
        }
        if let EK::Match(d, cases) = &*e.k {
            let Some(t) = self.info.expr_ty.get(&d.id).cloned() else { return };
            let t = match self.shallow(&t) {
                T::Folded(a, _) => self.shallow(&a),
                t => t,
            };
            let ctors = match &t {
                T::Err => return,
                T::Con(s, _) => match &self.info.ents[*s].kind {
                    Kind::Type { ctors, .. } => ctors.clone(),
                    _ => {
                        self.err("cannot match", d.id);
                        return;
                    }
                },
                _ => {
                    self.err("cannot match", d.id);
                    return;
                }
            };
            if let (T::Con(s, _), true) = (&t, ctors.is_empty()) {
                if self.info.ents[*s].def == 0 {
                    // a type of the standard library that keeps its
                    // constructors, whatever they are, to itself
                    if cases.iter().all(|c| self.info.res.contains_key(&c.ctor.id)) {
                        self.err("missing patterns", e.id);
                    }
                    return;
                }
            }
            let mut missing = ctors.clone();
            for c in cases {
                let Some(&r) = self.info.res.get(&c.ctor.id) else { return };
                if !ctors.contains(&r) {
                    continue;
                }
                if !missing.contains(&r) {
                    self.err("unreachable pattern", c.ctor.id);
                }
                missing.retain(|&x| x != r);
            }
            if !missing.is_empty() {
                let names = missing.iter().map(|&c| self.info.ents[c].name.clone()).collect();
                self.err_with("missing patterns", e.id, names, vec![]);
            }
        }
    }

    fn find_escapes(&mut self, it: &ValueItem) {
        if self.inner_rigid.is_empty() {
            return;
        }
        let rigid = std::mem::take(&mut self.inner_rigid);
        let mut ids = HashSet::new();
        collect_ids(&it.expr, &mut ids);
        for (v, inside) in &rigid {
            for id in ids.iter() {
                if inside.contains(id) {
                    continue;
                }
                if let Some(t) = self.info.expr_ty.get(id) {
                    if mentions(&self.zonk(t), *v) {
                        let def = self.info.ents[*v].def;
                        self.err("type variable escapes", def);
                        return;
                    }
                }
            }
        }
    }
}

fn collect_ids(e: &Expr, ids: &mut HashSet<Id>) {
    ids.insert(e.id);
    for c in e.children() {
        collect_ids(c, ids);
    }
}

fn mentions(t: &T, v: Ent) -> bool {
    match t {
        T::Con(e, a) => *e == v || a.iter().any(|x| mentions(x, v)),
        T::Fn(a, b) | T::Folded(a, b) => mentions(a, v) || mentions(b, v),
        _ => false,
    }
}

fn ctor_fn_ty(ty: Ent, params: &[Ent], fields: &[RField]) -> T {
    let whole = T::Con(ty, params.iter().map(|&p| T::Con(p, vec![])).collect());
    let mut r = whole.clone();
    for f in fields.iter().rev() {
        r = fun(
            match f {
                RField::Rec => whole.clone(),
                RField::Ty(t) => t.clone(),
            },
            r,
        );
    }
    r
}

pub fn default_meta(t: &T) -> T {
    match t {
        T::Meta(_) => T::Int,
        T::Con(e, a) => T::Con(*e, a.iter().map(default_meta).collect()),
        T::Fn(a, b) => fun(default_meta(a), default_meta(b)),
        T::Folded(a, b) => T::Folded(Rc::new(default_meta(a)), Rc::new(default_meta(b))),
        t => t.clone(),
    }
}

impl Info {
    pub fn zonk(&self, t: &T) -> T {
        match t {
            T::Meta(m) => match &self.metas[*m] {
                Some(t) => self.zonk(t),
                None => t.clone(),
            },
            T::Con(e, a) => T::Con(*e, a.iter().map(|x| self.zonk(x)).collect()),
            T::Fn(a, b) => fun(self.zonk(a), self.zonk(b)),
            T::Folded(a, b) => T::Folded(Rc::new(self.zonk(a)), Rc::new(self.zonk(b))),
            t => t.clone(),
        }
    }

    /// Text of a type as hover shows it; names that are not defined or
    /// imported in module `m` are shown as "???".
    pub fn show(&self, t: &T, m: usize) -> String {
        let mut s = String::new();
        self.show_prec(&self.zonk(t), 0, m, &mut s);
        s
    }
    fn show_prec(&self, t: &T, prec: u8, m: usize, s: &mut String) {
        match t {
            T::Int => s.push_str("int"),
            T::Bool => s.push_str("bool"),
            T::Str => s.push_str("string"),
            T::Meta(_) => s.push('_'),
            T::Err => s.push('?'),
            T::Con(e, a) => {
                let par = prec >= 2 && !a.is_empty();
                if par {
                    s.push('(');
                }
                if self.modules[m].sites.iter().any(|d| d.ent == *e) {
                    s.push_str(&self.ents[*e].name);
                } else {
                    s.push_str("???");
                }
                for x in a {
                    s.push(' ');
                    self.show_prec(x, 2, m, s);
                }
                if par {
                    s.push(')');
                }
            }
            T::Fn(a, b) => {
                if prec >= 1 {
                    s.push('(');
                }
                self.show_prec(a, 1, m, s);
                s.push_str(" -> ");
                self.show_prec(b, 0, m, s);
                if prec >= 1 {
                    s.push(')');
                }
            }
            T::Folded(a, b) => {
                s.push('{');
                self.show_prec(a, 0, m, s);
                s.push_str(" => ");
                self.show_prec(b, 0, m, s);
                s.push('}');
            }
        }
    }

    pub fn first_error_item(&self, m: usize) -> Option<usize> {
        self.errors.iter().filter(|e| e.module == m).map(|e| e.item).min()
    }

    /// Definition sites (name ids) that should be reported as never used.
    /// Names that have to be reported as unused, and names that may be: a type
    /// from another module whose constructors are only used through the name of
    /// the module.
    pub fn unused(&self, m: usize) -> (Vec<Id>, Vec<Id>) {
        let mi = &self.modules[m];
        let mut used: HashSet<Ent> = mi.refs.iter().map(|r| r.1).collect();
        for s in &mi.sites {
            if s.vis == Vis::Export || matches!(self.ents[s.ent].kind, Kind::TypeVar) {
                used.insert(s.ent);
            }
        }
        let here: HashSet<Ent> = mi.sites.iter().map(|s| s.ent).collect();
        let mut extra: Vec<Ent> = vec![];
        let mut maybe: HashSet<Ent> = HashSet::new();
        for &e in &used {
            if let Kind::Ctor { ty, .. } = &self.ents[e].kind {
                if here.contains(&e) {
                    extra.push(*ty);
                } else {
                    maybe.insert(*ty);
                }
            }
        }
        used.extend(extra);
        let mut out = (vec![], vec![]);
        for s in &mi.sites {
            let e = &self.ents[s.ent];
            if matches!(e.kind, Kind::Module(_)) || e.name.starts_with('_') || used.contains(&s.ent) {
                continue;
            }
            if maybe.contains(&s.ent) {
                out.1.push(s.name);
            } else {
                out.0.push(s.name);
            }
        }
        for v in [&mut out.0, &mut out.1] {
            v.sort();
            v.dedup();
        }
        out
    }
}
