//! Reference evaluator: call by value, written from the language rules, with
//! native models for the standard modules.
use crate::lang::*;
use crate::refcheck::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum V {
    Int(u64),
    Bool(bool),
    Str(Rc<[u8]>),
    Data(Ent, Rc<Vec<V>>),
    Clo(Rc<Clo>),
    Ctor(Ent, usize, Rc<Vec<V>>),
    Prim(Rc<str>, usize, Rc<Vec<V>>),
    Arr(Rc<Vec<V>>),
    /// The evaluation of a variable's value trapped.  What follows is still
    /// evaluated, because an optimizer may drop an unused trap, and must then
    /// be affordable.
    Bad(Rc<str>),
}

pub struct Clo {
    env: Env,
    param: Ent,
    body: *const Expr,
    fold: bool,
}

type Env = Option<Rc<Node>>;
pub struct Node {
    key: Ent,
    val: V,
    next: Env,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stop {
    Trap(String),
    Fuel,
    Depth,
    /// the evaluator met something the checker should have ruled out
    Stuck(String),
}

type R = Result<V, Stop>;

pub struct Eval<'a> {
    p: &'a Project,
    info: &'a Info,
    globals: HashMap<Ent, V>,
    fuel: u64,
    depth: u32,
    pub max_depth_seen: u32,
    pub steps: u64,
    std: StdEnts,
    first_trap: Option<String>,
}

struct StdEnts {
    none: Ent,
    some: Ent,
    ok: Ent,
    err: Ent,
    nil: Ent,
    cons: Ent,
    perr: Ent,
}

pub const MAX_SHOWN: usize = 200_000;
pub const MAX_DEPTH: u32 = 6000;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    /// rendered "name = value" lines of the exported values
    Values(String),
    Trap(String),
}

pub fn lookup_std(info: &Info, key: &str) -> Ent {
    info.ctor_std.get(key).copied().unwrap_or(usize::MAX)
}

fn good(v: &V) -> R {
    match v {
        V::Bad(t) => Err(Stop::Trap(t.to_string())),
        v => Ok(v.clone()),
    }
}

fn bad(r: R) -> Result<(V, Option<String>), Stop> {
    match r {
        Ok(v) => Ok((v, None)),
        Err(Stop::Trap(t)) => Ok((V::Bad(t.as_str().into()), Some(t))),
        Err(e) => Err(e),
    }
}

/// The result when `t` trapped before.
fn first(t: Option<String>, r: R) -> R {
    match (t, r) {
        (None, r) => r,
        (Some(t), Ok(_) | Err(Stop::Trap(_))) => Err(Stop::Trap(t)),
        (_, Err(e)) => Err(e),
    }
}

impl<'a> Eval<'a> {
    pub fn new(p: &'a Project, info: &'a Info, fuel: u64) -> Eval<'a> {
        let l = |k: &str| lookup_std(info, k);
        Eval {
            p,
            info,
            globals: HashMap::new(),
            fuel,
            depth: 0,
            max_depth_seen: 0,
            steps: 0,
            first_trap: None,
            std: StdEnts {
                none: l("std/option/None"),
                some: l("std/option/Some"),
                ok: l("std/result/Ok"),
                err: l("std/result/Err"),
                nil: l("std/list/Nil"),
                cons: l("std/list/Cons"),
                perr: l("std/int/ParseErr"),
            },
        }
    }

    fn tick(&mut self) -> Result<(), Stop> {
        self.steps = self.steps.saturating_add(1);
        if self.steps > self.fuel {
            return Err(Stop::Fuel);
        }
        Ok(())
    }

    /// Evaluate all modules and render the exports of the main one.
    pub fn run(&mut self) -> Result<Outcome, Stop> {
        let main = self.p.modules.len() - 1;
        let mut done = vec![false; self.info.modules.len()];
        self.module(main, &mut done)?;
        if let Some(t) = self.first_trap.take() {
            return Ok(Outcome::Trap(t));
        }
        let mut out = String::new();
        for s in &self.info.modules[main].sites {
            if s.vis == Vis::Export {
                if let Kind::Value { .. } = self.info.ents[s.ent].kind {
                    let e = &self.info.ents[s.ent];
                    out.push_str(&e.name);
                    out.push_str(" = ");
                    self.show(&self.globals[&s.ent], false, &mut out);
                    if out.len() > MAX_SHOWN {
                        // shared data can print exponentially large
                        return Err(Stop::Fuel);
                    }
                    out.push('\n');
                }
            }
        }
        Ok(Outcome::Values(out))
    }

    /// Apply the exported `main` to an input after `run` succeeded.
    pub fn run_main(&mut self, input: &[u8]) -> Result<Result<Vec<u8>, String>, Stop> {
        let m = self.p.modules.len() - 1;
        let Some(&e) = self.info.modules[m].exports.values.get("main") else {
            return Err(Stop::Stuck("no main".into()));
        };
        let Some(f) = self.globals.get(&e).cloned() else {
            return Err(Stop::Stuck("main was not evaluated".into()));
        };
        match self.apply(f, V::Str(input.into())) {
            Ok(V::Str(s)) => Ok(Ok(s.to_vec())),
            Ok(_) => Err(Stop::Stuck("main did not return a string".into())),
            Err(Stop::Trap(t)) => Ok(Err(t)),
            Err(e) => Err(e),
        }
    }

    fn module(&mut self, m: usize, done: &mut Vec<bool>) -> Result<(), Stop> {
        if m >= self.p.modules.len() {
            return Ok(());
        }
        let p = self.p;
        for (i, item) in p.modules[m].items.iter().enumerate() {
            match item {
                Item::Import(_) => {
                    if let Some(&t) = self.info.import_target.get(&(m, i)) {
                        if !done[t] {
                            done[t] = true;
                            self.module(t, done)?;
                        }
                    }
                }
                Item::Type(_) => {}
                Item::Value(v) => {
                    let ent = self.info.site_of[&v.name.id];
                    let val = match self.eval(&v.expr, &None) {
                        Ok(v) => v,
                        Err(Stop::Trap(t)) => {
                            self.first_trap.get_or_insert_with(|| t.clone());
                            V::Bad(t.into())
                        }
                        Err(e) => return Err(e),
                    };
                    self.globals.insert(ent, val);
                }
            }
        }
        Ok(())
    }

    fn name(&mut self, id: Id, env: &Env) -> R {
        let Some(&ent) = self.info.res.get(&id) else { return Err(Stop::Stuck("unresolved name".into())) };
        let mut cur = env;
        while let Some(n) = cur {
            if n.key == ent {
                return good(&n.val);
            }
            cur = &n.next;
        }
        if let Some(v) = self.globals.get(&ent) {
            return good(v);
        }
        match &self.info.ents[ent].kind {
            Kind::Ctor { fields, .. } => {
                if fields.is_empty() {
                    Ok(V::Data(ent, Rc::new(vec![])))
                } else {
                    Ok(V::Ctor(ent, fields.len(), Rc::new(vec![])))
                }
            }
            Kind::StdValue { key, ty, .. } => {
                let mut n = 0;
                let mut t = ty.clone();
                while let T::Fn(_, b) = t {
                    n += 1;
                    t = (*b).clone();
                }
                // results that are functions themselves do not occur in std
                if n == 0 {
                    let key = key.clone();
                    self.prim(&key, &[])
                } else {
                    Ok(V::Prim(key.clone(), n, Rc::new(vec![])))
                }
            }
            _ => Err(Stop::Stuck(format!("no value for {}", self.info.ents[ent].name))),
        }
    }

    pub fn eval(&mut self, e: &Expr, env: &Env) -> R {
        self.tick()?;
        self.depth += 1;
        self.max_depth_seen = self.max_depth_seen.max(self.depth);
        if self.depth > MAX_DEPTH {
            self.depth -= 1;
            return Err(Stop::Depth);
        }
        let r = self.eval_inner(e, env);
        self.depth -= 1;
        r
    }

    fn eval_inner(&mut self, e: &Expr, env: &Env) -> R {
        match &*e.k {
            EK::Int(s) => Ok(V::Int(s.parse().unwrap())),
            EK::Bool(b) => Ok(V::Bool(*b)),
            EK::Str(s) => Ok(V::Str(s.as_bytes().into())),
            EK::Hole(h) => Err(Stop::Trap(format!("encountered ?{}", h))),
            EK::Paren(i) => self.eval(i, env),
            EK::Var(n) | EK::Ns(_, n) => self.name(n.id, env),
            EK::App(f, a) => {
                self.call(f, a, env)
            }
            // `x |> f` is `f x`
            EK::Op(l, BinOp::Pipe, r) => self.call(r, l, env),
            EK::Op(l, op, r) => {
                match self.both(l, r, env)? {
                    (V::Int(a), V::Int(b)) => Ok(arith(*op, a, b)),
                    _ => Err(Stop::Stuck("not an int".into())),
                }
            }
            EK::Let(n, _, v, b) => {
                let v = self.eval(v, env);
                let ent = self.info.site_of[&n.id];
                let (v, t) = bad(v)?;
                let env = Some(Rc::new(Node { key: ent, val: v, next: env.clone() }));
                let r = self.eval(b, &env);
                first(t, r)
            }
            EK::If(c, a, b) => match self.eval(c, env)? {
                V::Bool(true) => self.eval(a, env),
                V::Bool(false) => self.eval(b, env),
                _ => Err(Stop::Stuck("if on a non-bool".into())),
            },
            EK::Lam(n, b) | EK::Fold(n, b) => Ok(V::Clo(Rc::new(Clo {
                env: env.clone(),
                param: self.info.site_of[&n.id],
                body: b as *const Expr,
                fold: matches!(&*e.k, EK::Fold(..)),
            }))),
            EK::Match(d, cases) => {
                let V::Data(c, fields) = self.eval(d, env)? else { return Err(Stop::Stuck("match on a non-constructor".into())) };
                for case in cases {
                    if self.info.res.get(&case.ctor.id) == Some(&c) {
                        let mut env = env.clone();
                        for (v, f) in case.vars.iter().zip(fields.iter()) {
                            env = Some(Rc::new(Node { key: self.info.site_of[&v.id], val: f.clone(), next: env }));
                        }
                        return self.eval(&case.body, &env);
                    }
                }
                Err(Stop::Stuck("no case".into()))
            }
        }
    }

    /// Both parts of an application.  Interpreters are free to evaluate them in
    /// any order, so when one traps the other one must still be affordable.
    fn both(&mut self, f: &Expr, a: &Expr, env: &Env) -> Result<(V, V), Stop> {
        match self.eval(f, env) {
            Ok(f) => Ok((f, self.eval(a, env)?)),
            Err(Stop::Trap(t)) => match self.eval(a, env) {
                Ok(_) | Err(Stop::Trap(_)) => Err(Stop::Trap(t)),
                Err(e) => Err(e),
            },
            Err(e) => Err(e),
        }
    }

    fn call(&mut self, f: &Expr, a: &Expr, env: &Env) -> R {
        match self.eval(f, env) {
            Ok(f) => {
                let (a, t) = bad(self.eval(a, env))?;
                if t.is_some() && !matches!(f, V::Clo(_)) {
                    return first(t, Ok(a));
                }
                let r = self.apply(f, a);
                first(t, r)
            }
            Err(Stop::Trap(t)) => {
                let r = self.eval(a, env);
                first(Some(t), r)
            }
            Err(e) => Err(e),
        }
    }

    pub fn apply(&mut self, f: V, a: V) -> R {
        self.tick()?;
        match f {
            V::Clo(c) => {
                let body: &Expr = unsafe { &*c.body };
                let (arg, t) = if c.fold { self.fold_arg(&c, a)? } else { (a, None) };
                let env = Some(Rc::new(Node { key: c.param, val: arg, next: c.env.clone() }));
                let r = self.eval(body, &env);
                first(t, r)
            }
            V::Ctor(e, n, args) => {
                let mut v = (*args).clone();
                v.push(a);
                if v.len() == n {
                    Ok(V::Data(e, Rc::new(v)))
                } else {
                    Ok(V::Ctor(e, n, Rc::new(v)))
                }
            }
            V::Prim(k, n, args) => {
                let mut v = (*args).clone();
                v.push(a);
                if v.len() == n {
                    self.prim(&k, &v)
                } else {
                    Ok(V::Prim(k, n, Rc::new(v)))
                }
            }
            _ => Err(Stop::Stuck("call of a non-function".into())),
        }
    }

    /// The recursive fields of the argument are replaced by folded values.
    fn fold_arg(&mut self, c: &Rc<Clo>, a: V) -> Result<(V, Option<String>), Stop> {
        self.depth += 1;
        self.max_depth_seen = self.max_depth_seen.max(self.depth);
        if self.depth > MAX_DEPTH {
            self.depth -= 1;
            return Err(Stop::Depth);
        }
        let r = match a {
            V::Data(e, fields) => {
                let Kind::Ctor { fields: fk, .. } = &self.info.ents[e].kind else { return Err(Stop::Stuck("ctor".into())) };
                let mut out = Vec::with_capacity(fields.len());
                let mut trap = None;
                for (k, f) in fk.iter().zip(fields.iter()) {
                    out.push(match k {
                        RField::Rec => {
                            let r = self.apply(V::Clo(c.clone()), f.clone());
                            match r {
                                Ok(v) => v,
                                Err(Stop::Trap(t)) => {
                                    let v = V::Bad(t.as_str().into());
                                    trap = trap.or(Some(t));
                                    v
                                }
                                Err(e) => {
                                    self.depth -= 1;
                                    return Err(e);
                                }
                            }
                        }
                        RField::Ty(_) => f.clone(),
                    });
                }
                Ok((V::Data(e, Rc::new(out)), trap))
            }
            other => Ok((other, None)),
        };
        self.depth -= 1;
        r
    }

    fn list(&self, items: Vec<V>) -> V {
        let mut l = V::Data(self.std.nil, Rc::new(vec![]));
        for i in items.into_iter().rev() {
            l = V::Data(self.std.cons, Rc::new(vec![i, l]));
        }
        l
    }
    fn unlist(&mut self, v: &V) -> Result<Vec<V>, Stop> {
        let mut out = vec![];
        let mut cur = v.clone();
        loop {
            self.tick()?;
            match cur {
                V::Data(e, f) if e == self.std.cons => {
                    out.push(f[0].clone());
                    cur = f[1].clone();
                }
                V::Data(e, _) if e == self.std.nil => return Ok(out),
                _ => return Err(Stop::Stuck("not a list".into())),
            }
        }
    }
    fn opt(&self, o: Option<V>) -> V {
        match o {
            Some(v) => V::Data(self.std.some, Rc::new(vec![v])),
            None => V::Data(self.std.none, Rc::new(vec![])),
        }
    }
    fn unopt(&self, v: &V) -> Option<V> {
        match v {
            V::Data(e, f) if *e == self.std.some => Some(f[0].clone()),
            _ => None,
        }
    }
    fn res(&self, r: Result<V, V>) -> V {
        match r {
            Ok(v) => V::Data(self.std.ok, Rc::new(vec![v])),
            Err(v) => V::Data(self.std.err, Rc::new(vec![v])),
        }
    }
    fn unres(&self, v: &V) -> Result<V, V> {
        match v {
            V::Data(e, f) if *e == self.std.ok => Ok(f[0].clone()),
            V::Data(_, f) => Err(f[0].clone()),
            _ => Err(V::Int(0)),
        }
    }

    fn prim(&mut self, key: &str, a: &[V]) -> R {
        fn i(v: &V) -> u64 {
            match v {
                V::Int(x) => *x,
                _ => panic!("harness: int expected"),
            }
        }
        fn s(v: &V) -> Rc<[u8]> {
            match v {
                V::Str(x) => x.clone(),
                _ => panic!("harness: string expected"),
            }
        }
        fn b(v: &V) -> bool {
            match v {
                V::Bool(x) => *x,
                _ => panic!("harness: bool expected"),
            }
        }
        fn arr(v: &V) -> Rc<Vec<V>> {
            match v {
                V::Arr(x) => x.clone(),
                _ => panic!("harness: array expected"),
            }
        }
        fn st(v: Vec<u8>) -> V {
            V::Str(v.into())
        }
        let key = key.strip_prefix("std/").unwrap();
        Ok(match key {
            "intrinsics/iterate" | "int/iterate" => {
                let mut x = a[2].clone();
                let mut n = i(&a[0]);
                while n > 0 {
                    x = self.apply(a[1].clone(), x)?;
                    n -= 1;
                }
                x
            }
            "intrinsics/stringLength" | "string/length" => V::Int(s(&a[0]).len() as u64),
            "intrinsics/stringConcat" | "string/concat" => {
                let mut v = s(&a[0]).to_vec();
                v.extend_from_slice(&s(&a[1]));
                self.steps += v.len() as u64 / 16;
                st(v)
            }
            "intrinsics/stringCharAt" | "string/charAt" => {
                let t = s(&a[1]);
                V::Int(usize::try_from(i(&a[0])).ok().and_then(|k| t.get(k)).map(|&b| b as u64).unwrap_or(0))
            }
            "intrinsics/stringSubstring" | "string/substring" => st(substring(&s(&a[2]), i(&a[0]), i(&a[1]))),
            "intrinsics/stringFromChar" | "string/fromChar" => st(vec![i(&a[0]) as u8]),
            "intrinsics/intToString" | "int/toString" => st(i(&a[0]).to_string().into_bytes()),
            "string/newline" => st(vec![10]),
            "string/split" => {
                let t = s(&a[1]);
                self.steps += 10 * t.len() as u64;
                let c = i(&a[0]);
                let parts: Vec<V> = t.split(|&x| x as u64 == c).map(|p| st(p.to_vec())).collect();
                self.list(parts)
            }
            "string/lines" => {
                let t = s(&a[0]);
                self.steps += 10 * t.len() as u64;
                let mut out = vec![];
                let mut start = 0;
                for (k, &c) in t.iter().enumerate() {
                    if c == 10 {
                        let mut line = &t[start..k];
                        if line.last() == Some(&13) {
                            line = &line[..line.len() - 1];
                        }
                        out.push(st(line.to_vec()));
                        start = k + 1;
                    }
                }
                if start < t.len() {
                    out.push(st(t[start..].to_vec()));
                }
                self.list(out)
            }
            "string/foldChars" => {
                let mut acc = a[0].clone();
                for &c in s(&a[2]).iter() {
                    let f = self.apply(a[1].clone(), acc)?;
                    acc = self.apply(f, V::Int(c as u64))?;
                }
                acc
            }
            "string/equal" => V::Bool(s(&a[0]) == s(&a[1])),
            "string/startsWith" => V::Bool(s(&a[1]).starts_with(&s(&a[0]))),
            "string/chars" => {
                let v = s(&a[0]).iter().map(|&c| V::Int(c as u64)).collect();
                self.list(v)
            }
            "string/trim" => {
                let t = s(&a[0]);
                let mut x = &t[..];
                while x.last() == Some(&32) {
                    x = &x[..x.len() - 1];
                }
                while x.first() == Some(&32) {
                    x = &x[1..];
                }
                st(x.to_vec())
            }
            "int/parse" => {
                let t = s(&a[0]);
                if t.is_empty() || !t.iter().all(|c| c.is_ascii_digit()) {
                    let e = V::Data(self.std.perr, Rc::new(vec![]));
                    self.res(Err(e))
                } else {
                    let mut acc = 0u64;
                    for &c in t.iter() {
                        acc = acc.wrapping_mul(10).wrapping_add((c - 48) as u64);
                    }
                    self.res(Ok(V::Int(acc)))
                }
            }
            "int/min" => V::Int(i(&a[0]).min(i(&a[1]))),
            "int/max" => V::Int(i(&a[0]).max(i(&a[1]))),
            "int/gcd" => V::Int(gcd(i(&a[0]), i(&a[1]))),
            "int/lcm" => {
                let (x, y) = (i(&a[0]), i(&a[1]));
                let g = gcd(x, y);
                V::Int(if g == 0 { 0 } else { (x / g).wrapping_mul(y) })
            }
            "int/bitXor" => V::Int(i(&a[0]) ^ i(&a[1])),
            "int/bitAnd" => V::Int(i(&a[0]) & i(&a[1])),
            "int/bitOr" => V::Int(i(&a[0]) | i(&a[1])),
            "option/map" => match self.unopt(&a[1]) {
                Some(x) => {
                    let y = self.apply(a[0].clone(), x)?;
                    self.opt(Some(y))
                }
                None => self.opt(None),
            },
            "option/andThen" => match self.unopt(&a[1]) {
                Some(x) => self.apply(a[0].clone(), x)?,
                None => self.opt(None),
            },
            "option/flatten" => self.unopt(&a[0]).unwrap_or_else(|| self.opt(None)),
            "option/unwrapOr" => self.unopt(&a[1]).unwrap_or_else(|| a[0].clone()),
            "option/apply" => match (self.unopt(&a[1]), self.unopt(&a[0])) {
                (Some(f), Some(x)) => {
                    let y = self.apply(f, x)?;
                    self.opt(Some(y))
                }
                _ => self.opt(None),
            },
            "option/isSome" => V::Bool(self.unopt(&a[0]).is_some()),
            "option/isNone" => V::Bool(self.unopt(&a[0]).is_none()),
            "result/map" => match self.unres(&a[1]) {
                Ok(x) => {
                    let y = self.apply(a[0].clone(), x)?;
                    self.res(Ok(y))
                }
                e => self.res(e),
            },
            "result/mapErr" => match self.unres(&a[1]) {
                Err(x) => {
                    let y = self.apply(a[0].clone(), x)?;
                    self.res(Err(y))
                }
                e => self.res(e),
            },
            "result/andThen" => match self.unres(&a[1]) {
                Ok(x) => self.apply(a[0].clone(), x)?,
                e => self.res(e),
            },
            "result/flatten" => match self.unres(&a[0]) {
                Ok(x) => x,
                e => self.res(e),
            },
            "result/unwrapOr" => self.unres(&a[1]).unwrap_or_else(|_| a[0].clone()),
            "result/ok" => self.opt(self.unres(&a[0]).ok()),
            "result/err" => self.opt(self.unres(&a[0]).err()),
            "result/okOr" => match self.unopt(&a[1]) {
                Some(x) => self.res(Ok(x)),
                None => self.res(Err(a[0].clone())),
            },
            "result/apply" => match self.unres(&a[1]) {
                Err(e) => self.res(Err(e)),
                Ok(f) => match self.unres(&a[0]) {
                    Ok(x) => {
                        let y = self.apply(f, x)?;
                        self.res(Ok(y))
                    }
                    e => self.res(e),
                },
            },
            "result/join" => match self.unres(&a[0]) {
                Ok(x) | Err(x) => x,
            },
            "list/map" => {
                let l = self.unlist(&a[1])?;
                let mut out = vec![];
                // folds work from the end of the list
                for x in l.into_iter().rev() {
                    out.push(self.apply(a[0].clone(), x)?);
                }
                out.reverse();
                self.list(out)
            }
            "list/filter" => {
                let l = self.unlist(&a[1])?;
                let mut out = vec![];
                for x in l.into_iter().rev() {
                    if b(&self.apply(a[0].clone(), x.clone())?) {
                        out.push(x);
                    }
                }
                out.reverse();
                self.list(out)
            }
            "list/sum" => V::Int(self.unlist(&a[0])?.iter().fold(0u64, |s, x| s.wrapping_add(i(x)))),
            "list/product" => V::Int(self.unlist(&a[0])?.iter().fold(1u64, |s, x| s.wrapping_mul(i(x)))),
            "list/any" => V::Bool(self.unlist(&a[0])?.iter().any(b)),
            "list/all" => V::Bool(self.unlist(&a[0])?.iter().all(b)),
            "list/head" => {
                let l = self.unlist(&a[0])?;
                self.opt(l.first().cloned())
            }
            "list/tail" => {
                let l = self.unlist(&a[0])?;
                if l.is_empty() {
                    self.opt(None)
                } else {
                    let t = self.list(l[1..].to_vec());
                    self.opt(Some(t))
                }
            }
            "list/reverse" => {
                let mut l = self.unlist(&a[0])?;
                l.reverse();
                self.list(l)
            }
            "list/max" => {
                let l = self.unlist(&a[0])?;
                self.opt(l.iter().map(i).max().map(V::Int))
            }
            "list/min" => {
                let l = self.unlist(&a[0])?;
                self.opt(l.iter().map(i).min().map(V::Int))
            }
            "list/allSome" => {
                let l = self.unlist(&a[0])?;
                let xs: Option<Vec<V>> = l.iter().map(|x| self.unopt(x)).collect();
                match xs {
                    Some(v) => {
                        let l = self.list(v);
                        self.opt(Some(l))
                    }
                    None => self.opt(None),
                }
            }
            "list/allOk" => {
                let l = self.unlist(&a[0])?;
                let xs: Result<Vec<V>, V> = l.iter().map(|x| self.unres(x)).collect();
                match xs {
                    Ok(v) => {
                        let l = self.list(v);
                        self.res(Ok(l))
                    }
                    Err(e) => self.res(Err(e)),
                }
            }
            "list/skip" => {
                let l = self.unlist(&a[1])?;
                let n = (i(&a[0]).min(l.len() as u64)) as usize;
                self.list(l[n..].to_vec())
            }
            "list/take" => {
                let l = self.unlist(&a[1])?;
                let n = (i(&a[0]).min(l.len() as u64)) as usize;
                self.list(l[..n].to_vec())
            }
            "list/length" => V::Int(self.unlist(&a[0])?.len() as u64),
            "list/foldr" => {
                let l = self.unlist(&a[2])?;
                let mut acc = a[1].clone();
                for x in l.into_iter().rev() {
                    let f = self.apply(a[0].clone(), x)?;
                    acc = self.apply(f, acc)?;
                }
                acc
            }
            "list/foldl" => {
                let l = self.unlist(&a[2])?;
                let mut acc = a[0].clone();
                for x in l {
                    let f = self.apply(a[1].clone(), acc)?;
                    acc = self.apply(f, x)?;
                }
                acc
            }
            "list/repeat" => {
                let n = i(&a[0]);
                self.steps = self.steps.saturating_add(n);
                self.tick()?;
                self.list(vec![a[1].clone(); n as usize])
            }
            "list/filterMap" => {
                let l = self.unlist(&a[1])?;
                let mut out = vec![];
                for x in l.into_iter().rev() {
                    let r = self.apply(a[0].clone(), x)?;
                    out.extend(self.unopt(&r));
                }
                out.reverse();
                self.list(out)
            }
            "list/concat" => {
                let mut l = self.unlist(&a[0])?;
                l.extend(self.unlist(&a[1])?);
                self.list(l)
            }
            "list/flatten" => {
                let l = self.unlist(&a[0])?;
                let mut out = vec![];
                for x in l {
                    out.extend(self.unlist(&x)?);
                }
                self.list(out)
            }
            "list/flatMap" => {
                let l = self.unlist(&a[1])?;
                let mut parts = vec![];
                for x in l.into_iter().rev() {
                    let r = self.apply(a[0].clone(), x)?;
                    parts.push(self.unlist(&r)?);
                }
                parts.reverse();
                self.list(parts.into_iter().flatten().collect())
            }
            "list/zip" => {
                let xs = self.unlist(&a[1])?;
                let ys = self.unlist(&a[2])?;
                let mut pairs = vec![];
                for (x, y) in xs.into_iter().zip(ys) {
                    let f = self.apply(a[0].clone(), x)?;
                    pairs.push(self.apply(f, y)?);
                }
                self.list(pairs)
            }
            "list/join" => {
                let l = self.unlist(&a[1])?;
                let parts: Vec<Rc<[u8]>> = l.iter().map(s).collect();
                let sep = s(&a[0]);
                let v = parts.iter().map(|p| p.to_vec()).collect::<Vec<_>>().join(&sep[..]);
                st(v)
            }
            "list/range" => {
                let (x, y) = (i(&a[0]), i(&a[1]));
                let n = y.wrapping_sub(x);
                self.steps = self.steps.saturating_add(n);
                self.tick()?;
                let v = (0..n).map(|k| V::Int(x.wrapping_add(k))).collect();
                self.list(v)
            }
            "array/length" => V::Int(arr(&a[0]).len() as u64),
            "array/empty" => V::Arr(Rc::new(vec![])),
            "array/new" => {
                let n = i(&a[0]);
                self.steps = self.steps.saturating_add(n);
                self.tick()?;
                V::Arr(Rc::new(vec![a[1].clone(); n as usize]))
            }
            "array/mapIdx" => {
                let mut v = (*arr(&a[2])).clone();
                let k = i(&a[0]) as usize;
                if i(&a[0]) < v.len() as u64 {
                    v[k] = self.apply(a[1].clone(), v[k].clone())?;
                }
                V::Arr(Rc::new(v))
            }
            "array/get" => {
                let v = arr(&a[1]);
                self.opt(v.get(i(&a[0]) as usize).cloned())
            }
            "array/set" => {
                let mut v = (*arr(&a[2])).clone();
                if i(&a[0]) < v.len() as u64 {
                    v[i(&a[0]) as usize] = a[1].clone();
                }
                V::Arr(Rc::new(v))
            }
            "array/toList" => {
                let v = arr(&a[0]);
                self.list((*v).clone())
            }
            "array/fromList" => V::Arr(Rc::new(self.unlist(&a[0])?)),
            "array/truncate" => {
                let mut v = (*arr(&a[1])).clone();
                v.truncate(i(&a[0]).min(v.len() as u64) as usize);
                V::Arr(Rc::new(v))
            }
            other => return Err(Stop::Stuck(format!("no model for {}", other))),
        })
    }

    pub fn show(&self, v: &V, atom: bool, out: &mut String) {
        if out.len() > MAX_SHOWN {
            return;
        }
        match v {
            V::Int(i) => out.push_str(&i.to_string()),
            V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            V::Str(s) => out.push_str(&show_bytes(s)),
            V::Data(e, f) => {
                let par = atom && !f.is_empty();
                if par {
                    out.push('(');
                }
                out.push_str(&self.info.ents[*e].name);
                for x in f.iter() {
                    out.push(' ');
                    self.show(x, true, out);
                }
                if par {
                    out.push(')');
                }
            }
            V::Clo(_) | V::Ctor(..) | V::Prim(..) => out.push_str(if atom { "(\\_ -> _)" } else { "\\_ -> _" }),
            V::Arr(_) => out.push_str("<array>"),
            V::Bad(_) => out.push_str("<bad>"),
        }
    }
}

pub fn arith(op: BinOp, a: u64, b: u64) -> V {
    match op {
        BinOp::Add => V::Int(a.wrapping_add(b)),
        BinOp::Sub => V::Int(a.wrapping_sub(b)),
        BinOp::Mul => V::Int(a.wrapping_mul(b)),
        BinOp::Div => V::Int(if b == 0 { 0 } else { a / b }),
        BinOp::Mod => V::Int(if b == 0 { a } else { a % b }),
        BinOp::Lt => V::Bool(a < b),
        BinOp::Le => V::Bool(a <= b),
        BinOp::Gt => V::Bool(a > b),
        BinOp::Ge => V::Bool(a >= b),
        BinOp::Eq => V::Bool(a == b),
        BinOp::Ne => V::Bool(a != b),
        BinOp::Pipe => unreachable!(),
    }
}

pub fn substring(s: &[u8], start: u64, len: u64) -> Vec<u8> {
    let n = s.len() as u64;
    if start >= n {
        return vec![];
    }
    let end = start.saturating_add(len).min(n);
    s[start as usize..end as usize].to_vec()
}

pub fn gcd(mut a: u64, mut b: u64) -> u64 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

pub fn show_bytes(s: &[u8]) -> String {
    let mut out = String::from("\"");
    for &b in s {
        match b {
            32..=126 => out.push(b as char),
            13 => out.push_str("\\r"),
            10 => out.push_str("\\n"),
            _ => out.push_str(&format!("\\x{:02x}", b)),
        }
    }
    out.push('"');
    out
}
