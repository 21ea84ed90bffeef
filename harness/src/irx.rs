//! The harness's own view of the intermediate representation: reading the
//! printed form, type checking and evaluation.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Bool,
    Int,
    Str,
    Var(u64),
    Named(String, Vec<T>),
    Fn(Vec<T>, Box<T>),
    Abs(u64, Box<T>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Bool(bool),
    Int(u64),
    Str(Vec<u8>),
    Name(String),
    Call(Box<E>, Vec<E>),
    If(Box<E>, Box<E>, Box<E>),
    Op(Box<E>, String, Box<E>),
    Intr(String, Vec<E>),
    Lam(Vec<(String, T)>, Box<E>),
    Match(Box<E>, Vec<(String, Vec<String>, E)>),
    Cons(String, Vec<T>, Vec<E>),
    Let(String, Box<E>, Box<E>),
    LetRec(String, T, Box<E>, Box<E>),
    Pi(u64, Box<E>),
    PiApply(Box<E>, T),
    Trap(String, T),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Def {
    pub export: Option<String>,
    pub name: String,
    pub ty: T,
    pub value: E,
}

// ---- reading -------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Num(u64),
    Str(Vec<u8>),
    Sym(&'static str),
    End,
}

const SYMS: [&str; 29] = [
    "<=", ">=", "==", "!=", "->", "\\(", "#trap", "(", ")", "[", "]", ",", ";", ":", "=", "+", "-", "*", "/", "%", "<", ">", "|", "@", ".", "export", "let", "\\", "#",
];

fn unescape(b: &[u8], mut i: usize) -> Result<(Vec<u8>, usize), String> {
    // both the notation for byte strings and that of Rust strings
    let mut out = vec![];
    loop {
        match b.get(i) {
            None => return Err("unterminated string".into()),
            Some(b'"') => return Ok((out, i + 1)),
            Some(b'\\') => {
                match b.get(i + 1) {
                    Some(b'n') => out.push(b'\n'),
                    Some(b'r') => out.push(b'\r'),
                    Some(b't') => out.push(b'\t'),
                    Some(b'0') => out.push(0),
                    Some(b'\\') => out.push(b'\\'),
                    Some(b'"') => out.push(b'"'),
                    Some(b'\'') => out.push(b'\''),
                    Some(b'x') => {
                        let h = b.get(i + 2..i + 4).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok()).ok_or("bad escape")?;
                        out.push(h);
                        i += 2;
                    }
                    _ => return Err("bad escape".into()),
                }
                i += 2;
            }
            Some(&c) => {
                out.push(c);
                i += 1;
            }
        }
    }
}

fn lex(s: &str) -> Result<Vec<(Tok, bool)>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let mut space = false;
    'next: while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\n' {
            i += 1;
            space = true;
            continue;
        }
        let glued = !space;
        space = false;
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'?' {
            let a = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$' || b[i] == b'?') {
                i += 1;
            }
            out.push((Tok::Id(s[a..i].to_owned()), glued));
            continue;
        }
        if c == b'%' && b.get(i + 1).map_or(false, |c| c.is_ascii_alphabetic()) {
            let a = i;
            i += 1;
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
            out.push((Tok::Id(s[a..i].to_owned()), glued));
            continue;
        }
        if c.is_ascii_digit() {
            let a = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            out.push((Tok::Num(s[a..i].parse().map_err(|_| format!("bad number {}", &s[a..i]))?), glued));
            continue;
        }
        if c == b'"' {
            let (v, e) = unescape(b, i + 1)?;
            out.push((Tok::Str(v), glued));
            i = e;
            continue;
        }
        for y in SYMS {
            if s[i..].starts_with(y) {
                out.push((Tok::Sym(y), glued));
                i += y.len();
                continue 'next;
            }
        }
        return Err(format!("unexpected character at {}: {:?}", i, crate::util::shorten(&s[i..], 20)));
    }
    out.push((Tok::End, false));
    Ok(out)
}

struct P {
    t: Vec<(Tok, bool)>,
    i: usize,
}

type R<X> = Result<X, String>;

impl P {
    fn peek(&self) -> &Tok {
        &self.t[self.i].0
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].0.clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is(&self, s: &str) -> bool {
        match self.peek() {
            Tok::Sym(x) => *x == s,
            Tok::Id(x) => x == s,
            _ => false,
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.is(s);
        if y {
            self.next();
        }
        y
    }
    fn want(&mut self, s: &str) -> R<()> {
        if self.eat(s) {
            Ok(())
        } else {
            let a = self.i.saturating_sub(6);
            Err(format!("expected {} but got {:?} after {:?}", s, self.peek(), &self.t[a..self.i]))
        }
    }
    fn name(&mut self) -> R<String> {
        match self.next() {
            Tok::Id(x) if is_name(&x) => Ok(x),
            t => Err(format!("expected a name, got {:?}", t)),
        }
    }
    fn def(&mut self) -> R<Def> {
        let mut export = None;
        if self.eat("export") {
            self.want("(")?;
            match self.next() {
                Tok::Str(s) => export = Some(String::from_utf8_lossy(&s).into_owned()),
                t => return Err(format!("expected export name, got {:?}", t)),
            }
            self.want(")")?;
        }
        self.want("let")?;
        let name = self.name()?;
        self.want(":")?;
        let ty = self.ty()?;
        self.want("=")?;
        let value = self.expr()?;
        self.want(";")?;
        Ok(Def { export, name, ty, value })
    }
    fn ty(&mut self) -> R<T> {
        if self.eat("for") {
            let v = self.tyvar()?;
            self.want(".")?;
            return Ok(T::Abs(v, Box::new(self.ty()?)));
        }
        if self.is("(") {
            // parameters of a function or a type in parentheses
            self.next();
            let mut v = vec![];
            if !self.is(")") {
                v.push(self.ty()?);
                while self.eat(",") {
                    v.push(self.ty()?);
                }
            }
            self.want(")")?;
            if self.eat("->") {
                return Ok(T::Fn(v, Box::new(self.ty()?)));
            }
            if v.len() != 1 {
                return Err("several types in parentheses".into());
            }
            return Ok(v.pop().unwrap());
        }
        match self.peek().clone() {
            Tok::Id(x) if is_name(&x) => {
                self.next();
                let mut args = vec![];
                while self.is("(") || matches!(self.peek(), Tok::Id(_)) {
                    args.push(self.ty_atom()?);
                }
                Ok(T::Named(x, args))
            }
            _ => self.ty_atom(),
        }
    }
    fn tyvar(&mut self) -> R<u64> {
        match self.next() {
            Tok::Id(x) => x.strip_prefix('t').and_then(|n| n.parse().ok()).ok_or(format!("expected a type variable, got {}", x)),
            t => Err(format!("expected a type variable, got {:?}", t)),
        }
    }
    fn ty_atom(&mut self) -> R<T> {
        if self.eat("(") {
            let t = self.ty_in_parens()?;
            return Ok(t);
        }
        match self.peek().clone() {
            Tok::Id(x) => match &*x {
                "int" => {
                    self.next();
                    Ok(T::Int)
                }
                "bool" => {
                    self.next();
                    Ok(T::Bool)
                }
                "string" => {
                    self.next();
                    Ok(T::Str)
                }
                _ if is_name(&x) => {
                    self.next();
                    Ok(T::Named(x, vec![]))
                }
                _ => Ok(T::Var(self.tyvar()?)),
            },
            t => Err(format!("expected a type, got {:?}", t)),
        }
    }
    /// After "(": a whole type, which might itself be a function.
    fn ty_in_parens(&mut self) -> R<T> {
        let t = self.ty()?;
        self.want(")")?;
        Ok(t)
    }
    fn expr(&mut self) -> R<E> {
        match self.peek().clone() {
            Tok::Sym("let") | Tok::Id(_) if self.is("let") => {
                self.next();
                if self.eat("rec") {
                    let n = self.name()?;
                    self.want(":")?;
                    let t = self.ty()?;
                    self.want("=")?;
                    let v = self.expr()?;
                    self.want(";")?;
                    let e = self.expr()?;
                    return Ok(E::LetRec(n, t, Box::new(v), Box::new(e)));
                }
                let n = self.name()?;
                self.want("=")?;
                let v = self.expr()?;
                self.want(";")?;
                let e = self.expr()?;
                Ok(E::Let(n, Box::new(v), Box::new(e)))
            }
            Tok::Id(x) if x == "if" => {
                self.next();
                let c = self.expr()?;
                self.want("then")?;
                let a = self.expr()?;
                self.want("else")?;
                let b = self.expr()?;
                Ok(E::If(Box::new(c), Box::new(a), Box::new(b)))
            }
            Tok::Id(x) if x == "match" => self.binary(0),
            Tok::Id(x) if x == "Pi" => {
                self.next();
                let v = self.tyvar()?;
                self.want("->")?;
                Ok(E::Pi(v, Box::new(self.expr()?)))
            }
            Tok::Sym("\\(") => {
                self.next();
                let mut ps = vec![];
                if !self.is(")") {
                    loop {
                        let n = self.name()?;
                        self.want(":")?;
                        ps.push((n, self.ty()?));
                        if !self.eat(",") {
                            break;
                        }
                    }
                }
                self.want(")")?;
                self.want("->")?;
                Ok(E::Lam(ps, Box::new(self.expr()?)))
            }
            _ => self.binary(0),
        }
    }
    fn op(&self) -> Option<(&'static str, u32)> {
        match self.peek() {
            Tok::Sym(s @ ("<" | "<=" | ">" | ">=" | "==" | "!=")) => Some((s, 0)),
            Tok::Sym(s @ ("+" | "-")) => Some((s, 1)),
            Tok::Sym(s @ ("*" | "/" | "%")) => Some((s, 2)),
            _ => None,
        }
    }
    fn binary(&mut self, prec: u32) -> R<E> {
        if prec == 3 {
            return self.postfix();
        }
        let mut e = self.binary(prec + 1)?;
        while let Some((o, p)) = self.op() {
            if p != prec {
                break;
            }
            self.next();
            let b = self.binary(prec + 1)?;
            e = E::Op(Box::new(e), o.to_owned(), Box::new(b));
        }
        Ok(e)
    }
    fn args(&mut self) -> R<Vec<E>> {
        self.want("(")?;
        let mut v = vec![];
        if !self.is(")") {
            v.push(self.expr()?);
            while self.eat(",") {
                v.push(self.expr()?);
            }
        }
        self.want(")")?;
        Ok(v)
    }
    fn postfix(&mut self) -> R<E> {
        let mut e = self.atom()?;
        loop {
            if self.is("(") {
                e = E::Call(Box::new(e), self.args()?);
            } else if self.eat("[") {
                let t = self.ty()?;
                self.want("]")?;
                e = E::PiApply(Box::new(e), t);
            } else {
                return Ok(e);
            }
        }
    }
    fn atom(&mut self) -> R<E> {
        match self.peek().clone() {
            Tok::Num(x) => {
                self.next();
                Ok(E::Int(x))
            }
            Tok::Str(x) => {
                self.next();
                Ok(E::Str(x))
            }
            Tok::Sym("(") => {
                self.next();
                let e = self.expr()?;
                self.want(")")?;
                Ok(e)
            }
            Tok::Sym("#trap") => {
                self.next();
                self.want("(")?;
                let m = match self.next() {
                    Tok::Str(s) => String::from_utf8_lossy(&s).into_owned(),
                    t => return Err(format!("expected a message, got {:?}", t)),
                };
                self.want(",")?;
                let t = self.ty()?;
                self.want(")")?;
                Ok(E::Trap(m, t))
            }
            Tok::Sym("@") => {
                self.next();
                let c = self.name()?;
                let mut tys = vec![];
                if self.eat("[") {
                    tys.push(self.ty()?);
                    while self.eat(",") {
                        tys.push(self.ty()?);
                    }
                    self.want("]")?;
                }
                Ok(E::Cons(c, tys, self.args()?))
            }
            Tok::Id(x) => match &*x {
                "true" => {
                    self.next();
                    Ok(E::Bool(true))
                }
                "false" => {
                    self.next();
                    Ok(E::Bool(false))
                }
                "match" => {
                    self.next();
                    let d = self.expr()?;
                    self.want("with")?;
                    let mut bs = vec![];
                    while self.eat("|") {
                        self.want("@")?;
                        let c = self.name()?;
                        let mut v = vec![];
                        while !self.is("->") {
                            v.push(self.name()?);
                        }
                        self.want("->")?;
                        bs.push((c, v, self.expr()?));
                    }
                    self.want("end")?;
                    Ok(E::Match(Box::new(d), bs))
                }
                _ if x.starts_with('%') => {
                    self.next();
                    Ok(E::Intr(x[1..].to_owned(), self.args()?))
                }
                _ => Ok(E::Name(self.name()?)),
            },
            t => {
                let a = self.i.saturating_sub(6);
                Err(format!("unexpected {:?} after {:?}", t, &self.t[a..self.i]))
            }
        }
    }
}

fn is_name(x: &str) -> bool {
    // names end in an underscore and a number
    x.rfind('_').map_or(false, |i| i + 1 < x.len() && x[i + 1..].bytes().all(|c| c.is_ascii_digit()))
}

pub fn parse(text: &str) -> R<Vec<Def>> {
    // `let` and `export` lex as identifiers
    let mut p = P { t: lex(text)?, i: 0 };
    let mut v = vec![];
    while *p.peek() != Tok::End {
        v.push(p.def()?);
    }
    Ok(v)
}

// ---- evaluation -------------------------------------------------------------------

#[derive(Clone)]
pub enum V {
    Int(u64),
    Bool(bool),
    Str(Rc<[u8]>),
    Comp(Rc<str>, Rc<Vec<V>>),
    Fn(Rc<Closure>),
}

pub struct Closure {
    params: Vec<String>,
    body: *const E,
    env: Env,
    rec: Option<String>,
}

type Env = Option<Rc<Node>>;

pub struct Node {
    name: String,
    value: V,
    next: Env,
}

impl Drop for Node {
    fn drop(&mut self) {
        let mut next = self.next.take();
        while let Some(n) = next {
            match Rc::try_unwrap(n) {
                Ok(mut n) => next = n.next.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Trap(String),
    Fuel,
    Depth,
    Stuck(String),
}

pub struct Machine {
    pub fuel: u64,
    pub depth: u32,
    globals: HashMap<String, V>,
}

fn bind(env: &Env, name: &str, value: V) -> Env {
    Some(Rc::new(Node { name: name.to_owned(), value, next: env.clone() }))
}

fn stuck<X>(s: &str) -> Result<X, Stop> {
    Err(Stop::Stuck(s.to_owned()))
}

impl Machine {
    pub fn new(fuel: u64) -> Machine {
        Machine { fuel, depth: 0, globals: HashMap::new() }
    }

    /// Values of the exports as the compiler prints them.
    /// The definitions must outlive the machine.
    pub fn run(&mut self, defs: &[Def]) -> Result<String, Stop> {
        for d in defs {
            let v = self.eval(&d.value, &None)?;
            self.globals.insert(d.name.clone(), v);
        }
        let mut out = String::new();
        for d in defs {
            if let Some(x) = &d.export {
                out += x;
                out += " = ";
                show(&self.globals[&d.name], false, &mut out);
                out.push('\n');
            }
        }
        Ok(out)
    }

    pub fn main(&mut self, defs: &[Def], input: &[u8]) -> Result<Vec<u8>, Stop> {
        let Some(d) = defs.iter().rev().find(|d| d.export.as_deref() == Some("main")) else { return stuck("no main") };
        let f = self.globals[&d.name].clone();
        match self.call(f, vec![V::Str(input.into())])? {
            V::Str(s) => Ok(s.to_vec()),
            _ => stuck("main does not give a string"),
        }
    }

    fn int(&mut self, e: &E, env: &Env) -> Result<u64, Stop> {
        match self.eval(e, env)? {
            V::Int(x) => Ok(x),
            _ => stuck("not a number"),
        }
    }
    fn str(&mut self, e: &E, env: &Env) -> Result<Rc<[u8]>, Stop> {
        match self.eval(e, env)? {
            V::Str(x) => Ok(x),
            _ => stuck("not a string"),
        }
    }

    fn call(&mut self, f: V, args: Vec<V>) -> Result<V, Stop> {
        let V::Fn(c) = f else { return stuck("not a function") };
        if c.params.len() != args.len() {
            return stuck("wrong number of arguments");
        }
        let mut env = c.env.clone();
        if let Some(n) = &c.rec {
            env = bind(&env, n, V::Fn(c.clone()));
        }
        for (p, a) in c.params.iter().zip(args) {
            env = bind(&env, p, a);
        }
        self.depth += 1;
        if self.depth > 3000 {
            return Err(Stop::Depth);
        }
        // the program outlives the machine
        let r = self.eval(unsafe { &*c.body }, &env);
        self.depth -= 1;
        r
    }

    fn eval(&mut self, e: &E, env: &Env) -> Result<V, Stop> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        Ok(match e {
            E::Bool(b) => V::Bool(*b),
            E::Int(x) => V::Int(*x),
            E::Str(s) => V::Str(s.as_slice().into()),
            E::Name(n) => {
                let mut at = env;
                while let Some(x) = at {
                    if x.name == *n {
                        return Ok(x.value.clone());
                    }
                    at = &x.next;
                }
                match self.globals.get(n) {
                    Some(v) => v.clone(),
                    None => return stuck(&format!("no value for {}", n)),
                }
            }
            E::Call(f, xs) => {
                let f = self.eval(f, env)?;
                let mut v = vec![];
                for x in xs {
                    v.push(self.eval(x, env)?);
                }
                return self.call(f, v);
            }
            E::If(c, a, b) => match self.eval(c, env)? {
                V::Bool(true) => return self.eval(a, env),
                V::Bool(false) => return self.eval(b, env),
                _ => return stuck("condition"),
            },
            E::Op(a, o, b) => {
                let (a, b) = (self.int(a, env)?, self.int(b, env)?);
                match &**o {
                    "+" => V::Int(a.wrapping_add(b)),
                    "-" => V::Int(a.wrapping_sub(b)),
                    "*" => V::Int(a.wrapping_mul(b)),
                    "/" => V::Int(if b == 0 { 0 } else { a / b }),
                    "%" => V::Int(if b == 0 { a } else { a % b }),
                    "<" => V::Bool(a < b),
                    "<=" => V::Bool(a <= b),
                    ">" => V::Bool(a > b),
                    ">=" => V::Bool(a >= b),
                    "==" => V::Bool(a == b),
                    "!=" => V::Bool(a != b),
                    _ => return stuck("operator"),
                }
            }
            E::Intr(k, xs) => match (&**k, xs.as_slice()) {
                ("stringLen", [a]) => V::Int(self.str(a, env)?.len() as u64),
                ("stringConcat", [a, b]) => {
                    let mut v = self.str(a, env)?.to_vec();
                    v.extend_from_slice(&self.str(b, env)?);
                    if v.len() > 1 << 20 {
                        return Err(Stop::Fuel);
                    }
                    V::Str(v.into())
                }
                ("stringCharAt", [i, s]) => {
                    let (i, s) = (self.int(i, env)?, self.str(s, env)?);
                    V::Int(usize::try_from(i).ok().and_then(|i| s.get(i)).copied().unwrap_or(0) as u64)
                }
                ("stringSubstring", [a, n, s]) => {
                    let (a, n, s) = (self.int(a, env)? as u128, self.int(n, env)? as u128, self.str(s, env)?);
                    let l = s.len() as u128;
                    let from = a.min(l);
                    let to = (a + n).min(l).max(from);
                    V::Str(s[from as usize..to as usize].into())
                }
                ("stringFromChar", [x]) => V::Str([self.int(x, env)? as u8][..].into()),
                ("intToString", [x]) => V::Str(self.int(x, env)?.to_string().into_bytes().into()),
                _ => return stuck("intrinsic"),
            },
            E::Lam(ps, b) => V::Fn(Rc::new(Closure { params: ps.iter().map(|p| p.0.clone()).collect(), body: &**b, env: env.clone(), rec: None })),
            E::Match(d, bs) => {
                let V::Comp(c, fs) = self.eval(d, env)? else { return stuck("match on something else") };
                let Some(b) = bs.iter().find(|b| *b.0 == *c) else { return stuck("no case for a constructor") };
                if b.1.len() != fs.len() {
                    return stuck("fields");
                }
                let mut env = env.clone();
                for (n, f) in b.1.iter().zip(fs.iter()) {
                    env = bind(&env, n, f.clone());
                }
                return self.eval(&b.2, &env);
            }
            E::Cons(c, _, xs) => {
                let mut v = vec![];
                for x in xs {
                    v.push(self.eval(x, env)?);
                }
                V::Comp(c.as_str().into(), Rc::new(v))
            }
            E::Let(n, a, b) => {
                let v = self.eval(a, env)?;
                return self.eval(b, &bind(env, n, v));
            }
            E::LetRec(n, _, a, b) => {
                let mut a = &**a;
                while let E::Pi(_, x) = a {
                    a = x;
                }
                let E::Lam(ps, body) = a else { return stuck("recursive value is not a function") };
                let f = V::Fn(Rc::new(Closure { params: ps.iter().map(|p| p.0.clone()).collect(), body: &**body, env: env.clone(), rec: Some(n.clone()) }));
                return self.eval(b, &bind(env, n, f));
            }
            E::Pi(_, e) | E::PiApply(e, _) => return self.eval(e, env),
            E::Trap(m, _) => return Err(Stop::Trap(m.clone())),
        })
    }
}

fn show(v: &V, atom: bool, out: &mut String) {
    match v {
        V::Int(x) => *out += &x.to_string(),
        V::Bool(b) => *out += if *b { "true" } else { "false" },
        V::Str(s) => *out += &crate::backend::show(s),
        V::Comp(c, fs) => {
            let paren = atom && !fs.is_empty();
            if paren {
                out.push('(');
            }
            *out += &c[..c.rfind('_').unwrap_or(c.len())];
            for f in fs.iter() {
                out.push(' ');
                show(f, true, out);
            }
            if paren {
                out.push(')');
            }
        }
        V::Fn(_) => *out += if atom { "(\\_ -> _)" } else { "\\_ -> _" },
    }
}

// ---- type checking -------------------------------------------------------------------

pub struct TyDef {
    pub name: String,
    pub vars: Vec<u64>,
    pub cases: Vec<(String, Vec<T>)>,
}

pub struct Checker {
    kinds: HashMap<String, usize>,
    ctors: HashMap<String, (String, Vec<u64>, Vec<T>)>,
    vals: Vec<(String, T)>,
    tvars: Vec<u64>,
    fresh: u64,
}

fn subst(t: &T, m: &HashMap<u64, T>, fresh: &mut u64) -> T {
    match t {
        T::Bool | T::Int | T::Str => t.clone(),
        T::Var(v) => m.get(v).cloned().unwrap_or_else(|| t.clone()),
        T::Named(n, a) => T::Named(n.clone(), a.iter().map(|x| subst(x, m, fresh)).collect()),
        T::Fn(a, b) => T::Fn(a.iter().map(|x| subst(x, m, fresh)).collect(), Box::new(subst(b, m, fresh))),
        T::Abs(v, b) => {
            // always rename, so that nothing is captured
            *fresh += 1;
            let mut m2 = m.clone();
            m2.insert(*v, T::Var(*fresh));
            T::Abs(*fresh, Box::new(subst(b, &m2, fresh)))
        }
    }
}

pub fn alpha_eq(a: &T, b: &T, m: &mut Vec<(u64, u64)>) -> bool {
    match (a, b) {
        (T::Bool, T::Bool) | (T::Int, T::Int) | (T::Str, T::Str) => true,
        (T::Var(x), T::Var(y)) => {
            for (p, q) in m.iter().rev() {
                if p == x || q == y {
                    return p == x && q == y;
                }
            }
            x == y
        }
        (T::Named(n, x), T::Named(k, y)) => n == k && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| alpha_eq(p, q, m)),
        (T::Fn(x, p), T::Fn(y, q)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| alpha_eq(p, q, m)) && alpha_eq(p, q, m),
        (T::Abs(x, p), T::Abs(y, q)) => {
            m.push((*x, *y));
            let r = alpha_eq(p, q, m);
            m.pop();
            r
        }
        _ => false,
    }
}

impl Checker {
    pub fn check(types: &[TyDef], defs: &[Def]) -> R<()> {
        let mut c = Checker { kinds: HashMap::new(), ctors: HashMap::new(), vals: vec![], tvars: vec![], fresh: 1 << 40 };
        for t in types {
            c.kinds.insert(t.name.clone(), t.vars.len());
            c.tvars = t.vars.clone();
            for (n, fs) in &t.cases {
                for f in fs {
                    c.ty(f)?;
                }
                c.ctors.insert(n.clone(), (t.name.clone(), t.vars.clone(), fs.clone()));
            }
            c.tvars.clear();
        }
        for d in defs {
            c.ty(&d.ty)?;
            let t = c.expr(&d.value)?;
            same(&t, &d.ty)?;
            c.vals.push((d.name.clone(), d.ty.clone()));
        }
        Ok(())
    }

    fn ty(&mut self, t: &T) -> R<()> {
        match t {
            T::Bool | T::Int | T::Str => {}
            T::Var(v) => {
                if !self.tvars.contains(v) {
                    return Err(format!("type variable {} is not in scope", v));
                }
            }
            T::Named(n, a) => {
                if self.kinds.get(n) != Some(&a.len()) {
                    return Err(format!("type {} does not take {} arguments here", n, a.len()));
                }
                for x in a {
                    self.ty(x)?;
                }
            }
            T::Fn(a, b) => {
                for x in a {
                    self.ty(x)?;
                }
                self.ty(b)?;
            }
            T::Abs(v, b) => {
                self.tvars.push(*v);
                let r = self.ty(b);
                self.tvars.pop();
                r?;
            }
        }
        Ok(())
    }

    fn many(&mut self, want: &[T], xs: &[E]) -> R<()> {
        if want.len() != xs.len() {
            return Err(format!("{} arguments instead of {}", xs.len(), want.len()));
        }
        for (t, x) in want.iter().zip(xs) {
            let got = self.expr(x)?;
            same(&got, t)?;
        }
        Ok(())
    }

    fn expr(&mut self, e: &E) -> R<T> {
        Ok(match e {
            E::Bool(_) => T::Bool,
            E::Int(_) => T::Int,
            E::Str(_) => T::Str,
            E::Name(n) => match self.vals.iter().rev().find(|v| v.0 == *n) {
                Some(v) => v.1.clone(),
                None => return Err(format!("{} is not in scope", n)),
            },
            E::Call(f, xs) => match self.expr(f)? {
                T::Fn(a, b) => {
                    self.many(&a, xs)?;
                    *b
                }
                t => return Err(format!("call of {:?}", t)),
            },
            E::If(c, a, b) => {
                let c = self.expr(c)?;
                same(&c, &T::Bool)?;
                let a = self.expr(a)?;
                let b = self.expr(b)?;
                same(&a, &b)?;
                a
            }
            E::Op(a, o, b) => {
                let a = self.expr(a)?;
                same(&a, &T::Int)?;
                let b = self.expr(b)?;
                same(&b, &T::Int)?;
                if matches!(&**o, "+" | "-" | "*" | "/" | "%") {
                    T::Int
                } else {
                    T::Bool
                }
            }
            E::Intr(k, xs) => {
                let (a, b) = match &**k {
                    "stringLen" => (vec![T::Str], T::Int),
                    "stringConcat" => (vec![T::Str, T::Str], T::Str),
                    "stringCharAt" => (vec![T::Int, T::Str], T::Int),
                    "stringSubstring" => (vec![T::Int, T::Int, T::Str], T::Str),
                    "stringFromChar" | "intToString" => (vec![T::Int], T::Str),
                    _ => return Err(format!("intrinsic {}", k)),
                };
                self.many(&a, xs)?;
                b
            }
            E::Lam(ps, b) => {
                let k = self.vals.len();
                for (n, t) in ps {
                    self.ty(t)?;
                    self.vals.push((n.clone(), t.clone()));
                }
                let r = self.expr(b);
                self.vals.truncate(k);
                T::Fn(ps.iter().map(|p| p.1.clone()).collect(), Box::new(r?))
            }
            E::Match(d, bs) => {
                let (n, args) = match self.expr(d)? {
                    T::Named(n, a) => (n, a),
                    t => return Err(format!("match on {:?}", t)),
                };
                let mut res: Option<T> = None;
                for (c, names, e) in bs {
                    let Some((t, vars, fs)) = self.ctors.get(c).cloned() else { return Err(format!("{} is not a constructor", c)) };
                    if t != n {
                        return Err(format!("{} is not a constructor of {}", c, n));
                    }
                    if fs.len() != names.len() {
                        return Err(format!("{} has {} fields", c, fs.len()));
                    }
                    let m: HashMap<u64, T> = vars.iter().copied().zip(args.iter().cloned()).collect();
                    let k = self.vals.len();
                    for (x, f) in names.iter().zip(&fs) {
                        let t = subst(f, &m, &mut self.fresh);
                        self.vals.push((x.clone(), t));
                    }
                    let r = self.expr(e);
                    self.vals.truncate(k);
                    let r = r?;
                    match &res {
                        Some(t) => same(&r, t)?,
                        None => res = Some(r),
                    }
                }
                res.ok_or("match without cases")?
            }
            E::Cons(c, tys, xs) => {
                let Some((t, vars, fs)) = self.ctors.get(c).cloned() else { return Err(format!("{} is not a constructor", c)) };
                if vars.len() != tys.len() {
                    return Err(format!("{} takes {} types", c, vars.len()));
                }
                let m: HashMap<u64, T> = vars.iter().copied().zip(tys.iter().cloned()).collect();
                let fs: Vec<T> = fs.iter().map(|f| subst(f, &m, &mut self.fresh)).collect();
                self.many(&fs, xs)?;
                T::Named(t, tys.clone())
            }
            E::Let(n, a, b) => {
                let t = self.expr(a)?;
                self.vals.push((n.clone(), t));
                let r = self.expr(b);
                self.vals.pop();
                r?
            }
            E::LetRec(n, t, a, b) => {
                self.ty(t)?;
                self.vals.push((n.clone(), t.clone()));
                let r = self.expr(a).and_then(|x| same(&x, t)).and_then(|_| self.expr(b));
                self.vals.pop();
                r?
            }
            E::Pi(v, e) => {
                self.tvars.push(*v);
                let r = self.expr(e);
                self.tvars.pop();
                T::Abs(*v, Box::new(r?))
            }
            E::PiApply(e, t) => match self.expr(e)? {
                T::Abs(v, b) => {
                    let m = HashMap::from([(v, t.clone())]);
                    subst(&b, &m, &mut self.fresh)
                }
                x => return Err(format!("types given to {:?}", x)),
            },
            E::Trap(_, t) => {
                self.ty(t)?;
                t.clone()
            }
        })
    }
}

fn same(a: &T, b: &T) -> R<()> {
    if alpha_eq(a, b, &mut vec![]) {
        Ok(())
    } else {
        Err(format!("{:?} instead of {:?}", a, b))
    }
}

// ---- conversion ------------------------------------------------------------------------

#[cfg(tic_verif)]
pub mod conv {
    use super::*;
    use ticc_core::ir;

    pub fn var(v: &ir::TyVar) -> u64 {
        let s = format!("{:?}", v);
        s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
    }

    pub struct C<'a, 'b>(pub &'a ir::NameGenerator<'b>);

    impl C<'_, '_> {
        pub fn name(&self, n: ir::Name) -> String {
            self.0.show_debug(n).to_string()
        }
        pub fn ty(&self, t: &ir::Ty) -> T {
            match t {
                ir::Ty::Bool => T::Bool,
                ir::Ty::Int => T::Int,
                ir::Ty::String => T::Str,
                ir::Ty::Var(v) => T::Var(var(v)),
                ir::Ty::Named(n, a) => T::Named(self.name(*n), a.iter().map(|x| self.ty(x)).collect()),
                ir::Ty::Fn(a, b) => T::Fn(a.iter().map(|x| self.ty(x)).collect(), Box::new(self.ty(b))),
                ir::Ty::Abs(v, b) => T::Abs(var(v), Box::new(self.ty(b))),
            }
        }
        fn b(&self, e: &ir::Expr) -> Box<E> {
            Box::new(self.expr(e))
        }
        fn v(&self, e: &[ir::Expr]) -> Vec<E> {
            e.iter().map(|e| self.expr(e)).collect()
        }
        pub fn expr(&self, e: &ir::Expr) -> E {
            match e {
                ir::Expr::Bool(b) => E::Bool(*b),
                ir::Expr::Int(x) => E::Int(*x),
                ir::Expr::String(s) => E::Str(s.to_vec()),
                ir::Expr::Name(n) => E::Name(self.name(*n)),
                ir::Expr::Call(f, xs) => E::Call(self.b(f), self.v(xs)),
                ir::Expr::If(a, b, c) => E::If(self.b(a), self.b(b), self.b(c)),
                ir::Expr::Op(a, o, b) => {
                    let o = match o {
                        ir::Op::Add => "+",
                        ir::Op::Subtract => "-",
                        ir::Op::Multiply => "*",
                        ir::Op::Divide => "/",
                        ir::Op::Modulo => "%",
                        ir::Op::Less => "<",
                        ir::Op::LessEq => "<=",
                        ir::Op::Greater => ">",
                        ir::Op::GreaterEq => ">=",
                        ir::Op::Equal => "==",
                        ir::Op::NotEqual => "!=",
                    };
                    E::Op(self.b(a), o.to_owned(), self.b(b))
                }
                ir::Expr::Intrinsic(i, xs) => {
                    let i = match i {
                        ir::Intrinsic::StringLen => "stringLen",
                        ir::Intrinsic::StringConcat => "stringConcat",
                        ir::Intrinsic::StringCharAt => "stringCharAt",
                        ir::Intrinsic::StringSubstring => "stringSubstring",
                        ir::Intrinsic::StringFromChar => "stringFromChar",
                        ir::Intrinsic::IntToString => "intToString",
                    };
                    E::Intr(i.to_owned(), self.v(xs))
                }
                ir::Expr::Lambda(ps, b) => E::Lam(ps.iter().map(|p| (self.name(p.name), self.ty(&p.ty))).collect(), self.b(b)),
                ir::Expr::Match(d, bs) => E::Match(self.b(d), bs.iter().map(|b| (self.name(b.ctor), b.bindings.iter().map(|n| self.name(*n)).collect(), self.expr(&b.value))).collect()),
                ir::Expr::Construct(c, ts, xs) => E::Cons(self.name(*c), ts.iter().map(|t| self.ty(t)).collect(), self.v(xs)),
                ir::Expr::Let(n, a, b) => E::Let(self.name(*n), self.b(a), self.b(b)),
                ir::Expr::LetRec(n, t, a, b) => E::LetRec(self.name(*n), self.ty(t), self.b(a), self.b(b)),
                ir::Expr::Pi(v, e) => E::Pi(var(v), self.b(e)),
                ir::Expr::PiApply(e, t) => E::PiApply(self.b(e), self.ty(t)),
                ir::Expr::Trap(m, t) => E::Trap(m.clone(), self.ty(t)),
            }
        }
    }

    pub fn program(p: &ir::Program<'_>) -> (Vec<TyDef>, Vec<Def>) {
        let c = C(&p.names);
        let types = p.types.iter().map(|t| TyDef { name: c.name(t.name), vars: t.vars.iter().map(var).collect(), cases: t.cases.iter().map(|k| (c.name(k.name), k.fields.iter().map(|f| c.ty(f)).collect())).collect() }).collect();
        let defs = p.defs.iter().map(|d| Def { export: d.export_name.clone(), name: c.name(d.name), ty: c.ty(&d.ty), value: c.expr(&d.value) }).collect();
        (types, defs)
    }
}
