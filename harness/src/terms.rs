//! Small, dense terms: every expression form over a fixed set of types, with
//! local definitions, folds inside of folds, folded values that are passed
//! around, and (on request) slips of the types. Whether a program is well
//! typed is left to the reference checker.
use crate::rng::Rng;

#[derive(Clone, PartialEq, Debug)]
pub enum Y {
    I,
    B,
    S,
    L,
    V,
    O(Box<Y>),
    P(Box<Y>, Box<Y>),
    T(Box<Y>),
    F(Box<Y>, Box<Y>),
}

#[derive(Clone)]
enum VT {
    Plain(Y),
    /// data, result
    Folded(Y, Y),
    /// `a -> a`, `a -> b -> a`, `(a -> b) -> a -> b`
    Id,
    Const,
    App,
}

#[derive(Clone)]
struct Var {
    name: String,
    ty: VT,
}

pub struct Gen<'a> {
    r: &'a mut Rng,
    /// percentage of slips per expression
    slips: u64,
    holes: bool,
    /// folds of the same data inside of each other, and values of them mixed
    mixed: bool,
    vars: Vec<Var>,
    next: usize,
    budget: i32,
}

pub const PREAMBLE: &str = "type L = N | C int rec;\ntype V = U | W bool | X int string;\ntype O a = No | So a;\ntype P a b = P a b;\ntype T a = E | D rec a rec;\n";

fn show(y: &Y, atom: bool) -> String {
    let p = |s: String| if atom { format!("({})", s) } else { s };
    match y {
        Y::I => "int".into(),
        Y::B => "bool".into(),
        Y::S => "string".into(),
        Y::L => "L".into(),
        Y::V => "V".into(),
        Y::O(a) => p(format!("O {}", show(a, true))),
        Y::P(a, b) => p(format!("P {} {}", show(a, true), show(b, true))),
        Y::T(a) => p(format!("T {}", show(a, true))),
        Y::F(a, b) => p(format!("{} -> {}", if matches!(**a, Y::F(..)) { show(a, true) } else { show(a, false) }, show(b, false))),
    }
}

fn bx(y: Y) -> Box<Y> {
    Box::new(y)
}

/// constructors with their fields; `None` is a recursive field
fn ctors(y: &Y) -> Vec<(&'static str, Vec<Option<Y>>)> {
    match y {
        Y::L => vec![("N", vec![]), ("C", vec![Some(Y::I), None])],
        Y::V => vec![("U", vec![]), ("W", vec![Some(Y::B)]), ("X", vec![Some(Y::I), Some(Y::S)])],
        Y::O(a) => vec![("No", vec![]), ("So", vec![Some((**a).clone())])],
        Y::P(a, b) => vec![("P", vec![Some((**a).clone()), Some((**b).clone())])],
        Y::T(a) => vec![("E", vec![]), ("D", vec![None, Some((**a).clone()), None])],
        _ => vec![],
    }
}

impl<'a> Gen<'a> {
    fn ty(&mut self, d: usize) -> Y {
        match self.r.below(if d == 0 { 5 } else { 10 }) {
            0 => Y::I,
            1 => Y::B,
            2 => Y::S,
            3 => Y::L,
            4 => Y::V,
            5 => Y::O(bx(self.ty(d - 1))),
            6 => Y::P(bx(self.ty(d - 1)), bx(self.ty(d - 1))),
            7 => Y::T(bx(self.ty(d - 1))),
            _ => Y::F(bx(self.ty(d - 1)), bx(self.ty(d - 1))),
        }
    }

    fn data(&mut self, d: usize) -> Y {
        match self.r.below(6) {
            0 | 1 => Y::L,
            2 => Y::V,
            3 => Y::O(bx(self.ty(d))),
            4 => Y::P(bx(self.ty(d)), bx(self.ty(d))),
            _ => Y::T(bx(self.ty(d))),
        }
    }

    fn fresh(&mut self) -> String {
        // a few names only, so that shadowing happens
        if self.r.chance(15) && self.next > 0 {
            return format!("v{}", self.r.below(self.next));
        }
        self.next += 1;
        format!("v{}", self.next - 1)
    }

    fn bound<R>(&mut self, name: String, ty: VT, f: impl FnOnce(&mut Self) -> R) -> R {
        let old = self.vars.clone();
        self.vars.retain(|v| v.name != name);
        self.vars.push(Var { name, ty });
        let x = f(self);
        self.vars = old;
        x
    }

    fn pick_var(&mut self, f: impl Fn(&VT) -> bool) -> Option<String> {
        let c: Vec<&str> = self.vars.iter().filter(|v| f(&v.ty)).map(|v| v.name.as_str()).collect();
        if c.is_empty() {
            return None;
        }
        // inner ones more often
        let k = c.len() - 1 - (self.r.below(c.len()) * self.r.below(c.len()) / c.len()).min(c.len() - 1);
        Some(c[k].to_owned())
    }

    fn slip(&mut self, y: &Y) -> Y {
        if self.r.below(1000) < self.slips as usize {
            self.ty(1)
        } else {
            y.clone()
        }
    }

    fn literal(&mut self, y: &Y) -> String {
        match y {
            Y::I => format!("{}", *self.r.pick(&[0u64, 1, 2, 7, 255, 18446744073709551615])),
            Y::B => if self.r.chance(50) { "true" } else { "false" }.into(),
            Y::S => (*self.r.pick(&["\"\"", "\"a\"", "\"é\""])).to_owned(),
            Y::F(_, b) => {
                let n = self.fresh();
                let a = match y {
                    Y::F(a, _) => (**a).clone(),
                    _ => unreachable!(),
                };
                let b = (**b).clone();
                let e = self.bound(n.clone(), VT::Plain(a), |g| g.literal(&b));
                format!("(\\{} -> {})", n, e)
            }
            y => {
                let c = ctors(y);
                let (n, f) = c[0].clone();
                let mut s = n.to_owned();
                for f in f {
                    s += " ";
                    s += &match f {
                        None => self.literal(y),
                        Some(t) => self.literal(&t),
                    };
                }
                if s.contains(' ') { format!("({})", s) } else { s }
            }
        }
    }

    fn folded(&mut self, d: &Y, res: &Y, depth: usize) -> Option<String> {
        let loose = self.slips > 0 && self.r.chance(if self.mixed { 40 } else { 12 });
        let v = self.pick_var(|t| matches!(t, VT::Folded(a, b) if a == d && (loose || b == res)))?;
        if depth == 0 || self.r.chance(if self.mixed { 20 } else { 45 }) {
            return Some(v);
        }
        Some(match self.r.below(6) {
            0 | 1 => {
                let c = self.expr(&Y::B, depth - 1);
                let b = self.folded(d, res, depth - 1)?;
                if self.r.chance(50) {
                    format!("(if {} then {} else {})", c, v, b)
                } else {
                    format!("(if {} then {} else {})", c, b, v)
                }
            }
            2 => {
                let n = self.fresh();
                let rest = {
                    let (d2, r2) = (d.clone(), res.clone());
                    let (d3, r3) = (d.clone(), res.clone());
                    self.bound(n.clone(), VT::Folded(d2, r2), |g| g.folded(&d3, &r3, depth - 1))?
                };
                format!("(let {} = {}; {})", n, v, rest)
            }
            3 => format!("((\\z -> z) {})", v),
            4 => {
                let o = self.expr(&Y::O(bx(Y::I)), depth - 1);
                let b = self.folded(d, res, depth - 1)?;
                format!("(match {} with | No -> {} | So _ -> {} end)", o, v, b)
            }
            _ => {
                if let Some(f) = self.pick_var(|t| matches!(t, VT::Id)) {
                    format!("({} {})", f, v)
                } else {
                    format!("({} |> (\\z -> z))", v)
                }
            }
        })
    }

    fn some_folded(&mut self) -> Option<Y> {
        let c: Vec<Y> = self.vars.iter().filter_map(|v| match &v.ty {
            VT::Folded(a, _) => Some(a.clone()),
            _ => None,
        }).collect();
        if c.is_empty() { None } else { Some(self.r.pick(&c).clone()) }
    }

    fn matching(&mut self, y: &Y, depth: usize) -> String {
        // a folded value, or plain data
        let folded: Vec<(Y, Y)> = self.vars.iter().filter_map(|v| match &v.ty {
            VT::Folded(a, b) => Some((a.clone(), b.clone())),
            _ => None,
        }).collect();
        let mut d;
        let mut rec;
        let mut discr = None;
        if !folded.is_empty() && self.r.chance(65) {
            let (a, b) = self.r.pick(&folded).clone();
            d = a;
            rec = b;
            discr = self.folded(&d, &rec, depth.min(2));
        } else {
            d = self.data(1);
            rec = d.clone();
        }
        let discr = match discr {
            Some(e) => e,
            None => {
                if !folded.is_empty() {
                    d = self.data(1);
                    rec = d.clone();
                }
                self.expr(&d.clone(), depth - 1)
            }
        };
        let mut cs = ctors(&d);
        if self.slips > 0 && self.r.below(1000) < self.slips as usize {
            cs.pop();
        }
        if self.r.chance(40) {
            self.r.shuffle(&mut cs);
        }
        let mut s = format!("(match {} with", discr);
        for (n, fs) in cs {
            s += &format!(" | {}", n);
            let old = self.vars.clone();
            let mut mine: Vec<String> = vec![];
            for f in fs {
                let mut v = self.fresh();
                while mine.contains(&v) {
                    self.next += 1;
                    v = format!("v{}", self.next - 1);
                }
                s += &format!(" {}", v);
                self.vars.retain(|x| x.name != v);
                self.vars.push(Var { name: v.clone(), ty: VT::Plain(f.unwrap_or(rec.clone())) });
                mine.push(v);
            }
            s += &format!(" -> {}", self.expr(y, depth - 1));
            self.vars = old;
        }
        s + " end)"
    }

    fn lambda(&mut self, a: &Y, b: &Y, depth: usize) -> String {
        let n = self.fresh();
        if !ctors(a).is_empty() && self.r.chance(55) {
            let m = n.clone();
            let e = self.bound(n, VT::Folded(a.clone(), b.clone()), |g| if g.r.chance(75) { g.matching(b, depth.max(1)) } else { g.expr(b, depth) });
            return format!("(\\fold {} -> {})", m, e);
        }
        let m = n.clone();
        let e = self.bound(n, VT::Plain(a.clone()), |g| g.expr(b, depth));
        format!("(\\{} -> {})", m, e)
    }

    pub fn expr(&mut self, y: &Y, depth: usize) -> String {
        let y = &self.slip(y);
        self.budget -= 1;
        if self.slips > 0 && self.r.below(1000) < self.slips as usize {
            // a folded value where the data itself is needed
            if let Some(v) = self.pick_var(|t| matches!(t, VT::Folded(a, _) if a == y)) {
                return v;
            }
        }
        if self.holes && self.r.below(100) < 2 {
            return format!("?h{}", self.r.below(3));
        }
        if depth == 0 || self.budget < 0 {
            if self.r.chance(80) {
                if let Some(v) = self.pick_var(|t| matches!(t, VT::Plain(x) if x == y)) {
                    return v;
                }
            }
            return self.literal(y);
        }
        let d = depth - 1;
        let form = if self.mixed && self.r.chance(30) { *self.r.pick(&[4, 6, 10]) } else { self.r.below(15) };
        match form {
            0 | 1 => match self.pick_var(|t| matches!(t, VT::Plain(x) if x == y)) {
                Some(v) => v,
                None => self.expr(y, d),
            },
            2 => {
                // a function that ends in this type
                let fs: Vec<(String, Y)> = self.vars.iter().filter_map(|v| match &v.ty {
                    VT::Plain(Y::F(a, b)) if **b == *y => Some((v.name.clone(), (**a).clone())),
                    _ => None,
                }).collect();
                if fs.is_empty() {
                    return self.expr(y, d);
                }
                let (f, a) = self.r.pick(&fs).clone();
                let x = self.expr(&a, d);
                if self.r.chance(30) { format!("({} |> {})", x, f) } else { format!("({} {})", f, x) }
            }
            3 => format!("(if {} then {} else {})", self.expr(&Y::B, d), self.expr(y, d), self.expr(y, d)),
            4 | 5 => self.matching(y, depth),
            6 | 7 => {
                let t = if self.r.chance(40) { Y::F(bx(self.data(0)), bx(self.ty(1))) } else { self.ty(1) };
                let v = self.expr(&t, d);
                let n = self.fresh();
                let a = if self.r.chance(35) { let t = self.slip(&t); format!(" : {}", show(&t, false)) } else { String::new() };
                let m = n.clone();
                let rest = self.bound(n, VT::Plain(t), |g| g.expr(y, d));
                format!("(let {}{} = {}; {})", m, a, v, rest)
            }
            8 => {
                // a polymorphic local function
                let n = self.fresh();
                let (t, k, e) = match self.r.below(3) {
                    0 => ("a -> a", VT::Id, "\\z -> z"),
                    1 => ("a -> b -> a", VT::Const, "\\z -> \\w -> z"),
                    _ => ("(a -> b) -> a -> b", VT::App, "\\z -> \\w -> z w"),
                };
                let t = if self.r.below(1000) < self.slips as usize * 3 { "a -> b -> b" } else { t };
                let m = n.clone();
                let rest = self.bound(n, k, |g| g.expr(y, d));
                format!("(let {} : {} = {}; {})", m, t, e, rest)
            }
            9 => {
                // use of one of those
                let vs: Vec<Var> = self.vars.iter().filter(|v| matches!(v.ty, VT::Id | VT::Const | VT::App)).cloned().collect();
                if vs.is_empty() {
                    return self.expr(y, d);
                }
                let v = self.r.pick(&vs).clone();
                match v.ty {
                    VT::Id => format!("({} {})", v.name, self.expr(y, d)),
                    VT::Const => {
                        let o = self.ty(1);
                        format!("({} {} {})", v.name, self.expr(y, d), self.expr(&o, d))
                    }
                    _ => {
                        let o = self.ty(1);
                        format!("({} {} {})", v.name, self.expr(&Y::F(bx(o.clone()), bx(y.clone())), d), self.expr(&o, d))
                    }
                }
            }
            10 => {
                // a redex
                let a = match self.some_folded() {
                    Some(a) if self.mixed && self.r.chance(80) => a,
                    _ => if self.r.chance(50) { self.data(0) } else { self.ty(1) },
                };
                let f = self.lambda(&a, y, d);
                let x = self.expr(&a, d);
                if self.r.chance(30) { format!("({} |> {})", x, f) } else { format!("({} {})", f, x) }
            }
            _ => self.intro(y, d),
        }
    }

    fn intro(&mut self, y: &Y, d: usize) -> String {
        match y {
            Y::I => {
                let o = *self.r.pick(&["+", "-", "*", "/", "%"]);
                format!("({} {} {})", self.expr(&Y::I, d), o, self.expr(&Y::I, d))
            }
            Y::B => {
                let o = *self.r.pick(&["<", "<=", ">", ">=", "==", "!="]);
                format!("({} {} {})", self.expr(&Y::I, d), o, self.expr(&Y::I, d))
            }
            Y::S => self.literal(y),
            Y::F(a, b) => {
                // a constructor that waits for arguments, sometimes
                if self.r.chance(15) {
                    for (n, fs) in ctors(b) {
                        if fs.len() == 1 && fs[0].as_ref() == Some(&**a) {
                            return n.to_owned();
                        }
                        if fs.len() == 2 && fs[1].clone().unwrap_or((**b).clone()) == **a {
                            let f = fs[0].clone().unwrap_or((**b).clone());
                            return format!("({} {})", n, self.expr(&f, d));
                        }
                    }
                }
                self.lambda(a, b, d)
            }
            y => {
                let cs = ctors(y);
                let (n, fs) = self.r.pick(&cs).clone();
                if fs.is_empty() {
                    return n.to_owned();
                }
                let mut s = format!("({}", n);
                for f in fs {
                    s += " ";
                    s += &self.expr(&f.unwrap_or(y.clone()), d);
                }
                s + ")"
            }
        }
    }
}

impl<'a> Gen<'a> {
    /// A term over whatever is in scope, without regard to types.
    fn untyped(&mut self, depth: usize, names: &mut Vec<String>) -> String {
        self.budget -= 1;
        if depth == 0 || self.budget < 0 || (!names.is_empty() && self.r.chance(20)) {
            if !names.is_empty() && self.r.chance(85) {
                let k = names.len() - 1 - self.r.below(names.len().min(4));
                return names[k].clone();
            }
            return (*self.r.pick(&["0", "true", "\"s\"", "N", "C", "No", "So", "P", "E", "D", "U", "W", "X"])).to_owned();
        }
        let d = depth - 1;
        match self.r.below(16) {
            0 | 1 | 2 => format!("({} {})", self.untyped(d, names), self.untyped(d, names)),
            3 | 4 => format!("({} |> {})", self.untyped(d, names), self.untyped(d, names)),
            5 | 6 | 7 => {
                let n = self.fresh();
                names.push(n.clone());
                let fold = if self.r.chance(30) { "fold " } else { "" };
                let e = self.untyped(d, names);
                names.pop();
                format!("(\\{}{} -> {})", fold, n, e)
            }
            8 | 9 => {
                let n = self.fresh();
                let v = self.untyped(d, names);
                names.push(n.clone());
                let e = self.untyped(d, names);
                names.pop();
                let a = if self.r.chance(15) { format!(" : {}", *self.r.pick(&["a -> a", "a -> b -> a", "L", "int", "O a", "P a b -> a", "a -> P a a", "T (a -> a)", "(a -> b) -> a -> b"])) } else { String::new() };
                format!("(let {}{} = {}; {})", n, a, v, e)
            }
            10 => format!("(if {} then {} else {})", self.untyped(d, names), self.untyped(d, names), self.untyped(d, names)),
            11 => format!("({} {} {})", self.untyped(d, names), *self.r.pick(&["+", "<", "==", "%"]), self.untyped(d, names)),
            12 => format!("(P {} {})", self.untyped(d, names), self.untyped(d, names)),
            13 => format!("({} {})", *self.r.pick(&["So", "W", "C 1", "D E", "X 0"]), self.untyped(d, names)),
            _ => {
                let of: Vec<(&str, usize)> = match self.r.below(5) {
                    0 => vec![("N", 0), ("C", 2)],
                    1 => vec![("No", 0), ("So", 1)],
                    2 => vec![("P", 2)],
                    3 => vec![("E", 0), ("D", 3)],
                    _ => vec![("U", 0), ("W", 1), ("X", 2)],
                };
                let mut s = format!("(match {} with", self.untyped(d, names));
                for (c, n) in of {
                    s += &format!(" | {}", c);
                    let depth = names.len();
                    for _ in 0..n {
                        self.next += 1;
                        let v = format!("v{}", self.next - 1);
                        s += &format!(" {}", v);
                        names.push(v);
                    }
                    s += &format!(" -> {}", self.untyped(d, names));
                    names.truncate(depth);
                }
                s + " end)"
            }
        }
    }
}

/// The text of a module. `slips`: slips of the types per thousand expressions.
pub fn module(r: &mut Rng, slips: u64, holes: bool) -> String {
    let mut s = String::from(PREAMBLE);
    let mixed = r.chance(35);
    // the mixture is the slip then
    let slips = if mixed && slips > 0 { 1 } else { slips };
    let mut g = Gen { r, slips, holes, mixed, vars: vec![], next: 0, budget: 0 };
    let n = g.r.range(1, 4);
    for k in 0..n {
        if slips > 0 && g.r.chance(30) {
            g.budget = g.r.range(4, 22) as i32;
            let depth = g.r.range(2, 7);
            let mut names: Vec<String> = g.vars.iter().map(|v| v.name.clone()).collect();
            let e = g.untyped(depth, &mut names);
            // its type is not known: nothing else uses it
            s += &format!("export let u{} = {};\n", k, e);
            continue;
        }
        let y = if mixed && g.r.chance(80) {
            let (d, t) = (g.data(0), g.ty(0));
            Y::F(bx(d.clone()), if g.r.chance(60) { bx(Y::F(bx(d), bx(t))) } else { bx(t) })
        } else if g.r.chance(60) { Y::F(bx(g.data(1)), bx(g.ty(1))) } else { g.ty(1) };
        g.budget = g.r.range(10, 70) as i32;
        let depth = g.r.range(2, 6) as usize;
        let e = g.expr(&y, depth);
        let name = format!("t{}", k);
        let a = if g.r.chance(70) { let y = g.slip(&y); format!(" : {}", show(&y, false)) } else { String::new() };
        s += &format!("export let {}{} = {};\n", name, a, e);
        g.vars.push(Var { name, ty: VT::Plain(y) });
    }
    s
}
