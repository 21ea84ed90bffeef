//! P20: functions of the standard modules against native models.
use crate::backend::{bytes, int, show, str_expr};
use crate::cut::{self, Out, RUNNERS};
use crate::driver::Ctx;
use crate::rng::Rng;
use crate::util::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
enum T {
    Int,
    Str,
    Bool,
    PErr,
    List(Box<T>),
    Opt(Box<T>),
    Res(Box<T>, Box<T>),
    Arr(Box<T>),
}
use T::*;

#[derive(Clone, PartialEq, Debug)]
enum V {
    I(u64),
    S(Vec<u8>),
    B(bool),
    E,
    L(Vec<V>),
    O(Option<Box<V>>),
    R(Result<Box<V>, Box<V>>),
    /// size, initial value, changed elements
    A(u64, Option<Box<V>>, BTreeMap<u64, V>),
}

impl V {
    fn i(&self) -> u64 {
        if let V::I(x) = self { *x } else { unreachable!() }
    }
    fn s(&self) -> &[u8] {
        if let V::S(x) = self { x } else { unreachable!() }
    }
    fn b(&self) -> bool {
        if let V::B(x) = self { *x } else { unreachable!() }
    }
    fn l(&self) -> &[V] {
        if let V::L(x) = self { x } else { unreachable!() }
    }
    fn o(&self) -> Option<V> {
        if let V::O(x) = self { x.as_ref().map(|x| (**x).clone()) } else { unreachable!() }
    }
    fn r(&self) -> Result<V, V> {
        if let V::R(x) = self { x.clone().map(|x| *x).map_err(|x| *x) } else { unreachable!() }
    }
    fn weight(&self) -> usize {
        match self {
            V::S(s) => 1 + s.len() / 2,
            V::L(l) => 1 + l.iter().map(|x| 1 + x.weight()).sum::<usize>(),
            V::O(Some(x)) => 1 + x.weight(),
            V::R(Ok(x) | Err(x)) => 1 + x.weight(),
            V::A(_, d, m) => 8 + d.as_ref().map_or(0, |d| d.weight()) + m.values().map(|x| x.weight() + 4).sum::<usize>(),
            _ => 1,
        }
    }
}

fn opt(x: Option<V>) -> V {
    V::O(x.map(Box::new))
}
fn res(x: Result<V, V>) -> V {
    V::R(x.map(Box::new).map_err(Box::new))
}

fn ty(t: &T) -> String {
    match t {
        Int => "int".into(),
        Str => "string".into(),
        Bool => "bool".into(),
        PErr => "ParseErr".into(),
        List(a) => format!("(List {})", ty(a)),
        Opt(a) => format!("(Option {})", ty(a)),
        Res(a, b) => format!("(Result {} {})", ty(a), ty(b)),
        Arr(a) => format!("(Array {})", ty(a)),
    }
}

fn print(v: &V, atom: bool) -> String {
    let app = |s: String| if atom { format!("({})", s) } else { s };
    match v {
        V::I(x) => x.to_string(),
        V::S(s) => show(s),
        V::B(b) => b.to_string(),
        V::E => "ParseErr".into(),
        V::L(l) => match l.split_first() {
            None => "Nil".into(),
            Some(_) => {
                let mut s = String::new();
                for (k, x) in l.iter().enumerate() {
                    if k > 0 || atom {
                        s.push('(');
                    }
                    s += &format!("Cons {} ", print(x, true));
                }
                s += "Nil";
                s += &")".repeat(l.len() - usize::from(!atom));
                s
            }
        },
        V::O(None) => "None".into(),
        V::O(Some(x)) => app(format!("Some {}", print(x, true))),
        V::R(Ok(x)) => app(format!("Ok {}", print(x, true))),
        V::R(Err(x)) => app(format!("Err {}", print(x, true))),
        V::A(..) => unreachable!(),
    }
}

type F1 = Rc<dyn Fn(&V) -> V>;
type F2 = Rc<dyn Fn(&V, &V) -> V>;

struct G<'a> {
    r: &'a mut Rng,
    used: Vec<&'static str>,
}

type X = (String, V);

fn bit(f: fn(u64, u64) -> u64) -> impl Fn(u64, u64) -> u64 {
    f
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn lines(s: &[u8]) -> Vec<V> {
    let mut out = vec![];
    let mut rest = s;
    while let Some(k) = rest.iter().position(|&c| c == 10) {
        let line = &rest[..k];
        out.push(V::S(line.strip_suffix(b"\r").unwrap_or(line).to_vec()));
        rest = &rest[k + 1..];
    }
    if !rest.is_empty() {
        out.push(V::S(rest.to_vec()));
    }
    out
}

fn trim(s: &[u8]) -> Vec<u8> {
    let a = s.iter().take_while(|&&c| c == 32).count();
    let b = s[a..].iter().rev().take_while(|&&c| c == 32).count();
    s[a..s.len() - b].to_vec()
}

impl G<'_> {
    fn u(&mut self, name: &'static str) -> &'static str {
        self.used.push(name);
        name
    }

    fn ty(&mut self, d: usize) -> T {
        if d == 0 {
            return match self.r.below(5) {
                0 => Str,
                1 => Bool,
                _ => Int,
            };
        }
        match self.r.below(8) {
            0 | 1 => Int,
            2 => Str,
            3 | 4 | 5 => List(Box::new(self.ty(d - 1))),
            6 => Opt(Box::new(self.ty(d - 1))),
            _ => Res(Box::new(self.ty(d - 1)), Box::new(self.ty(0))),
        }
    }

    fn small(&mut self) -> u64 {
        match self.r.below(8) {
            0 => self.r.below(300) as u64,
            _ => self.r.below(9) as u64,
        }
    }

    fn text(&mut self) -> Vec<u8> {
        match self.r.below(6) {
            0 => bytes(self.r),
            1 => {
                let n = self.r.below(8);
                (0..n).map(|_| *self.r.pick(b"  a\n\r,;")).collect()
            }
            2 => {
                let n = self.r.below(30);
                let alphabet: &[u8] = [&b"a\n\r"[..], b" a", b",,x", b"\n", b" ", b"0123456789"][self.r.below(6)];
                (0..n).map(|_| *self.r.pick(alphabet)).collect()
            }
            3 => int(self.r).to_string().into_bytes(),
            _ => {
                let n = self.r.below(6);
                (0..n).map(|_| *self.r.pick(b"abc ,")).collect()
            }
        }
    }

    /// An array without a length that would take long to list.
    fn lit(&mut self, t: &T) -> X {
        match t {
            Int => {
                let x = if self.r.chance(75) { self.small() } else { int(self.r) };
                (x.to_string(), V::I(x))
            }
            Str => {
                let s = self.text();
                (str_expr(self.r, &s), V::S(s))
            }
            Bool => {
                let b = self.r.chance(50);
                (b.to_string(), V::B(b))
            }
            PErr => ("ParseErr".into(), V::E),
            List(a) => {
                let n = if matches!(**a, Int | Bool) && self.r.chance(15) { self.r.range(10, 40) } else { self.r.below(6) };
                let xs: Vec<X> = (0..n).map(|_| self.lit(a)).collect();
                let mut text = "Nil".to_owned();
                for x in xs.iter().rev() {
                    text = format!("(Cons {} {})", x.0, text);
                }
                (text, V::L(xs.into_iter().map(|x| x.1).collect()))
            }
            Opt(a) => {
                if self.r.chance(25) {
                    return ("None".into(), opt(None));
                }
                let x = self.lit(a);
                (format!("(Some {})", x.0), opt(Some(x.1)))
            }
            Res(a, b) => {
                if self.r.chance(30) {
                    let x = self.lit(b);
                    return (format!("(Err {})", x.0), res(Err(x.1)));
                }
                let x = self.lit(a);
                (format!("(Ok {})", x.0), res(Ok(x.1)))
            }
            Arr(a) => {
                let n = match self.r.below(9) {
                    0 => int(self.r),
                    1 => *self.r.pick(&[0, 1, 3, 4, 5, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025]),
                    _ => self.small(),
                };
                let x = self.lit(a);
                (format!("({} {} {})", self.u("arr.new"), n, x.0), V::A(n, Some(Box::new(x.1)), BTreeMap::new()))
            }
        }
    }

    fn f1(&mut self, a: &T, b: &T, d: usize) -> (String, F1) {
        let k = self.small();
        match (a, b, self.r.below(6)) {
            (Int, Int, 0) => (format!("(\\x -> x * 3 + {})", k), Rc::new(move |x| V::I(x.i().wrapping_mul(3).wrapping_add(k)))),
            (Int, Int, 1) => (format!("(\\x -> x % 7 - {})", k), Rc::new(move |x| V::I((x.i() % 7).wrapping_sub(k)))),
            (Int, Int, 2) => (format!("({} {})", self.u("ii.max"), k), Rc::new(move |x| V::I(x.i().max(k)))),
            (Int, Bool, 0 | 1) => (format!("(\\x -> x % 3 == {})", k % 4), Rc::new(move |x| V::B(x.i() % 3 == k % 4))),
            (Int, Bool, 2 | 3) => (format!("(\\x -> x > {})", k), Rc::new(move |x| V::B(x.i() > k))),
            (Int, Str, 0..=3) => (self.u("ii.toString").into(), Rc::new(|x| V::S(x.i().to_string().into_bytes()))),
            (Int, Str, _) => (self.u("ss.fromChar").into(), Rc::new(|x| V::S(vec![x.i() as u8]))),
            (Str, Int, 0..=3) => (self.u("ss.length").into(), Rc::new(|x| V::I(x.s().len() as u64))),
            (Str, Bool, 0..=2) => {
                let (t, v) = self.lit(&Str);
                (format!("({} {})", self.u("ss.startsWith"), t), Rc::new(move |x| V::B(x.s().starts_with(v.s()))))
            }
            (Str, Str, 0..=2) => (self.u("ss.trim").into(), Rc::new(|x| V::S(trim(x.s())))),
            (Str, Str, 3) => {
                let (t, v) = self.lit(&Str);
                (format!("({} {})", self.u("ss.concat"), t), Rc::new(move |x| V::S([v.s(), x.s()].concat())))
            }
            (List(_), Int, 0..=3) => (self.u("ll.length").into(), Rc::new(|x| V::I(x.l().len() as u64))),
            (List(x), List(y), 0..=2) if x == y => (self.u("ll.reverse").into(), Rc::new(|x| V::L(x.l().iter().rev().cloned().collect()))),
            (x, Opt(y), 0..=3) if x == &**y => ("Some".into(), Rc::new(|x| opt(Some(x.clone())))),
            (x, Res(y, _), 0..=3) if x == &**y => ("Ok".into(), Rc::new(|x| res(Ok(x.clone())))),
            (Int, List(y), 0..=3) => {
                let (t, v) = self.lit(y);
                (format!("(\\x -> {} (x % 4) {})", self.u("ll.repeat"), t), Rc::new(move |x| V::L(vec![v.clone(); (x.i() % 4) as usize])))
            }
            (Int, Opt(_) | Res(..), _) if d > 0 => {
                let (p, q) = (self.lit(b), self.f1(a, b, d - 1));
                (format!("(\\x -> if x % 2 == 0 then {} else {} x)", p.0, q.0), Rc::new(move |x| if x.i() % 2 == 0 { p.1.clone() } else { q.1(x) }))
            }
            (x, y, 0..=4) if x == y => ("(\\x -> x)".into(), Rc::new(|x| x.clone())),
            _ => {
                let (t, v) = self.lit(b);
                (format!("(\\x -> {})", t), Rc::new(move |_| v.clone()))
            }
        }
    }

    /// Whether the order decides between all different values is the third part.
    fn less(&mut self) -> (String, F2, bool) {
        match self.r.below(5) {
            0 | 1 => ("(\\p -> \\q -> p < q)".into(), Rc::new(|p, q| V::B(p.i() < q.i())), true),
            2 => ("(\\p -> \\q -> p > q)".into(), Rc::new(|p, q| V::B(p.i() > q.i())), true),
            _ => ("(\\p -> \\q -> p % 7 < q % 7)".into(), Rc::new(|p, q| V::B(p.i() % 7 < q.i() % 7)), false),
        }
    }

    fn f2(&mut self, a: &T, b: &T, c: &T, d: usize) -> (String, F2) {
        match (a, b, c, self.r.below(4)) {
            (Int, Int, Int, 0) => ("(\\x -> \\y -> x * 31 + y)".into(), Rc::new(|x, y| V::I(x.i().wrapping_mul(31).wrapping_add(y.i())))),
            (Int, Int, Int, 1) => (self.u("ii.min").into(), Rc::new(|x, y| V::I(x.i().min(y.i())))),
            (Int, Int, Int, _) => ("(\\x -> \\y -> x - y)".into(), Rc::new(|x, y| V::I(x.i().wrapping_sub(y.i())))),
            (Str, Str, Str, _) => (self.u("ss.concat").into(), Rc::new(|x, y| V::S([x.s(), y.s()].concat()))),
            (List(p), q, List(s), 0..=2) if p == s && q == &**p => ("(\\x -> \\y -> Cons y x)".into(), Rc::new(|x, y| {
                let mut l = vec![y.clone()];
                l.extend(x.l().iter().cloned());
                V::L(l)
            })),
            (p, List(q), List(s), 0..=2) if q == s && p == &**q => ("Cons".into(), Rc::new(|x, y| {
                let mut l = vec![x.clone()];
                l.extend(y.l().iter().cloned());
                V::L(l)
            })),
            (_, _, _, 0 | 1) => {
                let f = self.f1(a, c, d);
                (format!("(\\x -> \\y -> {} x)", f.0), Rc::new(move |x, _| f.1(x)))
            }
            _ => {
                let f = self.f1(b, c, d);
                (format!("(\\x -> \\y -> {} y)", f.0), Rc::new(move |_, y| f.1(y)))
            }
        }
    }

    fn gen(&mut self, t: &T, d: usize) -> X {
        if d == 0 || self.r.chance(8) {
            let mut x = self.lit(t);
            if self.r.chance(15) {
                x.0 = format!("(hide {})", x.0);
            }
            return x;
        }
        for _ in 0..4 {
            let n = self.used.len();
            if let Some((text, v)) = self.apply(t, d) {
                if v.weight() < 260 && text.len() < 3000 {
                    return (format!("({})", text), v);
                }
            }
            self.used.truncate(n);
        }
        self.lit(t)
    }

    fn list(&mut self, a: &T, d: usize) -> (String, Vec<V>) {
        let (t, v) = self.gen(&List(Box::new(a.clone())), d - 1);
        (t, v.l().to_vec())
    }

    fn arr(&mut self, a: &T, d: usize) -> (String, u64, Option<V>, BTreeMap<u64, V>) {
        let (t, v) = self.gen(&Arr(Box::new(a.clone())), d - 1);
        match v {
            V::A(n, x, m) => (t, n, x.map(|x| *x), m),
            _ => unreachable!(),
        }
    }

    fn apply(&mut self, t: &T, d: usize) -> Option<X> {
        if self.r.chance(25) {
            return Some(self.any(t, d));
        }
        let e = d - 1;
        Some(match t {
            PErr => ("ParseErr".into(), V::E),
            Int => match self.r.below(17) {
                0 => {
                    let l = self.list(&Int, d);
                    (format!("{} {}", self.u("ll.sum"), l.0), V::I(l.1.iter().fold(0, |a, x| a.wrapping_add(x.i()))))
                }
                1 => {
                    let l = self.list(&Int, d);
                    (format!("{} {}", self.u("ll.product"), l.0), V::I(l.1.iter().fold(1, |a, x| a.wrapping_mul(x.i()))))
                }
                2 => {
                    let a = self.ty(1);
                    let l = self.list(&a, d);
                    (format!("{} {}", self.u("ll.length"), l.0), V::I(l.1.len() as u64))
                }
                3 => {
                    let s = self.gen(&Str, e);
                    (format!("{} {}", self.u("ss.length"), s.0), V::I(s.1.s().len() as u64))
                }
                4 => {
                    let (i, s) = (self.gen(&Int, e.min(1)), self.gen(&Str, e));
                    let c = s.1.s().get(usize::try_from(i.1.i()).unwrap_or(usize::MAX)).copied().unwrap_or(0);
                    (format!("{} {} {}", self.u("ss.charAt"), i.0, s.0), V::I(c as u64))
                }
                5..=9 => {
                    let (name, f): (_, Box<dyn Fn(u64, u64) -> u64>) = match self.r.below(7) {
                        0 => ("ii.min", Box::new(bit(|a, b| a.min(b)))),
                        1 => ("ii.max", Box::new(bit(|a, b| a.max(b)))),
                        2 => ("ii.gcd", Box::new(gcd)),
                        3 => ("ii.lcm", Box::new(|a, b| a.checked_div(gcd(a, b)).unwrap_or(0).wrapping_mul(b))),
                        4 => ("ii.bitXor", Box::new(bit(|a, b| a ^ b))),
                        5 => ("ii.bitAnd", Box::new(bit(|a, b| a & b))),
                        _ => ("ii.bitOr", Box::new(bit(|a, b| a | b))),
                    };
                    let wide = |g: &mut Self| {
                        if g.r.chance(60) {
                            let x = match g.r.below(8) {
                                // neighbours in the sequence that takes the most steps
                                0 => {
                                    let (mut a, mut b) = (0u64, 1u64);
                                    for _ in 0..g.r.range(60, 92) {
                                        (a, b) = (b, a + b);
                                    }
                                    a
                                }
                                1 => int(g.r) / 6 * 6,
                                _ => int(g.r),
                            };
                            (x.to_string(), V::I(x))
                        } else {
                            g.gen(&Int, e)
                        }
                    };
                    let (a, b) = (wide(self), wide(self));
                    (format!("{} {} {}", self.u(name), a.0, b.0), V::I(f(a.1.i(), b.1.i())))
                }
                10 => {
                    let a = self.ty(0);
                    let x = self.arr(&a, d);
                    (format!("{} {}", self.u("arr.length"), x.0), V::I(x.1))
                }
                11 => {
                    let s = self.gen(&Str, e);
                    (format!("{} 7 (\\a -> \\c -> a * 31 + c) {}", self.u("ss.foldChars"), s.0), V::I(s.1.s().iter().fold(7u64, |a, &c| a.wrapping_mul(31).wrapping_add(c as u64))))
                }
                12 | 13 => {
                    // ties: only what does not depend on which of them wins
                    let l = self.list(&Int, d);
                    let (lt, lf, _) = self.less();
                    let best = |max: bool| l.1.iter().cloned().reduce(|a, b| if lf(&a, &b).b() == max { b } else { a });
                    let (name, v) = if self.r.chance(50) { ("ll.maxBy", best(true)) } else {
                        ("ll.minBy", l.1.iter().cloned().reduce(|a, b| if lf(&b, &a).b() { b } else { a }))
                    };
                    (format!("{} 99 ({} (\\x -> x % 7) ({} {} {}))", self.u("op.unwrapOr"), self.u("op.map"), self.u(name), lt, l.0), V::I(v.map_or(99, |v| v.i() % 7)))
                }
                _ => {
                    let (a, b) = (self.gen(&Int, e), self.gen(&Int, e));
                    (format!("{} + {}", a.0, b.0), V::I(a.1.i().wrapping_add(b.1.i())))
                }
            },
            Bool => match self.r.below(8) {
                0 => {
                    let l = self.list(&Bool, d);
                    (format!("{} {}", self.u("ll.any"), l.0), V::B(l.1.iter().any(|x| x.b())))
                }
                1 => {
                    let l = self.list(&Bool, d);
                    (format!("{} {}", self.u("ll.all"), l.0), V::B(l.1.iter().all(|x| x.b())))
                }
                2 => {
                    let a = self.ty(0);
                    let x = self.gen(&Opt(Box::new(a)), e);
                    (format!("{} {}", self.u("op.isSome"), x.0), V::B(x.1.o().is_some()))
                }
                3 => {
                    let a = self.ty(0);
                    let x = self.gen(&Opt(Box::new(a)), e);
                    (format!("{} {}", self.u("op.isNone"), x.0), V::B(x.1.o().is_none()))
                }
                4 | 5 => {
                    let a = self.gen(&Str, e);
                    let b = self.near(&a.1, e);
                    (format!("{} {} {}", self.u("ss.equal"), a.0, b.0), V::B(a.1 == b.1))
                }
                6 => {
                    let s = self.gen(&Str, e);
                    let p = self.near(&s.1, e);
                    let (p, s) = if self.r.chance(50) { (p, s) } else { (s, p) };
                    (format!("{} {} {}", self.u("ss.startsWith"), p.0, s.0), V::B(s.1.s().starts_with(p.1.s())))
                }
                _ => {
                    let (a, b) = (self.gen(&Int, e), self.gen(&Int, e));
                    (format!("{} <= {}", a.0, b.0), V::B(a.1.i() <= b.1.i()))
                }
            },
            Str => match self.r.below(9) {
                0 | 1 => {
                    let (s, l) = (self.gen(&Str, e), self.list(&Str, d));
                    let parts: Vec<&[u8]> = l.1.iter().map(|x| x.s()).collect();
                    (format!("{} {} {}", self.u("ll.join"), s.0, l.0), V::S(parts.join(s.1.s())))
                }
                2 | 3 => {
                    let s = self.gen(&Str, e);
                    let (a, b) = (" ".repeat(self.r.below(4)), " ".repeat(self.r.below(4)));
                    let padded = [a.as_bytes(), s.1.s(), b.as_bytes()].concat();
                    (format!("{} (ss.concat \"{}\" (ss.concat {} \"{}\"))", self.u("ss.trim"), a, s.0, b), V::S(trim(&padded)))
                }
                4 => {
                    let (a, b) = (self.gen(&Str, e), self.gen(&Str, e));
                    (format!("{} {} {}", self.u("ss.concat"), a.0, b.0), V::S([a.1.s(), b.1.s()].concat()))
                }
                5 => {
                    let (a, b, s) = (self.gen(&Int, e.min(1)), self.gen(&Int, e.min(1)), self.gen(&Str, e));
                    (format!("{} {} {} {}", self.u("ss.substring"), a.0, b.0, s.0), V::S(crate::backend::substring(a.1.i(), b.1.i(), s.1.s())))
                }
                6 => {
                    let a = self.gen(&Int, e);
                    (format!("{} {}", self.u("ii.toString"), a.0), V::S(a.1.i().to_string().into_bytes()))
                }
                7 => {
                    let a = self.gen(&Int, e);
                    (format!("{} {}", self.u("ss.fromChar"), a.0), V::S(vec![a.1.i() as u8]))
                }
                _ => (self.u("ss.newline").into(), V::S(vec![10])),
            },
            List(a) => self.make_list(a, d),
            Opt(a) => {
                let b = self.ty(0);
                match (&**a, self.r.below(10)) {
                    (Int, 0) => {
                        let l = self.list(&Int, d);
                        (format!("{} {}", self.u("ll.max"), l.0), opt(l.1.iter().map(|x| x.i()).max().map(V::I)))
                    }
                    (Int, 1) => {
                        let l = self.list(&Int, d);
                        (format!("{} {}", self.u("ll.min"), l.0), opt(l.1.iter().map(|x| x.i()).min().map(V::I)))
                    }
                    (List(x), 0..=3) => {
                        let l = self.list(&Opt(x.clone()), d);
                        (format!("{} {}", self.u("ll.allSome"), l.0), opt(l.1.iter().map(|x| x.o()).collect::<Option<Vec<V>>>().map(V::L)))
                    }
                    (List(x), 4..=6) => {
                        let l = self.list(x, d);
                        (format!("{} {}", self.u("ll.tail"), l.0), opt(l.1.split_first().map(|x| V::L(x.1.to_vec()))))
                    }
                    (_, 2) => {
                        let l = self.list(a, d);
                        (format!("{} {}", self.u("ll.head"), l.0), opt(l.1.first().cloned()))
                    }
                    (_, 3) => {
                        let (x, f) = (self.gen(&Opt(Box::new(b.clone())), e), self.f1(&b, a, 1));
                        (format!("{} {} {}", self.u("op.map"), f.0, x.0), opt(x.1.o().map(|x| f.1(&x))))
                    }
                    (_, 4) => {
                        let (x, f) = (self.gen(&Opt(Box::new(b.clone())), e), self.f1(&b, t, 1));
                        (format!("{} {} {}", self.u("op.andThen"), f.0, x.0), opt(x.1.o().and_then(|x| f.1(&x).o())))
                    }
                    (_, 5) => {
                        let x = self.gen(&Opt(Box::new(t.clone())), e);
                        (format!("{} {}", self.u("op.flatten"), x.0), opt(x.1.o().and_then(|x| x.o())))
                    }
                    (_, 6) => {
                        let (x, f) = (self.gen(&Opt(Box::new(b.clone())), e), self.f1(&b, a, 1));
                        let some = self.r.chance(70);
                        let g = if some { format!("(Some {})", f.0) } else { "None".into() };
                        (format!("{} {} {}", self.u("op.apply"), x.0, g), opt(x.1.o().filter(|_| some).map(|x| f.1(&x))))
                    }
                    (_, 7) => {
                        let x = self.gen(&Res(a.clone(), Box::new(b)), e);
                        (format!("{} {}", self.u("rs.ok"), x.0), opt(x.1.r().ok()))
                    }
                    (_, 8) => {
                        let x = self.gen(&Res(Box::new(b), a.clone()), e);
                        (format!("{} {}", self.u("rs.err"), x.0), opt(x.1.r().err()))
                    }
                    _ => {
                        let x = self.arr(a, d);
                        let i = if x.1 > 0 && self.r.chance(75) {
                            match self.r.below(4) {
                                0 => x.1 - 1,
                                1 if !x.3.is_empty() => *x.3.keys().nth(self.r.below(x.3.len())).unwrap(),
                                _ => self.r.next() % x.1,
                            }
                        } else {
                            *self.r.pick(&[x.1, x.1.wrapping_add(1), 0, 3, u64::MAX])
                        };
                        let v = if i < x.1 { x.3.get(&i).cloned().or(x.2) } else { None };
                        (format!("{} {} {}", self.u("arr.get"), i, x.0), opt(v))
                    }
                }
            }
            Res(a, b) => {
                let c = self.ty(0);
                match (&**a, self.r.below(8)) {
                    (Int, _) if **b == PErr => {
                        let s = match self.r.below(4) {
                            0 => self.gen(&Str, e),
                            1 => {
                                // one byte next to the digits
                                let mut s: Vec<u8> = (0..self.r.range(1, 6)).map(|_| b'0' + self.r.below(10) as u8).collect();
                                let k = self.r.below(s.len());
                                s[k] = *self.r.pick(b"/:09 -+");
                                (str_expr(self.r, &s), V::S(s))
                            }
                            2 => {
                                let s = format!("{}{}", "0".repeat(self.r.below(4)), int(self.r)).into_bytes();
                                (str_expr(self.r, &s), V::S(s))
                            }
                            _ => {
                                let n = int(self.r);
                                (format!("({} {})", self.u("ii.toString"), n), V::S(n.to_string().into_bytes()))
                            }
                        };
                        let text = s.1.s();
                        let v = if text.is_empty() || !text.iter().all(|c| c.is_ascii_digit()) {
                            Err(V::E)
                        } else {
                            // what numbers too large are read as is left open
                            Ok(V::I(String::from_utf8_lossy(text).parse().ok()?))
                        };
                        (format!("{} {}", self.u("ii.parse"), s.0), res(v))
                    }
                    (List(x), 0..=3) => {
                        let l = self.list(&Res(x.clone(), b.clone()), d);
                        (format!("{} {}", self.u("ll.allOk"), l.0), res(l.1.iter().map(|x| x.r()).collect::<Result<Vec<V>, V>>().map(V::L)))
                    }
                    (_, 4) => {
                        let (x, f) = (self.gen(&Res(Box::new(c.clone()), b.clone()), e), self.f1(&c, a, 1));
                        (format!("{} {} {}", self.u("rs.map"), f.0, x.0), res(x.1.r().map(|x| f.1(&x))))
                    }
                    (_, 5) => {
                        let (x, f) = (self.gen(&Res(a.clone(), Box::new(c.clone())), e), self.f1(&c, b, 1));
                        (format!("{} {} {}", self.u("rs.mapErr"), f.0, x.0), res(x.1.r().map_err(|x| f.1(&x))))
                    }
                    (_, 6) => {
                        let (x, f) = (self.gen(&Res(Box::new(c.clone()), b.clone()), e), self.f1(&c, t, 1));
                        (format!("{} {} {}", self.u("rs.andThen"), f.0, x.0), res(x.1.r().and_then(|x| f.1(&x).r())))
                    }
                    (_, 7) => {
                        let x = self.gen(&Res(Box::new(t.clone()), b.clone()), e);
                        (format!("{} {}", self.u("rs.flatten"), x.0), res(x.1.r().and_then(|x| x.r())))
                    }
                    (_, 0 | 1) => {
                        let (x, f) = (self.gen(&Res(Box::new(c.clone()), b.clone()), e), self.f1(&c, a, 1));
                        let (g, bad) = if self.r.chance(60) {
                            (format!("(Ok {})", f.0), None)
                        } else {
                            let y = self.lit(b);
                            (format!("(Err {})", y.0), Some(y.1))
                        };
                        let v = match bad {
                            Some(y) => Err(y),
                            None => x.1.r().map(|x| f.1(&x)),
                        };
                        (format!("{} {} {}", self.u("rs.apply"), x.0, g), res(v))
                    }
                    _ => {
                        let (y, x) = (self.gen(b, e), self.gen(&Opt(a.clone()), e));
                        (format!("{} {} {}", self.u("rs.okOr"), y.0, x.0), res(x.1.o().ok_or(y.1)))
                    }
                }
            }
            Arr(a) => match self.r.below(7) {
                0 => (self.u("arr.empty").into(), V::A(0, None, BTreeMap::new())),
                1 | 2 => {
                    let l = self.list(a, d);
                    let m: BTreeMap<u64, V> = l.1.iter().cloned().enumerate().map(|(i, x)| (i as u64, x)).collect();
                    (format!("{} {}", self.u("arr.fromList"), l.0), V::A(m.len() as u64, l.1.first().cloned().map(Box::new), m))
                }
                k => {
                    let (mut text, mut n, x, mut m) = self.arr(a, d);
                    for _ in 0..self.r.range(1, 4) {
                        let i = if n > 0 && self.r.chance(80) {
                            if self.r.chance(30) { n - 1 } else { self.r.next() % n }
                        } else {
                            *self.r.pick(&[n, n.wrapping_add(1), 0, u64::MAX])
                        };
                        if k == 3 || self.r.chance(15) {
                            let to = if self.r.chance(50) { self.small() } else { i };
                            text = format!("({} {} {})", self.u("arr.truncate"), to, text);
                            n = n.min(to);
                            m.retain(|i, _| *i < n);
                        } else if self.r.chance(50) {
                            let y = self.lit(a);
                            text = format!("({} {} {} {})", self.u("arr.set"), i, y.0, text);
                            if i < n {
                                m.insert(i, y.1);
                            }
                        } else {
                            let f = self.f1(a, a, 1);
                            text = format!("({} {} {} {})", self.u("arr.mapIdx"), i, f.0, text);
                            if i < n {
                                let old = m.get(&i).cloned().or_else(|| x.clone()).unwrap();
                                m.insert(i, f.1(&old));
                            }
                        }
                    }
                    (text, V::A(n, x.map(Box::new), m))
                }
            },
            _ => return None,
        })
    }

    /// A string often equal to or a prefix of another, or one byte off.
    fn near(&mut self, s: &V, e: usize) -> X {
        if self.r.chance(25) {
            return self.gen(&Str, e);
        }
        let mut t = s.s().to_vec();
        match self.r.below(5) {
            0 => t.truncate(self.r.below(t.len() + 1)),
            1 => t.push(*self.r.pick(b"a \0\n")),
            2 if !t.is_empty() => {
                let k = self.r.below(t.len());
                t[k] ^= 1 << self.r.below(8);
            }
            3 => {
                t.pop();
            }
            _ => {}
        }
        (str_expr(self.r, &t), V::S(t))
    }

    fn make_list(&mut self, a: &T, d: usize) -> X {
        let e = d - 1;
        let b = self.ty(0);
        match (a, self.r.below(16)) {
            (Int, 0) => {
                let s = self.gen(&Str, e);
                (format!("{} {}", self.u("ss.chars"), s.0), V::L(s.1.s().iter().map(|&c| V::I(c as u64)).collect()))
            }
            (Int, 1) => {
                let n = if self.r.chance(20) { self.r.below(150) as u64 } else { self.small() % 30 };
                let a = if self.r.chance(70) { self.small() } else { int(self.r).min(u64::MAX - n) };
                (format!("{} {} {}", self.u("ll.range"), a, a + n), V::L((a..a + n).map(V::I).collect()))
            }
            (Int, 2 | 3) => {
                let l = self.list(&Int, d);
                let (lt, lf, total) = self.less();
                let mut v = l.1;
                v.sort_by(|x, y| lf(y, x).b().cmp(&lf(x, y).b()));
                let sorted = format!("{} {} {}", self.u("ll.sortBy"), lt, l.0);
                if total {
                    (sorted, V::L(v))
                } else if self.r.chance(50) {
                    (format!("{} (\\x -> x % 7) ({})", self.u("ll.map"), sorted), V::L(v.iter().map(|x| V::I(x.i() % 7)).collect()))
                } else {
                    // nothing is lost
                    v.sort_by_key(|x| x.i());
                    (format!("ll.sortBy (\\p -> \\q -> p < q) ({})", sorted), V::L(v))
                }
            }
            (Str, 0 | 1) => {
                let s = self.gen(&Str, e);
                (format!("{} {}", self.u("ss.lines"), s.0), V::L(lines(s.1.s())))
            }
            (Str, 2 | 3) => {
                let s = self.gen(&Str, e);
                let c = if s.1.s().is_empty() || self.r.chance(20) {
                    *self.r.pick(&[0, 10, 32, 44, 256 + 44, u64::MAX])
                } else {
                    *self.r.pick(s.1.s()) as u64
                };
                let parts = s.1.s().split(|&x| x as u64 == c).map(|x| V::S(x.to_vec())).collect();
                (format!("{} {} {}", self.u("ss.split"), c, s.0), V::L(parts))
            }
            (_, 4) => {
                let (l, f) = (self.list(&b, d), self.f1(&b, a, 1));
                (format!("{} {} {}", self.u("ll.map"), f.0, l.0), V::L(l.1.iter().map(|x| f.1(x)).collect()))
            }
            (_, 5) => {
                let (l, f) = (self.list(a, d), self.f1(a, &Bool, 1));
                (format!("{} {} {}", self.u("ll.filter"), f.0, l.0), V::L(l.1.into_iter().filter(|x| f.1(x).b()).collect()))
            }
            (_, 6) => {
                let l = self.list(a, d);
                (format!("{} {}", self.u("ll.reverse"), l.0), V::L(l.1.into_iter().rev().collect()))
            }
            (_, 7) => {
                let (n, l) = (self.small(), self.list(a, d));
                (format!("{} {} {}", self.u("ll.skip"), n, l.0), V::L(l.1.into_iter().skip(n as usize).collect()))
            }
            (_, 8) => {
                let (n, l) = (self.small(), self.list(a, d));
                (format!("{} {} {}", self.u("ll.take"), n, l.0), V::L(l.1.into_iter().take(n as usize).collect()))
            }
            (_, 9) => {
                let (n, x) = (self.small(), self.gen(a, e));
                (format!("{} {} {}", self.u("ll.repeat"), n, x.0), V::L(vec![x.1; n as usize]))
            }
            (_, 10) => {
                let (l, f) = (self.list(&b, d), self.f1(&b, &Opt(Box::new(a.clone())), 2));
                (format!("{} {} {}", self.u("ll.filterMap"), f.0, l.0), V::L(l.1.iter().filter_map(|x| f.1(x).o()).collect()))
            }
            (_, 11) => {
                let (x, y) = (self.list(a, d), self.list(a, d));
                (format!("{} {} {}", self.u("ll.concat"), x.0, y.0), V::L([x.1, y.1].concat()))
            }
            (_, 12) => {
                let c = self.ty(0);
                let (x, y, f) = (self.list(&b, d), self.list(&c, d), self.f2(&b, &c, a, 1));
                (format!("{} {} {} {}", self.u("ll.zip"), f.0, x.0, y.0), V::L(x.1.iter().zip(&y.1).map(|(x, y)| f.1(x, y)).collect()))
            }
            (_, 13) => {
                let (l, f) = (self.list(&b, d), self.f1(&b, &List(Box::new(a.clone())), 1));
                (format!("{} {} {}", self.u("ll.flatMap"), f.0, l.0), V::L(l.1.iter().flat_map(|x| f.1(x).l().to_vec()).collect()))
            }
            (_, 14) => {
                let l = self.list(&List(Box::new(a.clone())), d);
                (format!("{} {}", self.u("ll.flatten"), l.0), V::L(l.1.iter().flat_map(|x| x.l().to_vec()).collect()))
            }
            _ => {
                let x = self.arr(a, d);
                if x.1 > 200 {
                    // no time to list that much
                    let n = self.r.below(5) as u64;
                    let v = (0..n.min(x.1)).map(|i| x.3.get(&i).cloned().unwrap_or_else(|| x.2.clone().unwrap())).collect();
                    return (format!("{} ({} {} {})", self.u("arr.toList"), self.u("arr.truncate"), n, x.0), V::L(v));
                }
                let v = (0..x.1).map(|i| x.3.get(&i).cloned().unwrap_or_else(|| x.2.clone().unwrap())).collect();
                (format!("{} {}", self.u("arr.toList"), x.0), V::L(v))
            }
        }
    }

    /// Functions whose result can have any type.
    fn any(&mut self, t: &T, d: usize) -> X {
        let e = d - 1;
        let b = self.ty(0);
        match self.r.below(8) {
            0 => {
                let (x, y) = (self.gen(t, e), self.gen(&Opt(Box::new(t.clone())), e));
                (format!("{} {} {}", self.u("op.unwrapOr"), x.0, y.0), y.1.o().unwrap_or(x.1))
            }
            1 => {
                let (x, y) = (self.gen(t, e), self.gen(&Res(Box::new(t.clone()), Box::new(b)), e));
                (format!("{} {} {}", self.u("rs.unwrapOr"), x.0, y.0), y.1.r().unwrap_or(x.1))
            }
            2 => {
                let x = self.gen(&Res(Box::new(t.clone()), Box::new(t.clone())), e);
                (format!("{} {}", self.u("rs.join"), x.0), x.1.r().unwrap_or_else(|x| x))
            }
            3 => {
                let (n, x, f) = (self.small() % 40, self.gen(t, e), self.f1(t, t, 1));
                let mut v = x.1;
                for _ in 0..n {
                    v = f.1(&v);
                    if v.weight() > 300 {
                        break;
                    }
                }
                (format!("{} {} {} {}", self.u("ii.iterate"), n, f.0, x.0), v)
            }
            4 => {
                let (x, l, f) = (self.gen(t, e), self.list(&b, d), self.f2(t, &b, t, 1));
                let v = l.1.iter().fold(x.1, |a, y| if a.weight() > 300 { a } else { f.1(&a, y) });
                (format!("{} {} {} {}", self.u("ll.foldl"), x.0, f.0, l.0), v)
            }
            5 => {
                let (x, l, f) = (self.gen(t, e), self.list(&b, d), self.f2(&b, t, t, 1));
                let v = l.1.iter().rev().fold(x.1, |a, y| if a.weight() > 300 { a } else { f.1(y, &a) });
                (format!("{} {} {} {}", self.u("ll.foldr"), f.0, x.0, l.0), v)
            }
            6 => {
                let (x, s, f) = (self.gen(t, e), self.gen(&Str, e), self.f2(t, &Int, t, 1));
                let v = s.1.s().iter().fold(x.1, |a, &c| if a.weight() > 300 { a } else { f.1(&a, &V::I(c as u64)) });
                (format!("{} {} {} {}", self.u("ss.foldChars"), x.0, f.0, s.0), v)
            }
            _ => {
                let (c, x, y) = (self.gen(&Bool, e), self.gen(t, e), self.gen(t, e));
                (format!("if {} then {} else {}", c.0, x.0, y.0), if c.1.b() { x.1 } else { y.1 })
            }
        }
    }
}

pub fn p20(ctx: &mut Ctx) {
    let mut r = ctx.rng("P20");
    let mut text = String::from("import ii(ParseErr) from \"std/int\";\nimport ss from \"std/string\";\nimport ll(List, Nil, Cons) from \"std/list\";\nimport op(Option, Some, None) from \"std/option\";\nimport rs(Result, Ok, Err) from \"std/result\";\nimport arr(Array) from \"std/array\";\nlet hide : a -> a = \\x -> ii.iterate 1 (\\y -> y) x;\ntype B = B int int;\nlet hides : string -> string = \\x -> ii.iterate 1 (\\y -> y) x;\n");
    let mut expected = String::new();
    let n = r.range(6, 16);
    let mut used = vec![];
    let mut lines = vec![];
    let mut g = G { r: &mut r, used: vec![] };
    while lines.len() < n {
        g.used.clear();
        let t = match g.r.below(10) {
            0 => Res(Box::new(Int), Box::new(PErr)),
            _ => {
                let d = g.r.below(3);
                g.ty(d)
            }
        };
        let d = g.r.range(1, 4);
        let (e, v) = g.gen(&t, d);
        if v.weight() > 300 || e.len() > 6000 {
            continue;
        }
        let k = lines.len();
        let line = format!("export let v{} : {} = {};\n", k, ty(&t), e);
        text += &line;
        lines.push(line);
        expected += &format!("v{} = {}\n", k, print(&v, false));
        used.push(g.used.clone());
    }
    let srcs = vec![("main".to_owned(), text)];
    for optimize in [false, true] {
        let Some(mut u) = accepted_with(ctx, &srcs, cut::Options { verify: false, optimize }) else {
            let ds = cut::guard(|| cut::compile(&srcs, cut::Options { verify: false, optimize }).1);
            ctx.fail("uses of the standard modules by their types are rejected", shorten(&format!("{:?}", ds), 600), &srcs);
            return;
        };
        for rn in RUNNERS {
            let out = cut::run(&mut u, rn);
            for _ in 0..n {
                ctx.eval();
            }
            match &out {
                Out::Values(v) if *v == expected => {}
                Out::Values(v) => {
                    let k = expected.lines().zip(v.lines()).take_while(|(a, b)| a == b).count();
                    let names: std::collections::BTreeSet<_> = used.get(k).into_iter().flatten().copied().collect();
                    ctx.fail(&format!("wrong result of standard functions ({})", names.into_iter().collect::<Vec<_>>().join(" ")), format!("{} optimize {}\n{}\n{}", rn, optimize, lines.get(k).map_or("", |x| x.as_str()), first_diff(&expected, v)), &srcs);
                    return;
                }
                o => {
                    ctx.fail("standard functions failed", format!("{} optimize {}: {:?}", rn, optimize, o), &srcs);
                    return;
                }
            }
        }
    }
    for (u, l) in used.iter().zip(expected.lines()) {
        for f in u {
            ctx.count(&format!("calls {}", f), 1);
        }
        ctx.class(&format!("{} {}", u.last().unwrap_or(&""), l.split_once(" = ").map_or("", |x| x.1)));
    }
    ctx.sample(|| json!({"program": shorten(&srcs[0].1, 700), "values": shorten(&expected, 400)}));
}
