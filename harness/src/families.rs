//! Programs of special shapes that the general generator rarely builds.  They
//! are written as text and read by the harness's own parser, so that the
//! reference models apply to them as well.
use crate::lang::*;
use crate::print::{self, Style};
use crate::refcheck;
use crate::rng::Rng;
use crate::util::{print_all, Prog};

pub const KINDS: [&str; 9] = ["big objects", "accumulators", "matches", "primitives", "trees", "closures", "strings", "terms", "wide"];

/// A program of a random family that the reference checker accepts.
pub fn prog(r: &mut Rng, style: Style) -> Option<(&'static str, Prog)> {
    let k = if r.chance(4) { 8 } else { *r.pick(&[0usize, 1, 1, 2, 2, 2, 3, 4, 4, 5, 6, 7, 7]) };
    prog_of(r, k, style).map(|p| (KINDS[k], p))
}

pub fn prog_of(r: &mut Rng, kind: usize, style: Style) -> Option<Prog> {
    let text = match kind {
        0 => big(r),
        1 => accumulators(r),
        2 => matches(r),
        3 => primitives(r),
        4 => trees(r),
        5 => closures(r),
        6 => strings(r),
        8 => wide(r),
        _ => {
            let holes = r.chance(20);
            crate::terms::module(r, 0, holes)
        }
    };
    let p = read(&text)?;
    let info = refcheck::check(&p);
    if let Some(e) = info.errors.first() {
        if std::env::var("TV_DEBUG").is_ok() {
            eprintln!("family {} is not valid: {:?}\n{}", KINDS[kind], e, text);
        }
        return None;
    }
    let (printed, srcs) = print_all(&p, r, style);
    let _ = print::PLAIN;
    Some(Prog { p, info, printed, srcs })
}

/// Hundreds of one thing: functions, constructors, locals, parameters.
pub fn wide(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(4) {
        0 => {
            let n = r.range(240, 420);
            let exported = *r.pick(&[10, 100]);
            for i in 0..n {
                let call = if i > 0 { format!("f{}", r.below(i)) } else { "0 - ".to_owned() };
                let body = match r.below(6) {
                    0 if i > 0 => format!("{} (x * 3)", call),
                    1 if i > 0 => format!("if x % 2 == 0 then {} 7 else x", call),
                    2 => format!("x * {} % 1009", i + 1),
                    3 => format!("let k : int -> int = \\y -> y + x * {}; k {}", i, r.below(9)),
                    _ => format!("x + {}", i),
                };
                s += &format!("{}let f{} : int -> int = \\x -> {};\n", if r.chance(exported) { "export " } else { "" }, i, body);
            }
            for j in 0..r.range(1, 5) {
                s += &format!("export let r{} : int = f{} 1 + f{} (f{} 2) - f{} 3;\n", j, n - 1, r.below(n), r.below(n), r.below(300.min(n)));
            }
        }
        1 => {
            // constructors past the first byte, with and without fields
            let n = r.range(200, 300);
            s += "type T =";
            let fields: Vec<usize> = (0..n).map(|i| if i + 20 > n { r.below(4) } else { r.below(2) }).collect();
            for i in 0..n {
                s += &format!(" | C{}{}", i, " int".repeat(fields[i]));
            }
            s += ";\nlet num : T -> int = \\t -> match t with";
            for i in 0..n {
                let names: Vec<String> = (0..fields[i]).map(|k| format!("a{}", k)).collect();
                s += &format!(" | C{} {} -> {}{}", i, names.join(" "), i * 3 + 1, names.iter().map(|n| format!(" + {}", n)).collect::<String>());
            }
            s += " end;\n";
            for j in 0..r.range(2, 8) {
                let k = if r.chance(50) { n - 1 - r.below(9) } else { r.below(n) };
                let args: String = (0..fields[k]).map(|_| format!(" {}", r.below(50))).collect();
                s += &format!("export let c{} : T = C{}{};\nexport let n{} : int = num c{};\n", j, k, args, j, j);
            }
        }
        2 => {
            // a function that captures many locals
            let n = r.range(60, 280);
            s += "export let pick : int -> int -> int = \\a ->\n";
            for i in 0..n {
                let from = if i > 0 && r.chance(60) { format!("v{}", r.below(i)) } else { "a".to_owned() };
                s += &format!("let v{} : int = {} * {} % 10007;\n", i, from, r.range(2, 9));
            }
            s += "\\i ->";
            for i in 0..n {
                if r.chance(60) || i + 5 > n {
                    s += &format!(" if i == {} then v{} else", i, i);
                }
            }
            s += " 0 - 1;\nlet p : int -> int = pick 5;\n";
            for j in 0..r.range(2, 6) {
                s += &format!("export let r{} : int = p {};\n", j, if r.chance(40) { n - 1 - r.below(5) } else { r.below(n) });
            }
        }
        _ => {
            // many parameters, given all at once or in two parts
            let n = r.range(20, 70);
            s += &format!("let f : {}int =", "int -> ".repeat(n));
            for i in 0..n {
                s += &format!(" \\p{} ->", i);
            }
            s += " 0";
            for i in 0..n {
                if r.chance(60) || i + 3 > n {
                    s += &format!(" {} p{} * {}", if r.chance(80) { "+" } else { "-" }, i, i + 1);
                }
            }
            s += ";\n";
            let k = r.below(n);
            let args = |r: &mut Rng, n: usize| (0..n).map(|_| format!(" {}", r.below(90))).collect::<String>();
            s += &format!("export let all : int = f{};\n", args(r, n));
            s += &format!("let part : {}int = f{};\n", "int -> ".repeat(n - k), args(r, k));
            s += &format!("export let rest : int = part{};\n", args(r, n - k));
            s += &format!("export let again : int = part{};\n", args(r, n - k));
        }
    }
    s
}

pub fn read(text: &str) -> Option<Project> {
    let mut p = Project::new();
    let mut next = 0;
    let parsed = crate::refparse::parse(text, &mut next);
    p.next_id = next;
    if parsed.error.is_some() {
        if std::env::var("TV_DEBUG").is_ok() {
            eprintln!("family does not parse: {:?}\n{}", parsed.error, text);
        }
        return None;
    }
    p.modules.push(Module { path: "main".into(), items: parsed.items });
    Some(p)
}

pub const EDGE: [&str; 17] = [
    "0", "1", "2", "3", "7", "10", "63", "64", "255", "256", "257", "4294967295", "4294967296", "9223372036854775807",
    "9223372036854775808", "18446744073709551614", "18446744073709551615",
];

fn join(v: impl Iterator<Item = String>, sep: &str) -> String {
    v.collect::<Vec<_>>().join(sep)
}

/// Objects and closures with many fields that survive collections.
fn big(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => r.range(2, 9),
        1 | 2 => r.range(10, 40),
        3 => r.range(31, 34),
        4 => r.range(62, 67),
        _ => r.range(41, 140),
    };
    let kinds: Vec<usize> = {
        let w = r.below(4);
        (0..n).map(|_| match w {
            0 => 1,
            1 => r.below(2),
            _ => r.below(5),
        }).collect()
    };
    let ty = |k: usize| ["int", "string", "(int -> int)", "L", "bool"][k].to_owned();
    let val = |k: usize, i: usize| match k {
        0 => format!("(x + {})", i),
        1 => format!("(ii.toString (x + {}))", i),
        2 => format!("(\\q -> q * x + {})", i),
        3 => format!("(C (x + {}) (C {} N))", i, i),
        _ => format!("(x > {})", i),
    };
    let show = |k: usize, v: String| match k {
        0 => format!("ii.toString {}", v),
        1 => v,
        2 => format!("ii.toString ({} 3)", v),
        3 => format!("ii.toString (sum {})", v),
        _ => format!("(if {} then \"t\" else \"f\")", v),
    };
    let show = |k, v| {
        let s: String = show(k, v);
        if s.contains(' ') && !s.starts_with('(') { format!("({})", s) } else { s }
    };
    let order: Vec<usize> = {
        let mut v: Vec<usize> = (0..n).collect();
        r.shuffle(&mut v);
        v
    };
    let junk = r.range(5, 150);
    let mut s = String::from("import ii from \"std/int\";\nimport ss from \"std/string\";\ntype L = N | C int rec;\n");
    s += "let sum : L -> int = \\fold l -> match l with | N -> 0 | C x r -> x + r end;\n";
    s += &format!("type Big = Big {};\n", join(kinds.iter().map(|&k| ty(k)), " "));
    s += &format!("let mk : int -> Big = \\x -> Big {};\n", join(kinds.iter().enumerate().map(|(i, &k)| val(k, i)), " "));
    s += &format!(
        "let show : Big -> string = \\b -> match b with | Big {} -> \"\"{} end;\n",
        join((0..n).map(|i| format!("v{}", i)), " "),
        join(order.iter().map(|&i| format!(" |> ss.concat {}", show(kinds[i], format!("v{}", i)))), "")
    );
    s += &format!(
        "let clo : int -> int -> string = \\x -> {} \\y -> ii.toString y{};\n",
        join(kinds.iter().enumerate().map(|(i, &k)| format!("let c{} = {};", i, val(k, i))), " "),
        join(order.iter().map(|&i| format!(" |> ss.concat {}", show(kinds[i], format!("c{}", i)))), "")
    );
    s += "let junk : int -> string = \\n -> ii.iterate n (\\s -> ss.concat \"ab\" (ss.substring 0 20 s)) \"\";\n";
    s += &format!("let objs : int -> Big = \\n -> ii.iterate n (\\b -> mk n) (mk 0);\n");
    let body = match r.below(4) {
        0 => format!("let b = mk 100; let j = junk {}; ss.concat j (show b)", junk),
        1 => format!("let f = clo 7; let j = junk {}; ss.concat j (f 1)", junk),
        2 => format!("let b = mk 3; let f = clo 9; let o = objs {}; ss.concat (show b) (ss.concat (f 2) (show o))", r.range(2, 12)),
        _ => format!("let b = mk 100; let f = clo 7; let j = junk {}; let g = clo 8; ss.concat j (ss.concat (show b) (ss.concat (f 1) (g 2)))", junk),
    };
    s += &format!("export let res : string = {};\n", body);
    if r.chance(50) {
        s += &format!("export let obj : Big = let b = mk 5; let j = junk {}; if ss.length j > 0 then b else mk 1;\n", junk);
    }
    s
}

struct Ints<'a> {
    r: &'a mut Rng,
    vars: Vec<String>,
}

impl Ints<'_> {
    fn e(&mut self, d: usize) -> String {
        if d == 0 || self.r.chance(25) {
            return if !self.vars.is_empty() && self.r.chance(75) {
                self.r.pick(&self.vars).clone()
            } else {
                match self.r.below(3) {
                    0 => self.r.pick(&EDGE).to_string(),
                    _ => self.r.below(12).to_string(),
                }
            };
        }
        match self.r.below(10) {
            0..=6 => {
                let o = *self.r.pick(&["+", "+", "-", "*", "*", "/", "%"]);
                format!("({} {} {})", self.e(d - 1), o, self.e(d - 1))
            }
            7 => format!("(if {} then {} else {})", self.cond(d - 1), self.e(d - 1), self.e(d - 1)),
            8 => {
                let v = format!("t{}", self.vars.len());
                let a = self.e(d - 1);
                self.vars.push(v.clone());
                let b = self.e(d - 1);
                self.vars.pop();
                format!("(let {} = {}; {})", v, a, b)
            }
            _ => {
                let v = self.r.pick(&["a", "b", "x", "k"]).to_string();
                let a = self.e(d - 1);
                self.vars.push(v.clone());
                let b = self.e(d - 1);
                self.vars.pop();
                format!("((\\{} -> {}) {})", v, b, a)
            }
        }
    }
    fn cond(&mut self, d: usize) -> String {
        let o = *self.r.pick(&["<", "<=", ">", ">=", "==", "!="]);
        format!("{} {} {}", self.e(d), o, self.e(d))
    }
}

/// Folds with accumulators: tail calls that depend on the old values.
fn accumulators(r: &mut Rng) -> String {
    let n = r.range(1, 5);
    let names = ["a", "b", "c", "d", "e"];
    // kinds of accumulators: int, string, function, list
    let kinds: Vec<usize> = (0..n).map(|_| *r.pick(&[0usize, 0, 0, 1, 2, 3])).collect();
    let ty = |k: usize| ["int", "string", "(int -> int)", "L"][k];
    let ints: Vec<String> = (0..n).filter(|&i| kinds[i] == 0).map(|i| names[i].to_string()).collect();
    let step = |r: &mut Rng, i: usize, extra: &[String]| -> String {
        let mut vars = ints.clone();
        vars.extend(extra.iter().cloned());
        let same: Vec<&str> = (0..n).filter(|&j| kinds[j] == kinds[i]).map(|j| names[j]).collect();
        let other = r.pick(&same).to_string();
        match kinds[i] {
            0 => {
                if r.chance(25) {
                    other
                } else {
                    let d = r.range(1, 2);
                    Ints { r, vars }.e(d)
                }
            }
            1 => match r.below(3) {
                0 => other,
                1 => format!("(ss.concat {} \"{}\")", other, r.pick(&["-", "xy", "q"])),
                _ => {
                    let e = Ints { r, vars }.e(1);
                    format!("(ss.concat (ii.toString {}) (ss.substring 0 40 {}))", e, other)
                }
            },
            2 => match r.below(3) {
                0 => other,
                1 => {
                    let e = Ints { r, vars }.e(1);
                    format!("(\\q -> {} (q + {}))", other, e)
                }
                _ => {
                    let mut v2 = vars.clone();
                    v2.push("q".into());
                    let e = Ints { r, vars: v2 }.e(2);
                    format!("(\\q -> {})", e)
                }
            },
            _ => match r.below(3) {
                0 => other,
                1 => {
                    let e = Ints { r, vars }.e(1);
                    format!("(C {} {})", e, other)
                }
                _ => format!("(match {} with | N -> N | C h t -> t end)", other),
            },
        }
    };
    fn tail(r: &mut Rng, d: usize, n: usize, extra: &mut Vec<String>, ints: &[String], step: &dyn Fn(&mut Rng, usize, &[String]) -> String) -> String {
        if d == 0 || r.chance(40) {
            let args = (0..n).map(|i| step(r, i, extra)).collect::<Vec<_>>().join(" ");
            return match r.below(10) {
                0 => format!("let k = r {}; k", args),
                1 => format!("(\\g -> g {}) r", args),
                _ => format!("r {}", args),
            };
        }
        match r.below(4) {
            0 | 1 => {
                let mut vars = ints.to_vec();
                vars.extend(extra.iter().cloned());
                let c = Ints { r, vars }.cond(1);
                let a = tail(r, d - 1, n, extra, ints, step);
                let b = tail(r, d - 1, n, extra, ints, step);
                format!("if {} then ({}) else ({})", c, a, b)
            }
            2 => {
                let mut vars = ints.to_vec();
                vars.extend(extra.iter().cloned());
                let e = Ints { r, vars }.e(2);
                let v = format!("z{}", extra.len());
                extra.push(v.clone());
                let b = tail(r, d - 1, n, extra, ints, step);
                extra.pop();
                format!("let {} = {}; {}", v, e, b)
            }
            _ => {
                let mut vars = ints.to_vec();
                vars.extend(extra.iter().cloned());
                let e = Ints { r, vars }.e(1);
                let v = format!("w{}", extra.len());
                let a = tail(r, d - 1, n, extra, ints, step);
                extra.push(v.clone());
                let b = tail(r, d - 1, n, extra, ints, step);
                extra.pop();
                format!("match opt {} with | None -> {} | Some {} -> {} end", e, a, v, b)
            }
        }
    }
    let ret = r.below(n);
    let params = join((0..n).map(|i| format!("\\{} -> ", names[i])), "");
    let sig = join((0..n).map(|i| format!("{} -> ", ty(kinds[i]))), "");
    let depth = r.range(0, 3);
    let mut extra = vec!["x".to_string()];
    let body = tail(r, depth, n, &mut extra, &ints, &step);
    let base = if kinds[ret] == 0 { Ints { r, vars: ints.clone() }.e(1) } else { names[ret].to_string() };
    let non_tail = kinds[ret] == 0 && r.chance(20);
    let body = if non_tail { format!("(let v = ({}); v * 3 + x)", body) } else { body };
    let swap = r.chance(30);
    let arms = if swap { format!("| C x r -> {} | N -> {}", body, base) } else { format!("| N -> {} | C x r -> {}", base, body) };
    let mut s = String::from("import ii from \"std/int\";\nimport ss from \"std/string\";\ntype L = N | C int rec;\ntype O = None | Some int;\n");
    s += "let opt : int -> O = \\x -> if x % 3 == 0 then None else Some (x / 2);\n";
    s += "let up : int -> L = \\n -> ii.iterate n (\\l -> match l with | N -> C 1 N | C h t -> C (h * 5 + 1) l end) N;\n";
    s += &format!("let go : L -> {}{} = \\fold l -> {}match l with {} end;\n", sig, ty(kinds[ret]), params, arms);
    for k in 0..r.range(1, 3) {
        let lst = if r.chance(50) {
            format!("(up {})", r.below(60))
        } else {
            let m = r.below(9);
            let mut l = "N".to_string();
            for _ in 0..m {
                l = format!("(C {} {})", if r.chance(30) { r.pick(&EDGE).to_string() } else { r.below(20).to_string() }, l);
            }
            l
        };
        let args = join((0..n).map(|i| match kinds[i] {
            0 => r.below(9).to_string(),
            1 => format!("\"{}\"", r.pick(&["", "a", "hello"])),
            2 => format!("(\\q -> q + {})", r.below(5)),
            _ => format!("(up {})", r.below(4)),
        }), " ");
        if kinds[ret] == 2 {
            s += &format!("export let r{} : int = go {} {} 11;\n", k, lst, args);
        } else {
            s += &format!("export let r{} = go {} {};\n", k, lst, args);
        }
    }
    s
}

struct Mat<'a> {
    r: &'a mut Rng,
    budget: i32,
    fns: Vec<(String, Vec<char>, char)>,
    hole: bool,
}

/// Types: i int, b bool, t T, u U, f int -> int, p P int U.
impl Mat<'_> {
    fn name(&mut self) -> String {
        self.r.pick(&["a", "b", "c", "x", "y"]).to_string()
    }
    fn e(&mut self, ty: char, env: &[(String, char)], d: usize) -> String {
        self.budget -= 1;
        let mut seen = std::collections::HashSet::new();
        let visible: Vec<String> = env.iter().rev().filter(|(n, _)| seen.insert(n.clone())).filter(|(_, t)| *t == ty).map(|(n, _)| n.clone()).collect();
        if d == 0 || self.budget < 0 {
            if !visible.is_empty() && self.r.chance(80) {
                return self.r.pick(&visible).clone();
            }
            if self.hole && self.r.chance(15) {
                return "?h".into();
            }
            return match ty {
                'i' => self.r.below(9).to_string(),
                'b' => self.r.pick(&["true", "false"]).to_string(),
                't' => self.r.pick(&["A", "B", "C 4"]).to_string(),
                'u' => self.r.pick(&["K 1 A", "M 2", "K 3 B"]).to_string(),
                'p' => "P 1 (M 7)".into(),
                _ => self.r.pick(&["\\x -> x", "\\y -> y + 1", "\\a -> 5"]).to_string(),
            };
        }
        if !visible.is_empty() && self.r.chance(18) {
            return self.r.pick(&visible).clone();
        }
        let d = d - 1;
        match self.r.below(12) {
            0..=3 => self.match_(ty, env, d),
            4 | 5 => {
                let n = self.name();
                let t = *self.r.pick(&['i', 't', 'u', 'f', 'b', 'p']);
                let v = self.e(t, env, d);
                let mut env2 = env.to_vec();
                env2.push((n.clone(), t));
                let b = self.e(ty, &env2, d);
                format!("let {} = {}; {}", n, v, b)
            }
            6 => {
                let c = self.e('b', env, d);
                let a = self.e(ty, env, d);
                let b = self.e(ty, env, d);
                format!("if {} then {} else {}", c, a, b)
            }
            7 => {
                let n = self.name();
                let t = *self.r.pick(&['i', 't', 'u', 'f', 'p']);
                let v = self.e(t, env, d);
                let mut env2 = env.to_vec();
                env2.push((n.clone(), t));
                let b = self.e(ty, &env2, d);
                format!("(\\{} -> {}) ({})", n, b, v)
            }
            8 if self.fns.iter().any(|f| f.2 == ty) => {
                let fs: Vec<_> = self.fns.iter().filter(|f| f.2 == ty).cloned().collect();
                let f = self.r.pick(&fs).clone();
                let mut s = f.0.clone();
                for t in f.1 {
                    s += &format!(" ({})", self.e(t, env, d));
                }
                s
            }
            _ => match ty {
                'i' => match self.r.below(5) {
                    0 => format!("({}) ({})", self.e('f', env, d), self.e('i', env, d)),
                    _ => format!("({}) {} ({})", self.e('i', env, d), self.r.pick(&["+", "-", "*", "/", "%"]).to_string(), self.e('i', env, d)),
                },
                'b' => format!("({}) {} ({})", self.e('i', env, d), self.r.pick(&["<", "<=", ">", ">=", "==", "!="]).to_string(), self.e('i', env, d)),
                't' => match self.r.below(4) {
                    0 => "A".into(),
                    1 => "B".into(),
                    _ => format!("C ({})", self.e('i', env, d)),
                },
                'u' => match self.r.below(3) {
                    0 => format!("M ({})", self.e('i', env, d)),
                    _ => format!("K ({}) ({})", self.e('i', env, d), self.e('t', env, d)),
                },
                'p' => format!("P ({}) ({})", self.e('i', env, d), self.e('u', env, d)),
                _ => {
                    let n = self.name();
                    let mut env2 = env.to_vec();
                    env2.push((n.clone(), 'i'));
                    format!("\\{} -> {}", n, self.e('i', &env2, d))
                }
            },
        }
    }
    fn match_(&mut self, ty: char, env: &[(String, char)], d: usize) -> String {
        let t = *self.r.pick(&['t', 't', 'u', 'u', 'p']);
        let scrut = self.e(t, env, d);
        let ctors: &[(&str, &[char])] = match t {
            't' => &[("A", &[]), ("B", &[]), ("C", &['i'])],
            'u' => &[("K", &['i', 't']), ("M", &['i'])],
            _ => &[("P", &['i', 'u'])],
        };
        let mut order: Vec<usize> = (0..ctors.len()).collect();
        self.r.shuffle(&mut order);
        let mut s = format!("match {} with", scrut);
        for k in order {
            let mut env2 = env.to_vec();
            let mut used = vec![];
            s += &format!(" | {}", ctors[k].0);
            for &f in ctors[k].1 {
                let mut n = self.name();
                while used.contains(&n) {
                    n.push('1');
                }
                used.push(n.clone());
                s += &format!(" {}", n);
                env2.push((n, f));
            }
            s += &format!(" -> {}", self.e(ty, &env2, d));
        }
        s + " end"
    }
}

fn ty_text(c: char) -> &'static str {
    match c {
        'i' => "int",
        'b' => "bool",
        't' => "T",
        'u' => "U",
        'p' => "P int U",
        _ => "(int -> int)",
    }
}

/// Matches over matches, conditionals, lets and immediate calls with few names.
fn matches(r: &mut Rng) -> String {
    let hole = r.chance(15);
    let mut s = String::from("type T = A | B | C int;\ntype U = K int T | M int;\ntype P a b = P a b;\n");
    let mut fns: Vec<(String, Vec<char>, char)> = vec![];
    let n = r.range(1, 3);
    for k in 0..n {
        let ret = *r.pick(&['i', 't', 'u', 'i', 'p']);
        let mut params = vec![];
        for _ in 0..r.range(1, 3) {
            params.push(*r.pick(&['i', 't', 'u', 't', 'p', 'f', 'b']));
        }
        let names: Vec<String> = params.iter().map(|_| r.pick(&["a", "b", "c", "x"]).to_string()).collect();
        let env: Vec<(String, char)> = names.iter().cloned().zip(params.iter().copied()).collect();
        let budget = r.range(6, 60) as i32;
        let mut m = Mat { r, budget, fns: fns.clone(), hole };
        let d = m.r.range(2, 6);
        let body = m.e(ret, &env, d);
        let name = format!("f{}", k);
        s += &format!(
            "let {} : {}{} = {}{};\n",
            name,
            join(params.iter().map(|&p| format!("{} -> ", ty_text(p))), ""),
            ty_text(ret),
            join(names.iter().map(|n| format!("\\{} -> ", n)), ""),
            body
        );
        fns.push((name, params, ret));
    }
    for k in 0..r.range(2, 5) {
        let f = fns[r.below(fns.len())].clone();
        let mut m = Mat { r, budget: 12, fns: vec![], hole: false };
        let args = join(f.1.iter().map(|&t| { let d = m.r.below(2); format!(" ({})", m.e(t, &[], d)) }), "");
        s += &format!("export let r{} = {}{};\n", k, f.0, args);
    }
    s
}

/// Arithmetic, comparisons and string primitives at their edges.
pub fn primitives(r: &mut Rng) -> String {
    let mut s = String::from("import ii from \"std/int\";\nimport ss from \"std/string\";\n");
    s += "let id : int -> int = \\fold_ -> fold_;\n".replace("fold_", "x").as_str();
    let lit = |r: &mut Rng| -> String {
        match r.below(4) {
            0 => r.below(12).to_string(),
            1 => r.next().to_string(),
            2 => (r.next() >> r.below(64)).to_string(),
            _ => r.pick(&EDGE).to_string(),
        }
    };
    let strs = ["", "a", "ab", "hello", "žą", "🦀 crab", "0123456789abcdef0123456789abcdef", "  ", "12", "18446744073709551615", "18446744073709551616", "007", "-1", "1 "];
    let st = |r: &mut Rng| format!("\"{}\"", r.pick(&strs));
    for k in 0..r.range(6, 14) {
        let wrap = |r: &mut Rng, e: String| if r.chance(40) { format!("(id {})", e) } else { e };
        let (a, b, c) = (lit(r), lit(r), lit(r));
        let (a, b) = (wrap(r, a), wrap(r, b));
        let small = |r: &mut Rng| if r.chance(70) { r.below(8).to_string() } else { r.pick(&EDGE).to_string() };
        let (sa, sb) = (small(r), small(r));
        let (t, u) = (st(r), st(r));
        let e = match r.below(16) {
            0..=3 => format!("{} {} {}", a, r.pick(&["+", "-", "*", "/", "%"]), b),
            4 | 5 => format!("{} {} {}", a, r.pick(&["<", "<=", ">", ">=", "==", "!="]), b),
            6 => format!("{} {} {} {} {}", a, r.pick(&["+", "-", "*", "/", "%"]), b, r.pick(&["+", "-", "*", "/", "%"]), c),
            7 => format!("ii.toString {}", a),
            8 => format!("ss.length (ss.concat {} {})", t, u),
            9 => format!("ss.substring {} {} {}", sa, sb, t),
            10 => format!("ss.charAt {} {}", sa, t),
            11 => format!("ss.concat (ss.fromChar {}) {}", a, t),
            12 => format!("ss.charAt 0 (ss.fromChar {})", a),
            13 => format!("ss.concat (ss.substring {} {} {}) (ss.substring {} {} {})", sa, sb, t, sb, sa, u),
            14 => format!("ii.iterate {} (\\x -> x * 3 + 1) {}", r.below(20), a),
            _ => format!("ss.length (ii.iterate {} (\\x -> ss.concat x x) {})", r.below(9), t),
        };
        s += &format!("export let p{} = {};\n", k, e);
    }
    if r.chance(60) {
        // the same operations where the optimizer knows nothing
        s += "let prim : int -> int -> string -> string = \\a -> \\b -> \\s -> ss.concat (ss.substring a b s) (ss.concat (ii.toString (a / b)) (ss.concat (ii.toString (a % b)) (ss.fromChar (ss.charAt a s))));\n";
        for k in 0..3 {
            let (a, b) = (r.pick(&EDGE).to_string(), r.pick(&EDGE).to_string());
            s += &format!("export let q{} = prim {} {} {};\n", k, a, b, st(r));
        }
    }
    s
}

/// Trees, nested recursion and rebuilding.
fn trees(r: &mut Rng) -> String {
    let mut s = String::from("import ii from \"std/int\";\ntype L = N | C int rec;\ntype T a = Leaf | Node rec a rec | One a;\n");
    s += "let app : L -> L -> L = \\fold l -> \\m -> match l with | N -> m | C x r -> C x (r m) end;\n";
    s += "let flat : T int -> L = \\fold t -> match t with | Leaf -> N | Node a x b -> app a (C x b) | One x -> C x N end;\n";
    s += "let mapT : (a -> b) -> T a -> T b = \\f -> \\fold t -> match t with | Leaf -> Leaf | Node a x b -> Node a (f x) b | One x -> One (f x) end;\n";
    s += "let flip : T a -> T a = \\fold t -> match t with | Leaf -> Leaf | Node a x b -> Node b x a | One x -> One x end;\n";
    s += "let depth : T a -> int = \\fold t -> match t with | Leaf -> 0 | Node a x b -> ii.max a b + 1 | One x -> 1 end;\n";
    s += "let ins : int -> T int -> T int = \\k -> \\fold t -> match t with | Leaf -> One k | One y -> if k < y then Node (One k) y Leaf else Node Leaf y (One k) | Node a y b -> Node a y b end;\n";
    fn tree(r: &mut Rng, d: usize) -> String {
        if d == 0 || r.chance(20) {
            return if r.chance(50) { "Leaf".into() } else { format!("(One {})", r.below(50)) };
        }
        format!("(Node {} {} {})", tree(r, d - 1), r.below(50), tree(r, d - 1))
    }
    let n = r.range(2, 5);
    for k in 0..n {
        let d = r.range(1, 5);
        let mut t = tree(r, d);
        for _ in 0..r.below(4) {
            t = match r.below(4) {
                0 => format!("(mapT (\\x -> x * {} + {}) {})", r.below(5), r.below(9), t),
                1 => format!("(flip {})", t),
                2 => format!("(ins {} {})", r.below(50), t),
                _ => format!("(ii.iterate {} flip {})", r.below(5), t),
            };
        }
        s += &match r.below(4) {
            0 => format!("export let r{} = flat {};\n", k, t),
            1 => format!("export let r{} = depth {};\n", k, t),
            2 => format!("export let r{} : T int = {};\n", k, t),
            _ => format!("export let r{} = flat (mapT (\\l -> match l with | N -> 0 | C x r -> x end) (mapT (\\x -> C x N) {}));\n", k, t),
        };
    }
    s
}

/// Higher order code: composition chains, church numerals, partial calls.
fn closures(r: &mut Rng) -> String {
    let mut s = String::from("import ii from \"std/int\";\ntype F = F (int -> int) | G F2 rec;\n".replace(" | G F2 rec", " | G (int -> int -> int) rec").as_str());
    s += "let comp : (b -> c) -> (a -> b) -> a -> c = \\f -> \\g -> \\x -> f (g x);\n";
    s += "let twice : (a -> a) -> a -> a = \\f -> \\x -> f (f x);\n";
    s += "let flip : (a -> b -> c) -> b -> a -> c = \\f -> \\y -> \\x -> f x y;\n";
    s += "let const : a -> b -> a = \\x -> \\_y -> x;\n";
    s += "let sub : int -> int -> int = \\a -> \\b -> a - b;\n";
    s += "let three : int -> int -> int -> int = \\a -> \\b -> \\c -> a * 100 + b * 10 + c;\n";
    s += "let run : F -> int -> int = \\fold f -> \\x -> match f with | F g -> g x | G h r -> h x (r (x + 1)) end;\n";
    fn f1(r: &mut Rng, d: usize, vars: &[String]) -> String {
        if d == 0 {
            return match r.below(4) {
                0 => format!("(sub {})", r.below(20)),
                1 => format!("(flip sub {})", r.below(20)),
                2 => format!("(\\x -> x * {})", r.below(5)),
                _ if !vars.is_empty() => { let v = r.pick(vars).clone(); format!("(\\x -> x + {})", v) }
                _ => "(three 1 2)".into(),
            };
        }
        match r.below(8) {
            0 | 1 => format!("(comp {} {})", f1(r, d - 1, vars), f1(r, d - 1, vars)),
            2 => format!("(twice {})", f1(r, d - 1, vars)),
            3 => format!("(twice twice {})", f1(r, d - 1, vars)),
            4 => format!("(const {} {})", f1(r, d - 1, vars), r.below(9)),
            5 => {
                let v = format!("k{}", vars.len());
                let mut vs = vars.to_vec();
                vs.push(v.clone());
                format!("(\\{} -> {} {})", v, f1(r, d - 1, &vs), v)
            }
            6 => {
                let v = format!("k{}", vars.len());
                let mut vs = vars.to_vec();
                vs.push(v.clone());
                format!("(let {} = {} {}; {})", v, f1(r, d - 1, vars), r.below(9), f1(r, d - 1, &vs))
            }
            _ => format!("(ii.iterate {} (comp {}) {})", r.below(4), f1(r, d - 1, vars), f1(r, d - 1, vars)),
        }
    }
    for k in 0..r.range(2, 5) {
        let d = r.range(1, 4);
        let f = f1(r, d, &[]);
        let arg = r.below(100);
        s += &match r.below(3) {
            0 => format!("export let r{} : int = {} {};\n", k, f, arg),
            1 => format!("let g{} : int -> int = {};\nexport let r{} : int = g{} (g{} {});\n", k, f, k, k, k, arg),
            _ => format!("export let r{} : int = run (G three0 (G sub (F {}))) {};\n", k, f, arg).replace("three0", "(three 2)"),
        };
    }
    s
}

/// Strings that grow, are cut and live for different times.
fn strings(r: &mut Rng) -> String {
    let mut s = String::from("import ii from \"std/int\";\nimport ss from \"std/string\";\nimport ls (List, Cons, Nil) from \"std/list\";\n");
    s += "type S = Z | S string rec;\n";
    s += "let cat : S -> string = \\fold l -> match l with | Z -> \"\" | S x r -> ss.concat x r end;\n";
    s += "let cut : int -> string -> string = \\n -> \\s -> ss.substring n (ss.length s - n) s;\n";
    s += "let double : string -> string = \\s -> ss.concat s s;\n";
    let lens = [0usize, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 100, 200, 300, 600];
    for k in 0..r.range(1, 4) {
        // a string that is much larger than everything that is alive
        let large = r.chance(12);
        let n = if large { r.range(250, 6000) } else { *r.pick(&lens) };
        let lit: String = (0..n).map(|i| (b'a' + ((i * 7 + k) % 26) as u8) as char).collect();
        s += &format!("let s{} : string = \"{}\";\n", k, lit);
        let m = if large { r.range(1, 6) } else { r.range(1, 40) };
        let e = match r.below(8) {
            0 => format!("ii.iterate {} double s{}", if large { r.range(1, 3) } else { r.range(1, 8) }, k),
            6 => format!("let l = ii.iterate {} (\\l -> S \"{}\" l) Z; ss.concat (ss.concat s{} (cat l)) (cat l)", r.range(0, 12), "keep".repeat(r.range(0, 20)), k),
            7 => format!("let a = ss.concat s{} s{}; let l = ii.iterate {} (\\l -> S (cut 3 a) l) Z; ss.concat a (cat l)", k, k, r.range(0, 6)),
            1 => format!("cat (ii.iterate {} (\\l -> S s{} l) Z)", m, k),
            2 => format!("ii.iterate {} (\\x -> cut 1 (ss.concat x \"zz\")) s{}", m, k),
            3 => format!("cat (ii.iterate {} (\\l -> match l with | Z -> S s{} l | S x r -> S (cut 1 x) l end) Z)", m, k),
            4 => format!("let a = double s{}; let j = ii.iterate {} (\\x -> ss.concat \"#\" (ss.substring 0 30 x)) \"\"; ss.concat a j", k, m),
            _ => format!("ss.concat (ii.iterate {} (\\x -> ss.concat (ii.toString (ss.length x)) x) \"\") (cut {} s{})", m, r.below(5), k),
        };
        s += &format!("export let r{} : string = {};\n", k, e);
    }
    if r.chance(40) {
        s += &format!("export let q : List int = ls.map (\\c -> c + 1) (ss.chars (ss.concat s0 \"{}\"));\n", r.pick(&["", "a", "žą"]));
    }
    s
}
