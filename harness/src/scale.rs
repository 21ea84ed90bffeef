//! P41: sizes make no difference.
//!
//! A case is one program that is large in one way (hundreds of constructors,
//! fields, parameters, captures, definitions, imports, modules; names,
//! strings, comments, lines and numbers of up to 140 thousand bytes) whose
//! values, errors, warnings, definitions, references and completions follow
//! from how it was made.
use crate::cut::{self, Out};
use crate::driver::{Ctx, Tier};
use crate::rng::Rng;
use crate::util::{pos, shorten};
use serde_json::json;
use std::collections::HashMap;

type Place = (usize, usize);

#[derive(Default)]
struct B {
    t: String,
    defs: HashMap<String, Place>,
    uses: Vec<(String, Place)>,
    /// Where an error must be (it overlaps the place) and words of it.
    errors: Vec<(Place, Vec<String>)>,
    /// Names that are never used.
    unused: Vec<String>,
    values: Vec<(String, String)>,
    /// A place where names are completed, and names that must be there.
    complete: Option<(usize, Vec<String>)>,
    modules: Vec<(String, String)>,
    /// Places, and words of what hovering there says.
    hover: Vec<(usize, String)>,
}

impl B {
    fn p(&mut self, s: &str) -> &mut B {
        self.t.push_str(s);
        self
    }
    fn def(&mut self, n: &str) -> &mut B {
        let a = self.t.len();
        self.t.push_str(n);
        self.defs.insert(n.to_owned(), (a, self.t.len()));
        self
    }
    fn usep(&mut self, n: &str) -> &mut B {
        let a = self.t.len();
        self.t.push_str(n);
        self.uses.push((n.to_owned(), (a, self.t.len())));
        self
    }
    fn value(&mut self, n: &str, ty: &str, v: String) -> &mut B {
        self.p("export let ").def(n).p(" : ").p(ty).p(" = ");
        self.values.push((n.to_owned(), v));
        self
    }
    fn last_use(&self) -> Place {
        self.uses.last().unwrap().1
    }
}

fn shuffled(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    r.shuffle(&mut v);
    v
}

/// Around where a number stops fitting in something.
fn size(r: &mut Rng, most: usize) -> usize {
    if most > 2000 && r.chance(5) {
        return r.range(2000, most);
    }
    let n = match r.below(10) {
        0 => r.range(60, 70),
        1 | 2 => r.range(124, 132),
        3 | 4 | 5 => r.range(250, 262),
        6 | 7 => r.range(262, 400),
        8 => r.range(508, 530),
        _ => r.range(700, 1100),
    };
    if n > most {
        r.range(250.min(most), most)
    } else {
        n
    }
}

fn long(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => r.range(120, 135),
        1 | 2 => r.range(250, 260),
        3 => r.range(1000, 5000),
        4 | 5 => r.range(65_520, 65_545),
        6 => r.range(32_760, 32_775),
        _ => r.range(66_000, 140_000),
    }
}

fn word(r: &mut Rng, n: usize) -> String {
    const L: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
    let mut s = String::with_capacity(n + 1);
    // no keyword starts like this
    s.push('q');
    while s.len() < n {
        s.push(L[r.below(L.len())] as char);
    }
    s
}

const KINDS: &[&str] = &[
    "constructors", "fields", "parameters", "captures", "locals", "definitions", "type parameters", "imported names", "modules", "references", "operands", "wrong definitions", "unused", "missing cases", "unreachable case", "wrong fields", "string literal", "built string", "name", "comment", "lines", "leading zeros", "nested types", "folds", "cases of a string", "branches", "applications", "inferred type",
];

fn build(kind: &str, r: &mut Rng, tier: Tier) -> B {
    let most = match tier {
        Tier::Thorough => match kind {
            "constructors" | "missing cases" | "definitions" | "wrong definitions" | "unused" | "references" | "operands" => 5000,
            _ => 1100,
        },
        Tier::Quick => 540,
    };
    let mut b = B::default();
    if matches!(kind, "fields" | "string literal" | "cases of a string" | "built string" | "folds") {
        b.p("import i from \"std/intrinsics\";\n");
    }
    match kind {
        "constructors" | "missing cases" | "unreachable case" | "wrong fields" | "branches" => {
            let n = size(r, most);
            let arity: Vec<usize> = (0..n).map(|_| if r.chance(40) { 0 } else { r.range(1, 3) }).collect();
            b.p("type ").def("T").p(" =");
            for i in 0..n {
                b.p(if i == 0 { " " } else { " | " }).def(&format!("C{}", i)).p(&" int".repeat(arity[i]));
            }
            b.p(";\n");
            let missing: Vec<usize> = if kind == "missing cases" {
                let k = if r.chance(30) { 1 } else { r.range(1, n - 1) };
                shuffled(r, n)[..k].to_vec()
            } else {
                vec![]
            };
            let order = shuffled(r, n);
            b.p("let ").def("f").p(" : ").usep("T").p(" -> int = \\x ->\n    ");
            let start = b.t.len();
            b.p("match x with");
            let wrong = (kind == "wrong fields").then(|| r.below(n));
            let mut wrong_at = None;
            for (k, &c) in order.iter().enumerate() {
                if missing.contains(&c) {
                    continue;
                }
                b.p("\n    | ").usep(&format!("C{}", c));
                let at = b.last_use();
                let fields = if wrong == Some(k) { arity[c] + r.range(1, 3) } else { arity[c] };
                for j in 0..fields {
                    b.p(&format!(" y{}", j));
                }
                if wrong == Some(k) {
                    wrong_at = Some((at, arity[c], fields));
                }
                b.p(&format!(" -> {}", c * 3 + 1));
                for j in 0..fields {
                    b.p(&format!(" + y{} * {}", j, j + 2));
                }
            }
            if kind == "unreachable case" {
                let c = *r.pick(&order);
                let a = b.t.len();
                b.p(" | ").usep(&format!("C{}", c));
                for j in 0..arity[c] {
                    b.p(&format!(" w{}", j));
                }
                b.p(" -> 5");
                for j in 0..arity[c] {
                    b.p(&format!(" + w{}", j));
                }
                let z = b.t.len();
                b.errors.push(((a, z), vec!["unreachable".into()]));
            }
            b.p("\n    end;\n");
            let end = b.t.len();
            if let Some((at, want, got)) = wrong_at {
                b.errors.push((at, vec![format!("expected {} ", want), format!("got {}", got)]));
            }
            if !missing.is_empty() {
                b.errors.push(((start, end), vec!["not covered".into()]));
                let words = &mut b.errors.last_mut().unwrap().1;
                if missing.len() == 1 {
                    words.push(format!("pattern C{} ", missing[0]));
                } else {
                    words.push(format!("#missing {} of {}", missing.len(), missing.iter().map(|c| format!("C{}", c)).collect::<Vec<_>>().join(",")));
                }
            }
            for k in 0..r.range(2, 5) {
                let c = if k == 0 { n - 1 } else { r.below(n) };
                let args: Vec<usize> = (0..arity[c]).map(|_| r.below(100)).collect();
                let v: usize = c * 3 + 1 + args.iter().enumerate().map(|(j, a)| a * (j + 2)).sum::<usize>();
                let name = format!("v{}", k);
                b.value(&name, "int", v.to_string()).usep("f").p(" (").usep(&format!("C{}", c));
                for a in &args {
                    b.p(&format!(" {}", a));
                }
                b.p(");\n");
            }
            b.p("export let ").def("any").p(" : ").usep("T").p(" -> int = \\x -> 1 + ").usep("f").p(" x;\n");
        }
        "fields" => {
            let n = size(r, most);
            let tys: Vec<usize> = (0..n).map(|_| r.below(3)).collect();
            b.p("type ").def("T").p(" = ").def("C");
            for &k in &tys {
                b.p([" int", " string", " (int -> int)"][k]);
            }
            b.p(";\ntype ").def("Nat").p(" = ").def("Z").p(" | ").def("S").p(" rec;\n");
            let ints: Vec<usize> = (0..n).map(|_| r.below(1000)).collect();
            b.p("let ").def("f").p(" : ").usep("T").p(" -> int = \\x -> match x with | ").usep("C");
            for i in 0..n {
                b.p(&format!(" y{}", i));
            }
            b.p(" ->");
            let mut total = 0u64;
            for (k, i) in shuffled(r, n).into_iter().enumerate() {
                b.p(if k == 0 { " " } else { " + " });
                let v = match tys[i] {
                    0 => {
                        b.p(&format!("y{}", i));
                        ints[i] as u64
                    }
                    1 => {
                        b.p(&format!("i.stringLength y{}", i));
                        ints[i].to_string().len() as u64
                    }
                    _ => {
                        b.p(&format!("y{} {}", i, k));
                        (ints[i] + k) as u64
                    }
                };
                total = total.wrapping_add(v);
            }
            b.p(" end;\n");
            b.p("let ").def("make").p(" : int -> ").usep("T").p(" = \\d -> ").usep("C");
            for i in 0..n {
                match tys[i] {
                    0 => b.p(&format!(" ({} + d)", ints[i])),
                    1 => b.p(&format!(" (i.intToString ({} + d))", ints[i])),
                    _ => b.p(&format!(" (\\k -> {} + k + d)", ints[i])),
                };
            }
            b.p(";\n");
            b.value("v", "int", total.to_string()).usep("f").p(" (").usep("make").p(" 0);\n");
            b.p("let ").def("count").p(" : ").usep("Nat").p(" -> int = \\fold n -> match n with | ").usep("Z").p(" -> 0 | ").usep("S").p(" k -> k + ").usep("f").p(" (").usep("make").p(" 0) end;\n");
            let deep = r.range(3, 20);
            b.value("w", "int", (total.wrapping_mul(deep as u64)).to_string()).usep("count").p(" ");
            for _ in 0..deep {
                b.p("(").usep("S").p(" ");
            }
            b.usep("Z").p(&")".repeat(deep)).p(";\n");
        }
        "parameters" | "captures" | "applications" => {
            let n = size(r, most.min(700));
            let k = r.range(0, n - 1);
            b.p("let ").def("f").p(" : ").p(&"int -> ".repeat(n)).p(if kind == "captures" { "int -> int = " } else { "int = " });
            let ws: Vec<u64> = (0..n).map(|_| r.below(9) as u64).collect();
            for i in 0..n {
                b.p(&format!("\\y{} -> ", i));
                if kind == "applications" && i % 50 == 49 {
                    b.p(&format!("let z{} : int = y{} * 2; ", i, i));
                }
            }
            let mut sum = |b: &mut B, r: &mut Rng| {
                for (j, i) in shuffled(r, n).into_iter().enumerate() {
                    b.p(if j == 0 { "" } else { " + " });
                    if kind == "applications" && i % 50 == 49 {
                        b.p(&format!("z{} * {}", i, ws[i]));
                    } else {
                        b.p(&format!("y{} * {}", i, ws[i]));
                    }
                }
            };
            if kind == "captures" {
                b.p("let g : int -> int = \\z -> z * 2 + ");
                sum(&mut b, r);
                b.p("; \\q -> g (g q);\n");
            } else {
                sum(&mut b, r);
                b.p(";\n");
            }
            let args: Vec<u64> = (0..n).map(|_| r.below(1000) as u64).collect();
            let s: u64 = (0..n).map(|i| args[i] * ws[i] * if kind == "applications" && i % 50 == 49 { 2 } else { 1 }).sum();
            b.p("let ").def("half").p(" : ").p(&"int -> ".repeat(n - k)).p(if kind == "captures" { "int -> int = " } else { "int = " }).usep("f");
            for a in &args[..k] {
                b.p(&format!(" {}", a));
            }
            b.p(";\n");
            let v = if kind == "captures" { (3 * 2 + s) * 2 + s } else { s };
            b.value("v", "int", v.to_string()).usep("half");
            for a in &args[k..] {
                b.p(&format!(" {}", a));
            }
            b.p(if kind == "captures" { " 3;\n" } else { ";\n" });
        }
        "locals" => {
            let n = size(r, most);
            b.value("v", "int", String::new());
            let mut vals: Vec<u64> = vec![];
            for i in 0..n {
                let (from, k) = (if i == 0 { None } else { Some(if r.chance(50) { i - 1 } else { r.below(i) }) }, r.below(50) as u64);
                let v = from.map_or(0, |j| vals[j]).wrapping_add(k);
                b.p("\n    let ").def(&format!("y{}", i)).p(" : int = ");
                if let Some(j) = from {
                    b.usep(&format!("y{}", j)).p(" + ");
                }
                b.p(&format!("{};", k));
                vals.push(v);
            }
            let mut t = 0u64;
            b.p("\n    ");
            for (j, i) in shuffled(r, n).into_iter().enumerate() {
                b.p(if j == 0 { "" } else { " + " }).usep(&format!("y{}", i));
                t = t.wrapping_add(vals[i]);
            }
            b.p(";\n");
            b.values.last_mut().unwrap().1 = t.to_string();
        }
        "definitions" | "wrong definitions" | "unused" => {
            let n = size(r, most);
            let mut vals: Vec<Option<u64>> = vec![];
            let mut last_used = vec![false; n];
            let bad: Vec<usize> = if kind == "wrong definitions" {
                let k = r.range(1, 4);
                shuffled(r, n)[..k].to_vec()
            } else {
                vec![]
            };
            for i in 0..n {
                let exported = kind != "unused" || r.chance(30);
                let name = format!("v{}", i);
                b.p(if exported { "export let " } else { "let " }).def(&name).p(" : int = ");
                if bad.contains(&i) {
                    let a = b.t.len();
                    b.p("\"text\";\n");
                    b.errors.push(((a, a + 6), vec!["string".into(), "int".into()]));
                    vals.push(None);
                    continue;
                }
                let from = if i == 0 || r.chance(20) { None } else { Some(if r.chance(50) { i - 1 } else { r.below(i) }) };
                let k = r.below(50) as u64;
                if let Some(j) = from {
                    b.usep(&format!("v{}", j)).p(" + ");
                    last_used[j] = true;
                }
                b.p(&format!("{};\n", k));
                let v = from.map_or(Some(0), |j| vals[j]).map(|v| v.wrapping_add(k));
                vals.push(v);
                if exported {
                    b.values.push((name, v.unwrap_or(0).to_string()));
                } else {
                    b.unused.push(name);
                }
            }
            // a use in a definition that is not used counts as a use
            let used: Vec<String> = (0..n).filter(|i| last_used[*i]).map(|i| format!("v{}", i)).collect();
            b.unused.retain(|x| !used.contains(x));
            if kind == "wrong definitions" {
                b.values.clear();
            }
            b.complete = Some((0, (0..n).map(|i| format!("v{}", i)).collect()));
            b.p("export let ").def("z").p(" : int = ");
            let at = b.t.len();
            let j = r.below(n);
            b.usep(&format!("v{}", j));
            b.p(";\n");
            b.unused.retain(|x| *x != format!("v{}", j));
            b.complete.as_mut().unwrap().0 = at;
            b.hover.push((at, "int".into()));
            if kind != "wrong definitions" {
                let v = vals[j].unwrap();
                b.values.push(("z".into(), v.to_string()));
            }
        }
        "type parameters" => {
            let n = size(r, most.min(400));
            let pick = shuffled(r, n)[..r.range(1, 6)].to_vec();
            b.p("type ").def("T");
            for i in 0..n {
                b.p(&format!(" a{}", i));
            }
            b.p(" = ").def("C");
            for i in 0..n {
                b.p(&format!(" a{}", i));
            }
            b.p(";\n");
            let mut decl = |b: &mut B, of: &dyn Fn(usize) -> String| {
                b.usep("T");
                for i in 0..n {
                    b.p(&format!(" {}", of(i)));
                }
            };
            for (k, &i) in pick.iter().enumerate() {
                b.p("let ").def(&format!("get{}", k)).p(" : ");
                decl(&mut b, &|j| format!("a{}", j));
                b.p(&format!(" -> a{} = \\t -> match t with | ", i)).usep("C");
                for j in 0..n {
                    b.p(&if j == i { " y".to_owned() } else { format!(" _{}", j) });
                }
                b.p(" -> y end;\n");
            }
            let ty = |j: usize| if j % 3 == 1 { "string".to_owned() } else { "int".to_owned() };
            let bad = r.chance(30);
            b.p("let ").def("t").p(" : ");
            decl(&mut b, &ty);
            b.p(" = ").usep("C");
            for j in 0..n {
                b.p(&if j % 3 == 1 { format!(" \"{}\"", j) } else { format!(" {}", j) });
            }
            b.p(";\n");
            for (k, &i) in pick.iter().enumerate() {
                let v = if i % 3 == 1 { format!("\"{}\"", i) } else { i.to_string() };
                b.value(&format!("v{}", k), &ty(i), v).usep(&format!("get{}", k)).p(" ").usep("t").p(";\n");
            }
            if bad {
                b.values.clear();
                let less = if r.chance(50) { n - 1 } else { n + 1 };
                b.p("export let ").def("w").p(" : ").usep("T");
                let a = b.last_use();
                b.p(&" int".repeat(less)).p(" -> int = \\x -> let y : int = 1; y;\n");
                let (n, less) = (n.to_string(), less.to_string());
                b.errors.push((a, vec![format!("#number {}", n), format!("#number {}", less)]));
            }
        }
        "imported names" => {
            let n = size(r, most);
            let mut m = String::new();
            for i in 0..n {
                m.push_str(&format!("export let x{} : int = {};\n", i, i * 7 + 1));
            }
            b.modules.push(("m".into(), m));
            let order = shuffled(r, n);
            let exposed = r.range(1, n);
            let gone = r.chance(30);
            b.p("import ").def("m").p("(");
            for (k, i) in order[..exposed].iter().enumerate() {
                b.p(if k == 0 { "" } else { ", " }).def(&format!("x{}", i));
            }
            if gone {
                let a = b.t.len() + 2;
                b.p(", x").p(&n.to_string());
                let z = b.t.len();
                b.errors.push(((a, z), vec![format!("x{}", n)]));
            }
            b.p(") from \"m\";\n");
            let mut total = 0;
            b.value("v", "int", String::new());
            for (k, &i) in order.iter().enumerate() {
                b.p(if k == 0 { "" } else { " + " });
                if k < exposed {
                    b.usep(&format!("x{}", i));
                } else {
                    b.p("m").p(&format!(".x{}", i));
                }
                total += i * 7 + 1;
            }
            b.p(";\n");
            b.values[0].1 = total.to_string();
            if exposed == n {
                b.unused.push("m".into());
            }
            if gone {
                b.values.clear();
            }
        }
        "modules" => {
            let n = size(r, most.min(300));
            for i in 0..n {
                let mut m = String::new();
                if i > 0 {
                    m.push_str(&format!("import p from \"m{}\";\n", i - 1));
                }
                m.push_str(&format!("export let x : int = {};\n", if i > 0 { "p.x + 2" } else { "2" }));
                b.modules.push((format!("m{}", i), m));
            }
            let mut total = 0;
            let order = shuffled(r, n);
            let used = r.range(1, n.min(60));
            for &i in &order[..used] {
                b.p("import ").def(&format!("n{}", i)).p(&format!(" from \"m{}\";\n", i));
            }
            b.value("v", "int", String::new());
            for (k, &i) in order[..used].iter().enumerate() {
                b.p(if k == 0 { "" } else { " + " }).p(&format!("n{}.x", i));
                total += (i + 1) * 2;
            }
            b.p(";\n");
            b.values[0].1 = total.to_string();
        }
        "references" | "operands" => {
            let n = size(r, most * 2);
            let m = r.range(1, 4);
            let k: Vec<u64> = (0..m).map(|_| r.below(100) as u64).collect();
            for (i, k) in k.iter().enumerate() {
                b.p("let ").def(&format!("x{}", i)).p(&format!(" : int = {};\n", k));
            }
            b.value("v", "int", String::new());
            let mut t = 0u64;
            for j in 0..n {
                let i = r.below(m);
                let op = if j == 0 { 0 } else { r.below(3) };
                b.p(if j == 0 { "" } else { [" + ", " - ", "\n    - 2 * "][op] }).usep(&format!("x{}", i));
                t = match op {
                    0 => t.wrapping_add(k[i]),
                    1 => t.wrapping_sub(k[i]),
                    _ => t.wrapping_sub(2 * k[i]),
                };
            }
            b.p(";\n");
            b.values[0].1 = t.to_string();
            for i in 0..m {
                let x = format!("x{}", i);
                if !b.uses.iter().any(|u| u.0 == x) {
                    b.unused.push(x);
                }
            }
        }
        "string literal" | "cases of a string" => {
            let n = long(r);
            let mut s = String::new();
            while s.len() < n {
                s.push(*r.pick(&['a', 'b', ' ', '-', ';', 'Z', '0', 'é', '世', '😀']));
            }
            b.p("let ").def("s").p(&format!(" : string = \"{}\";\n", s));
            let at = r.below(s.len());
            let (from, len) = (r.below(s.len()), r.below(s.len()));
            b.value("n", "int", s.len().to_string()).p("i.stringLength ").usep("s").p(";\n");
            b.value("c", "int", s.as_bytes()[at].to_string()).p(&format!("i.stringCharAt {} ", at)).usep("s").p(";\n");
            let cut = &s.as_bytes()[from..(from + len).min(s.len())];
            b.value("m", "int", cut.len().to_string()).p(&format!("i.stringLength (i.stringSubstring {} {} ", from, len)).usep("s").p(");\n");
            b.value("d", "int", s.as_bytes()[s.len() - 1].to_string()).p("let k : int = ").usep("n").p(" - 1; i.stringCharAt k ").usep("s").p(";\n");
        }
        "built string" => {
            // doubled, and pieces of it added
            let mut want: Vec<u8> = vec![];
            let first = r.range(1, 9);
            for _ in 0..first {
                want.push(b'a' + r.below(26) as u8);
            }
            b.p("let ").def("s0").p(&format!(" : string = \"{}\";\n", String::from_utf8(want.clone()).unwrap()));
            let n = r.range(4, 15);
            for i in 1..=n {
                let c = b'a' + r.below(26) as u8;
                b.p("let ").def(&format!("s{}", i)).p(" : string = i.stringConcat ").usep(&format!("s{}", i - 1)).p(" (i.stringConcat (i.stringFromChar ").p(&c.to_string()).p(") ").usep(&format!("s{}", i - 1)).p(");\n");
                let mut w = want.clone();
                w.push(c);
                w.extend(&want);
                want = w;
            }
            let s = format!("s{}", n);
            b.value("n", "int", want.len().to_string()).p("i.stringLength ").usep(&s).p(";\n");
            for k in 0..3 {
                let at = if k == 0 { want.len() - 1 } else { r.below(want.len()) };
                b.value(&format!("c{}", k), "int", want[at].to_string()).p(&format!("i.stringCharAt {} ", at)).usep(&s).p(";\n");
            }
            let (from, len) = (r.below(want.len()), r.below(60));
            let part = String::from_utf8(want[from..(from + len).min(want.len())].to_vec()).unwrap();
            b.value("p", "string", format!("\"{}\"", part)).p(&format!("i.stringSubstring {} {} ", from, len)).usep(&s).p(";\n");
        }
        "name" => {
            let n = long(r);
            let x = word(r, n);
            let mut y = x.clone();
            y.pop();
            // differs in the last letter only, or is one shorter
            if r.chance(60) {
                y.push(if x.ends_with('A') { 'B' } else { 'A' });
            }
            b.value(&x, "int", "3".into()).p("3;\n");
            let one_bad = r.chance(30);
            if one_bad {
                b.p("export let ").def("w").p(" : int = ");
                let a = b.t.len();
                b.p(&y).p(";\n");
                let z = b.t.len() - 2;
                b.errors.push(((a, z), vec![]));
                b.values.clear();
            } else {
                b.value(&y, "int", "4".into()).p("4;\n");
                b.value("v", "int", "10".into()).usep(&x).p(" * 2 + ").usep(&y).p(";\n");
            }
        }
        "comment" | "lines" => {
            let n = long(r);
            let mut c = String::new();
            if kind == "comment" {
                c.push_str("-- ");
                while c.len() < n {
                    c.push(*r.pick(&['a', ' ', '"', '-', ';', 'é', '世', '😀']));
                }
                c.push('\n');
            } else {
                for _ in 0..n / 8 {
                    c.push_str(*r.pick(&["\n", "  \n", "-- x\n", "\r\n"]));
                }
            }
            b.p("let ").def("x").p(" : int = 5;\n").p(&c);
            b.p("let ").def("u").p(" : int = 5; ").p(&c);
            b.unused.push("u".into());
            b.value("v", "int", "15".into()).usep("x").p(" +\n").p(&c).p(" ").usep("x").p(" * 2;\n");
            if r.chance(30) {
                b.values.clear();
                b.p("export let ").def("w").p(" : int = ");
                let a = b.t.len();
                b.p("\"text\"").p(&c);
                b.errors.push(((a, a + 6), vec!["string".into(), "int".into()]));
                b.p(";\n");
            }
        }
        "leading zeros" => {
            let n = long(r).min(70_000);
            let k = r.next();
            b.value("v", "int", k.to_string()).p(&"0".repeat(n)).p(&k.to_string()).p(";\n");
            if r.chance(40) {
                b.values.clear();
                b.p("export let ").def("w").p(" : int = ");
                let a = b.t.len();
                let d = if r.chance(50) { "18446744073709551616".to_owned() } else { format!("1{}", "0".repeat(n)) };
                b.p(&d);
                let z = b.t.len();
                b.p(";\n");
                b.errors.push(((a, z), vec![]));
            }
        }
        "nested types" | "inferred type" => {
            // a function of many parameters, its type compared with itself
            let n = size(r, most.min(300));
            let tys: Vec<usize> = (0..n).map(|_| r.below(3)).collect();
            let t: String = tys.iter().map(|k| ["int -> ", "string -> ", "(int -> int) -> "][*k]).collect();
            let bad = r.chance(40).then(|| r.below(n));
            let u: String = tys.iter().enumerate().map(|(i, k)| if bad == Some(i) { "bool -> " } else { ["int -> ", "string -> ", "(int -> int) -> "][*k] }).collect();
            b.p("let ").def("f").p(" : ").p(&t).p("int = ");
            for i in 0..n {
                b.p(&format!("\\_{} -> ", i));
            }
            b.p("7;\n");
            if kind == "nested types" {
                b.p("let ").def("g").p(" : ").p(&u).p("int = ").usep("f");
                let a = b.last_use();
                b.p(";\n");
                if bad.is_some() {
                    b.errors.push((a, vec![]));
                }
            } else {
                b.p("let ").def("g").p(" : ").p(&u).p("int = ");
                let start = b.t.len();
                for i in 0..n {
                    b.p(&format!("\\y{} -> ", i));
                }
                b.usep("f");
                for i in 0..n {
                    b.p(&format!(" y{}", i));
                }
                let end = b.t.len();
                b.p(";\n");
                if bad.is_some() {
                    b.errors.push(((start, end), vec!["bool".into()]));
                }
            }
            b.value("v", "int", "7".into()).usep("g");
            for (i, k) in tys.iter().enumerate() {
                b.p(if bad == Some(i) { " true" } else { [" 1", " \"a\"", " (\\x -> x)"][*k] });
            }
            b.p(";\n");
            if bad.is_some() {
                b.values.clear();
            }
        }
        "folds" => {
            let n = size(r, most);
            b.p("type ").def("L").p(" = ").def("N").p(" | ").def("K").p(" int rec;\nlet ").def("sum").p(" : ").usep("L").p(" -> int = \\fold l -> match l with | ").usep("N").p(" -> 0 | ").usep("K").p(" x r -> x + r * 3 end;\n");
            b.p("let ").def("join").p(" : ").usep("L").p(" -> string = \\fold l -> match l with | ").usep("N").p(" -> \"\" | ").usep("K").p(" x r -> i.stringConcat (i.intToString x) r end;\n");
            let xs: Vec<u64> = (0..n).map(|_| r.below(1000) as u64).collect();
            b.p("let ").def("l").p(" : ").usep("L").p(" = ");
            for x in &xs {
                b.usep("K").p(&format!(" {} (", x));
            }
            b.usep("N").p(&")".repeat(n)).p(";\n");
            let v = xs.iter().rev().fold(0u64, |a, x| x.wrapping_add(a.wrapping_mul(3)));
            b.value("v", "int", v.to_string()).usep("sum").p(" ").usep("l").p(";\n");
            let s: String = xs.iter().map(|x| x.to_string()).collect();
            b.value("s", "string", format!("\"{}\"", s)).usep("join").p(" ").usep("l").p(";\n");
        }
        _ => unreachable!(),
    }
    b
}

fn span(s: cut::Span) -> Place {
    (s.start().source_pos(), s.end().source_pos())
}

fn says(m: &str, w: &str) -> bool {
    if let Some(n) = w.strip_prefix("#number ") {
        return m.split(|c: char| !c.is_alphanumeric()).any(|x| x == n);
    }
    if let Some(rest) = w.strip_prefix("#missing ") {
        // the names given and the number of others make up those missing
        let (k, names) = rest.split_once(" of ").unwrap();
        let names: Vec<&str> = names.split(',').collect();
        let k: usize = k.parse().unwrap();
        let mut told = 0;
        let mut seen = vec![];
        for x in m.split(|c: char| !c.is_alphanumeric()) {
            if names.contains(&x) {
                if seen.contains(&x) {
                    return false;
                }
                seen.push(x);
                told += 1;
            } else if x.starts_with('C') && x[1..].parse::<usize>().is_ok() {
                return false;
            } else if let Ok(n) = x.parse::<usize>() {
                told += n;
            }
        }
        return told == k;
    }
    m.contains(w)
}

pub fn p41(ctx: &mut Ctx) {
    let mut r = ctx.rng("P41");
    let kind = KINDS[(ctx.case as usize).wrapping_add(r.below(2)) % KINDS.len()];
    let mut b = build(kind, &mut r, ctx.tier);
    // far from the start of the file
    let mut shift = 0;
    if r.chance(25) {
        let n = long(&mut r);
        let mut c = String::new();
        while c.len() < n {
            c.push_str("-- ");
            c.push_str(&word(&mut r, 60));
            c.push('\n');
        }
        shift = c.len();
        b.t = c + &b.t;
    }
    let mv = |p: Place| (p.0 + shift, p.1 + shift);
    let text = b.t.clone();
    let mut files = b.modules.clone();
    files.push(("main".into(), text.clone()));
    ctx.begin(&files);
    let optimize = r.chance(50);
    let got = cut::guard(|| cut::compile(&files, cut::opts(optimize)));
    let (mut u, ds) = match got {
        Ok(x) => x,
        Err(e) => {
            ctx.fail(&format!("crash: {}", e), format!("{}, {} bytes", kind, text.len()), &files);
            return;
        }
    };
    ctx.eval();
    ctx.count(&format!("many: {}", kind), 1);
    let fail = |ctx: &mut Ctx, what: &str, d: String| ctx.fail(what, format!("{}, {} bytes: {}", kind, text.len(), shorten(&d, 600)), &files);
    for d in ds[..ds.len() - 1].iter().flatten() {
        fail(ctx, "complaint about a module", format!("{:?}", d));
        return;
    }
    let ds = ds.last().unwrap();
    let mut left: Vec<(Place, Vec<String>)> = b.errors.iter().map(|(p, w)| (mv(*p), w.clone())).collect();
    for d in ds.iter().filter(|d| d.error) {
        let k = left.iter().position(|(p, w)| d.start < p.1.max(p.0 + 1) && p.0 < d.end.max(d.start + 1) && w.iter().all(|w| says(&d.message, w)));
        match k {
            Some(k) => {
                left.remove(k);
            }
            None => {
                fail(ctx, "error", format!("{:?} is not one of {:?}", d, left));
                return;
            }
        }
    }
    if let Some(x) = left.first() {
        fail(ctx, "no error", format!("{:?}: got {:?}", x, ds.iter().filter(|d| d.error).collect::<Vec<_>>()));
        return;
    }
    if b.errors.is_empty() && kind != "inferred type" {
        // warnings about definitions, by place; locals are left out
        let mut want: Vec<Place> = b.unused.iter().map(|n| mv(b.defs[n])).collect();
        let tops: Vec<Place> = b.defs.values().map(|p| mv(*p)).collect();
        let mut have: Vec<Place> = ds.iter().map(|d| (d.start, d.end)).filter(|p| tops.contains(p)).collect();
        want.sort();
        have.sort();
        if want != have {
            let d: Vec<_> = want.iter().filter(|x| !have.contains(x)).map(|x| ("not warned", &text[x.0..x.1])).chain(have.iter().filter(|x| !want.contains(x)).map(|x| ("warned", &text[x.0..x.1]))).collect();
            fail(ctx, "warnings", format!("{:?}", d));
            return;
        }
    }
    // navigation
    let mut of: HashMap<&str, Vec<Place>> = HashMap::new();
    for (n, p) in &b.uses {
        of.entry(n).or_default().push(mv(*p));
    }
    let picks: Vec<usize> = (0..4.min(b.uses.len())).map(|k| if k == 0 { b.uses.len() - 1 } else { r.below(b.uses.len()) }).collect();
    for k in picks {
        let (n, p) = &b.uses[k];
        let Some(d) = b.defs.get(n) else { continue };
        let (p, d) = (mv(*p), mv(*d));
        let at = if r.chance(50) { p.0 } else { r.range(p.0, p.1 - 1) };
        let got = cut::guard(|| {
            let f = u.find_definition(pos(at)).map(span);
            let rf = u.find_references(pos(at)).map(|v| {
                let mut v: Vec<Place> = v.into_iter().map(span).collect();
                v.sort();
                v
            });
            (f, rf)
        });
        ctx.eval();
        match got {
            Err(e) => {
                fail(ctx, &format!("crash: {}", e), format!("navigating at {}", at));
                return;
            }
            Ok((f, rf)) => {
                if f != Some(d) {
                    fail(ctx, "wrong definition", format!("at {} ({}): {:?}, should be {:?}", at, n, f, d));
                    return;
                }
                // whether the definition is one of them is for P05
                let mut want = of[n.as_str()].clone();
                want.sort();
                let rf: Vec<Place> = rf.unwrap_or_default().into_iter().filter(|x| *x != d).collect();
                if rf != want {
                    fail(ctx, "wrong references", format!("at {} ({}): {} of {}", at, n, rf.len(), want.len()));
                    return;
                }
            }
        }
    }
    if let Some((at, names)) = &b.complete {
        let at = at + shift;
        let got = cut::guard(|| u.completions(pos(at)).map(|v| v.into_iter().map(|c| c.name.to_string()).collect::<std::collections::HashSet<_>>()));
        ctx.eval();
        match got {
            Ok(Some(l)) => {
                if let Some(n) = names.iter().find(|n| !l.contains(*n)) {
                    fail(ctx, "not offered", format!("{} of {} names, {} offered", n, names.len(), l.len()));
                    return;
                }
            }
            Ok(None) => {
                fail(ctx, "nothing offered", format!("at {}", at));
                return;
            }
            Err(e) => {
                fail(ctx, &format!("crash: {}", e), "completing".into());
                return;
            }
        }
    }
    for (at, w) in &b.hover {
        let at = at + shift;
        let got = cut::guard(|| u.info(pos(at)).map(|i| i.doc));
        ctx.eval();
        match got {
            Ok(Some(d)) if d.contains(w.as_str()) => {}
            x => {
                fail(ctx, "wrong information", format!("{:?} at {}", x, at));
                return;
            }
        }
    }
    // tokens cover the text in order
    let mut end = 0;
    let mut bad = None;
    let toks = cut::guard(|| u.tokens().map(|t| span(t.span)).collect::<Vec<_>>());
    match toks {
        Err(e) => {
            fail(ctx, &format!("crash: {}", e), "tokens".into());
            return;
        }
        Ok(ts) => {
            for t in &ts {
                if t.0 < end || t.1 > text.len() || t.1 <= t.0 || text[end..t.0].contains(|c: char| c.is_alphanumeric()) {
                    bad = Some(*t);
                    break;
                }
                end = t.1;
            }
            let places: std::collections::HashSet<Place> = ts.into_iter().collect();
            if bad.is_none() {
                bad = b.uses.iter().map(|x| mv(x.1)).chain(b.defs.values().map(|p| mv(*p))).find(|p| !places.contains(p));
            }
        }
    }
    if let Some(t) = bad {
        fail(ctx, "wrong tokens", format!("at {:?}", t));
        return;
    }
    if b.errors.is_empty() {
        let mut want: Vec<String> = b.values.iter().map(|(n, v)| format!("{} = {}", n, v)).collect();
        want.sort();
        for run in cut::RUNNERS {
            ctx.eval();
            match cut::run(&mut u, run) {
                Out::Values(s) => {
                    let mut got: Vec<String> = s.lines().map(|l| l.to_owned()).filter(|l| !l.ends_with("<function>") && !l.starts_with("any = ")).collect();
                    got.sort();
                    if got != want {
                        let d = want.iter().zip(&got).find(|(a, b)| a != b).map(|(a, b)| (shorten(a, 150), shorten(b, 150)));
                        fail(ctx, "wrong values", format!("{:?} (optimized: {}): {} values, should be {}; {:?}", run, optimize, got.len(), want.len(), d));
                        return;
                    }
                }
                x => {
                    let x = format!("{:?}", x);
                    fail(ctx, "does not run", format!("{:?} (optimized: {}): {}", run, optimize, shorten(&x, 300)));
                    return;
                }
            }
        }
    }
    ctx.class(&format!("{} {} {} {}", kind, b.t.len() / 64, b.errors.len(), b.unused.len()));
    ctx.sample(|| json!({"kind": kind, "bytes": text.len(), "definitions": b.defs.len(), "uses": b.uses.len(), "errors": b.errors.len(), "unused": b.unused.len(), "values": b.values.len()}));
}
