//! Arbitrary source texts, from noise to programs with a small damage.
use crate::cut;
use crate::gen::{self, Cfg};
use crate::rng::Rng;
use crate::util;
use std::collections::HashMap;
use std::sync::Arc;

pub fn resolver() -> Arc<cut::MapResolver> {
    Arc::new(cut::MapResolver { map: HashMap::new() })
}

const BITS: &[&str] = &[
    "import", "from", "type", "int", "bool", "string", "rec", "export", "let", "match", "with", "end", "if", "then", "else", "true", "false", "fold", "=", "|", ",", ".", "->", "(", ")", ":", ";", "\\",
    "+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>", "x", "f", "a", "T", "A", "B", "lst", "map", "0", "1", "42", "1x", "18446744073709551616", "\"\"", "\"text\"", "\"std/list\"", "\"a\"", "?hole", "?", "?1", "--", "-- comment\n", "\n", "\r\n",
    "\n\n", "  ", "\t", "#", "ž", "🦀", "\"", "\"open", "\\\\", "_", "__", "e\u{301}", "\u{0}", "\r", "(", ")", ";",
];

const SNIPPETS: &[&str] = &[
    "let x : int = 1;\n",
    "export let f : a -> a = \\x -> x;\n",
    "type T a = A a | B rec rec;\n",
    "export type T = export A | B int;\n",
    "import lst (map, List, Cons, Nil) from \"std/list\";\n",
    "import (A, x, f) from \"a\";\n",
    "import m from \"a\";\n",
    "let y = match A 1 with | A z -> z | B q w -> 2 end;\n",
    "let g : T a -> int = \\fold t -> match t with | A _ -> 1 | B l r -> l + r end;\n",
    "let h = if 1 < 2 then m.x else lst.length Nil;\n",
    "let k : m.T int -> a b = ?todo;\n",
    "let z = let q : b -> b = \\w -> w; q 1 |> q;\n",
    "let main : string -> string = \\s -> s;\n",
    "type U a b = U (a b) (b a) | V (T a a);\n",
    "let u : U int int -> int = \\u -> match u with | U x y -> 1 | V t -> 2 end;\n",
    "let f : a -> a b = \\x -> ?q;\n let z = f 1 2;\n",
];

pub fn damage(s: &str, r: &mut Rng) -> String {
    let mut t: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 5) {
        if t.is_empty() {
            break;
        }
        let k = r.below(t.len());
        match r.below(7) {
            0 => {
                t.remove(k);
            }
            1 => {
                let bit: Vec<char> = r.pick(BITS).chars().collect();
                for (i, c) in bit.into_iter().enumerate() {
                    t.insert(k + i, c);
                }
            }
            2 => {
                let n = r.below(20).min(t.len() - k);
                t.drain(k..k + n);
            }
            3 => t.truncate(k),
            4 => {
                let n = r.below(30).min(t.len() - k);
                let part: Vec<char> = t[k..k + n].to_vec();
                let at = r.below(t.len());
                for (i, c) in part.into_iter().enumerate() {
                    t.insert(at + i, c);
                }
            }
            5 => t[k] = *r.pick(&['(', ')', ';', ' ', '\n', '"', '\\', '|', '.', '#', 'ž', '\u{1F980}', '-', 'a', '0', '\r']),
            _ => {
                // a word is replaced
                let mut e = k;
                while e < t.len() && t[e].is_alphanumeric() {
                    e += 1;
                }
                let bit: Vec<char> = r.pick(BITS).chars().collect();
                t.splice(k..e, bit);
            }
        }
    }
    t.into_iter().collect()
}

/// Tokens of a text are dropped, doubled, swapped or replaced.
pub fn shuffle_tokens(s: &str, r: &mut Rng) -> String {
    let toks = crate::props_front::lex(s);
    let mut words: Vec<String> = toks.iter().map(|t| s[t.1..t.2].to_owned()).collect();
    for _ in 0..r.range(1, 4) {
        if words.is_empty() {
            break;
        }
        let k = r.below(words.len());
        match r.below(5) {
            0 => {
                words.remove(k);
            }
            1 => {
                let w = words[k].clone();
                words.insert(k, w);
            }
            2 => {
                let j = r.below(words.len());
                words.swap(j, k);
            }
            3 => words.insert(k, (*r.pick(BITS)).to_owned()),
            _ => words[k] = (*r.pick(BITS)).to_owned(),
        }
    }
    let mut out = String::new();
    for w in words {
        out.push_str(&w);
        out.push_str(if w.starts_with("--") || r.chance(10) { "\n" } else { " " });
    }
    out
}

pub fn text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => (0..r.below(120)).map(|_| char::from_u32(r.below(0x250) as u32).unwrap_or('x')).collect(),
        1 | 2 => {
            let mut s = String::new();
            for _ in 0..r.below(60) {
                s.push_str(r.pick(BITS));
                if r.chance(60) {
                    s.push(' ');
                }
            }
            s
        }
        3 | 4 => {
            let mut s = String::new();
            for _ in 0..r.range(1, 6) {
                let part = *r.pick(SNIPPETS);
                let part = if r.chance(50) { damage(part, r) } else if r.chance(30) { shuffle_tokens(part, r) } else { part.to_owned() };
                s.push_str(&part);
            }
            s
        }
        5 => {
            // nesting, in moderation
            let n = r.range(1, 60);
            let (a, b) = *r.pick(&[("(", ")"), ("\\x -> ", ""), ("let x = 1; ", ""), ("if true then ", " else 1"), ("1 + ", ""), ("match x with | A -> ", " end"), ("f (", ")"), ("x |> ", "")]);
            format!("let v = {}1{};\n", a.repeat(n), if r.chance(80) { b.repeat(n) } else { String::new() })
        }
        _ => {
            let mut cfg = Cfg::front();
            cfg.modules = (1, 1);
            cfg.budget = 30;
            let p = gen::project(r, &cfg);
            let style = if r.chance(50) { crate::print::FANCY } else { crate::print::MILD };
            let (_, srcs) = util::print_all(&p, r, style);
            let s = srcs.last().unwrap().1.clone();
            match r.below(5) {
                0 | 1 => damage(&s, r),
                2 | 3 => shuffle_tokens(&s, r),
                _ => {
                    let mut s = s;
                    // Windows line ends
                    if r.chance(50) {
                        s = s.replace('\n', "\r\n");
                    }
                    s
                }
            }
        }
    }
}
