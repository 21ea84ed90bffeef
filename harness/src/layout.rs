//! P32: layout of tokens by the formatter library.
use crate::cut::guard;
use crate::driver::Ctx;
use crate::rng::Rng;
use formatter::{FormatBuilder, Node, Sticky};
use serde_json::json;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Token(String, bool, bool),
    Newline,
    LargeNewline,
    Space(String),
    Start(bool, bool),
    Finish,
}

fn events(r: &mut Rng) -> Vec<Ev> {
    let n = match r.below(4) {
        0 => r.range(1, 8),
        1 => r.range(40, 120),
        _ => r.range(8, 40),
    };
    let mut depth = 0;
    let mut out = vec![];
    for _ in 0..n {
        out.push(match r.below(14) {
            0..=4 => {
                let t = r.pick(&["a", "let", "=", "(", ")", "->", "x1", "\"s t\"", "🦀", "match", ",", "-- c"]).to_string();
                let s = r.chance(60);
                Ev::Token(t, !s && r.chance(50), !s && r.chance(50))
            }
            5 | 6 => Ev::Newline,
            7 | 8 => Ev::LargeNewline,
            9 => Ev::Space(r.pick(&["", " ", "\n", "   \n\n  ", "\r\n", "\t"]).to_string()),
            10 | 11 | 12 if depth < 9 => {
                depth += 1;
                Ev::Start(r.chance(25), r.chance(60))
            }
            _ if depth > 0 => {
                depth -= 1;
                Ev::Finish
            }
            _ => Ev::Newline,
        });
    }
    if r.chance(85) {
        out.extend(vec![Ev::Finish; depth]);
    }
    out
}

/// The layout, worked out event by event from what came before.
fn expected(evs: &[Ev]) -> String {
    struct N {
        parent: usize,
        large: bool,
        /// Nearest node that indents, itself included; the root counts.
        indents: usize,
        started: usize,
    }
    let mut nodes = vec![N { parent: 0, large: false, indents: 0, started: 0 }];
    let mut at = vec![];
    let mut cur = 0;
    for (i, e) in evs.iter().enumerate() {
        match e {
            Ev::Start(large, indents) => {
                let k = nodes.len();
                nodes.push(N { parent: cur, large: *large, indents: if *indents { k } else { nodes[cur].indents }, started: i });
                cur = k;
            }
            Ev::Finish => cur = nodes[cur].parent,
            _ => {}
        }
        at.push(cur);
    }
    for k in (1..nodes.len()).rev() {
        let p = nodes[k].parent;
        nodes[p].large |= nodes[k].large;
    }
    // which events break a line
    let mut breaks = vec![false; evs.len()];
    let mut token_on_line = false;
    for (i, e) in evs.iter().enumerate() {
        let wants = match e {
            Ev::Newline => true,
            Ev::LargeNewline => nodes[at[i]].large,
            Ev::Space(s) => s.contains('\n'),
            Ev::Token(..) => {
                token_on_line = true;
                false
            }
            _ => false,
        };
        if wants && token_on_line {
            breaks[i] = true;
            token_on_line = false;
        }
    }
    let depth_of = |k: usize| {
        let mut d = 0;
        let mut k = k;
        while k != 0 {
            let outer = nodes[nodes[k].parent].indents;
            let from = nodes[k].started;
            if outer == 0 || (0..from).any(|i| breaks[i] && nodes[at[i]].indents == outer) {
                d += 1;
            }
            k = outer;
        }
        d
    };
    let mut out = String::new();
    let mut last: Option<bool> = None;
    let mut fresh = false;
    for (i, e) in evs.iter().enumerate() {
        if breaks[i] {
            out.push('\n');
            last = None;
            fresh = true;
        }
        if let Ev::Token(t, prev, next) = e {
            if last == Some(false) && !prev {
                out.push(' ');
            }
            if fresh {
                let mut k = nodes[at[i]].indents;
                while k != 0 && !(0..i).any(|j| matches!(evs[j], Ev::Token(..)) && nodes[at[j]].indents == k) {
                    k = nodes[nodes[k].parent].indents;
                }
                out += &"    ".repeat(depth_of(k));
                fresh = false;
            }
            out += t;
            last = Some(*next);
        }
    }
    out
}

pub fn p32(ctx: &mut Ctx) {
    let mut r = ctx.rng("P32");
    for _ in 0..20 {
        let evs = events(&mut r);
        ctx.eval();
        let shown = vec![("events".to_owned(), format!("{:?}", evs))];
        ctx.begin(&shown);
        let got = guard(|| {
            let mut b = FormatBuilder::new();
            for e in &evs {
                match e {
                    Ev::Token(t, false, false) => b.add_token(t),
                    Ev::Token(t, true, true) => b.add_sticky_token(t, Sticky::Both),
                    Ev::Token(t, true, false) => b.add_sticky_token(t, Sticky::Prev),
                    Ev::Token(t, false, true) => b.add_sticky_token(t, Sticky::Next),
                    Ev::Newline => b.add_newline(),
                    Ev::LargeNewline => b.add_large_newline(),
                    Ev::Space(s) => b.add_whitespace(s),
                    Ev::Start(large, indents) => b.start_node(Node { large: *large, indents: *indents }),
                    Ev::Finish => b.finish_node(),
                }
            }
            b.finish()
        });
        let got = match got {
            Ok(g) => g,
            Err(p) => {
                ctx.fail(&format!("formatter crashed: {}", p), p, &shown);
                return;
            }
        };
        let tokens: String = evs.iter().filter_map(|e| if let Ev::Token(t, ..) = e { Some(t.replace(' ', "")) } else { None }).collect();
        if got.replace([' ', '\n'], "") != tokens {
            ctx.fail("tokens are lost, reordered or changed", format!("{:?}\n{:?}", tokens, got), &shown);
            return;
        }
        if got.contains("\n\n") || got.starts_with('\n') || got.lines().any(|l| l.ends_with(' ')) {
            ctx.fail("blank line or trailing space", format!("{:?}", got), &shown);
            return;
        }
        let want = expected(&evs);
        if got != want {
            let words = |s: &str| s.split_whitespace().map(|x| x.to_owned()).collect::<Vec<_>>();
            let lines = |s: &str| s.lines().map(|l| l.trim_start().to_owned()).collect::<Vec<_>>();
            let key = if words(&got) != words(&want) {
                "wrong spaces between tokens"
            } else if lines(&got) != lines(&want) {
                "wrong line breaks"
            } else {
                "wrong indentation"
            };
            ctx.fail(key, format!("expected\n{}\n---- got\n{}", want, got), &shown);
            return;
        }
        ctx.count("tokens", evs.iter().filter(|e| matches!(e, Ev::Token(..))).count() as u64);
        ctx.count("lines", got.lines().count() as u64);
        ctx.count("indented_lines", got.lines().filter(|l| l.starts_with(' ')).count() as u64);
        let line = |l: &str| (l.len() - l.trim_start().len()) / 4;
        ctx.class(&format!("{:?}", got.lines().map(|l| (line(l), l.matches(' ').count())).take(8).collect::<Vec<_>>()));
        ctx.sample(|| json!({"events": format!("{:?}", evs).chars().take(300).collect::<String>(), "text": got}));
    }
}
