//! P39: a syntax tree gives back what it was built of.
use crate::cut::guard;
use crate::driver::Ctx;
use crate::rng::Rng;
use crate::util::shorten;
use internal_iterator::InternalIterator;
use serde_json::json;
use ticc_syntax::cursor::{SyntaxElement, SyntaxNode};
use ticc_syntax::{NodeId, Pos, SyntaxBuilder, SyntaxKind, SyntaxTree, TokenKind, TriviaKind};

const KINDS: [SyntaxKind; 35] = {
    use SyntaxKind::*;
    [
        ImportItem, ExposedList, TypeItem, ValueItem, TypeParams, TypeCase, IntType, BoolType, StringType, FnType, NamedType, ParenType, ErrType, RecField, TypeField, NameExpr, NamespacedNameExpr, ApplyExpr, BinaryExpr, LetExpr, MatchExpr, IfExpr, BoolExpr, NumberExpr, StringExpr, LambdaExpr, ParenExpr, HoleExpr, MatchCase, MatchVars, BinaryOp, Name, Error, Trivia, Root,
    ]
};
const TOKENS: [TokenKind; 12] = {
    use TokenKind::*;
    [Import, Type, Equals, Pipe, Ident, Number, String, Hole, Backslash, Error, ArgPipe, End]
};
const TRIVIA: [TriviaKind; 3] = [TriviaKind::Space, TriviaKind::Newline, TriviaKind::Comment];

#[derive(Clone, Debug)]
enum M {
    Node { id: u32, kind: SyntaxKind, children: Vec<M>, start: usize, end: usize },
    Token(TokenKind, usize, usize),
    Trivia(TriviaKind, usize, usize),
}

impl M {
    fn full(&self) -> (usize, usize) {
        match self {
            M::Node { start, end, .. } => (*start, *end),
            M::Token(_, a, b) | M::Trivia(_, a, b) => (*a, *b),
        }
    }

    /// From where the first thing that counts starts to where the last one
    /// ends; nodes without any are at the place where they start.
    fn span(&self) -> (usize, usize) {
        match self {
            M::Node { children, start, .. } => {
                let mut real = children.iter().filter(|c| !matches!(c, M::Trivia(..)));
                let first = real.next();
                let last = real.last().or(first);
                match (first, last) {
                    (Some(a), Some(b)) => (a.span().0, b.span().1),
                    _ => (*start, *start),
                }
            }
            M::Token(_, a, b) | M::Trivia(_, a, b) => (*a, *b),
        }
    }

    fn walk<'a>(&'a self, out: &mut Vec<&'a M>) {
        out.push(self);
        if let M::Node { children, .. } = self {
            for c in children {
                c.walk(out);
            }
        }
    }
}

/// Builds a random node and its model, in step.
fn build(r: &mut Rng, b: &mut SyntaxBuilder, text: &mut &str, at: &mut usize, next: &mut u32, depth: usize, root: bool) -> M {
    let id = if r.chance(90) { *next } else { r.next() as u32 };
    *next += 1;
    let kind = *r.pick(&KINDS);
    let start = *at;
    let mut children = vec![];
    b.start_node(NodeId(id), kind);
    let n = if root { r.range(0, 12) } else { r.below(6) };
    for _ in 0..n {
        if depth > 0 && r.chance(45) {
            children.push(build(r, b, text, at, next, depth - 1, false));
            continue;
        }
        let mut len = r.below(6).min(text.len());
        while !text.is_char_boundary(len) {
            len += 1;
        }
        let (a, z) = (*at, *at + len);
        *text = &text[len..];
        *at = z;
        if r.chance(50) {
            let k = *r.pick(&TOKENS);
            b.add_token(k, len);
            children.push(M::Token(k, a, z));
        } else {
            let k = *r.pick(&TRIVIA);
            b.add_trivia(k, len);
            children.push(M::Trivia(k, a, z));
        }
    }
    if !root {
        b.finish_node();
    }
    M::Node { id, kind, children, start, end: *at }
}

type Bad = Option<(&'static str, String)>;

/// Compares an element with its model (not what is below it).
fn same(e: &SyntaxElement, m: &M, source: &str, base: usize) -> Bad {
    let sp = |s: ticc_syntax::Span| (s.start().source_pos(), s.end().source_pos());
    let text = |s: (usize, usize)| &source[s.0 - base..s.1 - base];
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {
            if $a != $b {
                return Some(($what, format!("is {:?}, should be {:?}, at {:?}", $a, $b, m.full())));
            }
        };
    }
    match (e, m) {
        (SyntaxElement::Node(n), M::Node { id, kind, children, .. }) => {
            eq!("id of a node", n.id(), NodeId(*id));
            eq!("kind of a node", n.kind(), *kind);
            eq!("whole span of a node", sp(n.full_span()), m.full());
            eq!("span of a node", sp(n.span()), m.span());
            eq!("whole text of a node", n.full_text(), text(m.full()));
            eq!("text of a node", n.text(), text(m.span()));
            eq!("number of parts of a node", n.all_children().count(), children.len());
            eq!("number of nodes in a node", n.children().count(), children.iter().filter(|c| matches!(c, M::Node { .. })).count());
            eq!("source range of a span", n.span().source_range(), m.span().0..m.span().1);
            eq!("length of a span", n.span().source_len(), m.span().1 - m.span().0);
        }
        (SyntaxElement::Token(t), M::Token(k, ..)) => {
            eq!("kind of a token", t.kind(), *k);
            eq!("span of a token", sp(t.span()), m.full());
            eq!("text of a token", t.text(), text(m.full()));
        }
        (SyntaxElement::Trivia(t), M::Trivia(k, ..)) => {
            eq!("kind of a trivia", t.kind(), *k);
            eq!("span of a trivia", sp(t.span()), m.full());
            eq!("text of a trivia", t.text(), text(m.full()));
        }
        _ => return Some(("part of a tree", format!("is another thing than was added at {:?}", m.full()))),
    }
    None
}

fn tree(n: SyntaxNode, m: &M, source: &str, base: usize) -> Bad {
    let bad = same(&SyntaxElement::Node(n), m, source, base);
    if bad.is_some() {
        return bad;
    }
    let M::Node { children, .. } = m else { unreachable!() };
    for (e, c) in n.all_children().zip(children) {
        let bad = match e {
            SyntaxElement::Node(x) if matches!(c, M::Node { .. }) => tree(x, c, source, base),
            e => same(&e, c, source, base),
        };
        if bad.is_some() {
            return bad;
        }
    }
    let nodes: Vec<&M> = children.iter().filter(|c| matches!(c, M::Node { .. })).collect();
    for (x, c) in n.children().zip(nodes) {
        let bad = same(&SyntaxElement::Node(x), c, source, base);
        if bad.is_some() {
            return bad;
        }
    }
    None
}

fn walks(t: &SyntaxTree, m: &M, source: &str, base: usize, r: &mut Rng) -> Bad {
    let mut all = vec![];
    m.walk(&mut all);
    let nodes: Vec<&M> = all.iter().copied().filter(|c| matches!(c, M::Node { .. })).collect();
    let seen: Vec<SyntaxElement> = t.root().descendant_elements().collect();
    if seen.len() != all.len() {
        return Some(("walk over all parts", format!("sees {} instead of {}", seen.len(), all.len())));
    }
    let seen_nodes: Vec<SyntaxNode> = t.root().descendants().collect();
    if seen_nodes.len() != nodes.len() {
        return Some(("walk over all nodes", format!("sees {} instead of {}", seen_nodes.len(), nodes.len())));
    }
    for (e, c) in seen.iter().zip(&all) {
        if let Some((_, d)) = same(e, c, source, base) {
            return Some(("order of the walk over all parts", d));
        }
    }
    for (e, c) in seen_nodes.iter().zip(&nodes) {
        if let Some((_, d)) = same(&SyntaxElement::Node(*e), c, source, base) {
            return Some(("order of the walk over all nodes", d));
        }
    }
    // stops where it is told to
    for _ in 0..4 {
        let stop = r.below(all.len());
        let mut k = 0;
        let found = t.root().descendant_elements().find_map(|e| {
            k += 1;
            if k == stop + 1 { Some(e) } else { None }
        });
        match found {
            Some(e) if k == stop + 1 && same(&e, all[stop], source, base).is_none() => {}
            _ => return Some(("walk over all parts that is stopped", format!("at {}: {} seen", stop, k))),
        }
        let stop = r.below(nodes.len());
        let mut k = 0;
        let found = t.root().descendants().find_map(|e| {
            k += 1;
            if k == stop + 1 { Some(e) } else { None }
        });
        match found {
            Some(e) if k == stop + 1 && same(&SyntaxElement::Node(e), nodes[stop], source, base).is_none() => {}
            _ => return Some(("walk over all nodes that is stopped", format!("at {}: {} seen", stop, k))),
        }
    }
    // what is below a node is what is below it in the whole
    let k = r.below(nodes.len());
    let below: usize = {
        let mut v = vec![];
        nodes[k].walk(&mut v);
        v.len()
    };
    if seen_nodes[k].descendant_elements().count() != below {
        return Some(("walk from a node", format!("{} parts", below)));
    }
    None
}

pub fn p39(ctx: &mut Ctx) {
    let mut r = ctx.rng("P39");
    let source: String = {
        let n = r.range(0, 160);
        (0..n).map(|_| *r.pick(&['a', 'b', ' ', '\n', '-', '\u{e9}', '\u{1f600}', '"', '0'])).collect()
    };
    let base = *r.pick(&[0usize, 0, 1, 17, 4096, 1_000_000_000]);
    let mut rest = source.as_str();
    let mut at = base;
    let mut next = 0;
    let depth = r.below(6);
    let got = guard(|| {
        let mut b = SyntaxBuilder::new(Pos::new(base as u32), &source);
        let m = build(&mut r, &mut b, &mut rest, &mut at, &mut next, depth, true);
        (b.finish(), m)
    });
    let files = vec![("text".to_owned(), source.clone())];
    ctx.begin(&files);
    let (t, m) = match got {
        Ok(x) => x,
        Err(e) => {
            ctx.fail("a tree cannot be built", e, &files);
            return;
        }
    };
    ctx.eval();
    let bad = guard(|| {
        let copy = t.clone();
        tree(t.root(), &m, &source, base).or_else(|| walks(&t, &m, &source, base, &mut r)).or_else(|| {
            let bad = tree(copy.root(), &m, &source, base);
            bad.map(|(_, d)| ("copy of a tree", d))
        })
    });
    match bad {
        Err(e) => ctx.fail("a tree cannot be read", e, &files),
        Ok(Some((what, d))) => ctx.fail(&format!("{} differs", what), format!("{}\ntree {}", d, shorten(&format!("{:?}", m), 1500)), &files),
        Ok(None) => {
            let mut all = vec![];
            m.walk(&mut all);
            ctx.count("parts_compared", all.len() as u64);
            ctx.count("empty_nodes", all.iter().filter(|m| m.full().0 == m.full().1).count() as u64);
            let shape: String = all.iter().map(|m| match m {
                M::Node { children, .. } => char::from(b'0' + children.len() as u8),
                M::Token(..) => 't',
                M::Trivia(..) => '-',
            }).collect();
            ctx.class(&shape);
            ctx.sample(|| json!({"shape": shorten(&shape, 120), "bytes": source.len(), "origin": base}));
        }
    }
}
