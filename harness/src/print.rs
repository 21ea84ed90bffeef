//! Turns a harness AST into source text and records where everything landed.
use crate::lang::*;
use crate::rng::Rng;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TK {
    Keyword,
    Punct,
    Op,
    Number,
    Str,
    Hole,
    /// identifier with the id of its name node
    Ident(Id),
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    pub kind: TK,
    /// innermost expression this token belongs to (0 = none)
    pub expr: Id,
}

#[derive(Default)]
pub struct Printer {
    pub toks: Vec<Tok>,
    cur: Vec<Id>,
    /// expression id -> (first token, last token)
    pub expr_range: HashMap<Id, (usize, usize)>,
    /// name id -> token
    pub name_tok: HashMap<Id, usize>,
    /// item index -> (first token, last token)
    pub items: Vec<(usize, usize)>,
}

#[derive(Clone, Debug)]
pub struct Printed {
    pub text: String,
    pub toks: Vec<Tok>,
    /// byte span of every token
    pub spans: Vec<(usize, usize)>,
    pub comments: Vec<(usize, usize)>,
    pub expr_range: HashMap<Id, (usize, usize)>,
    pub name_tok: HashMap<Id, usize>,
    pub items: Vec<(usize, usize)>,
}

impl Printed {
    pub fn name_span(&self, id: Id) -> Option<(usize, usize)> {
        self.name_tok.get(&id).map(|&t| self.spans[t])
    }
    pub fn expr_span(&self, id: Id) -> Option<(usize, usize)> {
        self.expr_range.get(&id).map(|&(a, b)| (self.spans[a].0, self.spans[b].1))
    }
    pub fn item_span(&self, i: usize) -> (usize, usize) {
        let (a, b) = self.items[i];
        (self.spans[a].0, self.spans[b].1)
    }
}

impl Printer {
    fn t(&mut self, text: &str, kind: TK) {
        let expr = self.cur.last().copied().unwrap_or(0);
        self.toks.push(Tok { text: text.to_owned(), kind, expr });
    }
    fn kw(&mut self, s: &str) {
        self.t(s, TK::Keyword)
    }
    fn p(&mut self, s: &str) {
        self.t(s, TK::Punct)
    }
    fn name(&mut self, n: &Name) {
        self.name_tok.insert(n.id, self.toks.len());
        self.t(&n.s, TK::Ident(n.id));
    }

    pub fn module(&mut self, m: &Module) {
        for i in &m.items {
            let start = self.toks.len();
            self.item(i);
            self.items.push((start, self.toks.len() - 1));
        }
    }

    fn item(&mut self, i: &Item) {
        match i {
            Item::Import(i) => {
                self.kw("import");
                if let Some(n) = &i.name {
                    self.name(n);
                }
                if let Some(ex) = &i.exposed {
                    self.p("(");
                    for (k, n) in ex.iter().enumerate() {
                        if k > 0 {
                            self.p(",");
                        }
                        self.name(n);
                    }
                    self.p(")");
                }
                self.kw("from");
                self.t(&format!("\"{}\"", i.path), TK::Str);
                self.p(";");
            }
            Item::Type(t) => {
                if t.export {
                    self.kw("export");
                }
                self.kw("type");
                self.name(&t.name);
                for p in &t.params {
                    self.name(p);
                }
                self.p("=");
                if t.export_ctors {
                    self.kw("export");
                }
                for (k, c) in t.ctors.iter().enumerate() {
                    if k > 0 || t.lead_pipe {
                        self.p("|");
                    }
                    self.name(&c.name);
                    for f in &c.fields {
                        match f {
                            Field::Rec => self.kw("rec"),
                            Field::Ty(t) => self.ty(t),
                        }
                    }
                }
                self.p(";");
            }
            Item::Value(v) => {
                if v.export {
                    self.kw("export");
                }
                self.kw("let");
                self.name(&v.name);
                if let Some(t) = &v.ty {
                    self.p(":");
                    self.ty(t);
                }
                self.p("=");
                self.expr(&v.expr);
                self.p(";");
            }
        }
    }

    fn ty(&mut self, t: &TyE) {
        match t {
            TyE::Int => self.kw("int"),
            TyE::Bool => self.kw("bool"),
            TyE::Str => self.kw("string"),
            TyE::Fn(a, b) => {
                self.ty(a);
                self.p("->");
                self.ty(b);
            }
            TyE::Named { ns, name, args } => {
                if let Some(ns) = ns {
                    self.name(ns);
                    self.p(".");
                }
                self.name(name);
                for a in args {
                    self.ty(a);
                }
            }
            TyE::Paren(t) => {
                self.p("(");
                self.ty(t);
                self.p(")");
            }
        }
    }

    fn expr(&mut self, e: &Expr) {
        let start = self.toks.len();
        self.cur.push(e.id);
        match &*e.k {
            EK::Int(s) => self.t(s, TK::Number),
            EK::Bool(b) => self.kw(if *b { "true" } else { "false" }),
            EK::Str(s) => self.t(&format!("\"{}\"", s), TK::Str),
            EK::Var(n) => self.name(n),
            EK::Ns(a, b) => {
                self.name(a);
                self.p(".");
                self.name(b);
            }
            EK::App(a, b) => {
                self.expr(a);
                self.expr(b);
            }
            EK::Op(a, op, b) => {
                self.expr(a);
                self.t(op.text(), TK::Op);
                self.expr(b);
            }
            EK::Let(n, ty, v, b) => {
                self.kw("let");
                self.name(n);
                if let Some(t) = ty {
                    self.p(":");
                    self.ty(t);
                }
                self.p("=");
                self.expr(v);
                self.p(";");
                self.expr(b);
            }
            EK::Match(d, cases) => {
                self.kw("match");
                self.expr(d);
                self.kw("with");
                for c in cases {
                    self.p("|");
                    if let Some(ns) = &c.ns {
                        self.name(ns);
                        self.p(".");
                    }
                    self.name(&c.ctor);
                    for v in &c.vars {
                        self.name(v);
                    }
                    self.p("->");
                    self.expr(&c.body);
                }
                self.kw("end");
            }
            EK::If(a, b, c) => {
                self.kw("if");
                self.expr(a);
                self.kw("then");
                self.expr(b);
                self.kw("else");
                self.expr(c);
            }
            EK::Lam(n, b) => {
                self.p("\\");
                self.name(n);
                self.p("->");
                self.expr(b);
            }
            EK::Fold(n, b) => {
                self.p("\\");
                self.kw("fold");
                self.name(n);
                self.p("->");
                self.expr(b);
            }
            EK::Paren(i) => {
                self.p("(");
                self.expr(i);
                self.p(")");
            }
            EK::Hole(s) => self.t(&format!("?{}", s), TK::Hole),
        }
        self.cur.pop();
        self.expr_range.insert(e.id, (start, self.toks.len() - 1));
    }

    pub fn layout(self, rng: &mut Rng, style: Style) -> Printed {
        let mut text = String::new();
        let mut spans = Vec::with_capacity(self.toks.len());
        let mut comments = Vec::new();
        let nl = |rng: &mut Rng| -> &'static str {
            if style.crlf && rng.chance(50) { "\r\n" } else { "\n" }
        };
        let comment = |text: &mut String, comments: &mut Vec<(usize, usize)>, rng: &mut Rng| {
            let start = text.len();
            text.push_str("--");
            let words = ["", " note", " žąsis", " let x = 1;", " \"quote", " -- more", " 🦀🦀 end", " \u{1F469}\u{200D}x", " ?hole", "\t tab"];
            for _ in 0..rng.range(0, 2) {
                let w = *rng.pick(&words);
                if style.unicode || w.is_ascii() {
                    text.push_str(w);
                }
            }
            comments.push((start, text.len()));
            // a comment runs to the line feed, so a carriage return would be part of it
            text.push('\n');
        };
        let item_starts: std::collections::HashSet<usize> = self.items.iter().map(|r| r.0).collect();
        if style.comments > 0 && rng.chance(20) {
            comment(&mut text, &mut comments, rng);
        } else if rng.chance(10) && !style.plain {
            text.push_str(nl(rng));
        }
        for (i, tok) in self.toks.iter().enumerate() {
            if i > 0 {
                let prev = &self.toks[i - 1];
                if style.plain {
                    if item_starts.contains(&i) {
                        text.push('\n');
                    } else {
                        text.push(' ');
                    }
                } else if item_starts.contains(&i) && rng.chance(75) {
                    if rng.chance(style.comments) {
                        text.push(' ');
                        comment(&mut text, &mut comments, rng);
                    } else {
                        text.push_str(nl(rng));
                    }
                    if rng.chance(30) {
                        text.push_str(nl(rng));
                    }
                } else if rng.chance(style.comments) {
                    text.push(' ');
                    comment(&mut text, &mut comments, rng);
                    for _ in 0..rng.below(6) {
                        text.push(' ');
                    }
                } else if rng.chance(style.newlines) {
                    text.push_str(nl(rng));
                    for _ in 0..rng.below(9) {
                        text.push(' ');
                    }
                } else {
                    let can_join = can_join(&prev.text, &tok.text);
                    if !(can_join && rng.chance(60)) {
                        text.push(' ');
                        if rng.chance(5) {
                            text.push_str("   ");
                        }
                    }
                }
            }
            let start = text.len();
            text.push_str(&tok.text);
            spans.push((start, text.len()));
        }
        if !style.plain {
            match rng.below(4) {
                0 => {}
                1 => {
                    // trailing comment without a line feed at the end of the file
                    text.push(' ');
                    let start = text.len();
                    text.push_str("-- end");
                    comments.push((start, text.len()));
                }
                _ => text.push_str(nl(rng)),
            }
        }
        Printed {
            text,
            toks: self.toks,
            spans,
            comments,
            expr_range: self.expr_range,
            name_tok: self.name_tok,
            items: self.items,
        }
    }
}

fn can_join(a: &str, b: &str) -> bool {
    let solid = |s: &str| matches!(s, "(" | ")" | ";" | "," | "\\" | ".");
    if solid(a) || solid(b) {
        // digits followed by a dot or the like are separate tokens anyway
        return true;
    }
    false
}

#[derive(Clone, Copy)]
pub struct Style {
    pub plain: bool,
    pub comments: u32,
    pub newlines: u32,
    pub crlf: bool,
    pub unicode: bool,
}

pub const PLAIN: Style = Style { plain: true, comments: 0, newlines: 0, crlf: false, unicode: false };
pub const FANCY: Style = Style { plain: false, comments: 6, newlines: 12, crlf: true, unicode: true };
pub const MILD: Style = Style { plain: false, comments: 2, newlines: 10, crlf: false, unicode: true };

pub fn print_module(m: &Module, rng: &mut Rng, style: Style) -> Printed {
    let mut p = Printer::default();
    p.module(m);
    p.layout(rng, style)
}
